"""C07: the field size limit is exact, and changes only when asked to"""

import csv
import io
import os
import sys
import tempfile

import clevercsv
from clevercsv.cparser_util import field_size_limit, parse_data, parse_string
from clevercsv.detect import Detector
from clevercsv.dialect import SimpleDialect

from lib import gen
from lib.engine import Stratum
from lib.models import parser as P

ID = "C07"
RULE = (
    "A case is a text, dialect and limit (records compared with what the "
    "grammar gives without a limit), a sequence of calls that set the limit "
    "(compared with a state machine), or a history of operations with a "
    "monitor on the limits of clevercsv and of csv. Non-trivial: the limit "
    "is at most the size of the largest cell plus one, or the history has at "
    "least two operations; distinct by text, dialect and limit."
)
TECHNIQUE = "runtime monitoring: records under a limit checked against the unlimited grammar model; state monitor on the limits of both modules over histories of operations"
LEVEL_NOTE = "Limits around every cell size of random texts, and around the buffer and default sizes; trusts the grammar model of C01."
REQUIRED = [
    "cells that fit exactly",
    "cells one too large",
    "limit calls compared",
    "readers made before the limit was set",
    "operations monitored",
    "detections under a small limit",
]
DEFAULT = 128 * 1024


class limit:
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = clevercsv.field_size_limit(self.n)

    def __exit__(self, *a):
        clevercsv.field_size_limit(self.old)


def read(how, text, d, q, e, strict, lim, before=None):
    """[rows..., None for an Error]; the limit is in force already"""
    dia = SimpleDialect(d, q, e, strict=strict)
    lines = P.split_lines(text)
    if before is not None:
        # the reader is made before the limit is set
        field_size_limit(before)
    if how == "reader":
        it = clevercsv.reader(io.StringIO(text, newline=""), dia)
    elif how == "lines":
        it = clevercsv.reader(lines, delimiter=d, quotechar=q, escapechar=e, strict=strict)
    elif how == "parse_string":
        it = parse_string(text, dia)
    elif how == "argument":
        it = parse_data(lines, dialect=dia, field_limit=lim)
    elif how == "quoted":
        it = ([c for c, _ in row] for row in parse_data(lines, dialect=dia, return_quoted=True))
    else:
        it = parse_data(lines, dialect=dia)
    if before is not None:
        field_size_limit(lim)
    out = []
    try:
        for row in it:
            out.append(row)
    except clevercsv.Error:
        out.append(None)
    return out


HOW = ["reader", "lines", "parse_string", "argument", "quoted", "parse_data"]


def judge(ctx, rng, text, d, q, e, strict, lim, how, big=False):
    want = []
    top = 0
    p = P.Parser(P.split_lines(text), d, q, e, strict=strict)
    while True:
        try:
            row = next(p)
        except StopIteration:
            break
        except P.ModelError:
            want.append(None)
            break
        size = max([len(c) for c in row] or [0])
        top = max(top, size)
        if size > lim:
            want.append(None)
            break
        want.append(row)
    if how == "argument":
        got = read(how, text, d, q, e, strict, lim)
    else:
        with limit(lim):
            before = rng.choice([0, 1, DEFAULT, 1 << 30]) if how in ("reader", "lines") and rng.random() < 0.2 else None
            got = read(how, text, d, q, e, strict, lim, before)
            if before is not None:
                ctx.event("readers made before the limit was set")
            if field_size_limit() != lim:
                ctx.fail("reading changed the limit", how=how)
    if got != want:
        ctx.fail(
            "records under the limit %d" % lim,
            got=got,
            want=want,
            text=text,
            dialect=(d, q, e, strict),
            how=how,
        )
    if top == lim:
        ctx.event("cells that fit exactly")
    if top == lim + 1:
        ctx.event("cells one too large")
    if top >= lim - 1:
        ctx.nontrivial(text if not big else len(text), d, q, e, strict, lim, how)


def exact(ctx, rng, i):
    d, q, e = gen.dialect_chars(rng)
    text = gen.soup(rng, d, q, e, rng.randint(1, 40))
    strict = rng.random() < 0.25
    sizes = set()
    p = P.Parser(P.split_lines(text), d, q, e, strict=strict)
    try:
        for row in p:
            sizes |= {len(c) for c in row}
    except P.ModelError:
        pass
    lims = {n + k for n in sizes for k in (-1, 0, 1)} | {rng.randint(0, 20)}
    for lim in rng.sample(sorted(n for n in lims if n >= 0), min(len(lims) - (-1 in lims), 5)):
        judge(ctx, rng, text, d, q, e, strict, lim, rng.choice(HOW))
    ctx.sample((text, d, q, e))


def big(ctx, rng, i):
    d, q, e = rng.choice(gen.COMMON_D), rng.choice(["", '"', "'"]), rng.choice(["", "\\"])
    n = rng.choice([4095, 4096, 4097, 8192, 16384, DEFAULT - 1, DEFAULT, DEFAULT + 1, 200000])
    size = n + rng.choice([-2, -1, 0, 0, 1, 1, 2])
    if rng.random() < 0.4:
        n = DEFAULT
    unit = rng.choice(["a", "\u00e9", "\u4e2d", "\U0001f600", "ab", "x\u4e2d"])
    body = (unit * size)[:size]
    raw = body
    if q and rng.random() < 0.7:
        k = rng.choice([0, 1, 3])
        body = body[: len(body) - k] + (q * k)
        if rng.random() < 0.3:
            body = body[:10] + "\n" + body[11:]
        raw = q + body.replace(q, q + q) + q
    elif e and rng.random() < 0.5:
        body = body[: len(body) - 2] + d + e
        raw = body.replace(e, e + e).replace(d, e + d)
    cells = ["x", raw, "y"][rng.randint(0, 1) : rng.randint(2, 3)]
    if raw not in cells:
        cells.append(raw)
    text = rng.choice(["", "p%sq\n" % d]) + d.join(cells) + rng.choice(["", "\n", "\r\n", "\r"])
    if rng.random() < 0.5:
        text += "r%ss\n" % d if text[-1] in "\r\n" else ""
    judge(ctx, rng, text, d, q, e, False, n, rng.choice(HOW), big=True)
    ctx.maxi("largest cell", size)


def calls(ctx, rng, i):
    """The interface, against a state machine"""

    class Int(int):
        pass

    start = clevercsv.field_size_limit()
    state = start
    log = []
    try:
        for _ in range(rng.randint(1, 12)):
            fn = rng.choice([clevercsv.field_size_limit, field_size_limit])
            r = rng.random()
            if r < 0.3:
                args, kw, new = (), {}, None
            elif r < 0.55:
                new = rng.choice([0, 1, 5, DEFAULT, 1 << 30, sys.maxsize, Int(7), True, rng.randint(0, 10000)])
                args, kw = ((new,), {}) if rng.random() < 0.7 else ((), {"limit": new})
            elif r < 0.8:
                new = "bad"
                args, kw = (rng.choice([None, 1.0, "1", b"1", [1], 2.5, (5,), object(), 1 << 70, -(1 << 80), float("inf"), "abc"]),), {}
            else:
                new = "bad"
                args, kw = rng.choice([((1, 2), {}), ((1, None), {}), ((1,), {"limit": 2}), ((1, 2, 3), {})])
            log.append((args, kw))
            out = ctx.call(fn, *args, **kw)
            if new == "bad":
                ctx.check(isinstance(out.exc, (TypeError, OverflowError)), "invalid limit accepted", got=out, calls=log)
            else:
                ctx.same(out.value, state, "previous value", calls=log)
                ctx.check(out.exc is None, "valid limit refused", got=out, calls=log)
                if new is not None:
                    state = int(new)
            ctx.same(clevercsv.field_size_limit(), state, "value after a call", calls=log)
            ctx.event("limit calls compared")
            if rng.random() < 0.3 and state >= 0:
                n = min(state, 300)
                rows = ctx.call(lambda: list(clevercsv.reader(["a" * n + "\n"])))
                ctx.same(rows.value, [["a" * n] if n else []], "reading under the limit", calls=log)
                if state < 300:
                    rows = ctx.call(lambda: list(clevercsv.reader(["a" * (n + 1) + "\n"])))
                    ctx.check(isinstance(rows.exc, clevercsv.Error), "too large a cell accepted", calls=log)
    finally:
        clevercsv.field_size_limit(start)
    ctx.nontrivial("calls", repr(log))


class Boom(Exception):
    pass


def broken():
    yield "a,b\n"
    raise Boom


def operations(rng, text, path):
    def wr():
        buf = io.StringIO()
        clevercsv.writer(buf).writerows([["a" * 50, 1]])

    def nul():
        Detector().detect("a,b\0\n" * 3)

    return [
        ("detect", lambda: Detector().detect(text)),
        ("consistency", lambda: Detector().detect(text, method="consistency", skip=rng.random() < 0.5)),
        ("normal", lambda: Detector().detect(text, method="normal")),
        ("detect nul", nul),
        ("sniff", lambda: clevercsv.Sniffer().sniff(text)),
        ("has_header", lambda: clevercsv.Sniffer().has_header(text)),
        ("read", lambda: list(clevercsv.reader(io.StringIO(text, newline="")))),
        ("read part", lambda: next(clevercsv.reader(io.StringIO(text, newline="")))),
        ("read broken", lambda: list(clevercsv.reader(broken()))),
        ("parse limit", lambda: list(parse_data([text], delimiter=",", field_limit=rng.choice([0, 5, 1000])))),
        ("parse_string limit", lambda: list(parse_string(text, SimpleDialect(",", "", ""), field_limit=3))),
        ("dicts", lambda: list(clevercsv.DictReader(io.StringIO(text, newline="")))),
        ("write", wr),
        ("read_table", lambda: clevercsv.read_table(path)),
        ("stream part", lambda: next(clevercsv.stream_table(path))),
        ("read_dicts", lambda: clevercsv.read_dicts(path)),
        ("detect_dialect", lambda: clevercsv.detect_dialect(path)),
        ("csv read", lambda: list(csv.reader(io.StringIO(text, newline="")))),
    ]


def histories(ctx, rng, i):
    """Operations leave both limits alone, whether they succeed or fail"""
    path = os.path.join(tempfile.gettempdir(), "lim_%d.csv" % os.getpid())
    cstart = csv.field_size_limit()
    clim = rng.choice([cstart, 131072, 7, 1 << 20])
    lim = rng.choice([DEFAULT, 0, 1, 3, 8, 40, 1 << 30])
    log = []
    try:
        csv.field_size_limit(clim)
        with limit(lim):
            for _ in range(rng.randint(2, 6)):
                text = gen.sample_text(rng)
                with open(path, "w", newline="", encoding="utf-8") as f:
                    f.write(text)
                name, op = rng.choice(operations(rng, text, path))
                out = ctx.call(op)
                log.append((name, text, out))
                if name == "csv read":
                    continue
                if out.exc is not None and not isinstance(
                    out.exc,
                    (clevercsv.Error, clevercsv.exceptions.NoDetectionResult, StopIteration, Boom, UnicodeError),
                ):
                    if not (name == "has_header" or isinstance(out.exc, TypeError) and name in ("sniff", "dicts", "read_dicts")):
                        raise out.exc
                ctx.same(clevercsv.field_size_limit(), lim, "the limit changed", history=log)
                ctx.same(csv.field_size_limit(), clim, "the limit of csv changed", history=log)
                ctx.event("operations monitored")
                ctx.event("operation " + name)
    finally:
        csv.field_size_limit(cstart)
        if os.path.exists(path):
            os.unlink(path)
    ctx.nontrivial("history", lim, clim, tuple((n, t) for n, t, _ in log))
    ctx.sample((lim, clim, [n for n, _, _ in log]))


def detection(ctx, rng, i):
    """Cells over the limit don't disturb detection"""
    text = gen.sample_text(rng)
    if rng.random() < 0.2:
        # a cell longer than the default limit of nothing, but than this one
        text += rng.choice(["x", "ab ", "1"]) * rng.randint(20, 200) + "\n"
    method = rng.choice(["auto", "consistency", "normal"])
    skip = rng.random() < 0.5
    delims = rng.choice([None, None, [",", ";"], ",;|\t"])
    kw = dict(method=method, skip=skip, delimiters=delims)
    want = ctx.call(Detector().detect, text, **kw)
    for lim in (0, rng.randint(1, 5), rng.randint(1, 30)):
        for clim in (None, 0, rng.randint(1, 30)):
            old = csv.field_size_limit()
            if clim is not None:
                csv.field_size_limit(clim)
            try:
                with limit(lim):
                    got = ctx.call(Detector().detect, text, **kw)
                    now = clevercsv.field_size_limit()
            finally:
                csv.field_size_limit(old)
            ctx.same(got.key(), want.key(), "detection under the limits %s and %s" % (lim, clim), text=text, options=kw)
            ctx.same(now, lim, "detection changed the limit", text=text)
            ctx.event("detections under a small limit")
    if len(text) > 5:
        ctx.nontrivial("detect", text, method, skip)


def huge(ctx, rng, i):
    """Detection with a cell over the default limit"""
    n = DEFAULT + rng.choice([1, 50, 5000])
    cell = (rng.choice(["a ", "b c ", "7 ", "ab cd. "]) * n)[:n]
    q = rng.choice(["", '"'])
    text = "x,y,z\r\n" + "1,%s%s%s,3\r\n" % (q, cell, q) + "2,q,4\r\n"
    got = Detector().detect(text, method=rng.choice(["auto", "consistency"]))
    ctx.check(got is not None and got.delimiter == ",", "detection with a large cell", got=got)
    ctx.same(clevercsv.field_size_limit(), DEFAULT, "the limit changed")
    out = ctx.call(lambda: list(clevercsv.reader(io.StringIO(text, newline=""), got)))
    ctx.check(isinstance(out.exc, clevercsv.Error), "too large a cell was read")
    with limit(n):
        rows = list(clevercsv.reader(io.StringIO(text, newline=""), got))
    ctx.same(len(rows[1][1]) in (n, n + 2), True, "size of the cell")
    ctx.event("detections with a huge cell")


STRATA = [
    Stratum("exact", exact, 60000, 500000),
    Stratum("big", big, 2400, 8000),
    Stratum("calls", calls, 12000, 60000),
    Stratum("histories", histories, 6000, 40000),
    Stratum("detection", detection, 2400, 20000),
    Stratum("huge", huge, 8, 60),
]
