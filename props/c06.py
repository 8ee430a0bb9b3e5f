"""C06: records are streamed once, in order, lazily"""

import gc
import io
import itertools
import os
import sys
import tempfile
import weakref

import clevercsv
from clevercsv.cparser_util import parse_data
from clevercsv.dialect import SimpleDialect

from lib import gen
from lib.engine import Stratum
from lib.models import parser as P

ID = "C06"
RULE = (
    "A case is a text, a dialect, a kind of source and a random history of "
    "consuming operations on one or more readers; a monitored source logs "
    "each request for a line, and the log, the records and what is still "
    "alive are compared with a reference parser that pulls its own lines. "
    "Non-trivial: at least two records were delivered; distinct by text, "
    "dialect and history."
)
TECHNIQUE = "runtime monitoring: online checker of the interleaving of line requests and record deliveries against a pulling reference parser, plus liveness (weak reference) and memory monitors"
LEVEL_NOTE = "Random texts, dialects and histories of operations; trusts the reference parser of C01 for where records end."
REQUIRED = [
    "records delivered",
    "line requests checked",
    "line lifetimes checked",
    "interleaved readers",
    "exhausted readers asked again",
    "large inputs streamed",
    "files streamed",
]


class Line(str):
    pass


class Source:
    """Logs the requests, keeps weak references to the lines"""

    def __init__(self, lines, track=False):
        self.lines = lines
        self.asked = 0
        self.k = 0
        self.track = track
        self.refs = []

    def __iter__(self):
        return self

    def __next__(self):
        self.asked += 1
        if self.k >= len(self.lines):
            raise StopIteration
        x = self.lines[self.k]
        self.k += 1
        if self.track:
            x = Line(x)
            self.refs.append(weakref.ref(x))
        return x

    def alive(self):
        self.refs = [r for r in self.refs if r() is not None]
        return len(self.refs)


class Model:
    """Reference parser over the same lines, with its own log"""

    def __init__(self, lines, dialect):
        self.src = Source(lines)
        self.p = P.Parser(self.src, *dialect)
        self.dead = False

    def next(self):
        try:
            return ("row", next(self.p))
        except StopIteration:
            return ("end",)
        except P.ModelError as e:
            return ("error", e.kind)


def pull(ctx, it):
    out = ctx.call(next, it)
    if out.exc is None:
        return ("row", out.value)
    if isinstance(out.exc, StopIteration):
        return ("end",)
    if isinstance(out.exc, (clevercsv.Error, clevercsv.cparser.Error)):
        return ("error",)
    raise out.exc


def text_and_dialect(rng):
    d, q, e = gen.dialect_chars(rng)
    if not d:
        d = rng.choice([x for x in ",;" if x not in (q, e)])
    if rng.random() < 0.5:
        rows = rng.randint(2, 8)
        text = gen.messy(rng, rows=rows, d=d, q=q, e=e)
    else:
        text = gen.soup(rng, d, q, e, rng.randint(5, 60))
    return text, (d, q, e)


def make(rng, src, dialect, kind):
    d, q, e = dialect
    if kind == "reader":
        return clevercsv.reader(src, delimiter=d, quotechar=q, escapechar=e)
    if kind == "simple":
        return clevercsv.reader(src, SimpleDialect(d, q, e))
    return parse_data(src, delimiter=d, quotechar=q, escapechar=e)


def lazy(ctx, rng, i):
    """Requests and deliveries, one record at a time"""
    text, dialect = text_and_dialect(rng)
    lines = P.split_lines(text)
    if rng.random() < 0.2:
        # lines without their ends, as str.splitlines() gives them
        lines = [x.rstrip("\r\n") for x in lines]
    src = Source(lines, track=True)
    kind = rng.choice(["reader", "simple", "parse_data"])
    it = make(rng, src, dialect, kind)
    info = dict(lines=lines, dialect=dialect, kind=kind)
    ctx.same(src.asked, 0, "lines requested before a record was", **info)
    if kind != "parse_data" and rng.random() < 0.3:
        iter(it)
        ctx.same(src.asked, 0, "lines requested by iter()", **info)
    model = Model(lines, dialect)
    n = 0
    for _ in range(len(lines) + 3):
        want = model.next()
        got = pull(ctx, it)
        if want[0] == "error":
            ctx.same(got[0], "error", "an error was expected", **info)
            ctx.same(src.k, model.src.k, "lines requested at an error", **info)
            break
        ctx.same(got, want, "record %d" % n, **info)
        ctx.event("line requests checked")
        if src.asked > model.src.asked or src.k != model.src.k:
            ctx.fail(
                "record %d delivered after %d requests, needs %d"
                % (n, src.asked, model.src.asked),
                **info,
            )
        alive = src.alive()
        ctx.event("line lifetimes checked")
        if alive > 1:
            ctx.fail("%d lines are kept" % alive, **info)
        if want[0] == "end":
            break
        n += 1
    else:
        ctx.fail("the reader does not end", **info)
    ctx.event("records delivered", n)
    if n > 1:
        ctx.nontrivial(text, dialect, kind)
    ctx.sample(info)


def sources(rng, text, lines, name):
    if name == "list":
        return list(lines)
    if name == "tuple":
        return tuple(lines)
    if name == "generator":
        return (x for x in lines)
    if name == "stringio":
        return io.StringIO(text, newline="")
    if name == "iter":
        return iter(lines)
    if name == "map":
        return map(str, lines)
    if name == "dict":
        return {k: None for k in lines} if len(set(lines)) == len(lines) else lines
    if name == "getitem":

        class G:
            def __getitem__(self, k):
                return lines[k]

        return G()
    if name == "iterable":

        class It:
            def __iter__(self):
                return iter(lines)

        return It()
    raise AssertionError(name)


KINDS = ["list", "tuple", "generator", "stringio", "iter", "map", "dict", "getitem", "iterable"]


def histories(ctx, rng, i):
    """A random mix of consuming operations on a single reader"""
    text, dialect = text_and_dialect(rng)
    lines = P.split_lines(text)
    try:
        want = P.parse(text, *dialect)
    except P.ModelError:
        ctx.event("malformed texts left out")
        return
    name = rng.choice(KINDS)
    kind = rng.choice(["reader", "reader", "simple", "parse_data"])
    src = sources(rng, text, lines, name)
    it = make(rng, src, dialect, kind)
    got, ops = [], []
    for _ in range(rng.randint(1, 12)):
        op = rng.choice(["next", "next", "for", "islice", "iter", "zip", "list", "dflt", "comp", "unpack"])
        ops.append(op)
        if op == "next":
            try:
                got.append(next(it))
            except StopIteration:
                ops.append("end")
        elif op == "dflt":
            x = next(it, None)
            if x is not None:
                got.append(x)
        elif op == "for":
            k = rng.randint(1, 3)
            for row in it:
                got.append(row)
                k -= 1
                if k == 0:
                    break
        elif op == "islice":
            got.extend(itertools.islice(it, rng.randint(0, 3)))
        elif op == "iter":
            it2 = iter(it)
            if rng.random() < 0.5:
                got.extend(itertools.islice(it2, rng.randint(0, 2)))
            if rng.random() < 0.3:
                it = it2
        elif op == "zip":
            got.extend(r for _, r in zip(range(rng.randint(0, 2)), it))
        elif op == "comp" and rng.random() < 0.3:
            got += [r for r in it]
        elif op == "unpack" and rng.random() < 0.3:
            got += [*it]
        elif op == "list" and rng.random() < 0.3:
            got += list(it)
        # in order, nothing lost or repeated so far
        if got != want[: len(got)]:
            ctx.fail("records", got=got, want=want, ops=ops, source=name, kind=kind, text=text, dialect=dialect)
        if kind != "parse_data":
            ctx.same(it.line_num, len(got), "record counter", ops=ops)
    got += list(it)
    info = dict(ops=ops, source=name, kind=kind, text=text, dialect=dialect)
    ctx.same(got, want, "all records", **info)
    for _ in range(2):
        ctx.same(list(it), [], "an exhausted reader", **info)
        ctx.same(next(it, "none"), "none", "an exhausted reader", **info)
    ctx.event("exhausted readers asked again")
    ctx.event("records delivered", len(got))
    ctx.event("source " + name)
    if len(got) > 1:
        ctx.nontrivial(text, dialect, tuple(ops), name)
    ctx.sample(info)


def turns(ctx, rng, i):
    """Several readers, each with its dialect, take turns on one source"""
    text, dialect = text_and_dialect(rng)
    lines = P.split_lines(text)
    dialects = [dialect] + [gen.dialect_chars(rng) for _ in range(rng.randint(1, 2))]
    src, msrc = Source(lines), Source(lines)
    its = [make(rng, src, d, "reader") for d in dialects]
    models = [P.Parser(msrc, *d) for d in dialects]
    log = []
    for _ in range(len(lines) + 4):
        k = rng.randrange(len(its))
        log.append(k)
        info = dict(lines=lines, dialects=dialects, turns=log)
        try:
            want = ("row", next(models[k]))
        except StopIteration:
            want = ("end",)
        except P.ModelError:
            want = ("error",)
        got = pull(ctx, its[k])
        ctx.same(got, want, "turn %d" % len(log), **info)
        ctx.same(src.k, msrc.k, "requests at turn %d" % len(log), **info)
        ctx.event("line requests checked")
        if want[0] == "error":
            break
        if rng.random() < 0.1:
            # a line of the source is taken by someone else
            ctx.same(next(src, None), next(msrc, None), "the rest of the source", **info)
    ctx.event("interleaved readers")
    ctx.nontrivial(text, tuple(dialects), tuple(log))


def dicts(ctx, rng, i):
    """DictReader is lazy and delivers each row once"""
    nc = rng.randint(1, 4)
    rows = [[gen.word(rng) for _ in range(nc)] for _ in range(rng.randint(1, 8))]
    lines = ['"%s"\r\n' % '","'.join(r) for r in rows]
    names = [gen.word(rng) + str(k) for k in range(nc)] if rng.random() < 0.5 else None
    src = Source(lines, track=True)
    r = clevercsv.DictReader(src, fieldnames=names)
    ctx.same(src.asked, 0, "lines requested by the constructor")
    body = rows if names else rows[1:]
    keys = names or rows[0]
    if len(set(keys)) < len(keys):
        return
    got = []
    while True:
        # in pieces
        before = len(got)
        k = rng.randint(1, 3)
        for row in itertools.islice(r, k):
            got.append(row)
        ctx.same(got, [dict(zip(keys, b)) for b in body[: len(got)]], "dictionaries", lines=lines)
        need = len(got) + (0 if names else 1)
        if len(got) < before + k:
            break
        ctx.check(src.asked == need, "%d lines requested for %d rows" % (src.asked, len(got)), lines=lines)
        ctx.event("line requests checked")
        ctx.check(src.alive() <= 1, "lines are kept")
    ctx.same(len(got), len(body), "number of dictionaries", lines=lines)
    ctx.event("records delivered", len(got))
    if len(got) > 1:
        ctx.nontrivial("dict", tuple(lines))


def streaming(ctx, rng, i):
    """The memory used does not depend on the size of the input"""
    kind = rng.choice(["reader", "parse_data", "dict", "errors"])
    n = 20000 if i % 8 else 140000
    wide = rng.choice(["", "\u00e9", "\U0001f600"])
    multi = rng.random() < 0.3

    asked = 0

    def lines():
        nonlocal asked
        for k in range(n):
            asked += 2 if multi else 1
            if multi:
                yield 'r%d%s,"a\n' % (k, wide)
                yield 'b",%d\n' % k
            else:
                yield 'r%d%s,"a ""q"" %d",%d\n' % (k, wide, k, k)

    if kind == "dict":
        it = clevercsv.DictReader(lines(), fieldnames=["a", "b", "c"])
    elif kind == "parse_data":
        it = parse_data(lines(), delimiter=",", quotechar='"', escapechar="")
    else:
        it = clevercsv.reader(lines())
    low = None
    count = 0
    gc.collect()
    for row in it:
        k = count
        count += 1
        # the second line of a record is requested at once
        if asked != count * (2 if multi else 1):
            ctx.fail("record %d delivered after %d lines were requested" % (k, asked), kind=kind, multi=multi)
        cells = ["r%d%s" % (k, wide), "a\nb" if multi else 'a "q" %d' % k, str(k)]
        if kind == "dict":
            row = list(row.values())
        if row != cells:
            ctx.fail("record %d of a large input" % k, got=row, want=cells, kind=kind, multi=multi)
        ctx.event("line requests checked")
        if count == 2000:
            low = sys.getallocatedblocks()
        elif count > 2000 and count % 2000 == 0:
            now = sys.getallocatedblocks()
            ctx.maxi("blocks over the first 2000 records", now - low)
            if now - low > 1500:
                ctx.fail("memory grows with the input: %d blocks" % (now - low), kind=kind)
    ctx.same(count, n, "number of records", kind=kind)
    ctx.event("records delivered", count)
    ctx.event("large inputs streamed")


def files(ctx, rng, i):
    """stream_table and stream_dicts read the file as they go"""
    n = rng.randint(4000, 30000)
    path = os.path.join(tempfile.gettempdir(), "stream_%d_%d.csv" % (os.getpid(), i))
    nl = rng.choice(["\n", "\r\n"])
    with open(path, "w", newline="", encoding="utf-8") as f:
        f.write("a,b,c" + nl)
        for k in range(n):
            f.write("%d,\u00e9%s,%d" % (k, "x" * (k % 50), k * 7) + nl)
    size = os.path.getsize(path)
    try:
        fn = rng.choice([clevercsv.stream_table, clevercsv.stream_dicts])
        it = fn(path, dialect=rng.choice(["excel", SimpleDialect(",", '"', "")]), encoding="utf-8")
        k = 0
        done = 0
        low = None
        for row in it:
            k += 1
            done += len(row if isinstance(row, str) else "")
            if k == 1:
                pos = position(path)
                if pos is not None:
                    ctx.check(pos <= 65536 + 8192, "%d of %d bytes read for the first record" % (pos, size))
                    ctx.event("files streamed")
            if k == 500:
                low = sys.getallocatedblocks()
            elif k % 2000 == 0 and low is not None:
                pos = position(path)
                if pos is not None:
                    # the block that is read, and what's decoded of it
                    at = sum(len("%d,\u00e9%s,%d" % (j, "x" * (j % 50), j * 7)) + 1 + len(nl) for j in range(k)) + 5 + len(nl)
                    ctx.check(pos <= at + 65536 + 8192, "%d of %d bytes read for record %d at %d" % (pos, size, k, at))
                    ctx.event("file positions checked")
                if sys.getallocatedblocks() - low > 1500:
                    ctx.fail("memory grows with the file")
        ctx.same(k, n + (1 if fn is clevercsv.stream_table else 0), "number of records")
        ctx.event("records delivered", k)
        ctx.nontrivial("file", n, nl)
    finally:
        os.unlink(path)


def position(path):
    for fd in os.listdir("/proc/self/fd"):
        try:
            if os.path.samefile(os.readlink("/proc/self/fd/" + fd), path):
                with open("/proc/self/fdinfo/" + fd) as f:
                    return int(f.readline().split()[1])
        except OSError:
            pass
    return None


STRATA = [
    Stratum("lazy", lazy, 64000, 400000),
    Stratum("histories", histories, 48000, 400000),
    Stratum("turns", turns, 32000, 200000),
    Stratum("dicts", dicts, 12000, 60000),
    Stratum("streaming", streaming, 24, 300),
    Stratum("files", files, 32, 400),
]
