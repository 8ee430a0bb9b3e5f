"""C36: every way to ask for the dialect gives the same answer"""

import contextlib
import io
import json
import os
import pathlib
import shutil
import tempfile

import clevercsv
from clevercsv.consistency import ConsistencyDetector
from clevercsv.detect import Detector

from lib import cli, files, gen
from lib.engine import Stratum

ID = "C36"
RULE = (
    "A case is a text with options (delimiters, method, skip, number of "
    "characters, encoding). The dialect is asked for in every way: detect and "
    "sniff, with positional and keyword arguments, methods as strings and "
    "enumeration members, delimiters in containers of every kind, fresh "
    "objects and ones that did other work before, from text and from files. "
    "The outcomes are compared, and the automatic method with the normal "
    "form, or else the consistency measure. Non-trivial: the two methods "
    "disagree, or one finds nothing; distinct by text and options."
)
TECHNIQUE = "runtime monitoring: differential monitor over all entry points of detection for the same sample and options, and an oracle for their composition"
LEVEL_NOTE = "What the two methods find is judged by C11 to C17; hostile samples of every kind are generated, sets of delimiters only where the order has no meaning."
REQUIRED = [
    "huge samples",
    "outcomes compared",
    "normal forms found",
    "normal forms not found",
    "methods disagree",
    "nothing found",
    "delimiters given",
    "one-shot delimiters",
    "objects used again",
    "detection from files",
    "limited samples",
    "headers asked for",
    "command lines",
    "methods reported",
    "large samples",
]
BUDGET = {"quick": 300, "thorough": 2400}


def dialect(d):
    if d is None:
        return None
    return (type(d).__name__, d.delimiter, d.quotechar, d.escapechar, d.strict)


def outcome(ctx, f, *args, **kwargs):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = ctx.call(f, *args, **kwargs)
    if r.exc is not None:
        return (type(r.exc).__name__, str(r.exc))
    return dialect(r.value)


def options(rng, text):
    if rng.random() < 0.5:
        return None
    pool = sorted(set(text) - set("\r\n"))[:25] + [",", ";", "|", "\t", " ", "-"]
    pool = sorted(set(pool))
    return rng.sample(pool, min(len(pool), rng.randint(1, 6)))


CONTAINERS = {
    "list": list,
    "tuple": tuple,
    "text": "".join,
    "generator": lambda x: (c for c in x),
    "iterator": iter,
    "keys": dict.fromkeys,
    "map": lambda x: map(str, x),
}

# objects that live as long as the process
SHARED = [Detector(), clevercsv.Sniffer(), Detector()]


def text_for(rng):
    r = rng.random()
    if r < 0.25:
        # normal forms, and texts that just miss one
        d = rng.choice(gen.COMMON_D)
        q = rng.choice(['"', "'", ""])
        n = rng.randint(1, 3)
        rows = [d.join(q + rng.choice([gen.word(rng), str(rng.randint(0, 999)), ""]) + q for _ in range(n + 1)) for _ in range(rng.randint(2, 5))]
        if rng.random() < 0.4:
            rows[rng.randrange(len(rows))] += rng.choice([d, "", d + gen.word(rng), "x", " ", '"'])
        return rng.choice(["\n", "\r\n", "\r"]).join(rows) + rng.choice(["", "\n"])
    if r < 0.3:
        return rng.choice(["", "\n", "\r\n", " ", "a", "1", "abc", "ab\n\n", "\n\n"])
    if r < 0.4:
        return gen.ambiguous(rng)
    if r < 0.65:
        return gen.messy(rng)
    return gen.sample_text(rng)


def large_text(rng, big):
    """Large normal forms (or nearly) that the consistency measure reads differently"""

    def r():
        return rng.randint(10, 99)

    kind = rng.randrange(5)
    row = [
        lambda: "%d%%,%d%%,%d%%" % (r(), r(), r()),
        lambda: '"`"\t"`"\t"`"',
        lambda: "%d-%d" % (r(), r()),
        lambda: "a@b.co;  %d " % r(),
        lambda: "'%s %d'" % (rng.choice("abc"), r()),
    ][kind]
    n = rng.choice([800, 3000, 9000] + ([30000] if rng.random() < 0.3 else []) + ([200000] if big and rng.random() < 0.2 else []))
    n += rng.randint(0, 99)
    rows = [row() for _ in range(n)]
    if rng.random() < 0.3:
        k = rng.choice([n - 1, rng.randrange(n)])
        rows[k] += rng.choice([",", ";", "\t", '"', " x", ""])
    return rng.choice(["\n", "\r\n", "\r"]).join(rows) + rng.choice(["", "\n"])


def large(ctx, rng, i):
    text = large_text(rng, ctx.tier == "thorough")
    ctx.event("large samples")
    ctx.maxi("characters of a sample", len(text))
    ways(ctx, rng, i, text)


def ways(ctx, rng, i, text=None):
    delims = None
    if text is None:
        text = text_for(rng)
        delims = options(rng, text)
    skip = rng.random() < 0.6
    normal = outcome(ctx, Detector().detect, text, delimiters=delims, method="normal", skip=skip)
    measure = outcome(ctx, Detector().detect, text, delimiters=delims, method="consistency", skip=skip)
    auto = normal if normal is not None else measure
    want = {"auto": auto, "normal": normal, "consistency": measure}
    ctx.event("normal forms found" if normal else "normal forms not found")
    if normal != measure:
        ctx.event("methods disagree")
    if auto is None:
        ctx.event("nothing found")
    if delims is not None:
        ctx.event("delimiters given")

    def same(got, method, **how):
        ctx.same(got, want[method], "dialect asked for with %s" % method, text=text[:2000], delimiters=delims, skip=skip, normal=normal, consistency=measure, how=how)
        ctx.event("outcomes compared")

    # the objects: fresh, or used before
    for _ in range(6 if len(text) < 10000 else 2):
        fresh = rng.random() < 0.5
        det = rng.choice([Detector, clevercsv.Sniffer, clevercsv.Detector])() if fresh else rng.choice(SHARED)
        if not fresh:
            ctx.event("objects used again")
        kind = rng.choice(sorted(CONTAINERS)) if delims is not None else None
        given = None if delims is None else CONTAINERS[kind](delims)
        if kind in ("generator", "iterator", "map"):
            ctx.event("one-shot delimiters")
        verbose = rng.random() < 0.2
        how = rng.randrange(6)
        method = "auto"
        if how == 0:
            got = outcome(ctx, det.sniff, text, given, verbose)
        elif how == 1:
            got = outcome(ctx, det.sniff, text, delimiters=given)
        elif how == 2 and delims is None:
            got = outcome(ctx, det.sniff, text)
        elif how == 3:
            got = outcome(ctx, det.detect, text, given)
        elif how == 4:
            got = outcome(ctx, ConsistencyDetector(skip=skip, verbose=verbose).detect, text, delimiters=delims)  # takes lists
            method = "consistency"
        else:
            method = rng.choice(sorted(want))
            m = method
            if rng.random() < 0.5 and hasattr(SHARED[2], "method_"):
                m = type(SHARED[2].method_)(method)
            got = outcome(ctx, det.detect, text, delimiters=given, verbose=verbose, method=m, skip=skip)
        same(got, method, fresh=fresh, container=kind, verbose=verbose, entry=how)
        if how != 4 and not (got and got[0].endswith("Error")):
            used = "normal" if method == "normal" or (method == "auto" and normal is not None) else "consistency"
            ctx.same(det.method_.value, used, "method that is reported", text=text[:2000], method=method)
            ctx.event("methods reported")
    if getattr(SHARED[2], "method_", None) is None:
        SHARED[2].detect("a,b\n1,2\n")
    # a header needs a dialect
    if delims is None and rng.random() < 0.5:
        r = ctx.call(rng.choice(SHARED).has_header, text)
        ctx.event("headers asked for")
        none = auto is None
        ctx.same(isinstance(r.exc, clevercsv.exceptions.NoDetectionResult), none, "NoDetectionResult of has_header", text=text[:2000], outcome=r, dialect=auto)
    if normal != measure or auto is None:
        ctx.nontrivial(text, delims, skip)
    ctx.sample((text[:120], delims, auto))


def from_files(ctx, rng, i):
    """The same from files"""
    folder = tempfile.mkdtemp(dir=ctx.env["scratch"])
    try:
        r = rng.random()
        text = text_for(rng) if r < 0.7 else files.content(rng) if r < 0.98 else large_text(rng, False)
        data, enc = files.encode(rng, text)
        path = os.path.join(folder, "a.csv")
        with open(path, "wb") as f:
            f.write(data)
        real = enc or clevercsv.encoding.get_encoding(path)
        num = rng.choice([None, None, 1, 2, 5, 17, rng.randint(1, len(text) + 3), len(text) + 1, 10**7])
        sample = ctx.call(files.sample_of, path, real, num)
        if sample.exc is not None:
            return
        sample = sample.value
        skip = rng.random() < 0.6
        method = rng.choice(["auto", "auto", "normal", "consistency"])
        want = outcome(ctx, Detector().detect, sample, method=method, skip=skip)
        given = rng.choice([path, pathlib.Path(path), os.fsencode(path)])
        kw = {}
        if num is not None:
            kw["num_chars"] = num
            ctx.event("limited samples")
        if enc:
            kw["encoding"] = enc
        if method != "auto" or rng.random() < 0.5:
            kw["method"] = method
        if not skip or rng.random() < 0.5:
            kw["skip"] = skip
        verbose = rng.random() < 0.15
        if verbose:
            kw["verbose"] = True
        got = outcome(ctx, clevercsv.detect_dialect, given, **kw)
        info = dict(text=text[:2000], encoding=real, options=kw)
        ctx.same(got, want, "dialect of the file", **info)
        if num is not None:
            got = outcome(ctx, clevercsv.detect_dialect, given, num, real, verbose, method, skip)
            ctx.same(got, want, "dialect of the file, positional arguments", **info)
        ctx.event("detection from files")
        if want is None:
            ctx.event("nothing found")
        if method != "normal" and rng.random() < 0.3:
            args = ["detect", "-j", path]
            if num is not None:
                args += ["-n", str(num)]
            if enc:
                args += ["-e", enc]
            if method == "consistency":
                args.append("-c")
            if not skip:
                args.append("--no-skip")
            r = cli.inside(args)
            ctx.event("command lines")
            if want is None:
                ctx.check(r.status == 1 and not r.out, "the command finds a dialect", run=r, **info)
            elif want[0] == "SimpleDialect":
                ctx.check(r.exc is None, "the command fails", run=r, **info)
                got = json.loads(r.out)
                got = tuple(["SimpleDialect"] + [got[k] for k in ("delimiter", "quotechar", "escapechar", "strict")])
                ctx.same(got, want, "dialect of the command", run=r, **info)
        ctx.nontrivial(data, sorted(kw), num)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def huge(ctx, rng, i):
    """More than a million characters, of which the last ones decide"""
    row, tail = rng.choice([("a,b\n", ";;;;;\n"), ("12;34\n", '"x";y\n'), ("a|b\n", "a|b|#\n"), ("ab,cd\n", "ab,cd\n")])
    n = rng.choice([1060000, 1300000])
    text = row * (n // len(row)) + tail
    folder = tempfile.mkdtemp(dir=ctx.env["scratch"])
    try:
        path = os.path.join(folder, "a.csv")
        with open(path, "w", newline="") as f:
            f.write(text)
        want = outcome(ctx, Detector().detect, text)
        method = rng.choice(["normal", "consistency"]) if want is None else "normal"
        other = outcome(ctx, Detector().detect, text, method=method)
        info = dict(row=row, tail=tail, length=len(text))
        ctx.same(outcome(ctx, clevercsv.Sniffer().sniff, text), want, "dialect of a huge sample", **info)
        ctx.same(outcome(ctx, clevercsv.detect_dialect, path, encoding=rng.choice(["ascii", None])), want, "dialect of a huge file", **info)
        ctx.same(outcome(ctx, clevercsv.detect_dialect, path, encoding="ascii", method=method, num_chars=rng.choice([None, len(text)])), other, "dialect of a huge file, method %s" % method, **info)
        ctx.event("huge samples")
        ctx.maxi("characters of a sample", len(text))
        ctx.nontrivial("huge", row, tail, n, method)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


STRATA = [
    Stratum("huge", huge, 4, 50),
    Stratum("ways", ways, 16000, 120000),
    Stratum("large", large, 120, 1200),
    Stratum("files", from_files, 5000, 40000),
]
