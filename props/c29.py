"""C29: errors are the documented ones and leave everything usable"""

import csv
import io
import os
import sys
import warnings

import clevercsv
from clevercsv.cparser_util import parse_data
from clevercsv.dialect import SimpleDialect
from clevercsv.exceptions import NoDetectionResult
from clevercsv.wrappers import write_dicts

from lib import dialects, gen
from lib.engine import Inconclusive, Stratum
from lib.models import parser as P

ID = "C29"
RULE = (
    "A case is a script of lines, malformed lines, objects that aren't text "
    "and exceptions of a monitored source (or of rows, cells and a monitored "
    "sink), run to its end with resumption after each error; the sequence of "
    "records, error types and exception identities is compared with the "
    "reference parser (or the csv module), and a probe of unrelated "
    "operations runs after every case. Non-trivial: at least one error and "
    "one record were seen; distinct by script and dialect."
)
TECHNIQUE = "runtime monitoring: fault-injecting sources and sinks; offline checker of the log of records, exceptions and identities against a resumable reference parser and the csv module; invariant probe after each fault"
LEVEL_NOTE = "Random scripts of faults (up to twelve lines, every kind of fault at every position in the exhaustive stratum); trusts the reference parser of C01 and csv.writer."
REQUIRED = [
    "records delivered",
    "errors of the package",
    "exceptions of the source",
    "resumed after an error",
    "rows written",
    "errors of the writer",
    "exceptions of the sink",
    "exceptions of rows and cells",
    "invalid arguments",
    "probes",
    "broken files",
]


class Boom(Exception):
    def __init__(self, k):
        super().__init__("boom %d" % k)
        self.k = k


class BaseBoom(BaseException):
    pass


class StrBoom(ValueError):
    def __str__(self):
        raise RuntimeError("not to be called")


EXC = [
    lambda: Boom(1),
    lambda: BaseBoom("base"),
    lambda: StrBoom(),
    lambda: ValueError("value"),
    lambda: TypeError("type"),
    lambda: KeyError("key"),
    lambda: IndexError("index"),
    lambda: AttributeError("attribute"),
    lambda: OSError(5, "io"),
    lambda: MemoryError(),
    lambda: RuntimeError("runtime"),
    lambda: RecursionError("deep"),
    lambda: EOFError(),
    lambda: AssertionError("a"),
    lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad"),
    lambda: NoDetectionResult(),
    lambda: KeyboardInterrupt(),
    lambda: GeneratorExit(),
    lambda: SystemExit(3),
    lambda: StopAsyncIteration(),
    lambda: LookupError("x"),
]
NOT_TEXT = [b"a,b\n", None, 5, ["a", "b"], ("a\n",), 1.5, bytearray(b"x"), object(), str]


class SourceFault(P.ModelError):
    def __init__(self, exc):
        super().__init__("source")
        self.exc = exc


class Script:
    """Starts again with each iterator made from it"""

    def __init__(self, script):
        self.script = script

    def __iter__(self):
        return Source(self.script, False)


class Source:
    """Plays a script; an entry is a line, ("raise", exc) or ("obj", x)"""

    def __init__(self, script, model):
        self.script = script
        self.k = 0
        self.model = model

    def __iter__(self):
        return self

    def __next__(self):
        if self.k >= len(self.script):
            raise StopIteration
        x = self.script[self.k]
        self.k += 1
        if isinstance(x, str):
            return x
        if x[0] == "raise":
            if self.model:
                raise SourceFault(x[1])
            raise x[1]
        return x[1]


def attempt(fn, *args):
    """("row", value), ("end",), ("error", text) or ("raise", exc)"""
    try:
        return ("row", fn(*args))
    except StopIteration:
        return ("end",)
    except clevercsv.Error as e:
        return ("error", e)
    except Inconclusive:
        raise
    except BaseException as e:
        return ("raise", e)


def model_events(script, dialect, strict, limit):
    """Outcomes of next() until the end of the input"""
    p = P.Parser(Source(script, True), *dialect, strict=strict, limit=limit)
    out = []
    while True:
        try:
            out.append(("row", next(p)))
        except StopIteration:
            out.append(("end",))
            return out
        except SourceFault as e:
            out.append(("raise", e.exc))
        except P.ModelError as e:
            out.append(("error", e.kind))


def snapshot():
    return (
        clevercsv.field_size_limit(),
        csv.field_size_limit(),
        tuple(sorted(csv.list_dialects())),
        tuple(warnings.filters),
        sys.getrecursionlimit(),
    )


SAMPLE = "a;b;c\n1;'x;y';3.5\n2;'it''s';4.5\n3;z;5.5\n"
PROBE = {}


def probe_now():
    out = []
    out.append(list(clevercsv.reader(["a,b\n", '1,"x""y\n', 'z"\n', "\n", "5"])))
    out.append(attempt(lambda: list(clevercsv.reader(['"a"b'], strict=True)))[0])
    out.append(attempt(lambda: list(clevercsv.reader(["a\rb"])))[0])
    out.append(list(clevercsv.reader(io.StringIO(SAMPLE, newline=""), SimpleDialect(";", "'", ""))))
    f = io.StringIO(newline="")
    clevercsv.writer(f).writerows([["a", 'b"', 1], ["x\n", None, 2.5]])
    out.append(f.getvalue())
    out.append([dict(r) for r in clevercsv.DictReader(["k,v\n", "1,2\n", "3\n"])])
    return out


def probe(ctx, before, deep=False):
    ctx.same(snapshot(), before, "a global setting changed because of an error")
    ctx.same(probe_now(), PROBE["now"], "unrelated operations differ after an error")
    if deep:
        ctx.same(detect_now(), PROBE["detect"], "detection differs after an error")
    ctx.event("probes")


def detect_now():
    d = clevercsv.Detector().detect(SAMPLE)
    return (d.delimiter, d.quotechar, d.escapechar, clevercsv.Sniffer().has_header(SAMPLE))


def setup(env):
    import pandas  # noqa: F401  (changes the warning filters when imported)

    PROBE["now"] = probe_now()
    PROBE["detect"] = detect_now()
    assert PROBE["now"][1:3] == ["error", "error"], PROBE


# -- reading ---------------------------------------------------------------


def compare(ctx, got, want, **info):
    """One outcome; True if it was an error"""
    if want[0] == "error":
        ctx.check(got[0] == "error", "the package's Error was expected", got=got, want=want, **info)
        ctx.check(isinstance(got[1], clevercsv.Error) and str(got[1]), "an Error without a message", got=got, **info)
        ctx.event("errors of the package")
        return True
    if want[0] == "raise":
        ctx.check(
            got[0] == "raise" and got[1] is want[1],
            "the exception of the caller was not passed on unchanged",
            got=got,
            want=want,
            **info,
        )
        ctx.event("exceptions of the source")
        return True
    ctx.same(got, want, "another outcome", **info)
    if want[0] == "row":
        ctx.event("records delivered")
    return False


def read_script(ctx, rng, script, dialect, strict, limit=None, entry="reader"):
    before = snapshot()
    info = dict(script=script, dialect=dialect, strict=strict, limit=limit, entry=entry)
    old = clevercsv.field_size_limit()
    try:
        if limit is not None:
            clevercsv.field_size_limit(limit)
        want = model_events(script, dialect, strict, old if limit is None else limit)
        src = rng.choice([Source(script, False), Script(script)])
        d, q, e = dialect
        if entry == "parse_data":
            it = parse_data(src, delimiter=d, quotechar=q, escapechar=e, strict=strict)
        elif entry == "dialect":
            it = clevercsv.reader(src, SimpleDialect(d, q, e, strict=strict))
        else:
            it = clevercsv.reader(src, delimiter=d, quotechar=q, escapechar=e, strict=strict)
        failed = rows = 0
        for w in want:
            if entry != "parse_data" and rng.random() < 0.1:
                it = iter(it)
            g = attempt(next, it)
            if compare(ctx, g, w, at=(rows, failed), **info):
                failed += 1
                if entry == "parse_data":
                    # a generator ends with its first error
                    break
            elif w[0] == "row":
                rows += 1
                if failed:
                    ctx.event("resumed after an error")
        g = attempt(next, it)
        ctx.same(g, ("end",), "the end isn't final", **info)
    finally:
        if limit is not None:
            clevercsv.field_size_limit(old)
    if failed and rows:
        ctx.nontrivial(repr(script), dialect, strict, limit, entry)
    ctx.sample(info)
    probe(ctx, before)


def a_line(rng, dialect):
    d, q, e = dialect
    r = rng.random()
    if r < 0.25:
        s = gen.soup(rng, d, q, e, rng.randint(0, 10), nl=["\n"])
    elif r < 0.4 and q:
        s = q + rng.choice(["a", "x\n", d, q + q, ""]) + rng.choice([q, ""]) + rng.choice(["", "b", d + "c"])
    else:
        s = (d or ",").join(rng.choice(["a", "1", "", "foo", "\u4e2d", "x y"]) for _ in range(rng.randint(1, 4)))
    return s + rng.choice(["\n", "\n", "\n", "\r\n", "\r", ""])


def fault(rng, dialect):
    r = rng.random()
    if r < 0.3:
        return ("raise", rng.choice(EXC)())
    if r < 0.5:
        return ("obj", rng.choice(NOT_TEXT))
    s = a_line(rng, dialect)
    k = rng.randint(0, len(s))
    if r < 0.7:
        return s[:k] + "\0" + s[k:]
    if r < 0.85:
        return s[:k] + rng.choice(["\r", "\n", "\r\n"]) + "x" + s[k:]
    if dialect[1]:
        return s[:k] + dialect[1] + "ab" + dialect[1] + rng.choice("abx ") + s[k:]
    return s


def rand_read(ctx, rng, i):
    dialect = gen.dialect_chars(rng, common=0.8)
    script = [
        fault(rng, dialect) if rng.random() < 0.3 else a_line(rng, dialect)
        for _ in range(rng.randint(1, 12))
    ]
    limit = rng.choice([None, None, None, rng.randint(0, 8)])
    read_script(
        ctx,
        rng,
        script,
        dialect,
        rng.random() < 0.4,
        limit,
        rng.choice(["reader", "reader", "dialect", "parse_data"]),
    )


# every kind of fault, before, inside and after every kind of record
CONTEXTS = [
    ["a,b\n", "X", "c,d\n"],
    ["X", "a,b\n"],
    ["a,b\n", "X"],
    ['a,"b\n', "X", 'c",d\n', "e,f\n"],
    ["a,b\\\n", "X", "c,d\n", "e\n"],
    ["a,b\n", "X", "X", '"c', "X", "d,e\n"],
    ["\n", "X", "\n", "g\n"],
    ["a,b", "X", '"', '",1', "X"],
]
KINDS = (
    [("raise", k) for k in range(len(EXC))]
    + [("obj", k) for k in range(len(NOT_TEXT))]
    + [("line", s) for s in ("\0", "a\0b\n", "a,b\n\0", '"a\0"\n', "a\rb\n", "a\n\nb", 'x\r\n"y', '"a"b\n', '"a" ,c\n', '"' * 4 + "x", "12345678,1\n", '"12345678"\n', '"1234567\n', "\\")]
)


def exhaustive(ctx, rng, case):
    kind, k = case
    for context in CONTEXTS:
        for strict in (False, True):
            for limit in (None, 5):
                for entry in ("reader", "parse_data"):
                    x = k if kind == "line" else (kind, (EXC[k]() if kind == "raise" else NOT_TEXT[k]))
                    script = [x if c == "X" else c for c in context]
                    read_script(ctx, rng, script, (",", '"', "\\"), strict, limit, entry)


def rand_dict(ctx, rng, i):
    """The dictionary reader over faulty sources, like the csv module's"""
    dialect = (rng.choice(",;"), '"', "")
    script = [
        fault(rng, dialect) if rng.random() < 0.3 else a_line(rng, dialect)
        for _ in range(rng.randint(1, 10))
    ]
    names = rng.choice([None, ["p", "q"], ["p"]])
    want = model_events(script, dialect, False, clevercsv.field_size_limit())
    before = snapshot()
    r = clevercsv.DictReader(
        Source(script, False), fieldnames=names, dialect=SimpleDialect(*dialect)
    )
    info = dict(script=script, dialect=dialect, names=names)
    failed = rows = 0
    for w in want:
        if w[0] == "row":
            if names is None:
                names = w[1]
                continue
            if w[1] == []:
                continue
            x = dict(zip(names, w[1]))
            if len(w[1]) > len(names):
                x[None] = w[1][len(names):]
            for n in names[len(w[1]):]:
                x[n] = None
            w = ("row", x)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            g = attempt(next, r)
        if g[0] == "row":
            g = ("row", dict(g[1]))
        if compare(ctx, g, w, at=(rows, failed), **info):
            failed += 1
        elif w[0] == "row":
            rows += 1
            if failed:
                ctx.event("resumed after an error")
    if failed and rows:
        ctx.nontrivial(repr(script), dialect, names)
    probe(ctx, before)


def chained(ctx, rng, i):
    """A reader whose source is a generator over another reader"""
    bad = rng.choice(["a\0b\n", "a\rb\n", ("raise", rng.choice(EXC)())])
    lines = ["p|q\n"] * rng.randint(0, 3) + [bad] + ["r|s\n"]
    n = lines.index(bad)
    inner = clevercsv.reader(Source(lines, False), delimiter="|")

    def gen_lines():
        for row in inner:
            yield ",".join(row) + "\n"

    outer = clevercsv.reader(gen_lines())
    before = snapshot()
    for _ in range(n):
        ctx.same(attempt(next, outer), ("row", ["p", "q"]), "a chained reader")
        ctx.event("records delivered")
    g = attempt(next, outer)
    if isinstance(bad, tuple):
        ctx.check(g[0] == "raise" and g[1] is bad[1], "exception through two readers", got=g, want=bad)
    else:
        ctx.check(g[0] == "error", "Error through two readers", got=g)
    ctx.same(attempt(next, outer), ("end",), "after a generator that failed")
    # the inner reader is still usable
    ctx.same(attempt(next, inner), ("row", ["r", "s"]), "the inner reader goes on")
    ctx.event("resumed after an error")
    ctx.nontrivial(n, repr(bad))
    probe(ctx, before)


# -- writing ---------------------------------------------------------------


class Sink:
    """Raises for rows that contain a marker"""

    def __init__(self, faults):
        self.faults = faults
        self.out = []

    def write(self, s):
        for mark, exc in self.faults.items():
            if mark in s:
                raise exc
        self.out.append(s)
        return len(s)

    def take(self):
        s = "".join(self.out)
        self.out = []
        return s


class Cell:
    def __init__(self, exc):
        self.exc = exc

    def __str__(self):
        raise self.exc

    def __repr__(self):
        return "Cell(%r)" % self.exc


class Row:
    """An iterable whose iteration fails after some cells"""

    def __init__(self, cells, exc):
        self.cells, self.exc = cells, exc

    def __iter__(self):
        yield from self.cells
        raise self.exc

    def __repr__(self):
        return "Row(%r, %r)" % (self.cells, self.exc)


class NoIter:
    def __init__(self, exc):
        self.exc = exc

    def __iter__(self):
        raise self.exc


class Rows:
    def __init__(self, rows, exc):
        self.rows, self.exc = rows, exc

    def __iter__(self):
        yield from self.rows
        if self.exc is not None:
            raise self.exc

    def __repr__(self):
        return "Rows(%r, %r)" % (self.rows, self.exc)


def ref_attempt(fn, *args):
    try:
        return ("row", fn(*args))
    except csv.Error as e:
        return ("error", e)
    except BaseException as e:
        return ("raise", e)


def rand_write(ctx, rng, i):
    d = rng.choice(",;|\t")
    q = rng.choice(['"', "'", ""])
    e = rng.choice(["", "", "\\"])
    quoting = rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL, csv.QUOTE_NONNUMERIC]) if q else csv.QUOTE_NONE
    spec = dialects.Spec(d, q, e, strict=rng.random() < 0.2, term=rng.choice(["\n", "\r\n"]), quoting=quoting)
    faults = {}

    def a_row():
        r = rng.random()
        row = [rng.choice(["a", "", 1, 2.5, None, "x y", "\u4e2d", d, "l\nm", q or "z"]) for _ in range(rng.randint(0, 4))]
        if r < 0.55:
            return row
        exc = rng.choice(EXC)()
        if r < 0.65:
            mark = "BOOM%d#" % len(faults)
            faults[mark] = exc
            return row + [mark]
        if r < 0.75:
            row.insert(rng.randint(0, len(row)), Cell(exc))
            return row
        if r < 0.85:
            return Row(row, exc)
        if r < 0.92:
            return rng.choice([5, None, 2.5, object, NoIter])
        return iter(row)

    ops = []
    for _ in range(rng.randint(1, 8)):
        if rng.random() < 0.6:
            ops.append(("writerow", a_row()))
        else:
            rows = [a_row() for _ in range(rng.randint(0, 4))]
            r = rng.random()
            if r < 0.3:
                rows = Rows(rows, rng.choice(EXC)())
            elif r < 0.4:
                rows = Rows(rows, None)
            elif r < 0.45:
                rows = rng.choice([5, None])
            elif r < 0.5:
                rows = NoIter(rng.choice(EXC)())
            ops.append(("writerows", rows))
    info = dict(spec=spec, ops=ops, faults=faults)

    # replace iterators by factories
    def freeze(x):
        if isinstance(x, list):
            return ("list", [freeze(y) for y in x])
        if isinstance(x, Rows):
            return ("rows", [freeze(y) for y in x.rows], x.exc)
        if hasattr(x, "__next__"):
            return ("iter", list(x))
        return ("obj", x)

    def thaw(f):
        if f[0] == "list":
            return [thaw(y) for y in f[1]]
        if f[0] == "rows":
            return Rows([thaw(y) for y in f[1]], f[2])
        if f[0] == "iter":
            return iter(f[1])
        return f[1]

    ops = [(name, freeze(x)) for name, x in ops]
    before = snapshot()
    ref_sink, sink = Sink(faults), Sink(faults)
    ref = csv.writer(ref_sink, spec.cls())
    form = dialects.Form(rng, spec, rng.choice(["class", "instance", "registry", "kwargs"]), write=True)
    real = clevercsv.writer(sink, *form.args, **form.kw)
    failed = good = 0
    for name, x in ops:
        w = ref_attempt(getattr(ref, name), thaw(x))
        g = attempt(getattr(real, name), thaw(x))
        if g == ("end",):
            g = ("raise", StopIteration())
        out, want = sink.take(), ref_sink.take()
        ctx.check(out == want, "%s wrote something else" % name, op=x, output=out, expected=want, **info)
        if w[0] == "row":
            ctx.check(g[0] == "row", "%s failed" % name, op=x, outcome=g, **info)
            good += 1
            if want:
                ctx.event("rows written")
            if failed:
                ctx.event("written after an error")
        elif w[0] == "error":
            ctx.check(g[0] == "error" and str(g[1]), "the package's Error was expected", op=x, outcome=g, expected=w, **info)
            ctx.event("errors of the writer")
            failed += 1
        else:
            injected = any(w[1] is y for y in all_excs(x, faults))
            if injected:
                ctx.check(g[0] == "raise" and g[1] is w[1], "the exception of the caller was not passed on unchanged", op=x, outcome=g, expected=w, **info)
                if any(w[1] is y for y in faults.values()):
                    ctx.event("exceptions of the sink")
                else:
                    ctx.event("exceptions of rows and cells")
            else:
                ctx.check(g[0] in ("raise", "error") and isinstance(g[1], (type(w[1]), clevercsv.Error, TypeError, ValueError)), "another kind of error", op=x, outcome=g, expected=w, **info)
            failed += 1
    if failed and good:
        ctx.nontrivial(repr(spec), repr(ops))
    ctx.sample(info)
    probe(ctx, before)


def all_excs(f, faults):
    out = list(faults.values())
    stack = [f]
    while stack:
        x = stack.pop()
        if isinstance(x, (list, tuple)):
            stack.extend(x)
        elif isinstance(x, BaseException):
            out.append(x)
        elif isinstance(x, (Cell, Row, NoIter)):
            out.append(x.exc)
            stack.extend(getattr(x, "cells", []))
    return out


def rand_dictwrite(ctx, rng, i):
    names = ["a", "b", "c"][: rng.randint(1, 3)]
    sink = Sink({})
    ref_sink = Sink({})
    w = clevercsv.DictWriter(sink, names, restval=rng.choice(["", "-"]))
    ref = csv.DictWriter(ref_sink, names, restval=w.restval)
    before = snapshot()
    failed = good = 0
    log = []
    for _ in range(rng.randint(1, 8)):
        rows = []
        for _ in range(rng.randint(1, 3)):
            x = {k: rng.choice(["1", "x,y", None, 2]) for k in rng.sample(names, rng.randint(0, len(names)))}
            r = rng.random()
            if r < 0.15:
                x["zz"] = 1
            elif r < 0.25:
                x[names[0]] = Cell(rng.choice(EXC)())
            rows.append(x)
        if rng.random() < 0.5:
            name, arg = "writerow", rows[0]
        else:
            name, arg = "writerows", rows
        if rng.random() < 0.15:
            name, args = "writeheader", ()
        else:
            args = (arg,)
        log.append((name, args))
        want = ref_attempt(getattr(ref, name), *args)
        got = attempt(getattr(w, name), *args)
        out, exp = sink.take(), ref_sink.take()
        ctx.check(out == exp, "%s wrote something else" % name, log=log, output=out, expected=exp)
        if want[0] == "row":
            ctx.check(got[0] == "row", "%s failed" % name, log=log, outcome=got)
            good += 1
            ctx.event("rows written")
        else:
            failed += 1
            if isinstance(want[1], ValueError) and "fields not in" in str(Exception.__str__(want[1])):
                ctx.check(got[0] == "raise" and isinstance(got[1], ValueError), "extra keys", log=log, outcome=got)
                ctx.event("errors of the writer")
            else:
                ctx.check(got[0] == "raise" and got[1] is want[1], "the exception of a cell was not passed on unchanged", log=log, outcome=got, expected=want)
                ctx.event("exceptions of rows and cells")
    if failed and good:
        ctx.nontrivial(repr(log))
    probe(ctx, before)


# -- arguments -------------------------------------------------------------

BAD = (ValueError, TypeError)
# (csv reports invalid format parameters with its own Error as well)
BADCSV = (ValueError, TypeError, csv.Error, clevercsv.Error)


def args_cases():
    c = clevercsv
    out = []

    def add(name, fn, kinds):
        out.append((name, fn, kinds))

    long = ["ab", ",,", "\r\n", "\U0001f600a"]
    for x in long:
        add("reader delimiter %r" % x, lambda x=x: c.reader(["a"], delimiter=x), (ValueError,))
        add("reader quotechar %r" % x, lambda x=x: c.reader(["a"], quotechar=x), (ValueError,))
        add("reader escapechar %r" % x, lambda x=x: c.reader(["a"], escapechar=x), (ValueError,))
        add("dictreader delimiter %r" % x, lambda x=x: c.DictReader(["a"], delimiter=x), (ValueError,))
        add("writer delimiter %r" % x, lambda x=x: c.writer(io.StringIO(), delimiter=x), BADCSV)
        add("writer quotechar %r" % x, lambda x=x: c.writer(io.StringIO(), quotechar=x), BADCSV)
        for args in ((x, '"', ""), (",", x, ""), (",", '"', x)):
            add("validate %r" % (args,), lambda args=args: SimpleDialect(*args).validate(), (ValueError,))
            add("reader dialect %r" % (args,), lambda args=args: c.reader(["a"], SimpleDialect(*args)), (ValueError,))
    for x in (None, 5, 2.5, [], {}, object(), int, b","):
        if x is None:
            add("validate delimiter None", lambda: SimpleDialect(None, '"', "").validate(), BAD)
        add("reader dialect %r" % (x,), lambda x=x: c.reader(["a"], x), (ValueError,))
        add("dictreader dialect %r" % (x,), lambda x=x: c.DictReader(["a"], dialect=x), (ValueError,))
        add("writer dialect %r" % (x,), lambda x=x: c.writer(io.StringIO(), x), (ValueError,))
        add("dictwriter dialect %r" % (x,), lambda x=x: c.DictWriter(io.StringIO(), ["a"], dialect=x), (ValueError,))
    for x in ("excell", "", "no such dialect"):
        add("reader name %r" % x, lambda x=x: c.reader(["a"], x), BADCSV)
        add("writer name %r" % x, lambda x=x: c.writer(io.StringIO(), x), BADCSV)
    for x in (None, 5, 2.5, object()):
        add("reader of %r" % (x,), lambda x=x: list(c.reader(x)), (TypeError,))
        add("dictreader of %r" % (x,), lambda x=x: list(c.DictReader(x)), (TypeError,))
        add("writer to %r" % (x,), lambda x=x: c.writer(x), (TypeError,))
        add("dictwriter to %r" % (x,), lambda x=x: c.DictWriter(x, ["a"]), (TypeError,))
    for x in ("rais", "", "RAISED", "ignored", "none"):
        add("extrasaction %r" % x, lambda x=x: c.DictWriter(io.StringIO(), ["a"], extrasaction=x), (ValueError,))
    add("no fieldnames", lambda: c.DictWriter(io.StringIO()), (TypeError,))
    for x in (None, "5", 2.5, [], b"1"):
        add("limit %r" % (x,), lambda x=x: c.field_size_limit(x), (TypeError,))
    for x in (2**63, -(2**63) - 1, 10**30):
        add("limit %r" % (x,), lambda x=x: c.field_size_limit(x), (OverflowError, TypeError, ValueError))
    for args in ((1, 2), (1, None), (None, None, None)):
        add("limit %r" % (args,), lambda args=args: c.field_size_limit(*args), (TypeError,))
    add("limit keyword and argument", lambda: c.field_size_limit(1, limit=2), (TypeError,))
    add("no source", lambda: c.reader(), (TypeError,))
    add("no sink", lambda: c.writer(), (TypeError,))
    return out


def arguments(ctx, rng, case):
    name, fn, kinds = case
    before = snapshot()
    for _ in range(2):
        out = attempt(fn)
        ctx.check(out[0] != "row", "invalid argument accepted: " + name, outcome=out)
        exc = out[1] if len(out) > 1 else StopIteration()
        ctx.check(isinstance(exc, kinds), "another exception: " + name, outcome=out)
        ctx.event("invalid arguments")
    ctx.nontrivial(name)
    probe(ctx, before)


# -- files -----------------------------------------------------------------


def loaders(path, enc, d):
    sd = SimpleDialect(d, '"', "")
    return {
        "stream_table": lambda: clevercsv.stream_table(path, dialect=sd, encoding=enc),
        "read_table": lambda: clevercsv.read_table(path, dialect=sd, encoding=enc),
        "stream_dicts": lambda: clevercsv.stream_dicts(path, dialect=sd, encoding=enc),
        "read_dicts": lambda: clevercsv.read_dicts(path, dialect=sd, encoding=enc),
        "detect_dialect": lambda: clevercsv.detect_dialect(path, encoding=enc),
        "read_table_auto": lambda: clevercsv.read_table(path, encoding=enc),
        "stream_dicts_auto": lambda: clevercsv.stream_dicts(path, encoding=enc),
        "read_dataframe": lambda: clevercsv.read_dataframe(path, encoding=enc),
    }


def broken_files(ctx, rng, i):
    """Damage somewhere in a file: a prefix of the records, then the error"""
    d = rng.choice(",;|")
    n = rng.choice([3, 50, 700, 3000])
    rows = [["id", "name", "x"]] + [[str(k), "w%d" % rng.randint(0, 999), "1.%d" % k] for k in range(n)]
    at = rng.randint(1, n)
    kind = rng.choice(["nul", "byte", "newline", "limit", "strict_end"])
    if kind == "newline":
        # a carriage return inside an unquoted cell ends a line of an open
        # file, so this damage isn't one
        kind = "nul"
    data = "".join(d.join(r) + "\n" for r in rows[:at]).encode()
    bad = d.join(rows[at]).encode()
    k = rng.randint(0, len(bad))
    if kind == "nul":
        bad = bad[:k] + b"\0" + bad[k:]
    elif kind == "byte":
        bad = bad[:k] + rng.choice([b"\xff", b"\xc3(", b"\x80"]) + bad[k:]
    elif kind == "limit":
        bad = b"z" * (clevercsv.field_size_limit() + 1) + d.encode() + bad
    else:
        bad = b'"' + b"y" * 10 + d.encode()
        rows = rows[: at + 1]
    data += bad + b"\n" + "".join(d.join(r) + "\n" for r in rows[at + 1 :]).encode()
    path = os.path.join(os.environ["TMPDIR"], "c29_%d_%d.csv" % (os.getpid(), i))
    with open(path, "wb") as f:
        f.write(data)
    before = snapshot()
    nfd = len(os.listdir("/proc/self/fd"))
    info = dict(kind=kind, at=at, rows=n, delimiter=d)
    try:
        for name, fn in loaders(path, "utf-8", d).items():
            if kind == "strict_end" or (kind == "limit" and name not in ("stream_table", "read_table", "stream_dicts", "read_dicts")):
                continue
            if name == "read_dataframe" and kind != "byte":
                # pandas has its own ideas about NUL
                continue
            if kind == "nul" and name in ("detect_dialect", "read_table_auto", "stream_dicts_auto") and n > 50:
                continue
            if name in ("detect_dialect", "read_table_auto", "stream_dicts_auto", "read_dataframe") and n > 700:
                continue
            got = []
            err = None
            try:
                out = fn()
                if name.startswith("stream"):
                    for row in out:
                        got.append(row)
                elif name.startswith("detect"):
                    got = out
                else:
                    got = list(out)
            except (UnicodeError, clevercsv.Error, NoDetectionResult) as e:
                err = e
            if kind == "byte":
                ctx.check(isinstance(err, UnicodeError), "%s: undecodable bytes" % name, outcome=(err, got), **info)
            elif name == "detect_dialect":
                ctx.check(err is None or isinstance(err, clevercsv.Error), "%s" % name, outcome=err, **info)
            else:
                ctx.check(isinstance(err, clevercsv.Error), "%s: no Error" % name, outcome=(err, len(got)), **info)
            if name.startswith("stream_table"):
                ctx.check(got == rows[: len(got)], "not a prefix of the records", **info)
                if kind != "byte":
                    ctx.check(len(got) == at, "records before the error", n=len(got), **info)
            elif name == "stream_dicts":
                want = [dict(zip(rows[0], r)) for r in rows[1:]]
                ctx.check([dict(x) for x in got] == want[: len(got)], "not a prefix of the records", **info)
                if kind != "byte":
                    ctx.check(len(got) == at - 1, "records before the error", n=len(got), **info)
            ctx.event("broken files")
            ctx.nontrivial(kind, name, at, n, d)
        if kind == "strict_end":
            sd = SimpleDialect(d, '"', "", strict=True)
            got = []
            g = None
            with open(path, newline="", encoding="utf-8") as f:
                r = clevercsv.reader(f, sd)
                while g is None or g[0] == "row":
                    g = attempt(next, r)
                    if g[0] == "row":
                        got.append(g[1])
                ctx.check(g[0] == "error", "strict: unterminated quotes", outcome=g, **info)
                ctx.same(got, rows[:at], "strict: records before the error", **info)
                ctx.same(attempt(next, r), ("end",), "strict: after the error", **info)
            ctx.event("broken files")
    finally:
        os.unlink(path)
    ctx.same(len(os.listdir("/proc/self/fd")), nfd, "files left open", **info)
    probe(ctx, before, deep=i % 8 == 0)


def no_files(ctx, rng, case):
    """Paths that can't be read or written"""
    name, path_kind = case
    top = os.path.join(os.environ["TMPDIR"], "c29n_%d" % os.getpid())
    os.makedirs(top, exist_ok=True)
    empty = os.path.join(top, "empty.csv")
    open(empty, "w").close()
    odd = os.path.join(top, "text.csv")
    with open(odd, "w") as f:
        f.write("a,b\n1,2\n")
    path = {
        "missing": os.path.join(top, "nothing", "x.csv"),
        "directory": top,
        "notdir": os.path.join(odd, "x.csv"),
        "loop": os.path.join(top, "loop"),
        "encoding": odd,
        "empty": empty,
        "type": None,
    }[path_kind]
    if path_kind == "loop" and not os.path.islink(path):
        os.symlink("loop", path)
    enc = "no-such-codec" if path_kind == "encoding" else "utf-8"
    before = snapshot()
    nfd = len(os.listdir("/proc/self/fd"))
    L = loaders(path, enc, ",")
    if name in L:
        fn = lambda: (lambda r: r if not hasattr(r, "__next__") else list(r))(L[name]())  # noqa: E731
    elif name == "write_table":
        fn = lambda: clevercsv.write_table([["a"]], path, encoding=enc)  # noqa: E731
    else:
        fn = lambda: write_dicts([{"a": 1}], path, encoding=enc)  # noqa: E731
    out = attempt(fn)
    info = dict(name=name, kind=path_kind, outcome=out)
    if path_kind == "empty":
        if name in ("detect_dialect",):
            ctx.check(out[0] == "row" or isinstance(out[1], NoDetectionResult), "empty file", **info)
        elif name.startswith("write"):
            ctx.check(out[0] == "row", "empty file", **info)
        elif "auto" in name or name == "read_dataframe":
            pass
        else:
            ctx.same(out, ("row", []), "empty file")
    elif path_kind == "type":
        ctx.check(out[0] == "raise" and isinstance(out[1], (TypeError, ValueError)), "no path", **info)
    elif path_kind == "encoding":
        ctx.check(out[0] == "raise" and isinstance(out[1], LookupError), "unknown encoding", **info)
    elif name == "read_dataframe":
        ctx.check(out[0] == "raise" and isinstance(out[1], (ValueError, OSError)), "not a file", **info)
    else:
        ctx.check(out[0] == "raise" and isinstance(out[1], OSError), "not a file", **info)
    ctx.event("broken files")
    ctx.same(len(os.listdir("/proc/self/fd")), nfd, "files left open", name=name, kind=path_kind)
    ctx.nontrivial(name, path_kind)
    probe(ctx, before)


NAMES = list(loaders("", "", ",")) + ["write_table", "write_dicts"]
STRATA = [
    Stratum("exhaustive", exhaustive, None, cases=KINDS),
    Stratum("arguments", arguments, None, cases=args_cases()),
    Stratum("no_files", no_files, None, cases=[(n, k) for n in NAMES for k in ("missing", "directory", "notdir", "loop", "encoding", "empty", "type")]),
    Stratum("read", rand_read, 60000, 1500000),
    Stratum("dict", rand_dict, 15000, 400000),
    Stratum("chained", chained, 400, 4000),
    Stratum("write", rand_write, 40000, 900000),
    Stratum("dictwrite", rand_dictwrite, 10000, 200000),
    Stratum("broken_files", broken_files, 300, 6000),
]
