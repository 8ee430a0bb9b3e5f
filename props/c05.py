"""C05: the native code leaks nothing and never over-releases an object"""

import ctypes
import gc
import io
import sys

import clevercsv
from clevercsv.cabstraction import base_abstraction, c_merge_with_quotechar
from clevercsv.cparser import Parser
from clevercsv.cparser_util import parse_data, parse_string
from clevercsv.dialect import SimpleDialect

from lib import gen
from lib.engine import Stratum
from lib.models import parser as P
from lib.oom import load as load_oom

ID = "C05"
RULE = (
    "A case is a workload that is repeated; blocks allocated by Python, the "
    "heap in use (mallinfo2) and the reference counts of every object passed "
    "in are monitored. Growth counts as a leak if it is there in four rounds "
    "of repetitions. Non-trivial: the workload entered the native code; "
    "distinct by input and kind of workload."
)
TECHNIQUE = "runtime monitoring: allocation, heap and reference count monitors over repeated workloads, with injected allocation failures"
LEVEL_NOTE = (
    "A leak of at least one block, or 16 bytes of heap, per repetition is "
    "seen; immortal objects (None, small ints, ASCII characters) have no "
    "reference counts to check."
)
REQUIRED = [
    "repetitions",
    "reference counts compared",
    "held objects checked",
    "workloads that raise",
    "failing allocations repeated",
    "abandoned parsers",
    "partial records",
]


class _Mallinfo2(ctypes.Structure):
    _fields_ = [
        (n, ctypes.c_size_t)
        for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()
    ]


_libc = ctypes.CDLL(None)
_libc.mallinfo2.restype = _Mallinfo2


def heap():
    m = _libc.mallinfo2()
    return m.uordblks + m.hblkhd


def measure():
    return sys.getallocatedblocks(), heap()


REPS = 12


def leaks(ctx, work, what, collect=False, reps=REPS, **info):
    """Run the workload again and again; does anything grow?"""

    def rounds(reps):
        for _ in range(reps):
            work()
        if collect:
            gc.collect()

    rounds(3)
    deltas = []
    for r in range(4):
        b0 = measure()
        rounds(reps)
        b1 = measure()
        ctx.event("repetitions", reps)
        deltas.append((b1[0] - b0[0], b1[1] - b0[1]))
        if not (deltas[-1][0] >= reps or deltas[-1][1] >= 16 * reps):
            return
    if all(d[0] >= reps for d in deltas):
        ctx.fail("allocated blocks grow (%s)" % what, deltas=deltas, reps=reps, **info)
    if all(d[1] >= 16 * reps for d in deltas):
        ctx.fail("the heap grows (%s)" % what, deltas=deltas, reps=reps, **info)


class Boom(Exception):
    pass


class StrSub(str):
    """Strings that aren't immortal, whatever they hold"""


def fresh(s):
    """A string object of its own (if it is not a shared character)"""
    return "".join([s[:1], s[1:]]) if len(s) > 1 else s


def bad_lines(rng, lines, d, q):
    """The lines of a workload that fails"""
    r = rng.randint(0, 6)
    k = rng.randint(0, len(lines))
    if r == 0:
        return lines[:k] + ["a\0b"] + lines[k:]
    if r == 1:
        return lines[:k] + ["a\rb"] + lines[k:]
    if r == 2:
        return lines[:k] + [b"bytes"] + lines[k:]
    if r == 3:
        return lines[:k] + [12345678] + lines[k:]
    return lines


def parsing(ctx, rng, i):
    d, q, e = gen.dialect_chars(rng)
    text = gen.soup(rng, d, q, e, rng.randint(0, 60))
    if rng.random() < 0.2:
        text += rng.choice(["a", "\u4e2d", q or "b"]) * rng.choice([4090, 5000, 9000])
    partial = rng.random() < 0.1
    if partial:
        # a long record that isn't complete when the workload ends
        n = rng.choice([3, 200, 300, 700])
        text += "\n" + ("ab" + (d or ",")) * n + (q or e or "") + "open"
        ctx.event("partial records")
    lines = [fresh(x) for x in P.split_lines(text)]
    bad = rng.random() < 0.4
    if bad:
        lines = bad_lines(rng, lines, d, q)
    strict = rng.random() < 0.3
    rq = rng.random() < 0.5
    limit = rng.choice([131072, 131072, 3, 4096])
    stop = rng.choice([None, None, 0, 1, 2])
    boom = rng.random() < (0.6 if partial else 0.2)
    kind = rng.choice(["parser", "parser", "parse_data", "parse_string", "reader"])
    dd, qq, ee = d, q, e
    if rng.random() < 0.3:
        dd, qq, ee = StrSub(d), StrSub(q), StrSub(e)
    objs = list(lines) + [dd, qq, ee, lines]
    raised = [0]
    held = []

    def source():
        for x in lines:
            yield x
        if boom:
            raise Boom

    def work():
        src = source() if boom else lines
        try:
            if kind == "parser":
                it = Parser(src, delimiter=dd, quotechar=qq, escapechar=ee, strict=strict, return_quoted=rq, field_limit=limit)
            elif kind == "parse_data":
                it = parse_data(src, delimiter=dd, quotechar=qq, escapechar=ee, strict=strict, return_quoted=rq, field_limit=limit)
            elif kind == "parse_string":
                it = parse_string(text, SimpleDialect(dd, qq, ee, strict=strict), return_quoted=rq)
            else:
                it = clevercsv.reader(src, delimiter=dd, quotechar=qq, escapechar=ee, strict=strict)
            rows = []
            if stop is None:
                for row in it:
                    rows.append(row)
            else:
                for _ in range(stop):
                    rows.append(next(it))
                ctx.event("abandoned parsers")
            if len(held) < 2:
                held.append(rows)
        except (Boom, clevercsv.Error, clevercsv.cparser.Error, StopIteration, RuntimeError):
            raised[0] += 1

    work()
    before = [sys.getrefcount(o) for o in objs]
    copy = [[list(map(_deep, r)) for r in rows] for rows in held]
    leaks(ctx, work, kind, lines=lines, dialect=(d, q, e), stop=stop, strict=strict)
    gc.collect(0)
    held2 = held[:1]
    after = [sys.getrefcount(o) for o in objs]
    ctx.same(after, before, "reference counts of the input", lines=lines, kind=kind)
    ctx.event("reference counts compared", len(objs))
    ctx.same([[list(map(_deep, r)) for r in rows] for rows in held2], copy[:1], "objects handed out changed")
    ctx.event("held objects checked")
    # cells are held by their rows only
    for rows in held:
        for row in rows:
            if sys.getrefcount(row) > 4:
                ctx.fail("a row has %d references" % sys.getrefcount(row))
            for c in row:
                if type(c) is tuple:
                    if sys.getrefcount(c) > 4:
                        ctx.fail("a pair has %d references" % sys.getrefcount(c))
                    c2 = c[0]
                    n = sys.getrefcount(c2) - 1
                else:
                    n = sys.getrefcount(c) - 1
                if len(c[0] if type(c) is tuple else c) > 1 and n > 3:
                    ctx.fail("a cell has %d references" % n)
    if raised[0]:
        ctx.event("workloads that raise")
    if text:
        ctx.nontrivial(kind, text, d, q, e, strict, rq, stop, limit)
    ctx.sample((kind, text, d, q, e, stop))


def _deep(c):
    return (c[0][:1] + c[0][1:], c[1]) if type(c) is tuple else c[:1] + c[1:]


BAD = [None, 5, "ab", b"x", [], object(), 1.5, 1 << 80, "\U0001f600x"]


def construction(ctx, rng, i):
    """Parsers that can't be made, or are never used"""
    names = ["delimiter", "quotechar", "escapechar", "field_limit", "strict", "return_quoted", "bogus"]

    class NoBool:
        def __bool__(self):
            raise Boom

    class NoIter:
        def __iter__(self):
            raise Boom

    kw = {n: rng.choice(BAD + ["a", ";", 10, True, NoBool()]) for n in rng.sample(names, rng.randint(0, 4))}
    args = rng.choice([(), (["a"],), (["a"], 5), (5,), (NoIter(),), (iter(["a"]),), ("abc",), (io.StringIO("a,b"),)])
    objs = [o for o in list(kw.values()) + list(args)]
    raised = [0]

    def work():
        try:
            Parser(*args, **kw)
        except (TypeError, OverflowError, Boom):
            raised[0] += 1

    work()
    before = [sys.getrefcount(o) for o in objs]
    leaks(ctx, work, "construction", args=args, kw=kw)
    ctx.same([sys.getrefcount(o) for o in objs], before, "reference counts of the arguments", args=args, kw=kw)
    ctx.event("reference counts compared", len(objs))
    if raised[0]:
        ctx.event("workloads that raise")
    ctx.nontrivial("construct", sorted(kw), repr(args)[:30], i)


def abstraction(ctx, rng, i):
    d, q, e = gen.dialect_chars(rng)
    text = gen.soup(rng, d, q, e, rng.randint(0, 80))
    if rng.random() < 0.2:
        text = text * rng.choice([50, 300])
    marks = "".join(rng.choice("QCDQR") for _ in range(rng.choice([0, 0, 1, 5, 40, 400, 4000])))
    args = [text, d, q, e]
    if rng.random() < 0.3:
        args[rng.randint(0, 3)] = rng.choice(BAD)
    if rng.random() < 0.3:
        args = [StrSub(a) if isinstance(a, str) else a for a in args]
        marks = StrSub(marks)
    margs = [marks] if rng.random() < 0.8 else [rng.choice(BAD)]
    objs = args + margs
    raised = [0]
    held = []
    full = []

    def work():
        try:
            r = base_abstraction(*args)
            if not full:
                held.append(r)
        except (TypeError, ValueError):
            raised[0] += 1
        try:
            r = c_merge_with_quotechar(*margs)
            if not full:
                held.append(r)
        except (TypeError, ValueError):
            raised[0] += 1

    work()
    full.append(True)
    copy = [h[:1] + h[1:] for h in held]
    before = [sys.getrefcount(o) for o in objs]
    leaks(ctx, work, "abstraction", text=text, marks=marks)
    ctx.same([sys.getrefcount(o) for o in objs], before, "reference counts of the arguments", args=args, margs=margs)
    ctx.event("reference counts compared", len(objs))
    ctx.same(held, copy, "objects handed out changed")
    ctx.event("held objects checked")
    if raised[0]:
        ctx.event("workloads that raise")
    ctx.nontrivial("abstraction", text, d, q, e, marks)


def cycles(ctx, rng, i):
    """Parsers in reference cycles are collected"""
    n = rng.randint(0, 3)

    class It:
        def __init__(self):
            self.k = 0

        def __iter__(self):
            return self

        def __next__(self):
            self.k += 1
            if self.k > 5:
                raise StopIteration
            return 'a,"b%d' % self.k + ("\n" if self.k % 2 else '"\n')

    def work():
        it = It()
        it.p = Parser(it, delimiter=",", quotechar='"')
        it.self = it
        for _ in range(n):
            try:
                next(it.p)
            except (StopIteration, clevercsv.cparser.Error):
                pass

    leaks(ctx, work, "cycles", collect=True, reps=40)
    ctx.event("cycles collected")


def failing(ctx, rng, i):
    """Workloads in which one allocation fails"""
    d, q, e = gen.dialect_chars(rng)
    text = gen.soup(rng, d, q, e, rng.randint(1, 20))
    if rng.random() < 0.3:
        text += "x" * rng.choice([4095, 4096, 4097, 9000])
    if rng.random() < 0.15:
        text = rng.choice([d or ",", "a\n", (d or ",") + "x"]) * rng.choice([2050, 4100, 5000])
    marks = "".join(rng.choice("QCQD") for _ in range(rng.choice([5, 40, 200])))
    which = rng.choice(["parser", "parser", "base", "merge"])
    mod, ctl = load_oom()["cparser" if which == "parser" else "cabstraction"]
    lines = [fresh(x) for x in P.split_lines(text)]
    rq = rng.random() < 0.5

    def once():
        if which == "parser":
            for row in mod.Parser(lines, delimiter=d, quotechar=q, escapechar=e, return_quoted=rq):
                pass
        elif which == "base":
            mod.base_abstraction(text, d, q, e)
        else:
            mod.c_merge_with_quotechar(marks)

    ctl[0] = ctl[1] = ctl[2] = ctl[3] = 0
    ctx.call(once)
    total = ctl[1]
    points = list(range(1, total + 1))
    if total > 25:
        points = points[:12] + rng.sample(points[12:], 13)
    objs = lines + [text, marks]
    for n in points:

        def work():
            ctl[0] = n
            try:
                once()
            except (MemoryError, mod.Error if which == "parser" else MemoryError):
                pass
            ctl[0] = 0

        work()
        before = [sys.getrefcount(o) for o in objs]
        leaks(ctx, work, "allocation %d of %d fails in %s" % (n, total, which), reps=6, lines=lines, dialect=(d, q, e))
        ctx.same([sys.getrefcount(o) for o in objs], before, "reference counts after a failed allocation", n=n, which=which)
        ctx.event("failing allocations repeated")
    ctx.nontrivial("oom", which, text, d, q, e)


STRATA = [
    Stratum("parsing", parsing, 9000, 60000),
    Stratum("construction", construction, 2000, 20000),
    Stratum("abstraction", abstraction, 6000, 40000),
    Stratum("cycles", cycles, 40, 800),
    Stratum("failing", failing, 2000, 10000),
]
