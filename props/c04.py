"""C04: the native code never reads or writes outside its memory"""

import gc
import io
import itertools
import sys
import threading

import clevercsv
from clevercsv.cabstraction import base_abstraction, c_merge_with_quotechar
from clevercsv.cparser import Parser

from lib import gen
from lib.engine import Stratum
from lib.oom import load as load_oom
from lib.models import abstraction as A
from lib.models import parser as P

ID = "C04"
RULE = (
    "A case drives the sanitized extensions (ASan, UBSan, heap filled with a "
    "pattern) with a hostile input: texts of all character widths and sizes "
    "around the buffer sizes, wrong types, iterators that fail, re-enter the "
    "parser, free their lines or the parser, and the failure of every single "
    "allocation in turn. Non-trivial: the native code processed at least one "
    "character; distinct by input."
)
TECHNIQUE = "sanitizers: AddressSanitizer and UndefinedBehaviorSanitizer builds of the extensions under hostile inputs and injected allocation failures, with a monitor for undefined results and SystemError"
LEVEL_NOTE = (
    "Sanitizers see the extensions, not the interpreter; allocation failures "
    "are complete over the calls of each workload, the workloads are random."
)
REQUIRED = [
    "records parsed",
    "abstractions",
    "ordinary exceptions",
    "re-entrant calls",
    "failures injected",
    "argument errors",
    "calls from several threads",
]
HANG = {"quick": 120, "thorough": 240}
CPU = 100

SIZES = [0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385]
UNIT = ["a", "\u00e9", "\u4e2d", "\U0001f600", "\x7f", "\ud800"]


def guard(ctx, fn, *args, **kw):
    """Call; only ordinary exceptions are allowed"""
    out = ctx.call(fn, *args, **kw)
    if out.exc is not None:
        if isinstance(out.exc, SystemError) or not isinstance(out.exc, Exception):
            ctx.fail(
                "not an ordinary exception: %r" % out.exc, args=args, kw=kw
            )
        ctx.event("ordinary exceptions")
    return out


def touch(rows):
    """Read all of a result; strings must be in canonical form"""
    n = 0
    for r in rows:
        for c in r:
            if type(c) is tuple:
                assert type(c[1]) is bool, c
                c = c[0]
            assert type(c) is str, type(c)
            n += len(c) + hash(c) % 2
            assert c == c[::-1][::-1]
            c.encode("utf-8", "surrogatepass").decode("utf-8", "surrogatepass")
    return n


def rand_char(rng, none=True):
    r = rng.random()
    if r < 0.15:
        return ""
    if none and r < 0.2:
        return None
    if r < 0.25:
        return "\0"
    if r < 0.3:
        return rng.choice("\r\n")
    if r < 0.7:
        return rng.choice(",;\t|\"'\\/")
    return rng.choice(UNIT + gen.DELIMS)


def big_text(rng, specials):
    """A text with runs around the sizes of the buffers"""
    out = []
    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        u = rng.choice(UNIT + specials * 2 + ["\n", "\r", "\r\n"])
        if r < 0.5:
            out.append(u * max(0, rng.choice(SIZES) + rng.randint(-2, 2)))
        elif r < 0.7:
            a = rng.choice(specials or [","])
            out.append((u + a) * (rng.choice(SIZES) // 2 + rng.randint(0, 1)))
        else:
            out.append("".join(rng.choice(specials + ["a", "\n"]) for _ in range(rng.randint(0, 30))))
    return "".join(out)


def chunks(rng, text):
    r = rng.random()
    if r < 0.3:
        return [text]
    if r < 0.6:
        return P.split_lines(text)
    if r < 0.8:
        k = rng.choice([1, 2, 3, 7, 4096])
        return [text[i : i + k] for i in range(0, len(text), k)][:20000]
    out, i = [], 0
    while i < len(text):
        k = rng.randint(0, 200)
        out.append(text[i : i + k])
        i += k
        if len(out) > 3000:
            out.append(text[i:])
            break
    return out


def parse_hostile(ctx, rng, i):
    d, q, e = rand_char(rng), rand_char(rng), rand_char(rng)
    sp = [c for c in (d, q, e) if c]
    if rng.random() < 0.5:
        text = big_text(rng, sp)
    else:
        text = gen.soup(rng, d or "", q or "", e or "", rng.randint(0, 200))
    if rng.random() < 0.1:
        k = rng.randint(0, len(text))
        text = text[:k] + "\0" + text[k:]
    lines = chunks(rng, text)
    limit = rng.choice([128 * 1024, 1 << 40, 0, 1, 4096, 4097, -1, 10])
    strict = rng.random() < 0.3
    rq = rng.random() < 0.4
    p = Parser(
        iter(lines),
        delimiter=d,
        quotechar=q,
        escapechar=e,
        field_limit=limit,
        strict=strict,
        return_quoted=rq,
    )
    # the model agrees unless the dialect is a degenerate one
    chars = [c for c in (d, q, e) if c]
    model = None
    if len(set(chars)) == len(chars) and not set(chars) & set("\r\n\0"):
        model = P.Parser(
            lines, d or "", q or "", e or "", strict=strict, limit=limit, quoted=rq
        )
    rows = 0
    for _ in range(len(lines) + 2):
        out = guard(ctx, next, p)
        if model is not None:
            try:
                want = ("row", next(model))
            except StopIteration:
                want = ("end",)
            except P.ModelError as x:
                want = ("error", x.kind)
            if out.exc is None:
                got = ("row", out.value)
            elif isinstance(out.exc, StopIteration):
                got = ("end",)
            else:
                got = ("error",)
            if want[0] == "error" or got[0] == "error":
                # where limit and NUL errors come is not compared here
                if got[0] != want[0]:
                    if want[-1] in ("limit",) or limit < 1 << 17:
                        break
                    ctx.fail("error differs", got=out, want=want, text=text)
                if limit < 1 << 17:
                    break
            elif got != want:
                ctx.fail("record differs", got=got, want=want, lines=lines, dialect=(d, q, e), strict=strict)
        if out.exc is None:
            touch([out.value])
            rows += 1
        elif isinstance(out.exc, StopIteration):
            break
    ctx.event("records parsed", rows)
    ctx.maxi("largest text", len(text))
    if text:
        ctx.nontrivial(text, d, q, e, strict, rq)
    ctx.sample((lines, d, q, e, limit, strict, rq))


def abstraction_hostile(ctx, rng, i):
    d, q, e = rand_char(rng), rand_char(rng), rand_char(rng)
    sp = [c for c in (d, q, e) if c]
    if rng.random() < 0.6:
        text = big_text(rng, sp)
    else:
        text = gen.soup(rng, d or "", q or "", e or "", rng.randint(0, 200))
    if rng.random() < 0.1:
        text += "\0"
    out = guard(ctx, base_abstraction, text, d, q, e)
    if out.exc is None:
        res = out.value
        touch([[res]])
        if not set(res) <= set("CDRQ"):
            ctx.fail("undefined marks", got=res, text=text)
        chars = [c for c in (d, q, e) if c]
        if len(set(chars)) == len(chars) and not set(chars) & set("\r\n\0") and "\0" not in text:
            want = "".join(A.marks(text, d or "", q or "", e or ""))
            if res != want:
                ctx.fail("marks differ", text=text, dialect=(d, q, e))
        m = guard(ctx, c_merge_with_quotechar, res)
        if m.exc is None:
            touch([[m.value]])
            if len(m.value) != len(res) or not set(m.value) <= set("CDRQ\0"):
                ctx.fail("undefined merge", got=m.value, want=res)
        ctx.event("abstractions")
    r = rng.random()
    if r < 0.5:
        # quotes at every position of the index arrays
        n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 127, 128, 129, 1023, 1024, 1025])
        s = "".join(rng.choice(["QCQ", "QQ", "QDQ", "Q", "QCQC", "QCQD"]) for _ in range(n))
        if rng.random() < 0.3:
            s = "QCQD" * n + rng.choice(["", "Q", "QQ", "QQQ"])
        m = guard(ctx, c_merge_with_quotechar, s)
        if m.exc is None:
            touch([[m.value]])
    else:
        # the only reference is the one of the call
        m = guard(ctx, lambda: c_merge_with_quotechar(StrSub(rng.choice(["", "Q", text]))))
        if m.exc is None:
            touch([[str(m.value)]])
        m = None
        guard(ctx, c_merge_with_quotechar, text)
        guard(ctx, c_merge_with_quotechar, "".join(rng.choice("QCDR\u0151\u4e51\U00010051") for _ in range(rng.randint(0, 40))))
    if text:
        ctx.nontrivial("abs", text, d, q, e)


POWERS = [1 << k for k in range(13, 23)]


def large(ctx, rng, i):
    """Sizes at which the buffers have grown many times"""
    n = POWERS[i % len(POWERS)] + rng.choice([-2, -1, 0, 1, 2, 3])
    kind = i // len(POWERS) % 5
    u = rng.choice(UNIT)
    if kind == 0:
        # one mark per character
        text = (u + ",") * (n // 2) + u * (n % 2)
        out = guard(ctx, base_abstraction, text, ",", '"', "\\")
        want = "".join(A.marks(text, ",", '"', "\\"))
        ctx.check(out.exc is None and out.value == want, "marks of a large text", n=n)
        ctx.event("abstractions")
    elif kind == 1:
        text = '"' * n
        out = guard(ctx, base_abstraction, text, ",", '"', "")
        want = "".join(A.marks(text, ",", '"', ""))
        ctx.check(out.exc is None and out.value == want, "marks of a large text", n=n)
        ctx.event("abstractions")
    elif kind == 2:
        marks = "QC" * (n // 2) + "Q" * (n % 2)
        out = guard(ctx, c_merge_with_quotechar, marks)
        if out.exc is None:
            ctx.check(len(out.value) == len(marks), "size of the result", n=n)
            touch([[out.value]])
    elif kind == 3:
        # a field of that size, then many fields
        p = Parser([u * n + "," + "b\n", "c"], delimiter=",", quotechar='"', field_limit=1 << 40)
        out = guard(ctx, list, p)
        ctx.check(out.exc is None and out.value == [[u * n, "b"], ["c"]], "a large field", n=n)
        ctx.event("records parsed", 2)
    else:
        p = Parser(iter(["," * n + "\n", "x"]), delimiter=",", quotechar='"', return_quoted=rng.random() < 0.3)
        out = guard(ctx, list, p)
        ctx.check(out.exc is None and len(out.value) == 2 and len(out.value[0]) == n + 1, "a large record", n=n)
        ctx.event("records parsed", 2)
    ctx.maxi("largest size", n)
    ctx.nontrivial("large", kind, n, u)


# -- iterators ---------------------------------------------------------------


class Boom(Exception):
    pass


class StrSub(str):
    pass


class Hostile:
    """Feeds lines; does something nasty at some of them"""

    def __init__(self, rng, lines, ctx):
        self.rng, self.lines, self.ctx = rng, lines, ctx
        self.k = 0
        self.parser = None
        self.depth = 0
        self.other = None

    def __iter__(self):
        return self

    def __next__(self):
        k = self.k
        self.k += 1
        if k > 200:
            raise StopIteration
        a = self.rng.randint(0, 13)
        if a == 0:
            raise Boom(k)
        if a == 1:
            return self.rng.choice([None, 1, b"x", [], ("a",), object(), 1.5, bytearray(b"x")])
        if a == 2 and self.depth < 3 and self.parser is not None:
            self.depth += 1
            self.ctx.event("re-entrant calls")
            try:
                for _ in range(self.rng.randint(1, 3)):
                    touch([next(self.parser)])
            except (StopIteration, Boom, clevercsv.cparser.Error):
                pass
            finally:
                self.depth -= 1
        if a == 3:
            gc.collect(0)
        if a == 4:
            self.parser = None
        if a == 5 and self.lines:
            # the only reference is the one returned
            return "".join(["x", self.lines[k % len(self.lines)]])
        if a == 6 and self.lines:
            return StrSub(self.lines[k % len(self.lines)])
        if a == 7:
            raise StopIteration
        if a == 8:
            return ""
        if a == 9:
            return "\0" * self.rng.randint(1, 3)
        if a == 10 and self.rng.random() < 0.3:
            return self.rng.choice(UNIT) * self.rng.choice(SIZES)
        if not self.lines:
            raise StopIteration
        return self.lines[k % len(self.lines)]


def iterators(ctx, rng, i):
    d, q, e = gen.dialect_chars(rng)
    lines = P.split_lines(gen.soup(rng, d, q, e, rng.randint(0, 60)))
    h = Hostile(rng, lines, ctx)
    out = guard(ctx, Parser, h, delimiter=d, quotechar=q, escapechar=e, strict=rng.random() < 0.3, return_quoted=rng.random() < 0.3)
    if out.exc is not None:
        return
    p = out.value
    out = None
    h.parser = p if rng.random() < 0.9 else None
    rows = []
    for _ in range(30):
        o = guard(ctx, next, p)
        if o.exc is None:
            rows.append(o.value)
            touch([o.value])
        o = None
        if rng.random() < 0.1:
            gc.collect(0)
        if rng.random() < 0.05:
            rows = []
    touch(rows)
    ctx.event("records parsed", len(rows))
    ctx.nontrivial("it", lines, d, q, e, i)
    if rng.random() < 0.5:
        h.parser = None
    # a cycle of parser and iterator is left to the garbage collector
    del p, h
    if rng.random() < 0.2:
        gc.collect()


class Cyc:
    """An iterator in a cycle with its parser, with a finalizer that uses it"""

    def __init__(self, n):
        self.n = n
        self.p = None

    def __iter__(self):
        return self

    def __next__(self):
        self.n -= 1
        if self.n < 0:
            raise StopIteration
        return 'a,"b' + "x" * 50

    def __del__(self):
        p = self.p
        if p is not None:
            for _ in range(3):
                try:
                    next(p)
                except (StopIteration, RuntimeError, clevercsv.cparser.Error):
                    break


def cycles(ctx, rng, i):
    keep = []
    for _ in range(rng.randint(1, 20)):
        c = Cyc(rng.randint(0, 5))
        p = Parser(c, delimiter=",", quotechar='"')
        c.p = p
        for _ in range(rng.randint(0, 2)):
            guard(ctx, next, p)
        if rng.random() < 0.3:
            keep.append(p)
            keep.append(gc.get_referents(p))
    del c, p
    gc.collect()
    for p in keep:
        if not isinstance(p, list):
            o = guard(ctx, next, p)
    keep.clear()
    gc.collect()
    ctx.event("cycles collected")


ODD = [None, 0, 1, -1, True, 1.5, b"", b"a", "", "a", "ab", "\U0001f600", "\U0001f600x", [], [1], {}, (), (1, 2), object(), type, len, 1 << 62, 1 << 63, 1 << 64, -(1 << 63), -(1 << 70), bytearray(b"a"), StrSub("a"), StrSub("ab"), float("nan"), float("inf"), "a" * 5000, range(3), iter([]), Boom, NotImplemented, Ellipsis]


class Evil:
    def __iter__(self):
        raise Boom("iter")

    def __bool__(self):
        raise Boom("bool")

    def __index__(self):
        raise Boom("index")

    def __len__(self):
        return -1

    def __getattr__(self, n):
        raise Boom(n)


class NotIter:
    def __iter__(self):
        return 5


class SeqOnly:
    def __getitem__(self, k):
        if k < 3:
            return "a,b\n"
        raise IndexError


ODD += [Evil(), NotIter(), SeqOnly()]
NAMES = ["delimiter", "quotechar", "escapechar", "field_limit", "strict", "return_quoted", "csvfile", "bogus", "", "\udc80"]


def arguments(ctx, rng, i):
    for _ in range(40):
        kw = {n: rng.choice(ODD) for n in rng.sample(NAMES, rng.randint(0, 4))}
        args = [rng.choice(ODD + [["a,b\n", "c"]] * 10) for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 3]))]
        o = guard(ctx, Parser, *args, **kw)
        if o.exc is None:
            p = o.value
            for _ in range(5):
                r = guard(ctx, next, p)
                if r.exc is None:
                    touch([r.value])
                    ctx.event("records parsed")
            guard(ctx, lambda: (repr(p), hash(p), p == p, p.doublequote, iter(p) is p))
            for odd in (
                lambda: setattr(p, "doublequote", 1),
                lambda: delattr(p, "doublequote"),
                lambda: p.__init__(),
                lambda: p.__class__(),
                lambda: p.__reduce_ex__(2),
                lambda: object.__new__(type(p)),
                lambda: type("S", (type(p),), {})(),
                lambda: type("S", (type(p),), {"__new__": lambda c: object.__new__(c)})(),
                lambda: __import__("copy").copy(p),
                lambda: p.__sizeof__(),
                lambda: p.__dir__(),
                lambda: type(p).__next__(5),
                lambda: type(p).__iter__(5),
            ):
                if rng.random() < 0.2:
                    guard(ctx, odd)
        else:
            ctx.event("argument errors")
        for fn in (base_abstraction, c_merge_with_quotechar):
            n = rng.choice([0, 1, 3, 4, 4, 4, 5])
            a = [rng.choice(ODD) for _ in range(n)]
            if rng.random() < 0.5 and a:
                a[0] = "a,'b'\n"
            if fn is c_merge_with_quotechar and rng.random() < 0.5:
                a = a[:1]
            r = guard(ctx, fn, *a)
            if r.exc is None:
                touch([[r.value]]) if r.value.__class__ is str else None
                if not isinstance(r.value, str):
                    ctx.fail("result is no string", got=r.value, want=a)
            else:
                ctx.event("argument errors")


def recursion(ctx, rng, i):
    """An iterator that always asks its parser for more"""

    class R:
        def __iter__(self):
            return self

        def __next__(self):
            return next(self.p)[0]

    r = R()
    p = Parser(r, delimiter=",")
    r.p = p
    o = guard(ctx, next, p)
    if not isinstance(o.exc, (RecursionError, clevercsv.cparser.Error)):
        ctx.fail("endless recursion", got=o)
    # a chain of parsers that feed each other
    src = iter(["a,b\n"] * 3)
    chain = Parser(src, delimiter=",")
    n = rng.choice([10, 100, 1000])
    for _ in range(n):
        chain = Parser(map("".join, chain), delimiter=",")
    guard(ctx, next, chain)
    del chain
    ctx.event("re-entrant calls")


def threads(ctx, rng, i):
    """Several threads use one parser"""
    d, q, e = gen.dialect_chars(rng)
    text = gen.soup(rng, d, q, e, 400)
    lines = P.split_lines(text)

    class Lines:
        """Python code, so that the threads can be switched"""

        def __init__(self):
            self.it = itertools.cycle(lines or ["a\n"])
            self.n = 0

        def __iter__(self):
            return self

        def __next__(self):
            self.n += 1
            if self.n > 600:
                raise StopIteration
            for _ in range(3):
                pass
            return "".join([next(self.it)])

    p = Parser(Lines(), delimiter=d, quotechar=q, escapechar=e)
    bad = []
    n = [0]

    def work():
        for _ in range(150):
            try:
                touch([next(p)])
            except StopIteration:
                break
            except SystemError as x:
                bad.append(x)
            except Exception:
                pass
            n[0] += 1

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work) for _ in range(3)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if bad:
        ctx.fail("SystemError: %r" % bad[0])
    ctx.event("calls from several threads", n[0])


# -- failing allocations -----------------------------------------------------


def oom(ctx, rng, i):
    """Every allocation of a workload fails in turn"""
    d, q, e = gen.dialect_chars(rng)
    which = rng.choice(["cparser", "cparser", "cparser", "cabstraction"])
    mod, ctl = load_oom()[which]
    if rng.random() < 0.3:
        text = big_text(rng, [c for c in (d, q, e) if c])[:30000]
    else:
        text = gen.soup(rng, d, q, e, rng.randint(1, 25))
    rq = rng.random() < 0.5
    if which == "cparser":
        lines = P.split_lines(text)
        p = [None]

        def work():
            p[0] = mod.Parser(lines, delimiter=d, quotechar=q, escapechar=e, return_quoted=rq)
            return list(p[0])

    elif rng.random() < 0.5:

        def work():
            return mod.base_abstraction(text, d, q, e)

    else:
        marks = "".join(rng.choice("QCDQ") for _ in range(rng.choice([1, 5, 40, 300])))

        def work():
            return mod.c_merge_with_quotechar(marks)

    ctl[0] = ctl[1] = ctl[2] = ctl[3] = 0
    want = ctx.call(work)
    total = ctl[1]
    points = range(1, total + 1)
    if total > 120:
        points = sorted(set(list(range(1, 30)) + rng.sample(range(1, total + 1), 90)))
    for n in points:
        ctl[1] = ctl[2] = 0
        ctl[3] = rng.random() < 0.3
        ctl[0] = n
        out = ctx.call(work)
        failed = ctl[2]
        ctl[0] = ctl[2] = ctl[3] = 0
        if failed:
            ctx.event("failures injected", failed)
        if isinstance(out.exc, SystemError) or isinstance(out.exc, (KeyboardInterrupt, SystemExit)):
            ctx.fail("not an ordinary exception: %r" % out.exc, n=n, text=text)
        if out.exc is None:
            touch(out.value if which == "cparser" else [[out.value]])
            if failed and out.key() != want.key():
                ctx.fail("a failed allocation changed the result", got=out, want=want, text=text, n=n)
        elif failed:
            ctx.check(isinstance(out.exc, MemoryError), "failed allocation is not a MemoryError", got=out, text=text, n=n)
        # what is left of the parser can still be used
        if which == "cparser" and p[0] is not None:
            for _ in range(3):
                o = guard(ctx, next, p[0])
                if o.exc is None:
                    touch([o.value])
            p[0] = None
    ctx.event("allocation points", len(points))
    ctx.nontrivial("oom", text, d, q, e, which)
    ctx.sample((which, text[:200], total))


def whole(ctx, rng, i):
    """Detection and reading, on the sanitized extensions"""
    text = gen.sample_text(rng)
    if rng.random() < 0.1:
        text = big_text(rng, [",", '"'])[:3000]
        try:
            text.encode()
        except UnicodeEncodeError:
            return
    o = guard(ctx, clevercsv.Detector().detect, text)
    if o.exc is None and o.value is not None:
        rows = guard(ctx, lambda: list(clevercsv.reader(io.StringIO(text, newline=""), o.value)))
        if rows.exc is None:
            touch(rows.value)
    ctx.event("whole detections")


STRATA = [
    Stratum("parse_hostile", parse_hostile, 3000, 80000),
    Stratum("abstraction_hostile", abstraction_hostile, 3000, 80000),
    Stratum("large", large, 100, 500),
    Stratum("iterators", iterators, 4000, 100000),
    Stratum("cycles", cycles, 400, 8000),
    Stratum("arguments", arguments, 500, 15000),
    Stratum("recursion", recursion, 8, 64),
    Stratum("threads", threads, 80, 2000),
    Stratum("oom", oom, 1500, 40000),
    Stratum("whole", whole, 400, 10000),
]
