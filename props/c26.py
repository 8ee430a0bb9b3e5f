"""C26: encoding detection looks at the whole file, once"""

import os
import pathlib
import sys

import cchardet
import chardet
from clevercsv.encoding import get_encoding

from lib import gen
from lib.engine import Stratum

ID = "C26"
RULE = (
    "A case is a file whose size lies around a multiple of the block size "
    "(or is arbitrary), with content that decides the encoding at its begin, "
    "at its end or across blocks. The detectors of chardet and "
    "cchardet record what they are fed; the trace is compared with the "
    "bytes of the file and the answer with that of a fresh detector fed in "
    "the same way. Non-trivial: more than one block, or not ASCII; distinct "
    "by content."
)
TECHNIQUE = "runtime monitoring: trace monitor on the calls to the encoding detector (order, completeness, exactly once), with an independent detector as oracle for the answer, and monitors of open descriptors and of the file"
LEVEL_NOTE = "Files of up to 4 MB; the answers of chardet and cchardet themselves are trusted."
REQUIRED = [
    "traces of one block",
    "traces of several blocks",
    "certain before the end",
    "whole file fed",
    "byte order marks",
    "ASCII files",
    "decided at the end",
    "answers of chardet",
    "answers of cchardet",
    "changed files",
    "sizes at a block boundary",
]
BUDGET = {"quick": 300, "thorough": 2400}
BLK = 65536

_rec = []
_on = [False]
CLASSES = {"chardet": chardet.UniversalDetector, "cchardet": cchardet.UniversalDetector}


class Trace:
    def __init__(self, kind, detector):
        self.kind = kind
        self.chunks = []
        self.closed = False
        self.detector = detector


def _wrap(kind, cls):
    """Record what the detectors get"""
    init, feed, close, reset = cls.__init__, cls.feed, cls.close, cls.reset

    def get(self):
        t = self.__dict__.get("_vf_trace")
        if t is None:
            t = self.__dict__["_vf_trace"] = Trace(kind, self)
            if _on[0]:
                _rec.append(t)
        return t

    def my_init(self, *a, **k):
        init(self, *a, **k)
        get(self)

    def my_feed(self, data):
        get(self).chunks.append((bytes(data), bool(self.done)))
        return feed(self, data)

    def my_close(self):
        get(self).closed = True
        return close(self)

    def my_reset(self):
        t = self.__dict__.get("_vf_trace")
        if t is not None:
            t.chunks = []
            t.closed = False
        return reset(self)

    cls.__init__, cls.feed, cls.close, cls.reset = my_init, my_feed, my_close, my_reset


def worker_setup(env):
    for kind, cls in CLASSES.items():
        _wrap(kind, cls)


def fed_with(kind, chunks):
    d = CLASSES[kind]()
    for c in chunks:
        d.feed(c)
    return d


def fresh(kind, chunks):
    d = fed_with(kind, chunks)
    d.close()
    return d.result.get("encoding")


def size(rng):
    r = rng.random()
    if r < 0.015:
        # a multiple of a larger power of two
        return max(0, (1 << rng.choice([18, 19, 20, 20, 21, 22])) + rng.choice([-1, 0, 1, rng.randint(0, 200000)]))
    if r < 0.15:
        return rng.randint(0, 12)
    if r < 0.3:
        return rng.randint(13, 3000)
    if r < 0.35:
        return rng.randint(3000, 60000)
    k = rng.choice([1, 1, 1, 2, 2, 3]) * rng.choice([BLK, BLK, BLK, BLK, 8192, 4096, 1 << 15])
    return max(0, k + rng.choice([-2, -1, 0, 0, 1, 2, rng.randint(-300, 300)]))


ASCII = "".join(chr(c) for c in range(32, 126) if chr(c) not in "~") + "\n\r\t"


def ascii_bytes(rng, n):
    part = "".join(rng.choice(ASCII) for _ in range(min(n, 400)))
    if rng.random() < 0.2:
        # blocks that are all the same, or blank
        part = rng.choice([" ", "\n", "\t", ",", "a", "0", "\r\n", " \n"])
    elif n > 2 * BLK and rng.random() < 0.2:
        # a blank block between others
        text = bytearray((part * (n // len(part) + 1))[:n].encode("ascii"))
        k = rng.randrange(n // BLK) * BLK
        text[k : k + BLK] = (rng.choice([b" ", b"\n", b"\t", b"x"]) * BLK)[: n - k]
        return bytes(text)
    return ((part * (n // max(1, len(part)) + 1))[:n]).encode("ascii")


def content(rng):
    """(bytes, what it is)"""
    n = size(rng)
    kind = rng.choice(["ascii", "ascii", "bom8", "bom16", "bom32", "late", "late", "straddle", "text", "text", "esc", "bytes"])
    if kind == "ascii":
        return ascii_bytes(rng, n), kind
    if kind == "bom8":
        return b"\xef\xbb\xbf" + ascii_bytes(rng, max(0, n - 3)), kind
    if kind == "bom16":
        t = ascii_bytes(rng, max(1, n // 2 - 1)).decode()
        return t.encode("utf-16") if rng.random() < 0.5 else b"\xfe\xff" + t.encode("utf-16-be"), kind
    if kind == "bom32":
        t = ascii_bytes(rng, max(0, n // 4 - 1)).decode()
        return t.encode("utf-32") if rng.random() < 0.5 else b"\x00\x00\xfe\xff" + t.encode("utf-32-be"), kind
    tail = rng.choice(["\u00e9t\u00e9 \u00e0 No\u00ebl", "\u4e2d\u6587\u5b57", "\u0434\u043e\u0431\u0440\u044b\u0439", "\u65e5\u672c\u8a9e\u306e"])
    enc = rng.choice(["utf-8", "utf-8", "cp1252", "shift_jis", "koi8-r", "gb2312", "cp1251"])
    try:
        tail = tail.encode(enc)
    except UnicodeError:
        tail = tail.encode("utf-8")
    if kind == "late":
        tail = tail * rng.choice([1, 1, 5])
        return ascii_bytes(rng, max(0, n - len(tail))) + tail, kind
    if kind == "straddle":
        # multibyte characters across the ends of the blocks
        unit = rng.choice(["\u4e2d".encode(), "\U0001f600".encode(), "\u00e9".encode(), tail])
        out = bytearray(ascii_bytes(rng, n))
        for k in range(1, n // 4096 + 1):
            p = k * 4096 - rng.randint(1, 3)
            out[p : p + len(unit)] = unit
        return bytes(out), kind
    if kind == "text":
        n = min(n, 70000)
        unit = tail + b", " + ascii_bytes(rng, rng.randint(1, 30)) + b"\n"
        return (unit * (n // len(unit) + 1))[:n], kind
    if kind == "esc":
        esc = rng.choice([b"\x1b$B0!0\"\x1b(B", b"~{0!~}", b"\x1b$)C\x0e0!\x0f"])
        out = bytearray(ascii_bytes(rng, n))
        p = rng.choice([0, max(0, n - len(esc)), max(0, (n // BLK) * BLK - rng.randint(0, len(esc)))])
        out[p : p + len(esc)] = esc
        return bytes(out), kind
    n = min(n, 70000)
    return bytes(rng.randrange(256) for _ in range(min(n, 1000))) * (n // 1000 + 1), kind


def fds():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            out[f] = os.readlink("/proc/self/fd/" + f)
        except OSError:
            pass
    return out


def judge(ctx, path, data, kind, want_kind, got, info):
    ctx.event("answers of " + want_kind)
    traces = [t for t in _rec if t.chunks or t.closed]
    answers = []
    for t in traces:
        fed = b"".join(c for c, was_done in t.chunks if not was_done)
        everything = b"".join(c for c, _ in t.chunks)
        ok = data.startswith(everything) and (everything == data or any(d for _, d in t.chunks) or t.detector.done)
        # close() also sets done, so that has to come from the feeding
        if everything != data:
            ok = ok and fed_with(t.kind, [c for c, _ in t.chunks]).done
            if ok:
                ctx.event("certain before the end")
        else:
            ctx.event("whole file fed")
        ctx.check(
            ok,
            "the detector isn't fed the bytes of the file in order: %d chunks of %r, together %d of %d bytes"
            % (len(t.chunks), [len(c) for c, _ in t.chunks][:10], len(everything), len(data)),
            **info,
        )
        ctx.event("traces of one block" if len(t.chunks) < 2 else "traces of several blocks")
        answers.append((t.kind, fresh(t.kind, [c for c, _ in t.chunks])))
    if not traces:
        ctx.event("no detector seen")
        answers = [(want_kind, fresh(want_kind, [data])), (want_kind, fresh(want_kind, [data[k : k + BLK] for k in range(0, len(data), BLK)]))]
    ctx.check(
        (want_kind, got) in answers,
        "the answer is %r, that of the detector %r" % (got, answers),
        **info,
    )
    low = (got or "").lower()
    if kind == "ascii" and data:
        ctx.event("ASCII files")
        ctx.same(low, "ascii", "an ASCII file isn't recognised", **info)
    elif kind.startswith("bom"):
        ctx.event("byte order marks")
        ctx.check(
            low.replace("_", "-") in {"bom8": ("utf-8-sig",), "bom16": ("utf-16",), "bom32": ("utf-32",)}[kind],
            "the byte order mark isn't recognised: %r" % got,
            **info,
        )
    elif kind == "late":
        ctx.event("decided at the end")
        ctx.check(low != "ascii", "the end of the file isn't seen", **info)


def one_case(ctx, rng, i):
    data, kind = content(rng)
    mode = rng.choice(["default", "default", "no_try", "absent"])
    path = os.path.join(ctx.env["scratch"], "enc%d" % os.getpid())
    arg = rng.choice([path, path, pathlib.Path(path), os.fsencode(path)])
    if mode == "absent":
        sys.modules["cchardet"] = None
    try:
        for turn in range(2 if rng.random() < 0.3 else 1):
            if turn:
                # other bytes under the same name, size and time
                st = os.stat(path)
                n = len(data)
                kind = "late"
                data = (b"a;b\n" * (n // 4 + 1))[: max(0, n - 1)] + b"\xe9"
                if n < 2:
                    break
                ctx.event("changed files")
            with open(path, "wb") as f:
                f.write(data)
            if turn:
                os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns))
            before = fds()
            stat = os.stat(path)
            _rec.clear()
            _on[0] = True
            try:
                got = get_encoding(arg, try_cchardet=False) if mode == "no_try" else get_encoding(arg)
            finally:
                _on[0] = False
            info = dict(size=len(data), kind=kind, mode=mode, begin=data[:40], end=data[-40:])
            after = fds()
            ctx.same(after, before, "descriptors left open", **info)
            now = os.stat(path)
            with open(path, "rb") as f:
                ctx.check(f.read() == data and now.st_mtime_ns == stat.st_mtime_ns and now.st_mode == stat.st_mode, "the file was changed", **info)
            judge(ctx, path, data, kind, "cchardet" if mode == "default" else "chardet", got, info)
            if len(data) and len(data) % BLK == 0:
                ctx.event("sizes at a block boundary")
            if len(data) > BLK or kind != "ascii":
                ctx.nontrivial(data)
            ctx.maxi("bytes of a file", len(data))
            ctx.sample((kind, len(data), data[:40]))
    finally:
        _rec.clear()
        sys.modules["cchardet"] = cchardet
        if os.path.exists(path):
            os.unlink(path)


STRATA = [
    Stratum("file", one_case, 1600, 30000),
]
