"""C08: detection is total and its result is valid and taken from the sample"""

import io
import itertools
import os
import tempfile

import clevercsv
from clevercsv.detect import DetectionMethod, Detector
from clevercsv.dialect import SimpleDialect

from lib import gen
from lib.engine import Stratum

ID = "C08"
RULE = (
    "A case is a text, a method, allowed delimiters in some container and an "
    "entry point. The monitor looks at what detection returns or raises, "
    "checks the result against the text, and parses the text with it; cases "
    "that take too much CPU time are violations. Non-trivial: the text has "
    "at least two different characters; distinct by text and options."
)
TECHNIQUE = "runtime monitoring: validity monitor on the outcome of detection (CPU time, exception, result against the sample) over exhaustive short and random hostile texts"
LEVEL_NOTE = (
    "Complete over the texts of up to four characters from twelve special "
    "ones, random beyond that; texts of up to some thousand characters, "
    "since run time grows with the square of the longest word."
)
REQUIRED = [
    "dialects found",
    "nothing found",
    "samples parsed",
    "NUL errors",
    "repetitive cells",
    "method auto",
    "method normal",
    "method consistency",
]
CPU = 60

DEFAULT_NORMAL = {",", ";", "|", "\t"}


def judge(ctx, text, method, delims, skip=True, via="detect"):
    info = dict(text=text, method=method, delimiters=delims, skip=skip, via=via)
    arg = delims
    if isinstance(delims, list):
        arg = list(delims)
    if via == "generator" and delims is not None:
        arg = (c for c in delims)
    if via == "sniff":
        out = ctx.call(clevercsv.Sniffer().sniff, text, delimiters=arg)
        method = "auto"
    elif via == "enum":
        out = ctx.call(Detector().detect, text, delimiters=arg, method=DetectionMethod(method), skip=skip)
    elif via == "positional":
        out = ctx.call(Detector().detect, text, arg, False, method, skip)
    elif via == "file":
        path = os.path.join(tempfile.gettempdir(), "c08_%d.csv" % os.getpid())
        with open(path, "w", newline="", encoding="utf-8") as f:
            f.write(text)
        out = ctx.call(clevercsv.detect_dialect, path, encoding="utf-8", method=method, skip=skip)
        os.unlink(path)
        delims = None
    else:
        out = ctx.call(Detector().detect, text, delimiters=arg, method=method, skip=skip)
    ctx.event("method " + method)
    if out.exc is not None:
        if "\0" in text and isinstance(out.exc, clevercsv.Error):
            ctx.event("NUL errors")
            return None
        ctx.fail("detection raised %r" % out.exc, **info)
    d = out.value
    if d is None:
        ctx.event("nothing found")
        return None
    ctx.check(isinstance(d, SimpleDialect), "not a dialect", got=d, **info)
    parts = (d.delimiter, d.quotechar, d.escapechar)
    ctx.check(
        all(isinstance(c, str) and len(c) <= 1 for c in parts) and d.strict is False,
        "invalid dialect",
        got=d,
        **info,
    )
    d.validate()
    if d.delimiter and delims is not None:
        ctx.check(d.delimiter in set(delims), "delimiter isn't allowed", got=d, **info)
    if d.delimiter and delims is None and method == "normal":
        ctx.check(d.delimiter in DEFAULT_NORMAL, "no delimiter of a normal form", got=d, **info)
    if method != "normal":
        for c in parts:
            ctx.check(c in text, "%r isn't in the sample" % c, got=d, **info)
    if d.delimiter and delims is None:
        ctx.check(d.delimiter not in "\r\n.\"'/" and not d.delimiter.isalnum(), "impossible delimiter", got=d, **info)
    ctx.event("dialects found")
    ctx.event("with quotes" if d.quotechar else "without quotes")
    if d.escapechar:
        ctx.event("with an escape")
    if "\0" not in text:
        p = ctx.call(lambda: sum(1 for _ in clevercsv.reader(io.StringIO(text, newline=""), d)))
        if p.exc is not None:
            ctx.fail("the sample can't be parsed: %r" % p.exc, got=d, **info)
        ctx.event("samples parsed")
    return d


METHODS = ["auto", "normal", "consistency"]


def options(rng, text):
    r = rng.random()
    if r < 0.5:
        delims = None
    elif r < 0.6:
        delims = [rng.choice([",", ";", "\t", " ", "a", "|"])]
    elif r < 0.8:
        delims = rng.sample([",", ";", "|", "\t", " ", ":", "-", "a", "1", "\u00e9", "/", "."], rng.randint(0, 6))
    elif text:
        delims = rng.sample(sorted(set(text) - set("\r\n")) or ["a"], 1)
    else:
        delims = []
    if delims is not None:
        c = rng.choice([list, list, tuple, set, frozenset, "".join])
        delims = c(delims)
    return delims


def random_samples(ctx, rng, i):
    text = gen.sample_text(rng)
    if rng.random() < 0.15:
        text = mangle(rng, text)
    delims = options(rng, text)
    via = rng.choice(["detect", "detect", "sniff", "enum", "positional", "generator", "file"])
    judge(ctx, text, rng.choice(METHODS), delims, rng.random() < 0.7, via)
    if len(set(text)) > 1:
        ctx.nontrivial(text, repr(delims))
    ctx.sample((text, delims, via))


def mangle(rng, text):
    """Cut, repeat, reverse or spoil a text"""
    r = rng.randint(0, 6)
    if r == 0:
        return text[: rng.randint(0, len(text))]
    if r == 1:
        return text * rng.randint(2, 4)
    if r == 2:
        return text[::-1]
    if r == 3:
        return text.replace("\n", rng.choice(["", "\r", "\n\n", "\u2028", "\x85"]))
    if r == 4:
        return "\ufeff" + text
    if r == 5:
        return text.upper()
    return "".join(rng.sample(text, len(text)))


def nul(ctx, rng, i):
    text = gen.sample_text(rng)
    for _ in range(rng.randint(1, 3)):
        k = rng.randint(0, len(text))
        text = text[:k] + "\0" + text[k:]
    judge(ctx, text, rng.choice(METHODS), options(rng, ""), rng.random() < 0.5)
    ctx.nontrivial("nul", text)


#: cells that cost a lot, or break into unusual ways
NASTY = [
    "[" * 2000, "{" * 1500, '{"a":' * 400, "9" * 3000, "9" * 5000, "1e" + "9" * 400, "-" * 500,
    "1," * 300, "1." * 300, "a@" * 200, "a." * 300, "http://" * 60, "http://" + "a." * 200, "/a" * 300,
    "~/" * 100, "%" * 300, "$" * 300, "1:" * 200, "12:30:" * 60, "2019-01-01" * 40, "2019-01-01T" * 40,
    "'\"" * 150, "\\\"" * 150, "\"\"" * 200, "~`" * 100, "bytearray(b'" + "x" * 500 + "')", "bytearray(" * 100,
    "[1]" * 200, "{}" * 100, "NaN", "Infinity", "-Infinity", '{"a": 1' + "0" * 5000 + "}", "[1" + "0" * 5000 + "]",
    "\u0301" * 200, "\U0001f600" * 200, "\u202e" * 50, "\u2028" * 100, "\x85" * 100, "\x0b\x0c" * 80, "\x1c\x1d\x1e\x1f" * 50,
    "\u0661\u0662" * 50, "\u00b2" * 50, "\u2160" * 50, " " * 1000, "\t" * 500, "a b" * 300, "(" * 300, "e" * 700, "E1" * 300,
    "+" * 300, "1+" * 200, "0x" * 100, "1_000" * 50, "\u00a0" * 200, "\ufeff" * 20, "&" * 200, "#" * 200, "=" * 200, "?" * 200,
]


def nasty(ctx, rng, case):
    d = rng.choice(gen.COMMON_D)
    q = rng.choice(["", "", '"', "'"])
    cells = [q + c + q for c in (case, rng.choice(["a", "1", ""]), case)]
    lines = [d.join(rng.sample(cells, rng.randint(1, 3))) for _ in range(rng.randint(1, 3))]
    text = rng.choice(["\n", "\r\n"]).join(lines) + rng.choice(["", "\n"])
    if len(text) > 12000:
        text = text[:12000]
    judge(ctx, text, "consistency", rng.choice([None, [d]]), rng.random() < 0.5)
    judge(ctx, text, "auto", None)
    ctx.nontrivial("nasty", text)
    ctx.event("nasty cells")


ALPHA = [",", '"', "'", "\\", "\n", "a", " ", "/", "\r", "1", "~", ";"]
SHORT = [""] + ["".join(t) for n in (1, 2, 3) for t in itertools.product(ALPHA, repeat=n)]
BLOCK = [list(t) for t in itertools.product(ALPHA, repeat=2)]


def short(ctx, rng, text):
    for m in METHODS:
        judge(ctx, text, m, None)
    judge(ctx, text, "consistency", ALPHA, False)
    ctx.nontrivial(text)


def four(ctx, rng, two):
    """All texts of four characters that begin with the two given"""
    for rest in itertools.product(ALPHA, repeat=2):
        text = "".join(two) + "".join(rest)
        judge(ctx, text, "consistency", None)
        judge(ctx, text, "normal", None)
        ctx.nontrivial(text)


def planes(ctx, rng, i):
    """Characters from everywhere in Unicode, next to quotes and delimiters"""
    chars = []
    for _ in range(6):
        c = rng.choice([rng.randint(1, 0x2FF), rng.randint(0x2000, 0x33FF), rng.randint(0xA000, 0xFFFF), rng.randint(0x10000, 0x10FFFF)])
        if not 0xD800 <= c <= 0xDFFF:
            chars.append(chr(c))
    pool = chars * 2 + list(",\"'\n a1")
    text = "".join(rng.choice(pool) for _ in range(rng.randint(2, 40)))
    delims = None if rng.random() < 0.7 else rng.sample(chars, min(2, len(chars)))
    judge(ctx, text, rng.choice(METHODS), delims, rng.random() < 0.7)
    ctx.nontrivial(text)


def several(ctx, rng, i):
    """Allowed delimiters that are empty or have several characters"""
    seps = rng.choice(["::", "||", ",,", ", ", "\t\t", "ab", "->", ";;;", "\r\n", '","', "1", ",", "", "\\,"])
    pick = lambda: rng.choice([gen.word(rng), str(rng.randint(0, 99)), "", "x", '"a b"', "'%s'" % gen.word(rng)])
    n = rng.randint(1, 4)
    rows = [[pick() for _ in range(n)] for _ in range(rng.randint(1, 5))]
    if rng.random() < 0.5:
        rows = [[gen.word(rng) for _ in r] for r in rows]
    text = rng.choice(["\n", "\r\n"]).join(seps.join(r) for r in rows) + rng.choice(["", "\n"])
    delims = [seps] + rng.sample(["", ",", "::", "a", ",;", "|", "\n\n"], rng.randint(0, 3))
    rng.shuffle(delims)
    judge(ctx, text, rng.choice(METHODS), rng.choice([list, tuple, set])(delims), rng.random() < 0.7, rng.choice(["detect", "sniff", "generator"]))
    ctx.event("allowed strings that are no character")
    ctx.nontrivial(text, repr(sorted(delims)))


def large(ctx, rng, i):
    """The evidence comes at the end of a large sample"""
    text = gen.late(rng, rng.choice([None, None, None, None, 270000]))
    for m in METHODS:
        judge(ctx, text, m, rng.choice([None, None, gen.COMMON_D]), True, rng.choice(["detect", "file"]))
    ctx.event("large samples")
    ctx.nontrivial(text)


def many(ctx, rng, i):
    """Hundreds of candidates, or hundreds of columns"""
    text = gen.many(rng, rng.choice([20, 70, 150, 200])) if i % 2 else gen.wide(rng)[3]
    for m in METHODS:
        judge(ctx, text, m, rng.choice([None, None, sorted(set(text))[::2]]), True, rng.choice(["detect", "file"]))
    ctx.event("samples with much variety")
    ctx.nontrivial(text)


PREFIXES = ["", "a", "1", "-", "+", ".", "$", "$ ", "~", "/", "http://", "https://www.", "a@", "a@b.", "12:", "2020-01-01T", "2020-01-01 ", "bytearray(b", "{", "1,000", "1.000,", "e", "1e", "\u5e74", "n/"]
PUMPS = ["a", "1", "0", "A", " ", ".", "-", "_", "/", "@", ":", ",", "+", "%", "e", "(", "?", "ab", "a1", "1a", "a.", "1.", "a-", "/a", "/a.", "a ", "-a", "1,", "00,", "000,", "000.", "1:", "1e", "e1", "a@", "@a", "a/", "\u00e9", "\u00e91", "&a=", "#", "{", "[", "12:30:", "T1"]
SUFFIXES = ["", "\x07", "@", "@@", "{}", "\u20ac", "%", ".", "/", "-", "a@", "1\u4e2d@", ":", "}", ")"]


def pumped(ctx, rng, i):
    """Cells that are repetitive and nearly of some type, on which matching
    a pattern could backtrack without end"""
    k = rng.choice([24, 30, 40, 60])
    cells = []
    for pump in (PUMPS[i % len(PUMPS)], rng.choice(PUMPS)):
        for _ in range(30):
            cells.append(rng.choice(PREFIXES) + pump * k + rng.choice(SUFFIXES))
    d = rng.choice([",", ";", "|", "\t"])
    q = rng.choice(["", "", '"'])
    text = "".join(q + a + q + d + q + b + q + "\n" for a, b in zip(cells[::2], cells[1::2]))
    judge(ctx, text, rng.choice(["auto", "consistency"]), rng.choice([None, None, [d], [d, ",", " "]]), skip=False)
    ctx.event("repetitive cells", len(cells))
    ctx.nontrivial(text)


STRATA = [
    Stratum("short", short, None, cases=SHORT),
    Stratum("four", four, None, cases=BLOCK),
    Stratum("nasty", nasty, None, cases=NASTY * 2),
    Stratum("random", random_samples, 18000, 200000),
    Stratum("several", several, 7500, 60000),
    Stratum("nul", nul, 3600, 20000),
    Stratum("planes", planes, 12000, 120000),
    Stratum("many", many, 24, 400),
    Stratum("pumped", pumped, 180, 4000),
    Stratum("large", large, 16, 300),
]
