"""C01: parsing follows the dialect grammar"""

import io
import itertools

import clevercsv
from clevercsv.cparser_util import parse_data, parse_string
from clevercsv.dialect import SimpleDialect
from clevercsv.exceptions import Error

from lib import gen
from lib.engine import Stratum
from lib.models import parser as M

ID = "C01"
RULE = (
    "A case is a text (or list of lines), a dialect of different characters, "
    "a strict flag and an entry point; every record, quoted flag and error "
    "position is compared with an independent grammar model. Non-trivial: "
    "the text contains at least one special character; distinct by text, "
    "dialect and flags."
)
TECHNIQUE = "runtime monitoring: records of the real parser checked against an independent grammar model"
LEVEL_NOTE = (
    "Exhaustive over all texts of up to six characters from the special "
    "alphabet for one full dialect, random beyond that; trusts the Python "
    "model of the grammar in lib/models/parser.py."
)
REQUIRED = ["records compared", "quoted cells seen", "errors compared"]

ERR = {
    "newline": "new-line character",
    "nul": "NULL byte",
    "limit": "field larger than field limit",
    "strict": "expected after",
    "end": "unexpected end of data",
    "text": "iterator should return strings",
}


def run_real(lines, d, q, e, strict, quoted, entry, text=None):
    """[('row', ...)..., maybe ('error', message)]"""
    out = []
    if entry == "reader":
        it = clevercsv.reader(
            iter(lines), delimiter=d, quotechar=q, escapechar=e, strict=strict
        )
    elif entry == "reader_dialect":
        it = clevercsv.reader(
            lines, SimpleDialect(d, q, e, strict=strict)
        )
    elif entry == "parse_string":
        it = parse_string(
            text, SimpleDialect(d, q, e, strict=strict), return_quoted=quoted
        )
    elif entry == "parse_data":
        it = parse_data(
            lines,
            delimiter=d,
            quotechar=q,
            escapechar=e,
            strict=strict,
            return_quoted=quoted,
        )
    else:
        it = parse_data(
            lines,
            dialect=SimpleDialect(d, q, e, strict=strict),
            return_quoted=quoted,
        )
    try:
        for row in it:
            out.append(("row", row))
    except Error as exc:
        out.append(("error", str(exc)))
    return out


def run_model(lines, d, q, e, strict, quoted, limit=None):
    out = []
    try:
        for row in M.Parser(
            lines, d, q, e, strict=strict, quoted=quoted, limit=limit
        ):
            out.append(("row", row))
    except M.ModelError as exc:
        out.append(("error", exc.kind))
    return out


def compare(ctx, got, want, **info):
    for k in range(max(len(got), len(want))):
        g = got[k] if k < len(got) else None
        w = want[k] if k < len(want) else None
        if w is not None and g is not None and w[0] == "error" == g[0]:
            ctx.event("errors compared")
            ctx.check(
                ERR[w[1]] in g[1], "wrong error", got=g, want=w, **info
            )
            continue
        if g != w:
            ctx.fail("record %d differs" % k, got=g, want=w, **info)
        ctx.event("records compared")
        if w[1] and isinstance(w[1][0], tuple):
            ctx.check(
                all(type(c) is tuple and type(c[1]) is bool for c in g[1]),
                "cells are not (text, bool) tuples",
                got=g,
            )
            ctx.event("quoted cells seen", sum(c[1] for c in w[1]))
        else:
            ctx.check(type(g[1]) is list, "row is not a list", got=g)
    if not want:
        ctx.event("empty results compared")


def one(ctx, text, d, q, e, strict, quoted, entry, lines=None):
    if lines is None:
        lines = M.split_lines(text)
    if entry.startswith("reader"):
        quoted = False
    got = run_real(lines, d, q, e, strict, quoted, entry, text)
    want = run_model(lines, d, q, e, strict, quoted)
    info = dict(lines=lines, dialect=(d, q, e), strict=strict, entry=entry)
    compare(ctx, got, want, **info)
    if any(c in text for c in (d, q, e) if c):
        ctx.nontrivial(text, d, q, e, strict, quoted, entry)
    ctx.sample((entry, (d, q, e), strict, text))


ENTRIES = ["reader", "reader_dialect", "parse_string", "parse_data", "parse_dialect"]

# every string up to a length over the characters that matter, in blocks
SMALL = 'ab,"\\\n'


def exhaustive(ctx, rng, case):
    n, prefix, alphabet, d, q, e, strict = case
    for t in itertools.product(alphabet, repeat=n):
        text = prefix + "".join(t)
        got = run_real(M.split_lines(text), d, q, e, strict, True, "parse_data")
        want = run_model(M.split_lines(text), d, q, e, strict, True)
        compare(ctx, got, want, text=text, dialect=(d, q, e), strict=strict)
        ctx.nontrivial(text, d, q, e, strict)
    ctx.sample(case)


EXH = []
for strict in (False, True):
    for pre in itertools.product('a,"\\\n\r', repeat=2):
        EXH.append((4, "".join(pre), 'a,"\\\n\r', ",", '"', "\\", strict))
for d, q, e in [("", '"', ""), (",", "", "\\"), ("", "", "\\"), (",", '"', "")]:
    for pre in itertools.product('a,"\\\n', repeat=2):
        EXH.append((3, "".join(pre), 'a,"\\\n', d, q, e, False))
EXH_DEEP = []
for strict in (False, True):
    for pre in itertools.product('a,"\\\n\r', repeat=3):
        EXH_DEEP.append((5, "".join(pre), 'a,"\\\n\r', ",", '"', "\\", strict))


def rand_soup(ctx, rng, i):
    d, q, e = gen.dialect_chars(rng)
    text = gen.soup(rng, d, q, e, rng.randint(1, 40))
    if rng.random() < 0.03:
        k = rng.randint(0, len(text))
        text = text[:k] + "\0" + text[k:]
    one(ctx, text, d, q, e, rng.random() < 0.3, rng.random() < 0.5, rng.choice(ENTRIES))


def rand_chunks(ctx, rng, i):
    """Lines of input that are not lines of text: no ends, several ends"""
    d, q, e = gen.dialect_chars(rng)
    lines = []
    for _ in range(rng.randint(0, 6)):
        s = gen.soup(rng, d, q, e, rng.randint(0, 8), nl=("\n", "\r", "\r\n", "\n\n"))
        if rng.random() < 0.5:
            s = s.rstrip("\r\n")
        lines.append(s)
    text = "".join(lines)
    entry = rng.choice(["reader", "reader_dialect", "parse_data", "parse_dialect"])
    one(ctx, text, d, q, e, rng.random() < 0.3, rng.random() < 0.5, entry, lines)


def rand_messy(ctx, rng, i):
    d, q, e = gen.dialect_chars(rng, common=0.9)
    text = gen.messy(rng, d=d, q=q, e=e)
    one(ctx, text, d, q, e, rng.random() < 0.2, rng.random() < 0.5, rng.choice(ENTRIES))


SIZES = []
for size in (1, 2, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 131070, 131071):
    for fill in ("a", "\u00e9", "\u4e2d", "\U0001f600"):
        for shape in ("plain", "quoted", "escaped", "doubled", "last", "open", "nested"):
            SIZES.append((size, fill, shape))


def sizes(ctx, rng, case):
    """Cells around every doubling of the field buffer"""
    size, fill, shape = case
    d, q, e = ",", '"', "\\"
    body = fill * (size - 1) + "z"
    if shape == "plain":
        text = body + ",x\ny," + body + "\n"
    elif shape == "quoted":
        body = body[:-3]
        text = '"' + body + '",x\n"' + body[:-1] + ',\n' + '"\n'
    elif shape == "escaped":
        k = rng.randint(0, max(0, size - 2))
        text = body[:k] + "\\," + body[k + 1 :] + ",x\n"
    elif shape == "doubled":
        k = rng.randint(0, max(0, size - 4))
        text = '"' + body[: k] + '""' + body[k + 4:] + '",x\n'
    elif shape == "last":
        text = "x," + body
    elif shape == "open":
        text = 'x,"' + body[:-1]
    else:
        text = body[: size // 2] + '"' + body[size // 2 + 3 :] + ',"x\n1,2\n'
    one(ctx, text, d, q, e, False, rng.random() < 0.5, rng.choice(ENTRIES))
    ctx.maxi("longest cell", size)


def many(ctx, rng, i):
    """Records with many cells and texts with many records"""
    d, q, e = gen.dialect_chars(rng, empty=0, common=0.9)
    cells = [gen.cell_text(rng, [], nls=False).replace(d, "").replace(q or "\0", "").replace(e or "\0", "") for _ in range(50)]
    n = rng.choice([1000, 3000, 5000, 33000, 66000, 66000, 140000])
    if rng.random() < 0.5:
        text = d.join(rng.choice(cells) for _ in range(n)) + "\n"
    else:
        text = "\n".join(d.join(rng.choice(cells) for _ in range(3)) for _ in range(n))
    one(ctx, text, d, q, e, False, True, rng.choice(["parse_string", "parse_data"]))


STRATA = [
    Stratum("exhaustive", exhaustive, None, cases=EXH),
    Stratum("sizes", sizes, None, cases=SIZES),
    Stratum("soup", rand_soup, 120000, 1500000),
    Stratum("chunks", rand_chunks, 60000, 800000),
    Stratum("messy", rand_messy, 24000, 300000),
    Stratum("many", many, 48, 600),
    Stratum("exhaustive_deep", exhaustive, 0, None, cases=EXH_DEEP),
]
