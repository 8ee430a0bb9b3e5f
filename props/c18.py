"""C18: clean tables load correctly without giving a dialect"""

import io
import os
import tempfile
import unicodedata
from pathlib import Path

import clevercsv
from clevercsv.consistency import ConsistencyDetector
from clevercsv.detect import Detector

from lib import gen
from lib.engine import Stratum

ID = "C18"
RULE = (
    "A case is a table of the class in the statement, saved by a writer of "
    "ours with a delimiter, a line ending, with or without a final line "
    "ending and in some encoding; it is loaded through every loading "
    "function, and each result is compared with the table. Every case is "
    "non-trivial; distinct by file content and encoding."
)
TECHNIQUE = "runtime monitoring: end-to-end round trip with the saved table as the oracle, through all loading functions, over generated clean tables"
LEVEL_NOTE = (
    "Random tables of 2 to 300 rows and 2 to 12 columns; all allowed "
    "delimiter characters of the basic plane are tried in the thorough tier."
)
REQUIRED = [
    "tables loaded",
    "tables streamed",
    "dictionaries loaded",
    "data frames loaded",
    "fully quoted tables",
    "alphanumeric tables",
    "other delimiters found by the consistency measure",
]
BUDGET = {"quick": 300, "thorough": 2400}

NLS = ["\n", "\r\n", "\r"]
ALNUM_CELLS = [
    lambda r: gen.word(r, 1, 8),
    lambda r: str(r.randint(0, 99999)),
    lambda r: r.choice("0123456789"),
    lambda r: r.choice(["True", "NA", "nan", "null", "None", "inf", "1e5", "0x1F", "007", "x", "Z9", "2019", "1230", "20190102"]),
    lambda r: gen.word(r, 20, 60),
]
QUOTED_EXTRA = list(" ,;|\t_-()+%&:#*=.")


def alnum_table(rng, wide=False):
    nr = rng.choice([2, 2, 3, 5, 8, 20]) if rng.random() < 0.95 else rng.randint(50, 300)
    nc = rng.randint(2, 6) if rng.random() < 0.9 else rng.randint(7, 12)
    by_col = rng.random() < 0.6
    kinds = [rng.choice(ALNUM_CELLS) for _ in range(nc)]
    rows = []
    for k in range(nr):
        row = []
        for c in range(nc):
            f = kinds[c] if by_col else rng.choice(ALNUM_CELLS)
            x = f(rng)
            if wide and rng.random() < 0.5:
                x += rng.choice(["\u00e9", "\u00df", "\u4e2d\u6587", "\u0416", "\u03b1", "\u0e01", "\u0967", "\U00010400"])
            row.append("x" if x.lower().endswith("localhost") else x)
        rows.append(row)
    unique_header(rng, rows)
    return rows


def unique_header(rng, rows):
    seen = set()
    for c, x in enumerate(rows[0]):
        while x in seen or x == "":
            x = x + rng.choice("abcdefgh")
        seen.add(x)
        rows[0][c] = x


def quoted_table(rng):
    nr = rng.randint(2, 10)
    nc = rng.randint(2, 6)
    pool = list("abcXYZ0189") + QUOTED_EXTRA
    if rng.random() < 0.3:
        pool += ["\u00e9", "\u4e2d", "\U0001f600"]
    rows = []
    for _ in range(nr):
        row = []
        for _ in range(nc):
            x = "".join(rng.choice(pool) for _ in range(rng.randint(0, 8)))
            row.append(x)
        rows.append(row)
    unique_header(rng, rows)
    return rows


def save(rng, rows, d, q, nl, encoding):
    text = nl.join(d.join(q + c + q for c in r) for r in rows)
    if rng.random() < 0.7:
        text += nl
    return text


def load_all(ctx, rng, rows, text, encoding, auto_ok):
    """Through every loading function"""
    path = os.path.join(tempfile.gettempdir(), "c18_%d.csv" % os.getpid())
    with open(path, "wb") as f:
        f.write(text.encode(encoding))
    # encoding detection is a guess, except for plain ASCII
    enc = None if text.isascii() and encoding == "utf-8" and rng.random() < 0.7 else encoding
    p = rng.choice([path, Path(path)])
    info = dict(text=text, encoding=enc)
    got = clevercsv.read_table(p, encoding=enc)
    ctx.event("tables loaded")
    if got != rows:
        ctx.fail("read_table doesn't give the table that was saved", got=got, want=rows, **info)
    got = [r for r in clevercsv.stream_table(p, encoding=enc)]
    ctx.event("tables streamed")
    if got != rows:
        ctx.fail("stream_table doesn't give the table that was saved", got=got, want=rows, **info)
    want = [dict(zip(rows[0], r)) for r in rows[1:]]
    got = [dict(x) for x in clevercsv.read_dicts(p, encoding=enc)]
    ctx.event("dictionaries loaded", len(got))
    if got != want:
        ctx.fail("read_dicts doesn't give the table that was saved", got=got, want=want, **info)
    got = [dict(x) for x in clevercsv.stream_dicts(p, encoding=enc)]
    if got != want:
        ctx.fail("stream_dicts doesn't give the table that was saved", got=got, want=want, **info)
    dialect = clevercsv.detect_dialect(p, encoding=enc)
    with open(path, "r", newline="", encoding=encoding) as f:
        got = list(clevercsv.reader(f, dialect))
    if got != rows:
        ctx.fail("reading with the detected dialect %r" % dialect, got=got, want=rows, **info)
    with open(path, "r", newline="", encoding=encoding) as f:
        got = list(clevercsv.reader(f, clevercsv.Sniffer().sniff(text)))
    if got != rows:
        ctx.fail("reading with the sniffed dialect", got=got, want=rows, **info)
    if rng.random() < 0.15 and not any(c[:1] in (" ", "\t") for r in rows for c in r[:1]):
        kw = dict(encoding=enc) if enc else {}
        df = clevercsv.read_dataframe(p, dtype=str, keep_default_na=False, na_filter=False, **kw)
        ctx.event("data frames loaded")
        if list(df.columns) != rows[0] or df.values.tolist() != rows[1:]:
            ctx.fail("read_dataframe doesn't give the table that was saved", got=(list(df.columns), df.values.tolist()), want=rows, **info)
    os.unlink(path)
    ctx.nontrivial(text, encoding)


ENCODINGS = ["utf-8"] * 8 + ["utf-16", "utf-8-sig", "utf-32", "utf-16-le"]


def alnum(ctx, rng, i):
    rows = alnum_table(rng, rng.random() < 0.2)
    text = save(rng, rows, rng.choice(gen.COMMON_D), "", rng.choice(NLS), "utf-8")
    ctx.event("alphanumeric tables")
    load_all(ctx, rng, rows, text, rng.choice(ENCODINGS), True)
    ctx.sample(text)


def quoted(ctx, rng, i):
    rows = quoted_table(rng)
    q = rng.choice(['"', '"', "'"])
    text = save(rng, rows, rng.choice(gen.COMMON_D), q, rng.choice(NLS), "utf-8")
    ctx.event("fully quoted tables")
    load_all(ctx, rng, rows, text, rng.choice(ENCODINGS), True)
    ctx.sample(text)


BLOCK = {"Lu", "Ll", "Lt", "Lm", "Lo", "Nd", "Nl", "No", "Ps", "Pe", "Co", "Cs"}


def allowed(c):
    return c == "\t" or (c not in "\0./\"'\n\r~`" and unicodedata.category(c) not in BLOCK)


SOME = [chr(c) for c in range(1, 0x3000) if allowed(chr(c)) and unicodedata.category(chr(c)) != "Cn"]
REST = [chr(c) for c in list(range(0x3000, 0x10000)) + list(range(0x10000, 0x20000, 7)) if allowed(chr(c))]


def consistency(ctx, rng, i):
    """Any allowed delimiter, plain cells: the consistency measure alone"""
    if ctx.tier == "thorough" and i < len(SOME) + len(REST):
        d = (SOME + REST)[i]
    elif i < 160 or rng.random() < 0.4:
        d = SOME[i % len(SOME)] if i < 160 else rng.choice(SOME[:60])
    else:
        d = rng.choice(SOME if rng.random() < 0.7 else REST)
    rows = alnum_table(rng, rng.random() < 0.2)[:40]
    nl = rng.choice(NLS)
    text = save(rng, rows, d, "", nl, "utf-8")
    use = rng.choice([None, None, [d], [d, ",", ";"]])
    skip = rng.random() < 0.7
    for got in (
        Detector().detect(text, delimiters=use, method="consistency", skip=skip),
        ConsistencyDetector(skip=skip).detect(text, use),
    ):
        if got is None or got.delimiter != d or got.quotechar or got.escapechar:
            ctx.fail("the consistency measure doesn't find %r" % d, text=text, got=got, delimiters=use)
        back = list(clevercsv.reader(io.StringIO(text, newline=""), got))
        if back != rows:
            ctx.fail("the table isn't read back", text=text, got=back, want=rows)
    ctx.event("other delimiters found by the consistency measure")
    ctx.nontrivial(text)


def large(ctx, rng, i):
    """Large tables"""
    n = rng.choice([700, 3000, 9000])
    if i % 2:
        rows = quoted_table(rng)
        q = rng.choice(['"', "'"])
    else:
        rows = alnum_table(rng, False)
        q = ""
    body = rows[1:]
    rows = rows[:1] + body * (n // len(body) + 1) + body[: rng.randint(0, len(body))]
    text = save(rng, rows, rng.choice(gen.COMMON_D), q, rng.choice(NLS), "utf-8")
    load_all(ctx, rng, rows, text, rng.choice(ENCODINGS), True)
    ctx.event("large tables")
    ctx.maxi("characters of a table", len(text))


STRATA = [
    Stratum("alnum", alnum, 2500, 25000),
    Stratum("quoted", quoted, 2500, 25000),
    Stratum("consistency", consistency, 4000, len(SOME) + len(REST) + 10000),
    Stratum("large", large, 24, 300),
]
