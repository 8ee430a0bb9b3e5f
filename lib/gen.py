"""Generators of texts, tables and dialects."""

import io
import csv

DELIMS = [",", ";", "|", "\t", " ", ":", "^", "-", "#", "~", "\u00a6", "\u3001", "\U0001f600", "=", "@", "*", "&", "\x1f", "$", "%"]
QUOTES = ['"', "'", "~", "`", "\u00ab", "\U0001f601"]
ESCAPES = ["\\", "/", "@", "\u00b7", "!", "\U00010102"]
COMMON_D = [",", ";", "|", "\t"]
WORDS = ["a", "b", "abc", "foo", "x1", "N/A", "nan", "1", "42", "3.14", "-7", "1,234.5", "2019-01-02", "12:30", "12:30:45", "10%", "$5", "\u20ac 12", "a@b.co", "http://x.org/a,b", "www.a.com", "localhost", "1.2.3.4", "/usr/bin", "~/x", "{\"a\": 1}", "{}", "bytearray(b'')", "2019-01-02T10:00:00Z", "\u00e9t\u00e9", "\u4e2d\u6587", "\U0001f600", "", " ", "  x ", "Hello World", "it's", 'say "hi"', "a\\b", "a/b", "100e5", "0", "00", "?", "!", "-", "_", ".", "T", "#", "'", '"', "~", "`", "\u2028", "\x85", "\x0b", "\x0c", "\x1c"]
UNI = ["\u00e9", "\u00ff", "\u0100", "\u4e2d", "\uffff", "\ufeff", "\U0001f600", "\U0010ffff", "\u0301", "\u2028", "\x85", "\x01", "\x7f"]


def dialect_chars(rng, empty=0.15, common=0.5):
    """Three different characters (or '') for delimiter, quote, escape"""
    used = set()

    def pick(pool, simple, p_empty):
        if rng.random() < p_empty:
            return ""
        if rng.random() < common:
            pool = simple
        for _ in range(50):
            c = rng.choice(pool)
            if c not in used:
                used.add(c)
                return c
        return ""

    d = pick(DELIMS, COMMON_D, empty)
    q = pick(QUOTES, ['"', "'"], empty + 0.1)
    e = pick(ESCAPES, ["\\"], 0.45)
    return d, q, e


def soup(rng, d, q, e, n, nl=("\n", "\r\n", "\r")):
    """A text of about n tokens in which the special characters dominate"""
    special = [c for c in (d, q, e) if c]
    nl = list(nl) if isinstance(nl, (tuple, list)) else [nl]
    if rng.random() < 0.6:
        nl = [rng.choice(nl)]
    wide = rng.choice([0, 0, 0.1, 0.3])
    pn = rng.choice([0.05, 0.15, 0.3])
    ps = rng.choice([0.3, 0.5, 0.7])
    out = []
    for _ in range(n):
        r = rng.random()
        if r < pn:
            out.append(rng.choice(nl))
        elif r < pn + ps and special:
            out.append(rng.choice(special))
        elif rng.random() < wide:
            out.append(rng.choice(UNI))
        else:
            out.append(rng.choice("ab1 x.,;'\"\\"))
    return "".join(out)


def messy(rng, rows=None, cols=None, nl=None, d=None, q=None, e=None):
    """A text like a messy CSV file; returns the text"""
    d = rng.choice(COMMON_D + [" ", ":", "^", "-", "~", "/"]) if d is None else d
    q = rng.choice(['"', "'", "", '"', "`", "~"]) if q is None else q
    e = rng.choice(["", "", "\\", "/", "@"]) if e is None else e
    nl = rng.choice(["\n", "\r\n", "\r", "\n"]) if nl is None else nl
    nr = rng.randint(0, 8) if rows is None else rows
    nc = rng.randint(1, 6) if cols is None else cols
    pool = rng.sample(WORDS, rng.randint(2, 12))
    out = []
    pq = rng.choice([0, 0.3, 0.6, 1])
    ragged = rng.random() < 0.2
    for _ in range(nr):
        row = []
        for _ in range(max(0, nc + (rng.randint(-1, 1) if ragged else 0))):
            c = rng.choice(pool)
            if rng.random() < 0.05:
                c = c + rng.choice([d, q, e, e + q, e + d, q + q, nl])
            if q and rng.random() < pq:
                if q in c:
                    c = c.replace(q, (e + q) if e and rng.random() < 0.7 else q + q)
                c = q + c + q
            elif e and d and d in c and rng.random() < 0.7:
                c = c.replace(d, e + d)
            row.append(c)
        out.append(d.join(row))
        if rng.random() < 0.03:
            out.append("")
    text = nl.join(out)
    if rng.random() < 0.7:
        text += nl
    if rng.random() < 0.05:
        text = nl + text
    return text


def noise(rng, n):
    """Arbitrary encodable text without NUL"""
    out = []
    mode = rng.random()
    for _ in range(n):
        r = rng.random()
        if mode < 0.3:
            out.append(chr(rng.randint(1, 127)))
        elif r < 0.5:
            out.append(rng.choice(",;|\t\"'\\/~`\n\r ab1-_.:@"))
        elif r < 0.8:
            out.append(chr(rng.randint(1, 255)))
        else:
            c = rng.randint(1, 0x10FFFF)
            if 0xD800 <= c <= 0xDFFF:
                c = 0x4E2D
            out.append(chr(c))
    return "".join(out)


def sample_text(rng, big=False):
    """A sample for detection"""
    r = rng.random()
    if r < 0.55:
        return messy(rng)
    if r < 0.75:
        d, q, e = dialect_chars(rng)
        return soup(rng, d, q, e, rng.randint(0, 60))
    if r < 0.85:
        d, q, e = (rng.choice([",", ";"]), rng.choice(['"', "'"]), "\\")
        return soup(rng, d, q, e, rng.randint(0, 25))
    if r < 0.95:
        return noise(rng, rng.randint(0, 40))
    return messy(rng, rows=rng.randint(8, 40), cols=rng.randint(1, 8))


def ambiguous(rng):
    """A normal form for which the consistency measure often has another answer"""
    r = rng.random()
    sep = rng.choice(["-", "&", "_", "-", " "])
    n = rng.randint(2, 7)
    words = lambda k: sep.join(word(rng, 1, 5) for _ in range(k))
    k = rng.randint(2, 4)
    if r < 0.5:
        # one column, quoted or not
        q = rng.choice(['"', "'"]) if sep == " " else rng.choice(["", "", '"', "'"])
        rows = [q + words(k) + q for _ in range(n)]
    elif r < 0.8:
        d = rng.choice([",", ";", "|", "\t"])
        rows = [d.join(words(k) for _ in range(2)) for _ in range(n)]
    else:
        # rows in quotes
        q = rng.choice(['"', "'"])
        d = rng.choice([",", ";", "|", "\t"])
        rows = [q + d.join(words(k) for _ in range(2)) + q for _ in range(n)]
    return rng.choice(["\n", "\n", "\r\n", "\r"]).join(rows) + rng.choice(["", "\n"])


def cell_text(rng, specials, nls=True):
    """A cell for round trips: specials, line ends, quotes, wide characters"""
    r = rng.random()
    if r < 0.15:
        return ""
    if r < 0.35:
        return rng.choice(WORDS)
    n = rng.randint(1, 6)
    pool = [s for s in specials if s] * 2 + list("ab1 ") + UNI + ['"', "'", "\\", ","]
    if nls:
        pool += ["\n", "\r", "\r\n"]
    return "".join(rng.choice(pool) for _ in range(n))


ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def word(rng, lo=1, hi=8):
    return "".join(rng.choice(ALNUM) for _ in range(rng.randint(lo, hi)))


def write_csv(rows, **kw):
    f = io.StringIO(newline="")
    csv.writer(f, **kw).writerows(rows)
    return f.getvalue()


ROUND = sorted(
    {n + j for k in range(9, 19) for n in [1 << k] for j in (-1, 0, 1)}
    | {n + j for k in (100, 1000, 10000, 100000) for f in (1, 2, 2.5, 3, 5, 7.5) for n in [int(f * k)] for j in (-1, 0, 1)}
)


def round_sizes(hi, lo=0):
    """Sizes next to the round numbers in which limits and batches come"""
    return [n for n in ROUND if lo <= n <= hi]


def round_size(rng, hi, lo=0):
    return rng.choice(round_sizes(hi, lo))


def late(rng, size=None, kind=None):
    """A large text whose last rows decide what the dialect is"""
    d, d2 = rng.sample(COMMON_D, 2)
    if size is None:
        size = rng.choice([4200, 8300, 17000, 33000, 66000, 66000, 67000, 70000, 132000])
    nl = rng.choice(["\n", "\n", "\r\n", "\r"])
    nc = rng.randint(2, 4)
    q = rng.choice(['"', '"', "'"])
    kind = kind or rng.choice(["quotes", "quotes", "both", "both", "escape", "ragged", "single", "wide"])
    stock = []
    for _ in range(rng.randint(5, 60)):
        cells = [word(rng, 1, 9) for _ in range(nc)]
        if kind == "both":
            cells = [c + d2 + word(rng, 1, 5) for c in cells[:1]] + cells[1:2]
        if kind == "single":
            cells = cells[:1]
        stock.append(d.join(cells))
    out = []
    n = 0
    while n < size:
        out.append(rng.choice(stock))
        n += len(out[-1]) + len(nl)
    a, b = word(rng, 2, 5), word(rng, 2, 5)
    for _ in range(rng.choice([1, 1, 2, 5])):
        fill = [word(rng, 1, 5) for _ in range(nc - 1)]
        if kind == "quotes":
            out.append(d.join([q + a + d + b + q] + fill))
        elif kind == "both":
            out += [d.join([a, b])] * rng.choice([1, 40])
        elif kind == "escape":
            out.append(d.join([a + "\\" + d + b] + fill))
        elif kind == "ragged":
            out.append(d.join(fill + [a, b]))
        elif kind == "single":
            out.append(d.join([a, b]))
        else:
            out.append(d.join([a + "\u4e2d\U0001f600" + b] + fill))
    text = nl.join(out)
    return text + nl if rng.random() < 0.8 else text


_SYMBOLS = []


def symbols():
    """All punctuation and symbols of the basic plane (potential delimiters)"""
    if not _SYMBOLS:
        import unicodedata

        for c in range(33, 0x10000):
            ch = chr(c)
            if unicodedata.category(ch)[0] in "PS" and ch not in "./\"'\\" and not 0xD800 <= c <= 0xF8FF:
                _SYMBOLS.append(ch)
    return _SYMBOLS


def many(rng, n=None):
    """A text with many potential delimiters; the best one is often a late one"""
    pool = symbols()
    n = n or rng.choice([20, 70, 150, 300, 600])
    noise = rng.sample(pool, n)
    d = rng.choice([max(noise), rng.choice(noise), rng.choice(COMMON_D), rng.choice(pool)])
    q = rng.choice(["", "", '"', "'"])
    nc = rng.randint(2, 4)
    rows = []
    left = [c for c in noise if c != d]
    while left:
        k = rng.randint(1, 9)
        text, left = "".join(left[:k]), left[k:]
        cells = [word(rng, 1, 6) if rng.random() < 0.7 else str(rng.randint(0, 999)) for _ in range(nc)]
        p = rng.randrange(nc)
        cells[p] = rng.choice([cells[p] + text, text, text + cells[p]])
        if q:
            cells[p] = q + cells[p] + q
        rows.append(d.join(cells))
    nl = rng.choice(["\n", "\r\n"])
    return nl.join(rows) + nl


def wide(rng, regular=None, nc=None):
    """(rows, delimiter, quote, text) of a table with many columns, in which
    the last cells decide"""
    nc = nc or rng.choice([60, 130, 260, 300, 520, 1100, 1100, 2100, 4200])
    d = rng.choice(COMMON_D)
    q = rng.choice(['"', '"', "'"])
    rows = []
    kinds = [rng.randrange(3) for _ in range(nc)]
    for k in range(rng.randint(2, 5)):
        rows.append([word(rng, 1, 6) if t == 0 or k == 0 else str(rng.randint(0, 99)) if t == 1 else word(rng, 3, 3) for t in kinds])
    regular = rng.random() < 0.6 if regular is None else regular
    if not regular:
        for r in rows:
            if rng.random() < 0.5:
                if rng.random() < 0.5:
                    del r[rng.choice([-1, nc // 2, 1]) :]
                else:
                    r += [word(rng, 1, 3) for _ in range(rng.choice([1, 80, 300]))]
    if rng.random() < 0.6:
        r = rng.choice(rows)
        p = len(r) - 1 - rng.choice([0, 0, 1, min(5, len(r) - 1)])
        r[p] = rng.choice([r[p] + d + "x", r[p] + " #", "", q, r[p] + "\n" + "y"])
    text = "\n".join(d.join(q + c.replace(q, q + q) + q if (d in c or q in c or "\n" in c) else c for c in r) for r in rows) + "\n"
    return rows, d, q, text
