"""C14: cells are recognised as the documented types and nothing else"""

import json
import re
from fractions import Fraction

from clevercsv.consistency import ConsistencyDetector
from clevercsv.detect_type import TypeDetector
from clevercsv.detect_type import type_score
from clevercsv.dialect import SimpleDialect

from lib import gen
from lib.engine import Stratum
from lib.models import celltypes as T
from lib.models import parser

ID = "C14"
RULE = (
    "A case is a block of cells, each built from the grammar of a documented "
    "type, mutated by one character, or arbitrary; type and known/unknown "
    "are compared with independent recognisers. Non-trivial: every cell; "
    "distinct by cell and quotedness. Cells with characters on whose "
    "category Unicode versions differ are not compared."
)
TECHNIQUE = "runtime monitoring: classification of every cell checked against independent recognisers of the documented formats"
LEVEL_NOTE = "Grammar-based, mutated and random cells; trusts the recognisers in lib/models/celltypes.py and json.loads."
REQUIRED = ["type scores of huge texts"] + ["type " + n for n in T.NAMES if n != "ipv4"] + ["type None", "type scores compared", "own patterns", "cells with blanks kept"]

DIGITS = "0123456789"


def _num(rng, lo=1, hi=4):
    return "".join(rng.choice(DIGITS) for _ in range(rng.randint(lo, hi)))


def g_number(rng):
    r = rng.random()
    sign = rng.choice(["", "", "-", "+"])
    i = rng.choice(["", "0", "7", "12", "1" + _num(rng), "0" + _num(rng), _num(rng)])
    exp = rng.choice(["", "", "e5", "E-3", "e+12", "e", "E+"])
    if r < 0.35:
        return sign + i + rng.choice(["", "."]) + rng.choice(["", _num(rng)]) + exp
    if r < 0.55:
        return sign + i + "," + _num(rng, 0, 3) + exp
    g, x = rng.choice([",.", ".,"])
    s = sign + _num(rng, 1, 4)
    for _ in range(rng.randint(0, 3)):
        s += g + _num(rng, 3, 3)
    return s + rng.choice([x, ""]) + rng.choice(["", _num(rng)]) + rng.choice(["", "", exp])


def g_time(rng):
    h = rng.choice(["0", "9", "00", "09", "12", "19", "20", "23", "24", "10"])
    m = rng.choice(["00", "05", "30", "59", "60", "5"])
    s = rng.choice(["", ":00", ":59", ":60", ":7"])
    z = rng.choice(["", "", "+01:00", "-19:59", "+20:00", "-00:30", "+0100", "-05"])
    return h + rng.choice([":", ":", ":", ""]) + m + s + z


def g_date(rng):
    y = rng.choice(["2019", "1999", "99", "00", "3000", "0999", "12", "31"])
    m = rng.choice(["1", "01", "9", "10", "12", "13", "00", "0"])
    d = rng.choice(["1", "01", "9", "10", "28", "30", "31", "32", "00", "0"])
    r = rng.random()
    if r < 0.12:
        a, b, c = rng.choice(["\u5e74\u6708\u65e5", "\ub144\uc6d4\uc77c"])
        return y + a + m + b + d + c
    parts = rng.choice([[y, m, d], [d, m, y], [m, d, y], [y, d, m]])
    sep = rng.choice(["-", "/", ".", " ", ""])
    if rng.random() < 0.05:
        return parts[0] + sep + parts[1] + rng.choice("-/. :") + parts[2]
    return sep.join(parts)


def g_datetime(rng):
    t = g_time(rng)
    sep = rng.choice([" ", "T", "T", "t", "  "])
    z = rng.choice(["", "", "Z", "+01", "-0530", "+23:59", "+24", "-1", "+0100-0100"])
    return g_date(rng) + sep + t + z


def g_url(rng):
    scheme = rng.choice(["", "", "http://", "https://", "ftp://", "htp://", "http:/", "HTTP://"])
    host = rng.choice(
        [
            "a.com", "www.a.co.uk", "x-y.org", "-a.com", "localhost",
            "localhost:8080", "127.0.0.1", "1.2.3.4:80", "a.local", "a.b.local",
            "\u00e9t\u00e9.fr", "a.c", "a..com", "1.2.3", "1.2.3.4.5", "a_b.com",
            "\u0661.\u0662.\u0663.\u0664", "a.COM", "localhost:123456", "a.com.au.xx",
        ]
    )
    path = rng.choice(["", "/", "/x", "/x/y.html", "/a?b=c&d", "/%20", "/a b", "/\u4e2d", "/~u", "/a#b", ":80", "/x.y.z", ".php", "/a;b", "/(x)"])
    return scheme + host + path


def g_email(rng):
    u = rng.choice(["a", "a.b", "a+b", "A_1-", "", "\u00e9", "a b", ".a"])
    d = rng.choice(["b.co", "b-c.d.e", "b", "b.", ".b", "b_c.d", "b.c-", "b..c"])
    return u + rng.choice(["@", "@", "@", "@@", ""]) + d


def g_path(rng):
    s = rng.choice(["", "", "~", ".", "..", "a"])
    for _ in range(rng.randint(1, 3)):
        s += rng.choice(["/", "/", "//", "\\"]) + rng.choice(["usr", "a.b", "x_y-z", "", "a b", "\u00e9"])
    return s + rng.choice(["", "/"])


def g_currency(rng):
    return rng.choice("$\u20ac\u00a3\u00a5\u20b9\u0e3f\ufe69c") + rng.choice(["", " ", "\t", "  ", "\u00a0", "\n"]) + g_number(rng)


def g_percent(rng):
    return g_number(rng) + rng.choice(["%", "%", " %", "%%", "%1"])


def g_misc(rng):
    return rng.choice(
        [
            "n/a", "N/A", "NA", "nan", "NaN", "na", "N/a", "nan.", "none", "n\\a",
            "bytearray(b'x')", "bytearray(b", "bytearray(b)", "bytearray(x)",
            "bytearray(b'')x", "{}", '{"a": 1}', "{1}", '{"a": [1, {"b": null}]}',
            "{'a': 1}", "[1]", '{"a": NaN}', "{" + '"a":{' * 3 + "}" * 4,
            '{"a":1}{"b":2}', '{"a" :' + "1" * 5000 + "}", '{"a":' + "[" * 3000 + "]" * 3000 + "}",
            '{"a":' + "1" * 4301 + "}", '{"a":' + '{"a":' * 900 + "1" + "}" * 901,
            "{", "}", "{}}", '{ }', '{"\u00e9":"\U0001f600"}', '{"a":"\n"}',
        ]
    )


def g_alnum(rng):
    pool = list("abz09 -_.()?!,;'\"/#") + [
        "\u00e9", "\u4e2d", "\u00bd", "\u0661", "\u2163", "\u3002", "\uff0e", "\u27ee",
        "\uff08", "\u00bf", "\u037e", "\u2047", "\uff1f", "\u00a1", "\u01c3", "\uff01",
        "\u060c", "\uff0c", "\ufe50", "\u1802", "\u0301", "\u2014", "\u00b0", "\U0001f600",
        "\U00011143", "\U0001e95e", "\U0001e95f", "\u06d4", "\ufe52", "\uff61", "\u27ef",
        "\uff09", "\u055e", "\u061f", "\u1367", "\u1945", "\u2048", "\u2049", "\u2cfa",
        "\u2cfb", "\u2e2e", "\ua60f", "\ua6f7", "\ufe16", "\ufe56", "\u055c", "\u07f9",
        "\u109f", "\u1944", "\u203c", "\uaa77", "\ufe15", "\ufe57", "\u1363", "\u1808",
    ]
    if rng.random() < 0.7:
        pool = pool[:12] + rng.sample(pool, 3)
    return "".join(rng.choice(pool) for _ in range(rng.randint(1, 6)))


GENS = [g_number, g_time, g_date, g_datetime, g_url, g_email, g_path, g_currency, g_percent, g_misc, g_alnum, g_alnum]
MUT = "0123456789+-.,:/@%$ eETZ_a?!\u00e9\u0661\n\t"


def cell(rng):
    r = rng.random()
    if r < 0.08:
        return gen.noise(rng, rng.randint(0, 6))
    c = rng.choice(GENS)(rng)
    if r < 0.35 and c:
        k = rng.randrange(len(c) + 1)
        op = rng.random()
        if op < 0.4:
            c = c[:k] + rng.choice(MUT) + c[k:]
        elif op < 0.7:
            c = c[:k] + c[k + 1 :]
        else:
            c = c[:k] + rng.choice(MUT) + c[k + 1 :]
    elif r < 0.38:
        c = c + rng.choice(["", " "]) + rng.choice(GENS)(rng)
    if rng.random() < 0.1:
        ws = [" ", "\t", "\n", "\r", "\u00a0", "\u3000", "\x0b", "\x85"]
        c = rng.choice(ws) + c + rng.choice(ws)
    return c


def compare(ctx, td, c, quoted):
    if not T.comparable(c):
        ctx.event("cells not compared")
        return
    got = td.detect_type(c, is_quoted=quoted)
    want = T.detect(c, quoted)
    if got != want:
        ctx.fail("type", cell=c, quoted=quoted, got=got, want=want)
    known = td.is_known_type(c, is_quoted=quoted)
    if known is not (want is not None):
        ctx.fail("known type", cell=c, quoted=quoted, got=known, want=want)
    ctx.event("type %s" % (want,))
    ctx.nontrivial(c, quoted)


def cells(ctx, rng, i):
    td = TypeDetector()
    for _ in range(25):
        c = cell(rng)
        compare(ctx, td, c, rng.random() < 0.4)
    ctx.sample(c)


#: short cells of every type, and some that are of none
PIECES = [
    "", "5", "12", "-1.5", "1e5", "1,000.5", "1,5", ".5", "5.", "10:20", "9:05", "1020", "10:20:30", "10:20:30+01:00",
    "2019-01-02", "2/1/19", "20190102", "2019.1.2", "2019-01-02 10:20", "2019-01-02T10:20Z", "2019-01-02T10:20+01",
    "Z", "T", "+01:00", "-0530", "01", "a.com", "http://a.com", "localhost", "1.2.3.4", "ftp://1.2.3.4:80", "/x",
    "/x/y", "~/z", "a@b.co", "@", "5%", "%", "$5", "$", "\u20ac 5", "n/a", "NA", "nan", "abc", "a b", "a.", "(a)", "???",
    "#", "!", ";", "bytearray(b'x')", "bytearray(b", ")", "{}", '{"a": 1}', "{", "}", "\u00e9", "\u0661", "_", "1 000", "e5",
]
GLUE = ["", " ", "  ", "T", "t", "Z", "+", "-", "/", ".", ",", ":", "%", "@", "$", "\n", "\t", "\u00a0", "://", "e"]


def pairs(ctx, rng, first):
    """Everything that joins two pieces"""
    td = TypeDetector()
    for b in PIECES:
        for g in GLUE:
            compare(ctx, td, first + g + b, False)
            compare(ctx, td, first + g + b, True)
    ctx.event("joined cells", 2 * len(PIECES) * len(GLUE))


def joins(ctx, rng, i):
    td = TypeDetector()
    for _ in range(25):
        c = rng.choice(PIECES)
        for _ in range(rng.randint(2, 3)):
            c += rng.choice(GLUE) + rng.choice(PIECES)
        if rng.random() < 0.1:
            c = rng.choice(GLUE) + c + rng.choice(GLUE)
        compare(ctx, td, c, rng.random() < 0.4)


#: a cell of each format and of each of its alternatives
FORMS = [
    "5", "-07.5e+10", ".5E-3", "12,5", ",5e7", "+1,234.5", "-12.345,6", "1.5%", "$1.50", "\u20ac -5", "a.com", "http://w.ab-c.uk/p_1/x.y?q=1&r=%20#z",
    "ftp://1.22.133.4:80/x", "localhost:80", "https://x.local", "a.b+c_d@x-y.co.z", "255.1.20.3", "09:59", "19:05:38", "23:00:07+19:59", "1730", "9:41", "20:15", "12",
    "04/17/2020", "31-12-1999", "1.1.2000", "9 30 86", "28/2/99", "2019-3-08", "19/10/31", "04/07/2020", "7.04.1999", "2019 03 08", "041720", "17042020", "20200417", "200417",
    "2020\u5e7411\u670830\u65e5", "99\ub1441\uc6d49\uc77c", "2020-01-02 10:20", "2020-01-02T10:20:30Z", "2020-01-02T10:20+0130", "1/2/03 10:20:30-01:00",
    "17042020 10:20", "30122020 10:20", "31101999T9:20", "041720 10:20", "10302020 10:20", "12311999 10:20", "20200430T10:20", "991231 23:59", "300499 10:20",
    "2020-01-02T10:20+2230", "2020-01-02T10:20-1959", "2020-01-02T10:20+23", "2020-01-02T10:20-19:59", "2020-01-02T10:20:30-08", "30/10/2020 00:00:00",
    "~/a.b/c-d_e", "/x/", "n/a", "NaN", "{\"a\": [1]}", "bytearray(b'x')", "a b-c_(d)?", "1a", "a1", "\u00bd", "9 a!",
]
NEAR = [chr(k) for k in range(32, 127)] + ["", "\n", "\t", "\u00a0", "\u00e9", "\u0661", "\u00b2", "\u4e2d", "\u20ac", "\uff0c", "\u0301", "\u5e74", "\u6708", "\uc77c"]


def near(ctx, rng, form):
    """Everything that one change of a character makes of a cell"""
    td = TypeDetector()
    for k in range(len(form) + 1):
        for x in NEAR:
            compare(ctx, td, form[:k] + x + form[k:], False)
            if k < len(form):
                compare(ctx, td, form[:k] + x + form[k + 1 :], False)
    for x in rng.sample(NEAR, 10):
        for k in range(len(form)):
            compare(ctx, td, form[:k] + x + form[k + 1 :], True)
    ctx.event("cells one change away")


def total(ctx, rng, i):
    """Classification never fails, whatever the cell"""
    td = TypeDetector()
    n = rng.choice([10, 200, 3000])
    base = cell(rng) or "x"
    c = (base * n)[:n]
    if rng.random() < 0.3:
        c += chr(rng.randint(1, 0x10FFFF))
    if rng.random() < 0.2:
        c = "{" + c + "}"
    q = rng.random() < 0.5
    t = td.detect_type(c, is_quoted=q)
    ctx.check(t is None or t in T.NAMES, "undocumented type", cell=c, got=t)
    ctx.same(td.is_known_type(c, is_quoted=q), t is not None, "known", cell=c)
    ctx.event("total cells")


def scores(ctx, rng, i):
    if rng.random() < 0.5:
        d, q, e = gen.dialect_chars(rng, common=0.8)
        text = gen.messy(rng, d=d, q=q, e=e)
    else:
        d, q = rng.choice(",;\t"), rng.choice(["", '"'])
        text = "\n".join(
            d.join(
                (q + x + q) if rng.random() < 0.5 else x
                for x in (cell(rng).replace("\n", " ") for _ in range(rng.randint(1, 4)))
            )
            for _ in range(rng.randint(0, 5))
        )
        e = ""
    if not T.comparable(text):
        return
    n = known = 0
    try:
        for row in parser.parse(text, d, q, e, quoted=True):
            for c, quoted in row:
                n += 1
                known += T.detect(c, quoted) is not None
    except parser.ModelError:
        return
    eps = rng.choice([None, 0.01])
    want = max(Fraction(eps if eps else 1e-10), Fraction(known, n) if n else 0)
    kw = {} if eps is None else {"eps": eps}
    dia = SimpleDialect(d, q, e)
    for got in (
        type_score(text, dia, **kw),
        ConsistencyDetector().compute_type_score(text, dia, **kw),
    ):
        ctx.check(
            abs(Fraction(got) - want) <= want / 10**9,
            "type score",
            text=text,
            dialect=dia,
            got=got,
            want=float(want),
        )
        ctx.event("type scores compared")


def large(ctx, rng, i):
    """Type scores of large texts"""
    n = rng.choice([500, 2000, 9000, 14000])
    stock = [cell(rng).replace("\n", " ").replace(",", " ") for _ in range(rng.choice([5, 60, n]))]
    tail = [cell(rng).replace("\n", " ").replace(",", " ") for _ in range(40)]
    cells = [rng.choice(stock) for _ in range(n)] + tail
    q = rng.choice(["", '"'])
    text = "\n".join(",".join(cells[k : k + 4]) for k in range(0, len(cells), 4))
    if not T.comparable(text):
        return
    total = known = 0
    for row in parser.parse(text, ",", q, "", quoted=True):
        for c, quoted in row:
            total += 1
            known += T.detect(c, quoted) is not None
    want = max(Fraction(1e-10), Fraction(known, total))
    dia = SimpleDialect(",", q, "")
    for got in (
        type_score(text, dia),
        ConsistencyDetector().compute_type_score(text, dia),
        ConsistencyDetector(cache_capacity=rng.choice([0, 3, 100])).compute_type_score(text, dia),
    ):
        ctx.check(abs(Fraction(got) - want) <= want / 10**9, "type score of a large text", text=text, dialect=dia, got=got, want=float(want))
        ctx.event("type scores of large texts")
    ctx.maxi("characters of a text", len(text))


def huge(ctx, rng, i):
    """Hundreds of thousands of cells, or thousands in a row; the last are of another kind"""
    good, bad = rng.choice([("ab", "#\u00a7%"), ("#\u00a7%", "ab"), ("1.5", "<b>"), ('"x y"', "a@")])
    if i % 2:
        n, m = rng.randint(260000, 300000), rng.randint(400, 9000)
        rows = ["%s,%s" % (good, good)] * (n // 2) + ["%s,%s" % (bad, bad)] * (m // 2)
    else:
        nc = rng.choice([6000, 12000, 70000])
        m = rng.randint(1, 900)
        rows = [",".join([good] * (nc - m) + [bad] * m)] * 3
    text = "\n".join(rows) + "\n"
    g, b = text.count(good), text.count(bad)
    known = g * (T.detect(good.strip('"'), '"' in good) is not None) + b * (T.detect(bad, False) is not None)
    want = max(Fraction(1e-10), Fraction(known, g + b))
    dia = SimpleDialect(",", '"', "")
    for got in (type_score(text, dia), ConsistencyDetector().compute_type_score(text, dia)):
        ctx.check(abs(Fraction(got) - want) <= want / 10**9, "type score of a huge text", cells=(good, g, bad, b), rows=len(rows), got=got, want=float(want))
        ctx.event("type scores of huge texts")
    ctx.nontrivial("huge", good, g, bad, b)
    ctx.maxi("characters of a text", len(text))


def counts(ctx, rng, n):
    """As many cells as there can be in a batch, and one more or less"""
    good, bad = rng.choice([("ab", "#\u00a7%"), ("#\u00a7%", "ab"), ("1.5", "<b>"), ('"x y"', "a@")])
    known_g, known_b = (T.detect(good.strip('"'), '"' in good) is not None), (T.detect(bad, False) is not None)
    dia = SimpleDialect(",", '"', "")
    for rows in (
        [good + "," + good] * (n // 2) + [bad] * (n % 2) + [bad + "," + good],
        [",".join([good] * (n - 1) + [bad])] * 2,
        [good] * (n - 1) + [bad],
    ):
        text = "\n".join(rows) + rng.choice(["\n", ""])
        g, b = text.count(good), text.count(bad)
        want = max(Fraction(1e-10), Fraction(g * known_g + b * known_b, g + b))
        for got in (type_score(text, dia), ConsistencyDetector().compute_type_score(text, dia)):
            ctx.check(abs(Fraction(got) - want) <= want / 10**9, "type score of a text of a round size", cells=(good, g, bad, b), rows=len(rows), got=got, want=float(want))
            ctx.event("type scores of texts of round sizes")


def settings(ctx, rng, i):
    """The arguments of the detector: patterns, and whether to strip"""
    names = rng.sample(["email", "ipv4", "url"], rng.randint(1, 2))
    patterns = TypeDetector().patterns.copy()
    word = "".join(rng.choice("xyz") for _ in range(rng.randint(2, 5)))
    for n in names:
        patterns[n] = re.compile("<%s-%s>+" % (n, word))
    kept = dict(patterns)
    td = TypeDetector(patterns=patterns)
    plain = TypeDetector()
    for n in names:
        c = "<%s-%s>" % (n, word) + ">" * rng.randint(0, 3)
        ctx.same(td.detect_type(c), n, "type of a cell that matches the caller's pattern", cell=c)
        ctx.same(plain.detect_type(c), T.detect(c, False), "the caller's pattern is used by another detector", cell=c)
    ctx.same(patterns, kept, "the caller's patterns are changed")
    for _ in range(5):
        c = cell(rng)
        t = T.detect(c, False) if T.comparable(c) else None
        if t in names:
            ctx.check(td.detect_type(c) != t, "a pattern that was replaced still matches", cell=c, type=t)
        elif t in ("empty", "number", "time", "date", "percentage"):
            ctx.same(td.detect_type(c), t, "type with other patterns", cell=c)
    ctx.event("own patterns")
    # blanks around a cell count when they aren't to be removed
    keep = TypeDetector(strip_whitespace=False)
    c = cell(rng).strip()
    if not T.comparable(c):
        return
    inner = any(x.isspace() for x in c)
    for q in (False, True):
        if not inner:
            ctx.same(keep.detect_type(c, is_quoted=q), T.detect(c, q), "type without blanks", cell=c, quoted=q)
        ws = rng.choice([" ", "\t", "\n", "\u3000"])
        wide = rng.choice([ws + c, c + ws, ws + c + ws])
        got = keep.detect_type(wide, is_quoted=q)
        ctx.check(got in (None, "unicode_alphanum"), "blanks aren't removed, but the type is", cell=wide, quoted=q, type=got)
        ctx.same(keep.is_known_type(wide, is_quoted=q), got is not None, "known", cell=wide)
    ctx.event("cells with blanks kept")


STRATA = [
    Stratum("settings", settings, 6000, 60000),
    Stratum("pairs", pairs, None, cases=PIECES),
    Stratum("near", near, None, cases=FORMS),
    Stratum("joins", joins, 9000, 200000),
    Stratum("cells", cells, 24000, 300000),
    Stratum("total", total, 4500, 30000),
    Stratum("scores", scores, 12000, 100000),
    Stratum("large", large, 24, 400),
    Stratum("counts", counts, None, cases=gen.round_sizes(20001)),
    Stratum("huge", huge, 8, 120),
]
