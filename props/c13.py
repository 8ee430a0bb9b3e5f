"""C13: row patterns and the pattern score follow their definition"""

from clevercsv.cabstraction import c_merge_with_quotechar
from clevercsv.detect_pattern import base_abstraction
from clevercsv.detect_pattern import fill_empties
from clevercsv.detect_pattern import pattern_score
from clevercsv.detect_pattern import strip_trailing
from clevercsv.dialect import SimpleDialect

from lib import gen
from lib.engine import Stratum
from lib.models import abstraction as A

ID = "C13"
RULE = (
    "A case is a text and a dialect; the abstraction and the pattern score "
    "are compared with an independent model in exact arithmetic. Sizes reach "
    "over several doublings of the internal buffers. Non-trivial: the text "
    "has a special character and a line end; distinct by text and dialect."
)
TECHNIQUE = "runtime monitoring: abstraction and score checked against an independent model in exact arithmetic"
LEVEL_NOTE = "Exhaustive over short texts of special characters, random and large texts beyond; scores within 1e-9."
REQUIRED = ["huge texts", "scores compared", "abstractions compared", "quoted regions folded"]


def real_abstraction(text, d, q, e):
    a = base_abstraction(text, d, q, e)
    b = c_merge_with_quotechar(a)
    return a, strip_trailing(fill_empties(b))


def one(ctx, text, d, q, e, eps=None):
    info = dict(text=text, dialect=(d, q, e))
    want = A.abstraction(text, d, q, e)
    base, got = real_abstraction(text, d, q, e)
    # inside a region that never ends the second of two quotes is not marked
    got = got.replace("\0", "Q")
    if got != want:
        ctx.fail("abstraction differs", got=got, want=want, **info)
    ctx.event("abstractions compared")
    ctx.event("quoted regions folded", base.count("Q") // 2)
    dia = SimpleDialect(d, q, e)
    s = float(A.score(text, d, q, e))
    p = pattern_score(text, dia)
    if not abs(p - s) <= 1e-9 * abs(s):
        ctx.fail("pattern score differs", got=p, want=s, **info)
    ctx.event("scores compared")
    if any(c in text for c in (d, q, e) if c) and ("\n" in text or "\r" in text):
        ctx.nontrivial(text, d, q, e)


def rand_soup(ctx, rng, i):
    d, q, e = gen.dialect_chars(rng)
    text = gen.soup(rng, d, q, e, rng.randint(0, 40))
    one(ctx, text, d, q, e)
    ctx.sample((text, (d, q, e)))


def rand_messy(ctx, rng, i):
    d, q, e = gen.dialect_chars(rng, common=0.9)
    one(ctx, gen.messy(rng, d=d, q=q, e=e), d, q, e)


BLOCK = []
for d, q, e in [(",", '"', "\\"), (",", '"', ""), (",", "", "\\"), ("", '"', "\\"), ("", "", "")]:
    for c in 'a,"\\\n':
        for c2 in 'a,"\\\r':
            BLOCK.append((c + c2, d, q, e))


def exhaustive(ctx, rng, case):
    import itertools

    prefix, d, q, e = case
    n = 3 if ctx.tier == "quick" else 5
    for t in itertools.product('a,"\\\n', repeat=n):
        one(ctx, prefix + "".join(t), d, q, e)
    ctx.sample(case)


SIZES = [1, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 40000]
LARGE = [(n, shape) for n in SIZES for shape in range(6)]


def large(ctx, rng, case):
    """Abstractions whose length passes the sizes of the internal buffers"""
    n, shape = case
    d, q, e = ",", '"', "\\"
    if shape == 0:
        text = "," * n
    elif shape == 1:
        text = 'a"b,c"' * n
        text = text[: 6 * n]
    elif shape == 2:
        text = "a,\n" * (n // 4) + "b" * (n % 4)
    elif shape == 3:
        text = "".join(rng.choice('a,"\n') for _ in range(n))
    elif shape == 4:
        text = '"' * n
    else:
        text = "\\," * n + "\u00e9" * 3 + "\n\U0001f600,1"
    if len(text) > 60000:
        text = text[:60000]
    one(ctx, text, d, q, e)
    ctx.maxi("longest text", len(text))


def long(ctx, rng, i):
    """Thousands of marks, with escapes, quotes and row ends of every kind after each other"""
    d, q, e = gen.dialect_chars(rng, common=0.7, empty=0.05)
    pool = [gen.soup(rng, d, q, e, rng.randint(1, 9)) for _ in range(rng.randint(1, 12))]
    n = rng.choice([5000, 9000, 18000] if i % 8 else [70000, 140000, 270000])
    parts, size = [], 0
    while size < n:
        parts.append(rng.choice(pool) or "x")
        size += len(parts[-1])
    text = "".join(parts)
    one(ctx, text, d, q, e)
    ctx.maxi("longest text", len(text))


def shapes(ctx, rng, i):
    """Hundreds of different row patterns"""
    d, q, e = gen.dialect_chars(rng, common=0.7)
    n = rng.choice([60, 130, 300, 600]) if i % 10 else rng.choice([1200, 2100])
    lengths = list(range(n))
    if rng.random() < 0.5:
        rng.shuffle(lengths)
    nl = rng.choice(["\n", "\r\n", "\r"])
    rows = []
    for k in lengths:
        c = rng.choice(["", "x", "\u4e2d", q + "a" + d + q, q + q + d])
        rows += [c + (d + rng.choice(["", "y"])) * k] * rng.choice([1, 1, 1, 2, 5])
    if rng.random() < 0.2:
        # unclosed, and therefore different from all others
        rows.append(q + "z" + d)
    one(ctx, nl.join(rows), d, q, e)
    ctx.maxi("different row patterns", n)


def huge(ctx, rng, i):
    """Hundreds of thousands of rows; the last ones are of other patterns"""
    n, m = rng.randint(130000, 260000), rng.randint(1, 9)
    tail = "".join("a" + ",b" * rng.randint(2, 90) + "\n" for _ in range(m))
    d = SimpleDialect(",", rng.choice(["", '"']), rng.choice(["", "\\"]))
    s = "1,2\n" * n + tail
    counts = {2: n}
    for x in tail.splitlines():
        counts[x.count(",") + 1] = counts.get(x.count(",") + 1, 0) + 1
    want = sum(c * (k - 1) / k for k, c in counts.items()) / len(counts)
    got = pattern_score(s, d)
    ctx.check(abs(got - want) <= 1e-9 * want, "pattern score of a huge text", got_score=got, expected=want, rows=n, tail=tail, dialect=d)
    ctx.event("huge texts")
    ctx.maxi("longest text", len(s))
    ctx.nontrivial("huge", n, tail)


def counts(ctx, rng, n):
    """As many rows or cells as there can be in a batch, and one more or less"""
    d = SimpleDialect(",", rng.choice(["", '"']), rng.choice(["", "\\"]))
    nl = rng.choice(["\n", "\r\n", "\r"])
    k = rng.randint(3, 9)
    last = ",".join(["z"] * k)
    end = rng.choice(["", nl])
    for what, s, want in (
        ("rows", ("1,2" + nl) * (n - 1) + last + end, ((n - 1) / 2 + (k - 1) / k) / 2),
        ("rows", last + nl + ("1,2" + nl) * (n - 2) + "1,2" + end, ((n - 1) / 2 + (k - 1) / k) / 2),
        ("cells", ",".join(["1"] * n) + nl + ",".join(["1"] * (n + 1)) + end, ((n - 1) / n + n / (n + 1)) / 2),
    ):
        got = pattern_score(s, d)
        ctx.check(abs(got - want) <= 1e-12 * want, "pattern score of a text of a round size", got_score=got, expected=want, size=n, what=what, last=last, dialect=d)
        ctx.event("texts of round sizes")


STRATA = [
    Stratum("huge", huge, 8, 100),
    Stratum("counts", counts, None, cases=gen.round_sizes(131073)),
    Stratum("shapes", shapes, 40, 800),
    Stratum("exhaustive", exhaustive, None, cases=BLOCK),
    Stratum("soup", rand_soup, 200000, 1200000),
    Stratum("messy", rand_messy, 40000, 200000),
    Stratum("large", large, None, cases=LARGE),
    Stratum("long", long, 200, 10000),
]
