"""C17: ties are broken by the documented rules, or not at all"""

import itertools

from clevercsv.break_ties import tie_breaker
from clevercsv.consistency import ConsistencyDetector
from clevercsv.dialect import SimpleDialect
from clevercsv.potential_dialects import get_dialects

from lib import gen
from lib.engine import Stratum
from lib.models import dialects as M

ID = "C17"
RULE = (
    "A case is a sample and two to five different dialects given as tied; "
    "the answer is compared with an independent implementation of the rules "
    "on top of the grammar model. Non-trivial: the rules compare parses; "
    "distinct by sample and dialects."
)
TECHNIQUE = "runtime monitoring: tie-breaking result checked against an independent implementation of the documented rules"
LEVEL_NOTE = (
    "Random samples and sets of dialects, and the ties that occur in real "
    "detection; for two different escape characters, on which the rules are "
    "silent, only membership is checked."
)
REQUIRED = ["decided", "undecided", "dropped quote", "kept quote", "kept escape", "dropped escape", "real ties", "sizes 2", "sizes 3", "sizes 4", "sizes 5"]


def check(ctx, text, ds):
    """ds: list of (d, q, e)"""
    real = [SimpleDialect(*d) for d in ds]
    before = [(x.delimiter, x.quotechar, x.escapechar, x.strict) for x in real]
    got = tie_breaker(text, list(real))
    info = dict(text=text, dialects=ds)
    ctx.check(got is None or got in real, "not one of the dialects", got=got, **info)
    ctx.event("sizes %d" % len(ds))
    model = M.Ties(text)
    try:
        want = model.decide(ds)
    except M.Undocumented:
        ctx.event("undocumented")
        return
    g = None if got is None else (got.delimiter, got.quotechar, got.escapechar)
    ctx.same(g, want, "tie broken differently", **info)
    ctx.event("undecided" if want is None else "decided")
    if len(ds) == 2 and want:
        (a, b) = ds
        if a[0] == b[0] and a[2] == b[2]:
            ctx.event("kept quote" if want[1] else "dropped quote")
        elif a[:2] == b[:2]:
            ctx.event("kept escape" if want[2] else "dropped escape")
    if model.cache:
        ctx.nontrivial(text, ds)
    return want


def pick(rng, text):
    d = rng.choice([",", ";", " ", "-", "|"])
    q = rng.choice(['"', "'"])
    e = rng.choice(["\\", "/"])
    kind = rng.random()
    if kind < 0.2:
        pool = [(d, "", ""), (d, q, "")]
    elif kind < 0.35:
        pool = [(d, q, ""), (d, q, e)]
    elif kind < 0.45:
        pool = [(d, "", ""), (d, q, e)]
    elif kind < 0.6:
        q0 = rng.choice(["", q])
        pool = [(x, q0, "") for x in rng.sample([",", " ", "-", ";"], 2)]
    elif kind < 0.8:
        pool = [(d, x, y) for x in ("", '"', "'") for y in ("", e)]
    elif kind < 0.9:
        pool = [(d, x, y) for x in ("", '"', "'", "~") for y in ("", "\\", "/")]
    else:
        pool = [(x, y, z) for x in (d, ",", " ") for y in ("", q) for z in ("", e)]
    pool = list(dict.fromkeys(pool))
    n = min(len(pool), rng.choice([2, 2, 3, 3, 4, 4, 5]))
    ds = rng.sample(pool, n)
    if rng.random() < 0.6:
        ds = [
            (x.delimiter, x.quotechar, x.escapechar)
            for x in sorted(SimpleDialect(*t) for t in ds)
        ]
    return ds


def sample(rng):
    """Mostly samples on which the dialects agree or nearly agree"""
    r = rng.random()
    if r < 0.3:
        return gen.messy(rng, d=rng.choice([",", ";", " ", "-"]), q=rng.choice(["", '"', "'"]), e=rng.choice(["", "\\", "/"]))
    d = rng.choice([",", ";", " ", "-"])
    q = rng.choice(['"', "'"])
    e = rng.choice(["\\", "/"])
    words = ["a", "b1", "", "x y", "it" + e + q + "s", e + q, e + q + "a" + e + q, q + "a" + q, q + "a" + d + "b" + q, "a" + e + d + "b", q + "x" + e + q + "y" + e + q + q, "a" + q + "b", e, e + e]
    pool = rng.sample(words, rng.randint(1, 5)) + ["a", "b"]
    return "\n".join(
        d.join(rng.choice(pool) for _ in range(rng.randint(1, 3)))
        for _ in range(rng.randint(0, 4))
    ) + rng.choice(["", "\n"])


def random_ties(ctx, rng, i):
    text = sample(rng)
    ds = pick(rng, text)
    if len(ds) < 2:
        return
    want = check(ctx, text, ds)
    ctx.sample((text, ds, want))


def real_ties(ctx, rng, i):
    """The ties that detection meets"""
    text = gen.sample_text(rng) if rng.random() < 0.6 else sample(rng)
    cd = ConsistencyDetector()
    best = ConsistencyDetector.get_best_dialects(
        cd.compute_consistency_scores(text, get_dialects(text))
    )
    if len(best) < 2:
        return
    ds = [(x.delimiter, x.quotechar, x.escapechar) for x in best]
    if len(ds) > 5:
        ctx.check(tie_breaker(text, best) is None, "too many dialects", text=text)
        ctx.event("sizes above 5")
        return
    check(ctx, text, ds)
    ctx.event("real ties")
    got = ConsistencyDetector().detect(text)
    ctx.same(got, tie_breaker(text, best), "detection and tie breaker", text=text)


def systematic(ctx, rng, case):
    """Short texts, all pairs of dialects of one delimiter"""
    tails = itertools.product('a,"\\\n', repeat=3)
    ds = [(",", "", ""), (",", '"', ""), (",", '"', "\\"), (",", "", "\\")]
    for t in tails:
        text = case + "".join(t)
        for pair in itertools.combinations(ds, 2):
            check(ctx, text, list(pair))
        check(ctx, text, ds[:3])
        check(ctx, text, ds)


SYS = ["".join(p) for p in itertools.product('a,"\\', repeat=3)]


def large(ctx, rng, i):
    """Large texts in which the dialects differ in the last rows only"""
    tail = sample(rng)
    ds = pick(rng, tail)
    if len(ds) < 2:
        return
    d = ds[0][0]
    body = [d.join(gen.word(rng, 1, 6) for _ in range(rng.randint(1, 3))) for _ in range(9)]
    size = rng.choice([4200, 9000, 17000, 66000, 66000, 132000]) if i % 20 else rng.choice([300000, 1100000])
    text = "\n".join(body * (size // sum(map(len, body)) + 1)) + "\n" + tail
    check(ctx, text, ds)
    ctx.event("large samples")


def stretched(ctx, rng, i):
    """The dialects differ far behind in the rows, in their cells, or in many
    cells that differ from each other"""
    base = sample(rng)
    ds = pick(rng, base)
    if len(ds) < 2:
        return
    d = ds[0][0] or ","
    n = rng.choice([30, 130, 300])
    kind = i % 3
    lines = base.split("\n")
    if kind == 0:
        lead = d.join(gen.word(rng, 1, 3) for _ in range(n))
        lines = [lead + d + x for x in lines if x]
        if rng.random() < 0.5:
            lines = [x + d + lead for x in lines]
    elif kind == 1:
        pad = "ab" * n
        lines = [d.join(pad + c if rng.random() < 0.3 else c + pad if rng.random() < 0.3 else c for c in x.split(d)) for x in lines]
    else:
        e, q = rng.choice(["\\", "/"]), rng.choice(['"', "'"])
        if rng.random() < 0.7:
            e, q = next((x[2] for x in ds if x[2]), e), next((x[1] for x in ds if x[1]), q)
        good = ["%sx%s%sy%s%sz%s" % (q, e, q, e, q, q), "%s%d%s%sy%s%s%s" % (q, rng.randint(0, 9), e, q, e, q, q), e + q + "s" + e + q]
        good = [rng.choice(good)] if rng.random() < 0.5 else good
        many = [d.join([rng.choice(good) for _ in range(rng.choice([1, 1, 2]))] + ["b"]) for _ in range(n)]
        lines = many + rng.choice([[], lines, [d.join([rng.choice(["it%s%ss" % (e, q), e, "a%sb" % e]), "b"])]])
    check(ctx, "\n".join(lines), ds)
    ctx.event("stretched samples")


STRATA = [
    Stratum("stretched", stretched, 6000, 60000),
    Stratum("systematic", systematic, None, cases=SYS),
    Stratum("random", random_ties, 96000, 500000),
    Stratum("real", real_ties, 18000, 80000),
    Stratum("large", large, 200, 4000),
]
