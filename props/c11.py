"""C11: the consistency measure selects the best-scoring dialect"""

from fractions import Fraction

from clevercsv.consistency import ConsistencyDetector, detect_dialect_consistency
from clevercsv.dialect import SimpleDialect
from clevercsv.potential_dialects import get_dialects

from lib import gen
from lib.engine import Stratum
from lib.models import abstraction, celltypes, parser

ID = "C11"
RULE = (
    "A case is a sample and a set of allowed delimiters. All candidate "
    "dialects are scored by exact arithmetic from independent models of the "
    "row patterns, the grammar and the cell types, and compared with the "
    "reported scores and the selected dialect. Non-trivial: at least two "
    "candidates with different scores; distinct by sample and delimiters."
)
TECHNIQUE = "runtime monitoring: exact score oracle over every candidate, compared with reported scores and selection"
LEVEL_NOTE = (
    "Random samples; scores are compared with a relative tolerance of 1e-9, "
    "and candidates whose exact scores differ by less count as tied."
)
REQUIRED = ["thousands of candidates", "huge samples", "scores compared", "unique maxima", "ties seen", "results of the function", "skipped candidates"]
TOL = Fraction(1, 10**9)


def exact(text, d):
    P = abstraction.score(text, *d)
    total = known = 0
    for row in parser.parse(text, *d, quoted=True):
        for cell, quoted in row:
            total += 1
            known += celltypes.detect(cell, quoted) is not None
    T = Fraction(1, 10**10)
    if total:
        T = max(T, Fraction(known, total))
    return P, T


def key(d):
    return (d.delimiter, d.quotechar, d.escapechar)


def close(got, want):
    return abs(Fraction(got) - want) <= TOL * abs(want)


def score_case(ctx, text, delims, limit=60):
    if not celltypes.comparable(text):
        ctx.event("samples outside the comparable characters")
        return
    dialects = get_dialects(text, delimiters=delims)
    if len(dialects) > limit:
        ctx.event("too many candidates")
        return
    want = {key(d): exact(text, key(d)) for d in dialects}
    info = dict(text=text, delimiters=delims)
    Q = {k: p * t for k, (p, t) in want.items()}
    best = max(Q.values())
    tied = {k for k, v in Q.items() if v >= best * (1 - TOL)}
    for skip in (False, True):
        cd = ConsistencyDetector(skip=skip)
        if len(text) % 3 == 0:
            # scores of something else before
            cd.compute_consistency_scores("a,b,c,d\n" * 9, [SimpleDialect(",", "", ""), SimpleDialect("", "", "")])
        scores = cd.compute_consistency_scores(text, list(dialects))
        ctx.same(
            sorted(map(key, scores)), sorted(want), "scored dialects", **info
        )
        for d, sc in scores.items():
            p, t = want[key(d)]
            ctx.check(close(sc.P, p), "pattern score", dialect=d, got=sc, want=float(p), **info)
            if sc.Q is None:
                ctx.check(skip, "score missing", dialect=d, **info)
                ctx.check(
                    Q[key(d)] < best * (1 + TOL) and key(d) not in tied,
                    "a best dialect was skipped",
                    dialect=d,
                    got=sc,
                    **info,
                )
                ctx.event("skipped candidates")
                continue
            ctx.check(close(sc.T, t), "type score", dialect=d, got=sc, want=float(t), **info)
            ctx.check(close(sc.Q, p * t), "score", dialect=d, got=sc, want=float(p * t), **info)
            ctx.event("scores compared")
        chosen = {key(d) for d in ConsistencyDetector.get_best_dialects(scores)}
        ctx.check(chosen and chosen <= tied, "best dialects", got=chosen, want=tied, **info)
        res = ConsistencyDetector(skip=skip).detect(text, delimiters=delims)
        # the function takes any iterable
        forms = [lambda x: x] if delims is None else [iter, tuple, "".join, lambda x: x]
        for form in forms:
            res2 = detect_dialect_consistency(
                text, delimiters=form(delims), skip=skip
            )
            ctx.same(
                res2 and key(res2), res and key(res), "result of the function", **info
            )
            ctx.event("results of the function")
        if len(tied) == 1:
            ctx.check(
                res is not None and key(res) in tied,
                "not the dialect with the highest score",
                got=res,
                want=tied,
                skip=skip,
                **info,
            )
            ctx.event("unique maxima")
        else:
            ctx.check(
                res is None or key(res) in tied,
                "not one of the tied dialects",
                got=res,
                want=tied,
                skip=skip,
                **info,
            )
            ctx.event("ties seen")
    if len(set(Q.values())) > 1:
        ctx.nontrivial(text, delims)
    ctx.sample((text, delims, sorted(tied)))


def random_samples(ctx, rng, i):
    text = gen.sample_text(rng)
    delims = None
    if rng.random() < 0.3:
        delims = rng.sample([",", ";", "|", "\t", " ", ":", "-", "a"], rng.randint(1, 4))
    score_case(ctx, text, delims)


def tables(ctx, rng, i):
    """Regular tables whose cells hold other delimiters"""
    d = rng.choice([",", ";", "|", "\t", " ", ":", "^", "-", "#"])
    q = rng.choice(["", '"', "'", "~"])
    others = [x for x in ",;| -:" if x != d]
    pool = []
    for _ in range(rng.randint(2, 8)):
        c = rng.choice(gen.WORDS)
        if rng.random() < 0.4:
            c += rng.choice(others) + rng.choice(gen.WORDS)
        if not q:
            c = c.replace(d, "")
        pool.append(c)
    nc = rng.randint(1, 5)
    lines = []
    for _ in range(rng.randint(1, 12)):
        row = [rng.choice(pool) for _ in range(nc)]
        if q:
            row = [q + c.replace(q, q + q) + q if (d in c or q in c or rng.random() < 0.5) else c for c in row]
        lines.append(d.join(row))
    score_case(ctx, rng.choice(["\n", "\r\n", "\r"]).join(lines) + "\n", None)


def large(ctx, rng, i):
    """The evidence comes at the end of a large sample"""
    text = gen.late(rng)
    score_case(ctx, text, rng.choice([None, None, gen.COMMON_D]))
    ctx.event("large samples")
    ctx.maxi("characters of a sample", len(text))


def many(ctx, rng, i):
    """Hundreds of candidates, or hundreds of columns"""
    if i % 2:
        text = gen.many(rng, rng.choice([20, 70, 150, 200]))
    else:
        text = gen.wide(rng)[3]
    score_case(ctx, text, None, 1000)
    ctx.event("samples with much variety")


def huge(ctx, rng, i):
    """Hundreds of thousands of cells, thousands of columns, thousands of
    candidates; what counts comes last, and is known by construction"""
    kind = i % 3
    if kind == 2:
        pool = gen.symbols()
        # the order of candidates: comma, semicolon, and then by character
        d = rng.choice([c for c in pool if c > "\u3000"])
        q, e = rng.choice([("", ""), ('"', ""), ("", "\\")])
        text = "\n".join(d.join(gen.word(rng, 1, 5) for _ in range(3)) for _ in range(rng.randint(3, 9))) + "\n"
        others = [c for c in pool if c != d]
        ds = [SimpleDialect(c, "", "") for c in rng.sample(others, 3400)]
        best = SimpleDialect(d, q, e)
        ds.insert(rng.randrange(len(ds)), best)
        for skip in (False, True):
            scores = ConsistencyDetector(skip=skip).compute_consistency_scores(text, list(ds))
            ctx.check(set(scores) == set(ds), "not all candidates are scored", given=len(ds), scored=len(scores), skip=skip)
            got = ConsistencyDetector.get_best_dialects(scores)
            ctx.same(list(map(key, got)), [key(best)], "best of thousands of candidates", text=text, skip=skip)
        noise = "".join(rng.sample(others, 2300))
        text = "\n".join([d.join(["a%d" % k, str(k), "b"]) for k in range(60)] + [d.join(["x", noise, "y"])]) + "\n"
        res = ConsistencyDetector().detect(text)
        ctx.check(res is not None and res.delimiter == d, "not the best of thousands of candidates", got=res, delimiter=d)
        ctx.event("thousands of candidates")
        ctx.nontrivial("huge", d, noise)
        return
    unknown = rng.choice(["#\u00a7%", "=+=", "a@", "<b>"])
    if kind == 0:
        n, bad = rng.randint(130000, 160000), rng.randint(300, 9000)
        text = "ab,12\n" * n + ("%s,%s\n" % (unknown, unknown)) * bad
        P, total, known = Fraction(n + bad, 2), 2 * (n + bad), 2 * n
    else:
        nc, n, bad = rng.choice([6000, 12000, 70000]), 3, rng.randint(1, 900)
        row = ["x%d" % (k % 7) for k in range(nc - bad)] + [unknown] * bad
        text = (",".join(row) + "\n") * n
        P, total, known = Fraction(n * (nc - 1), nc), n * nc, n * (nc - bad)
    T = Fraction(known, total)
    d = SimpleDialect(",", "", "")
    for skip in (False, True):
        sc = ConsistencyDetector(skip=skip).compute_consistency_scores(text, [d])[d]
        info = dict(got_scores=sc, P=float(P), T=float(T), text=text[-200:], length=len(text))
        ctx.check(close(sc.P, P), "pattern score of a huge sample", **info)
        ctx.check(close(sc.T, T), "type score of a huge sample", **info)
        ctx.check(close(sc.Q, P * T), "score of a huge sample", **info)
    ctx.event("huge samples")
    ctx.nontrivial("huge", text[-2000:], len(text))
    ctx.maxi("characters of a sample", len(text))


STRATA = [
    Stratum("huge", huge, 9, 120),
    Stratum("many", many, 32, 600),
    Stratum("random", random_samples, 9600, 60000),
    Stratum("tables", tables, 4800, 30000),
    Stratum("large", large, 16, 300),
]
