"""C12: skipping low pattern scores never changes the detected dialect"""

from clevercsv.consistency import ConsistencyDetector
from clevercsv.consistency import detect_dialect_consistency
from clevercsv.detect import Detector
from clevercsv.potential_dialects import get_dialects

from lib import gen
from lib.engine import Stratum

ID = "C12"
RULE = (
    "A case is a sample; detection and scoring run with and without "
    "skipping. Non-trivial: something was skipped; distinct by sample."
)
TECHNIQUE = "runtime monitoring: relational oracle over paired executions with and without skipping"
LEVEL_NOTE = "Random samples in which the candidates come in many orders of score."
REQUIRED = ["thousands of candidates", "candidates skipped", "scores equal", "dialects equal"]


BEFORE = ["a,b,c,d\n" * 9, "1|2\n3|4\n", "x y\tz", ""]


def used(text, skip):
    """A detector that scored and detected something before, in half of the cases"""
    cd = ConsistencyDetector(skip=skip)
    other = BEFORE[len(text) % len(BEFORE)]
    if len(text) % 3 == 0:
        cd.detect(other)
    if len(text) % 4 < 2:
        cd.compute_consistency_scores(other, get_dialects(other))
    return cd


def one(ctx, text, delims):
    info = dict(text=text, delimiters=delims)
    a = used(text, True)
    b = used(text, False)
    r1 = a.detect(text, delimiters=delims)
    r2 = b.detect(text, delimiters=delims)
    ctx.same(r1, r2, "skipping changes the dialect", **info)
    ctx.same(
        detect_dialect_consistency(text, delimiters=delims, skip=True),
        detect_dialect_consistency(text, delimiters=delims, skip=False),
        "skipping changes the dialect (helper)",
        **info,
    )
    method = "auto" if len(text) % 2 else "consistency"
    ctx.same(
        Detector().detect(text, delimiters=delims, method=method, skip=True),
        Detector().detect(text, delimiters=delims, method=method, skip=False),
        "skipping changes the dialect (Detector)",
        **info,
    )
    ctx.event("dialects equal", 3)
    ds = get_dialects(text, delimiters=delims)
    s1 = used(text, True).compute_consistency_scores(text, list(ds))
    s2 = used(text, False).compute_consistency_scores(text, list(ds))
    ctx.same(set(s1), set(ds), "scored dialects", **info)
    ctx.same(set(s2), set(ds), "scored dialects without skipping", **info)
    best = max(s.Q for s in s2.values())
    n = 0
    for d, s in s1.items():
        ctx.same(s.P, s2[d].P, "pattern score", dialect=d, **info)
        if s.Q is None:
            n += 1
            ctx.check(
                s.T is None and s2[d].Q < best,
                "a skipped dialect is not below the best",
                dialect=d,
                skipped=s,
                full=s2[d],
                best=best,
                **info,
            )
        else:
            ctx.same((s.T, s.Q), (s2[d].T, s2[d].Q), "scores", dialect=d, **info)
            ctx.event("scores equal")
    best1 = ConsistencyDetector.get_best_dialects(s1)
    best2 = ConsistencyDetector.get_best_dialects(s2)
    ctx.same(best1, best2, "best dialects", **info)
    ctx.event("candidates skipped", n)
    if n:
        ctx.nontrivial(text, delims)
    ctx.sample((text, n))


def random_samples(ctx, rng, i):
    text = gen.sample_text(rng)
    delims = None
    if rng.random() < 0.3:
        delims = rng.sample([",", ";", "|", "\t", " ", ":", "-"], rng.randint(1, 4))
    one(ctx, text, delims)


def close_scores(ctx, rng, i):
    """Two delimiters with similar pattern scores, types decide"""
    d1, d2 = rng.sample([",", ";", "|", " ", "-", ":", "\t", "^"], 2)
    known = ["1", "2.5", "abc", "2019-01-02", "10%", "N/A"]
    odd = ["a#b", "{", "$x", "1..2", "*", "a=b"]
    lines = []
    p = rng.choice([0.1, 0.5, 0.9])
    for _ in range(rng.randint(1, 12)):
        cells = [
            rng.choice(known if rng.random() < p else odd)
            for _ in range(rng.choice([2, 2, 3, 4]))
        ]
        out = cells[0]
        for c in cells[1:]:
            out += rng.choice([d1, d1, d2]) + c
        lines.append(out)
    one(ctx, "\n".join(lines) + rng.choice(["", "\n"]), None)


def large(ctx, rng, i):
    """The evidence comes at the end of a large sample"""
    text = gen.late(rng)
    one(ctx, text, rng.choice([None, None, gen.COMMON_D]))
    ctx.event("large samples")


def many(ctx, rng, i):
    """Hundreds of candidates"""
    text = gen.many(rng, rng.choice([20, 70, 150, 200]))
    one(ctx, text, rng.choice([None, None, None, sorted(set(text))[::2]]))
    ctx.event("samples with many candidates")


def huge(ctx, rng, i):
    """Thousands of candidates, of which a late one is the best"""
    pool = gen.symbols()
    d = rng.choice([c for c in pool if c > "\u3000"])
    others = [c for c in pool if c != d]
    noise = "".join(rng.sample(others, 2300))
    text = "\n".join([d.join(["a%d" % k, str(k), "b"]) for k in range(60)] + [d.join(["x", noise, "y"])]) + "\n"
    got = [ConsistencyDetector(skip=s).detect(text) for s in (True, False)]
    ctx.same(got[0], got[1], "dialect with and without skipping", text=text)
    ctx.check(got[0] is not None and got[0].delimiter == d, "not the best dialect", dialect=got[0], delimiter=d)
    ctx.event("thousands of candidates")


STRATA = [
    Stratum("huge", huge, 2, 40),
    Stratum("many", many, 20, 600),
    Stratum("random", random_samples, 12000, 80000),
    Stratum("close", close_scores, 10000, 60000),
    Stratum("large", large, 12, 200),
]
