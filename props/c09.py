"""C09: detection depends only on the sample and the options"""

import contextlib
import io
import json
import os
import re
import subprocess
import sys

import clevercsv
from clevercsv.consistency import ConsistencyDetector
from clevercsv.cparser_util import parse_string
from clevercsv.detect import Detector
from clevercsv.detect_type import TypeDetector
from clevercsv.dialect import SimpleDialect
from clevercsv.potential_dialects import get_dialects

from lib import gen
from lib.engine import Inconclusive, Stratum

ID = "C09"
RULE = (
    "A case is a batch of samples detected in several fresh processes that "
    "differ in hash seed, order, reuse of objects, verbosity, cache size, "
    "container of the delimiters, optimisation, locale and disturbances in "
    "between, or a history of detections with shared objects in one process. "
    "The monitor compares all results of the same sample and options. "
    "Non-trivial: a sample with at least three candidate dialects; distinct "
    "by sample and options."
)
TECHNIQUE = "runtime monitoring: result log of the same detections over processes with different hash seeds, histories and settings, checked for agreement"
LEVEL_NOTE = "Random hostile samples, biased to ties; hash seeds and histories are sampled. Sets of delimiters are given to the consistency measure only, since their order is meaningful for normal forms."
REQUIRED = [
    "detections compared across processes",
    "hash seeds used",
    "verbose detections",
    "histories with reused objects",
    "orders of delimiters compared",
    "cache sizes compared",
    "orders of candidates compared",
    "addresses reused",
]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUDGET = {"quick": 300, "thorough": 2400}
HANG = {"quick": 120, "thorough": 240}


def tie_prone(rng):
    """Texts in which several dialects get the same score"""
    q = rng.choice(['"', "'", "~", "`"])
    q2 = rng.choice(['"', "'", "~", "`"])
    d = rng.choice([",", ";", " ", "-", ":", "|", "\t"])
    d2 = rng.choice([",", ";", " ", "-", ":", "|", "_"])
    e = rng.choice(["\\", "@", "/", "\u00b7"])
    kind = rng.randint(0, 5)
    rows = []
    n = rng.randint(1, 5)
    for _ in range(n):
        w = [gen.word(rng, 1, 3) for _ in range(3)]
        if kind == 0:
            rows.append("%s%s%s%s%s" % (w[0], d, d2, w[1], d2 + d + w[2] if n % 2 else ""))
        elif kind == 1:
            rows.append(d.join([w[0], q + w[1] + q, q2 + w[2] + q2]))
        elif kind == 2:
            rows.append(d.join([w[0], q + w[1] + e + q + w[2] + e + q + q]))
        elif kind == 3:
            rows.append(d.join([w[0] + e + q + w[1], w[2]]))
        elif kind == 4:
            rows.append("%s%s%s%s" % (w[0], d, w[1], d2))
        else:
            rows.append(w[0] + d + d2 + e + d + q + q2)
    return rng.choice(["\n", "\r\n", "\r"]).join(rows)


def sample(rng):
    return tie_prone(rng) if rng.random() < 0.5 else gen.sample_text(rng)


def options(rng, text):
    method = rng.choice(["auto", "consistency", "consistency", "normal"])
    delims, kind = None, "list"
    if rng.random() < 0.4:
        pool = sorted(set(text) - set("\r\n"))[:20] + [",", ";", "|", "\t", " ", "-"]
        pool = sorted(set(pool))
        delims = rng.sample(pool, min(len(pool), rng.randint(1, 6)))
        kind = rng.choice(["list", "tuple", "str"] + (["set"] * 3 if method == "consistency" else []))
    return [method, rng.random() < 0.6, delims, kind]


def plan(rng, first):
    if first:
        return dict(reuse=False, verbose=False, cache=100000, disturb=False, shuffle=False, twice=False, consistency=False)
    return dict(
        reuse=rng.random() < 0.6,
        verbose=rng.random() < 0.5,
        cache=rng.choice([0, 1, 2, 7, 100, 100000]),
        disturb=rng.random() < 0.6,
        shuffle=rng.random() < 0.7,
        twice=rng.random() < 0.5,
        consistency=rng.random() < 0.6,
    )


def run_child(rng, jobs, pl, seed, hashseed):
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(hashseed)
    args = [sys.executable]
    if hashseed != 0:
        r = rng.random()
        if r < 0.2:
            args.append("-O")
        elif r < 0.3:
            args += ["-X", "dev"]
        if rng.random() < 0.3:
            env["LC_ALL"] = env["LANG"] = "C"
            env["PYTHONUTF8"] = rng.choice(["0", "1"])
            env["PYTHONCOERCECLOCALE"] = "0"
        if rng.random() < 0.3:
            env["TZ"] = "Asia/Kolkata"
    p = subprocess.run(
        args + [os.path.join(HERE, "lib", "child_detect.py")],
        input=json.dumps({"jobs": jobs, "plan": pl, "seed": seed}).encode(),
        stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
        env=env,
        cwd=env["TMPDIR"],
        timeout=200,
    )
    try:
        return json.loads(p.stdout)
    except ValueError:
        raise Inconclusive("child: %d %s" % (p.returncode, p.stderr[-2000:]))


def processes(ctx, rng, i):
    jobs = []
    for _ in range(60):
        text = sample(rng)
        jobs.append([text] + options(rng, text))
    results = []
    plans = []
    for k in range(4):
        hs = 0 if k == 0 else rng.randint(1, 2**32 - 1)
        pl = plan(rng, k == 0)
        results.append(run_child(rng, jobs, pl, rng.randint(0, 10**9), hs))
        plans.append((hs, pl))
        ctx.event("hash seeds used")
        if pl["verbose"]:
            ctx.event("verbose detections", len(jobs))
    for n, job in enumerate(jobs):
        want = results[0][n][0]
        for k, res in enumerate(results):
            for got in res[n]:
                ctx.event("detections compared across processes")
                if got != want:
                    ctx.fail(
                        "the same detection gives different results in two processes",
                        job=job,
                        results=[r[n] for r in results],
                        plans=plans,
                    )
        if want is not None:
            ctx.event("dialects found")
        ctx.nontrivial(job)
    ctx.sample((jobs[0], results[0][0]))


def outcome(ctx, fn, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = ctx.call(fn, *a, **k)
    if r.exc is not None:
        return ("raised", type(r.exc).__name__)
    return r.value


def history(ctx, rng, i):
    """Detectors that are used again and again, also after failures"""
    det = Detector()
    cons = [ConsistencyDetector(skip=rng.random() < 0.5, verbose=rng.random() < 0.3, cache_capacity=rng.choice([0, 1, 3, 50, 100000])) for _ in range(2)]
    texts = [sample(rng) for _ in range(rng.randint(2, 5))]
    # neighbours that share cells with the others, quoted or not
    texts.append(texts[0].replace('"', ""))
    texts.append(texts[1].replace(",", '","'))
    log = {}
    steps = []
    for _ in range(rng.randint(6, 14)):
        text = rng.choice(texts)
        r = rng.random()
        if r < 0.12:
            kind = rng.choice(["nul", "method", "badtype", "parse", "delims", "patterns", "patterns"])
            steps.append(kind)
            if kind == "nul":
                outcome(ctx, det.detect, text + "\0,\0")
                outcome(ctx, cons[0].detect, text + "\0,\0")
            elif kind == "method":
                outcome(ctx, det.detect, text, method="best")
            elif kind == "badtype":
                outcome(ctx, det.detect, None)
                outcome(ctx, cons[0].detect, 3)
            elif kind == "patterns":
                # types of the caller's own
                own = TypeDetector().patterns.copy()
                for name in rng.sample(sorted(own), 5):
                    own[name] = re.compile(rng.choice(["[^a-z]*", "zz+", ".?"]))
                td = TypeDetector(patterns=own, strip_whitespace=rng.random() < 0.5)
                outcome(ctx, td.detect_type, text[:9])
            elif kind == "delims":
                outcome(ctx, det.detect, text, delimiters=[None, 2])
            else:
                outcome(ctx, lambda: list(parse_string(text, SimpleDialect(",", '"', "", strict=True))))
            continue
        if r < 0.55:
            method, skip, delims, _ = options(rng, text)
            key = ("det", text, method, skip, tuple(delims) if delims is not None else None)
            got = outcome(ctx, det.detect, text, delimiters=delims, verbose=rng.random() < 0.3, method=method, skip=skip)
            fresh = outcome(ctx, Detector().detect, text, delimiters=delims, method=method, skip=skip)
        else:
            c = rng.choice(cons)
            _, _, delims, _ = options(rng, text)
            key = ("cons", text, "consistency", None, tuple(delims) if delims is not None else None)
            got = outcome(ctx, c.detect, text, delims)
            fresh = outcome(ctx, ConsistencyDetector().detect, text, delims)
        steps.append(key)
        if isinstance(got, SimpleDialect) and rng.random() < 0.3:
            # what the caller does with a result is no concern of the detector
            keep = SimpleDialect(got.delimiter, got.quotechar, got.escapechar, strict=got.strict)
            if keep == got:
                got.delimiter, got.quotechar, got.escapechar, got.strict = "X", "Y", "Z", True
                got = keep
                steps.append("result overwritten")
                ctx.event("results overwritten")
        if got != fresh or log.setdefault(key, got) != got:
            ctx.fail(
                "a detector that was used before gives another result",
                got=got,
                fresh=fresh,
                earlier=log.get(key),
                steps=steps,
            )
        ctx.event("histories with reused objects")
        if len(text) > 3:
            ctx.nontrivial(key)
    # whatever happened meanwhile
    for key in rng.sample(sorted(log, key=repr), min(4, len(log))):
        kind, text, method, skip, delims = key
        delims = None if delims is None else list(delims)
        if kind == "det":
            again = outcome(ctx, Detector().detect, text, delimiters=delims, method=method, skip=skip)
        else:
            again = outcome(ctx, ConsistencyDetector().detect, text, delims)
        if again != log[key]:
            ctx.fail("another result at the end of a history", key=key, got=again, earlier=log[key], steps=steps)
        ctx.event("detections repeated at the end")
    ctx.sample(steps)


def settings(ctx, rng, i):
    """Delimiters in any order, cache sizes, verbosity: all the same"""
    text = sample(rng)
    pool = sorted(set(text) - set("\r\n")) + [",", ";"]
    delims = rng.sample(sorted(set(pool)), min(len(set(pool)), rng.randint(1, 8)))
    use = None if rng.random() < 0.5 else delims
    want = outcome(ctx, ConsistencyDetector().detect, text, use)
    for size in rng.sample([0, 1, 2, 3, 5, 17, 1000], 3):
        got = outcome(ctx, ConsistencyDetector(cache_capacity=size).detect, text, use)
        ctx.event("cache sizes compared")
        if got != want:
            ctx.fail("the result depends on the cache size %d" % size, text=text, delims=use, got=got, want=want)
    got = outcome(ctx, Detector().detect, text, delimiters=use, method="consistency", verbose=True)
    ctx.event("verbose detections")
    if got != want:
        ctx.fail("verbose detection differs", text=text, delims=use, got=got, want=want)
    want = outcome(ctx, Detector().detect, text, delimiters=list(delims), method="consistency")
    forms = [tuple, set, frozenset, "".join, iter, dict.fromkeys, lambda x: list(x) * 2]
    for _ in range(4):
        rng.shuffle(delims)
        f = rng.choice(forms)
        skip = rng.random() < 0.7
        got = outcome(ctx, Detector().detect, text, delimiters=f(list(delims)), method="consistency", skip=skip)
        ctx.event("orders of delimiters compared")
        if got != want:
            ctx.fail("the order or container of the delimiters matters", text=text, delims=list(delims), got=got, want=want)
    if use is not None:
        for m in ("auto", "normal"):
            a = outcome(ctx, Detector().detect, text, delimiters=list(delims), method=m)
            b = outcome(ctx, Detector().detect, text, delimiters=rng.choice([tuple, "".join, iter])(list(delims)), method=m, verbose=rng.random() < 0.5)
            if a != b:
                ctx.fail("the container of the delimiters matters", method=m, text=text, delims=list(delims), got=b, want=a)
    ctx.nontrivial(text, tuple(delims))


def scores(ctx, rng, i):
    """The scores of dialects do not depend on which others are scored"""
    text = sample(rng)
    ds = get_dialects(text)
    if len(ds) < 2:
        return
    c = ConsistencyDetector(skip=False)
    a = c.compute_consistency_scores(text, list(ds))
    rng.shuffle(ds)
    sub = ds[: rng.randint(1, len(ds))]
    for cap in (100000, rng.choice([0, 1, 4])):
        b = ConsistencyDetector(skip=False, cache_capacity=cap).compute_consistency_scores(text, list(sub))
        for d in sub:
            if a[d] != b[d]:
                ctx.fail("the score depends on the other candidates", text=text, dialect=d, first=a[d], second=b[d])
    s1 = ConsistencyDetector().compute_consistency_scores(text, list(ds))
    rng.shuffle(ds)
    # by a detector that scored something else before
    cd = ConsistencyDetector()
    other = sample(rng)
    ctx.call(cd.compute_consistency_scores, other, get_dialects(other))
    s2 = cd.compute_consistency_scores(text, list(ds))
    for d in ds:
        if None not in (s1[d].Q, s2[d].Q) and s1[d] != s2[d]:
            ctx.fail("the score depends on what was scored before", text=text, other=other, dialect=d, first=s1[d], second=s2[d])
    b1 = set(ConsistencyDetector.get_best_dialects(s1))
    b2 = set(ConsistencyDetector.get_best_dialects(s2))
    ctx.event("orders of candidates compared")
    if b1 != b2:
        ctx.fail("the best dialects depend on the order of the candidates", text=text, first=b1, second=b2)
    ctx.nontrivial("scores", text)


def large(ctx, rng, i):
    """Large samples, with the evidence at the end"""
    text = gen.late(rng)
    want = outcome(ctx, Detector().detect, text, method="consistency")
    det = Detector()
    outcome(ctx, det.detect, text[: len(text) // 2])
    for what, fn in (
        ("an earlier detection", lambda: det.detect(text, method="consistency")),
        ("verbosity", lambda: Detector().detect(text, method="consistency", verbose=True)),
        ("the cache", lambda: ConsistencyDetector(cache_capacity=rng.choice([0, 1, 50])).detect(text)),
        ("skipping", lambda: ConsistencyDetector(skip=False).detect(text)),
    ):
        got = outcome(ctx, fn)
        if got != want:
            ctx.fail("a detection in a large sample depends on " + what, got=got, want=want, text=text)
    ctx.event("large samples")
    ctx.nontrivial(text)


def transient(ctx, rng, i):
    """Samples that exist only during their detection: another one takes the
    place in memory"""
    size = rng.choice([20, 40, 60, 100, 200, 600, 1500])
    texts = []
    while len(texts) < rng.choice([4, 8]):
        t = sample(rng)
        t = (t * (size // max(1, len(t)) + 1))[:size]
        if t and t not in texts:
            texts.append(t)
    method, skip, delims, _ = options(rng, texts[0])
    kw = dict(delimiters=delims, method=method, skip=skip)
    want = [outcome(ctx, Detector().detect, t, **kw) for t in texts]
    halves = [(t[: size // 2], t[size // 2 :]) for t in texts]
    texts = None
    seen = {}
    for _ in range(4 * len(halves)):
        k = rng.randrange(len(halves))
        text = "".join(halves[k])
        if seen.setdefault(id(text), k) != k:
            ctx.event("addresses reused")
        seen[id(text)] = k
        got = outcome(ctx, Detector().detect, text, **kw)
        text = None
        if got != want[k]:
            ctx.fail("another result for a sample that has the place of an earlier one", text="".join(halves[k]), got=got, want=want[k], options=kw)
    ctx.nontrivial("transient", halves)


STRATA = [
    Stratum("processes", processes, 24, 400),
    Stratum("history", history, 400, 12000),
    Stratum("settings", settings, 500, 15000),
    Stratum("scores", scores, 800, 20000),
    Stratum("transient", transient, 250, 8000),
    Stratum("large", large, 12, 200),
]
