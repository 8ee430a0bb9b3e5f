"""C38: results depend on the data and options, not on the interpreter's settings"""

import base64
import json
import os
import shutil
import subprocess
import sys
import tempfile

from clevercsv.encoding import get_encoding

from lib import files, gen
from lib.engine import Inconclusive, Stratum

ID = "C38"
RULE = (
    "A case is a list of jobs over all parts of the library (parsing, reading, "
    "writing, detection, types, encodings, loading, saving, commands) that is "
    "done in a plain process and in several ones with other settings: "
    "optimisation, development mode, hash seeds, locales, warnings as errors, "
    "comparing bytes as an error, allocators, garbage collection, tracing, "
    "time zone, folder, umask, limits and dialects of the csv module, other "
    "threads. All results are compared. Non-trivial: jobs with a result that "
    "isn't an exception; distinct by job and settings."
)
TECHNIQUE = "runtime monitoring: differential monitor over processes that do the same work under different settings of interpreter and system"
LEVEL_NOTE = "Encodings are given, or detected, where the documentation makes the default depend on the locale; file names are ASCII."
SETTINGS = [
    "optimised",
    "optimised, no docstrings",
    "development mode",
    "hash seed",
    "locale C, no UTF-8",
    "UTF-8 mode",
    "bytes errors",
    "malloc",
    "debug allocator",
    "time zone",
    "unbuffered",
    "warnings are errors",
    "collections all the time",
    "no collections",
    "csv limit",
    "csv limit before import",
    "csv dialects",
    "locale",
    "umask",
    "folder",
    "temporary files",
    "no standard input",
    "switches",
    "thread",
    "traced",
    "profiled",
]
KINDS = ["detect", "detect", "header", "reader", "parse", "dicts", "writer", "dictwriter", "types", "encoding", "read_table", "stream_table", "read_dicts", "detect_dialect", "frame", "write_table", "write_dicts", "standardize", "standardize", "code"]
REQUIRED = ["results compared"] + ["setting " + s for s in SETTINGS] + ["job " + k for k in sorted(set(KINDS))]
BUDGET = {"quick": 400, "thorough": 2400}
HANG = {"quick": 200, "thorough": 300}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cell(rng):
    r = rng.random()
    if r < 0.5:
        return rng.choice(gen.WORDS)
    if r < 0.6:
        return rng.choice([1, -2.5, None, 1e300, True])
    return gen.word(rng) + rng.choice(["", "", ",", '"', "\n", "\u00e9", "\u4e2d"])


def make_job(rng, frames):
    # the import of pandas takes longer than everything else
    kind = rng.choice([k for k in KINDS if frames or k != "frame"])
    text = files.content(rng) if rng.random() < 0.4 else gen.sample_text(rng)
    data, enc = files.encode(rng, text)
    if enc is None:
        with files.File(data, "c38.csv") as path:
            if get_encoding(path) is None:
                # then it's the default of the locale
                enc = "latin-1"
    n = rng.randint(1, 3)
    ragged = rng.random() < 0.15
    rows = [[cell(rng) for _ in range(n + (rng.randint(0, 1) if ragged else 0))] for _ in range(rng.randint(1, 6))]
    d, q, e = gen.dialect_chars(rng)
    opt = dict(
        encoding=enc,
        dialect=[d, q, e],
        num=rng.choice([None, None, 1, 10, 200]),
        method=rng.choice(["auto", "auto", "normal", "consistency"]),
        skip=rng.random() < 0.5,
        strict=rng.random() < 0.3,
        quoting=rng.choice([0, 1, 2, 3]),
        rows=rows,
        extras=rng.choice(["raise", "ignore"]),
        transpose=rng.random() < 0.3,
        flags={
            "detect": rng.choice([[], ["-j"], ["-p"], ["-c"]]),
            "code": rng.choice([[], ["-p"]]),
            "standardize": rng.choice([[], ["-t"], ["-i"], ["-o", "OUT"], ["-i", "-E", "utf-8"], ["-o", "OUT", "-t"]]),
        },
    )
    if kind == "detect" and rng.random() < 0.4:
        # the command instead of the function: that has files
        kind = "detect_dialect"
    return dict(kind=kind, text=text, data=base64.b64encode(data).decode(), opt=opt)


def child(jobs, plan, folder, rng):
    env = dict(os.environ)
    for k in ("LC_ALL", "LANG", "PYTHONUTF8", "PYTHONCOERCECLOCALE"):
        env.pop(k, None)
    env["LC_ALL"] = "C.UTF-8"
    env["PYTHONHASHSEED"] = "0"
    args = [sys.executable]
    if "optimised" in plan:
        args.append("-O")
    if "optimised, no docstrings" in plan:
        args.append("-OO")
    if "development mode" in plan:
        args += ["-X", "dev"]
    if "hash seed" in plan:
        env["PYTHONHASHSEED"] = str(rng.randint(1, 2**32 - 1))
    if "locale C, no UTF-8" in plan:
        env.update(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
    if "UTF-8 mode" in plan:
        env.update(LC_ALL="C", PYTHONUTF8="1")
    if "bytes errors" in plan:
        args.append("-bb")
    if "malloc" in plan:
        env["PYTHONMALLOC"] = "malloc"
    if "debug allocator" in plan:
        env["PYTHONMALLOC"] = "debug"
    if "time zone" in plan:
        env["TZ"] = rng.choice(["Asia/Kolkata", "UTC+11", "America/Los_Angeles"])
    if "unbuffered" in plan:
        args.append("-u")
    try:
        p = subprocess.run(
            args + [os.path.join(HERE, "lib", "child_settings.py")],
            input=json.dumps(dict(jobs=jobs, plan=sorted(plan), folder=folder)).encode(),
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            env=env,
            cwd=os.path.dirname(folder),
            timeout=150,
        )
    except subprocess.TimeoutExpired:
        raise Inconclusive("a child process took too long")
    try:
        return json.loads(p.stdout), p
    except ValueError:
        return None, p


def batch(ctx, rng, i):
    top = tempfile.mkdtemp(dir=ctx.env["scratch"])
    try:
        jobs = [make_job(rng, i % 8 == 0) for _ in range(60)]
        plans = [set()]
        for k in range(3):
            # every setting comes in turn, some together with others
            plan = {SETTINGS[(3 * i + k) % len(SETTINGS)]}
            plan |= set(rng.sample(SETTINGS, rng.choice([0, 0, 1, 3])))
            if len(plan & {"optimised", "optimised, no docstrings"}) == 2:
                plan.discard("optimised")
            if "UTF-8 mode" in plan:
                plan.discard("locale C, no UTF-8")
            if "malloc" in plan:
                plan.discard("debug allocator")
            if "traced" in plan:
                plan.discard("profiled")
            plans.append(plan)
        want = None
        for k, plan in enumerate(plans):
            folder = os.path.join(top, "r%d" % k)
            os.mkdir(folder)
            todo = jobs
            if plan & {"warnings are errors", "csv limit", "csv limit before import"}:
                # pandas has warnings of its own, and uses the csv module
                todo = [j for j in jobs if j["kind"] != "frame"]
            got, p = child(todo, plan, folder, rng)
            if got is None:
                if want is None:
                    raise Inconclusive("the plain process fails: %s" % p.stderr.decode("utf-8", "replace")[-800:])
                ctx.fail("the process fails", settings=sorted(plan), status=p.returncode, stderr=p.stderr.decode("utf-8", "replace")[-2000:])
            if want is None:
                want = {id(j): g for j, g in zip(todo, got)}
                continue
            for j, g in zip(todo, got):
                w = want[id(j)]
                if g != w:
                    ctx.fail("the result depends on the settings", got=g, want=w, settings=sorted(plan), job=j)
                ctx.event("results compared")
                ctx.event("job " + j["kind"])
                if w[0] == "value":
                    ctx.nontrivial(j["kind"], j["text"], sorted(plan))
            for s in plan:
                ctx.event("setting " + s)
        ctx.sample((sorted(plans[1]), jobs[0]["kind"], want[id(jobs[0])]))
    finally:
        shutil.rmtree(top, ignore_errors=True)


STRATA = [Stratum("batch", batch, 50, 1000)]
