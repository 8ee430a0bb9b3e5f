#!/usr/bin/env python3
"""Run the check of one property:  run.py C01 [--tier quick|thorough]

Exit status: 0 the property held on everything explored, 1 it is violated (a
VIOLATION line tells where to find the replay file), 2 inconclusive.
With --replay FILE the single case of a replay file is run again.
"""

import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"

#: properties that need another build of the extensions
MODES = {"C04": "san", "C05": "plain"}
#: properties that need the extensions with failing allocations as well
OOM = {"C04", "C05"}
#: properties that need file operations to fail
FAULTS = {"C24", "C28"}


def stage0(args):
    """Build, run the actual check in a clean process, clean up."""
    from lib import build

    repo = os.environ.get("VF_REPO", "/repo")
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    if args.replay:
        with open(args.replay) as f:
            rec = json.load(f)
        tier, seed = rec["tier"], rec["seed"]
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % args.property)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    try:
        try:
            mode = MODES.get(args.property, "plain")
            ext = build.build(repo, os.path.join(scratch, "ext"), mode)
            env = {
                "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:"
                "/usr/sbin:/usr/bin:/sbin:/bin",
                "HOME": scratch,
                "TMPDIR": os.path.join(scratch, "tmp"),
                "LANG": "C.UTF-8",
                "LC_ALL": "C.UTF-8",
                "TZ": "UTC",
                "PYTHONHASHSEED": "0",
                "PYTHONDONTWRITEBYTECODE": "1",
                "PYTHONPYCACHEPREFIX": os.path.join(scratch, "pyc"),
                "OMP_NUM_THREADS": "1",
                "OPENBLAS_NUM_THREADS": "1",
                "VF_EXT": json.dumps(ext),
                "VF_REPO": repo,
                "VF_SCRATCH": scratch,
                "VF_TIER": tier,
                "VF_SEED": str(seed),
            }
            os.mkdir(env["TMPDIR"])
            if args.property in OOM:
                oom = build.build(
                    repo, os.path.join(scratch, "extoom"), mode + "oom"
                )
                env["VF_EXT_OOM"] = json.dumps(oom)
            if args.property in FAULTS:
                shim = build.build_shared(
                    os.path.join(HERE, "lib", "faultshim.c"),
                    os.path.join(scratch, "faultshim.so"),
                )
                env["LD_PRELOAD"] = env["VF_FAULTSHIM"] = shim
            if mode == "san":
                log = os.path.join(scratch, "san.log")
                env["VF_SANLOG"] = log
                env["LD_PRELOAD"] = build.asan_runtime()
                env["PYTHONMALLOC"] = "malloc"
                env["ASAN_OPTIONS"] = (
                    "detect_leaks=0:halt_on_error=1:abort_on_error=1:"
                    "handle_abort=0:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=0:symbolize=1:"
                    "max_malloc_fill_size=65536:malloc_fill_byte=190:"
                    "max_free_fill_size=65536:free_fill_byte=165:log_path="
                    + log
                )
                env["UBSAN_OPTIONS"] = (
                    "print_stacktrace=1:halt_on_error=1:abort_on_error=1:"
                    "log_path=" + log
                )
        except build.BuildError as e:
            print("inconclusive: the extensions do not build\n%s" % e)
            return 2
        cmd = [PY, os.path.abspath(__file__), args.property, "--stage1"]
        if args.replay:
            cmd += ["--replay", os.path.abspath(args.replay)]
        p = subprocess.Popen(cmd, env=env, cwd=HERE)
        try:
            p.wait()
        except BaseException:
            p.kill()
            raise
        if p.returncode < 0 and -p.returncode in (4, 6, 7, 8, 11):
            rec = {
                "property": args.property,
                "tier": tier,
                "seed": seed,
                "stratum": None,
                "index": -1,
                "message": "killed by signal %d while loading"
                % -p.returncode,
                "details": {},
            }
            print_violation(args.property, rec)
            return 1
        return p.returncode if p.returncode in (0, 1) else 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def print_violation(prop, rec):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(
        d, "%s_%s_%s.json" % (prop, rec["stratum"], rec["index"])
    )
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    print("case: %s[%s] seed %s" % (rec["stratum"], rec["index"], rec["seed"]))
    print(rec["message"])
    for k, v in rec["details"].items():
        print("  %s: %s" % (k, v))
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)


def load_known(prop):
    """{key: text} of the known findings of a property"""
    known = {}
    path = os.path.join(HERE, "known_findings.txt")
    with open(path) as f:
        for line in f:
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, text = rest.split(" ", 1)
                assert key.startswith("key=")
                known[key[4:]] = text
    return known


def stage1(args):
    from lib import engine, inject

    repo = os.environ["VF_REPO"]
    inject.install(repo)
    env = dict(
        tier=os.environ["VF_TIER"],
        seed=int(os.environ["VF_SEED"]),
        repo=repo,
        scratch=os.environ["VF_SCRATCH"],
        known=load_known(args.property),
        workers=int(os.environ.get("VF_WORKERS") or os.cpu_count() or 4),
        san_log=os.environ.get("VF_SANLOG"),
    )
    mod = importlib.import_module("props." + args.property.lower())
    env["workers"] = min(env["workers"], getattr(mod, "WORKERS", 64))
    if args.replay:
        with open(args.replay) as f:
            rec = json.load(f)
        if hasattr(mod, "setup"):
            mod.setup(env)
        if hasattr(mod, "worker_setup"):
            mod.worker_setup(env)
        st = next(s for s in mod.STRATA if s.name == rec["stratum"])
        ctx = engine.Ctx(env)
        try:
            engine.run_case(mod, ctx, st, rec["index"], rec["seed"])
        except BaseException as e:
            if not engine.classify(e, repo):
                raise
            print_violation(
                mod.ID,
                engine.violation_record(mod, env, st.name, rec["index"], e),
            )
            return 1
        print("the case passes", ctx.counts)
        return 0

    status, res = engine.run(mod, env)
    for key, n in sorted(res["known"].items()):
        print(
            "KNOWN-FINDING: property=%s %s (%d times)"
            % (mod.ID, env["known"][key], n)
        )
    level = getattr(mod, "LEVEL", "exploration")
    samples = [
        {"stratum": k, "case": s}
        for k, v in res["samples"].items()
        for s in v
    ]
    evidence = {
        "property": mod.ID,
        "tier": env["tier"],
        "seed": env["seed"],
        "level": level,
        "coverage": {
            "evaluations": res["done"],
            "distinct_nontrivial": res["distinct"],
            "rule": mod.RULE,
            "samples": samples[:20],
            "cases_per_stratum": res["per"],
            "monitor_events": res["counts"],
            "maxima": res["notes"],
            "known_findings_seen": res["known"],
            "truncated_by_time": res["truncated"],
            "workers": env["workers"],
            "verdict": status,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(res["wall_s"], 2),
        "violations": len(res["violations"]),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    out = os.path.join(HERE, "evidence", mod.ID + ".json")
    with open(out + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(out + ".tmp", out)
    if status == "violated":
        # the first in the order of the cases
        order = {s.name: k for k, s in enumerate(mod.STRATA)}
        rec = min(
            res["violations"],
            key=lambda r: (order.get(r["stratum"], -1), r["index"]),
        )
        print_violation(mod.ID, rec)
        return 1
    print(
        "%s %s: %d cases (%d distinct non-trivial), %d monitor events, %.1f s"
        % (
            mod.ID,
            status,
            res["done"],
            res["distinct"],
            sum(res["counts"].values()),
            res["wall_s"],
        )
    )
    if status == "inconclusive":
        for p in res["problems"]:
            print("inconclusive:", p)
        return 2
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--stage1", action="store_true")
    args = ap.parse_args()
    args.property = args.property.upper()
    if not args.stage1:
        sys.exit(stage0(args))
    try:
        status = stage1(args)
    except Exception:
        traceback.print_exc()
        status = 2
    sys.exit(status)


if __name__ == "__main__":
    main()
