"""Runs the cases of a property in forked workers and reaches a verdict.

A property module (props/cNN.py) has

  ID, RULE        the property and how its cases are made
  STRATA          list of Stratum
  REQUIRED        names of monitor counters that must not be zero
  setup(env)      optional, runs once in the master before forking

Every case is a pure function of (seed, property, stratum, index), so that it
can be run again from those four values alone.  A case fails by calling
ctx.fail(), by an exception that comes out of the code under test without
having been expected, by killing its process, or by not ending.
"""

import hashlib
import json
import mmap
import os
import random
import resource
import signal
import struct
import sys
import time
import traceback
import warnings

CRASH_SIGNALS = {
    signal.SIGSEGV,
    signal.SIGABRT,
    signal.SIGBUS,
    signal.SIGFPE,
    signal.SIGILL,
    signal.SIGTRAP,
    signal.SIGSYS,
}


class Violation(Exception):
    def __init__(self, message, key=None, details=None):
        super().__init__(message)
        self.message = message
        self.key = key
        self.details = details or {}


class Inconclusive(Exception):
    pass


class Stratum:
    def __init__(self, name, fn, quick, thorough=None, cases=None):
        """fn(ctx, rng, i); with cases, fn(ctx, rng, cases[i])"""
        self.name = name
        self.fn = fn
        self.cases = cases
        if cases is not None:
            n = len(cases)
            quick = n if quick is None else min(quick, n)
            thorough = n if thorough is None else min(thorough, n)
        self.n = {
            "quick": quick,
            "thorough": quick if thorough is None else thorough,
        }


class Outcome:
    """What a call did: returned a value, or raised an exception"""

    __slots__ = ("value", "exc")

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def key(self):
        if self.exc is None:
            return ("ok", self.value)
        return ("exc", type(self.exc).__name__, str(self.exc))

    def __repr__(self):
        if self.exc is None:
            return short(self.value)
        return "raised %s: %s" % (
            type(self.exc).__name__,
            short(str(self.exc)),
        )


def short(x, n=400):
    s = x if isinstance(x, str) and False else repr(x)
    if len(s) > n:
        s = s[: n // 2] + " ...(%d)... " % len(s) + s[-n // 2 :]
    return s


class Ctx:
    def __init__(self, env):
        self.env = env
        self.tier = env["tier"]
        self.counts = {}
        self.distinct = set()
        self.samples = {}
        self.known_hits = {}
        self.stratum = None
        self.notes = {}

    # monitors -----------------------------------------------------------
    def event(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def maxi(self, name, value):
        if value > self.notes.get(name, -1):
            self.notes[name] = value

    def nontrivial(self, *key):
        h = hashlib.blake2b(
            repr(key).encode("utf-8", "surrogatepass"), digest_size=8
        ).digest()
        self.distinct.add(h)

    def sample(self, obj):
        lst = self.samples.setdefault(self.stratum, [])
        if len(lst) < 2:
            lst.append(short(obj, 600))

    def fail(self, message, key=None, **details):
        if key is not None and key in self.env["known"]:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            return
        raise Violation(message, key, {k: short(v, 2000) for k, v in details.items()})

    def check(self, cond, message, key=None, **details):
        if not cond:
            self.fail(message, key, **details)

    def same(self, got, want, message, **details):
        if got != want:
            self.fail(message, got=got, want=want, **details)

    # calls --------------------------------------------------------------
    def call(self, fn, *args, **kwargs):
        try:
            return Outcome(value=fn(*args, **kwargs))
        except (Violation, KeyboardInterrupt, SystemExit, Inconclusive):
            raise
        except BaseException as e:
            return Outcome(exc=e)


def case_rng(seed, prop, stratum, i):
    return random.Random("%s:%s:%s:%d" % (seed, prop, stratum, i))


def classify(exc, repo):
    """Is an exception that escaped from a case a violation?"""
    if isinstance(exc, Violation):
        return True
    tb = traceback.extract_tb(exc.__traceback__)
    root = os.path.realpath(os.path.join(repo, "clevercsv")) + os.sep
    in_repo = any(os.path.realpath(f.filename).startswith(root) for f in tb)
    if in_repo:
        return True
    if isinstance(exc, (OSError, MemoryError, ImportError, Inconclusive)):
        return False
    if isinstance(exc, AttributeError) and "module 'clevercsv" in str(exc):
        return False
    # results without the documented shape make the oracle trip
    return isinstance(
        exc,
        (
            TypeError,
            ValueError,
            IndexError,
            KeyError,
            AttributeError,
            AssertionError,
            RecursionError,
        ),
    )


def run_case(mod, ctx, stratum, i, seed):
    rng = case_rng(seed, mod.ID, stratum.name, i)
    ctx.stratum = stratum.name
    ctx.case_index = i
    arg = i if stratum.cases is None else stratum.cases[i]
    stratum.fn(ctx, rng, arg)


def violation_record(mod, env, stratum, i, exc):
    rec = {
        "property": mod.ID,
        "tier": env["tier"],
        "seed": env["seed"],
        "stratum": stratum,
        "index": i,
    }
    if isinstance(exc, Violation):
        rec["message"] = exc.message
        rec["details"] = exc.details
    else:
        rec["message"] = "unexpected %s: %s" % (
            type(exc).__name__,
            short(str(exc)),
        )
        rec["details"] = {
            "traceback": "".join(
                traceback.format_exception(type(exc), exc, exc.__traceback__)
            )[-3000:]
        }
    return rec


SLOT = struct.Struct("=iiqd")  # stratum, index, done cases, start time


def _worker(mod, env, w, nw, shm, outpath, start_from, deadline):
    """Run this worker's share; leaves a JSON file."""
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if not env.get("san_log"):
        lim = 4 << 30
        resource.setrlimit(resource.RLIMIT_DATA, (lim, lim))
    warnings.simplefilter("ignore")
    ctx = Ctx(env)
    seed, tier = env["seed"], env["tier"]
    done = 0
    per = {}
    rec = None
    err = None
    truncated = False
    if hasattr(mod, "worker_setup"):
        mod.worker_setup(env)
    try:
        for si, st in enumerate(mod.STRATA):
            n = st.n[tier]
            for i in range(n):
                if (i + si) % nw != w:
                    continue
                if (si, i) < start_from:
                    continue
                if time.monotonic() > deadline:
                    truncated = True
                    break
                SLOT.pack_into(
                    shm, w * SLOT.size, si, i, done, time.monotonic()
                )
                try:
                    run_case(mod, ctx, st, i, seed)
                except BaseException as e:
                    if classify(e, env["repo"]):
                        rec = violation_record(mod, env, st.name, i, e)
                    else:
                        err = "%s[%d]: %s" % (
                            st.name,
                            i,
                            "".join(traceback.format_exception(e))[-3000:],
                        )
                    break
                done += 1
                per[st.name] = per.get(st.name, 0) + 1
            if rec or err or truncated:
                break
        SLOT.pack_into(shm, w * SLOT.size, -1, -1, done, time.monotonic())
        with open(outpath + ".bin", "wb") as f:
            f.write(b"".join(ctx.distinct))
        with open(outpath + ".tmp", "w") as f:
            json.dump(
                dict(
                    done=done,
                    per=per,
                    counts=ctx.counts,
                    notes=ctx.notes,
                    samples=ctx.samples,
                    known=ctx.known_hits,
                    violation=rec,
                    error=err,
                    truncated=truncated,
                ),
                f,
            )
        os.rename(outpath + ".tmp", outpath)
    except BaseException:
        traceback.print_exc()
        os._exit(3)
    os._exit(0)


def _isolated(mod, env, si, i, cpu):
    """Run one case alone with a CPU limit; returns (kind, record)"""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        signal.signal(signal.SIGXCPU, signal.SIG_DFL)
        ctx = Ctx(env)
        out = {"kind": "ok"}
        try:
            if hasattr(mod, "worker_setup"):
                mod.worker_setup(env)
            run_case(mod, ctx, mod.STRATA[si], i, env["seed"])
        except BaseException as e:
            if classify(e, env["repo"]):
                out = {
                    "kind": "violation",
                    "rec": violation_record(
                        mod, env, mod.STRATA[si].name, i, e
                    ),
                }
            else:
                out = {
                    "kind": "error",
                    "err": "".join(traceback.format_exception(e)),
                }
        os.write(wfd, json.dumps(out).encode()[:60000])
        os._exit(0)
    os.close(wfd)
    end = time.monotonic() + cpu * 4 + 60
    data = b""
    os.set_blocking(r, False)
    status = None
    while time.monotonic() < end:
        try:
            chunk = os.read(r, 65536)
            data += chunk
        except BlockingIOError:
            pass
        p, s = os.waitpid(pid, os.WNOHANG)
        if p:
            status = s
            try:
                data += os.read(r, 1 << 20)
            except BlockingIOError:
                pass
            break
        time.sleep(0.05)
    os.close(r)
    if status is None:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return "stuck", None
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig == signal.SIGXCPU:
            return "cpu", None
        return "signal", sig
    try:
        out = json.loads(data)
    except ValueError:
        return "error", "no result"
    return out["kind"], out.get("rec") or out.get("err")


def hang_record(mod, env, si, i, text):
    return {
        "property": mod.ID,
        "tier": env["tier"],
        "seed": env["seed"],
        "stratum": mod.STRATA[si].name,
        "index": i,
        "message": text,
        "details": {},
    }


def run(mod, env):
    """Returns (status, result dict); status: held, violated, inconclusive"""
    t0 = time.monotonic()
    tier = env["tier"]
    nw = env["workers"]
    budget = getattr(mod, "BUDGET", {}).get(
        tier, 240 if tier == "quick" else 2400
    )
    deadline = t0 + budget
    hang = getattr(mod, "HANG", {}).get(tier, 60 if tier == "quick" else 180)
    cpu = getattr(mod, "CPU", 60)
    shm = mmap.mmap(-1, max(4096, nw * SLOT.size))
    if hasattr(mod, "setup"):
        mod.setup(env)
    sys.stdout.flush()
    sys.stderr.flush()

    pids = {}
    outs = []

    def start(w, start_from):
        outpath = os.path.join(
            env["scratch"], "w%d_%d.json" % (w, len(outs))
        )
        outs.append(outpath)
        SLOT.pack_into(shm, w * SLOT.size, -2, -1, 0, time.monotonic())
        pid = os.fork()
        if pid == 0:
            _worker(mod, env, w, nw, shm, outpath, start_from, deadline)
        pids[pid] = (w, outpath)

    for w in range(nw):
        start(w, (-1, -1))

    violations, problems = [], []

    def load(outpath):
        try:
            with open(outpath) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    results = []
    while pids:
        progressed = False
        for pid in list(pids):
            p, status = os.waitpid(pid, os.WNOHANG)
            if not p:
                continue
            progressed = True
            w, outpath = pids.pop(pid)
            si, i, done, _ = SLOT.unpack_from(shm, w * SLOT.size)
            if os.WIFSIGNALED(status):
                sig = os.WTERMSIG(status)
                if si >= 0 and sig in CRASH_SIGNALS:
                    violations.append(
                        hang_record(
                            mod,
                            env,
                            si,
                            i,
                            "process killed by %s%s"
                            % (signal.Signals(sig).name, san_report(env)),
                        )
                    )
                else:
                    problems.append(
                        "worker %d ended by signal %d at %s"
                        % (w, sig, (si, i))
                    )
                continue
            code = os.WEXITSTATUS(status)
            res = load(outpath)
            if code != 0 or res is None:
                rep = san_report(env)
                if si >= 0 and rep:
                    violations.append(
                        hang_record(
                            mod, env, si, i, "sanitizer report" + rep
                        )
                    )
                elif si >= 0 and code not in (0, 3):
                    violations.append(
                        hang_record(
                            mod,
                            env,
                            si,
                            i,
                            "process ended with status %d" % code,
                        )
                    )
                else:
                    problems.append("worker %d failed (%d)" % (w, code))
                continue
            res["bin"] = outpath + ".bin"
            results.append(res)
            if res["violation"]:
                violations.append(res["violation"])
            if res["error"]:
                problems.append(res["error"])
        if violations or problems:
            for pid in pids:
                os.kill(pid, signal.SIGKILL)
            for pid in pids:
                os.waitpid(pid, 0)
            for pid, (w, outpath) in pids.items():
                r = load(outpath)
                if r:
                    r["bin"] = outpath + ".bin"
                    results.append(r)
                    if r["violation"]:
                        violations.append(r["violation"])
            break
        now = time.monotonic()
        for pid, (w, outpath) in list(pids.items()):
            si, i, done, since = SLOT.unpack_from(shm, w * SLOT.size)
            if si >= 0 and since > 0 and now - since > hang:
                # the slot may have been read while it was written
                again = SLOT.unpack_from(shm, w * SLOT.size)
                time.sleep(0.01)
                if not (
                    (si, i, done, since)
                    == again
                    == SLOT.unpack_from(shm, w * SLOT.size)
                ):
                    continue
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                pids.pop(pid)
                kind, info = _isolated(mod, env, si, i, cpu)
                if kind == "cpu":
                    violations.append(
                        hang_record(
                            mod,
                            env,
                            si,
                            i,
                            "no result after %d s of CPU time" % cpu,
                        )
                    )
                elif kind == "violation":
                    violations.append(info)
                elif kind == "signal" and info in CRASH_SIGNALS:
                    violations.append(
                        hang_record(
                            mod, env, si, i, "process killed by signal %d" % info
                        )
                    )
                elif kind == "ok":
                    start(w, (si, i + 1))
                else:
                    problems.append(
                        "case %s[%d] takes too long (%s)"
                        % (mod.STRATA[si].name, i, kind)
                    )
                break
        if not progressed:
            time.sleep(0.02)

    agg = aggregate(results)
    agg["wall_s"] = time.monotonic() - t0
    agg["violations"] = violations
    agg["problems"] = problems
    if violations:
        return "violated", agg
    for name in getattr(mod, "REQUIRED", []):
        if not agg["counts"].get(name):
            problems.append("the monitor '%s' observed nothing" % name)
    for st in mod.STRATA:
        if st.n[tier] and not agg["per"].get(st.name) and not agg["truncated"]:
            problems.append("stratum %s did not run" % st.name)
    if problems:
        return "inconclusive", agg
    return "held", agg


def san_report(env):
    base = env.get("san_log")
    if not base:
        return ""
    d = os.path.dirname(base)
    text = ""
    for f in sorted(os.listdir(d)):
        if f.startswith(os.path.basename(base)):
            with open(os.path.join(d, f), errors="replace") as fp:
                t = fp.read(1500)
            if t.strip():
                text = "\n" + t
    return text


def aggregate(results):
    agg = dict(
        counts={},
        per={},
        samples={},
        known={},
        notes={},
        done=0,
        truncated=False,
    )
    distinct = set()
    for r in results:
        agg["done"] += r["done"]
        agg["truncated"] |= r["truncated"]
        for k, v in r["counts"].items():
            agg["counts"][k] = agg["counts"].get(k, 0) + v
        for k, v in r["per"].items():
            agg["per"][k] = agg["per"].get(k, 0) + v
        for k, v in r["known"].items():
            agg["known"][k] = agg["known"].get(k, 0) + v
        for k, v in r["notes"].items():
            agg["notes"][k] = max(agg["notes"].get(k, v), v)
        for k, v in r["samples"].items():
            lst = agg["samples"].setdefault(k, [])
            for s in v:
                if len(lst) < 2:
                    lst.append(s)
        try:
            data = open(r["bin"], "rb").read()
            for k in range(0, len(data), 8):
                distinct.add(data[k : k + 8])
        except OSError:
            pass
    agg["distinct"] = len(distinct)
    return agg
