"""C35: command lines mean the same in every spelling, or are refused"""

import contextlib
import io
import os
import re
import shutil
import tempfile

import clevercsv
from clevercsv.console import build_application

from lib import cli, files, gen
from lib.engine import Stratum
from props import c30
from props.c24 import restore, snapshot

ID = "C35"
RULE = (
    "A case is a command with options that mean something, spelled twice: "
    "short or long names, values attached or separate, flags in clusters, "
    "any order of the options around the paths, a fresh application or one "
    "that already ran. Status, exception, both outputs, the folder, the "
    "table shown and the session are compared. Other cases are command lines "
    "that must be refused without any effect, and requests for help and the "
    "version. Non-trivial: at least two options; distinct by content and "
    "command lines."
)
TECHNIQUE = "runtime monitoring: all observable effects of real runs compared between spellings of one command line, and effects of command lines that must be refused"
LEVEL_NOTE = "Documented options of the five commands; what an option means is judged by C23 to C25, C30 and C32; abbreviated names of options aren't used."
REQUIRED = [
    "spellings compared",
    "attached values",
    "clusters of flags",
    "options after the path",
    "short names",
    "long names",
    "applications used again",
    "refused command lines",
    "help texts",
    "versions",
    "command detect",
    "command code",
    "command view",
    "command explore",
    "command standardize",
    "verbose runs",
    "run as processes",
]
BUDGET = {"quick": 400, "thorough": 2400}

# option: (short, long, takes a value)
OPTIONS = {
    "detect": [("-c", "--consistency", 0), ("-e", "--encoding", 1), ("-n", "--num-chars", 1), ("-p", "--plain", 0), ("-j", "--json", 0), (None, "--no-skip", 0), (None, "--add-runtime", 0)],
    "code": [("-e", "--encoding", 1), ("-n", "--num-chars", 1), ("-p", "--pandas", 0)],
    "view": [("-e", "--encoding", 1), ("-n", "--num-chars", 1), ("-t", "--transpose", 0)],
    "explore": [("-e", "--encoding", 1), ("-n", "--num-chars", 1), ("-p", "--pandas", 0)],
    "standardize": [("-e", "--encoding", 1), ("-E", "--target-encoding", 1), ("-i", "--in-place", 0), ("-n", "--num-chars", 1), ("-o", "--output", 1), ("-t", "--transpose", 0)],
}


def setup(env):
    c30.setup(env)


def meaning(rng, command, folder, paths):
    """[(option, value)] that can be combined"""
    chosen = []
    for opt in OPTIONS[command]:
        name = opt[1]
        if name == "--json" and any(o[1] == "--plain" for o, _ in chosen):
            continue
        if rng.random() < 0.45:
            value = None
            if name == "--encoding":
                value = "utf-8"
            elif name == "--target-encoding":
                value = rng.choice(["utf-8", "utf-16", "latin-1"])
            elif name == "--num-chars":
                value = str(rng.choice([1, 5, 12, 30, 300, 10**6]))
            elif name == "--output":
                if any(o[1] == "--in-place" for o, _ in chosen):
                    continue
                for k in range(len(paths)):
                    chosen.append((opt, os.path.join(folder, "out%d.csv" % k)))
                continue
            chosen.append((opt, value))
    return chosen


def spell(ctx, rng, command, chosen, paths):
    """One way of writing the command line"""
    chosen = list(chosen)
    # options that are given repeatedly keep their order
    order = list(range(len(chosen)))
    rng.shuffle(order)
    outputs = sorted(k for k in order if chosen[k][0][1] == "--output")
    it = iter(outputs)
    order = [next(it) if k in outputs else k for k in order]
    words = []
    flags = []
    for k in order:
        (short, long, has), value = chosen[k]
        use = short if short and rng.random() < 0.5 else long
        ctx.event("short names" if use == short else "long names")
        if not has:
            if use == short and rng.random() < 0.6:
                flags.append(short[1])
            else:
                words.append([use])
        elif rng.random() < 0.4:
            ctx.event("attached values")
            words.append([use + ("" if use == short else "=") + value])
        elif use == short and flags and rng.random() < 0.5:
            # a cluster that ends in an option with a value
            words.append(["-" + "".join(flags) + use[1], value])
            ctx.event("clusters of flags")
            flags = []
        else:
            words.append([use, value])
    if flags:
        words.insert(rng.randint(0, len(words)), ["-" + "".join(flags)])
        if len(flags) > 1:
            ctx.event("clusters of flags")
    at = rng.randint(0, len(words))
    # outputs were moved around with the words, never past each other
    before = [w for ws in words[:at] for w in ws]
    after = [w for ws in words[at:] for w in ws]
    if after:
        ctx.event("options after the path")
    tail = list(paths)
    if not after and rng.random() < 0.2:
        tail.insert(0, "--")
    return [command] + before + tail + after


# the parser of an application that refused a command line, or showed the
# help, doesn't report what is wrong with the next one (that's the package
# wilderness), so only applications with valid command lines are used again
APP = []


def run(ctx, args, again):
    """Everything that can be seen of a run"""
    del c30.VIEWED[:], c30.SESSIONS[:]
    if not again:
        r = cli.inside(args)
    else:
        if not APP:
            APP.append(build_application())
        ctx.event("applications used again")
        out, err = io.StringIO(newline=""), io.StringIO(newline="")
        status = exc = None
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                status = APP[0].run(args=list(args))
            except SystemExit as e:
                status = e.code
            except Exception as e:
                exc = e
        r = cli.Run(status, exc, out.getvalue(), err.getvalue())
    return r, list(c30.VIEWED), list(c30.SESSIONS)


def clock(text):
    return re.sub(r"([Rr]untime\W{1,4})[0-9.e-]+", r"\1T", text)


def session(s):
    out = {}
    for k in ("rows", "df"):
        if k in s:
            out[k] = s[k] if k == "rows" else s[k].to_csv()
    return out


def seen(run, folder):
    r, viewed, sessions = run
    return {
        "status": r.status or 0,
        "exception": None if r.exc is None else (type(r.exc).__name__, str(r.exc)),
        "stdout": clock(r.out),
        "stderr": clock(r.err),
        "viewed": viewed,
        "sessions": [session(s) for s in sessions],
        "folder": snapshot(folder),
    }


def text(rng):
    if rng.random() < 0.2:
        return files.content(rng).replace("\0", "")
    d, d2 = rng.sample(gen.COMMON_D, 2)
    rows = [[gen.word(rng, 1, 5) for _ in range(3)] for _ in range(rng.randint(2, 8))]
    lines = [d.join(r) for r in rows]
    if rng.random() < 0.5:
        # what a part of the file shows is something else
        lines += [d2.join([gen.word(rng) for _ in range(3)]) for _ in range(rng.randint(1, 20))]
    if rng.random() < 0.3:
        lines[-1] = "\u00e9" + lines[-1]
    return "\n".join(lines) + "\n"


def case(ctx, rng, i, as_process=False):
    command = sorted(OPTIONS)[i % len(OPTIONS)]
    folder = tempfile.mkdtemp(dir=ctx.env["scratch"])
    try:
        n = rng.choice([1, 1, 2, 3]) if command == "standardize" else 1
        paths = []
        for k in range(n):
            p = os.path.join(folder, rng.choice(["a%d.csv", "b %d.csv", "c%d"]) % k)
            with open(p, "wb") as f:
                f.write(text(rng).encode("utf-8", "surrogatepass"))
            paths.append(p)
        start = snapshot(folder)
        chosen = meaning(rng, command, folder, paths)
        verbose = rng.random() < 0.25
        first = [command]
        for (short, long, has), value in chosen:
            first += [long] + ([value] if has else [])
        first += paths
        want = None
        todo = [first] + [spell(ctx, rng, command, chosen, paths) for _ in range(3)]
        for k, args in enumerate(todo):
            if verbose:
                args = [rng.choice(["-v", "--verbose"])] + args
                ctx.event("verbose runs")
            if as_process and k == 1:
                env = dict(PYTHONIOENCODING="utf-8:strict", PYTHONUTF8="1")
                r = cli.process(args, cwd=folder, **env)
                ctx.event("run as processes")
                got = {"status": r.status, "stdout": clock(r.out.decode("utf-8")), "folder": snapshot(folder)}
                if want["exception"] is not None:
                    ctx.check(r.status != 0, "the process succeeds", args=args, run=r)
                else:
                    ctx.same(got, {x: want[x] for x in got}, "effects as a process", args=args, run=r)
            else:
                got = seen(run(ctx, args, k > 0 and rng.random() < 0.4), folder)
                if want is None:
                    want = got
                for x in want:
                    if got[x] != want[x]:
                        ctx.fail("%s differs between spellings" % x, got=got[x], want=want[x], args=args, other=first)
                ctx.event("spellings compared")
            restore(folder, start)
        ctx.event("command " + command)
        if len(chosen) > 1:
            ctx.nontrivial(start.values(), todo)
        ctx.sample(todo[1])
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def process_case(ctx, rng, i):
    # the interactive commands need a terminal
    case(ctx, rng, sorted(OPTIONS).index(["code", "detect", "standardize"][i % 3]), True)


def refused(ctx, rng, i):
    """Command lines without a meaning"""
    command = sorted(OPTIONS)[i % len(OPTIONS)]
    folder = tempfile.mkdtemp(dir=ctx.env["scratch"])
    try:
        a, b, o = (os.path.join(folder, x) for x in ("a.csv", "b.csv", "o.csv"))
        for p in (a, b):
            with open(p, "w") as f:
                f.write("x;y\n1;2\n3;4\n")
        kinds = ["unknown option", "no path", "no number", "no value", "unknown command", "value for a flag", "unknown short"]
        if command != "standardize":
            kinds.append("two paths")
        if command == "detect":
            kinds.append("two formats")
        if command == "standardize":
            kinds += ["in place and output", "few outputs", "many outputs", "encodings", "same file"]
        kind = kinds[i // len(OPTIONS) % len(kinds)]
        names = [n for o3 in OPTIONS[command] for n in o3[:2] if n]
        num = rng.choice(["-n", "--num-chars"])
        args = {
            "unknown option": [command, "--" + rng.choice(["bogus", "delimiter", "dialect", "in-place" if command != "standardize" else "plain"]), a],
            "unknown short": [command, rng.choice([x for x in ("-x", "-q", "-z", "-D", "-o", "-i", "-j") if x not in names]), a],
            "no path": [command] + rng.choice([[], ["-e", "utf-8"], ["-n", "5"]]),
            "no number": [command, num, rng.choice(["x", "", "1.5", "5k", "1e3", "--", "None"]), a],
            "no value": [command, a, rng.choice(["-n", "-e", "--encoding", "--num-chars"])],
            "unknown command": [rng.choice(["detects", "", "stand", "Detect", "sniff"]), a],
            "value for a flag": [command, {"detect": "--plain", "code": "--pandas", "explore": "--pandas", "view": "--transpose", "standardize": "--transpose"}[command] + "=1", a],
            "two paths": [command, a, b],
            "two formats": [command] + rng.sample([rng.choice(["-p", "--plain"]), rng.choice(["-j", "--json"])], 2) + [a],
            "in place and output": [command] + rng.choice([["-i", "-o", o], ["-o", o, "--in-place"]]) + [a],
            "few outputs": [command, "-o", o, a, b],
            "many outputs": [command, "-o", o, "--output", o + "2", a],
            "encodings": [command] + rng.choice([[], ["-i"]]) + rng.choice([["-e", "utf-8", "--encoding", "utf-8", a], ["-e", "utf-8"] * 3 + [a, b]]),
            "same file": [command, "-o", a, a],
        }[kind]
        verbose = rng.random() < 0.2
        if verbose:
            args = ["-v"] + args
        start = snapshot(folder)
        r, viewed, sessions = run(ctx, args, False)
        info = dict(args=args, run=r)
        ctx.check(r.exc is not None or r.status not in (0, None), "%s: accepted" % kind, **info)
        ctx.check(r.exc is not None or r.err.strip(), "%s: no message" % kind, **info)
        # progress can be reported before a command line is refused
        ctx.check(verbose or not r.out.strip(), "%s: output" % kind, **info)
        ctx.check(not viewed and not sessions, "%s: data was shown" % kind, **info)
        ctx.same(snapshot(folder), start, "%s: files changed" % kind, **info)
        ctx.event("refused command lines")
        ctx.event("refused: " + kind)
        ctx.nontrivial(kind, args[:-1], command)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def information(ctx, rng, i):
    """Help and version"""
    as_process = i % 4 == 3

    def go(args):
        if as_process:
            r = cli.process(args)
            ctx.event("run as processes")
            return cli.Run(r.status, r.exc, r.out.decode("utf-8"), r.err)
        return run(ctx, args, False)[0]

    for flag in ("-h", "--help"):
        for command in OPTIONS:
            r = go([command, flag])
            ctx.same(r.status or 0, 0, "status of help", command=command, run=r)
            for short, long, has in OPTIONS[command]:
                ctx.check(long in r.out and (short or "") in r.out, "the help doesn't name %s" % long, command=command, run=r)
            ctx.event("help texts")
        r = go([flag])
        ctx.same(r.status or 0, 0, "status of help", run=r)
        for command in OPTIONS:
            ctx.check(command in r.out, "the help doesn't name %s" % command, run=r)
    for flag in ("-V", "--version"):
        r = go([flag])
        ctx.same(r.status or 0, 0, "status", run=r)
        ctx.check(clevercsv.__version__ in r.out, "the version isn't shown", run=r)
        ctx.event("versions")


STRATA = [
    Stratum("case", case, 1500, 25000),
    Stratum("process", process_case, 24, 400),
    Stratum("refused", refused, 800, 4000),
    Stratum("information", information, 8, 16),
]
