"""C34: runs touch only their own files and don't disturb each other"""

import json
import os
import shutil
import stat
import sys
import tempfile

import clevercsv
from clevercsv import wrappers

from lib import cli, files, gen
from lib.engine import Inconclusive, Stratum

ID = "C34"
RULE = (
    "A case is a folder with files, and commands or functions that work on "
    "different files of it. Each is run alone first. Then one is run and at "
    "one of its file operations, each in turn, a process does the other one "
    "as a whole; or several processes work at the same time; or the names of "
    "all files that the run creates on its way are taken by other files. "
    "Results and the folder are compared with the runs alone. Non-trivial: "
    "the other run happened in between; distinct by files, operations and "
    "point."
)
TECHNIQUE = "runtime monitoring: audit events of file operations as schedule points where another process runs, with a state monitor on the folder and results compared with the runs alone"
LEVEL_NOTE = "Two operations, with one as a whole between two file operations of the other, at up to 16 points; parallel runs as the scheduler has them."
REQUIRED = [
    "runs in between",
    "in between standardize -i",
    "in between writing",
    "names taken",
    "folders compared",
    "parallel processes",
    "temporary folders compared",
]
BUDGET = {"quick": 240, "thorough": 2000}

STATE = {"root": None, "log": None, "at": None, "do": None, "n": 0}


def hook(event, args):
    root = STATE["root"]
    if root is None or not (event == "open" or event.startswith(("os.", "shutil.", "tempfile."))):
        return
    if not args or not isinstance(args[0], (str, bytes)):
        return
    path = os.fsdecode(args[0])
    if not path.startswith(root):
        return
    STATE["log"].append((event, path, args[2] if event == "open" else None))
    n = STATE["n"]
    STATE["n"] = n + 1
    if n == STATE["at"]:
        STATE["root"] = None
        try:
            STATE["do"]()
        finally:
            STATE["root"] = root


def worker_setup(env):
    import pandas  # noqa: F401

    sys.addaudithook(hook)


def snapshot(folder):
    out = {}
    for base, dirs, names in os.walk(folder):
        for n in dirs:
            out[os.path.relpath(os.path.join(base, n), folder)] = ("folder",)
        for n in names:
            p = os.path.join(base, n)
            st = os.lstat(p)
            with open(p, "rb") as f:
                out[os.path.relpath(p, folder)] = (f.read(), stat.S_IMODE(st.st_mode))
    return out


def fill(folder, start):
    shutil.rmtree(folder, ignore_errors=True)
    os.mkdir(folder)
    for n in sorted(start):
        p = os.path.join(folder, n)
        if start[n] == ("folder",):
            os.mkdir(p)
        else:
            with open(p, "wb") as f:
                f.write(start[n][0])
            os.chmod(p, start[n][1])


def changes(before, after):
    return {n: after.get(n) for n in set(before) | set(after) if before.get(n) != after.get(n)}


def operation(rng, folder, name, enc):
    """[name, arguments] of something to do with a file"""
    path = os.path.join(folder, name)
    out = os.path.join(folder, "out_" + name)
    e = ["-e", enc] if enc else []
    k = rng.randint(0, 11)
    if k <= 3:
        return ["cli", ["standardize", "-i"] + rng.choice([[], ["-t"]]) + e + [path]]
    if k == 4:
        return ["cli", ["standardize", "-o", out] + e + [path]]
    if k == 5:
        return ["cli", [rng.choice(["detect", "code", "standardize"])] + e + [path]]
    if k in (6, 7):
        rows = [[gen.word(rng) for _ in range(3)] for _ in range(rng.choice([2, 5, 3000]))]
        return [rng.choice(["write_table", "write_dicts"]), [rows, rng.choice([path, out])]]
    return [rng.choice(["read_table", "stream_table", "read_dicts", "read_dataframe", "detect_dialect", "get_encoding"]), [path, enc]]


def do(op):
    """Do it; the outcome can be written as JSON"""
    name, args = op
    try:
        if name == "cli":
            r = cli.inside(args)
            return [r.status, repr(r.exc), r.out, r.err]
        if name == "write_table":
            return repr(wrappers.write_table(args[0], args[1], encoding="utf-8"))
        if name == "write_dicts":
            rows = [dict(zip("abc", r)) for r in args[0]]
            return repr(wrappers.write_dicts(rows, args[1], encoding="utf-8"))
        path, enc = args
        if name == "get_encoding":
            from clevercsv.encoding import get_encoding

            return get_encoding(path)
        kw = {"encoding": enc} if enc else {}
        v = getattr(clevercsv, name)(path, **kw)
        if name == "read_dataframe":
            return v.to_csv()
        return repr(list(v) if name.startswith("stream") else v)
    except Exception as e:
        return [type(e).__name__, str(e)]


def fork(fn):
    """fn() in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "w") as f:
                json.dump(fn(), f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    _, status = os.waitpid(pid, 0)
    if status:
        raise Inconclusive("the process in between ended with %r" % status)
    return json.loads(text)


def watched(folder, op, at=None, fn=None):
    """Outcome and file operations of a run"""
    old = tempfile.tempdir
    tempfile.tempdir = os.path.join(folder, "tmp")
    STATE.update(root=folder, log=[], at=at, do=fn, n=0)
    try:
        res = do(op)
    finally:
        STATE["root"] = None
        tempfile.tempdir = old
    return json.loads(json.dumps(res)), STATE["log"]


def make(rng, folder, n):
    """Files of a folder, and what to do with each of them"""
    os.mkdir(folder)
    os.mkdir(os.path.join(folder, "tmp"))
    os.mkdir(os.path.join(folder, "sub"))
    ops = []
    for k in range(n):
        if rng.random() < 0.6:
            rows = [[gen.word(rng) for _ in range(3)] for _ in range(rng.choice([3, 8, 8, 2500]))]
            text = gen.write_csv(rows, delimiter=rng.choice(gen.COMMON_D), quoting=rng.choice([0, 1]), lineterminator=rng.choice(["\n", "\r\n", "\r"]))
        else:
            text = files.content(rng)
        data, enc = files.encode(rng, text)
        name = "f%d.csv" % k
        p = os.path.join(folder, name)
        with open(p, "wb") as f:
            f.write(data)
        os.chmod(p, rng.choice([0o644, 0o600, 0o664]))
        ops.append(operation(rng, folder, name, enc))
    for name in ("notes.txt", "sub/f0.csv", "f0.csv.bak", "out.csv"):
        with open(os.path.join(folder, name), "w") as f:
            f.write("a;b\n" + gen.word(rng) + ";2\n")
    return ops


def allowed(op, name):
    """May the operation change that file?"""
    kind, args = op
    if kind == "cli":
        if args[0] == "standardize" and "-i" in args:
            return name == os.path.basename(args[-1])
        if "-o" in args:
            return name == os.path.basename(args[args.index("-o") + 1])
        return False
    if kind.startswith("write"):
        return name == os.path.basename(args[1])
    return False


def alone(ctx, folder, start, op):
    fill(folder, start)
    res, log = watched(folder, op)
    diff = changes(start, snapshot(folder))
    for n in diff:
        ctx.check(allowed(op, n), "%s was created, changed or removed" % n, op=op, outcome=res)
    ctx.event("folders compared")
    ctx.event("temporary folders compared")
    return res, log, diff


def short(op):
    return [op[0], [a if isinstance(a, str) else None for a in op[1]]]


def in_between(ctx, rng, i):
    top = tempfile.mkdtemp(dir=ctx.env["scratch"])
    folder = os.path.join(top, "d")
    try:
        a, b = make(rng, folder, 2)
        start = snapshot(folder)
        if rng.random() < 0.3:
            # the same operation on the other file
            b = [a[0], [x.replace("f0.csv", "f1.csv") if isinstance(x, str) else x for x in a[1]]]
        resb, _, diffb = alone(ctx, folder, start, b)
        resa, log, diffa = alone(ctx, folder, start, a)
        want = dict(start)
        want.update(diffa)
        want.update(diffb)
        want = {n: v for n, v in want.items() if v is not None}
        points = list(range(len(log)))
        ctx.maxi("file operations of a run", len(log))
        if len(points) > 16:
            points = sorted(rng.sample(points, 16))
        for k in points:
            fill(folder, start)
            box = []
            got, log2 = watched(folder, a, k, lambda: box.append(fork(lambda: do(b))))
            info = dict(a=short(a), b=short(b), point=log[k][:2])
            if not box:
                ctx.event("points not reached")
                continue
            ctx.same(got, resa, "outcome with another run in between", **info)
            ctx.same(box[0], resb, "outcome of the run in between", **info)
            after = snapshot(folder)
            if after != want:
                ctx.fail("files after both runs", differ=changes(want, after), **info)
            ctx.event("runs in between")
            if "-i" in a[1]:
                ctx.event("in between standardize -i")
            if a[0].startswith("write") or "-o" in a[1]:
                ctx.event("in between writing")
            ctx.nontrivial(short(a), short(b), k, start["f0.csv"][0], start["f1.csv"][0])
        ctx.sample((short(a), short(b), len(points)))
    finally:
        shutil.rmtree(top, ignore_errors=True)


def taken(ctx, rng, i):
    """Files with the names that the run uses on its way"""
    top = tempfile.mkdtemp(dir=ctx.env["scratch"])
    folder = os.path.join(top, "d")
    try:
        (a,) = make(rng, folder, 1)
        start = snapshot(folder)
        res, log, diff = alone(ctx, folder, start, a)
        names = set()
        for event, path, flags in log:
            n = os.path.relpath(path, folder)
            if not n.startswith("..") and not allowed(a, n) and n not in start:
                names.add(n)
        p = os.path.basename(a[1][-1]) if isinstance(a[1][-1], str) else "f0.csv"
        for n in (p + ".tmp", p + "~", p + ".bak", "." + p, "." + p + ".swp", p + ".new", "clevercsv_.csv", "tmp/clevercsv_.csv", "tmp/" + p, p + ".orig", p + ".lock"):
            if rng.random() < 0.7:
                names.add(n)
        more = dict(start)
        for n in names:
            if n not in more and not allowed(a, n):
                more[n] = (b"x;y\n1;2\n" + n.encode(), 0o644)
        fill(folder, more)
        got, _ = watched(folder, a)
        info = dict(op=short(a), names=sorted(names))
        ctx.same(got, res, "outcome with other files in the folder", **info)
        want = dict(more)
        want.update(diff)
        after = snapshot(folder)
        if after != want:
            ctx.fail("other files in the folder", differ=changes(want, after), **info)
        ctx.event("names taken")
        ctx.event("folders compared")
        if len(names) > 1:
            ctx.nontrivial("taken", short(a), tuple(sorted(names)), start["f0.csv"][0])
    finally:
        shutil.rmtree(top, ignore_errors=True)


def parallel(ctx, rng, i):
    """Several processes at the same time, started together"""
    top = tempfile.mkdtemp(dir=ctx.env["scratch"])
    folder = os.path.join(top, "d")
    try:
        ops = make(rng, folder, 6)
        start = snapshot(folder)
        want = dict(start)
        alones = []
        for op in ops:
            res, _, diff = alone(ctx, folder, start, op)
            alones.append(res)
            want.update(diff)
        fill(folder, start)
        pids = []
        gr, gw = os.pipe()
        for op in ops:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    tempfile.tempdir = os.path.join(folder, "tmp")
                    os.close(gw)
                    os.read(gr, 1)
                    out = json.dumps(do(op))
                    with os.fdopen(w, "w") as f:
                        f.write(out)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            pids.append((pid, r))
        os.close(gr)
        os.close(gw)
        outs = []
        for pid, r in pids:
            with os.fdopen(r) as f:
                outs.append(f.read())
            _, status = os.waitpid(pid, 0)
            if status:
                raise Inconclusive("a process ended with %r" % status)
        for op, w, g in zip(ops, alones, outs):
            ctx.same(json.loads(g), w, "outcome of a run among others", op=short(op), others=[short(o) for o in ops])
            ctx.event("parallel processes")
        after = snapshot(folder)
        want = {n: v for n, v in want.items() if v is not None}
        if after != want:
            ctx.fail("files after parallel runs", differ=changes(want, after), ops=[short(o) for o in ops])
        ctx.event("folders compared")
        ctx.nontrivial("parallel", tuple(map(repr, map(short, ops))), tuple(sorted(start.items())))
    finally:
        shutil.rmtree(top, ignore_errors=True)


STRATA = [
    Stratum("in_between", in_between, 500, 8000),
    Stratum("taken", taken, 500, 8000),
    Stratum("parallel", parallel, 120, 2500),
]
