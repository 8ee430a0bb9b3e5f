"""C24: standardizing in place never damages a file, whatever fails"""

import csv
import errno
import io
import itertools
import os
import shutil
import stat
import tempfile

import clevercsv

from lib import cli, fault, gen
from lib.engine import Stratum

ID = "C24"
RULE = (
    "A case is a file, a command line of standardize, and every file "
    "operation that the run makes below its folder, crossed with every kind "
    "of fault: killed before or after it, an error (ENOSPC, EIO, EACCES, "
    "EINTR), a partial read or write that goes on, fails or is killed, the "
    "same type of operation failing from there on, an interrupt. The folder "
    "is compared with its state before and with the one that an undisturbed "
    "run leaves. Further cases hold data that can't be standardized, from "
    "some place on: too large fields, bytes that can't be decoded, "
    "characters that can't be encoded. Non-trivial: runs in which the fault was hit; distinct by "
    "contents, options, operation and kind."
)
TECHNIQUE = "runtime monitoring: exhaustive fault injection at the file operations of real runs (preloaded library), with a state monitor on the folder after each"
LEVEL = "fault_enumeration"
LEVEL_NOTE = "All operations x kinds of fault for each generated file and command line; single faults and persistent ones, no loss of power (data that the kernel has accepted counts as written)."
ASSUMPTIONS = ["the process reaches files through the C library, as CPython does"]
REQUIRED = [
    "killed before",
    "killed after",
    "error",
    "partial",
    "partial, then error",
    "partial, then killed",
    "errors from there on",
    "interrupt",
    "interrupted while reading or writing",
    "hit open",
    "hit read",
    "hit write",
    "hit close",
    "original content left",
    "new content left",
    "reported failures",
    "other output files",
    "file systems apart",
    "runs that the data makes fail",
    "data fault limit",
    "data fault undecodable",
    "data fault unencodable",
    "complete contents",
]
BUDGET = {"quick": 400, "thorough": 2400}


def snapshot(folder):
    out = {}
    for base, dirs, names in os.walk(folder):
        for n in names:
            p = os.path.join(base, n)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[os.path.relpath(p, folder)] = ("link", os.readlink(p))
                continue
            with open(p, "rb") as f:
                out[os.path.relpath(p, folder)] = (f.read(), st.st_mode & 0o7777)
    return out


def restore(folder, want):
    have = snapshot(folder)
    for n in have:
        if n not in want:
            os.unlink(os.path.join(folder, n))
    for n, v in want.items():
        if have.get(n) == v:
            continue
        p = os.path.join(folder, n)
        if os.path.lexists(p):
            os.unlink(p)
        if v[0] == "link":
            os.symlink(v[1], p)
        else:
            with open(p, "wb") as f:
                f.write(v[0])
            os.chmod(p, v[1])


def content(rng):
    big = rng.random() < 0.35
    nr = rng.randint(250, 700) if big else rng.randint(2, 6)
    d = rng.choice(gen.COMMON_D)
    q = rng.choice(["'", '"', ""])
    rows = [[gen.word(rng, 1, 8 if not big else 20) + rng.choice(["", "", " x", "\u00e9"]) for _ in range(3)] for _ in range(nr)]
    lines = []
    for r in rows:
        lines.append(d.join(q + c + q if rng.random() < 0.4 else c for c in r))
    text = rng.choice(["\n", "\r\n", "\r"]).join(lines) + "\n"
    if rng.random() < 0.12:
        text = gen.write_csv(rows)
    return text, big


def children(ctx, rng, folder, args, kinds, judge, start):
    def go():
        tempfile.tempdir = os.path.join(folder, "tmp")
        run = cli.inside(args)
        if run.exc is not None:
            raise run.exc
        return run.status

    apart = rng.random() < 0.5
    if apart:
        ctx.event("file systems apart")
    base = fault.run(go, folder, apart=apart)
    after = snapshot(folder)
    restore(folder, start)
    judge(base, after, None, None, None)
    n = len(base.ops)
    ctx.maxi("operations of a run", n)
    ctx.check(n > 5, "the file operations of the run aren't seen", args=args, ops=base.ops)
    for k in range(n):
        for kind in kinds:
            if kind in (fault.PARTIAL, fault.PARTIAL_FAIL, fault.PARTIAL_KILL) and base.ops[k] not in ("read", "write", "copy"):
                continue
            if kind in (fault.FAIL, fault.FAIL_FROM) and base.ops[k] == "seek":
                # no file system does that; Python writes utf-16 without its
                # mark then
                continue
            err = rng.choice([errno.EIO, errno.ENOSPC, errno.EIO, errno.EACCES, errno.EINTR] if kind == fault.FAIL else [errno.EIO, errno.ENOSPC])
            res = fault.run(go, folder, k, kind, err, apart)
            got = snapshot(folder)
            judge(res, got, k, kind, err, base.ops)
            if got != start:
                restore(folder, start)


def one_case(ctx, rng, i):
    folder = tempfile.mkdtemp(dir=ctx.env["scratch"])
    try:
        run_case(ctx, rng, folder)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def run_case(ctx, rng, folder):
    os.mkdir(os.path.join(folder, "tmp"))
    data = os.path.join(folder, "data")
    os.mkdir(data)
    text, big = content(rng)
    enc = rng.choice(["utf-8", "utf-8", "utf-16", "latin-1"])
    name = os.path.join("data", "in.csv")
    path = os.path.join(folder, name)
    with open(path, "wb") as f:
        f.write(text.encode(enc))
    mode = rng.choice([0o644, 0o600, 0o664, 0o755, 0o440])
    os.chmod(path, mode)
    with open(os.path.join(data, "other.csv"), "w") as f:
        f.write("bystander")
    given, link = path, None
    if rng.random() < 0.2:
        given = os.path.join(data, "link.csv")
        os.symlink("in.csv", given)
        link = os.path.relpath(given, folder)
    inplace = rng.random() < 0.75
    args = ["standardize", "-e", enc]
    if rng.random() < 0.3:
        args = ["standardize"]
    out = None
    if inplace:
        args += ["-i"]
    else:
        out = os.path.join("data", "out.csv")
        if rng.random() < 0.5:
            with open(os.path.join(folder, out), "w") as f:
                f.write("previous")
        args += ["-o", os.path.join(folder, out)]
    if big:
        args += ["-n", "300"]
    if rng.random() < 0.3:
        args += ["-t"]
    if rng.random() < 0.2:
        args += ["-E", rng.choice(["utf-8", "utf-16"])]
    args.append(given)
    start = snapshot(folder)
    old = start[name][0]
    box = {}

    def judge(res, after, k, kind, err, ops=None):
        fails = dict(args=args, content=old[:1000])
        if k is None:
            if res.exc is not None or res.value not in (0, 2):
                # e.g. an encoding recognised wrongly: nothing may change
                box["new"] = old
                box["none"] = True
            else:
                box["new"] = after[name][0]
                box["out"] = after.get(out)
        else:
            fails.update(operation=(k, ops[k], ops[max(0, k - 4) : k]), kind=fault.KINDS[kind], errno=errno.errorcode[err], result=res)
            ctx.event(fault.KINDS[kind])
            ctx.event("hit %s" % ops[k])
            ctx.nontrivial(old, args[1:-1], k, kind)
        new = box["new"]
        ctx.check(name in after, "the input file is gone", **fails)
        if not inplace:
            ctx.event("other output files")
            ctx.check(after[name] == start[name], "writing to another file modified the input", got=after[name], **fails)
            if k is not None and not res.killed and res.exc is None and res.value == 0:
                ctx.check(after.get(out, (None,))[0] == box["out"][0], "success reported, but the output isn't complete", got=after.get(out), want=box["out"], **fails)
            for n in start:
                if n != out:
                    ctx.check(after.get(n) == start[n], "%s was touched" % n, **fails)
            return
        now = after[name][0]
        ctx.check(
            now == old or now == new,
            "the file holds neither the original nor the complete new content",
            got=now,
            old=old,
            new=new,
            **fails,
        )
        ctx.same(oct(after[name][1]), oct(start[name][1]), "the permissions changed", **fails)
        for n in start:
            if n == link and res.hit == "stat" and after.get(n, (None,))[0] == new:
                # the link couldn't be followed and was replaced as a file
                return
            if n != name:
                ctx.check(after.get(n) == start[n], "%s was touched" % n, **fails)
        ctx.event("original content left" if now == old else "new content left")
        if res.killed:
            return
        strays = sorted(set(after) - set(start))
        if kind == fault.INTERRUPT:
            # Python looks at signals between operations, so only the ones in
            # the middle of the work are certain to come in its middle
            if ops[k] in ("read", "write") and (res.exc or "").startswith("KeyboardInterrupt"):
                ctx.event("interrupted while reading or writing")
                ctx.check(not strays, "an interrupted run leaves stray files %r" % strays, **fails)
            return
        failed = res.exc is not None or res.value not in (0, 2)
        if failed:
            ctx.event("reported failures")
            if res.hit != "unlink":
                ctx.check(now == old, "a failure is reported, but the file was replaced", **fails)
                ctx.check(not strays, "a reported failure leaves stray files %r" % strays, **fails)
        else:
            ctx.check(res.value != 2 or now == new != old, "reported as altered, but it isn't", **fails)
            if res.hit not in ("unlink", "stat"):
                ctx.check(res.value != 0 or old == new, "reported as left alone, but it isn't in standard form", **fails)
                ctx.check(not strays, "stray files %r" % strays, **fails)

    kinds = list(range(1, 9))
    children(ctx, rng, folder, args, kinds, judge, start)
    ctx.sample((args, fault and text[:150]))


# -- data that can't be standardized -------------------------------------------

LIMIT = 60


def by_hand(path, enc, target, turn, num):
    """The new content, or the exception that the data causes"""
    dialect = clevercsv.detect_dialect(path, encoding=enc, num_chars=num)
    if dialect is None:
        raise clevercsv.exceptions.NoDetectionResult
    with open(path, "r", newline="", encoding=enc) as f:
        rows = list(clevercsv.reader(f, dialect))
    if turn:
        rows = [list(r) for r in itertools.zip_longest(*rows, fillvalue="")]
    out = io.StringIO(newline="")
    csv.writer(out).writerows(rows)
    return out.getvalue().encode(target)


def bad_data(ctx, rng, i):
    """The data, not the system, makes a run fail, at any place of a file"""
    folder = tempfile.mkdtemp(dir=ctx.env["scratch"])
    old_limit = clevercsv.field_size_limit()
    try:
        clevercsv.field_size_limit(LIMIT)
        bad_case(ctx, rng, folder, i)
    finally:
        clevercsv.field_size_limit(old_limit)
        shutil.rmtree(folder, ignore_errors=True)


def bad_case(ctx, rng, folder, i):
    kind = ["limit", "undecodable", "nul", "unencodable", "none", "header limit"][i % 6]
    enc = rng.choice(["utf-8", "utf-8", "latin-1", "utf-16"])
    target = None
    d = rng.choice(gen.COMMON_D)
    nl = rng.choice(["\n", "\r\n"])
    nr = rng.choice([3, 5, 8, 40, 700])
    rows = [[gen.word(rng, 1, 8) for _ in range(3)] for _ in range(nr)]
    quoted = rng.random() < 0.4
    lines = [d.join('"%s"' % c if quoted else c for c in r) for r in rows]
    head = len(nl.join(lines[:2]))
    at = rng.choice([nr - 1, nr // 2, rng.randrange(2, nr)])
    bad = {
        "limit": "x" * rng.choice([LIMIT + 1, LIMIT + 50, 5000]),
        "undecodable": "\u00e9",
        "nul": "\0",
        "unencodable": rng.choice(["\u4e2d", "\U0001f600"]) if enc != "latin-1" else "\u00e9",
        "none": "y",
        "header limit": "y",
    }[kind]
    place = rng.choice(["cell", "cell", "line", "tail"])
    if place == "cell":
        k = rng.randrange(3)
        lines[at] = d.join('"%s"' % c if quoted else c for c in rows[at][:k] + [rows[at][k] + bad] + rows[at][k + 1 :])
    elif place == "line":
        lines.insert(at, bad)
    else:
        lines.append(bad)
    text = nl.join(lines) + (nl if rng.random() < 0.8 else "")
    if kind == "unencodable":
        target = "ascii" if rng.random() < 0.6 or enc == "latin-1" else "latin-1"
    data = text.encode(enc)
    if kind == "undecodable":
        data = text.replace("\u00e9", "\0\0").encode("utf-8").replace(b"\0\0", rng.choice([b"\xff", b"\xe9", b"\xe4\xb8"]))
        enc = "utf-8"
    num = head if rng.random() < 0.7 else None
    turn = rng.random() < 0.3
    inplace = rng.random() < 0.75
    path = os.path.join(folder, "in.csv")
    more = rng.random() < 0.3
    for p, c in [(path, data)] + ([(os.path.join(folder, "z.csv"), "p;q\n1;2\n3;4\n".encode(enc))] if more else []):
        with open(p, "wb") as f:
            f.write(c)
    args = ["standardize", "-e", enc]
    out = os.path.join(folder, "out.csv")
    if inplace:
        args.append("-i")
    else:
        args += ["-o", out]
        more = False
    if num is not None:
        args += ["-n", str(num)]
    if turn:
        args.append("-t")
    if target:
        args += ["-E", target]
    args.append(path)
    if more:
        args.append(os.path.join(folder, "z.csv"))
    start = snapshot(folder)
    want = ctx.call(by_hand, path, enc, target or enc, turn, num)
    run = cli.inside(args)
    after = snapshot(folder)
    info = dict(args=args, content=data[:1500], result=run, kind=kind, place=place, by_hand=want)
    ctx.event("data fault " + kind)
    ctx.same(oct(after["in.csv"][1]), oct(start["in.csv"][1]), "the permissions changed", **info)
    if want.exc is not None:
        ctx.event("runs that the data makes fail")
        ctx.check(run.exc is not None or run.status not in (0, 2, None), "success for data that can't be standardized", **info)
        ctx.same(after["in.csv"], start["in.csv"], "a failing run changed the file", **info)
        if inplace:
            ctx.same({n for n in after}, {n for n in start}, "files after a failing run", **info)
    elif inplace:
        if run.exc is not None:
            raise run.exc
        ctx.same(after["in.csv"][0], want.value, "the file doesn't hold the complete new content", **info)
        ctx.same({n for n in after}, {n for n in start}, "files after the run", **info)
        ctx.event("complete contents")
    else:
        ctx.same(after["in.csv"], start["in.csv"], "writing to another file modified the input", **info)
        ctx.same(after.get("out.csv", (None,))[0], want.value, "the output isn't complete", **info)
        ctx.event("complete contents")
    ctx.nontrivial(data, args[1:])


STRATA = [
    Stratum("run", one_case, 80, 800),
    Stratum("bad_data", bad_data, 600, 12000),
]
