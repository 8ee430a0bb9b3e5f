"""C30: the view and explore commands show exactly the loaded data"""

import code
import copy
import json
import os
import pickle
import re
import sys
import types

import clevercsv

from lib import cli, files, gen
from lib.engine import Stratum
from props import c25

ID = "C30"
RULE = (
    "A case is a file with a hostile name and a command line of view or "
    "explore, run in this process with a recording viewer and console or as "
    "a process with a recording viewer or a session read from standard "
    "input. What the viewer receives, and the variables of the session, are "
    "compared with the table or data frame that the library loads with the "
    "same options. Non-trivial: a dialect was detected and the table has "
    "rows; distinct by contents and options."
)
TECHNIQUE = "runtime monitoring: recording stand-ins for the viewer and the interactive console (and real sessions fed through standard input), checked against the loaded table, over generated files, names and options"
LEVEL_NOTE = "Generated files of up to some hundred kilobytes; the curses viewer is replaced by a recorder; trusts the library, which the other properties judge."
REQUIRED = [
    "tables viewed",
    "tables transposed",
    "ragged tables transposed",
    "gaps",
    "sessions with rows",
    "sessions with a data frame",
    "undetectable files",
    "failing files",
    "forced encodings",
    "numbers of characters",
    "empty tables",
    "views as processes",
    "sessions as processes",
]
BUDGET = {"quick": 400, "thorough": 2400}

VIEWED = []
SESSIONS = []
BANNERS = []

FAKE = """
__version__ = "1.5.0"
def view(data, *args, **kwargs):
    import json, os
    with open(os.environ["VF_VIEW"], "a") as f:
        json.dump([list(r) for r in data], f)
        f.write("\\n")
    return 0
"""


def view(data, *args, **kwargs):
    VIEWED.append(copy.deepcopy(data))
    return 0


def setup(env):
    import pandas  # noqa: F401

    mod = types.ModuleType("tabview")
    mod.__version__ = "1.5.0"
    mod.view = view
    inner = types.ModuleType("tabview.tabview")
    inner.view = view
    mod.tabview = inner
    sys.modules["tabview"] = mod
    sys.modules["tabview.tabview"] = inner

    def interact(self, *args, **kwargs):
        SESSIONS.append(dict(self.locals))
        BANNERS.append(kwargs.get("banner", args[0] if args else None))

    code.InteractiveConsole.interact = interact
    fake = os.path.join(env["scratch"], "fake")
    if not os.path.isdir(fake):
        os.makedirs(fake)
        with open(os.path.join(fake, "tabview.py"), "w") as f:
            f.write(FAKE)


def transposed(rows):
    n = max((len(r) for r in rows), default=0)
    return [[r[k] if k < len(r) else None for r in rows] for k in range(n)]


def ragged_file(rng):
    """Rows of different lengths, including empty ones"""
    d = rng.choice([",", ";", "\t", "|"])
    nl = rng.choice(["\n", "\r\n"])
    rows = []
    w = rng.randint(1, 6)
    for _ in range(rng.randint(1, 9)):
        n = w if rng.random() < 0.6 else rng.randint(0, 8)
        rows.append(d.join(rng.choice(["", gen.word(rng), '"%s"' % gen.word(rng), "None", "0"]) for _ in range(n)))
    return files.encode(rng, nl.join(rows) + rng.choice(["", nl]))


def prepare(ctx, rng, folder):
    data, enc, path, num, opts = c25.setup_file(ctx, rng, folder)
    if rng.random() < 0.4:
        data, enc2 = ragged_file(rng)
        with open(path, "wb") as f:
            f.write(data)
        k = [j for j, o in enumerate(opts) if o in ("-e", "--encoding")]
        if k:
            del opts[k[0] : k[0] + 2]
        enc = enc2
        if enc is not None:
            opts += ["-e", enc]
    return data, enc, path, num, opts


def failed(ctx, lib, run, info):
    undetectable = isinstance(lib.exc, clevercsv.exceptions.NoDetectionResult) or (
        lib.exc is None and lib.value is None
    )
    if undetectable:
        ctx.event("undetectable files")
        ctx.check(run.exc is None and run.status not in (0, None), "status of failed detection", **info)
        ctx.check(run.err.strip() != "", "no message about failed detection", **info)
    else:
        ctx.event("failing files")
        ctx.check(
            run.exc is not None or run.status not in (0, None),
            "the command succeeds where the library raises %r" % lib.exc,
            **info,
        )


def view_case(ctx, rng, folder, i, as_process=False):
    data, enc, path, num, opts = prepare(ctx, rng, folder)
    turn = rng.random() < 0.5
    if turn:
        opts.append(rng.choice(["-t", "--transpose"]))
    args = ["view"] + opts + (["--"] if path.startswith("-") else []) + [path]
    lib = ctx.call(clevercsv.read_table, path, num_chars=num, encoding=enc)
    del VIEWED[:]
    if as_process:
        log = os.path.join(folder, "viewed.log")
        run = cli.process(args, cwd=folder, VF_VIEW=log, PYTHONPATH=os.path.join(ctx.env["scratch"], "fake"))
        if os.path.exists(log):
            with open(log) as f:
                VIEWED.extend(json.loads(x) for x in f)
        ctx.event("views as processes")
    else:
        run = cli.inside(args)
    info = dict(args=args, content=data[:1500], library=lib, run=run)
    if lib.exc is not None:
        failed(ctx, lib, run, info)
        ctx.same(VIEWED, [], "something was shown although loading failed", **info)
        return
    if run.exc is not None:
        raise run.exc
    ctx.check(run.status in (0, None), "exit status", **info)
    ctx.same(len(VIEWED), 1, "tables shown", **info)
    got = [list(r) for r in VIEWED[0]]
    rows = lib.value
    want = transposed(rows) if turn else rows
    ctx.check(got == want, "another table is shown", shown=got, expected=want, **info)
    if turn:
        ctx.event("tables transposed")
        if len({len(r) for r in rows}) > 1:
            ctx.event("ragged tables transposed")
        gaps = sum(c is None for r in got for c in r)
        ctx.event("gaps", gaps)
        # conservation of the cells, independent of the model above
        ctx.same(sum(len(r) for r in got) - gaps, sum(len(r) for r in rows), "cells of the transposed table", **info)
    ctx.event("tables viewed")
    if not any(rows):
        ctx.event("empty tables")
    else:
        ctx.nontrivial(data, opts)
    ctx.sample((args, data[:100]))


def explore_case(ctx, rng, folder, i, as_process=False):
    data, enc, path, num, opts = prepare(ctx, rng, folder)
    pandas = rng.random() < 0.4
    if pandas:
        opts.append(rng.choice(["-p", "--pandas"]))
    args = ["explore"] + opts + (["--"] if path.startswith("-") else []) + [path]
    found = ctx.call(clevercsv.detect_dialect, path, num_chars=num, encoding=enc)
    load = clevercsv.read_dataframe if pandas else clevercsv.read_table
    lib = ctx.call(load, path, num_chars=num, encoding=enc)
    del SESSIONS[:], BANNERS[:]
    if as_process:
        log = os.path.join(folder, "session.out")
        var = "df" if pandas else "rows"
        script = "import pickle\nwith open(%r, 'wb') as vf_file: pickle.dump(%s, vf_file)\n\n" % (log, var)
        run = cli.process(args, stdin=script.encode(), cwd=folder, PYTHONIOENCODING="utf-8:surrogateescape")
        if os.path.exists(log) and os.path.getsize(log):
            with open(log, "rb") as f:
                SESSIONS.append({var: pickle.load(f)})
        ctx.event("sessions as processes")
    else:
        run = cli.inside(args)
    info = dict(args=args, content=data[:1500], library=lib, run=run)
    if found.exc is not None or found.value is None:
        failed(ctx, found, run, info)
        ctx.same(SESSIONS, [], "a session although detection failed", **info)
        return
    if run.exc is not None:
        raise run.exc
    if lib.exc is not None:
        # the file can't be loaded with its dialect
        ctx.event("failing files")
        for s in SESSIONS:
            ctx.check(("df" if pandas else "rows") not in s, "data although loading failed", session=s, **info)
        return
    ctx.check(run.status in (0, None), "exit status", **info)
    ctx.same(len(SESSIONS), 1, "sessions", **info)
    s = SESSIONS[0]
    if pandas:
        ctx.check("df" in s, "no df in the session", **info)
        if not (s["df"].equals(lib.value) and list(s["df"].columns) == list(lib.value.columns)):
            ctx.fail("another data frame in the session", loaded=s["df"].to_csv(), expected=lib.value.to_csv(), **info)
        ctx.event("sessions with a data frame")
    else:
        ctx.check("rows" in s, "no rows in the session", **info)
        ctx.check(s["rows"] == lib.value, "another table in the session", loaded=s["rows"], expected=lib.value, **info)
        ctx.event("sessions with rows")
    if BANNERS and BANNERS[-1] is not None:
        # the user is told where the data is
        ctx.check(re.search(r"\b%s\b" % ("df" if pandas else "rows"), BANNERS[-1]), "the variable isn't named", banner=BANNERS[-1], **info)
        ctx.event("banners")
    ctx.nontrivial(data, opts)
    ctx.sample((args, data[:100]))


def missing(ctx, rng, folder, i):
    cmd = ["view", "explore"][i % 2]
    path = rng.choice(["missing.csv", ".", "missing/x.csv", "a.csv/x"])
    with open("a.csv", "w") as f:
        f.write("a;b\n")
    args = [cmd] + rng.choice([[], ["-e", "utf-8"], ["-n", "5"]]) + [path]
    del VIEWED[:], SESSIONS[:]
    run = cli.inside(args)
    ctx.check(run.exc is not None or run.status not in (0, None), "success for a file that can't be opened", args=args, run=run)
    ctx.check(not VIEWED and not SESSIONS, "something was shown", args=args)
    ctx.event("failing files")


def large(ctx, rng, folder, i):
    """Large files whose last rows decide on the dialect"""
    text = gen.wide(rng, nc=20000 if i % 32 == 3 else None)[3] if i % 8 in (2, 3, 5) else gen.late(rng, rng.choice([9000, 66000, 70000, 132000]))
    keep = c25.any_file
    c25.any_file = lambda rng: (text.encode("utf-8"), rng.choice([None, "utf-8"]))
    try:
        (view_case if i % 2 else explore_case)(ctx, rng, folder, i)
    finally:
        c25.any_file = keep
    ctx.event("large files")


STRATA = [
    Stratum("view", c25.scratch(view_case), 4000, 80000),
    Stratum("explore", c25.scratch(explore_case), 3000, 60000),
    Stratum("view process", c25.scratch(lambda *a: view_case(*a, as_process=True)), 32, 600),
    Stratum("explore process", c25.scratch(lambda *a: explore_case(*a, as_process=True)), 32, 600),
    Stratum("missing", c25.scratch(missing), 40, 400),
    Stratum("large", c25.scratch(large), 80, 900),
]
