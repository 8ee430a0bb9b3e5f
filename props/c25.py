"""C25: the detect and code commands say what the library does"""

import ast
import json
import os
import re
import shutil
import sys
import tempfile

import clevercsv
from clevercsv.dialect import SimpleDialect

from lib import cli, files, gen
from lib.engine import Stratum

ID = "C25"
RULE = (
    "A case is a file with a hostile name and a command line of detect or "
    "code, run in this process or as a process. The output of detect is "
    "parsed back into a dialect and compared with the one that the library "
    "detects with the same options; the output of code is executed and the "
    "table compared with the one that the library loads; failures are "
    "compared with those of the library. Non-trivial: a dialect was "
    "detected; distinct by contents and options."
)
TECHNIQUE = "runtime monitoring: the output of real commands is parsed or executed and compared with the library's results, over generated files, names and options"
LEVEL_NOTE = "Generated files of up to some hundred kilobytes and file names with quotes, backslashes, line ends, braces and bytes that aren't text; trusts the library, which the other properties judge."
REQUIRED = [
    "default format",
    "methods disagree",
    "plain format",
    "json format",
    "runtimes",
    "tables",
    "data frames",
    "undetectable files",
    "failing files",
    "empty delimiters",
    "whitespace delimiters",
    "wide delimiters",
    "quote characters",
    "escape characters",
    "forced encodings",
    "run as processes",
    "numbers of characters",
]
BUDGET = {"quick": 400, "thorough": 2400}

NAMES = [
    "a.csv",
    "b c.csv",
    "quote\".csv",
    "it's.csv",
    "back\\slash.csv",
    "n\\new\\t.csv",
    "new\nline.csv",
    "tab\t.csv",
    "ret\rurn.csv",
    "{brace}.csv",
    "%s%d.csv",
    "\u00e9\u4e2d.csv",
    "\U0001f600.csv",
    "\u2028.csv",
    "\udcff.csv",
    "\x01\x7f.csv",
    "\\u00e9.csv",
    "\\",
    "-p.csv",
    "\"\"\".csv",
    "#.csv",
    "\\\".csv",
    " ",
    "$HOME.csv",
    "a" * 120 + ".csv",
    "\U0001f600" * 50 + ".csv",
    "\u00e9" * 110 + "\U0001f600.csv",
    "\udcff" * 200 + ".csv",
    "it's \"q\" \\" * 20 + ".csv",
]


def any_file(rng):
    r = rng.random()
    if r < 0.12:
        return files.encode(rng, gen.ambiguous(rng))
    if r < 0.55:
        return files.encode(rng, files.content(rng))
    if r < 0.62:
        # no delimiter: one column
        text = "\n".join(rng.choice(['"%s"', "%s"]) % gen.word(rng) for _ in range(rng.randint(1, 6)))
        return files.encode(rng, text)
    if r < 0.66:
        return rng.choice([b"", b"\n", b"\0", b"a,b\n\0", b"\xff\xfe", b"\xef\xbb\xbf", bytes(rng.randrange(256) for _ in range(30))]), rng.choice([None, "utf-8", "ascii", "nonsense"])
    d = rng.choice([";", ",", "\t", " ", "|", "^", "\u00a6", "\u3001", "\U0001f600", "-", "~", "\x1f", "\\", "'", "/", "\x85", "\u2028", ":", "\xa0"])
    q = rng.choice(["", '"', "'", "`", "~"])
    e = rng.choice(["", "", "\\", "/", "@"])
    nl = rng.choice(["\n", "\r\n", "\r"])
    rows = []
    for _ in range(rng.randint(2, 7)):
        row = []
        for _ in range(3):
            c = gen.word(rng)
            if q and rng.random() < 0.4:
                c = q + c + rng.choice(["", d, nl, q + q]) + q
            elif e and rng.random() < 0.3:
                c = c + e + d + "x"
            row.append(c)
        rows.append(d.join(row))
    return files.encode(rng, nl.join(rows) + nl)


def classify(ctx, d):
    if d.delimiter == "":
        ctx.event("empty delimiters")
    elif d.delimiter.isspace():
        ctx.event("whitespace delimiters")
    elif ord(d.delimiter) > 127:
        ctx.event("wide delimiters")
    if d.quotechar:
        ctx.event("quote characters")
    if d.escapechar:
        ctx.event("escape characters")


def run_command(ctx, args, as_process, folder):
    if as_process:
        ctx.event("run as processes")
        run = cli.process(args, cwd=folder, PYTHONIOENCODING="utf-8:strict")
        run.out = run.out.decode("utf-8")
        return run
    return cli.inside(args)


def scratch(fn):
    def case(ctx, rng, i):
        folder = tempfile.mkdtemp(dir=ctx.env["scratch"])
        cwd = os.getcwd()
        try:
            os.chdir(folder)
            fn(ctx, rng, folder, i)
        finally:
            os.chdir(cwd)
            shutil.rmtree(folder, ignore_errors=True)

    return case


def setup_file(ctx, rng, folder):
    data, enc = any_file(rng)
    name = rng.choice(NAMES)
    r = rng.random()
    if r < 0.45:
        path = name
    elif r < 0.9:
        path = os.path.join(folder, name)
    else:
        # a deep folder
        path = os.path.join(folder, *[rng.choice(["d", "long" * 10, "\U0001f600\u00e9", "x y"]) for _ in range(rng.randint(1, 20))], name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if rng.random() < 0.5:
            path = os.path.relpath(path, folder)
    with open(path, "wb") as f:
        f.write(data)
    opts = []
    if enc is not None:
        opts += [rng.choice(["-e", "--encoding"]), enc]
        ctx.event("forced encodings")
    num = rng.choice([None, None, rng.choice([1, 5, 20, 60, 1000, 0, 65536, 10**6])])
    if num is not None:
        opts += [rng.choice(["-n", "--num-chars"]), str(num)]
        ctx.event("numbers of characters")
    return data, enc, path, num, opts


def failed(ctx, lib, run, info):
    """Judges a run for which the library gives no result"""
    if lib.exc is None:
        ctx.event("undetectable files")
        ctx.check(run.exc is None and run.status == 1, "status of failed detection", **info)
        ctx.check(run.err.strip() != "", "no message about failed detection", **info)
        ctx.check(not run.out.strip(), "output despite failed detection", **info)
    else:
        ctx.event("failing files")
        ctx.check(
            run.exc is not None or run.status not in (0, None),
            "the command succeeds where the library raises %r" % lib.exc,
            **info,
        )


def detect_case(ctx, rng, folder, i, as_process=False):
    data, enc, path, num, opts = setup_file(ctx, rng, folder)
    method, skip = "auto", True
    if rng.random() < 0.3:
        opts.append(rng.choice(["-c", "--consistency"]))
        method = "consistency"
    if rng.random() < 0.3:
        opts.append("--no-skip")
        skip = False
    fmt = rng.choice(["", "-p", "--plain", "-j", "--json"])
    if fmt:
        opts.append(fmt)
    runtime = rng.random() < 0.3
    if runtime:
        opts.append("--add-runtime")
    args = ["detect"] + opts + (["--"] if path.startswith("-") else []) + [path]
    lib = ctx.call(
        clevercsv.detect_dialect,
        path,
        num_chars=num,
        encoding=enc,
        method=method,
        skip=skip,
    )
    run = run_command(ctx, args, as_process, folder)
    info = dict(args=args, content=data[:1500], library=lib, run=run)
    if lib.exc is not None or lib.value is None:
        failed(ctx, lib, run, info)
        return
    if run.exc is not None:
        raise run.exc
    want = lib.value
    if clevercsv.detect_dialect(path, num_chars=num, encoding=enc, method="auto" if method != "auto" else "consistency") != want:
        ctx.event("methods disagree")
    ctx.same(run.status, 0, "exit status", **info)
    out = run.out
    if fmt in ("-j", "--json"):
        ctx.event("json format")
        d = json.loads(out)
        if runtime:
            t = d.pop("runtime")
            ctx.check(isinstance(t, float) and 0 <= t < 600, "runtime %r" % t, **info)
        ctx.same(set(d), {"delimiter", "quotechar", "escapechar", "strict"}, "keys of the JSON object", **info)
        got = SimpleDialect(d["delimiter"], d["quotechar"], d["escapechar"], strict=d["strict"])
    elif fmt:
        ctx.event("plain format")
        lines = out.split("\n")
        ctx.check(lines[-1] == "", "the output doesn't end in a line end", **info)
        lines.pop()
        if runtime:
            m = re.fullmatch(r"runtime = ([0-9.e-]+)", lines.pop())
            ctx.check(m is not None and 0 <= float(m.group(1)) < 600, "runtime", **info)
        vals = {}
        ctx.same(len(lines), 3, "lines of the plain output", **info)
        for line in lines:
            m = re.fullmatch(r"(?s)(\w+) =(?: (.+))?", line)
            ctx.check(m is not None, "line %r" % line, **info)
            vals[m.group(1)] = m.group(2) or ""
        got = SimpleDialect(vals["delimiter"], vals["quotechar"], vals["escapechar"])
    else:
        ctx.event("default format")
        lines = out.split("\n")
        m = re.fullmatch(r"(?s)Detected: SimpleDialect(\(.*\))", lines[0])
        ctx.check(m is not None, "the default output", **info)
        vals = ast.literal_eval(m.group(1))
        got = SimpleDialect(*vals)
        if runtime:
            ctx.check(re.fullmatch(r"Runtime: \d+\.\d+ seconds", lines[1]) is not None, "the runtime", **info)
        ctx.same(lines[2 if runtime else 1 :], [""], "lines after the dialect", **info)
    if runtime:
        ctx.event("runtimes")
    if got != want:
        ctx.fail("the command reports another dialect", got=got, want=want, **info)
    classify(ctx, want)
    ctx.nontrivial(data, opts)
    ctx.sample((args, data[:100]))


def code_case(ctx, rng, folder, i, as_process=False):
    data, enc, path, num, opts = setup_file(ctx, rng, folder)
    pandas = rng.random() < 0.4
    if pandas:
        opts.append(rng.choice(["-p", "--pandas"]))
    args = ["code"] + opts + (["--"] if path.startswith("-") else []) + [path]
    found = ctx.call(clevercsv.detect_dialect, path, num_chars=num, encoding=enc)
    run = run_command(ctx, args, as_process, folder)
    info = dict(args=args, content=data[:1500], library=found, run=run)
    if found.exc is not None or found.value is None:
        failed(ctx, found, run, info)
        return
    if run.exc is not None:
        raise run.exc
    ctx.same(run.status, 0, "exit status", **info)
    source = run.out
    if as_process:
        # as a file that Python reads
        script = os.path.join(folder, "script.py")
        with open(script, "w", encoding="utf-8", newline="") as f:
            f.write(source)
        with open(script, "rb") as f:
            source = f.read()
    try:
        compiled = compile(source, "generated", "exec")
    except (SyntaxError, ValueError, UnicodeError) as e:
        ctx.fail("the generated code isn't valid Python: %s" % e, **info)
    ns = {}
    ran = ctx.call(exec, compiled, ns)
    if pandas:
        want = ctx.call(clevercsv.read_dataframe, path, num_chars=num, encoding=enc)
    else:
        want = ctx.call(clevercsv.read_table, path, num_chars=num, encoding=enc)
    info["loaded"] = want
    if want.exc is not None:
        if pandas and found.value.delimiter == "":
            # to_csv_dialect needs a delimiter, and so does pandas
            ctx.event("empty delimiters")
        ctx.check(ran.exc is not None, "the generated code succeeds where the library fails", ran=ran, **info)
        ctx.event("failing files")
        return
    ctx.check(ran.exc is None, "the generated code fails with %r" % ran.exc, **info)
    if pandas:
        ctx.event("data frames")
        ctx.check("df" in ns, "no df", **info)
        if not (ns["df"].equals(want.value) and list(ns["df"].columns) == list(want.value.columns)):
            ctx.fail("the generated code loads another data frame", got=ns["df"].to_csv(), want=want.value.to_csv(), **info)
    else:
        ctx.event("tables")
        if ns.get("rows") != want.value:
            ctx.fail("the generated code loads another table", got=ns.get("rows"), want=want.value, **info)
    classify(ctx, found.value)
    ctx.nontrivial(data, opts)
    ctx.sample((args, data[:100]))


def missing(ctx, rng, folder, i):
    """Files that aren't there or can't be opened"""
    cmd = ["detect", "code"][i % 2]
    path = rng.choice(["missing.csv", ".", "missing/x.csv", "a.csv/x"])
    with open("a.csv", "w") as f:
        f.write("a;b\n")
    args = [cmd] + rng.choice([[], ["-e", "utf-8"]]) + [path]
    run = run_command(ctx, args, i % 10 == 9, folder)
    ctx.check(run.exc is not None or run.status not in (0, None), "success for a file that can't be opened", args=args, run=run)
    ctx.check(not run.out.strip(), "output for a file that can't be opened", args=args, run=run)
    ctx.check(run.exc is not None or run.err.strip(), "no message", args=args, run=run)
    ctx.event("failing files")


def setup(env):
    import pandas  # noqa: F401


def large(ctx, rng, folder, i):
    """Large files whose last rows decide on the dialect"""
    text = gen.wide(rng)[3] if i % 3 == 2 else gen.late(rng)
    global any_file
    keep = any_file
    any_file = lambda rng: (text.encode("utf-8"), rng.choice([None, "utf-8"]))
    try:
        (detect_case if i % 2 else code_case)(ctx, rng, folder, i)
    finally:
        any_file = keep
    ctx.event("large files")


STRATA = [
    Stratum("detect", scratch(detect_case), 4000, 60000),
    Stratum("code", scratch(code_case), 3000, 50000),
    Stratum("detect process", scratch(lambda *a: detect_case(*a, as_process=True)), 40, 1000),
    Stratum("code process", scratch(lambda *a: code_case(*a, as_process=True)), 40, 1000),
    Stratum("missing", scratch(missing), 40, 400),
    Stratum("large", scratch(large), 32, 400),
]
