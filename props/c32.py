"""C32: verbose output is true, and nothing else is printed"""

import contextlib
import io
import os
import re
import shutil
import tempfile
import warnings

import clevercsv
from clevercsv.break_ties import tie_breaker
from clevercsv.consistency import ConsistencyDetector
from clevercsv.consistency import detect_dialect_consistency
from clevercsv.detect import DetectionMethod, Detector
from clevercsv.detect_pattern import pattern_score
from clevercsv.detect_type import TypeDetector, type_score
from clevercsv.dialect import SimpleDialect
from clevercsv.encoding import get_encoding
from clevercsv.normal_form import detect_dialect_normal
from clevercsv.potential_dialects import get_dialects
from clevercsv.wrappers import write_dicts

from lib import cli, files, gen
from lib.engine import Stratum
from lib.models import dialects as M

ID = "C32"
RULE = (
    "A case is a sample and options for detection, a file and a loading "
    "function or a command; the work is done with and without verbose mode "
    "while standard output and error are recorded. The records are judged "
    "against the result, the models of the normal forms and candidates, and "
    "the scores. Non-trivial: progress of scoring was printed; distinct by "
    "sample and options."
)
TECHNIQUE = "runtime monitoring: recorded standard output and error checked against the result, the candidates, their scores and the paired execution without verbose mode"
LEVEL_NOTE = "Random samples, files and options; of the wording only dialects, numbers and order are judged. Warnings are not output."
REQUIRED = [
    "silent calls",
    "silent failures",
    "scores printed",
    "skips printed",
    "forms printed",
    "detections without normal form",
    "verbose loads",
    "verbose commands",
    "methods compared",
]
BUDGET = {"quick": 300, "thorough": 2400}


def record(fn, *args, **kw):
    """(outcome, stdout, stderr) of a call"""
    out, err = io.StringIO(newline=""), io.StringIO(newline="")
    value = exc = None
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                value = fn(*args, **kw)
            except Exception as e:
                exc = e
    what = ("ok", value) if exc is None else ("exc", type(exc).__name__, str(exc))
    return what, out.getvalue(), err.getvalue()


def silent(ctx, what, fn, *args, **kw):
    got, out, err = record(fn, *args, **kw)
    if out or err:
        ctx.fail("%s prints something" % what, stdout=out, stderr=err, args=args, kw=kw)
    ctx.event("silent calls")
    if got[0] == "exc":
        ctx.event("silent failures")
    return got


NUM = r"(-?[0-9.]+(?:e[+-]?[0-9]+)?)"
LINE = re.compile(r"\s*(\S.*\))\s*:\s*P\s*=\s*" + NUM + r"\s*(?:T\s*=\s*" + NUM + r"\s*Q\s*=\s*" + NUM + r"|\S*skip\S*)\s*\Z")


def close(a, b):
    return abs(float(a) - b) <= 2e-6 * max(1, abs(b))


def judge(ctx, out, text, delims, skip, result, form, consistency, **info):
    """out: what was printed; form: a model result, None or False (not run)"""
    info.update(stdout=out, text=text, delimiters=delims)
    scored = {}
    rest = []
    for line in out.split("\n"):
        m = LINE.match(line)
        if m:
            ctx.check(m.group(1) not in scored, "a dialect is reported twice", line=line, **info)
            scored[m.group(1)] = m.groups()[1:]
            ctx.check(consistency, "scores without scoring", line=line, **info)
        else:
            rest.append(line)
    said = re.findall(r"(?i)form\s+(\d)\b", "\n".join(rest))
    if form:
        ctx.same(said, [str(form[0])], "the normal form that is reported", **info)
        ctx.event("forms printed")
    else:
        ctx.same(said, [], "a normal form is reported", **info)
        if form is None:
            ctx.event("detections without normal form")
    if not consistency:
        return
    want = {repr(d): s for d, s in ConsistencyDetector(skip=False).compute_consistency_scores(text, get_dialects(text, delimiters=delims)).items()}
    ctx.same(sorted(scored), sorted(want), "dialects that are reported", **info)
    best = max(s.Q for s in want.values())
    for name, (p, t, q) in scored.items():
        s = want[name]
        ctx.check(close(p, s.P), "pattern score that is reported", candidate=name, want=s, **info)
        if t is None:
            ctx.check(skip, "skipped without skipping", candidate=name, **info)
            ctx.check(s.P < best, "the best dialect is reported as skipped", candidate=name, want=s, **info)
            ctx.event("skips printed")
        else:
            ctx.check(close(t, s.T) and close(q, s.Q), "scores that are reported", candidate=name, want=s, **info)
            ctx.event("scores printed")
    if result is not None:
        s = want[repr(result)]
        ctx.check(close(best, s.Q), "the result isn't the best that is reported", result=result, **info)
    ctx.nontrivial(text, delims, skip)


def options(rng):
    delims = None
    if rng.random() < 0.3:
        delims = rng.sample([",", ";", "|", "\t", " ", ":", "-", "a"], rng.randint(1, 4))
    return delims, rng.random() < 0.7


def detection(ctx, rng, i):
    text = gen.sample_text(rng)
    delims, skip = options(rng)
    method = rng.choice(["auto", "normal", "consistency", "auto"])
    given = method if rng.random() < 0.5 else DetectionMethod(method)
    kw = dict(delimiters=delims, method=given, skip=skip)
    quiet, loud = Detector(), Detector()
    want = silent(ctx, "Detector.detect", quiet.detect, text, **kw)
    got, out, err = record(loud.detect, text, verbose=True, **kw)
    info = dict(text=text, options=kw)
    ctx.same(got, want, "verbose mode changes the result", **info)
    ctx.same(err, "", "verbose mode writes to standard error", **info)
    ctx.check(got[0] == "ok", "detection fails", got=got, **info)
    ctx.check(out.strip() and out.endswith("\n"), "verbose mode prints nothing", **info)
    normal = method != "consistency"
    form = M.normal_form(text, delims) if normal else False
    consistency = method == "consistency" or (method == "auto" and form is None)
    judge(ctx, out, text, delims, skip, got[1], form, consistency, method=method)
    done = "consistency" if consistency else "normal"
    ctx.same((quiet.method_, loud.method_), (DetectionMethod(done),) * 2, "the method that was used", **info)
    ctx.event("methods compared")
    if i % 4 == 0:
        # the functions underneath, and the drop-in name
        got, out, err = record(detect_dialect_normal, text, delimiters=delims, verbose=True)
        judge(ctx, out, text, delims, skip, got[1], M.normal_form(text, delims), False)
        for f in (
            lambda: detect_dialect_consistency(text, delims, skip=skip, verbose=True),
            lambda: ConsistencyDetector(skip=skip, verbose=True).detect(text, delims),
        ):
            got, out, err = record(f)
            judge(ctx, out, text, delims, skip, got[1], False, True)
        want = silent(ctx, "Sniffer.sniff", clevercsv.Sniffer().sniff, text, delimiters=delims)
        got, out, err = record(clevercsv.Sniffer().sniff, text, delimiters=delims, verbose=True)
        ctx.same(got, want, "verbose mode changes the result", **info)
        form = M.normal_form(text, delims)
        judge(ctx, out, text, delims, True, got[1], form, form is None)
    ctx.sample((text, kw, out[-200:]))


def library(ctx, rng, i):
    """Everything else is silent"""
    text = gen.sample_text(rng) if rng.random() < 0.8 else gen.noise(rng, 30)
    d, q, e = gen.dialect_chars(rng)
    sd = SimpleDialect(d, q, e, strict=rng.random() < 0.3)
    ds = get_dialects(text)
    calls = [
        ("reader", lambda: list(clevercsv.reader(io.StringIO(text, newline=""), sd))),
        ("reader", lambda: list(clevercsv.reader(text.split("\n") + [None]))),
        ("reader", lambda: clevercsv.reader([], delimiter="ab")),
        ("DictReader", lambda: [dict(x) for x in clevercsv.DictReader(io.StringIO(text, newline=""), dialect=sd)]),
        ("has_header", lambda: clevercsv.Sniffer().has_header(text)),
        ("get_dialects", lambda: len(get_dialects(text, test_masked_by_quotes=True))),
        ("tie_breaker", lambda: tie_breaker(text, sorted(ds)[: rng.randint(2, 4)])),
        ("pattern_score", lambda: pattern_score(text, sd)),
        ("type_score", lambda: type_score(text, sd)),
        ("TypeDetector", lambda: [TypeDetector().detect_type(c) for c in text.split(",")]),
        ("detect_dialect_normal", lambda: detect_dialect_normal(text)),
        ("detect_dialect_consistency", lambda: detect_dialect_consistency(text)),
        ("ConsistencyDetector", lambda: ConsistencyDetector().detect(text)),
        ("serialize", lambda: SimpleDialect.deserialize(sd.serialize())),
        ("validate", lambda: SimpleDialect("ab", None, "").validate()),
        ("field_size_limit", lambda: clevercsv.field_size_limit("x")),
        ("writer", lambda: clevercsv.writer(io.StringIO(), sd).writerows([[text, "a"], [1, None]])),
        ("DictWriter", lambda: clevercsv.DictWriter(io.StringIO(), ["a"]).writerow({"b": text})),
    ]
    for what, f in calls:
        silent(ctx, what, f)


def loading(ctx, rng, i):
    """Files: the loading and saving functions"""
    tmp = tempfile.mkdtemp()
    try:
        text = files.content(rng)
        data, enc = files.encode(rng, text)
        path = os.path.join(tmp, "f.csv")
        with open(path, "wb") as f:
            f.write(data)
        enc = rng.choice([enc, None])
        num = rng.choice([None, None, 5, 60, 1000])
        dialect = rng.choice([None, None, None, "excel", SimpleDialect(",", '"', "")])
        kw = dict(encoding=enc, num_chars=num)
        loaders = [
            ("read_table", lambda **k: clevercsv.read_table(path, dialect, **kw, **k)),
            ("stream_table", lambda **k: list(clevercsv.stream_table(path, dialect, **kw, **k))),
            ("read_dicts", lambda **k: [dict(x) for x in clevercsv.read_dicts(path, dialect, **kw, **k)]),
            ("stream_dicts", lambda **k: [dict(x) for x in clevercsv.stream_dicts(path, dialect, **kw, **k)]),
        ]
        skip = rng.random() < 0.6
        loaders.append(("detect_dialect", lambda **k: clevercsv.detect_dialect(path, skip=skip, **kw, **k)))
        for what, f in loaders:
            info = dict(what=what, text=text, given=dialect, options=kw)
            want = silent(ctx, what, f)
            got, out, err = record(f, verbose=True)
            ctx.same(got, want, "verbose mode changes the result", **info)
            ctx.same(err, "", "verbose mode writes to standard error", **info)
            if want[0] == "exc" and want[1] != "NoDetectionResult":
                continue
            if dialect is not None and what != "detect_dialect":
                ctx.same(out, "", "detection is reported although the dialect is given", **info)
                continue
            with open(path, "r", newline="", encoding=enc or get_encoding(path)) as f2:
                sample = f2.read(num or -1)
            form = M.normal_form(sample)
            res = clevercsv.Sniffer().detect(sample)
            judge(ctx, out, sample, None, skip if what == "detect_dialect" else True, res, form, form is None, **{k: v for k, v in info.items() if k != "text"})
            ctx.event("verbose loads")
        silent(ctx, "get_encoding", get_encoding, path)
        if i % 5 == 0 and enc:
            silent(ctx, "read_dataframe", lambda: clevercsv.read_dataframe(path, encoding=enc, num_chars=num).shape)
        out = os.path.join(tmp, "out.csv")
        table = [[gen.word(rng), gen.cell_text(rng, [",", '"'])] for _ in range(rng.randint(0, 4))]
        silent(ctx, "write_table", clevercsv.write_table, table, out, transpose=rng.random() < 0.3, encoding="utf-8")
        silent(ctx, "write_table", clevercsv.write_table, table + [[]], out)
        silent(ctx, "write_dicts", write_dicts, [dict(zip("ab", r)) for r in table], out, encoding="utf-8")
        silent(ctx, "read_table", clevercsv.read_table, os.path.join(tmp, "missing"))
        silent(ctx, "read_dataframe", clevercsv.read_dataframe, tmp)
    finally:
        shutil.rmtree(tmp)


def commands(ctx, rng, i):
    """The verbose flag of the commands adds progress in front"""
    tmp = tempfile.mkdtemp()
    try:
        text = files.content(rng)
        data, enc = files.encode(rng, text)
        path = os.path.join(tmp, "f.csv")
        enc_args = ["-e", enc] if enc and rng.random() < 0.7 else []
        num = ["-n", str(rng.choice([5, 80]))] if rng.random() < 0.2 else []
        target = os.path.join(tmp, "out.csv")
        kind = rng.choice(["detect", "detect", "code", "standardize", "output", "inplace"])
        if kind == "detect":
            args = ["detect"] + rng.choice([[], ["--plain"], ["--json"], ["--consistency"], ["--no-skip", "--json"]])
        elif kind == "code":
            args = ["code"] + rng.choice([[], ["-p"]])
        else:
            args = ["standardize"] + rng.choice([[], ["-t"]])
            args += {"standardize": [], "output": ["-o", target], "inplace": ["-i"]}[kind]
        args += enc_args + num + [path]
        runs, left = [], []
        for flag in ([], ["-v"]):
            with open(path, "wb") as f:
                f.write(data)
            runs.append(cli.inside(flag + args))
            state = {}
            for name in sorted(os.listdir(tmp)):
                with open(os.path.join(tmp, name), "rb") as f:
                    state[name] = f.read()
            left.append(state)
            if os.path.exists(target):
                os.unlink(target)
        a, b = runs
        info = dict(args=args, text=text, quiet=a, verbose=b)
        ctx.same((b.status, repr(b.exc), b.err), (a.status, repr(a.exc), a.err), "verbose mode changes what the command does", **info)
        ctx.same(left[1], left[0], "verbose mode changes the files", **info)
        ctx.check(b.out.endswith(a.out), "verbose mode changes the output", **info)
        if a.exc is None:
            ctx.check(len(b.out) > len(a.out), "verbose mode reports nothing", **info)
            ctx.event("verbose commands")
            if a.status in (0, 2):
                ctx.same(a.err, "", "a successful command writes to standard error", **info)
                if kind in ("output", "inplace"):
                    ctx.same(a.out, "", "writing to a file prints something", **info)
    finally:
        shutil.rmtree(tmp)


STRATA = [
    Stratum("detection", detection, 9000, 100000),
    Stratum("library", library, 3000, 30000),
    Stratum("loading", loading, 700, 9000),
    Stratum("commands", commands, 800, 9000),
]
