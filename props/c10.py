"""C10: independent use from several threads gives the sequential results"""

import csv
import io
import os
import tempfile

import clevercsv
from clevercsv.consistency import ConsistencyDetector
from clevercsv.cparser_util import field_size_limit, parse_data, parse_string
from clevercsv.detect import Detector
from clevercsv.detect_pattern import pattern_score
from clevercsv.detect_type import TypeDetector, type_score
from clevercsv.dialect import SimpleDialect
from clevercsv.dict_read_write import DictReader, DictWriter
from clevercsv.encoding import get_encoding
from clevercsv.potential_dialects import get_dialects
from clevercsv.wrappers import write_dicts

from lib import files, gen, sched
from lib.engine import Stratum

ID = "C10"
RULE = (
    "A case gives two to four threads a list of operations each, on objects "
    "of their own; every list is run alone first, then all at the same time "
    "under a schedule: cooperative, switching at seeded lines or opcodes of "
    "the package, or free-running with a tiny switch interval. The monitor "
    "compares results and errors, and the field size limit and the "
    "registered dialects afterwards. Non-trivial: at least one switch between "
    "threads inside the package; distinct by schedule and operations."
)
TECHNIQUE = "runtime monitoring: controlled scheduler (trace hooks on lines and opcodes) and stress runs, with the results of each thread checked against its sequential run"
LEVEL_NOTE = "Schedules are sampled at line and opcode granularity of the Python code; inside C functions threads switch only where these call back into Python."
REQUIRED = [
    "forced switches",
    "operations compared under a schedule",
    "operations compared when running freely",
    "switches inside sources",
]
BUDGET = {"quick": 400, "thorough": 2400}
HANG = {"quick": 120, "thorough": 240}


class Source:
    """Lines from which a thread is switched away"""

    def __init__(self, lines, pause, ctx):
        self.it = iter(lines)
        self.pause = pause
        self.ctx = ctx

    def __iter__(self):
        return self

    def __next__(self):
        self.pause()
        line = next(self.it)
        self.pause()
        return line


def key(fn):
    try:
        return ("ok", fn())
    except Exception as e:
        return ("exc", type(e).__name__, str(e))


def dia(d):
    return None if d is None else (d.delimiter, d.quotechar, d.escapechar, d.strict)


def make_ops(rng, text, folder, tag, light):
    """A list of (name, fn(pause)); every call makes its own objects"""
    d, q, e = gen.dialect_chars(rng, empty=0.05)
    d = d or rng.choice([x for x in ",;" if x not in (q, e)])
    sd = lambda: SimpleDialect(d, q, e)  # noqa: E731
    lines = text.splitlines(True)
    rows = [[gen.cell_text(rng, (d, q, e)) for _ in range(2)] for _ in range(3)]
    path = os.path.join(folder, "%s.csv" % tag)
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)
    out = os.path.join(folder, "%s_out.csv" % tag)
    strict = rng.random() < 0.3
    cells = [c for r in rows for c in r] + rng.sample(gen.WORDS, 4)
    delims = rng.choice([None, None, [",", ";"], [d]])
    method = rng.choice(["auto", "consistency", "normal"])
    det, cons = Detector(), ConsistencyDetector(skip=rng.random() < 0.5)
    types = TypeDetector()

    def written(pause):
        f = io.StringIO(newline="")
        w = clevercsv.writer(f, delimiter=d, quotechar=q or '"', lineterminator="\n")
        for r in rows:
            w.writerow(r)
            pause()
        return f.getvalue()

    def dicts(pause):
        r = DictReader(Source(lines, pause, None), delimiter=d, quotechar=q, escapechar=e)
        return [dict(x) for x in r]

    def dictw(pause):
        f = io.StringIO(newline="")
        w = DictWriter(f, ["a", "b"], restval=tag)
        w.writeheader()
        for r in rows:
            w.writerow(dict(zip("ab", r)))
            pause()
        return f.getvalue()

    def table_file(pause):
        clevercsv.write_table(rows, out, encoding="utf-8")
        pause()
        with open(out, "rb") as f:
            return f.read()

    def dicts_file(pause):
        write_dicts([dict(zip("ab", r)) for r in rows], out, encoding="utf-8")
        pause()
        with open(out, "rb") as f:
            return f.read()

    coded = os.path.join(folder, "%s_coded.csv" % tag)
    with open(coded, "wb") as f:
        f.write(files.encode(rng, text * rng.choice([1, 1, 10]))[0])

    def chardet(pause):
        return get_encoding(coded, try_cchardet=False), get_encoding(coded)

    def turns(pause):
        a = clevercsv.reader(Source(lines, pause, None), sd())
        b = parse_string(text, sd(), return_quoted=True)
        got = []
        for x in a:
            got.append((x, next(b, None), a.line_num))
        return got

    ops = [
        ("detect", lambda pause: dia(det.detect(text, delimiters=delims, method=method))),
        ("consistency", lambda pause: dia(cons.detect(text, delims))),
        ("scores", lambda pause: [(dia(k), v.P, v.T, v.Q) for k, v in cons.compute_consistency_scores(text, [sd(), SimpleDialect(",", "", ""), SimpleDialect("", "", "")]).items()]),
        ("reader", lambda pause: list(clevercsv.reader(Source(lines, pause, None), delimiter=d, quotechar=q, escapechar=e, strict=strict))),
        ("parse", lambda pause: list(parse_data(Source(lines, pause, None), dialect=sd(), return_quoted=True))),
        ("small", lambda pause: list(parse_data(Source(lines, pause, None), dialect=sd(), field_limit=4))),
        ("turns", turns),
        ("writer", written),
        ("dicts", dicts),
        ("dictw", dictw),
        ("table", lambda pause: clevercsv.read_table(path, encoding="utf-8")),
        ("stream", lambda pause: [r for r in clevercsv.stream_table(path, dialect=sd(), encoding="utf-8")]),
        ("file", lambda pause: dia(clevercsv.detect_dialect(path, encoding="utf-8", method=method))),
        ("encoding", lambda pause: get_encoding(path)),
        ("chardet", chardet),
        ("read_dicts", lambda pause: [list(x.items()) for x in clevercsv.read_dicts(path, dialect=sd(), encoding="utf-8")]),
        ("write_dicts", dicts_file),
        ("write", table_file),
        ("types", lambda pause: [types.detect_type(c, q_) for c in cells for q_ in (False, True)]),
        ("score", lambda pause: type_score(text, sd())),
        ("pattern", lambda pause: pattern_score(text, sd())),
        ("dialects", lambda pause: sorted(map(dia, get_dialects(text)))),
        ("header", lambda pause: clevercsv.Sniffer().has_header(text)),
        ("limit", lambda pause: field_size_limit()),
        ("nul", lambda pause: dia(det.detect(text + "\0,\0"))),
        ("bad", lambda pause: list(clevercsv.reader(["a", 3]))),
        ("newline", lambda pause: list(clevercsv.reader(["a\rb,c\nd"], sd()))),
        ("invalid", lambda pause: det.detect(text, method="no such method")),
        ("serial", lambda pause: SimpleDialect.deserialize(sd().serialize()) == sd()),
        ("registered", lambda pause: list(clevercsv.reader(Source(lines, pause, None), "excel-tab"))),
    ]
    rng.shuffle(ops)
    if light is None:
        return ops
    return ops[: rng.randint(2, 4) if light else rng.randint(4, 9)]


NAMES = (
    "detect consistency scores reader parse small small turns writer dicts dictw table stream file encoding chardet chardet write read_dicts write_dicts "
    "types score pattern dialects header limit nul bad newline registered"
).split()


def small_text(rng):
    while True:
        t = gen.messy(rng, rows=rng.randint(1, 5), cols=rng.randint(1, 4)) if rng.random() < 0.7 else gen.sample_text(rng)
        if len(t) < 400:
            return t


def job(ops, pause):
    return [(name, key(lambda: fn(pause))) for name, fn in ops]


def threads_of(ctx, rng, n, light):
    folder = tempfile.mkdtemp(dir=ctx.env["scratch"])
    same = small_text(rng) if rng.random() < 0.2 else None
    all_ops = []
    for k in range(n):
        # the same kinds of operations on other data is what mixes up
        s = rng.random()
        ops = make_ops(rng, same or small_text(rng), folder, "t%d" % k, light)
        all_ops.append(ops)
    if rng.random() < 0.6:
        # every thread does the same few things, several times
        names = rng.sample(NAMES, 2)
        for k in range(n):
            ops = make_ops(rng, same or small_text(rng), folder, "u%d" % k, None)
            ops = [o for o in ops if o[0] in names]
            all_ops[k] = [rng.choice(ops) for _ in range(rng.randint(2, 5))]
    return folder, all_ops


def nothing():
    pass


def state():
    return (field_size_limit(), csv.field_size_limit(), sorted(csv.list_dialects()))


def compare(ctx, want, results, all_ops, event, **info):
    for k, (value, exc) in enumerate(results):
        if exc is not None:
            raise exc
        for (name, w), (_, g) in zip(want[k], value):
            ctx.event(event)
            if w != g:
                ctx.fail(
                    "thread %d: %s gives another result than alone" % (k, name),
                    alone=w,
                    together=g,
                    operations=[[n for n, _ in o] for o in all_ops],
                    **info,
                )


def cleanup(folder):
    for f in os.listdir(folder):
        os.unlink(os.path.join(folder, f))
    os.rmdir(folder)


def controlled(ctx, rng, i):
    n = rng.choice([2, 2, 2, 3, 4])
    folder, all_ops = threads_of(ctx, rng, n, True)
    before = state()
    want = [job(ops, nothing) for ops in all_ops]
    root = os.path.join(os.path.realpath(ctx.env["repo"]), "clevercsv") + os.sep
    root = os.path.join(os.path.dirname(clevercsv.__file__)) + os.sep
    opcodes = rng.random() < 0.3
    p = rng.choice([0.02, 0.1, 0.3, 0.6]) * (0.3 if opcodes else 1)
    s = sched.Scheduler(rng, root, p=p, opcodes=opcodes, limit=60000)
    inner = [0]

    def pause():
        inner[0] += 1
        s.pause()

    results = s.run([lambda o=ops: job(o, pause) for ops in all_ops])
    compare(ctx, want, results, all_ops, "operations compared under a schedule", p=p, opcodes=opcodes)
    ctx.same(state(), before, "the global settings changed")
    ctx.event("forced switches", s.switches)
    ctx.event("switch points", s.points)
    ctx.event("switches inside sources", inner[0])
    if s.free and s.points <= s.limit:
        ctx.event("schedules released")
    if s.switches:
        ctx.nontrivial(s.trail)
    ctx.sample([[n for n, _ in o] for o in all_ops])
    cleanup(folder)


def free(ctx, rng, i):
    n = rng.choice([2, 4, 8])
    folder, all_ops = threads_of(ctx, rng, n, False)
    before = state()
    want = [job(ops, nothing) for ops in all_ops]
    for _ in range(2):
        results = sched.free_run([lambda o=ops: job(o, nothing) for ops in all_ops])
        compare(ctx, want, results, all_ops, "operations compared when running freely")
    ctx.same(state(), before, "the global settings changed")
    cleanup(folder)


STRATA = [
    Stratum("controlled", controlled, 2000, 40000),
    Stratum("free", free, 80, 1500),
]
