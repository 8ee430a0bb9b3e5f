"""C37: streams need bounded memory, and work grows in proportion to the data"""

import contextlib
import gc
import io
import os
import shutil
import tempfile
import time
import tracemalloc

import clevercsv
from clevercsv import wrappers
from clevercsv.cparser_util import parse_string
from clevercsv.detect import Detector
from clevercsv.dialect import SimpleDialect
from clevercsv.encoding import get_encoding

from lib import cli
from lib.engine import Stratum

ID = "C37"
RULE = (
    "A case is an operation of the library with a shape of data that can be "
    "made as large as one likes: rows, blank lines, wide rows, long fields, "
    "fields over many lines, many quotes or escapes, tables that are ragged "
    "or have ties. The CPU time for n and for 32 n is measured, and the peak "
    "of the memory for streams of n and 8 n records. Non-trivial: the large "
    "run took at least 20 ms, or made at least 20000 records; distinct by "
    "operation, shape and size."
)
TECHNIQUE = "runtime monitoring: resource monitors (CPU time of the process, peak of traced memory) on the same operation at sizes far apart"
LEVEL_NOTE = "CPU time per unit of data may grow by a factor of 6 over a factor of 32 in size (a quadratic operation has a factor of 32), and counts as growth only if five measurements in a row agree. Shapes without words of unbounded length for detection (the patterns of types take quadratic time on those)."
REQUIRED = [
    "operations timed",
    "memory of streams compared",
    "parser timed",
    "writer timed",
    "detection timed",
    "wrappers timed",
    "commands timed",
]
BUDGET = {"quick": 400, "thorough": 2400}
HANG = {"quick": 200, "thorough": 400}
FACTOR = 32
SLACK = 6


class Null:
    def write(self, text):
        return len(text)


def drain(it):
    n = 0
    for _ in it:
        n += 1
    return n


def dia(rng, escape=None):
    return SimpleDialect(rng.choice([",", ";", "\t", "|"]), '"', "\\" if escape or (escape is None and rng.random() < 0.5) else "")


def scratch(ctx, text, name="f.csv"):
    path = os.path.join(ctx.folder, name)
    with open(path, "w", newline="", encoding="utf-8") as f:
        f.write(text)
    return path


def lines(d, n):
    return [d.join(["ab", "cd", "%d" % (k % 97)]) + "\n" for k in range(n)]


def parser(shape):
    def make(ctx, rng, n):
        d = dia(rng, "esc" in shape or None)
        c = d.delimiter
        data = {
            "rows": lambda: lines(c, n),
            "blank lines": lambda: ["\n"] * n,
            "blank lines between": lambda: ["a" + c + "b\n", "\r\n", "\n"] * (n // 3),
            "pieces": lambda: ["a"] * n,
            "empty pieces": lambda: [""] * n + ["a"],
            "field over lines": lambda: ['"a\n'] + ["bcd\n"] * n + ['"\n'],
            "never closed": lambda: ['"a\n'] + ["bcd\n"] * n,
            "wide row": lambda: [c.join(["ab"] * n)],
            "empty fields": lambda: [c * n],
            "long field": lambda: ["ab" * n],
            "long quoted field": lambda: ['"' + "ab" * n + '"'],
            "doubled quotes": lambda: ['"' + '""' * n + '"'],
            "escapes": lambda: [("\\" + c) * n],
            "escaped quotes": lambda: ['"' + '\\"' * n + '"'],
            "quotes reopened": lambda: ['"a"b' * n],
            "one text of rows": lambda: "".join(lines(c, n)),
            "long fields, many": lambda: ["ab" * 5000 + c + "x\n"] * (n // 5000),
        }[shape]()
        if isinstance(data, str):
            return lambda: drain(parse_string(data, d))
        if rng.random() < 0.5:
            return lambda: drain(clevercsv.reader(iter(data), d))
        return lambda: drain(clevercsv.reader(data, d))

    return make


def dicts(shape):
    def make(ctx, rng, n):
        data = {
            "rows": ["a,b,c\n"] + ["1,2,3\n"] * n,
            "ragged": ["a,b,c\n"] + ["1\n", "\n", "1,2,3,4,5\n"] * (n // 3),
            "blank lines": ["a,b,c\n"] + ["\n"] * n + ["1,2,3\n"],
            "wide": [",".join("c%d" % k for k in range(n)) + "\n", ",".join(["1"] * n) + "\n", "1\n"],
        }[shape]
        return lambda: drain(clevercsv.DictReader(data, restkey="rest", dialect="excel"))

    return make


def wr(shape):
    def make(ctx, rng, n):
        row = {"rows": None, "wide": ["a", 'b"', 1] * (n // 3), "quotes": ['"' * n], "lines": ["a\n" * n]}.get(shape)
        if shape == "dicts":
            return lambda: clevercsv.DictWriter(Null(), ["a", "b"]).writerows({"a": 1, "b": "x,"} for _ in range(n))
        if shape == "wide dict":
            names = ["c%d" % k for k in range(n)]
            data = dict.fromkeys(names, 1)
            return lambda: clevercsv.DictWriter(Null(), names).writerow(data)
        if row is None:
            return lambda: clevercsv.writer(Null()).writerows([["a", "b,", 1]] * n)
        return lambda: clevercsv.writer(Null()).writerow(row)

    return make


def table_writer(shape):
    def make(ctx, rng, n):
        out = os.path.join(ctx.folder, "out.csv")
        return {
            "table": lambda: wrappers.write_table([["a", "b,", 1]] * n, out),
            "transposed": lambda: wrappers.write_table([["a", "b,", 1]] * n, out, transpose=True),
            "wide transposed": lambda: wrappers.write_table([["a"] * n, ["b"] * n], out, transpose=True),
            "iterator": lambda: wrappers.write_table(iter([["a", "b,", 1]] * n), out),
            "dicts": lambda: wrappers.write_dicts([{"a": 1, "b": 2}] * n, out),
        }[shape]

    return make


LOADERS = {
    "read_table": lambda p: clevercsv.read_table(p, num_chars=300, encoding="utf-8"),
    "read_dicts": lambda p: clevercsv.read_dicts(p, num_chars=300, encoding="utf-8"),
    "stream_table": lambda p: drain(clevercsv.stream_table(p, num_chars=300, encoding="utf-8")),
    "stream_dicts": lambda p: drain(clevercsv.stream_dicts(p, num_chars=300, encoding="utf-8")),
    "detected encoding": lambda p: get_encoding(p),
}


def load(name):
    def make(ctx, rng, n):
        p = scratch(ctx, "".join(lines(";", n)))
        return lambda: LOADERS[name](p)

    return make


def sample(shape, method="consistency"):
    def make(ctx, rng, n):
        d = rng.choice([",", ";", "\t", "|"])
        text = {
            "rows": lambda: "".join(lines(d, n)),
            "quoted": lambda: '"ab"%s"c%sd"%s"12"\n' % (d, d, d) * n,
            "strict": lambda: '"ab"%s"cd"%s"12"\n' % (d, d) * n,
            "escaped": lambda: 'ab\\%sx%s"cd"%s12\n' % (d, d, d) * n,
            "addresses": lambda: "http://x.org/a,b%scd%s12\n" % (d, d) * n,
            "open quotes": lambda: 'a"b%scd%s12\n' % (d, d) * n + '"',
            "ragged": lambda: "".join(("a" + d) * (k % 37) + "\n" for k in range(n // 8)),
            "wide": lambda: d.join(["ab"] * n) + "\n" + d.join(["1"] * n),
            "ties": lambda: "\"a\"%s'b'\n" % d * n,
            "blank lines": lambda: ("ab%scd\n\n\n" % d) * n,
            "types": lambda: d.join(["2019-01-02", "12:30", "a@b.co", "3.14", "10%", "n/a", "/usr/bin"]) * 1 + "\n" + (d.join(["2019-01-02", "12:30", "a@b.co", "3.14", "10%", "n/a", "/usr/bin"]) + "\n") * (n // 2),
            "single column": lambda: "".join("%d\n" % k for k in range(n)),
            "words": lambda: "ab cd ef\n" * n,
            "trailing lines": lambda: "ab%scd\n" % d * 9 + rng.choice(["\n", "\r", "\r\n"]) * (8 * n),
            "leading lines": lambda: rng.choice(["\n", "\r", "\r\n"]) * (8 * n) + "ab%scd\n" % d * 9,
            "delimiters only": lambda: d * (4 * n),
            "long quoted": lambda: '"' + "ab" * n + '"%s"x"\n"y"%s"z"\n' % (d, d),
        }[shape]()
        if method == "header":
            return lambda: Detector().has_header(text)
        return lambda: Detector().detect(text, method=method)

    return make


def command(*args, wide=False):
    def make(ctx, rng, n):
        text = "".join(lines(";", n))
        if wide:
            text = ";".join(["ab"] * n) + "\n" + ";".join(["12"] * n) + "\n"
        p = scratch(ctx, text)
        a = [x.replace("OUT", os.path.join(ctx.folder, "out.csv")) for x in args] + [p]

        def go():
            if "-i" in args:
                scratch(ctx, text)
            r = cli.inside(a)
            if r.exc is not None:
                raise r.exc

        return go

    return make


# name: (group, maker, largest size)
JOBS = {}
for s in ["rows", "blank lines", "blank lines between", "pieces", "empty pieces", "field over lines", "never closed", "wide row", "empty fields", "long field", "long quoted field", "doubled quotes", "escapes", "escaped quotes", "quotes reopened", "one text of rows", "long fields, many"]:
    JOBS["parser: " + s] = ("parser", parser(s), 400000)
for s, k in [("rows", 100000), ("ragged", 100000), ("blank lines", 300000), ("wide", 200000)]:
    JOBS["DictReader: " + s] = ("parser", dicts(s), k)
for s, k in [("rows", 300000), ("wide", 400000), ("quotes", 10**6), ("lines", 10**6), ("dicts", 100000), ("wide dict", 200000)]:
    JOBS["writer: " + s] = ("writer", wr(s), k)
for s in ["table", "transposed", "wide transposed", "iterator", "dicts"]:
    JOBS["writing: " + s] = ("writer", table_writer(s), 150000)
for s in LOADERS:
    JOBS["loading: " + s] = ("wrappers", load(s), 100000)
for s in ["rows", "quoted", "strict", "escaped", "addresses", "open quotes", "ragged", "wide", "ties", "blank lines", "types", "single column", "words", "trailing lines", "leading lines", "delimiters only", "long quoted"]:
    if s == "long quoted":
        # the patterns of types take quadratic time on long words
        JOBS["normal form: " + s] = ("detection", sample(s, "normal"), 200000)
        continue
    JOBS["consistency: " + s] = ("detection", sample(s), 25000)
    JOBS["normal form: " + s] = ("detection", sample(s, "normal"), 25000)
for s in ["rows", "wide", "types", "quoted"]:
    JOBS["header: " + s] = ("detection", sample(s, "header"), 12000)
JOBS["standardize"] = ("commands", command("standardize", "-e", "utf-8", "-n", "300"), 60000)
JOBS["standardize -t"] = ("commands", command("standardize", "-e", "utf-8", "-n", "300", "-t"), 60000)
JOBS["standardize -t, wide"] = ("commands", command("standardize", "-e", "utf-8", "-n", "300", "-t", wide=True), 600000)
JOBS["standardize, wide"] = ("commands", command("standardize", "-e", "utf-8", "-n", "300", wide=True), 600000)
JOBS["standardize -i"] = ("commands", command("standardize", "-e", "utf-8", "-n", "300", "-i"), 60000)
JOBS["standardize -o"] = ("commands", command("standardize", "-e", "utf-8", "-n", "300", "-o", "OUT"), 60000)
JOBS["detect"] = ("commands", command("detect", "-e", "utf-8"), 20000)


class In:
    """The context, with a scratch folder and no limit on fields"""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        self.ctx.folder = tempfile.mkdtemp(dir=self.ctx.env["scratch"])
        self.old = clevercsv.field_size_limit(10**9)
        return self.ctx

    def __exit__(self, *a):
        clevercsv.field_size_limit(self.old)
        shutil.rmtree(self.ctx.folder, ignore_errors=True)


def cpu(go, times):
    best = None
    for _ in range(times):
        gc.collect()
        gc.disable()
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                t = time.process_time()
                go()
                t = time.process_time() - t
        finally:
            gc.enable()
        best = t if best is None else min(t, best)
    return best


def timed(ctx, rng, case):
    name = case[0]
    group, make, top = JOBS[name]
    top *= rng.choice([2, 4, 8] if ctx.tier == "thorough" else [1, 2])
    seed = rng.random()
    with In(ctx):
        tries = []
        for k in range(5):
            times = []
            for n in (top // FACTOR, top):
                rng.seed(seed)
                go = make(ctx, rng, n)
                times.append(cpu(go, 3 if n < top else 1 + (k > 0)))
            tries.append(times)
            if times[1] < SLACK * FACTOR * max(times[0], 1e-5):
                break
        else:
            ctx.fail("the time isn't proportional to the size of the data", operation=name, sizes=(top // FACTOR, top), seconds=tries)
    ctx.event("operations timed")
    ctx.event(group + " timed")
    ctx.maxi("largest factor per unit, %", int(100 * times[1] / FACTOR / max(times[0], 1e-5)))
    if times[1] > 0.02:
        ctx.nontrivial(name, top, seed)
    ctx.sample((name, top, times))


# -- memory ------------------------------------------------------------------


def source(n, width=1):
    for k in range(n):
        yield "ab,c%d,%d\n" % (k % 97, k % 89)


def via_reader(ctx, n):
    r = clevercsv.reader(source(n))
    return lambda: drain(r)


def via_dict_reader(ctx, n):
    r = clevercsv.DictReader(source(n), dialect="excel")
    return lambda: drain(r)


def via_writer(ctx, n):
    return lambda: clevercsv.writer(Null()).writerows(["ab", k] for k in range(n))


def via_dict_writer(ctx, n):
    return lambda: clevercsv.DictWriter(Null(), ["a", "b"]).writerows({"a": 1, "b": k} for k in range(n))


def via_write_dicts(ctx, n):
    out = os.path.join(ctx.folder, "out.csv")
    return lambda: wrappers.write_dicts(({"a": 1, "b": k} for k in range(n)), out)


def on_file(f):
    def make(ctx, n):
        p = os.path.join(ctx.folder, "f.csv")
        with open(p, "w", newline="") as fp:
            fp.writelines(x.replace(",", ";") for x in source(n))
        return lambda: f(ctx, p)

    return make


def std(*args):
    def f(ctx, p):
        a = [x.replace("OUT", os.path.join(ctx.folder, "out.csv")) for x in args]
        r = cli.inside(["standardize", "-e", "utf-8", "-n", "300"] + a + [p])
        if r.exc is not None:
            raise r.exc

    return f


STREAMS = {
    "reader": via_reader,
    "DictReader": via_dict_reader,
    "writer": via_writer,
    "DictWriter": via_dict_writer,
    "write_dicts": via_write_dicts,
    "stream_table": on_file(lambda ctx, p: drain(clevercsv.stream_table(p, num_chars=300, encoding="utf-8"))),
    "stream_dicts": on_file(lambda ctx, p: drain(clevercsv.stream_dicts(p, num_chars=300, encoding="utf-8"))),
    "detect_dialect, limited": on_file(lambda ctx, p: clevercsv.detect_dialect(p, num_chars=300, encoding="utf-8")),
    "get_encoding": on_file(lambda ctx, p: get_encoding(p)),
    "standardize -o": on_file(std("-o", "OUT")),
    "standardize -i": on_file(std("-i")),
}


def peak(go):
    gc.collect()
    tracemalloc.start()
    try:
        tracemalloc.reset_peak()
        a = tracemalloc.get_traced_memory()[0]
        go()
        return tracemalloc.get_traced_memory()[1] - a
    finally:
        tracemalloc.stop()


def memory(ctx, rng, case):
    name = case[0]
    n = 10000 if ctx.tier == "quick" else 40000
    n += rng.randint(0, 200)
    with In(ctx):
        peak(STREAMS[name](ctx, 100))
        small = peak(STREAMS[name](ctx, n))
        large = peak(STREAMS[name](ctx, 8 * n))
    ctx.check(
        large < 1.3 * small + 40000 and large < 2 * 10**6,
        "the memory of a stream grows with the number of records",
        operation=name,
        records=(n, 8 * n),
        peaks=(small, large),
    )
    ctx.event("memory of streams compared")
    ctx.maxi("peak of a stream, bytes", large)
    ctx.nontrivial(name, n)
    ctx.sample((name, n, small, large))


STRATA = [
    Stratum("time", timed, None, cases=[(k, j) for k in JOBS for j in range(3)]),
    Stratum("memory", memory, None, cases=[(k, j) for k in STREAMS for j in range(2)]),
]
