"""C28: nothing the caller owns is changed or left open"""

import csv
import gc
import io
import locale
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import warnings

import clevercsv
from clevercsv._regexes import DEFAULT_TYPE_REGEXES
from clevercsv.break_ties import tie_breaker
from clevercsv.consistency import ConsistencyDetector
from clevercsv.cparser_util import parse_data
from clevercsv.detect import Detector
from clevercsv.detect_type import TypeDetector
from clevercsv.dialect import SimpleDialect
from clevercsv.encoding import get_encoding
from clevercsv.potential_dialects import get_delimiters
from clevercsv.potential_dialects import get_dialects
from clevercsv.potential_dialects import get_quotechars
from clevercsv.wrappers import write_dicts

from lib import cli, fault, files, gen
from lib.engine import Stratum, Violation

ID = "C28"
RULE = (
    "A case is an operation of the package (detecting, reading, writing, "
    "loading, commands) with generated objects, files and a way of ending "
    "(complete, failing, abandoned by closing, dropping or breaking off, not "
    "started). Snapshots of every object passed in, of the global settings, "
    "of the input files and of the open descriptors before and after are "
    "compared; resource warnings are recorded. The last stratum does it with "
    "errors injected at each file operation. Non-trivial: operations that "
    "had objects or files to look after; distinct by operation, ending and "
    "arguments."
)
TECHNIQUE = "runtime monitoring: before/after state monitors (deep snapshots of arguments, global settings, file contents, descriptor table) and resource warnings around real operations, with injected file errors"
LEVEL_NOTE = "Generated arguments; the global settings watched are listed in the check; the interpreter's own caches and lazily imported modules are not settings."
REQUIRED = [
    "snapshots compared",
    "global settings compared",
    "descriptors compared",
    "files compared",
    "failing operations",
    "abandoned operations",
    "operations not started",
    "caller's files still open",
    "dialect objects watched",
    "injected errors",
    "op detect",
    "op reader",
    "op dictreader",
    "op writer",
    "op dictwriter",
    "op stream_table",
    "op stream_dicts",
    "op read_table",
    "op read_dicts",
    "op read_dataframe",
    "op detect_dialect",
    "op write_table",
    "op write_dicts",
    "op command",
    "op get_encoding",
    "op scores",
    "op helper",
]
BUDGET = {"quick": 400, "thorough": 2400}


# snapshots ---------------------------------------------------------------

def snap(x, depth=0):
    if isinstance(x, SimpleDialect):
        return ("simple", {k: repr(v) for k, v in sorted(vars(x).items())})
    if isinstance(x, csv.Dialect) or type(x).__name__ == "Dialect":
        return (
            type(x),
            [repr(getattr(x, a, None)) for a in DIALECT],
            sorted(getattr(x, "__dict__", {}).items(), key=repr) if hasattr(x, "__dict__") else None,
        )
    if isinstance(x, type):
        return ("class", {k: repr(v) for k, v in vars(x).items() if not k.startswith("__")})
    if isinstance(x, dict):
        return (type(x), [(snap(k), id(v), snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x), [(id(v), snap(v)) for v in x])
    if isinstance(x, (set, frozenset)):
        return (type(x), sorted(map(repr, x)))
    if isinstance(x, (str, bytes, int, float, type(None), bool)):
        return (type(x), x)
    if isinstance(x, (io.IOBase, Sink, Source)):
        return ("file", x.closed)
    return ("object", id(x))


DIALECT = ["delimiter", "quotechar", "escapechar", "doublequote", "skipinitialspace", "lineterminator", "quoting", "strict"]


def registered():
    out = {}
    for n in csv.list_dialects():
        d = csv.get_dialect(n)
        out[n] = [getattr(d, a) for a in DIALECT]
    return out


def settings():
    return {
        "registered dialects": registered(),
        "limit of csv": csv.field_size_limit(),
        "limit of clevercsv": clevercsv.field_size_limit(),
        "warning filters": [(f[0], getattr(f[1], "pattern", f[1]), f[2], getattr(f[3], "pattern", f[3]), f[4]) for f in warnings.filters],
        "showwarning": warnings.showwarning,
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "random state": hash(random.getstate()),
        "recursion limit": sys.getrecursionlimit(),
        "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        "hooks": (sys.excepthook, sys.displayhook, sys.unraisablehook),
        "search path": list(sys.path),
        "locale": locale.setlocale(locale.LC_ALL),
        "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGALRM)],
        "log handlers": (list(logging.getLogger().handlers), logging.getLogger().level),
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "switch interval": sys.getswitchinterval(),
        "threads": threading.active_count(),
        "temporary folder": tempfile.tempdir,
        "tracing": (sys.gettrace(), sys.getprofile()),
        "attributes of the dialects": [snap(c) for c in (csv.excel, csv.excel_tab, csv.unix_dialect, clevercsv.excel, clevercsv.excel_tab, clevercsv.unix_dialect)],
    }


def fds():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + f)
        except OSError:
            continue
        if not t.endswith("/fd"):
            out[int(f)] = t
    return out


def folder_state(folder):
    out = {}
    for f in sorted(os.listdir(folder)):
        p = os.path.join(folder, f)
        st = os.stat(p)
        with open(p, "rb") as fp:
            out[f] = (fp.read(), st.st_mode, st.st_mtime_ns, st.st_ino, st.st_size)
    return out


# things of the caller ------------------------------------------------------

class Sink:
    """A destination of the caller's"""

    def __init__(self, fail_at=None):
        self.closed = False
        self.n = 0
        self.fail_at = fail_at

    def write(self, s):
        self.n += 1
        if self.n == self.fail_at:
            raise OSError("sink fails")
        return len(s)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


class Source:
    """A source of lines of the caller's"""

    def __init__(self, lines, fail_at=None):
        self.closed = False
        self.lines = iter(lines)
        self.n = 0
        self.fail_at = fail_at

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        if self.n == self.fail_at:
            raise OSError("source fails")
        return next(self.lines)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


def a_dialect(ctx, rng):
    d = rng.choice(gen.COMMON_D)
    q = rng.choice(['"', "'", ""])
    e = rng.choice(["", "\\"])
    k = rng.randrange(7)
    if k == 0:
        return "excel"
    ctx.event("dialect objects watched")
    if k == 1:
        return SimpleDialect(d, q, e, strict=rng.random() < 0.3)
    if k == 2:
        return SimpleDialect(d, None, None)
    if k == 3:
        return csv.get_dialect(rng.choice(["excel", "unix", "excel-tab"]))
    cls = type(
        "mine",
        (csv.Dialect,),
        dict(
            delimiter=d,
            quotechar=q or None,
            escapechar=e or None,
            doublequote=rng.random() < 0.7 or not e,
            skipinitialspace=False,
            lineterminator=rng.choice(["\n", "\r\n"]),
            quoting=csv.QUOTE_MINIMAL if q else csv.QUOTE_NONE,
            strict=False,
        ),
    )
    if k == 4:
        return cls
    if k == 5:
        return cls()
    return rng.choice([csv.excel, csv.unix_dialect, clevercsv.excel_tab])


def overrides(rng):
    if rng.random() < 0.6:
        return {}
    return rng.choice([{"delimiter": ";"}, {"quotechar": "'"}, {"delimiter": "\t", "quotechar": ""}, {"escapechar": "\\"}, {"strict": True}, {"nonsense": 1}, {"delimiter": 5}])


def a_table(rng):
    return [[rng.choice([gen.word(rng), 1, 2.5, None, "x,y", 'say "x"', "line\nbreak", "\u00e9"]) for _ in range(3)] for _ in range(rng.randint(0, 5))]


def text_with_fault(rng):
    t = files.content(rng)
    r = rng.random()
    if r < 0.1:
        t += "\0"
    elif r < 0.2:
        t = t + "a;b;c\n" * 30 + "x" * 140000 + ";1\n"
    return t


def data_with_fault(rng):
    """Bytes; sometimes not decodable after the first block"""
    t = files.content(rng)
    data, enc = files.encode(rng, t)
    if rng.random() < 0.25:
        enc = "utf-8"
        data = ("a;b;c\n%s;x;1\n" % gen.word(rng)).encode() * rng.choice([3, 1000, 3000]) + b"\xff\xfe;1\n"
    return data, enc


# operations ----------------------------------------------------------------

class Op:
    """start(): does it; watch: objects; generator: it gives an iterator"""

    def __init__(self, name, start, watch=(), generator=False, creates=(), owned=()):
        self.name = name
        self.start = start
        self.watch = list(watch)
        self.generator = generator
        self.creates = set(creates)
        self.owned = list(owned)


def op_detect(ctx, rng, folder):
    text = text_with_fault(rng) if rng.random() < 0.3 else gen.sample_text(rng)
    if len(text) > 30000:
        text = text[:30000]
    delims = rng.choice([None, [",", ";"], {",", "\t"}, (";",), ["|", ","], [], ",;"])
    det = Detector()
    what = rng.randrange(4)
    if what == 0:
        return Op("detect", lambda: det.detect(text, delimiters=delims), [delims])
    if what == 1:
        return Op("detect", lambda: det.sniff(text, delimiters=delims), [delims])
    if what == 2:
        m = rng.choice(["auto", "normal", "consistency", "nonsense"])
        return Op("detect", lambda: det.detect(text, delimiters=delims, method=m, skip=rng.random() < 0.5), [delims])
    return Op("detect", lambda: det.has_header(text), [])


def op_scores(ctx, rng, folder):
    text = gen.sample_text(rng)
    delims = rng.choice([None, [",", ";"], {",", "\t"}])
    dialects = get_dialects(text, delimiters=delims)
    rng.shuffle(dialects)
    cd = ConsistencyDetector(skip=rng.random() < 0.5)
    if rng.random() < 0.3:
        return Op("scores", lambda: get_dialects(text, delimiters=delims), [delims])
    return Op("scores", lambda: cd.compute_consistency_scores(text, dialects), [dialects] + dialects)


def op_helper(ctx, rng, folder):
    """The documented building blocks of detection"""
    text = gen.sample_text(rng)
    box = lambda x: rng.choice([list, set, tuple, list, set])(x)
    what = rng.randrange(8)
    if what == 0:
        quotes = box(rng.sample(["'", '"', "~", "`", "|", "x"], rng.randint(0, 5)))
        return Op("helper", lambda: get_quotechars(text, quotes), [quotes])
    if what == 1:
        d = box(rng.sample([",", ";", "a", ".", "\t"], rng.randint(0, 4)))
        cat = rng.choice([None, ["Lu", "Nd"], []])
        ch = rng.choice([None, [".", "/"], []])
        return Op("helper", lambda: get_delimiters(text, "UTF-8", d, cat, ch), [d, cat, ch])
    if what == 2:
        d = box(rng.sample([",", ";", "a", ".", "\t"], rng.randint(0, 4)))
        return Op("helper", lambda: get_dialects(text, delimiters=d, test_masked_by_quotes=rng.random() < 0.5), [d])
    if what == 3:
        pool = [SimpleDialect(x, q, e) for x in (",", " ", "-") for q in ("", '"', "'") for e in ("", "\\")]
        ds = rng.sample(pool, rng.randint(1, 6))
        return Op("helper", lambda: tie_breaker(text, ds), [ds] + ds)
    if what == 4:
        pats = dict(DEFAULT_TYPE_REGEXES)
        cells = [rng.choice(gen.WORDS) for _ in range(9)]
        td = TypeDetector(patterns=pats, strip_whitespace=rng.random() < 0.5)
        return Op("helper", lambda: [td.detect_type(c) for c in cells], [pats, cells])
    if what == 5:
        d = dict(delimiter=rng.choice([",", "", None]), quotechar='"', escapechar="", strict=False)
        return Op("helper", lambda: SimpleDialect.from_dict(d).validate(), [d])
    if what == 6:
        lines = text.splitlines(True)
        d = SimpleDialect(*gen.dialect_chars(rng))
        return Op("helper", lambda: parse_data(lines, d, return_quoted=rng.random() < 0.5), [lines, d], True)
    dialects = box(get_dialects(text))
    scores = ConsistencyDetector(skip=rng.random() < 0.5).compute_consistency_scores(text, list(dialects))
    return Op("helper", lambda: ConsistencyDetector.get_best_dialects(scores), [dialects, scores] + list(scores))


def source(rng):
    """(iterable of lines, objects to watch, files of the caller)"""
    text = text_with_fault(rng)
    k = rng.randrange(4)
    if k == 0:
        f = io.StringIO(text, newline="")
        return f, [], [f]
    if k == 1:
        lines = text.splitlines(True)
        if rng.random() < 0.2:
            lines.insert(rng.randint(0, len(lines)), rng.choice([None, 5, b"x"]))
        return lines, [lines], []
    if k == 2:
        s = Source(text.splitlines(True), rng.choice([None, 1, 2, 4]))
        return s, [], [s]
    path = os.path.join(source.folder, "src.csv")
    with open(path, "w", newline="", encoding="utf-8") as f:
        f.write(text)
    f = open(path, newline="", encoding=rng.choice(["utf-8", "ascii"]))
    return f, [], [f]


def op_reader(ctx, rng, folder):
    src, watch, owned = source(rng)
    d = a_dialect(ctx, rng)
    kw = overrides(rng)
    return Op("reader", lambda: clevercsv.reader(src, d, **kw), watch + [d, kw], True, owned=owned)


def op_dictreader(ctx, rng, folder):
    src, watch, owned = source(rng)
    d = a_dialect(ctx, rng)
    kw = overrides(rng)
    names = rng.choice([None, ["a", "b"], ("x", "y", "z"), {"k": 1, "l": 2}, []])
    restval = rng.choice([None, "", ["shared"], {"x": 1}])
    return Op(
        "dictreader",
        lambda: clevercsv.DictReader(src, fieldnames=names, dialect=d, restkey="rest", restval=restval, **kw),
        watch + [d, kw, names, restval],
        True,
        owned=owned,
    )


def sink(rng):
    k = rng.randrange(3)
    if k == 0:
        f = io.StringIO(newline="")
    elif k == 1:
        f = Sink(rng.choice([None, 1, 3]))
    else:
        f = open(os.path.join(source.folder, "sink.csv"), "w", newline="", encoding=rng.choice(["utf-8", "ascii"]))
    return f


def op_writer(ctx, rng, folder):
    f = sink(rng)
    d = a_dialect(ctx, rng)
    kw = overrides(rng)
    rows = a_table(rng)
    if rng.random() < 0.2:
        rows.append(rng.choice([5, None]))

    def go():
        w = clevercsv.writer(f, d, **kw)
        if rng.random() < 0.5:
            w.writerows(rows)
        else:
            for r in rows:
                w.writerow(r)

    return Op("writer", go, [d, kw, rows], owned=[f])


def op_dictwriter(ctx, rng, folder):
    f = sink(rng)
    d = a_dialect(ctx, rng)
    kw = overrides(rng)
    names = rng.choice([["a", "b"], ("b", "a", "c"), {"a": 1, "b": 2}])
    rows = [{k: rng.choice([1, "x", "\u00e9", None]) for k in rng.sample(["a", "b", "c", "d"], rng.randint(0, 4))} for _ in range(rng.randint(0, 4))]
    extra = rng.choice(["raise", "ignore", "IGNORE"])

    def go():
        w = clevercsv.DictWriter(f, names, restval="-", extrasaction=extra, dialect=d, **kw)
        w.writeheader()
        if rng.random() < 0.5:
            w.writerows(rows)
        else:
            for r in rows:
                w.writerow(r)

    return Op("dictwriter", go, [d, kw, names, rows], owned=[f])


def path_args(ctx, rng, folder, name="in.csv"):
    data, enc = data_with_fault(rng)
    path = os.path.join(folder, name)
    with open(path, "wb") as f:
        f.write(data)
    r = rng.random()
    if r < 0.05:
        enc = "nonsense"
    elif r < 0.1:
        path += ".missing"
    elif r < 0.13:
        path = folder
    kw = {"encoding": enc}
    if rng.random() < 0.3:
        kw["num_chars"] = rng.choice([1, 10, 100])
    return path, kw


def op_stream(name, fn):
    def make(ctx, rng, folder):
        path, kw = path_args(ctx, rng, folder)
        watch = [kw]
        if rng.random() < 0.5:
            kw["dialect"] = a_dialect(ctx, rng)
            watch.append(kw["dialect"])
        return Op(name, lambda: fn(path, **kw), watch, name.startswith("stream"))

    return make


def op_dataframe(ctx, rng, folder):
    path, kw = path_args(ctx, rng, folder)
    for k, v in (("usecols", [0]), ("dtype", {"x": "str"}), ("na_values", ["q"]), ("names", ["u", "v"]), ("delimiter", ";")):
        if rng.random() < 0.2:
            kw[k] = v
    return Op("read_dataframe", lambda: clevercsv.read_dataframe(path, **kw), [kw] + [v for v in kw.values()])


def op_detect_dialect(ctx, rng, folder):
    path, kw = path_args(ctx, rng, folder)
    return Op("detect_dialect", lambda: clevercsv.detect_dialect(path, **kw), [kw])


def op_encoding(ctx, rng, folder):
    path, kw = path_args(ctx, rng, folder)
    t = rng.random() < 0.5
    return Op("get_encoding", lambda: get_encoding(path, try_cchardet=t))


def op_write_table(ctx, rng, folder):
    table = a_table(rng)
    if rng.random() < 0.2 and table:
        table[-1] = table[-1][:1]
    d = a_dialect(ctx, rng)
    enc = rng.choice([None, "utf-8", "ascii", "nonsense"])
    tr = rng.random() < 0.3
    out = rng.choice([os.path.join(folder, "out.csv"), os.path.join(folder, "no", "out.csv")])
    kw = dict(dialect=d, transpose=tr, encoding=enc)
    arg = table if rng.random() < 0.7 else iter(table)
    return Op("write_table", lambda: clevercsv.write_table(arg, out, **kw), [table, d, kw], creates=["out.csv"])


def op_write_dicts(ctx, rng, folder):
    keys = rng.sample(["a", "b", "c"], 2)
    items = [{k: rng.choice([1, "x", "\u00e9", "x;y"]) for k in keys} for _ in range(rng.randint(0, 4))]
    if rng.random() < 0.3 and items:
        items[-1] = {"z": 1}
    d = a_dialect(ctx, rng)
    enc = rng.choice([None, "utf-8", "ascii", "nonsense"])
    out = os.path.join(folder, "out.csv")
    arg = items if rng.random() < 0.7 else iter(items)
    return Op("write_dicts", lambda: write_dicts(arg, out, dialect=d, encoding=enc), [items, d], creates=["out.csv"])


def op_command(ctx, rng, folder):
    path, kw = path_args(ctx, rng, folder)
    args = [rng.choice(["detect", "code", "standardize", "standardize"])]
    creates = []
    if args[0] == "standardize":
        r = rng.random()
        if r < 0.4:
            args.append("-i")
            creates.append("in.csv")
        elif r < 0.7:
            args += ["-o", os.path.join(folder, "out.csv")]
            creates.append("out.csv")
        if rng.random() < 0.3:
            args += ["-E", rng.choice(["ascii", "utf-16", "nonsense"])]
        if rng.random() < 0.3:
            args.append("-t")
    if kw["encoding"]:
        args += ["-e", kw["encoding"]]
    args.append(path)
    # the streams are redirected within
    def go():
        run = cli.inside(args)
        if run.exc is not None:
            raise run.exc
        return run.status

    return Op("command", go, [args], creates=creates)


OPS = [
    op_detect,
    op_scores,
    op_helper,
    op_helper,
    op_reader,
    op_reader,
    op_dictreader,
    op_dictreader,
    op_writer,
    op_dictwriter,
    op_stream("stream_table", clevercsv.stream_table),
    op_stream("stream_table", clevercsv.stream_table),
    op_stream("stream_dicts", clevercsv.stream_dicts),
    op_stream("stream_dicts", clevercsv.stream_dicts),
    op_stream("read_table", clevercsv.read_table),
    op_stream("read_dicts", clevercsv.read_dicts),
    op_dataframe,
    op_detect_dialect,
    op_encoding,
    op_write_table,
    op_write_dicts,
    op_command,
]


class Abandon(Exception):
    pass


def end(ctx, rng, op, it):
    """Use up, or give up, an iterator; returns how"""
    how = rng.choice(["all", "all", "break", "close", "drop", "none", "throw", "late"])
    n = rng.choice([0, 1, 1, 2, 5])
    if how == "none":
        # a generator that never runs
        ctx.event("operations not started")
        return how
    if how == "all":
        for _ in it:
            pass
        return how
    ctx.event("abandoned operations")
    if how == "break":
        for k, _ in enumerate(it):
            if k >= n:
                break
        return how
    for _ in range(n):
        if next(it, None) is None:
            break
    if how == "close" and hasattr(it, "close"):
        it.close()
    elif how == "throw" and hasattr(it, "throw"):
        try:
            it.throw(Abandon())
        except Abandon:
            pass
    elif how == "late":
        it.__iter__()
    return how


def compare(ctx, before, after, what, info):
    if before == after:
        return
    if isinstance(before, dict) and isinstance(after, dict):
        for k in list(before) + [k for k in after if k not in before]:
            if before.get(k) != after.get(k):
                ctx.fail("%s changed: %s" % (what, k), before=before.get(k), after=after.get(k), **info)
    ctx.fail("%s changed" % what, before=before, after=after, **info)


def one_case(ctx, rng, i):
    folder = tempfile.mkdtemp(dir=ctx.env["scratch"])
    own = csv.list_dialects()
    limit = clevercsv.field_size_limit()
    try:
        if rng.random() < 0.2:
            csv.register_dialect("vf_mine", delimiter="|", quotechar="'")
        if rng.random() < 0.2:
            clevercsv.field_size_limit(rng.choice([20, 1000, 500000]))
        if rng.random() < 0.1:
            csv.field_size_limit(rng.choice([20, 1000, 500000]))
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("ignore")
            warnings.simplefilter("always", ResourceWarning)
            source.folder = folder
            operate(ctx, rng, OPS[i % len(OPS)], folder, caught)
    finally:
        clevercsv.field_size_limit(limit)
        csv.field_size_limit(131072)
        for n in csv.list_dialects():
            if n not in own:
                csv.unregister_dialect(n)
        shutil.rmtree(folder, ignore_errors=True)


def operate(ctx, rng, make, folder, caught):
    op = make(ctx, rng, folder)
    info = dict(op=op.name, watch=op.watch)
    shots = [snap(x) for x in op.watch]
    state = settings()
    inputs = folder_state(folder)
    del caught[:]
    table = fds()
    how = "once"
    held = None
    try:
        value = op.start()
        if op.generator:
            how = end(ctx, rng, op, value)
    except Violation:
        raise
    except Exception as e:
        ctx.event("failing operations")
        held = e
        how += " failed"
    # an iterator that was used up or failed has closed its file even while
    # the caller still holds it
    finished = held is not None or how in ("once", "all", "close", "throw")
    if finished:
        compare(ctx, table, fds(), "the open descriptors", dict(info, end=how, error=held))
    value = None
    held = None
    info["end"] = how
    compare(ctx, table, fds(), "the open descriptors", info)
    ctx.event("descriptors compared")
    bad = [str(w.message) for w in caught if issubclass(w.category, ResourceWarning)]
    ctx.check(not bad, "a file wasn't closed but collected: %r" % bad[:1], **info)
    for x, before in zip(op.watch, shots):
        compare(ctx, before, snap(x), "an object of the caller", dict(info, object=x))
        ctx.event("snapshots compared")
    compare(ctx, state, settings(), "a global setting", info)
    ctx.event("global settings compared")
    for f in op.owned:
        ctx.check(not f.closed, "a file of the caller was closed", **info)
        ctx.event("caller's files still open")
        if hasattr(f, "fileno") and not isinstance(f, io.StringIO):
            f.close()
    if not isinstance(op.owned[:1], list) or not op.owned:
        now = folder_state(folder)
        for n in op.creates:
            now.pop(n, None)
            inputs.pop(n, None)
        compare(ctx, inputs, now, "the files", info)
        ctx.event("files compared")
    ctx.event("op " + op.name)
    ctx.nontrivial(op.name, how, repr(op.watch))
    ctx.sample((op.name, how, repr(op.watch)[:150]))


# errors of the file system ---------------------------------------------------

def fault_case(ctx, rng, i):
    """Errors at each file operation of one operation"""
    folder = tempfile.mkdtemp(dir=ctx.env["scratch"])
    try:
        names = ["stream_table", "stream_dicts", "read_table", "read_dicts", "detect_dialect", "get_encoding", "write_table", "write_dicts"]
        name = names[i % len(names)]
        rows = [[gen.word(rng) for _ in range(3)] for _ in range(rng.choice([3, 3000]))]
        d = rng.choice(gen.COMMON_D)
        path = os.path.join(folder, "in.csv")
        with open(path, "w", newline="") as f:
            f.write(gen.write_csv(rows, delimiter=d))
        out = os.path.join(folder, "out.csv")
        enc = rng.choice([None, "utf-8"])
        kw = dict(encoding=enc, num_chars=200)
        dialect = SimpleDialect(d, '"', "")

        def go():
            if name.startswith("stream"):
                for _ in getattr(clevercsv, name)(path, **kw):
                    pass
            elif name == "get_encoding":
                get_encoding(path)
            elif name == "write_table":
                clevercsv.write_table(rows, out, dialect=dialect, encoding=enc)
            elif name == "write_dicts":
                write_dicts([dict(zip("abc", r)) for r in rows], out, dialect=dialect, encoding=enc)
            else:
                getattr(clevercsv, name)(path, **kw)

        def monitored():
            bad = []
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("ignore")
                warnings.simplefilter("always", ResourceWarning)
                ctl = fault.lib()[0]
                ctl[0] = 0
                table, state = fds(), settings()
                ctl[0] = 1
                err = None
                try:
                    go()
                except Exception as e:
                    err = e
                ctl[0] = 0
                if fds() != table:
                    bad.append("open descriptors %r" % (sorted(set(fds().items()) - set(table.items())),))
                e = repr(err)
                err = None
                if settings() != state:
                    bad.append("changed settings")
                bad += [str(w.message) for w in caught if issubclass(w.category, ResourceWarning)]
            return [bad, e]

        base = fault.run(monitored, folder)
        ctx.check(base.value and not base.value[0], "left open: %r" % (base.value,), op=name)
        for k in range(base.data["n"]):
            for kind in (fault.FAIL, fault.PARTIAL_FAIL, fault.FAIL_FROM):
                if kind == fault.PARTIAL_FAIL and base.ops[k] not in ("read", "write"):
                    continue
                if base.ops[k] == "seek":
                    continue
                if base.ops[k] == "close" and kind == fault.FAIL_FROM:
                    continue
                res = fault.run(monitored, folder, k, kind, rng.choice([5, 28, 13]))
                ctx.event("injected errors")
                info = dict(op=name, operation=(k, base.ops[k]), kind=fault.KINDS[kind], result=res)
                ctx.check(res.value is not None, "the operation didn't end properly", **info)
                ctx.check(not res.value[0], "left behind after an error: %r" % res.value[0], **info)
                ctx.nontrivial(name, k, kind, base.ops)
                if os.path.exists(out):
                    os.unlink(out)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def setup(env):
    import pandas  # noqa: F401

    # load what is imported or set up on first use
    from clevercsv.console import build_application  # noqa: F401

    d = tempfile.mkdtemp(dir=env["scratch"])
    p = os.path.join(d, "x.csv")
    with open(p, "w") as f:
        f.write("a;b\n1;2\n")
    clevercsv.read_dataframe(p)
    for c in ("detect", "code", "standardize"):
        cli.inside([c, p])
    shutil.rmtree(d)


STRATA = [
    Stratum("operations", one_case, 8000, 200000),
    Stratum("faults", fault_case, 64, 1500),
]
