"""A fresh process that does a list of jobs under given settings.

Reads JSON from standard input, writes JSON to standard output.
"""

import base64
import contextlib
import io
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

TASK = json.load(sys.stdin)
if "csv limit before import" in TASK["plan"]:
    import csv

    csv.field_size_limit(7)

from lib import inject  # noqa: E402

clevercsv = inject.install()

from clevercsv import wrappers  # noqa: E402
from clevercsv.console import build_application  # noqa: E402
from clevercsv.cparser_util import parse_string  # noqa: E402
from clevercsv.detect import Detector  # noqa: E402
from clevercsv.detect_type import TypeDetector  # noqa: E402
from clevercsv.dialect import SimpleDialect  # noqa: E402
from clevercsv.encoding import get_encoding  # noqa: E402


def dialect(d):
    return None if d is None else [d.delimiter, d.quotechar, d.escapechar, bool(d.strict)]


def fields(row):
    return [[k, v] for k, v in row.items()]


def do(job, folder):
    kind, text, data, opt = job["kind"], job["text"], base64.b64decode(job["data"]), job["opt"]
    path = os.path.join(folder, "in.csv")
    out = os.path.join(folder, "out.csv")
    for name in os.listdir(folder):
        os.unlink(os.path.join(folder, name))
    with open(path, "wb") as f:
        f.write(data)
    enc = opt["encoding"]
    sd = SimpleDialect(*opt["dialect"])
    num = opt["num"]

    def files():
        res = {}
        for name in sorted(os.listdir(folder)):
            with open(os.path.join(folder, name), "rb") as f:
                res[name] = base64.b64encode(f.read()).decode()
        return res

    if kind == "detect":
        return dialect(Detector().detect(text, method=opt["method"], skip=opt["skip"]))
    if kind == "header":
        return bool(clevercsv.Sniffer().has_header(text))
    if kind == "reader":
        r = clevercsv.reader(io.StringIO(text, newline=""), sd, strict=opt["strict"])
        return [list(x) for x in r]
    if kind == "parse":
        return [list(map(list, x)) for x in parse_string(text, sd, return_quoted=True)]
    if kind == "dicts":
        r = clevercsv.DictReader(io.StringIO(text, newline=""), restkey="rest", dialect=sd)
        return [fields(x) for x in r]
    if kind == "writer":
        s = io.StringIO(newline="")
        clevercsv.writer(s, "excel", quoting=opt["quoting"]).writerows(opt["rows"])
        return s.getvalue()
    if kind == "dictwriter":
        s = io.StringIO(newline="")
        w = clevercsv.DictWriter(s, ["a", "b", "c"], restval="-", extrasaction=opt["extras"])
        w.writeheader()
        w.writerows(dict(zip("abcd", r)) for r in opt["rows"])
        return s.getvalue()
    if kind == "types":
        td = TypeDetector()
        return [[td.detect_type(c), bool(td.is_known_type(c))] for r in opt["rows"] for c in r if isinstance(c, str)]
    if kind == "encoding":
        return get_encoding(path)
    if kind == "read_table":
        return wrappers.read_table(path, encoding=enc, num_chars=num)
    if kind == "stream_table":
        return list(wrappers.stream_table(path, encoding=enc, num_chars=num))
    if kind == "read_dicts":
        return [fields(x) for x in wrappers.read_dicts(path, encoding=enc, num_chars=num)]
    if kind == "detect_dialect":
        return dialect(wrappers.detect_dialect(path, encoding=enc, num_chars=num))
    if kind == "frame":
        kw = {} if enc is None else {"encoding": enc}
        df = wrappers.read_dataframe(path, num_chars=num, dtype=str, **kw)
        return df.to_json()
    if kind == "write_table":
        wrappers.write_table(opt["rows"], out, dialect=sd if sd.delimiter else "excel", transpose=opt["transpose"], encoding=enc or "utf-8")
        return files()
    if kind == "write_dicts":
        wrappers.write_dicts([dict(zip("abc", r)) for r in opt["rows"]], out, encoding=enc or "utf-8")
        return files()
    # commands
    args = [kind] + opt["flags"].get(kind, [])
    if enc:
        args += ["-e", enc]
    if num:
        args += ["-n", str(num)]
    args = [a.replace("OUT", out) for a in args] + [path]
    so, se = io.StringIO(newline=""), io.StringIO(newline="")
    with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
        status = build_application().run(args=args)
    return [status, so.getvalue().replace(folder, "DIR"), se.getvalue().replace(folder, "DIR"), files()]


def nothing(*a):
    return nothing


def main():
    import csv
    import gc
    import locale
    import tempfile
    import warnings

    task = TASK
    plan = set(task["plan"])
    folder = task["folder"]
    if "warnings are errors" in plan:
        # the library's own warnings about the data are UserWarnings
        warnings.simplefilter("error")
        warnings.simplefilter("default", UserWarning)
    if "collections all the time" in plan:
        gc.set_threshold(1)
    if "no collections" in plan:
        gc.disable()
    if "csv limit" in plan:
        csv.field_size_limit(7)
    if "csv dialects" in plan:
        csv.register_dialect("mine", delimiter="x", quotechar="y")
        csv.register_dialect("simple", delimiter="z")
    if "locale" in plan:
        locale.setlocale(locale.LC_ALL, "C")
    if "umask" in plan:
        os.umask(0o077)
    if "folder" in plan:
        os.chdir("/")
    if "temporary files" in plan:
        os.mkdir(folder + "_tmp")
        tempfile.tempdir = folder + "_tmp"
    if "no standard input" in plan:
        sys.stdin = None
    if "switches" in plan:
        sys.setswitchinterval(1e-6)
    if "thread" in plan:
        # all of the work in another thread than the one that imported
        import threading

        threading.stack_size(2**20 * 8)
    res = []

    def work():
        if "traced" in plan:
            sys.settrace(nothing)
        if "profiled" in plan:
            sys.setprofile(nothing)
        for job in task["jobs"]:
            try:
                r = ["value", do(job, folder)]
            except SystemExit as e:
                r = ["exit", e.code]
            except Exception as e:
                r = ["raised", type(e).__name__, str(e).replace(folder, "DIR")]
            res.append(r)
        sys.settrace(None)
        sys.setprofile(None)

    if "thread" in plan:
        t = threading.Thread(target=work)
        t.start()
        t.join()
    else:
        work()
    json.dump(res, sys.stdout)


main()
