"""Work that needs none of the optional packages, done by C33 with and without
them.  As a program: reads JSON from standard input, blocks the packages that
it names, does the work and writes the results as JSON."""

import importlib.abc
import io
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PACKAGES = ["pandas", "tabview", "cchardet", "wilderness"]


class Blocker(importlib.abc.MetaPathFinder):
    def __init__(self, names):
        self.names = names
        self.asked = []

    def find_spec(self, fullname, path=None, target=None):
        if fullname.split(".")[0] in self.names:
            self.asked.append(fullname)
            raise ModuleNotFoundError("No module named %r" % fullname, name=fullname)
        return None


def block(names, how, folder=None):
    """Make packages unimportable: absent, None in sys.modules, or broken"""
    if how == "absent":
        sys.meta_path.insert(0, Blocker(set(names)))
    elif how == "none":
        for n in names:
            sys.modules[n] = None
    else:
        for n in names:
            os.mkdir(os.path.join(folder, n))
            with open(os.path.join(folder, n, "__init__.py"), "w") as f:
                f.write("raise ImportError('DLL load failed while importing %s')\n" % n)
        sys.path.insert(0, folder)


def plain(d):
    return None if d is None else [d.delimiter, d.quotechar, d.escapechar, bool(d.strict)]


def do(op, path, text, enc, num, out):
    import clevercsv
    from clevercsv.detect import Detector
    from clevercsv.encoding import get_encoding

    kw = {} if enc is None else {"encoding": enc}
    if op == "import":
        names = sorted(n for n in clevercsv.__all__) if hasattr(clevercsv, "__all__") else []
        return [n for n in names if getattr(clevercsv, n, None) is None]
    if op == "detect":
        return plain(Detector().detect(text))
    if op == "sniff":
        return plain(clevercsv.Sniffer().sniff(text))
    if op == "header":
        return bool(clevercsv.Sniffer().has_header(text))
    if op == "detect_dialect":
        return plain(clevercsv.detect_dialect(path, num_chars=num, **kw))
    if op == "read_table":
        return clevercsv.read_table(path, num_chars=num, **kw)
    if op == "stream_table":
        return list(clevercsv.stream_table(path, num_chars=num, **kw))
    if op == "read_dicts":
        return [list(map(list, r.items())) for r in clevercsv.read_dicts(path, num_chars=num, **kw)]
    if op == "stream_dicts":
        return [list(map(list, r.items())) for r in clevercsv.stream_dicts(path, num_chars=num, **kw)]
    if op == "reader":
        return list(clevercsv.reader(io.StringIO(text, newline=""), delimiter=";", quotechar="'"))
    if op == "dictreader":
        return [[list(map(str, r)), list(map(str, r.values()))] for r in clevercsv.DictReader(io.StringIO(text, newline=""))]
    if op == "writer":
        f = io.StringIO(newline="")
        clevercsv.writer(f).writerows(list(clevercsv.reader(io.StringIO(text, newline=""))))
        return f.getvalue()
    if op == "write_table":
        if os.path.exists(out):
            os.unlink(out)
        clevercsv.write_table([[c, text[:5], 1] for c in "a" + text[:9]], out)
        with open(out, "rb") as f:
            return f.read().decode("latin-1")
    if op == "encoding":
        return get_encoding(path)
    if op == "encoding chardet":
        return get_encoding(path, try_cchardet=False)
    assert op.startswith("$ "), op
    from clevercsv.console import build_application

    from lib import cli

    args = op[2:].split() + (["-e", enc] if enc else []) + [path]
    assert build_application is not None
    r = cli.inside(args)
    return [r.status, repr(r.exc), r.out, r.err]


OPS = [
    "import", "detect", "sniff", "header", "detect_dialect", "read_table", "stream_table", "read_dicts", "stream_dicts", "reader",
    "dictreader", "writer", "write_table", "encoding", "encoding chardet",
]
COMMANDS = ["$ detect", "$ detect --json", "$ standardize", "$ standardize -t", "$ code", "$ code -p"]


def run(ops, path, text, enc, num, out):
    res = []
    for op in ops:
        try:
            r = ["ok", do(op, path, text, enc, num, out)]
        except Exception as e:
            r = ["raised", type(e).__name__, str(e)]
        res.append(json.loads(json.dumps(r)))
    return res


def main():
    job = json.load(sys.stdin)
    block(job["block"], job["how"], job["folder"])
    sys.path.insert(0, HERE)
    from lib import inject

    inject.install()
    res = [run(*args) for args in job["jobs"]]
    for name in job["block"]:
        try:
            __import__(name)
        except ImportError:
            pass
        else:
            raise SystemExit("%s was not blocked" % name)
    json.dump(res, sys.stdout)


if __name__ == "__main__":
    main()
