"""A fresh process that detects the dialects of a list of jobs.

Reads JSON from standard input, writes JSON to standard output.  The plan says
how: which objects are reused, whether output is verbose, what else happens
between the detections.
"""

import contextlib
import io
import json
import os
import random
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from lib import inject  # noqa: E402

clevercsv = inject.install()

from clevercsv.consistency import ConsistencyDetector  # noqa: E402
from clevercsv.cparser_util import parse_string  # noqa: E402
from clevercsv.detect import Detector  # noqa: E402
from clevercsv.dialect import SimpleDialect  # noqa: E402


def disturb(rng, text):
    """Something else that a program may do in between"""
    k = rng.randint(0, 7)
    try:
        if k == 0:
            list(parse_string(text, SimpleDialect(",", '"', "\\", strict=True)))
        elif k == 1:
            Detector().detect("a\0b,c\n1,2\0")
        elif k == 2:
            Detector().detect(text, method="nonsense")
        elif k == 3:
            Detector().has_header(text)
        elif k == 4:
            old = clevercsv.field_size_limit(1)
            try:
                list(clevercsv.reader(io.StringIO(text)))
            finally:
                clevercsv.field_size_limit(old)
        elif k == 5:
            Detector().detect(text, delimiters=[",", 1, None])
        elif k == 6:
            next(clevercsv.reader(["a,b", 3]), None)
        else:
            Detector().detect(text[::-1], method="consistency")
    except Exception:
        pass


def main():
    job = json.load(sys.stdin)
    rng = random.Random(job["seed"])
    plan = job["plan"]
    order = list(range(len(job["jobs"])))
    rng.shuffle(order)
    shared = Detector()
    cons = {
        s: ConsistencyDetector(skip=s, cache_capacity=plan["cache"], verbose=plan["verbose"])
        for s in (True, False)
    }
    res = {}
    sink = io.StringIO()
    for k in order:
        text, method, skip, delims, kind = job["jobs"][k]
        if plan["disturb"] and rng.random() < 0.4:
            with contextlib.redirect_stdout(sink):
                disturb(rng, text)
        arg = delims
        if delims is not None:
            arg = list(delims)
            if method == "consistency" and plan["shuffle"]:
                rng.shuffle(arg)
            arg = {"list": list, "tuple": tuple, "set": set, "str": "".join}[kind](arg)
        times = 2 if plan["twice"] and rng.random() < 0.3 else 1
        for _ in range(times):
            try:
                with contextlib.redirect_stdout(sink):
                    if plan["consistency"] and method == "consistency":
                        d = cons[skip].detect(text, None if arg is None else list(arg))
                    else:
                        det = shared if plan["reuse"] else Detector()
                        d = det.detect(text, delimiters=arg, method=method, skip=skip, verbose=plan["verbose"])
                r = None if d is None else [d.delimiter, d.quotechar, d.escapechar, d.strict]
            except Exception as e:
                r = ["raised", type(e).__name__]
            res.setdefault(k, []).append(r)
    json.dump([res[k] for k in range(len(order))], sys.stdout)


main()
