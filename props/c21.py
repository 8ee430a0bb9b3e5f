"""C21: dictionary reading and writing match the csv module"""

import csv
import io
import itertools
import os
import random
import types
import warnings
from collections import OrderedDict

import clevercsv
from clevercsv.dict_read_write import DictReader, DictWriter
from clevercsv.wrappers import write_dicts

from lib import dialects, files, gen
from lib.engine import Stratum

ID = "C21"
RULE = (
    "A case is a well-formed text, field names in some container, rest key, "
    "rest value and dialect; the log of everything the reader does (field "
    "names, dictionaries in order, errors) under a random history of calls "
    "is compared with the log of csv.DictReader. For writing, the text and "
    "the outcome of each call are compared with csv.DictWriter, and the text "
    "is read back. Non-trivial: at least one dictionary; distinct by text or "
    "items and options."
)
TECHNIQUE = "runtime monitoring: call-by-call differential log against csv.DictReader and csv.DictWriter, and round trips"
LEVEL_NOTE = "Random well-formed texts and histories. line_num is compared if every record is one line: clevercsv counts records (C02)."
REQUIRED = [
    "dictionaries compared",
    "short rows",
    "long rows",
    "blank rows",
    "duplicate names",
    "rows written",
    "unknown keys",
    "items read back",
    "iterators as field names",
]

KEYS = ["a", "b", "name", "x y", "\u00e9", "", "1", "a,b", 'q"q', "n\nl", " ", "a "]


def table(rng):
    nc = rng.randint(1, 5)
    rows = []
    for _ in range(rng.randint(0, 6)):
        n = nc
        r = rng.random()
        if r < 0.15:
            n = rng.randint(0, nc)
        elif r < 0.3:
            n = nc + rng.randint(1, 3)
        rows.append([gen.cell_text(rng, (",", '"'), nls=True) if rng.random() < 0.5 else rng.choice(KEYS + gen.WORDS[:10]) for _ in range(n)])
    if rng.random() < 0.15 and rows:
        rows.insert(0, [])
    if rng.random() < 0.3 and rows and len(rows[0]) > 1:
        rows[0][-1] = rows[0][0]
    return rows


CONTAINERS = ["list", "tuple", "iter", "generator", "dict", "keys", "str", "range", "userseq"]


class Seq:
    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(list(self.items))

    def __getitem__(self, k):
        return self.items[k]


def contain(rng, names, kind):
    if kind == "list":
        return list(names)
    if kind == "tuple":
        return tuple(names)
    if kind == "iter":
        return iter(list(names))
    if kind == "generator":
        return (n for n in names)
    if kind == "dict":
        return dict.fromkeys(names)
    if kind == "keys":
        return dict.fromkeys(names).keys()
    if kind == "str":
        return "".join(n[:1] for n in names)
    if kind == "none":
        return None
    if kind == "range":
        return range(len(names))
    return Seq(names)


def act(fn):
    try:
        return ("ok", fn())
    except StopIteration:
        return ("stop",)
    except (csv.Error, clevercsv.Error):
        return ("error",)
    except Exception as e:
        return ("exc", type(e).__name__)


def plain(d):
    return list(d.items()) if isinstance(d, dict) else d


def play(module_reader, steps, lines=False):
    """The log of a history on one reader"""
    out = act(module_reader)
    if out[0] != "ok":
        return [out]
    r = out[1]
    log = []
    for s in steps:
        if s[0] == "next":
            g = act(lambda: next(r))
            log.append((g[0], plain(g[1])) if g[0] == "ok" else g)
            if g[0] == "ok" and not isinstance(g[1], dict):
                log.append("not a dictionary")
        elif s[0] == "names":
            g = act(lambda: r.fieldnames)
            if g[0] == "ok" and g[1] is not None:
                g = ("ok", list(g[1]))
            log.append(g)
        elif s[0] == "set":
            log.append(act(lambda: setattr(r, "fieldnames", list(s[1]))))
        elif s[0] == "rest":
            r.restkey = s[1]
            r.restval = s[2]
        elif s[0] == "for":
            got = []

            def loop():
                for k, d in enumerate(r):
                    got.append(plain(d))
                    if s[1] is not None and k + 1 >= s[1]:
                        break

            log.append(act(loop)[0])
            log.append(got)
        elif s[0] == "iter":
            log.append(act(lambda: iter(r) is r))
        elif s[0] == "attrs":
            log.append((r.restkey, r.restval, r.dialect if r.dialect == "excel" else type(r.dialect) is not type(None)))
            if lines:
                log.append(r.line_num)
    return log


def wide_table(rng):
    """Many fields, and far more or fewer in some rows"""
    nc = rng.choice([60, 130, 300])
    rows = []
    for k in range(rng.randint(2, 5)):
        n = nc if k == 0 or rng.random() < 0.3 else rng.choice([0, 1, 3, nc // 2, nc + 1, nc + 60, nc * 3])
        rows.append(["%s%d" % (rng.choice(gen.WORDS[:10]), j) for j in range(n)])
    return rows


def wide(ctx, rng, i):
    reading(ctx, rng, i, wide_table(rng))


def reading(ctx, rng, i, rows=None):
    if rows is None:
        rows = table(rng)
    d = rng.choice(gen.COMMON_D + ["\u00a6", "x"])
    q = rng.choice(['"', '"', "'"])
    term = rng.choice(["\n", "\r\n", "\r"])
    spec = dialects.Spec(d, q, "")
    text = dialects.serialise(rng, rows, spec, term)
    kind = None
    names = None
    if rng.random() < 0.5:
        names = [rng.choice(KEYS) for _ in range(rng.randint(0, 6))]
        kind = rng.choice(CONTAINERS)
    restkey = rng.choice([None, None, "rest", "a", 5])
    restval = rng.choice([None, None, "", "none", 0])
    steps = []
    for _ in range(rng.randint(2, 9)):
        r = rng.random()
        if r < 0.5:
            steps.append(("next",))
        elif r < 0.65:
            steps.append(("names",))
        elif r < 0.72:
            steps.append(("set", [rng.choice(KEYS) for _ in range(rng.randint(0, 4))]))
        elif r < 0.76:
            steps.append(("rest", rng.choice(["k", None]), rng.choice(["v", None])))
        elif r < 0.9:
            steps.append(("for", rng.choice([None, 1, 2])))
        elif r < 0.93:
            steps.append(("iter",))
        else:
            steps.append(("attrs",))
        if rng.random() < 0.2:
            steps.append(("attrs",))
    form = rng.choice(["name", "kwargs", "class", "instance"])
    seed = rng.random()

    def build(cls):
        # the same dialect and the same kind of field names for both
        r2 = random.Random(seed)
        lines = io.StringIO(text, newline="")
        src = rng_source(random.Random(seed), lines, text)
        kw = {}
        if names is not None:
            kw["fieldnames"] = contain(r2, names, kind)
        if restkey is not None or r2.random() < 0.3:
            kw["restkey"] = restkey
        if restval is not None or r2.random() < 0.3:
            kw["restval"] = restval
        f = dialects.Form(r2, spec, form)
        fk = dict(f.kw)
        if f.args:
            fk["dialect"] = f.args[0]
        if form == "kwargs":
            fk = dict(delimiter=d, quotechar=q)
        return f, (lambda: cls(src, **kw, **fk))

    # numbers of records and of lines are the same?
    lines = len(io.StringIO(text, newline="").readlines()) == len(rows)
    if lines and any(s[0] == "attrs" for s in steps):
        ctx.event("line numbers compared")
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        f, make = build(DictReader)
        with f:
            got = play(make, steps, lines)
    f, make = build(csv.DictReader)
    with f:
        want = play(make, steps, lines)
    if got != want:
        ctx.fail("DictReader differs from the csv module", got=got, want=want, text=text, names=(kind, names), rest=(restkey, restval), steps=steps, dialect=(d, q))
    # the warning
    used = [s for s in want if isinstance(s, tuple) and s[0] == "ok"]
    n = 0
    for x in want:
        if isinstance(x, list):
            n += len(x)
        elif isinstance(x, tuple) and len(x) > 1 and isinstance(x[1], list):
            n += 1
    ctx.event("dictionaries compared", n)
    if kind in ("iter", "generator"):
        ctx.event("iterators as field names")
    warned = any("not unique" in str(w.message) for w in log)
    eff = names if names is not None and kind not in ("dict", "keys", "str", "range") else (rows[0] if names is None and rows else None)
    if not any(s[0] in ("set",) for s in steps) and any(s[0] in ("next", "names", "for") for s in steps) and eff is not None:
        dup = len(set(eff)) < len(eff)
        if dup:
            ctx.event("duplicate names")
            if not warned and n:
                ctx.fail("no warning for duplicate names", names=eff, steps=steps, text=text)
        elif warned:
            ctx.fail("warning although the names are unique", names=eff, steps=steps, text=text)
    if rows:
        w = len(rows[0])
        for r in rows[1:]:
            ctx.event("blank rows" if not r else "short rows" if len(r) < w else "long rows" if len(r) > w else "full rows")
    if n:
        ctx.nontrivial(text, kind, repr(names), repr(steps))
    ctx.sample((text, names, kind, steps))


def rng_source(rng, lines, text):
    k = rng.randint(0, 2)
    if k == 0:
        return lines
    if k == 1:
        return lines.readlines()
    return (x for x in lines.readlines())


VALUES = [1, 2.5, None, True, "", "text", 'say "x"', "a,b", "n\nl", b"b", ("t",), "\u00e9", float("nan"), 10**20, " x "]


def writing(ctx, rng, i):
    names = []
    for _ in range(rng.randint(0, 5)):
        n = rng.choice(KEYS + [1, ("t", 2)])
        names.append(n)
    unique = len(set(names)) == len(names)
    kind = rng.choice(["list", "tuple", "iter", "generator", "dict", "keys", "userseq", "none" if rng.random() < 0.2 else "list"])
    restval = rng.choice(["", None, "rest", 7])
    extras = rng.choice(["raise", "raise", "ignore", "RAISE", "Ignore", "skip"])
    spec = dialects.Spec(rng.choice(gen.COMMON_D), rng.choice(['"', "'"]), "", term=rng.choice(["\n", "\r\n"]), quoting=rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL, csv.QUOTE_NONNUMERIC]))
    form = rng.choice(["name", "class", "instance", "kwargs"])
    steps = []

    def item():
        d = {}
        for n in names:
            if rng.random() < 0.85:
                d[n] = rng.choice(VALUES)
        if rng.random() < 0.2:
            d[rng.choice(["other", "zz", 9])] = rng.choice(VALUES)
        return d

    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        if r < 0.25:
            steps.append(("header",))
        elif r < 0.65:
            steps.append(("row", item(), rng.choice(["dict", "ordered", "proxy"])))
        else:
            steps.append(("rows", [item() for _ in range(rng.randint(0, 4))], rng.choice(["list", "generator"])))
    seed = rng.random()

    def run(cls):
        r2 = random.Random(seed)
        out = io.StringIO(newline="")
        f = dialects.Form(r2, spec, form, write=True)
        fk = dict(f.kw)
        if f.args:
            fk["dialect"] = f.args[0]
        log = []
        with f:
            made = act(lambda: cls(out, contain(r2, names, kind), restval=restval, extrasaction=extras, **fk))
            if made[0] != "ok":
                return [made]
            w = made[1]
            for s in steps:
                if s[0] == "header":
                    log.append(act(w.writeheader))
                elif s[0] == "row":
                    x = dict(s[1])
                    if s[2] == "ordered":
                        x = OrderedDict(x)
                    elif s[2] == "proxy":
                        x = types.MappingProxyType(x)
                    log.append(act(lambda: w.writerow(x)))
                else:
                    xs = [dict(y) for y in s[1]]
                    if s[2] == "generator":
                        xs = (y for y in xs)
                    log.append(act(lambda: w.writerows(xs)))
                log.append(out.getvalue())
        return log

    got, want = run(DictWriter), run(csv.DictWriter)
    if got != want:
        ctx.fail("DictWriter differs from the csv module", got=got, want=want, names=(kind, names), restval=restval, extras=extras, steps=steps)
    ctx.event("rows written", sum(1 for x in want if isinstance(x, str)))
    if ("exc", "ValueError") in want:
        ctx.event("unknown keys")
    if kind in ("iter", "generator"):
        ctx.event("iterators as field names")
    ctx.nontrivial(repr(names), kind, extras, repr(steps))
    ctx.sample((names, steps))


def roundtrip(ctx, rng, i):
    """What is written is read back unchanged"""
    nc = rng.randint(1, 5)
    names = []
    while len(names) < nc:
        n = rng.choice(KEYS) + rng.choice(["", "1", "2"])
        if n not in names:
            names.append(n)
    items = []
    for _ in range(rng.randint(1, 6)):
        items.append({n: gen.cell_text(rng, (",", '"', "'", ";")) for n in names})
    spec = dialects.Spec(rng.choice(gen.COMMON_D), rng.choice(['"', "'"]), "", term=rng.choice(["\n", "\r\n"]))
    form = rng.choice(["name", "class", "instance", "kwargs", "simple"])
    seed = rng.random()
    path = os.path.join(ctx.env["scratch"], "c21_%d.csv" % os.getpid())
    how = rng.choice(["memory", "file", "wrapper"])
    shuffled = [dict(sorted(x.items(), key=lambda kv: rng.random())) for x in items]
    shuffled[0] = items[0]
    if how == "wrapper":
        sd = spec.simple()
        write_dicts(rng.choice([list, tuple, iter])(shuffled), path, dialect=sd, encoding="utf-8")
        got = [list(x.items()) for x in clevercsv.read_dicts(path, dialect=sd, encoding="utf-8")]
        os.unlink(path)
    else:
        f = io.StringIO(newline="") if how == "memory" else open(path, "w+", newline="", encoding="utf-8")
        fm = dialects.Form(random.Random(seed), spec, form, write=True)
        with fm:
            fk = dict(fm.kw)
            if fm.args:
                fk["dialect"] = fm.args[0]
            w = DictWriter(f, names, **fk)
            w.writeheader()
            if rng.random() < 0.5:
                w.writerows(shuffled)
            else:
                for x in shuffled:
                    w.writerow(x)
        f.seek(0)
        fm = dialects.Form(random.Random(seed), spec, form)
        with fm:
            fk = dict(fm.kw)
            if fm.args:
                fk["dialect"] = fm.args[0]
            got = [list(x.items()) for x in DictReader(f, **fk)]
        f.close()
        if how == "file":
            os.unlink(path)
    want = [list(x.items()) for x in items]
    if nc == 1:
        # a single empty cell is written with quotes
        pass
    if got != want:
        ctx.fail("the dictionaries aren't read back", got=got, want=want, how=how, form=form, spec=spec)
    ctx.event("items read back", len(items))
    ctx.nontrivial(how, repr(items))


def large(ctx, rng, i):
    """Many dictionaries, or many fields"""
    many(ctx, rng, *rng.choice([(2, 70000), (3, 5000), (3000, 5), (70000, 2), (300, 300)] if i % 8 else [(1, 240000)]))


def counts(ctx, rng, n):
    """As many items or fields as there can be in a batch, and one more or less"""
    many(ctx, rng, 1, n)
    if n < 30000 or n % 2:
        many(ctx, rng, n, 1)
    ctx.event("tables of round sizes")


def many(ctx, rng, nc, n):
    names = ["n%d" % k for k in range(nc)]
    cells = [gen.word(rng) + rng.choice(["", ",", '"', "\n"]) for _ in range(97)]
    items = [{f: cells[(a * 31 + b) % 97] for b, f in enumerate(names)} for a in range(n)]
    f = io.StringIO(newline="")
    w = DictWriter(f, names)
    w.writeheader()
    if rng.random() < 0.5:
        w.writerows(items)
    else:
        for x in items:
            w.writerow(x)
    k = csv.DictReader(io.StringIO(f.getvalue(), newline=""))
    bad = next((n for n, (x, y) in enumerate(itertools.zip_longest(items, k)) if x != y), None)
    ctx.check(bad is None, "item %r isn't written" % bad, fields=nc, items=n)
    f.seek(0)
    bad = next((n for n, (x, y) in enumerate(itertools.zip_longest(items, DictReader(f))) if y is None or x is None or list(x.items()) != list(y.items())), None)
    ctx.check(bad is None, "item %r isn't read back" % bad, fields=nc, items=n)
    ctx.event("items of large tables", n)
    ctx.nontrivial("large", nc, n, cells)


STRATA = [
    Stratum("wide", wide, 1500, 10000),
    Stratum("reading", reading, 150000, 600000),
    Stratum("writing", writing, 100000, 400000),
    Stratum("roundtrip", roundtrip, 50000, 200000),
    Stratum("large", large, 16, 200),
    Stratum("counts", counts, None, cases=gen.round_sizes(131073)),
]
