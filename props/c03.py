"""C03: what the writer writes, the reader reads back"""

import csv
import io

import clevercsv
from clevercsv.detect import Detector
from clevercsv.exceptions import Error

from lib import gen
from lib.dialects import FORMS, Form, Spec
from lib.engine import Stratum

ID = "C03"
RULE = (
    "A case is a table of strings, a dialect (with quoting and line "
    "terminator) and a form of passing it. The text written is compared with "
    "csv.writer's and read back with clevercsv.reader. Non-trivial: some cell "
    "holds a special character or a line end; distinct by table and dialect."
)
TECHNIQUE = "runtime monitoring: differential oracle (csv.writer) and round trip monitor"
LEVEL_NOTE = (
    "Random tables, dialects and forms; trusts csv.writer. Round trips are "
    "not required of dialects with QUOTE_NONE that name a quote character "
    "which occurs in the data, as the csv module escapes it needlessly."
)
REQUIRED = [
    "tables of round sizes read back",
    "texts compared",
    "dialects changed after use",
    "tables read back",
    "refusals compared",
    "detected dialects used",
    "classes without line terminator",
]


def make(rng):
    d, q, e = gen.dialect_chars(rng, empty=0.0)
    r = rng.random()
    if r < 0.2:
        q = ""
    if q and rng.random() < 0.6:
        e = ""
    term = rng.choice(["\r\n", "\n", "\r\n", "\r", "\n", "\r\n", "\n", rng.choice(["", "|\n", "\u2028"])])
    quoting = None
    if q:
        quoting = rng.choice(
            [csv.QUOTE_MINIMAL, csv.QUOTE_MINIMAL, csv.QUOTE_ALL, csv.QUOTE_NONNUMERIC]
        )
    dbl = True
    if q and e and rng.random() < 0.4:
        dbl = False
    return Spec(d, q, e, term=term, quoting=quoting, dbl=dbl)


def table(rng, spec):
    nc = rng.randint(1, 5)
    out = []
    for _ in range(rng.randint(0, 6)):
        n = nc if rng.random() < 0.8 else rng.randint(0, 6)
        out.append(
            [gen.cell_text(rng, [spec.d, spec.q, spec.e]) for _ in range(n)]
        )
    return out


def std_write(rows, **attrs):
    buf = io.StringIO(newline="")
    w = csv.writer(buf, **attrs)
    try:
        w.writerows(rows)
    except csv.Error as e:
        return buf.getvalue(), str(e)
    return buf.getvalue(), None


def write(rng, rows, f, mode, spoil=False):
    buf = io.StringIO(newline="")
    w = clevercsv.writer(buf, *f.args, **f.kw)
    if spoil:
        f.spoil()
    err = None
    rets = 0
    try:
        if mode == "rows":
            w.writerows(rows)
        elif mode == "iter":
            w.writerows(iter([tuple(r) for r in rows]))
        else:
            for r in rows:
                n = len(buf.getvalue())
                ret = w.writerow(iter(r) if mode == "lazy" else r)
                if ret != len(buf.getvalue()) - n:
                    return buf.getvalue(), "bad return value %r" % (ret,)
    except Error as e:
        err = str(e)
    return buf.getvalue(), err


def round_trip(ctx, rng, i):
    spec = make(rng)
    rows = table(rng, spec)
    form = rng.choice(FORMS)
    attrs = spec.attrs()
    if form == "simple":
        # these four components are all such a dialect has
        attrs.update(
            lineterminator="\n",
            doublequote=True,
            quoting=csv.QUOTE_MINIMAL if spec.q else csv.QUOTE_NONE,
        )
    mode = rng.choice(["rows", "iter", "row", "lazy"])
    want, want_err = std_write(rows, **attrs)
    with Form(rng, spec, form, write=True) as f:
        if form == "simple" and rng.random() < 0.5:
            attrs["lineterminator"] = f.kw["lineterminator"] = spec.term
            want, want_err = std_write(rows, **attrs)
        if form == "class" and rng.random() < 0.3:
            # a class that leaves the end of lines open gets a new line
            own = dict(attrs)
            attrs["lineterminator"] = "\n"
            del own["lineterminator"]
            cls = type("open", (csv.Dialect,), own)
            if f.args:
                f.args = (cls,)
            else:
                f.kw["dialect"] = cls
            want, want_err = std_write(rows, **attrs)
            ctx.event("classes without line terminator")
        spoil = form in ("name", "class", "instance", "simple") and rng.random() < 0.15
        got, err = write(rng, rows, f, mode, spoil)
        info = dict(rows=rows, spec=spec, form=form, mode=mode, args=(f.args, f.kw))
        ctx.same(err, want_err, "error differs from csv.writer", **info)
        ctx.same(got, want, "text differs from csv.writer", **info)
        ctx.event("texts compared")
        ctx.event("form " + form)
        if err is not None:
            ctx.event("refusals compared")
            return
        if spoil:
            ctx.event("dialects changed after use")
            return
        # read with the same dialect, and with its components
        rf = dict(f.kw)
        for k in ("lineterminator", "quoting", "doublequote", "skipinitialspace"):
            rf.pop(k, None)
        if "quotechar" in rf:
            rf["quotechar"] = spec.q
            rf["escapechar"] = spec.e
        back = list(
            clevercsv.reader(io.StringIO(got, newline=""), *f.args, **rf)
        )
    if attrs["lineterminator"] in ("\n", "\r\n", "\r"):
        ctx.same(back, rows, "not read back unchanged", text=got, **info)
        ctx.event("tables read back")
        ctx.event("cells read back", sum(map(len, rows)))
    if any(ch in c for r in rows for c in r for ch in (spec.d, spec.q, spec.e, "\n", "\r") if ch):
        ctx.nontrivial(rows, spec.key())
    ctx.sample((form, spec, rows))


def detected(ctx, rng, i):
    """Writing with the dialect that detection returned for some file"""
    sample = gen.messy(rng, rows=rng.randint(2, 6), cols=rng.randint(2, 4))
    dia = Detector().detect(sample)
    if dia is None or dia.delimiter == "":
        ctx.event("no delimiter detected")
        return
    chars = [c for c in (dia.delimiter, dia.quotechar, dia.escapechar) if c]
    if len(set(chars)) < len(chars):
        # one character with two meanings can't represent much
        ctx.event("ambiguous dialect detected")
        return
    spec = Spec(dia.delimiter, dia.quotechar, dia.escapechar)
    rows = table(rng, spec)
    buf = io.StringIO(newline="")
    try:
        clevercsv.writer(buf, dia).writerows(rows)
    except Error:
        if not spec.q and not spec.e:
            ctx.event("refusals compared")
            return
        if not spec.q and any(r == [""] for r in rows):
            ctx.event("refusals compared")
            return
        raise
    back = list(clevercsv.reader(io.StringIO(buf.getvalue(), newline=""), dia))
    ctx.same(back, rows, "not read back with the detected dialect", dialect=dia, text=buf.getvalue())
    ctx.event("detected dialects used")
    ctx.event("tables read back")
    ctx.nontrivial(rows, spec.key())


def large(ctx, rng, i):
    spec = make(rng)
    if spec.term not in ("\n", "\r", "\r\n"):
        spec.term = "\n"
    rows = table(rng, spec)
    n = rng.choice([3000, 9000, 40000] if i % 8 else [70000, 131000])
    for r in rows:
        for k in range(len(r)):
            if r[k] and rng.random() < 0.4:
                r[k] = (r[k] * (n // len(r[k]) + 1))[:n]
    want, want_err = std_write(rows, **spec.attrs())
    buf = io.StringIO(newline="")
    o = ctx.call(clevercsv.writer(buf, spec.cls()).writerows, rows)
    if want_err is not None:
        ctx.check(isinstance(o.exc, Error), "no Error", spec=spec, outcome=o)
        return
    ctx.check(o.ok, "failed", spec=spec, outcome=o)
    ctx.check(buf.getvalue() == want, "text of a large table differs", spec=spec)
    back = list(clevercsv.reader(io.StringIO(want, newline=""), spec.cls()))
    ctx.check(back == rows, "large table not read back", spec=spec)
    ctx.event("tables read back")
    ctx.maxi("largest text", len(want))


def huge(ctx, rng, i):
    """Hundreds of thousands of rows"""
    n = rng.randint(110000, 260000)
    pool = [[gen.word(rng), rng.choice(["", "x,y", 'q"r', "l\nm", gen.word(rng)])] for _ in range(97)]
    rows = [pool[k % 97] for k in range(n)] + [["last", "row"]]
    f, g = io.StringIO(newline=""), io.StringIO(newline="")
    w = clevercsv.writer(f)
    if i % 2:
        w.writerows(rng.choice([rows, iter(rows), tuple(rows)]))
    else:
        for r in rows:
            w.writerow(r)
    csv.writer(g).writerows(rows)
    ctx.check(f.getvalue() == g.getvalue(), "text of a huge table differs", rows=n, lengths=(len(f.getvalue()), len(g.getvalue())))
    f.seek(0)
    ctx.check(list(clevercsv.reader(f)) == rows, "a huge table isn't read back", rows=n)
    ctx.event("tables read back")
    ctx.maxi("rows of a table", n)


def counts(ctx, rng, n):
    """As many rows, columns and characters as there can be in a batch, and one more or less"""
    pool = [[gen.word(rng), rng.choice(["", "x,y", 'q"r', "l\nm", gen.word(rng)])] for _ in range(97)]
    rows = [pool[k % 97] for k in range(n)]
    for shape, rows in ("rows", rows), ("columns", [[r[1] for r in rows], ["x"]]), ("characters", [["x" * (n - 1) + "z", 'y"' * (n // 2)], ["x"]]):
        f, g = io.StringIO(newline=""), io.StringIO(newline="")
        clevercsv.writer(f).writerows(rng.choice([rows, iter(rows), tuple(rows)]))
        csv.writer(g).writerows(rows)
        ctx.check(f.getvalue() == g.getvalue(), "text of a table of a round size differs", size=n, shape=shape, lengths=(len(f.getvalue()), len(g.getvalue())))
        f.seek(0)
        ctx.check(list(clevercsv.reader(f)) == rows, "a table of a round size isn't read back", size=n, shape=shape)
        ctx.event("tables of round sizes read back")


STRATA = [
    Stratum("huge", huge, 4, 60),
    Stratum("counts", counts, None, cases=gen.round_sizes(131072)),
    Stratum("round_trip", round_trip, 192000, 800000),
    Stratum("detected", detected, 12000, 40000),
    Stratum("large", large, 100, 2000),
]
