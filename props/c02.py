"""C02: the reader is a drop-in replacement for csv.reader"""

import csv
import io

import clevercsv
from clevercsv.detect import Detector
from clevercsv.dialect import SimpleDialect

from lib import gen
from lib.dialects import FORMS, Form, Spec, serialise
from lib.engine import Inconclusive, Stratum

ID = "C02"
RULE = (
    "A case is a table, a dialect and a form of passing it; the table is "
    "serialised to well-formed CSV (quoted where needed and sometimes where "
    "not, doubled or escaped quotes, any line end) and read with csv.reader "
    "and clevercsv.reader. Non-trivial: some cell holds a special character "
    "or a line end; distinct by text and dialect."
)
TECHNIQUE = "runtime monitoring: differential oracle, the standard library's csv.reader on the same well-formed text"
LEVEL_NOTE = (
    "Random tables and dialects, every form of passing a dialect; trusts "
    "csv.reader and the serialiser's notion of well-formed text."
)
REQUIRED = ["texts of round sizes", "rows compared", "forms compared", "dialect attributes compared"]

csv.field_size_limit(1 << 30)


def make_spec(rng):
    d, q, e = gen.dialect_chars(rng, empty=0.0)
    if rng.random() < 0.25:
        q = ""
    if q and rng.random() < 0.6:
        e = ""
    if not q and not e and rng.random() < 0.7:
        e = "\\" if "\\" != d else "@"
    dbl = True
    if q and e and rng.random() < 0.5:
        dbl = False
    spec = Spec(d, q, e, strict=rng.random() < 0.3, dbl=dbl)
    if q and rng.random() < 0.4:
        # makes no difference when reading
        spec.quoting = csv.QUOTE_ALL
    if not q and rng.random() < 0.5:
        spec.unused_q = rng.choice([c for c in "\"'~" if c not in (d, e)])
    return spec


def make_table(rng, spec, allow_nl=True):
    specials = [spec.d, spec.q, spec.e]
    nc = rng.randint(1, 5)
    rows = []
    for _ in range(rng.randint(0, 6)):
        n = nc if rng.random() < 0.8 else rng.randint(0, 6)
        row = [gen.cell_text(rng, specials, nls=allow_nl) for _ in range(n)]
        rows.append(row)
    if not spec.q:
        # cells that can be written with escapes alone
        new = []
        for row in rows:
            row = [c.replace("\r", "").replace("\n", "") for c in row]
            if not spec.e:
                row = [c.replace(spec.d, "") for c in row]
            if row == [""]:
                row = []
            new.append(row)
        rows = new
    return rows


def std_read(text, spec):
    return list(csv.reader(io.StringIO(text, newline=""), **spec.attrs()))


def drop_in(ctx, rng, i):
    spec = make_spec(rng)
    rows = make_table(rng, spec)
    text = serialise(rng, rows, spec, rng.choice(["\n", "\r\n", "\r"]))
    if "\0" in text:
        return
    want = std_read(text, spec)
    if want != rows:
        raise Inconclusive("csv.reader disagrees: %r" % ((rows, want, text, spec),))
    form = rng.choice(FORMS)
    with Form(rng, spec, form) as f:
        src = rng.choice(["file", "lines", "generator"])
        fp = io.StringIO(text, newline="")
        if src == "lines":
            fp = list(fp)
        elif src == "generator":
            fp = (line for line in fp)
        rdr = clevercsv.reader(fp, *f.args, **f.kw)
        got = []
        spoil = rng.choice([None, None, None, 0, 1, 2])
        if spoil == 0 and f.spoil():
            ctx.event("dialects changed after use")
        for row in rdr:
            got.append(row)
            if spoil == len(got) and f.spoil():
                ctx.event("dialects changed after use")
            if rdr.line_num != len(got):
                ctx.fail("record counter", got=rdr.line_num, want=len(got))
        info = dict(text=text, spec=spec, form=form, source=src)
        ctx.same(got, want, "rows differ from csv.reader", **info)
        ctx.check(
            all(type(r) is list and all(type(c) is str for c in r) for r in got),
            "rows are not lists of str",
            **info,
        )
        dia = rdr.dialect
        used = (
            dia.delimiter,
            "" if dia.quoting == csv.QUOTE_NONE else dia.quotechar,
            dia.escapechar or "",
            bool(getattr(dia, "strict", False)),
        )
        ctx.same(used, (spec.d, spec.q, spec.e, spec.strict), "dialect attribute", **info)
        # the attribute can be used to read with the csv module
        if spec.dbl:
            again = list(csv.reader(io.StringIO(text, newline=""), dia))
            ctx.same(again, want, "csv.reader with reader.dialect", **info)
    ctx.event("rows compared", len(want))
    ctx.event("forms compared")
    ctx.event("form " + form)
    ctx.event("dialect attributes compared")
    if any(ch in c for r in rows for c in r for ch in (spec.d, spec.q, spec.e, "\n", "\r") if ch):
        ctx.nontrivial(text, spec.key())
    ctx.sample((form, spec, text))


def detected(ctx, rng, i):
    """Reading with the dialect object that detection returned"""
    cols = rng.randint(2, 4)
    d = rng.choice(gen.COMMON_D)
    rows = [
        [gen.word(rng) + rng.choice(["", d, '"']) if rng.random() < 0.3 else gen.word(rng) for _ in range(cols)]
        for _ in range(rng.randint(2, 8))
    ]
    text = gen.write_csv(rows, delimiter=d, quoting=csv.QUOTE_ALL)
    dia = Detector().detect(text)
    if dia is None or (dia.delimiter, dia.quotechar, dia.escapechar) != (d, '"', ""):
        ctx.event("detected another dialect")
        return
    got = list(clevercsv.reader(io.StringIO(text, newline=""), dia))
    ctx.same(got, rows, "rows with the detected dialect", text=text)
    ctx.event("rows compared", len(rows))
    ctx.event("detected dialects used")
    ctx.nontrivial(text)


def large(ctx, rng, i):
    """Tables with large cells and many rows"""
    spec = make_spec(rng)
    rows = make_table(rng, spec)
    n = rng.choice([5000, 20000, 60000] if i % 8 else [100000, 131000])
    for r in rows:
        for k in range(len(r)):
            if rng.random() < 0.3 and r[k]:
                r[k] = (r[k] * (n // len(r[k]) + 1))[:n]
                if not spec.q and r[k].endswith("\r"):
                    r[k] += "x"
    rows = rows * rng.choice([1, 5])
    text = serialise(rng, rows, spec, rng.choice(["\n", "\r\n"]))
    want = std_read(text, spec)
    if want != rows:
        raise Inconclusive("csv.reader disagrees")
    got = list(
        clevercsv.reader(
            io.StringIO(text, newline=""),
            delimiter=spec.d,
            quotechar=spec.q,
            escapechar=spec.e,
            strict=spec.strict,
        )
    )
    ctx.check(got == want, "rows of a large text differ", spec=spec)
    ctx.event("rows compared", len(want))
    ctx.maxi("largest text", len(text))


#: what the documentation describes, and the csv module's counterparts
NAMES = """QUOTE_ALL QUOTE_MINIMAL QUOTE_NONE QUOTE_NONNUMERIC __version__
field_size_limit Detector Sniffer excel excel_tab unix_dialect DictReader
DictWriter Error reader writer detect_dialect read_dataframe read_dicts
read_table stream_dicts stream_table write_table""".split()


def names(ctx, rng, how):
    """Every documented name is there, however the package is imported"""
    space = {}
    exec(how, space)
    module = space.get("csv")
    for n in NAMES:
        if module is not None:
            ctx.check(hasattr(module, n), "name is missing", how=how, name=n)
            v = getattr(module, n)
        else:
            ctx.check(n in space, "name is missing", how=how, name=n)
            v = space[n]
        ctx.check(v is getattr(clevercsv, n), "another object", how=how, name=n)
        if n.startswith("QUOTE"):
            ctx.same(v, getattr(csv, n), "constant differs from the csv module", name=n)
    text = 'a;"b;c"\r\nd;e\r\n'
    if module is None:
        rows = list(space["reader"](io.StringIO(text, newline=""), space["Sniffer"]().sniff(text)))
    else:
        rows = list(module.reader(io.StringIO(text, newline=""), module.Sniffer().sniff(text)))
    ctx.same(rows, [["a", "b;c"], ["d", "e"]], "rows with the imported names", how=how)
    ctx.event("imported names", len(NAMES))


def huge(ctx, rng, i):
    """Hundreds of thousands of rows, tens of thousands of columns"""
    pool = [[gen.word(rng), rng.choice(["", "x,y", 'q"r', "l\nm", gen.word(rng)])] for _ in range(97)]
    n = rng.randint(110000, 300000)
    rows = [pool[k % 97] for k in range(n)] + [["last", "row"]]
    if i % 4 == 3:
        n = rng.randint(70000, 200000)
        rows = [[pool[k % 97][1] for k in range(n)] + ["last"] for _ in range(3)]
    text = gen.write_csv(rows, lineterminator=rng.choice(["\n", "\r\n"]))
    want = list(csv.reader(io.StringIO(text, newline="")))
    r = clevercsv.reader(io.StringIO(text, newline=""))
    got = list(r)
    ctx.check(got == want, "rows of a huge text differ", rows=(len(got), len(want)), columns=len(want[0]))
    ctx.same(r.line_num, len(want), "record counter of a huge text")
    ctx.event("rows compared", len(want))
    ctx.maxi("rows", len(want))


def counts(ctx, rng, n):
    """As many rows and columns as there can be in a batch, and one more or less"""
    pool = [[gen.word(rng), rng.choice(["", "x,y", 'q"r', "l\nm", gen.word(rng)])] for _ in range(97)]
    rows = [pool[k % 97] for k in range(n)]
    for shape, rows in ("rows", rows), ("columns", [[r[1] for r in rows], ["x"]]):
        text = gen.write_csv(rows, lineterminator=rng.choice(["\n", "\r\n"]))
        if rng.random() < 0.5:
            text = text.rstrip("\r\n")
        want = list(csv.reader(io.StringIO(text, newline="")))
        source = rng.choice(["file", "lines", "generator"])
        if source == "file":
            lines = io.StringIO(text, newline="")
        else:
            lines = list(io.StringIO(text, newline=""))
            lines = iter(lines) if source == "generator" else lines
        r = clevercsv.reader(lines)
        got = list(r)
        ctx.check(got == want, "rows of a text of a round size differ", rows=(len(got), len(want)), columns=len(want[0]), source=source)
        ctx.same(r.line_num, len(want), "record counter of a text of a round size", rows=n)
        ctx.event("texts of round sizes")


STRATA = [
    Stratum("huge", huge, 4, 60),
    Stratum("counts", counts, None, cases=gen.round_sizes(131073)),
    Stratum("names", names, None, cases=["from clevercsv import *", "import clevercsv as csv", "from clevercsv import " + ", ".join(NAMES)]),
    Stratum("drop_in", drop_in, 192000, 800000),
    Stratum("detected", detected, 6400, 20000),
    Stratum("large", large, 100, 2000),
]
