"""C20: data frames hold the same data as the table"""

import csv
import io
import os
import tempfile
import warnings
from pathlib import Path

import clevercsv
import pandas as pd
from clevercsv.encoding import get_encoding
from clevercsv.exceptions import NoDetectionResult

from lib import files, gen
from lib.engine import Stratum

ID = "C20"
RULE = (
    "A case is a file with a regular table, options for pandas, an encoding "
    "and a limit for detection. The data frame is compared with the table "
    "that read_table loads from the same file, to which the options are "
    "applied by hand. Non-trivial: at least two rows and columns; distinct "
    "by file content and options."
)
TECHNIQUE = "runtime monitoring: data frames checked against the loaded table of the same file, over generated regular tables, encodings and options"
LEVEL_NOTE = (
    "Regular tables: rows of equal length with at least two columns, unique "
    "non-empty names, the first cell of a row does not begin with a blank "
    "(pandas strips it), quotes as csv.writer places them; values are read as "
    "text (dtype=str). Trusts pandas to parse standard CSV."
)
REQUIRED = [
    "data frames compared",
    "limited samples",
    "detected encodings",
    "rejected paths",
    "option nrows",
    "option usecols",
    "option header",
    "option dtype",
    "failed detections",
    "warnings passed on",
    "conflicting options",
]
BUDGET = {"quick": 300, "thorough": 2400}

CELLS = ["a", "b c", "x1", "42", "3.14", "-7", "2019-01-02", "12:30", "it is", "N/A", "nan", "NULL", "True", "1e5", "0x1F", "007", "", "", "\u00e9", "\u4e2d\u6587", "\U0001f600", "10%", "$5", "a@b.co", "www.x.org", "/usr/bin", "#", "?", "-"]


def table(rng):
    nc = rng.randint(2, 6)
    nr = rng.choice([2, 3, 4, 6, 12]) if rng.random() < 0.93 else rng.choice([200, 900])
    rows = [[gen.word(rng, 1, 6) + str(k) for k in range(nc)]]
    quoted = rng.random() < 0.5
    for _ in range(nr - 1):
        row = []
        for c in range(nc):
            x = rng.choice(CELLS) if rng.random() < 0.7 else gen.word(rng)
            if quoted and rng.random() < 0.25:
                x += rng.choice([",", ";", "|", "\t", '"', '""', "\n", "\r\n", "\r", " ", 'x "y" z', "'"])
            if c == 0 and (x == "" or x[0].isspace()):
                x = "q" + x
            row.append(x)
        rows.append(row)
    return rows


def regular(rows, text, dialect):
    """Is the loaded table one that pandas must see in the same way?"""
    if len(rows) < 2 or len(rows[0]) < 2:
        return False
    if len(set(map(len, rows))) > 1:
        return False
    names = rows[0]
    if len(set(names)) < len(names) or any(n.strip() == "" or "." in n for n in names):
        return False
    for r in rows:
        if r[0] == "" or r[0][0].isspace():
            return False
    if dialect.escapechar or not dialect.delimiter:
        return False
    # quotes as csv.writer places them
    try:
        std = list(csv.reader(io.StringIO(text, newline=""), dialect.to_csv_dialect(), strict=True))
    except csv.Error:
        return False
    if std != rows:
        return False
    q = dialect.quotechar
    for k, c in enumerate(text):
        if q and c == q:
            before = text[k - 1] if k else "\n"
            after = text[k + 1] if k + 1 < len(text) else "\n"
            if not (before in (dialect.delimiter, "\n", "\r", q) or after in (dialect.delimiter, "\n", "\r", q)):
                return False
    return "\0" not in text


def frame_rows(df):
    return [list(df.columns)] + df.values.tolist()


BASE = dict(dtype=str, keep_default_na=False, na_filter=False)


def case(ctx, rng, i):
    rows = table(rng)
    d = rng.choice(gen.COMMON_D + [",", ":"])
    text = gen.write_csv(
        rows,
        delimiter=d,
        quoting=rng.choice([0, 0, 1]),
        quotechar=rng.choice(['"', '"', "'"]),
        lineterminator=rng.choice(["\n", "\r\n", "\r"]),
    )
    if rng.random() < 0.2:
        text = text.rstrip("\r\n")
    data, enc = files.encode(rng, text)
    num = None if rng.random() < 0.6 else rng.randint(1, len(text) + 3)
    with files.File(data, "c20.csv") as path:
        judge(ctx, rng, path, data, enc, num)


def judge(ctx, rng, path, data, enc, num, option=None):
    info = dict(data=data[:2000], encoding=enc, num_chars=num)
    e = enc or get_encoding(path)
    out = ctx.call(clevercsv.detect_dialect, path, num_chars=num, encoding=e)
    kw = dict(BASE)
    if enc is not None:
        kw["encoding"] = enc
    else:
        ctx.event("detected encodings")
    if num:
        ctx.event("limited samples")
        kw["num_chars"] = num
    p = rng.choice([path, Path(path)])
    if out.exc is not None or out.value is None:
        got = ctx.call(clevercsv.read_dataframe, p, **kw)
        want = NoDetectionResult if out.exc is None else type(out.exc)
        if not isinstance(got.exc, want):
            ctx.fail("detection fails, read_dataframe doesn't", got=got, want=want, **info)
        ctx.event("failed detections")
        return
    dialect = out.value
    tab = ctx.call(clevercsv.read_table, path, dialect=dialect, encoding=e)
    if tab.exc is not None:
        ctx.event("unreadable")
        return
    rows = tab.value
    text = files.text_of(path, e)
    if not regular(rows, text, dialect):
        ctx.event("not regular")
        return
    want = [list(r) for r in rows]
    args = ()
    conflict = False
    option = rng.choice(["none", "none", "nrows", "usecols", "header", "names", "skiprows", "dtype", "index_col", "converters", "sep", "chunksize", "na", "skipfooter", "names longer"] if option is None else [option])
    if option == "nrows":
        n = rng.randint(0, len(rows)) if rng.random() < 0.5 else len(rows)
        kw["nrows"] = n
        want = want[: n + 1]
    elif option == "usecols":
        k = sorted(rng.sample(range(len(rows[0])), rng.randint(1, len(rows[0]))))
        kw["usecols"] = k if rng.random() < 0.5 else [rows[0][c] for c in k]
        want = [[r[c] for c in k] for r in want]
    elif option == "header":
        kw["header"] = None
        want = [list(range(len(rows[0])))] + want
    elif option == "names":
        names = ["n%d" % c for c in range(len(rows[0]))]
        kw["names"] = names
        kw["header"] = 0
        want[0] = names
    elif option == "skiprows":
        if len(rows) < 3 or any("\n" in c or "\r" in c for r in rows for c in r):
            option = "none"
        else:
            kw["skiprows"] = [1]
            del want[1]
    elif option == "dtype":
        kw["dtype"] = object
        kw["dtype"] = {c: str for c in rows[0]}
    elif option == "converters":
        c = rows[0][0]
        del kw["dtype"]
        kw["converters"] = {n: (lambda s: s) for n in rows[0]}
        kw["converters"][c] = lambda s: "<" + s + ">"
        want = [want[0]] + [["<" + r[0] + ">"] + r[1:] for r in want[1:]]
    elif option == "sep":
        kw[rng.choice(["sep", "delimiter", "quotechar"])] = rng.choice(["#", "~"])
        conflict = True
    elif option == "skipfooter":
        # pandas warns that it must use another engine
        kw["skipfooter"] = 1
        if any("\n" in c or "\r" in c for r in rows for c in r) or "\r" in text:
            del kw["skipfooter"]
            option = "none"
        else:
            want = want[:-1]
    elif option == "names longer":
        # pandas warns about the number of names
        kw["index_col"] = False
        kw["names"] = ["n%d" % c for c in range(len(rows[0]) - 1)]
        kw["header"] = 0
        want = [kw["names"]] + [r[:-1] for r in want[1:]]
    elif option == "na":
        kw["na_filter"] = True
        kw["na_values"] = ["42", ""]
        want = [want[0]] + [[None if x in ("42", "") else x for x in r] for r in want[1:]]
    filters = list(warnings.filters)
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        if option == "index_col":
            kw["index_col"] = 0
            df = clevercsv.read_dataframe(p, **kw)
            got = [[df.index.name] + list(df.columns)] + [[a] + b for a, b in zip(df.index.tolist(), df.values.tolist())]
        elif option == "chunksize":
            if len(rows) < 3:
                df = clevercsv.read_dataframe(p, **kw)
                got = frame_rows(df)
            else:
                kw["chunksize"] = 2
                with clevercsv.read_dataframe(p, **kw) as it:
                    df = pd.concat(list(it))
                got = frame_rows(df)
        else:
            df = clevercsv.read_dataframe(p, **kw)
            got = frame_rows(df)
    if option == "na":
        got = [got[0]] + [[None if x != x else x for x in r] for r in got[1:]]
    if got != want:
        ctx.fail("the data frame differs from the table", got=got, want=want, options={k: repr(v) for k, v in kw.items()}, dialect=dialect, **info)
    ctx.event("data frames compared")
    ctx.event("option " + option)
    if conflict:
        ctx.event("conflicting options")
        bad = [w for w in log if "Conflicting values" in str(w.message)]
        if bad:
            ctx.fail("warning about the dialect that the caller hasn't given", message=str(bad[0].message))
    if option != "chunksize":
        # what pandas warns about otherwise arrives
        by_hand = dict(kw, encoding=e, dialect=dialect.to_csv_dialect())
        by_hand.pop("num_chars", None)
        with warnings.catch_warnings(record=True) as log2:
            warnings.simplefilter("always")
            pd.read_csv(path, **by_hand)
        seen = [(w.category.__name__, str(w.message)) for w in log]
        expected = [(w.category.__name__, str(w.message)) for w in log2]
        ctx.same(
            [w for w in seen if "Conflicting values" not in w[1]],
            [w for w in expected if "Conflicting values" not in w[1]],
            "warnings",
            options={k: repr(v) for k, v in kw.items()},
            **info
        )
        ctx.event("warnings compared")
        ctx.event("warnings passed on", sum("Conflicting values" not in w[1] for w in seen))
    if list(warnings.filters) != filters:
        ctx.fail("the warning filters changed")
    ctx.nontrivial(data, option, num)
    ctx.sample((data[:200], option, enc, num))


def paths(ctx, rng, i):
    """Only regular files are accepted"""
    base = tempfile.mkdtemp(dir=ctx.env["scratch"])
    missing = os.path.join(base, "missing.csv")
    fifo = os.path.join(base, "pipe.csv")
    os.mkfifo(fifo)
    dangling = os.path.join(base, "dangling.csv")
    os.symlink(missing, dangling)
    for p in (base, missing, fifo, dangling, Path(base), Path(missing), "/dev/null", ""):
        out = ctx.call(clevercsv.read_dataframe, p)
        if not isinstance(out.exc, ValueError):
            ctx.fail("%r isn't a regular file" % p, got=out)
        ctx.event("rejected paths")
    good = os.path.join(base, "good.csv")
    with open(good, "w") as f:
        f.write("a,b\n1,2\n")
    link = os.path.join(base, "link.csv")
    os.symlink(good, link)
    for p in (good, link, Path(link)):
        df = clevercsv.read_dataframe(p)
        if frame_rows(df) != [["a", "b"], [1, 2]]:
            ctx.fail("a regular file isn't loaded", path=p, got=df)
    for f in os.listdir(base):
        os.unlink(os.path.join(base, f))
    os.rmdir(base)


def nothing(ctx, rng, i):
    """Files without a dialect"""
    text = rng.choice(["", "\n", "a b c\nd,e;f\n\"", "-,-\n,-,", " ,;|", gen.sample_text(rng)])
    with files.File(text.encode("utf-8"), "c20.csv") as path:
        judge(ctx, rng, path, text.encode("utf-8"), rng.choice(["utf-8", None]), None)


def single(ctx, rng, i):
    """Files with one column, for which detection gives the empty delimiter"""
    rows = [gen.word(rng, 2, 6) + str(k) for k in range(rng.randint(2, 6))]
    text = "\n".join(rows) + "\n"
    with files.File(text.encode("ascii"), "c20.csv") as path:
        d = clevercsv.detect_dialect(path)
        if d is None or d.delimiter:
            return
        out = ctx.call(clevercsv.read_dataframe, path, **BASE)
        ctx.event("files with a single column")
        if isinstance(out.exc, (csv.Error, clevercsv.Error)) and "delimiter" in str(out.exc):
            ctx.fail("a file with a single column can't be loaded", key="single-column", got=out)
        elif out.exc is not None:
            ctx.fail("read_dataframe fails", text=text, got=out)
        elif frame_rows(out.value) != [[x] for x in rows]:
            ctx.fail("the data frame differs from the table", text=text, got=frame_rows(out.value))


def late(ctx, rng, i):
    """Large files whose last rows decide on the dialect"""
    if i % 3 == 2:
        text = gen.wide(rng, True)[3]
    else:
        kind = rng.choice([None, "quotes", "quotes", "both"])
        size = 1100000 if i % 16 == 7 else rng.choice([None, 67000, 70000, 132000])
        text = gen.late(rng, size, kind)
        if i % 24 == 1:
            text = "id,word\n" + "".join("%d,%s\n" % (k, ["abc", "foo", "x y", "bar"][k % 4]) for k in range(110000))
    data = text.encode("utf-8")
    with files.File(data, "c20.csv") as path:
        judge(
            ctx, rng, path, data, rng.choice(["utf-8", None]), rng.choice([None, None, None, len(text) - 1]),
            rng.choice([None, "nrows", "nrows", "usecols", "chunksize", "header"]),
        )
    ctx.event("late evidence")
    ctx.maxi("bytes of a file", len(data))


STRATA = [
    Stratum("case", case, 6000, 60000),
    Stratum("paths", paths, 8, 20),
    Stratum("single", single, 8, 40),
    Stratum("nothing", nothing, 300, 3000),
    Stratum("late", late, 48, 600),
]
