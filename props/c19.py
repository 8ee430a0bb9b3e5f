"""C19: all loading functions agree with detecting and reading by hand"""

import csv
import io
import itertools
import os
import warnings
from pathlib import Path

import clevercsv
from clevercsv.detect import Detector
from clevercsv.dialect import SimpleDialect
from clevercsv.encoding import get_encoding
from clevercsv.exceptions import NoDetectionResult
from clevercsv.wrappers import stream_dicts, stream_table

from lib import files, gen
from lib.engine import Stratum

ID = "C19"
RULE = (
    "A case is a file (content and encoding), options, a kind of path and a "
    "way of consuming the result; the rows, or the error and the rows before "
    "it, are compared with the composition done by hand from the bytes: "
    "decode, detect on the sample, read everything, make dictionaries. "
    "Non-trivial: at least two rows; distinct by file content and options."
)
TECHNIQUE = "runtime monitoring: results of the loading functions checked against a composition from the bytes of the file, over files with generated content, encodings and options"
LEVEL_NOTE = "Detection and reading by hand use the detector and the reader, whose own behaviour C01 to C17 check; decoding is Python's."
REQUIRED = [
    "huge files",
    "tables compared",
    "streams compared",
    "dictionaries compared",
    "failed detections",
    "partial samples",
    "given dialects",
    "detected encodings",
    "byte order marks",
    "decoding errors",
    "samples that can't be decoded",
    "dialects compared",
]
BUDGET = {"quick": 300, "thorough": 2400}


class Nothing(Exception):
    pass


def by_hand(path, dialect, encoding, num_chars):
    """Rows (a list) by hand; the documented exceptions come out"""
    if encoding is None:
        encoding = get_encoding(path)
    # the default of open(), as get_encoding may know nothing
    with open(path, "r", newline="", encoding=encoding) as f:
        text = f.read()
    if dialect is None:
        sample = text[:num_chars] if num_chars else text
        dialect = Detector().detect(sample)
        if dialect is None:
            raise NoDetectionResult()
    return list(clevercsv.reader(io.StringIO(text, newline=""), dialect)), dialect


def decodable(data, enc):
    """At most how many characters can be decoded before the error?"""
    try:
        data.decode(enc)
    except UnicodeDecodeError as e:
        return e.start
    except (UnicodeError, LookupError, TypeError):
        pass
    return None


def dictionaries(rows):
    if not rows:
        return []
    names = rows[0]
    out = []
    for row in rows[1:]:
        if row == []:
            continue
        d = {}
        for k, v in zip(names, row):
            d[k] = v
        if len(row) > len(names):
            d[None] = row[len(names) :]
        for k in names[len(row) :]:
            d[k] = None
        out.append(d)
    return out


def given_dialect(rng, text):
    r = rng.random()
    if r < 0.55:
        return None
    if r < 0.65:
        return rng.choice(["excel", "excel-tab", "unix"])
    if r < 0.75:
        return rng.choice([csv.excel, csv.excel_tab(), csv.get_dialect("unix")])
    d, q, e = gen.dialect_chars(rng)
    return SimpleDialect(d, q, e, strict=rng.random() < 0.15)


def key(out):
    if out.exc is None:
        return ("ok", out.value)
    return ("exc", type(out.exc).__name__, str(out.exc))


def case(ctx, rng, i):
    text = files.content(rng)
    data, enc = files.encode(rng, text)
    if rng.random() < 0.06:
        data = data[: len(data) // 2] + rng.choice([b"\xff\xfe\xff", b"\xe9", b"\x81"]) + data[len(data) // 2 :]
    dialect = given_dialect(rng, text)
    r = rng.random()
    if r < 0.5:
        num = None
    elif r < 0.6:
        num = rng.choice([0, 1, 2, 3])
    else:
        num = rng.randint(1, len(text) + 5)
    with files.File(data, "c19.csv") as path:
        judge(ctx, rng, path, data, dialect, enc, num)


def judge(ctx, rng, path, data, dialect, enc, num):
    info = dict(data=data[:3000], dialect=dialect, encoding=enc, num_chars=num)
    want = ctx.call(by_hand, path, dialect, enc, num)
    if want.exc is None:
        rows, used = want.value
        wrows = ("ok", rows)
        wdicts = ("ok", dictionaries(rows))
    else:
        wrows = wdicts = key(want)
        if isinstance(want.exc, NoDetectionResult):
            ctx.event("failed detections")
        elif isinstance(want.exc, UnicodeError):
            ctx.event("decoding errors")
        elif isinstance(want.exc, clevercsv.Error):
            ctx.event("parsing errors")
        else:
            # an encoding that Python doesn't know, or similar
            ctx.event("other errors")
    if dialect is not None:
        ctx.event("given dialects")
    elif num:
        ctx.event("partial samples")
    if enc is None:
        ctx.event("detected encodings")
    if data[:2] in (b"\xff\xfe", b"\xfe\xff") or data[:3] == b"\xef\xbb\xbf":
        ctx.event("byte order marks")
    p = rng.choice([path, path, Path(path), os.fsencode(path)])
    kw = dict(dialect=dialect, encoding=enc, num_chars=num)
    if dialect is None and rng.random() < 0.5:
        del kw["dialect"]
    if num is None and rng.random() < 0.5:
        del kw["num_chars"]

    def same(got, w, name):
        # reading in pieces may report the same decoding error differently
        if got[0] == "exc" and w[0] == "exc" and "Unicode" in w[1]:
            ok = "Unicode" in got[1] or got[1] in ("Error", "NoDetectionResult")
        elif got[0] == "exc" and w[0] == "exc":
            ok = got[1] == w[1]
        else:
            ok = got == w
        if not ok:
            ctx.fail("%s differs from loading by hand" % name, got=got, want=w, **info)

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = ctx.call(clevercsv.read_table, p, **kw)
        ctx.event("tables compared")
        same(key(out), wrows, "read_table")
        out = ctx.call(lambda: [dict(x) for x in clevercsv.read_dicts(p, **kw)])
        ctx.event("dictionaries compared")
        same(key(out), wdicts, "read_dicts")
        if key(out)[0] == "ok" and [list(x) for x in out.value] != [list(x) for x in wdicts[1]]:
            ctx.fail("the keys of read_dicts are in another order", got=out.value, want=wdicts[1], **info)
        stream(ctx, rng, clevercsv.stream_table(p, **kw), wrows, same, "stream_table")
        stream(ctx, rng, (dict(x) for x in clevercsv.stream_dicts(p, **kw)), wdicts, same, "stream_dicts")
        # two streams of the same file take turns
        if wrows[0] == "ok" and rng.random() < 0.3:
            a = clevercsv.stream_table(p, **kw)
            b = (dict(x) for x in clevercsv.stream_dicts(p, **kw))
            ga, gb = [], []
            for x, y in itertools.zip_longest(a, b, fillvalue=same):
                if x is not same:
                    ga.append(x)
                if y is not same:
                    gb.append(y)
            same(("ok", ga), wrows, "stream_table next to stream_dicts")
            same(("ok", gb), wdicts, "stream_dicts next to stream_table")
        if rng.random() < 0.5:
            method = rng.choice(["auto", "normal", "consistency"])
            skip = rng.random() < 0.7

            def detect():
                e = enc or get_encoding(path)
                with open(path, "r", newline="", encoding=e) as f:
                    t = f.read()
                return Detector().detect(t[:num] if num else t, method=method, skip=skip)

            w = key(ctx.call(detect))
            got = key(ctx.call(clevercsv.detect_dialect, p, num_chars=num, encoding=enc, method=method, skip=skip))
            if w[0] == "exc" and "Unicode" in w[1] and num:
                # only the sample has to be decodable, and it must be
                size = decodable(data, enc or get_encoding(path))
                if size is not None and size < num:
                    ctx.event("samples that can't be decoded")
                    same(got, w, "detect_dialect")
            elif not (w[0] == "exc" and num):
                ctx.event("dialects compared")
                same(got, w, "detect_dialect")
    if wrows[0] == "ok" and len(wrows[1]) > 1:
        ctx.nontrivial(data, repr(kw))
    ctx.sample((data[:200], kw))


def stream(ctx, rng, it, want, same, name):
    got = []
    ctx.event("streams compared")
    out = ctx.call(lambda: [got.append(x) for x in it])
    if out.exc is None:
        same(("ok", got), want, name)
    else:
        if isinstance(out.exc, NoDetectionResult) and got:
            ctx.fail("%s gives rows before failing detection" % name, got=got)
        same(key(out), want, name)


def limited(ctx, rng, i):
    """A sample that shows less than the file: all of the data is loaded"""
    d = rng.choice(gen.COMMON_D)
    nl = rng.choice(["\n", "\r\n"])
    rows = [[gen.word(rng) for _ in range(3)] for _ in range(rng.randint(4, 10))]
    head = nl.join(d.join(r) for r in rows[:3]) + nl
    tail = rng.choice([d + '"x' + d, "\u00e9;;|\t" + nl, '"' + d + nl + '"' + nl, gen.noise(rng, 20).replace("\0", "")])
    text = nl.join(d.join(r) for r in rows) + nl + tail
    for enc in (rng.choice(["utf-8", "utf-16", "utf-8-sig"]),):
        data = text.encode(enc)
        with files.File(data, "c19.csv") as path:
            judge(ctx, rng, path, data, None, enc, rng.randint(len(head) - len(nl) - 1, len(head) + 1))
    ctx.event("tails beyond the sample")


def late(ctx, rng, i):
    """Large files whose last rows decide on the dialect"""
    text = gen.wide(rng)[3] if i % 3 == 2 else gen.late(rng, 1100000 if i % 16 == 7 else None)
    data = text.encode("utf-8")
    num = rng.choice([None, None, None, len(text), len(text) - 1, 65536])
    with files.File(data, "c19.csv") as path:
        judge(ctx, rng, path, data, None, rng.choice(["utf-8", None]), num)
    ctx.event("late evidence")
    ctx.maxi("bytes of a file", len(data))


def huge(ctx, rng, i):
    """Hundreds of thousands of rows, most of them alike"""
    n = rng.randint(105000, 290000)
    kinds = ["a,b\n", 'x,"y\nz"\n', "1,\n"]
    rows = [["a", "b"], ["x", "y\nz"], ["1", ""]]
    ks = [rng.randrange(3) for _ in range(50)]
    text = "h,i\n" + "".join(kinds[k] for k in ks) * (n // 50) + "last,row\n"
    want = [["h", "i"]] + [rows[k] for k in ks] * (n // 50) + [["last", "row"]]
    with files.File(text.encode("ascii"), "c19.csv") as path:
        for dialect, num in ((None, 3000), ("excel", None)):
            if dialect is None and Detector().detect(text[:3000]) != SimpleDialect(",", '"', ""):
                # the quotes don't show in each of the samples
                ctx.event("samples of another dialect")
                continue
            kw = dict(dialect=dialect, num_chars=num, encoding=rng.choice(["ascii", "utf-8"]))
            for name, fn, expected in (
                ("read_table", lambda: clevercsv.read_table(path, **kw), want),
                ("stream_table", lambda: list(clevercsv.stream_table(path, **kw)), want),
                ("read_dicts", lambda: [list(d.items()) for d in clevercsv.read_dicts(path, **kw)], [[("h", a), ("i", b)] for a, b in want[1:]]),
                ("stream_dicts", lambda: [list(d.items()) for d in clevercsv.stream_dicts(path, **kw)], [[("h", a), ("i", b)] for a, b in want[1:]]),
            ):
                got = fn()
                ctx.check(got == expected, "%s of a huge file" % name, rows=len(got), expected=len(expected), options=kw, text=text[:300])
                ctx.event("huge files")
    ctx.nontrivial("huge", text[:300], n)
    ctx.maxi("rows of a file", len(want))


def counts(ctx, rng, n):
    """As many rows, columns or characters as there can be in a batch or block, and one more or less"""
    words = [gen.word(rng) for _ in range(7)]
    rows = [[words[k % 7], words[k % 5]] for k in range(n)]
    text = "a,b\n" * (n // 4)
    text += "z" * (n - len(text))
    for shape, data in ("rows", rows), ("columns", [["%s%d" % (words[0], k) for k in range(n)], words[1:2] * n, words[2:3] * n]), ("characters", None):
        if data is None:
            data = [r.split(",") for r in text.split("\n") if r]
            content = text
        else:
            content = "\n".join(map(",".join, data)) + rng.choice(["\n", ""])
        with files.File(content.encode("ascii"), "c19.csv") as path:
            kw = dict(dialect="excel", encoding=rng.choice(["ascii", "utf-8", None]))
            got = clevercsv.read_table(path, **kw)
            ctx.check(got == data, "read_table of a file of a round size", size=n, shape=shape, rows=len(got), options=kw)
            got = list(clevercsv.stream_table(path, **kw))
            ctx.check(got == data, "stream_table of a file of a round size", size=n, shape=shape, rows=len(got), options=kw)
            if shape == "rows" and data[0][0] != data[0][1] and n <= 30000:
                want = [dict(zip(data[0], r)) for r in data[1:]]
                for name in "read_dicts", "stream_dicts":
                    got = list(getattr(clevercsv, name)(path, **kw))
                    ctx.check(got == want, "%s of a file of a round size" % name, size=n, shape=shape, items=len(got), options=kw)
            if shape == "columns" and n <= 30000:
                want = [dict(zip(data[0], r)) for r in data[1:]]
                got = clevercsv.read_dicts(path, **kw)
                ctx.check(got == want, "read_dicts of a file of a round size", size=n, shape=shape, items=len(got), options=kw)
        ctx.event("files of round sizes")


STRATA = [
    Stratum("huge", huge, 3, 60),
    Stratum("counts", counts, None, cases=gen.round_sizes(131073)),
    Stratum("case", case, 2500, 40000),
    Stratum("limited", limited, 500, 8000),
    Stratum("late", late, 36, 600),
]
