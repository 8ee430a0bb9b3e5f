"""C31: writing helpers write the whole table or refuse"""

import collections
import csv
import io
import os
import pathlib
import shutil
import tempfile
import types

import clevercsv
from clevercsv.wrappers import write_dicts, write_table

from lib import dialects, gen
from lib.engine import Stratum

ID = "C31"
RULE = (
    "A case is a table or a list of dictionaries given as some kind of "
    "iterable, a dialect in some form, an encoding, a kind of path and a "
    "state of the file before the call. The bytes of the file are compared "
    "with those of the csv module's writer and of the package's writer; for "
    "refused and empty tables the folder and the file are compared with "
    "snapshots taken before. Non-trivial: at least two rows; distinct by "
    "table, dialect, encoding and options."
)
TECHNIQUE = "runtime monitoring: file contents and file system snapshots compared with reference writers over generated tables, iterables, dialects, encodings and paths"
LEVEL_NOTE = "Random tables of up to a few thousand rows; trusts csv.writer and csv.DictWriter for the bytes."
REQUIRED = [
    "huge files",
    "tables written",
    "tables transposed",
    "ragged tables refused",
    "empty tables",
    "dictionaries written",
    "empty lists of dictionaries",
    "existing files replaced",
    "existing files untouched",
    "one-shot iterators",
    "files larger than buffers",
    "written through descriptors",
    "written through links",
    "read back",
]


class Seq:
    """The old way of iterating"""

    def __init__(self, x):
        self.x = x

    def __getitem__(self, k):
        return self.x[k]


class Iter:
    def __init__(self, x):
        self.x = x

    def __iter__(self):
        return iter(self.x)


def iterable(ctx, rng, x):
    """x as some kind of iterable; lists are the most common"""
    kind = rng.choice(["list", "list", "tuple", "iter", "gen", "map", "deque", "seq", "class", "dictvalues"])
    if kind in ("iter", "gen", "map"):
        ctx.event("one-shot iterators")
    return {
        "list": list,
        "tuple": tuple,
        "iter": iter,
        "gen": lambda v: (y for y in v),
        "map": lambda v: map(lambda y: y, v),
        "deque": collections.deque,
        "seq": Seq,
        "class": Iter,
        "dictvalues": lambda v: dict(enumerate(v)).values(),
    }[kind](list(x))


ENC = [None, None, None, "utf-8", "utf-8-sig", "utf-16", "utf-16-le", "utf-32", "latin-1", "ascii", "cp1252", "shift_jis", "utf-7"]


def some_dialect(rng):
    """(form or None for the default, reference class)"""
    r = rng.random()
    if r < 0.3:
        return None, csv.excel
    if r < 0.5:
        name = rng.choice(["excel", "excel-tab", "unix"])
        return name, csv.get_dialect(name)
    d = rng.choice(",;|\t^\u00a6\u3001")
    q = rng.choice(['"', "'", "~"])
    spec = dialects.Spec(
        d,
        q,
        rng.choice(["", "", "\\"]),
        term=rng.choice(["\n", "\r\n", "\r", "!\n"]),
        quoting=rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL, csv.QUOTE_NONNUMERIC]),
    )
    form = rng.choice(["class", "instance", "simple"])
    if form == "simple":
        return spec.simple(), None
    return (spec.cls() if form == "class" else spec.cls()()), spec.cls()


def cell(rng, d):
    r = rng.random()
    if r < 0.1:
        return rng.choice([None, 0, -5, 2.5, True, 10**20])
    if r < 0.5:
        return gen.word(rng)
    return gen.cell_text(rng, [",", '"', ";", "\\"])


class Place:
    """A path to write to, and what is there before"""

    def __init__(self, ctx, rng, folder):
        self.folder = folder
        self.real = os.path.join(folder, rng.choice(["out.csv", "o ut.csv", "\u00e9.csv", "\udcff.csv", "-", "{x}%s.csv"]))
        self.existing = None
        self.fd = None
        if rng.random() < 0.6:
            n = rng.choice([0, 1, 20, 200, 30000])
            self.existing = os.urandom(1).hex().encode() * n
            with open(self.real, "wb") as f:
                f.write(self.existing)
            os.chmod(self.real, rng.choice([0o644, 0o600, 0o664]))
        with open(os.path.join(folder, "bystander.csv"), "w") as f:
            f.write("a,b\n")
        r = rng.random()
        self.path = self.real
        self.kind = "str"
        if r < 0.15:
            self.path = pathlib.Path(self.real)
            self.kind = "path"
        elif r < 0.3:
            self.path = os.fsencode(self.real)
            self.kind = "bytes"
        elif r < 0.4:
            self.path = os.path.join(folder, "link")
            os.symlink(os.path.basename(self.real), self.path)
            self.kind = "link"
        elif r < 0.5 and self.existing is not None:
            self.path = self.fd = os.open(self.real, os.O_WRONLY)
            os.set_inheritable(self.fd, False)
            self.kind = "fd"
        elif r < 0.6:
            self.path = os.path.relpath(self.real)
            self.kind = "relative"
        if self.kind in ("str", "path", "bytes", "relative") and rng.random() < 0.3 and self.existing is not None:
            os.utime(self.real, ns=(10**18, 10**18))
        self.before = self.snapshot()

    def snapshot(self):
        out = {}
        for name in sorted(os.listdir(self.folder)):
            p = os.path.join(self.folder, name)
            st = os.lstat(p)
            out[name] = (st.st_ino, st.st_mode, st.st_size, st.st_mtime_ns, os.readlink(p) if os.path.islink(p) else open(p, "rb").read())
        return out

    def close(self):
        if self.fd is not None:
            try:
                os.close(self.fd)
            except OSError:
                pass


def scratch(fn):
    def case(ctx, rng, i):
        folder = tempfile.mkdtemp(dir=ctx.env["scratch"])
        place = None
        try:
            place = Place(ctx, rng, folder)
            fn(ctx, rng, place, i)
        finally:
            if place is not None:
                place.close()
            shutil.rmtree(folder, ignore_errors=True)

    return case


def untouched(ctx, place, **info):
    now = place.snapshot()
    ctx.check(now == place.before, "the file or its folder was touched", before=place.before, now=now, **info)
    if place.existing is not None:
        ctx.event("existing files untouched")
        if place.fd is not None:
            ctx.check(fd_open(place.fd), "the descriptor was closed", **info)


def fd_open(fd):
    try:
        os.fstat(fd)
        return True
    except OSError:
        return False


def written(ctx, place, want, **info):
    with open(place.real, "rb") as f:
        got = f.read()
    if place.kind == "fd" and len(want) < len(place.existing):
        # opened by the caller without truncating, so the rest remains
        want = want + place.existing[len(want) :] if got != want else want
    ctx.check(got == want, "the file holds other bytes", file=got, expected=want, **info)
    now = place.snapshot()
    name = os.path.basename(place.real)
    others = {k: v for k, v in now.items() if k != name}
    ctx.same(others, {k: v for k, v in place.before.items() if k != name}, "other files changed", **info)
    if place.existing is not None:
        ctx.event("existing files replaced")
    if place.kind == "fd":
        ctx.event("written through descriptors")
    if place.kind == "link":
        ctx.event("written through links")
    if len(want) > 8192:
        ctx.event("files larger than buffers")


def reference(rows, ref, dialect, names=None):
    """The text that the writers write, or the exception"""
    out = io.StringIO(newline="")
    if ref is None:
        # what the package's writer makes of a simple dialect
        if names is None:
            clevercsv.writer(out, dialect).writerows(rows)
        else:
            w = clevercsv.writer(out, dialect)
            w.writerow(names)
            for r in rows:
                w.writerow([r.get(k, "") for k in names])
    elif names is None:
        csv.writer(out, ref).writerows(rows)
    else:
        w = csv.DictWriter(out, names, dialect=ref)
        w.writeheader()
        w.writerows(rows)
    return out.getvalue()


def encoded(text, enc):
    return text.encode(enc or "utf-8")


def call(ctx, rng, fn, items, place, dialect, enc, transpose=False):
    kw = {}
    args = [items, place.path]
    if dialect is not None:
        if rng.random() < 0.3 and not transpose:
            args.append(dialect)
        else:
            kw["dialect"] = dialect
    if enc is not None:
        kw["encoding"] = enc
    if transpose:
        kw["transpose"] = True
    elif fn is clevercsv.write_table and rng.random() < 0.2 and len(args) == 2:
        kw["transpose"] = False
    return ctx.call(fn, *args, **kw)


def table_case(ctx, rng, place, i, big=False):
    dialect, ref = some_dialect(rng)
    enc = rng.choice(ENC)
    w = rng.randint(0, 5) if rng.random() < 0.3 else rng.randint(1, 5)
    n = rng.choice([0, 1, 2, 3, 6]) if not big else rng.choice([300, 2000])
    rows = [[cell(rng, None) for _ in range(w)] for _ in range(n)]
    if big and i % 3 == 2:
        # many columns instead
        n, w = rng.choice([2, 3, 7]), rng.choice([60, 300, 1100])
        pool = [cell(rng, None) for _ in range(40)]
        rows = [[rng.choice(pool) for _ in range(w)] for _ in range(n)]
    elif big:
        rows = [rows[k % 50] for k in range(n)]
    ragged = n > 1 and rng.random() < 0.3
    if ragged:
        k = rng.choice([0, n - 1, rng.randrange(n)])
        rows[k] = list(rows[k])
        if rng.random() < 0.5 and w:
            rows[k] = rows[k][: rng.randint(0, w - 1)]
        else:
            rows[k] = rows[k] + [cell(rng, None)] * rng.randint(1, 3)
    transpose = rng.random() < 0.4
    info = dict(rows=rows[:20], n=n, dialect=dialect, encoding=enc, transpose=transpose, kind=place.kind)
    table = iterable(ctx, rng, [iterable(ctx, rng, r) for r in rows])
    out = call(ctx, rng, clevercsv.write_table, table, place, dialect, enc, transpose)
    if ragged:
        ctx.check(isinstance(out.exc, ValueError) and not isinstance(out.exc, UnicodeError), "no ValueError for a ragged table", outcome=out, **info)
        untouched(ctx, place, **info)
        ctx.event("ragged tables refused")
        ctx.nontrivial(repr(info))
        return
    want_rows = [list(c) for c in zip(*rows)] if transpose else rows
    if not want_rows:
        ctx.check(out.exc is None, "an exception for an empty table", outcome=out, **info)
        untouched(ctx, place, **info)
        ctx.event("empty tables")
        return
    finish(ctx, rng, place, out, want_rows, ref, dialect, enc, None, info)
    if out.exc is None:
        ctx.event("tables written")
        if transpose:
            ctx.event("tables transposed")


def finish(ctx, rng, place, out, rows, ref, dialect, enc, names, info):
    want = ctx.call(reference, rows, ref, dialect, names)
    if want.exc is not None:
        ctx.check(out.exc is not None, "the writer fails for such rows", outcome=out, reference=want, **info)
        return
    data = ctx.call(encoded, want.value, enc)
    if data.exc is not None:
        ctx.check(isinstance(out.exc, UnicodeError), "the rows can't be encoded", outcome=out, **info)
        return
    ctx.check(out.exc is None, "writing failed", outcome=out, **info)
    written(ctx, place, data.value, **info)
    if len(rows) > 1:
        ctx.nontrivial(repr(info))
    ctx.sample(info)
    if names is None and dialect is None and place.kind != "fd":
        # through the reader, independent of both writers
        back = clevercsv.read_table(place.real, dialect="excel", encoding=enc or "utf-8")
        text = [["" if c is None else str(c) for c in r] for r in rows]
        ctx.check(back == text, "the table isn't read back", back=back[:20], **info)
        ctx.event("read back")


class Map(collections.abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


def as_mapping(rng, d):
    return rng.choice(
        [dict, dict, collections.OrderedDict, types.MappingProxyType, Map, collections.ChainMap]
    )(dict(d))


def dicts_case(ctx, rng, place, i, big=False):
    dialect, ref = some_dialect(rng)
    enc = rng.choice(ENC)
    n = rng.choice([0, 1, 2, 3, 6]) if not big else rng.choice([300, 2000])
    pool = ["id", "name", "x,y", 'q"', "", 5, None, (1, 2), "\u00e9", "z z"]
    names = rng.sample(pool, rng.randint(0, 5) if rng.random() < 0.2 else rng.randint(1, 5))
    items = []
    for k in range(n):
        have = names if k == 0 or rng.random() < 0.6 else rng.sample(names, rng.randint(0, len(names)))
        items.append({h: cell(rng, None) for h in have})
    if big and i % 3 == 2:
        n, w = rng.choice([2, 3, 7]), rng.choice([60, 300, 1100])
        names = ["n%d" % k for k in range(w)]
        pool = [cell(rng, None) for _ in range(40)]
        items = []
        for k in range(n):
            have = names if k == 0 or rng.random() < 0.6 else rng.sample(names, rng.randint(0, w))
            items.append({h: rng.choice(pool) for h in have})
    elif big:
        items = [items[k % 50] for k in range(n)]
    info = dict(items=items[:20], n=n, dialect=dialect, encoding=enc, kind=place.kind)
    arg = iterable(ctx, rng, [as_mapping(rng, d) for d in items])
    out = call(ctx, rng, write_dicts, arg, place, dialect, enc)
    if not items:
        ctx.check(out.exc is None, "an exception for an empty list", outcome=out, **info)
        untouched(ctx, place, **info)
        ctx.event("empty lists of dictionaries")
        return
    finish(ctx, rng, place, out, items, ref, dialect, enc, names, info)
    if out.exc is None:
        ctx.event("dictionaries written")


# all tables of up to three rows and columns, over two kinds of cell
SMALL = [(n, w, t, r, e) for n in range(4) for w in range(4) for t in (False, True) for r in (None, 0, 1, 2) for e in (False, True)]


def small(ctx, rng, case):
    n, w, transpose, odd, existing = case
    folder = tempfile.mkdtemp(dir=ctx.env["scratch"])
    try:
        path = os.path.join(folder, "x.csv")
        for delta in (-1, 1):
            for one_shot in (False, True):
                if os.path.exists(path):
                    os.unlink(path)
                if existing:
                    with open(path, "w") as f:
                        f.write("old " * 50)
                rows = [["%d.%d" % (a, b) for b in range(w)] for a in range(n)]
                ragged = False
                if odd is not None and odd < n and n > 1 and w + delta >= 0:
                    rows[odd] = (rows[odd] + ["extra"])[: w + delta]
                    ragged = True
                table = (iter(r) for r in rows) if one_shot else rows
                out = ctx.call(clevercsv.write_table, table, path, transpose=transpose)
                info = dict(rows=rows, transpose=transpose, one_shot=one_shot, outcome=out)
                want = [list(c) for c in zip(*rows)] if transpose else rows
                data = None
                if os.path.exists(path):
                    with open(path, newline="") as f:
                        data = f.read()
                old = "old " * 50 if existing else None
                if ragged:
                    ctx.check(isinstance(out.exc, ValueError), "no ValueError for a ragged table", **info)
                    ctx.check(data == old, "a refused table touched the file", data=data, **info)
                    ctx.event("ragged tables refused")
                elif not want:
                    ctx.check(out.exc is None and data == old, "an empty table", data=data, **info)
                    ctx.event("empty tables")
                else:
                    text = "".join(",".join(r) + "\r\n" for r in want)
                    ctx.check(out.exc is None and data == text, "another file", data=data, expected=text, **info)
                    ctx.event("tables written")
                ctx.nontrivial(case, delta, one_shot)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def huge(ctx, rng, i):
    """Hundreds of thousands of rows; the last one decides"""
    n = rng.randint(105000, 210000)
    pool = [[gen.word(rng), rng.choice(["", "x,y", 'q"r', 5])] for _ in range(83)]
    folder = tempfile.mkdtemp(dir=ctx.env["scratch"])
    path = os.path.join(folder, "out.csv")
    try:
        f = io.StringIO(newline="")
        w = csv.writer(f)
        rows = [pool[k % 83] for k in range(n)]
        if i % 3 == 0:
            rows.append(rng.choice([["a"], [], ["a", "b", "c"]]))
            out = ctx.call(write_table, rng.choice([rows, iter(rows)]), path, encoding="utf-8")
            ctx.check(isinstance(out.exc, ValueError), "a huge ragged table isn't refused", outcome=out, rows=n, last=rows[-1])
            ctx.check(not os.path.exists(path), "a file was created", rows=n)
            ctx.event("ragged tables refused")
            return
        rows.append(["last", "row"])
        if i % 3 == 1:
            write_table(rng.choice([rows, iter(rows)]), path, encoding="utf-8")
            w.writerows(rows)
        else:
            items = [dict(zip("ab", r)) for r in rows]
            write_dicts(rng.choice([items, iter(items)]), path, encoding="utf-8")
            w.writerows([["a", "b"]] + rows)
        with open(path, "rb") as g:
            got = g.read()
        ctx.check(got == f.getvalue().encode("utf-8"), "a huge file isn't complete", rows=n, size=len(got), expected=len(f.getvalue()))
        ctx.event("huge files")
        ctx.maxi("rows written", n)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def counts(ctx, rng, n):
    """As many rows or columns as there can be in a batch, and one more or less"""
    folder = tempfile.mkdtemp(dir=ctx.env["scratch"])
    path = os.path.join(folder, "out.csv")
    try:
        for kind in ("rows", "columns", "dicts", "transposed", "ragged"):
            pool = [[gen.word(rng), rng.choice(["", "x,y", 'q"r', 5])] for _ in range(83)]
            rows = [pool[k % 83] for k in range(n)]
            f = io.StringIO(newline="")
            w = csv.writer(f)
            if kind == "columns":
                rows = [[r[0] for r in rows]] * 2
            if kind == "ragged":
                rows[-1] = rng.choice([["a"], [], ["a", "b", "c"]])
                out = ctx.call(write_table, rng.choice([rows, iter(rows)]), path, encoding="utf-8")
                ctx.check(isinstance(out.exc, ValueError), "a ragged table of a round size isn't refused", outcome=out, rows=n, last=rows[-1])
                ctx.check(not os.path.exists(path), "a file was created", rows=n)
                continue
            elif kind == "dicts":
                items = [dict(zip("ab", r)) for r in rows]
                write_dicts(rng.choice([items, iter(items)]), path, encoding="utf-8")
                rows = [["a", "b"]] + rows
            elif kind == "transposed":
                write_table(rng.choice([rows, iter(rows)]), path, encoding="utf-8", transpose=True)
                rows = list(zip(*rows))
            else:
                write_table(rng.choice([rows, iter(rows)]), path, encoding="utf-8")
            w.writerows(rows)
            with open(path, "rb") as g:
                got = g.read()
            os.unlink(path)
            ctx.check(got == f.getvalue().encode("utf-8"), "a file of a round size isn't complete", rows=n, kind=kind, size=len(got), expected=len(f.getvalue()))
            ctx.event("files of round sizes")
    finally:
        shutil.rmtree(folder, ignore_errors=True)


STRATA = [
    Stratum("huge", huge, 6, 60),
    Stratum("counts", counts, None, cases=gen.round_sizes(131073)),
    Stratum("small", small, None, cases=SMALL),
    Stratum("tables", scratch(table_case), 36000, 600000),
    Stratum("dicts", scratch(dicts_case), 24000, 400000),
    Stratum("big tables", scratch(lambda *a: table_case(*a, big=True)), 180, 2000),
    Stratum("big dicts", scratch(lambda *a: dicts_case(*a, big=True)), 180, 2000),
]
