"""C23: standardizing loses no data and produces RFC 4180"""

import csv
import io
import os
import tempfile
from itertools import zip_longest

import clevercsv
from clevercsv.encoding import get_encoding

from lib import cli, files, gen
from lib.engine import Stratum

ID = "C23"
RULE = (
    "A case is one or several files and a command line of standardize, run "
    "in this process or as a process. The output (standard output, files, "
    "edited files) is read with csv.reader in the encoding asked for and "
    "compared with the cells that reading the input with its detected "
    "dialect gives; all other files in the folder and the exit status are "
    "checked too. Non-trivial: at least two rows; distinct by contents and "
    "options."
)
TECHNIQUE = "runtime monitoring: conservation check of cells between input and output files, and state monitor on the folder and exit status, over generated files and command lines"
LEVEL_NOTE = "Generated files of up to some hundred kilobytes; trusts csv.reader to read RFC 4180 and the reader (C01) for the cells of the input."
REQUIRED = [
    "outputs to stdout",
    "output files",
    "edits in place",
    "files left alone in place",
    "transposed",
    "several files",
    "target encodings",
    "undetectable files",
    "refused command lines",
    "run as processes",
]
BUDGET = {"quick": 400, "thorough": 2400}


def expected(path, enc, num, transpose):
    """The rows of the output, or None when detection fails"""
    e = enc or get_encoding(path)
    dialect = clevercsv.detect_dialect(path, num_chars=num, encoding=e)
    if dialect is None:
        return None
    text = files.text_of(path, e)
    rows = list(clevercsv.reader(io.StringIO(text, newline=""), dialect))
    if transpose:
        rows = [list(r) for r in zip_longest(*rows, fillvalue="")]
    return rows


def rfc(text):
    """Rows of an RFC 4180 text; fails if it isn't one"""
    return list(csv.reader(io.StringIO(text, newline=""), strict=True))


def check_text(ctx, text, rows, what, info):
    try:
        got = rfc(text)
    except csv.Error as e:
        ctx.fail("%s isn't valid RFC 4180: %s" % (what, e), text=text, rows=rows, **info)
    if got != rows:
        ctx.fail("%s doesn't hold the cells of the input" % what, got=got, want=rows, text=text, **info)
    # record ends are CRLF everywhere, quotes only where RFC 4180 has them
    f = io.StringIO(newline="")
    csv.writer(f).writerows(rows)
    if text != f.getvalue():
        # other ways of quoting are allowed; line ends outside of quotes not
        outside = "".join(text.split('"')[::2])
        if outside.replace("\r\n", "").strip("\r\n") != outside.replace("\r\n", ""):
            ctx.fail("%s has line endings other than CRLF" % what, text=text, **info)
    if rows and not text.endswith("\r\n"):
        ctx.fail("%s doesn't end in CRLF" % what, text=text, **info)


def usable(rng):
    """A file with content that can be decoded and parsed"""
    for _ in range(50):
        text = files.content(rng)
        if "\0" in text:
            continue
        data, enc = files.encode(rng, text)
        return data, enc
    raise AssertionError


def standard(rng):
    """A file that is in standard form already"""
    rows = [[gen.word(rng) if rng.random() < 0.8 else rng.choice(["x y", "1.5", "a,b", "line\nbreak"]) for _ in range(3)] for _ in range(rng.randint(2, 5))]
    return gen.write_csv(rows).encode("utf-8"), rng.choice([None, "utf-8"])


def folder_state(folder):
    out = {}
    for f in sorted(os.listdir(folder)):
        p = os.path.join(folder, f)
        st = os.stat(p)
        with open(p, "rb") as fp:
            out[f] = (fp.read(), st.st_mode & 0o7777)
    return out


def can_encode(rows, enc):
    try:
        for r in rows:
            for c in r:
                c.encode(enc)
        return True
    except (UnicodeError, LookupError):
        return False


NAMES = ["a.csv", "b c.csv", "-x.csv", "\u00e9.csv", "noext", "d.e.csv", "clevercsv_.csv", "~.csv", "l" * 130 + ".csv", "\U0001f600" * 40 + ".csv"]


def one_case(ctx, rng, i, as_process=False):
    folder = tempfile.mkdtemp(dir=ctx.env["scratch"])
    try:
        run_case(ctx, rng, folder, as_process)
    finally:
        for f in os.listdir(folder):
            os.unlink(os.path.join(folder, f))
        os.rmdir(folder)


def run_case(ctx, rng, folder, as_process, given=None):
    n = rng.choice([1, 1, 1, 2, 3]) if given is None else 1
    names = rng.sample(NAMES, n)
    datas = [standard(rng) if rng.random() < 0.2 else usable(rng) for _ in range(n)]
    if given is not None:
        datas = [given]
    paths = [os.path.join(folder, x) for x in names]
    for p, (d, _) in zip(paths, datas):
        with open(p, "wb") as f:
            f.write(d)
        os.chmod(p, rng.choice([0o644, 0o600, 0o664, 0o640]))
    mode = rng.choice(["stdout", "output", "inplace", "inplace"] if given is None else ["output", "inplace", "inplace"])
    transpose = rng.random() < 0.35
    num = rng.choice([None, None, None, rng.randint(5, 200)])
    if given is not None:
        # wide tables in most cases
        transpose = rng.random() < (0.6 if given[0].count(b"\n") < 20 else 0.07)
        num = None
    args = ["standardize"]
    encs = [e for _, e in datas]
    if n > 1 and rng.random() < 0.15:
        encs = ["latin-1"] * n
        args += ["-e", "latin-1"]
    elif all(e is None for e in encs):
        pass
    else:
        # every encoding has to be given then
        encs = [e or rng.choice(["latin-1", "utf-8"]) for e in encs]
        for e in encs:
            args += [rng.choice(["-e", "--encoding"]), e]
    target = None
    if rng.random() < (0.4 if given is None else 0.1):
        target = rng.choice(["utf-8", "utf-16", "latin-1", "utf-8-sig", "utf-32-le"])
        args += [rng.choice(["-E", "--target-encoding"]), target]
    if transpose:
        args.append(rng.choice(["-t", "--transpose"]))
    if num:
        args += ["-n", str(num)]
    outs = [None] * n
    if mode == "inplace":
        args.append(rng.choice(["-i", "--in-place"]))
    elif mode == "output":
        outs = [os.path.join(folder, "out%d.csv" % k) for k in range(n)]
        if rng.random() < 0.3:
            with open(outs[0], "w") as f:
                f.write("previous content, longer than the new one" * rng.choice([1, 400]))
            os.chmod(outs[0], 0o640)
        for o in outs:
            args += [rng.choice(["-o", "--output"]), o]
    args += ["--"] + paths if rng.random() < 0.5 else paths
    # what has to come out
    plan = []
    try:
        for p, e in zip(paths, encs):
            plan.append((expected(p, e, num, transpose), e or get_encoding(p) or "utf-8"))
    except (UnicodeError, LookupError, clevercsv.Error):
        ctx.event("unreadable files")
        return
    out_encs = [target or e for _, e in plan]
    if mode != "stdout":
        for (rows, _), e in zip(plan, out_encs):
            if rows is not None and not can_encode(rows, e):
                ctx.event("cells that the encoding lacks")
                return
    before = folder_state(folder)
    if as_process:
        run = cli.process(args)
        ctx.event("run as processes")
    else:
        run = cli.inside(args)
    after = folder_state(folder)
    info = dict(args=args, files=[d[:1500] for d, _ in datas], run=run)
    if run.exc is not None:
        raise run.exc
    if n > 1:
        ctx.event("several files")
    if transpose:
        ctx.event("transposed")
    # the files are handled in order, up to the first that fails
    done = []
    for rows, e in plan:
        if rows is None:
            break
        done.append(rows)
    failed = len(done) < n
    touched = set()
    if failed:
        ctx.event("undetectable files")
        ctx.check(run.status == 1, "status of failed detection", **info)
        ctx.check(run.err.strip() != "", "no message about failed detection", **info)
    if mode == "stdout":
        text = run.out
        if as_process:
            text = text.decode("utf-8")
        pieces(ctx, text, done, info)
        if not failed:
            ctx.check(run.status == 0, "exit status", **info)
    elif mode == "output":
        for k, rows in enumerate(done):
            name = os.path.basename(outs[k])
            touched.add(name)
            ctx.check(name in after, "no output file", **info)
            text = after[name][0].decode(out_encs[k])
            check_text(ctx, text, rows, "the output file", info)
            ctx.event("output files")
        if not failed:
            ctx.check(run.status == 0, "exit status", **info)
            ctx.check(not run.out, "output on stdout", **info)
    else:
        changed = False
        for k, rows in enumerate(done):
            name = names[k]
            text = after[name][0].decode(out_encs[k])
            check_text(ctx, text, rows, "the edited file", info)
            touched.add(name)
            ctx.same(after[name][1], before[name][1], "the permissions changed", **info)
            if after[name][0] != before[name][0]:
                changed = True
                ctx.event("edits in place")
            else:
                ctx.event("files left alone in place")
        if not failed:
            ctx.check(run.status == (2 if changed else 0), "exit status, files changed: %r" % changed, **info)
            ctx.check(not run.out, "output on stdout", **info)
    if target:
        ctx.event("target encodings")
    new = set(after) - set(before) - touched
    ctx.check(not new, "stray files %r" % sorted(new), **info)
    for name in before:
        if name not in touched:
            ctx.same(after.get(name), before[name], "%s was touched" % name, **info)
    if any(r and len(r) > 1 for r in done):
        ctx.nontrivial([d for d, _ in datas], [a for a in args if a not in paths])
    ctx.sample((args, [d[:100] for d, _ in datas]))


def pieces(ctx, text, done, info):
    """The outputs of the files follow each other on stdout"""
    rows = [r for x in done for r in x]
    check_text(ctx, text, rows, "standard output", info)
    ctx.event("outputs to stdout", len(done))


def process_case(ctx, rng, i):
    one_case(ctx, rng, i, True)


def refused(ctx, rng, i):
    """Command lines that make no sense change nothing"""
    folder = tempfile.mkdtemp(dir=ctx.env["scratch"])
    try:
        a, b, o = (os.path.join(folder, x) for x in ("a.csv", "b.csv", "o.csv"))
        for p in (a, b):
            with open(p, "wb") as f:
                f.write(usable(rng)[0] or b"x;y\n1;2\n")
        with open(o, "w") as f:
            f.write("existing")
        link = os.path.join(folder, "link.csv")
        os.symlink(a, link)
        hard = os.path.join(folder, "hard.csv")
        os.link(a, hard)
        good = b"x;y\n1;2\n'3';4\n"
        with open(a, "wb") as f:
            f.write(good)
        cases = [
            ["-i", "-o", o, a],
            ["-o", o, a, b],
            ["-o", o, "-o", o, a],
            ["-e", "utf-8", "-e", "utf-8", a],
            ["-i", "-e", "utf-8", "-e", "utf-8", "-e", "utf-8", a, b],
            ["-o", a, a],
            ["-o", link, a],
            ["-o", hard, a],
            ["-o", a, link],
            ["-o", os.path.join(folder, ".", "a.csv"), a],
        ]
        args = cases[i % len(cases)]
        before = folder_state(folder)
        run = cli.inside(["standardize"] + args)
        after = folder_state(folder)
        ctx.check(run.exc is not None or run.status not in (0, None, 2), "the command line is accepted", args=args, run=run)
        ctx.same(after, before, "a refused command line changes files", args=args, run=run)
        ctx.event("refused command lines")
        ctx.nontrivial(i % len(cases), before)
    finally:
        for f in os.listdir(folder):
            os.unlink(os.path.join(folder, f))
        os.rmdir(folder)


def links(ctx, rng, i):
    """Editing in place through a symbolic link"""
    folder = tempfile.mkdtemp(dir=ctx.env["scratch"])
    try:
        sub = os.path.join(folder, "sub")
        os.mkdir(sub)
        real = os.path.join(sub, "real.csv")
        link = os.path.join(folder, "link.csv")
        rows = [[gen.word(rng) for _ in range(3)] for _ in range(3)]
        with open(real, "w") as f:
            f.write("\n".join(";".join(r) for r in rows) + "\n")
        os.symlink(rng.choice([real, os.path.join("sub", "real.csv")]), link)
        cwd = os.getcwd()
        try:
            os.chdir(folder)
            run = cli.inside(["standardize", "-i", rng.choice([link, "link.csv"])])
            again = cli.inside(["standardize", "-i", link])
        finally:
            os.chdir(cwd)
        if run.exc is not None:
            raise run.exc
        ctx.check(run.status == 2 and again.status == 0, "exit status", run=run, again=again)
        ctx.check(os.path.islink(link), "the link was replaced by a file")
        with open(real, newline="") as f:
            check_text(ctx, f.read(), rows, "the linked file", {})
        ctx.check(sorted(os.listdir(folder)) == ["link.csv", "sub"] and os.listdir(sub) == ["real.csv"], "stray files")
        ctx.event("edits through links")
    finally:
        for f in os.listdir(sub):
            os.unlink(os.path.join(sub, f))
        os.rmdir(sub)
        for f in os.listdir(folder):
            os.unlink(os.path.join(folder, f))
        os.rmdir(folder)


def large(ctx, rng, i):
    """Large files that are in standard form but for the end, or whose end
    decides on the dialect"""
    size = [66000, 4200, 132000, 1050000, 17000, 67000, 2100000, 8300][i % 8]
    if i % 3 == 2:
        text = gen.wide(rng, nc=20000 if i % 6 == 5 else None)[3]
    elif rng.random() < 0.2:
        text = gen.late(rng, min(size, 132000))
    else:
        stock = [",".join(gen.word(rng) for _ in range(3)) + "\r\n" for _ in range(rng.randint(7, 90))]
        text = "".join(stock * (size // sum(map(len, stock)) + 1))
        w = gen.word(rng, 2)
        text += rng.choice(['"%s",b,c\r\n', "%s,b,c\n", "%s,b,c\r", "%s,b,c", '%s,b,"c"\r\n', "%s,b,c\r\n"]) % w
    folder = tempfile.mkdtemp(dir=ctx.env["scratch"])
    try:
        run_case(ctx, rng, folder, False, (text.encode("ascii", "ignore"), rng.choice([None, "utf-8"])))
    finally:
        for f in os.listdir(folder):
            os.unlink(os.path.join(folder, f))
        os.rmdir(folder)
    ctx.event("large files")
    ctx.maxi("characters of a file", len(text))


def counts(ctx, rng, n):
    """As many rows or columns as there can be in a batch, and one more or less"""
    folder = tempfile.mkdtemp(dir=ctx.env["scratch"])
    path, out = os.path.join(folder, "in.csv"), os.path.join(folder, "out.csv")
    pool = [gen.word(rng, 2) for _ in range(83)]
    try:
        for shape in "rows", "columns":
            rows = [[pool[k % 83], pool[k % 71]] for k in range(n)]
            if shape == "columns":
                rows = [list(r) for r in zip(*rows)]
            with open(path, "w", newline="") as f:
                for r in rows:
                    f.write(";".join(r) + "\n")
            # the dialect shows in a part of the file
            args = ["standardize", "-e", "ascii", "-n", "3000"]
            transpose = rng.random() < 0.5
            if transpose:
                args.append("-t")
                rows = [list(r) for r in zip(*rows)]
            if rng.random() < 0.5:
                run = cli.inside(args + ["-i", path])
                place = path
            else:
                run = cli.inside(args + ["-o", out, path])
                place = out
            if run.exc is not None:
                raise run.exc
            with open(place, "rb") as f:
                text = f.read().decode("ascii")
            info = dict(size=n, shape=shape, transpose=transpose, run=run)
            ctx.check(text == "".join(",".join(r) + "\r\n" for r in rows), "a file of a round size isn't standardized", length=len(text), **info)
            ctx.event("files of round sizes")
    finally:
        for f in os.listdir(folder):
            os.unlink(os.path.join(folder, f))
        os.rmdir(folder)


STRATA = [
    Stratum("inside", one_case, 2500, 40000),
    Stratum("process", process_case, 48, 1200),
    Stratum("refused", refused, 100, 1000),
    Stratum("links", links, 40, 400),
    Stratum("large", large, 60, 900),
    Stratum("counts", counts, None, cases=[n for n in gen.round_sizes(131073) if n < 6000 or n % 2]),
]
