"""C27: header detection follows the vote of the columns"""

import io

import clevercsv
from clevercsv.detect import Detector
from clevercsv.exceptions import NoDetectionResult

from lib import gen
from lib.engine import Stratum

ID = "C27"
RULE = (
    "A case is a sample and a number of rows to check. The rows are read "
    "with the dialect that the detector finds and an independent computation "
    "of the vote, column by column, gives the answer; without a dialect the "
    "documented exception has to come. Non-trivial: at least two rows and a "
    "dialect; distinct by sample and number."
)
TECHNIQUE = "runtime monitoring: answers checked online against an independent vote over the rows of the reader, for generated samples in which single cells, rows and limits decide"
LEVEL_NOTE = "Samples of up to some hundred kilobytes; trusts the detector (C06-C09) and the reader (C01) for the rows."
REQUIRED = [
    "headers",
    "no headers",
    "failed detections",
    "irregular rows",
    "empty samples",
    "decided by the limit",
    "ties",
    "columns of numbers",
    "columns of one length",
    "inconsistent columns",
    "columns without rows",
    "carriage returns",
]
BUDGET = {"quick": 300, "thorough": 2400}


def kind(cell):
    for t in (int, float, complex):
        try:
            t(cell)
            return t
        except (ValueError, OverflowError):
            pass
    return len(cell)


def vote(ctx, rows, limit):
    """The votes for a header minus those against it"""
    header, body = rows[0], rows[1:]
    body = [r for r in body[: limit + 1] if len(r) == len(header)]
    total = 0
    for k, name in enumerate(header):
        kinds = {kind(r[k]) for r in body}
        if len(kinds) > 1:
            ctx.event("inconsistent columns")
            continue
        if not kinds:
            ctx.event("columns without rows")
            total += 1
            continue
        t = kinds.pop()
        if isinstance(t, int):
            ctx.event("columns of one length")
            against = len(name) == t
        else:
            ctx.event("columns of numbers")
            try:
                t(name)
                against = True
            except ValueError:
                against = False
        total += -1 if against else 1
    return total


def judge(ctx, sample, limit, detector):
    info = dict(sample=sample, limit=limit)
    d = ctx.call(Detector().detect, sample)
    if limit is None:
        got = ctx.call(detector.has_header, sample)
    elif limit % 2:
        got = ctx.call(detector.has_header, sample, limit)
    else:
        got = ctx.call(detector.has_header, sample, max_rows_to_check=limit)
    info["answer"] = got
    if d.exc is not None:
        ctx.check(got.exc is not None, "an answer although the detector raises", **info)
        return
    if d.value is None:
        ctx.event("failed detections")
        ctx.check(isinstance(got.exc, NoDetectionResult), "failed detection isn't reported", **info)
        return
    rows = ctx.call(lambda: list(clevercsv.reader(io.StringIO(sample, newline=""), d.value)))
    if not rows.ok:
        ctx.event("unreadable samples")
        return
    rows = rows.value
    info.update(rows=rows, dialect=d.value)
    ctx.check(got.exc is None, "fails on a sample that can be read: %r" % got.exc, **info)
    ctx.check(isinstance(got.value, bool), "the answer isn't a truth value", **info)
    if not rows:
        ctx.event("empty samples")
        ctx.same(got.value, False, "a header without rows", **info)
        return
    n = 20 if limit is None else limit
    total = vote(ctx, rows, n)
    want = total > 0
    if got.value != want:
        ctx.fail("the answer isn't that of the vote (%d)" % total, want=want, **info)
    ctx.event("headers" if want else "no headers")
    if total == 0:
        ctx.event("ties")
    if any(len(r) != len(rows[0]) for r in rows):
        ctx.event("irregular rows")
    if "\r" in sample:
        ctx.event("carriage returns")
    if (vote(ctx, rows, len(rows)) > 0) != want or (n and (vote(ctx, rows, n - 1) > 0) != want):
        ctx.event("decided by the limit")
    if len(rows) > 1:
        ctx.nontrivial(sample, limit)
    ctx.sample((limit, sample[:150]))


NUMBERS = ["1", "42", "-7", "3.14", "1e5", "2j", "1+2j", "nan", "inf", " 5 ", "1_000", "0x1F", "\u0661\u0662", "+1", "1e999", "-", "", ".5", "5.", "1,5", "0007", "infinity", "1 2"]


def column(rng, n):
    """(name, cells) of a column in which a few cells decide"""
    k = rng.randrange(6)
    if k == 0:
        cells = [str(rng.randint(0, 999)) for _ in range(n)]
    elif k == 1:
        cells = ["%.2f" % rng.uniform(0, 99) for _ in range(n)]
    elif k == 2:
        m = rng.randint(1, 6)
        cells = [gen.word(rng, m, m) for _ in range(n)]
    elif k == 3:
        cells = [rng.choice(NUMBERS[:-3]) for _ in range(n)]
    elif k == 4:
        cells = [gen.word(rng) for _ in range(n)]
    else:
        c = rng.choice(NUMBERS + gen.WORDS)
        cells = [c] * n
    # one odd cell, often near a usual limit
    if n and rng.random() < 0.5:
        p = rng.choice([0, n - 1, rng.randrange(n), min(n - 1, rng.choice([18, 19, 20, 21, 22]))])
        cells[p] = "9" * 4400 if rng.random() < 0.005 else rng.choice([gen.word(rng), rng.choice(NUMBERS), str(rng.randint(0, 9)), ""])
    r = rng.random()
    if r < 0.4:
        name = gen.word(rng)
    elif r < 0.6 and cells:
        name = cells[0]
    elif r < 0.8 and cells:
        name = gen.word(rng, max(1, len(cells[0])), max(1, len(cells[0])))
        name = name[:40]
    else:
        name = rng.choice(NUMBERS[:-7] + ["", "id", "a b"])
    return name, cells


def table(rng):
    n = rng.choice([0, 1, 2, 3, 5, 19, 20, 21, 22, 23, 40]) if rng.random() < 0.7 else rng.randint(1, 12)
    cols = [column(rng, n) for _ in range(rng.randint(1, 5))]
    rows = [[c[0] for c in cols]] + [[c[1][k] for c in cols] for k in range(n)]
    for _ in range(rng.choice([0, 0, 0, 1, 3, n])):
        p = rng.randrange(len(rows))
        r = list(rows[p])
        r = rng.choice([r[:-1], r + ["x"], [], r * 2])
        rows[p] = r
    return rows


def table_case(ctx, rng, i):
    rows = table(rng)
    text = gen.write_csv(
        rows,
        delimiter=rng.choice(gen.COMMON_D),
        quotechar=rng.choice(['"', "'"]),
        quoting=rng.choice([0, 0, 1, 2]),
        lineterminator=rng.choice(["\n", "\r\n", "\r"]),
    )
    if rng.random() < 0.2:
        text = text.rstrip("\r\n")
    limit = rng.choice([None, None, 0, 1, 2, 3, 5, len(rows), max(0, len(rows) - 2), max(0, len(rows) - 3), 100])
    judge(ctx, text, limit, Detector())


def text_case(ctx, rng, i):
    text = gen.sample_text(rng) if rng.random() < 0.9 else rng.choice(["", "\n", "\r", "a", "\n\n", "a,b", ",", '""', '"'])
    if rng.random() < 0.1:
        text = rng.choice(["\n", "\r\n", "\r", " \n"]) + text
    judge(ctx, text, rng.choice([None, None, 0, 1, 2, 5]), Detector())


def history_case(ctx, rng, i):
    """One detector for several samples, with detections in between"""
    det = Detector()
    for _ in range(rng.randint(2, 5)):
        rows = table(rng)[:8]
        text = gen.write_csv(rows, delimiter=rng.choice(gen.COMMON_D), lineterminator="\n")
        if rng.random() < 0.3:
            ctx.call(det.detect, gen.sample_text(rng), method=rng.choice(["auto", "normal", "consistency"]))
        if rng.random() < 0.2:
            ctx.call(det.detect, text, delimiters=[rng.choice(gen.COMMON_D)])
        judge(ctx, text, rng.choice([None, 1, 4]), det)


def large(ctx, rng, i):
    """Large samples, with any number of rows to check, decided at the end"""
    size = rng.choice([9000, 70000, 70000, 140000])
    if i % 2:
        text = gen.late(rng, size, rng.choice(["both", "both", None]))
    else:
        d = rng.choice(gen.COMMON_D)
        name, cells = gen.word(rng, 3, 3), [str(rng.randint(10, 99)) for _ in range(50)]
        if rng.random() < 0.5:
            cells = [gen.word(rng, 3, 3) for _ in range(50)]
        cells = cells * (size // 140)
        if rng.random() < 0.8:
            cells[-rng.randint(1, 30)] = rng.choice(["abc", "x", "1.5", "777"])
        cols = [(gen.word(rng, 4, 4), [gen.word(rng, 1, 9) for _ in cells]) for _ in range(rng.randint(0, 2))] + [(name, cells)]
        rows = [d.join(c[0] for c in cols)] + [d.join(c[1][k] for c in cols) for k in range(len(cells))]
        text = "\n".join(rows) + "\n"
    judge(ctx, text, rng.choice([None, 10**6, 10**6, len(text)]), Detector())
    ctx.event("large samples")


def wide_case(ctx, rng, i):
    """Hundreds of columns; most of them don't vote"""
    if i % 2:
        text = gen.wide(rng)[3]
    else:
        n = rng.choice([3, 5, 22])
        nc = rng.choice([40, 130, 300, 600]) if i % 20 != 4 else rng.choice([2500, 6000, 9000])
        d = rng.choice(gen.COMMON_D)
        voters = rng.randint(1, 5)
        cols = []
        for k in range(nc):
            if k >= nc - voters:
                cols.append(column(rng, n))
            else:
                # of all lengths, and of no number
                cols.append((gen.word(rng), ["x" * (1 + (k + j) % 7) for j in range(n)]))
        text = gen.write_csv([[c[0] for c in cols]] + [[c[1][k] for c in cols] for k in range(n)], delimiter=d, quoting=rng.choice([0, 1]), lineterminator="\n")
    judge(ctx, text, rng.choice([None, None, 1, 4]), Detector())
    ctx.event("wide samples")


STRATA = [
    Stratum("wide", wide_case, 160, 3000),
    Stratum("tables", table_case, 20000, 400000),
    Stratum("texts", text_case, 12000, 300000),
    Stratum("histories", history_case, 2000, 40000),
    Stratum("large", large, 64, 900),
]
