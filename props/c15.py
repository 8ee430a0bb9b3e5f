"""C15: normal-form detection is strict and exact"""

from clevercsv.detect import Detector
from clevercsv.dialect import SimpleDialect
from clevercsv.normal_form import detect_dialect_normal
from clevercsv.normal_form import is_form_1, is_form_2, is_form_3
from clevercsv.normal_form import is_form_4, is_form_5

from lib import gen
from lib.engine import Stratum
from lib.models import dialects as M
from lib.models import parser

ID = "C15"
RULE = (
    "A case is a sample of (nearly) a normal form, often with one character "
    "or cell changed, and optionally allowed delimiters; the result is "
    "compared with an independent definition of the forms, and the sample is "
    "parsed with the dialect found. Non-trivial: at least two rows; distinct "
    "by sample and delimiters."
)
TECHNIQUE = "runtime monitoring: detection result checked against an independent definition of the normal forms, and rows checked by a shape monitor"
LEVEL_NOTE = "Form-based, mutated and random samples; trusts the definition in lib/models/dialects.py."
REQUIRED = ["huge samples"] + ["form %d" % n for n in (1, 2, 3, 4, 5)] + ["no form", "shapes checked"]

ELEM = "abcXYZ019._&-@+%() /"
EASY = "abc019"


def cell(rng, pool, lo=0, hi=5):
    return "".join(rng.choice(pool) for _ in range(rng.randint(lo, hi)))


def make(rng):
    form = rng.randint(1, 5)
    d = rng.choice([",", ";", "|", "\t"])
    q = rng.choice("'\"")
    nr, nc = rng.randint(1, 5), rng.randint(1, 4)
    pool = rng.choice([ELEM, EASY])
    rows = []
    for _ in range(nr):
        if form == 1:
            row = [q + cell(rng, pool + ",;|\t\u00e9") + q for _ in range(nc)]
        elif form == 2:
            row = [cell(rng, pool) for _ in range(nc)]
        elif form == 3:
            row = [
                q + cell(rng, pool + ",;|\t\u00e9", 1) + q
                if rng.random() < 0.5
                else cell(rng, pool, 1)
                for _ in range(nc)
            ]
        elif form == 4:
            c = cell(rng, "abz09._&-" + (" " if rng.random() < 0.3 else ""))
            row = [q + c + q] if q == '"' else [c]
        else:
            row = [cell(rng, pool) for _ in range(nc)]
        line = d.join(row)
        rows.append(q + line + q if form == 5 else line)
    nl = rng.choice(["\n", "\n", "\r\n", "\r"])
    text = nl.join(rows) + nl * rng.choice([0, 1, 1, 2])
    return text


def mutate(rng, text):
    k = rng.randint(0, len(text))
    ch = rng.choice(list("'\"\\/,;|\t\n\r a.#\u00b7@") + ["\r\n", "\n\n", "''", '""', "\u00e9"])
    r = rng.random()
    if r < 0.4:
        return text[:k] + ch + text[k:]
    if r < 0.7:
        return text[:k] + text[k + 1 :]
    return text[:k] + ch + text[k + 1 :]


def one(ctx, text, delims):
    info = dict(text=text, delimiters=delims)
    want = M.normal_form(text, delims)
    got = detect_dialect_normal(text, delimiters=delims)
    g = None if got is None else (got.delimiter, got.quotechar, got.escapechar)
    w = None if want is None else want[1]
    ctx.same(g, w, "normal form", form=want, **info)
    ctx.event("no form" if want is None else "form %d" % want[0])
    via = Detector().detect(text, delimiters=delims, method="normal")
    ctx.same(via, got, "Detector with method normal", **info)
    if got is not None:
        auto = Detector().detect(text, delimiters=delims)
        ctx.same(auto, got, "normal form takes precedence", **info)
        rows = [r for r in parser.parse(text, *g) if r]
        widths = {len(r) for r in rows}
        ctx.check(len(widths) <= 1, "rows differ in length", rows=rows, dialect=g, **info)
        if g[0] and want[0] != 5 and rows:
            ctx.check(min(widths) > 1, "a single column", rows=rows, dialect=g, **info)
        ctx.event("shapes checked")
    if len(M.file_rows(text)) > 1:
        ctx.nontrivial(text, delims)
    ctx.sample((text, delims, want))


def forms(ctx, rng, i):
    text = make(rng)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        text = mutate(rng, text)
    delims = None
    if rng.random() < 0.2:
        delims = rng.sample([",", ";", "|", "\t", " ", "-", "a", ":", "."], rng.randint(1, 4))
    one(ctx, text, delims)


def random_samples(ctx, rng, i):
    one(ctx, gen.sample_text(rng), None)


FORMS = {1: is_form_1, 2: is_form_2, 3: is_form_3, 4: is_form_4, 5: is_form_5}


def predicates(ctx, rng, i):
    """Each form on its own"""
    text = make(rng)
    if rng.random() < 0.6:
        text = mutate(rng, text)
    rows = M.file_rows(text)
    d = rng.choice([",", ";", "|", "\t"])
    for c in ",;|\t":
        if c in text:
            d = c
    q = rng.choice("'\"")
    for n, fn in FORMS.items():
        dd, qq = d, q
        if n == 2:
            qq = ""
        if n == 4:
            dd, qq = "", rng.choice(["", q])
        got = fn(rows, SimpleDialect(dd, qq, ""))
        want = getattr(M, "form%d" % n)(rows, dd, qq)
        ctx.same(bool(got), want, "form %d" % n, rows=rows, dialect=(dd, qq))
        ctx.event("predicates compared")


def large(ctx, rng, i):
    """Large samples of one form, but for the last rows"""
    text = make(rng)
    lines = M.file_rows(text)
    if not lines:
        return
    nl = rng.choice(["\n", "\r\n", "\r"])
    size = rng.choice([1000, 8200, 17000, 66000, 70000, 132000])
    n = size // max(1, sum(map(len, lines)) + len(lines)) + 1
    text = nl.join(lines * n)
    r = rng.random()
    if r < 0.7:
        k = len(text) - rng.randint(1, 40)
        text = text[:k] + mutate(rng, text[k:])
    elif r < 0.85:
        text = gen.late(rng) if rng.random() < 0.5 else gen.wide(rng)[3]
    one(ctx, text + rng.choice(["", nl]), None)
    ctx.event("large samples")
    ctx.maxi("characters of a sample", len(text))


def wide(ctx, rng, i):
    """Hundreds of columns, of which the last ones decide"""
    text = make(rng)
    lines = [r for r in M.file_rows(text)]
    if i % 3 == 0 or not lines:
        text = gen.wide(rng)[3]
    else:
        d = rng.choice(",;|\t")
        wide = [d.join([r] * rng.choice([40, 150, 400])) if i % 2 else d.join([r] * 150) for r in lines[:3]]
        text = "\n".join(wide) + "\n"
        if rng.random() < 0.7:
            k = rng.choice([len(text), len(wide[0])]) - rng.randint(1, 12)
            text = text[: max(0, k)] + mutate(rng, text[max(0, k) :])
    one(ctx, text, None)
    ctx.event("wide samples")


def huge(ctx, rng, i):
    """More than a million characters and rows; only the last row decides"""
    row, dialect, breaks = rng.choice(
        [
            ("a,b", (",", "", ""), ["a", "a,b,c", "a,#", 'a,"b"', "a\\,b"]),
            ('"a";"b"', (";", '"', ""), ['"a"', '"a";"b";"c"', '"a"x;"b#"', '"a\\";"b"']),
            ("'a'|bc", ("|", "'", ""), ["'a'", "''|bc", "'a'|#", "'a\\'|bc"]),
            ("ab", ("", "", ""), ["a b", "#", "a\\,b"]),
        ]
    )
    n = [130000, 300000][i % 2] if len(row) < 5 or i % 4 else 200000
    nl = rng.choice(["\n", "\r\n", "\r"])
    last = rng.choice([row] + 2 * breaks)
    if i % 4 == 0:
        # a form but for the possible escape
        row, dialect, n, last = '"a";"b"', (";", '"', ""), 200000, '"a\\";"b"'
    text = nl.join([row] * n + [last]) + nl
    got = detect_dialect_normal(text)
    small = detect_dialect_normal(nl.join([row] * 3 + [last]) + nl)
    want = M.normal_form(nl.join([row] * 3 + [last]) + nl, None)
    want = None if want is None else want[1]
    ctx.same(small and (small.delimiter, small.quotechar, small.escapechar), want, "normal form", row=row, last=last)
    ctx.same(got and (got.delimiter, got.quotechar, got.escapechar), want, "normal form of a huge sample", row=row, rows=n, last=last, nl=nl)
    if last == row:
        ctx.same(want, dialect, "model", row=row)
    ctx.event("huge samples")
    ctx.nontrivial("huge", row, n, last, nl)
    ctx.maxi("characters of a sample", len(text))


def counts(ctx, rng, n):
    """As many rows, cells or characters as there can be in a block, and one
    more or less; the last row decides"""
    nl = rng.choice(["\n", "\r\n", "\r"])
    end = rng.choice(["", nl])
    for q, d in ("", ","), ('"', ";"), ("'", "|"):
        cell = q + "ab" + q
        row = cell + d + cell
        for good in True, False:
            last = row if good else rng.choice([cell, row + d + cell, row + "#" if q else cell + d + "#"])
            texts = [nl.join([row] * (n - 1) + [last]) + end]
            wide = d.join([cell] * n)
            texts.append(wide + nl + (wide if good else rng.choice([d.join([cell] * (n - 1)), wide + d + cell, wide + ("#" if q else d + "#")])) + end)
            long = q + "a" * n + q + d + cell
            texts.append(long + nl + (long if good else rng.choice([cell, long + d + cell])) + end)
            for text in texts:
                got = detect_dialect_normal(text)
                ctx.same(
                    got and (got.delimiter, got.quotechar, got.escapechar), (d, q, "") if good else None,
                    "normal form of a sample of a round size", row=row, last=last, size=n, nl=nl, shape=texts.index(text), length=len(text),
                )
                ctx.event("samples of round sizes")


STRATA = [
    Stratum("huge", huge, 10, 120),
    Stratum("counts", counts, None, cases=[n for n in gen.round_sizes(65537) if n > 2]),
    Stratum("wide", wide, 400, 5000),
    Stratum("forms", forms, 96000, 800000),
    Stratum("random", random_samples, 16000, 100000),
    Stratum("predicates", predicates, 32000, 200000),
    Stratum("large", large, 64, 2000),
]
