"""C22: dialect objects are proper values"""

import copy
import csv
import itertools
import json
import pickle

import _csv
import clevercsv
from clevercsv.dialect import SimpleDialect

from lib import gen
from lib.engine import Stratum

ID = "C22"
RULE = (
    "A case is a pair, triple or list of dialects (exhaustive over a small "
    "alphabet of components, or random over Unicode), on which the laws of "
    "equality, hashing and order, the round trips and the validation are "
    "observed. Non-trivial: the dialects differ in at least one component; "
    "distinct by components."
)
TECHNIQUE = "runtime monitoring: monitors of the algebraic laws (equality, hash, total order, round trips, validation) over exhaustive small and random components"
LEVEL_NOTE = "Complete for all pairs over the component alphabets in SMALL and all triples over a smaller one; random characters beyond."
REQUIRED = [
    "pairs compared",
    "triples ordered",
    "lists sorted",
    "serialisations",
    "csv dialects",
    "validations",
    "rejected components",
]

D = [",", ";", "", "\t", "|", " ", "a", "\u4e2d", "+", "<", "\U0001f600"]
Q = ["", '"', "'", ","]
E = ["", "\\", ";"]
SMALL = [t for t in itertools.product(D, Q, E, (False, True))]
TINY = [t for t in itertools.product([",", ";", "", "|", "!"], ["", '"'], ["", "\\"], (False, True))]


def mk(t):
    return SimpleDialect(t[0], t[1], t[2], strict=t[3])


def pair(ctx, a, b):
    x, y = mk(a), mk(b)
    eq = a == b
    info = dict(a=a, b=b)
    ctx.check((x == y) is eq and (y == x) is eq, "equality", **info)
    ctx.check((x != y) is (not eq), "inequality", **info)
    if eq:
        ctx.check(hash(x) == hash(y), "hash of equal dialects", **info)
        ctx.check(not x < y and not x > y and x <= y and x >= y, "order of equal dialects", **info)
    else:
        lt = x < y
        ctx.check(lt in (True, False) and lt is (y > x), "< and > disagree", **info)
        ctx.check(lt != (y < x), "the order isn't total and strict", **info)
        ctx.check((x <= y) is lt and (x >= y) is (not lt) and (x > y) is (not lt), "<= and >= disagree with <", **info)
        rank = lambda t: {",": 0, ";": 1}.get(t[0], 2)  # noqa: E731
        if rank(a) != rank(b):
            ctx.check(lt is (rank(a) < rank(b)), "comma, semicolon, others", **info)
        ctx.check(len({x, y}) == 2 and {x: 1}.get(y) is None, "sets and dictionaries", **info)
    ctx.event("pairs compared")


def block(ctx, rng, k):
    a = SMALL[k]
    for b in SMALL:
        pair(ctx, a, b)
    ctx.nontrivial("pairs", a)
    x = mk(a)
    for other in (a, repr(x), None, 0, csv.excel, object()):
        ctx.check(not x == other and x != other, "equal to something else", other=other)


def triples(ctx, rng, k):
    a = TINY[k]
    x = mk(a)
    for b in TINY:
        y = mk(b)
        xy = x < y
        for c in TINY:
            z = mk(c)
            if xy and y < z:
                ctx.check(x < z, "the order isn't transitive", a=a, b=b, c=c)
            ctx.event("triples ordered")
    ctx.nontrivial("triples", a)


def char(rng, p=0.3):
    r = rng.random()
    if r < p:
        return ""
    if r < 0.8:
        return rng.choice(gen.DELIMS + gen.QUOTES + gen.ESCAPES)
    while True:
        c = rng.choice([rng.randint(1, 0x7F), rng.randint(1, 0xFFFF), rng.randint(0x10000, 0x10FFFF)])
        if not 0xD800 <= c <= 0xDFFF:
            return chr(c)


def rand(rng):
    return (char(rng), char(rng), char(rng), rng.random() < 0.5)


def lists(ctx, rng, i):
    """Sorting, sets and dictionaries of random dialects"""
    base = [rand(rng) for _ in range(rng.randint(2, 8))]
    for _ in range(rng.randint(0, 6)):
        t = list(rng.choice(base))
        t[rng.randint(0, 3)] = rand(rng)[rng.randint(0, 2)]
        t[3] = bool(t[3]) if rng.random() < 0.5 else rng.random() < 0.5
        base.append(tuple(t))
    base += rng.sample(base, rng.randint(0, len(base)))
    ds = [mk(t) for t in base]
    key = lambda d: (d.delimiter, d.quotechar, d.escapechar, d.strict)  # noqa: E731
    ctx.check({key(d) for d in ds} == set(base) and len(set(ds)) == len(set(base)), "a set of dialects", base=base)
    s = sorted(ds)
    for x, y in itertools.combinations(s, 2):
        ctx.check(x <= y and not y < x, "sorted() isn't sorted", base=base)
    rng.shuffle(ds)
    ctx.check([key(d) for d in sorted(ds)] == [key(d) for d in s], "sorting depends on the order", base=base)
    ctx.check(key(min(ds)) == key(s[0]) and key(max(ds)) == key(s[-1]), "min or max", base=base)
    a, b = rng.choice(base), rng.choice(base)
    pair(ctx, a, b)
    ctx.event("lists sorted")
    ctx.nontrivial(base)
    ctx.sample(base)


def trips(ctx, rng, i):
    """Round trips"""
    t = SMALL[i] if i < len(SMALL) else rand(rng)
    d = mk(t)
    as_dict = dict(delimiter=t[0], quotechar=t[1], escapechar=t[2], strict=t[3])
    s = d.serialize()
    ctx.check(isinstance(s, str), "not a string", got=s)
    ctx.same(json.loads(s), as_dict, "the serialisation isn't the components")
    back = SimpleDialect.deserialize(s)
    same(ctx, back, t, "deserialize")
    ctx.same(dict(d.to_dict()), as_dict, "to_dict")
    same(ctx, SimpleDialect.from_dict(d.to_dict()), t, "from_dict")
    same(ctx, SimpleDialect.from_dict(dict(as_dict, other=1)), t, "from_dict with more keys")
    ctx.check(d == back and hash(d) == hash(back), "a copy isn't equal", t=t)
    for c in (copy.copy(d), copy.deepcopy(d), pickle.loads(pickle.dumps(d))):
        same(ctx, c, t, "copy")
        ctx.check(c == d and hash(c) == hash(d), "a copy isn't equal", t=t)
    ctx.event("serialisations")
    same(ctx, d, t, "the dialect itself")
    # into csv dialects and back
    if not t[0]:
        # can't be expressed: refused, not changed
        out = ctx.call(d.to_csv_dialect)
        if out.exc is None and out.value.delimiter:
            ctx.fail("a csv dialect with another delimiter", t=t, got=out.value.delimiter)
        ctx.event("inexpressible dialects")
        return
    c = d.to_csv_dialect()
    got = (c.delimiter, c.quotechar, c.escapechar, c.quoting, bool(c.doublequote), bool(c.skipinitialspace), bool(getattr(c, "strict", False)))
    want = (t[0], t[1] or None, t[2] or None, csv.QUOTE_MINIMAL if t[1] else csv.QUOTE_NONE, True, False, t[3])
    ctx.same(got, want, "to_csv_dialect")
    same(ctx, SimpleDialect.from_csv_dialect(c), t, "from_csv_dialect")
    # what's done with one of them doesn't show in the others
    c.delimiter, c.quotechar, c.escapechar, c.quoting, c.strict, c.doublequote, c.skipinitialspace = rng.choice(
        [("#", "^", "!", csv.QUOTE_ALL, not t[3], False, True), ("%", None, "&", csv.QUOTE_NONE, not t[3], True, False)]
    )
    for other in (d, mk(t)):
        c = other.to_csv_dialect()
        got = (c.delimiter, c.quotechar, c.escapechar, c.quoting, bool(c.doublequote), bool(c.skipinitialspace), bool(getattr(c, "strict", False)))
        ctx.same(got, want, "to_csv_dialect after another csv dialect was changed")
    same(ctx, d, t, "the dialect after its csv dialect was changed")
    ctx.event("csv dialects changed")
    ctx.nontrivial(t)
    if t[0]:
        kw = dict(delimiter=t[0], quotechar=t[1] or None, escapechar=t[2] or None, strict=t[3], quoting=csv.QUOTE_MINIMAL if t[1] else csv.QUOTE_NONE)
        cls = type("x", (csv.Dialect,), dict(kw, doublequote=True, skipinitialspace=False, lineterminator="\n"))
        forms = [cls, cls()]
        try:
            forms.append(_csv.reader([], **dict(kw)).dialect)
        except (TypeError, ValueError):
            pass
        for f in forms:
            same(ctx, SimpleDialect.from_csv_dialect(f), t, "from_csv_dialect of %s" % type(f).__name__)
            ctx.event("csv dialects")
    for name, w in (("excel", (",", '"', "", False)), ("excel-tab", ("\t", '"', "", False)), ("unix", (",", '"', "", False))):
        same(ctx, SimpleDialect.from_csv_dialect(csv.get_dialect(name)), w, name)


def same(ctx, d, t, name):
    got = (d.delimiter, d.quotechar, d.escapechar, d.strict)
    if got != t or type(d.strict) is not bool:
        ctx.fail("%s lost something" % name, got=got, want=t)


GOOD = ["", ",", '"', "\u4e2d", "\U0001f600", "\n", "\0"]
BAD = [None, "ab", ",,", "\r\n", "e\u0301", "\U0001f600\U0001f600", "   "]
STRICT = [(True, True), (False, True), (None, False), ("yes", False), (2, False), ("", False), (-1, False), ("False", False), (0.5, False)]


def validation(ctx, rng, k):
    pos, rest = divmod(k, len(GOOD) + len(BAD) + len(STRICT))
    t = [rng.choice(GOOD), rng.choice(GOOD), rng.choice(GOOD), rng.random() < 0.5]
    ok = True
    if rest < len(GOOD):
        t[pos] = GOOD[rest]
    elif rest < len(GOOD) + len(BAD):
        t[pos] = BAD[rest - len(GOOD)]
        ok = False
    else:
        t[3], ok = STRICT[rest - len(GOOD) - len(BAD)]
    d = SimpleDialect(t[0], t[1], t[2], strict=t[3])
    for name, fn in (("validate", d.validate), ("to_dict", d.to_dict), ("serialize", d.serialize)):
        out = ctx.call(fn)
        if ok and out.exc is not None:
            ctx.fail("%s rejects %r" % (name, t), got=out)
        if not ok and not isinstance(out.exc, ValueError):
            ctx.fail("%s accepts %r" % (name, t), got=out)
    if not ok and not (pos < 3 and t[pos] is None) and not (t[3] is None):
        out = ctx.call(clevercsv.reader, ["a"], d)
        if not isinstance(out.exc, ValueError):
            ctx.fail("the reader accepts %r" % t, got=out)
    ctx.event("validations")
    if not ok:
        ctx.event("rejected components")
    ctx.nontrivial("validation", repr(t))


STRATA = [
    Stratum("pairs", block, None, cases=list(range(len(SMALL)))),
    Stratum("triples", triples, None, cases=list(range(len(TINY)))),
    Stratum("lists", lists, 20000, 200000),
    Stratum("trips", trips, 20000, 200000),
    Stratum("validation", validation, None, cases=list(range(3 * (len(GOOD) + len(BAD) + len(STRICT)))) * 3),
]
