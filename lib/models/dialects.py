"""Reference models of candidate selection, normal forms and tie breaking."""

import re
import unicodedata

from . import parser as P
from .celltypes import DIG, LET, NUM, canon

BLOCKED_CATS = {"Lu", "Ll", "Lt", "Lm", "Lo", "Nd", "Nl", "No", "Ps", "Pe", "Co"}
BLOCKED = set("./\"'\n\r")
QUOTES = set("'\"~`")
NOT_ESCAPE = set("!?\"'.,;:%*&#")

_L = "[A-Za-z0-9" + LET + DIG + NUM + "-]"
_D = "[0-9" + DIG + "]"
URL = re.compile(
    r"(?:(?:https?|ftp)://(?!-))?"
    r"(?:(?:%s+\.)+(?:[a-z]{2,}|local)(?:\.[a-z]{2,3})?"
    r"|localhost(?::%s{1,5})?"
    r"|%s{1,3}\.%s{1,3}\.%s{1,3}\.%s{1,3}(?::%s{1,5})?)"
    r"(?:/[A-Za-z0-9_/()~?=&%%#.:%s%s%s-]*)?"
    r"(?:\.[a-z]+)?" % (_L, _D, _D, _D, _D, _D, _D, LET, DIG, NUM)
)


def without_urls(text):
    c = canon(text)
    out, last = [], 0
    for m in URL.finditer(c):
        out.append(text[last : m.start()])
        out.append("U")
        last = m.end()
    out.append(text[last:])
    return "".join(out)


def is_escape(c):
    return unicodedata.category(c) == "Po" and c not in NOT_ESCAPE


def delimiters(text, allowed=None):
    out = {""}
    for c in set(text):
        if allowed is not None:
            if c in allowed:
                out.add(c)
        elif c == "\t" or (
            c not in BLOCKED and unicodedata.category(c) not in BLOCKED_CATS
        ):
            out.add(c)
    return out


def candidates(text, allowed=None):
    """Set of (delimiter, quotechar, escapechar)"""
    rest = without_urls(text)
    ds = delimiters(rest, allowed)
    qs = {""} | (QUOTES & set(rest))
    before = {}
    for u, v in zip(text, text[1:]):
        if is_escape(u):
            before.setdefault(v, set()).add(u)
    return {
        (d, q, e)
        for d in ds
        for q in qs
        for e in {""} | before.get(d, set()) | before.get(q, set())
    }


def masked(text, q, e, d):
    """Does d occur only inside quoted regions?"""
    if d == "":
        return False
    inside = False
    k = 0
    esc = False
    while k < len(text):
        c = text[k]
        if c == q:
            if not esc:
                if inside and text[k + 1 : k + 2] == q:
                    k += 1
                else:
                    inside = not inside
            esc = False
        elif c == d and not inside:
            return False
        else:
            esc = c == e and not esc
        k += 1
    return True


# -- normal forms -----------------------------------------------------------

ELEM = set(
    "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._&-@+%() /"
)
SINGLE = ELEM - set("@+%() /")


def file_rows(text):
    text = text.rstrip("\n").rstrip("\r")
    for sep in ("\r\n", "\n", "\r"):
        if sep in text:
            return text.split(sep)
    return [text]


def row_cells(row, d, q):
    cells, cur, inside = [], "", False
    for c in row:
        if c == d and not inside:
            cells.append(cur)
            cur = ""
            continue
        if q and c == q:
            inside = not inside
        cur += c
    cells.append(cur)
    return cells


def quoted_with(cell, q):
    return len(cell) >= 2 and cell[0] == q == cell[-1]


def _regular(rows, d, q):
    """Cells of the rows, if all have the delimiter and the same number"""
    if any(d not in r for r in rows):
        return None
    table = [row_cells(r, d, q) for r in rows]
    if len({len(t) for t in table}) != 1 or len(table[0]) < 2:
        return None
    return table


def form1(rows, d, q):
    t = _regular(rows, d, q)
    return t is not None and all(
        quoted_with(c, q) and q not in c[1:-1] for r in t for c in r
    )


def form2(rows, d, q=""):
    t = _regular(rows, d, q)
    return t is not None and all(set(c) <= ELEM for r in t for c in r)


def form3(rows, d, q):
    t = _regular(rows, d, q)
    if t is None or len(rows) < 2:
        return False
    for c in (c for r in t for c in r):
        if c in ("", "''", '""'):
            return False
        if quoted_with(c, "'") or quoted_with(c, '"'):
            if not quoted_with(c, q) or q in c[1:-1]:
                return False
        elif not set(c) <= ELEM:
            return False
    return True


def form4(rows, d, q):
    if len(rows) < 2:
        return False
    for r in rows:
        if q:
            if not (quoted_with(r, q) and set(r[1:-1]) <= SINGLE | {" "}):
                return False
        elif not set(r) <= SINGLE:
            return False
    return True


def form5(rows, d, q):
    if len(rows) < 2 or any(d not in r for r in rows):
        return False
    if any(not (len(r) > 2 and quoted_with(r, q)) for r in rows):
        return False
    return form2([r[1:-1] for r in rows], d, q)


def normal_form(text, allowed=None):
    """(form, (d, q, e)) or None"""
    ds = [",", ";", "|", "\t"] if allowed is None else list(allowed)
    if ds:
        danger = set(ds) | {"'", '"'}
        for u, v in zip(text, text[1:]):
            if v in danger and is_escape(u):
                return None
    rows = file_rows(text)
    for d in ds:
        if form2(rows, d):
            return 2, (d, "", "")
    for d in ds:
        for q in "'\"":
            for n, form in ((1, form1), (3, form3), (5, form5)):
                if form(rows, d, q):
                    return n, (d, q, "")
    for q in ("'", '"', ""):
        if form4(rows, "", q):
            return 4, ("", q, "")
    return None


# -- ties --------------------------------------------------------------------


class Undocumented(Exception):
    """The documented rules say nothing about the case"""


class Ties:
    def __init__(self, text):
        self.text = text
        self.cache = {}

    def rows(self, d):
        if d not in self.cache:
            self.cache[d] = P.parse(self.text, *d)
        return self.cache[d]

    def same_shape(self, a, b):
        return [len(r) for r in self.rows(a)] == [len(r) for r in self.rows(b)]

    def different_cells(self, a, b):
        return [
            (x, y)
            for r, s in zip(self.rows(a), self.rows(b))
            for x, y in zip(r, s)
            if x != y
        ]

    def two(self, a, b):
        (ad, aq, ae), (bd, bq, be) = a, b
        if (ad, ae) == (bd, be):
            # only the quote differs
            if aq and bq:
                return None
            plain, quoted = (a, b) if not aq else (b, a)
            return plain if self.rows(plain) == self.rows(quoted) else quoted
        if (aq, ae) == (bq, be):
            # only the delimiter differs
            if {ad, bd} == {",", " "}:
                return a if ad == "," else b
            if "-" in (ad, bd):
                return b if ad == "-" else a
            return None
        if (ad, aq) == (bd, bq):
            # only the escape differs
            if ae and be:
                raise Undocumented
            plain, esc = (a, b) if not ae else (b, a)
            if not self.same_shape(plain, esc):
                return None
            diff = self.different_cells(plain, esc)
            if not diff:
                return None
            for x, _ in diff:
                n = sum(
                    1
                    for u, v in zip(x, x[1:])
                    if u == esc[2] and v == esc[1]
                )
                if n == 0 or n % 2:
                    return plain
            return esc
        if ad == bd:
            # quote and escape differ
            if ("", "") not in ((aq, ae), (bq, be)):
                return None
            plain, full = (a, b) if (aq, ae) == ("", "") else (b, a)
            if not self.same_shape(plain, full):
                return None
            seq = full[2] + full[1]
            if all(seq in x for x, _ in self.different_cells(plain, full)):
                return full
            return None
        return None

    def reduce(self, ds):
        if len({d[0] for d in ds}) != 1:
            return None
        kept, seen = [], set()
        for a, b in zip(ds, ds[1:]):
            if self.rows(a) == self.rows(b):
                ans = self.two(a, b)
                if ans is not None and ans not in kept:
                    kept.append(ans)
                seen |= {a, b}
        for d in ds:
            if d not in seen and d not in kept:
                kept.append(d)
        return kept

    def three(self, ds):
        if len({d[0] for d in ds}) != 1:
            return None
        if len({d[2] for d in ds}) == 1:
            if len({len(self.rows(d)) for d in ds}) != 1:
                return None
            none = [d for d in ds if not d[1]]
            if not none:
                return None
            differ = [d for d in ds if self.rows(d) != self.rows(none[0])]
            if len(differ) <= 1:
                left = self.reduce(ds)
                return left[0] if left and len(left) == 1 else None
            return None
        quoted = [d for d in ds if d[1]]
        return self.two(*quoted) if len(quoted) == 2 else None

    def four(self, ds):
        left = self.reduce(ds)
        if not left:
            return None
        if len(left) == 1:
            return left[0]
        if len(left) == 2:
            return self.two(*left)
        if len(left) == 3:
            return self.three(left)
        return None

    def decide(self, ds):
        n = len(ds)
        if n == 2:
            return self.two(*ds)
        if n == 3:
            return self.three(ds)
        if n == 4:
            return self.four(ds)
        return None
