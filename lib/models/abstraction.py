"""Reference model of row patterns and the pattern score.

The text is turned into a list of marks, quoted regions are folded into their
cells, and the rows are read off: a row is the list of its cells, where each
cell is described by what is left of it (nothing, or cell marks and quotes
that do not close).
"""

from fractions import Fraction


def marks(text, d, q, e):
    """List of marks: 'R' row end, 'D' delimiter, 'Q' quote, 'C' content"""
    out = []
    escaped = False
    for c in text:
        if c in "\r\n":
            # line ends next to each other count once
            if not out or out[-1] != "R":
                out.append("R")
        elif d and c == d:
            out.append("C" if escaped else "D")
            escaped = False
        elif q and c == q:
            out.append("C" if escaped else "Q")
            escaped = False
        elif e and c == e:
            if escaped:
                if not out or out[-1] != "C":
                    out.append("C")
                escaped = False
            else:
                escaped = True
        else:
            escaped = False
            if not out or out[-1] != "C":
                out.append("C")
    return out


def fold_quotes(ms):
    """Quoted regions become content"""
    out = list(ms)
    start = None
    i = 0
    while i < len(ms):
        if ms[i] == "Q":
            if start is None:
                start = i
            elif i + 1 < len(ms) and ms[i + 1] == "Q":
                i += 1
            else:
                for k in range(start, i + 1):
                    out[k] = "C"
                start = None
        i += 1
    return out


def rows(ms):
    """Rows as lists of cells"""
    res, row, cell = [], [], ""
    for m in ms:
        if m == "R":
            row.append(cell)
            res.append(row)
            row, cell = [], ""
        elif m == "D":
            row.append(cell)
            cell = ""
        elif not (m == "C" and cell.endswith("C")):
            cell += m
    row.append(cell)
    res.append(row)
    out = []
    for k, r in enumerate(res):
        if len(r) == 1:
            # rows of a single cell: empty only at either end of the text
            out.append(tuple(r))
        else:
            out.append(tuple(c or "C" for c in r))
    # trailing row ends
    while len(out) > 1 and out[-1] == ("",):
        out.pop()
    return out


def abstraction(text, d, q, e):
    return "R".join("D".join(r) for r in rows(fold_quotes(marks(text, d, q, e))))


def score(text, d, q, e, eps=Fraction(1, 1000)):
    rs = rows(fold_quotes(marks(text, d, q, e)))
    count = {}
    for r in rs:
        count[r] = count.get(r, 0) + 1
    total = Fraction(0)
    for r, n in count.items():
        total += n * max(eps, Fraction(len(r) - 1)) / len(r)
    return total / len(count)
