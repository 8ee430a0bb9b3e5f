"""Ways of describing the same dialect to clevercsv and to the csv module."""

import csv
import _csv
import io

from clevercsv.dialect import SimpleDialect

FORMS = [
    "name",
    "class",
    "instance",
    "registry",
    "simple",
    "kwargs",
    "override_name",
    "override_simple",
    "override_instance",
]

_n = [0]


class Spec:
    """A one-character dialect; q == "" means QUOTE_NONE"""

    def __init__(self, d, q, e, strict=False, term="\r\n", quoting=None, dbl=True):
        self.d, self.q, self.e, self.strict = d, q, e, strict
        self.term = term
        if quoting is None:
            quoting = csv.QUOTE_MINIMAL if q else csv.QUOTE_NONE
        self.quoting = quoting
        self.dbl = dbl
        self.unused_q = None  # a quote character that QUOTE_NONE disables

    def attrs(self):
        return dict(
            delimiter=self.d,
            quotechar=self.q or self.unused_q,
            escapechar=self.e or None,
            doublequote=self.dbl,
            skipinitialspace=False,
            lineterminator=self.term,
            quoting=self.quoting,
            strict=self.strict,
        )

    def cls(self):
        return type("spec", (csv.Dialect,), self.attrs())

    def simple(self):
        return SimpleDialect(self.d, self.q, self.e, strict=self.strict)

    def key(self):
        return (self.d, self.q, self.e, self.strict, self.term, self.quoting, self.dbl, self.unused_q)

    def __repr__(self):
        return "Spec%r" % (self.key(),)


class Form:
    """Context manager giving (args, kwargs) for clevercsv.reader/writer"""

    def __init__(self, rng, spec, form, write=False):
        self.name = None
        s = spec
        kw4 = dict(
            delimiter=s.d, quotechar=s.q, escapechar=s.e, strict=s.strict
        )
        if write:
            kw4 = s.attrs()
        if form == "name":
            _n[0] += 1
            self.name = "vf_dialect_%d" % _n[0]
            csv.register_dialect(self.name, s.cls())
            self.args, self.kw = (self.name,), {}
        elif form == "class":
            self.args, self.kw = (s.cls(),), {}
        elif form == "instance":
            self.args, self.kw = (s.cls()(),), {}
        elif form == "registry":
            self.args, self.kw = (_csv.reader([], s.cls()).dialect,), {}
        elif form == "simple":
            self.args, self.kw = (s.simple(),), {}
        elif form == "kwargs":
            self.args, self.kw = (), kw4
        else:
            base = rng.choice(["excel", "excel-tab", "unix"])
            if form == "override_simple":
                base = SimpleDialect(
                    rng.choice(",;\t"), rng.choice(["", "'", '"']), rng.choice(["", "\\"])
                )
            elif form == "override_instance":
                base = csv.get_dialect(base)
            self.args, self.kw = (base,), kw4
        if self.args and rng.random() < 0.5:
            self.kw = dict(self.kw, dialect=self.args[0])
            self.args = ()

    def __enter__(self):
        return self

    def spoil(self):
        """Change the dialect that was given"""
        d = self.args[0] if self.args else self.kw.get("dialect")
        if isinstance(d, SimpleDialect):
            d.delimiter, d.quotechar, d.escapechar, d.strict = "\x01", "\x02", "\x03", not d.strict
        elif isinstance(d, str) and d == self.name:
            csv.register_dialect(d, csv.excel_tab, delimiter="\x01", quotechar="\x02")
        elif isinstance(d, csv.Dialect) or (isinstance(d, type) and d.__name__ == "spec"):
            d.delimiter, d.quotechar, d.escapechar, d.lineterminator = "\x01", "\x02", "\x03", "\x04"
        else:
            return False
        return True

    def __exit__(self, *a):
        if self.name:
            csv.unregister_dialect(self.name)


def serialise(rng, rows, spec, term):
    """Well-formed text: quotes where needed and sometimes where not"""
    d, q, e = spec.d, spec.q, spec.e
    always = rng.random() < 0.25
    pq = rng.choice([0, 0.2, 0.7])
    out = []
    for row in rows:
        cells = []
        for c in row:
            need = (
                d in c
                or "\n" in c
                or "\r" in c
                or (q and q in c)
                or (len(row) == 1 and c == "")
            )
            if q and (need or always or rng.random() < pq):
                if e:
                    c = c.replace(e, e + e)
                if spec.dbl or not e:
                    c = c.replace(q, q + q)
                else:
                    c = c.replace(q, e + q)
                c = q + c + q
            elif e:
                c = "".join(e + x if x in (d, e) else x for x in c)
            cells.append(c)
        out.append(d.join(cells))
    text = term.join(out)
    if rows and (rows[-1] == [] or rng.random() < 0.75):
        text += term
    return text
