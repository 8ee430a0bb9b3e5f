"""Reference model of the parser, written from the grammar.

A record is a list of cells separated by delimiters and ended by a line end
or the end of a line of input.  A cell is modelled as a list of items: literal
characters, and marks for quotes that open or close a quoted region.
"""

LIT, QUOTE = 0, 1


class ModelError(Exception):
    """kind: newline, nul, limit, strict, end, text"""

    def __init__(self, kind):
        super().__init__(kind)
        self.kind = kind


class Parser:
    def __init__(
        self,
        lines,
        delimiter="",
        quotechar="",
        escapechar="",
        strict=False,
        limit=None,
        quoted=False,
    ):
        self.it = iter(lines)
        self.d = delimiter or None
        self.q = quotechar or None
        self.e = escapechar or None
        self.strict = strict
        self.limit = limit
        self.quoted = quoted

    def __iter__(self):
        return self

    # -- cells ------------------------------------------------------------
    def _add(self, kind, c):
        if self.limit is not None:
            # at most two quotes are removed from a cell
            opens = bool(self.cell) and self.cell[0][0] == QUOTE
            if not self.cell and kind == QUOTE:
                opens = True
            if len(self.cell) - 2 * opens >= self.limit:
                raise ModelError("limit")
        self.cell.append((kind, c))

    def _save(self, unterminated=False):
        cell = self.cell
        self.cell = []
        was_quoted = False
        opens = bool(cell) and cell[0][0] == QUOTE
        if opens and len(cell) > 1 and cell[-1][0] == QUOTE:
            cell = cell[1:-1]
            was_quoted = True
        elif opens and unterminated:
            cell = cell[1:]
            was_quoted = True
        text = "".join(c for _, c in cell)
        if self.limit is not None and len(text) > max(0, self.limit):
            raise ModelError("limit")
        self.cells.append((text, was_quoted) if self.quoted else text)

    # -- records -----------------------------------------------------------
    def __next__(self):
        self.cells, self.cell = [], []
        begun = False  # anything but a line end was seen
        ended = False  # a line end was seen
        inside = False  # in a quoted region
        escape = False
        after_escaped_newline = False
        at_start = True  # of a cell

        while True:
            try:
                line = next(self.it)
            except StopIteration:
                if not begun:
                    raise
                if self.strict:
                    raise ModelError("end")
                self._save(unterminated=True)
                return self.cells
            if not isinstance(line, str):
                raise ModelError("text")
            n = len(line)
            k = 0
            while k < n:
                c = line[k]
                nxt = line[k + 1] if k + 1 < n else None
                k += 1
                if c == "\0":
                    raise ModelError("nul")
                if ended:
                    if c not in "\r\n":
                        raise ModelError("newline")
                    continue
                if not begun:
                    if c in "\r\n":
                        ended = True
                        continue
                    begun = True
                    at_start = True
                if escape:
                    escape = False
                    at_start = False
                    special = c in (self.d, self.q, self.e)
                    if inside:
                        if not special:
                            self._add(LIT, self.e)
                        self._add(LIT, c)
                    elif c in "\r\n":
                        self._add(LIT, c)
                        after_escaped_newline = True
                    else:
                        if not special:
                            self._add(LIT, self.e)
                        self._add(LIT, c)
                    continue
                if inside:
                    if c == self.e:
                        escape = True
                    elif c == self.q:
                        if nxt == self.q:
                            self._add(LIT, c)
                            k += 1
                        elif (
                            self.strict
                            and nxt is not None
                            and nxt != self.d
                            and nxt not in "\r\n\0"
                        ):
                            raise ModelError("strict")
                        else:
                            self._add(QUOTE, c)
                            inside = False
                    else:
                        self._add(LIT, c)
                    continue
                # outside quotes
                if c in "\r\n":
                    self._save()
                    ended = True
                elif c == self.q and (at_start or c != self.e):
                    self._add(QUOTE, c)
                    inside = True
                    at_start = False
                    after_escaped_newline = False
                elif c == self.e:
                    escape = True
                    after_escaped_newline = False
                elif c == self.d:
                    self._save()
                    at_start = True
                    after_escaped_newline = False
                else:
                    self._add(LIT, c)
                    at_start = False
            # end of the line of input
            if ended or not begun:
                return self.cells
            if inside:
                if escape:
                    escape = False
                    self._add(LIT, "\n")
                continue
            if escape:
                escape = False
                at_start = False
                continue
            if after_escaped_newline:
                continue
            self._save()
            return self.cells


def split_lines(text):
    """Lines as an open file with newline='' gives them (ends kept)"""
    out, start, n, i = [], 0, len(text), 0
    while i < n:
        c = text[i]
        if c == "\n":
            out.append(text[start : i + 1])
            start = i + 1
        elif c == "\r":
            if i + 1 < n and text[i + 1] == "\n":
                i += 1
            out.append(text[start : i + 1])
            start = i + 1
        i += 1
    if start < n:
        out.append(text[start:])
    return out


def parse(text, delimiter="", quotechar="", escapechar="", **kw):
    """All records of a text, or (records, error kind) if it is malformed"""
    return list(
        Parser(split_lines(text), delimiter, quotechar, escapechar, **kw)
    )


def events(lines, **kw):
    """[('row', cells) ... ('error', kind)...] with resumption after errors"""
    p = Parser(lines, **kw)
    out = []
    while True:
        try:
            out.append(("row", next(p)))
        except StopIteration:
            return out
        except ModelError as e:
            out.append(("error", e.kind))
