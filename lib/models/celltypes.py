"""Reference recognisers of the documented cell types.

Characters outside ASCII matter only through their category (letter, digit,
other number, currency sign) or as one of the listed special characters, so a
cell is first mapped to class characters and then recognised by structure.
"""

import json
import re
import unicodedata

# letters, decimal digits and other numbers outside ASCII
LET, DIG, NUM = "\ue001", "\ue002", "\ue003"

SPECIAL = set(
    "-_" ".\u06d4\u3002\ufe52\uff0e\uff61" "()\u27ee\u27ef\uff08\uff09"
    "?\u00bf\u037e\u055e\u061f\u1367\u1945\u2047\u2048\u2049\u2cfa\u2cfb"
    "\u2e2e\ua60f\ua6f7\ufe16\ufe56\uff1f\U00011143\U0001e95f"
    "!\u00a1\u01c3\u055c\u07f9\u109f\u1944\u203c\uaa77\ufe15\ufe57\uff01"
    "\U0001e95e"
)
QUOTED_SPECIAL = set(",\u060c\u1363\u1802\u1808\uff0c\ufe50")

NAMES = [
    "empty", "url", "email", "ipv4", "number", "time", "percentage",
    "currency", "unix_path", "nan", "date", "datetime", "unicode_alphanum",
    "bytearray", "json",
]


def canon(s):
    out = []
    for c in s:
        if c < "\x80":
            out.append(c)
            continue
        if c in (LET, DIG, NUM):
            out.append("\ue000")
            continue
        cat = unicodedata.category(c)
        if cat[0] == "L":
            out.append(LET)
        elif cat == "Nd":
            out.append(DIG)
        elif cat[0] == "N":
            out.append(NUM)
        else:
            out.append(c)
    return "".join(out)


D = "[0-9" + DIG + "]"
LN = "[A-Za-z0-9" + LET + DIG + NUM + "-]"


def is_digit(c):
    return c in "0123456789" + DIG


def number(s):
    """s is canonical and stripped"""
    if not s:
        return False
    if s[0] not in "+,-." and not is_digit(s[0]):
        return False
    return plain_number(s) or grouped_number(s)


def plain_number(s):
    k = 1 if s[0] in "+-" else 0
    rest = s[k:]
    # integer part
    if rest[:1] == "0":
        ends = [0, 1]
    elif rest[:1] and rest[0] in "123456789":
        n = 1
        while n < len(rest) and is_digit(rest[n]):
            n += 1
        ends = list(range(0, n + 1))
    else:
        ends = [0]
    for e in ends:
        before = rest[e - 1] if e else (s[k - 1] if k else "")
        if after_integer(rest[e:], before):
            return True
    return False


def exponent(t):
    return re.fullmatch("[eE][+-]?" + D + "+", t) is not None


def after_integer(t, before):
    prev = bool(before) and is_digit(before)
    if t == "" or (prev and exponent(t)):
        return True
    if t[0] == "." and (prev or (len(t) > 1 and is_digit(t[1]))):
        t2 = t[1:].lstrip("0123456789" + DIG)
        if t2 == "" or exponent(t2):
            return True
    if t[0] == ",":
        t2 = t[1:].lstrip("0123456789" + DIG)
        n = len(t) - 1 - len(t2)
        if (t2 == "" and n >= 1) or (n >= 2 and exponent(t2)):
            return True
    return False


def grouped_number(s):
    """1,234,567.89 and 1.234.567,89"""
    if s[0] in "+-":
        s = s[1:]
    for group, radix in (",.", ".,"):
        parts = s.split(radix)
        if len(parts) != 2 or not all(map(is_digit, parts[1])):
            continue
        groups = parts[0].split(group)
        if len(groups) < 2:
            continue
        if not all(all(map(is_digit, g)) for g in groups):
            continue
        if any(len(g) != 3 for g in groups[1:]):
            continue
        first = groups[0]
        if 1 <= len(first) <= 3 and first[0] in "123456789":
            return True
    return False


HOST = (
    "(?:" + LN + "+\\.)+(?:[a-z][a-z]+|local)(?:\\.[a-z]{2,3})?"
)
IPV4 = r"%s{1,3}(?:\.%s{1,3}){3}" % (D, D)
PORT = "(?::%s{1,5})?" % D
URL = re.compile(
    "(?:(?:http|https|ftp)://(?!-))?(?:%s|localhost%s|%s%s)"
    "(?:/[A-Za-z0-9_/()~?=&%%#.:%s%s%s-]*)?(?:\\.[a-z]+)?"
    % (HOST, PORT, IPV4, PORT, LET, DIG, NUM)
)


def url(s):
    return URL.fullmatch(s) is not None


def email(s):
    user, at, dom = s.partition("@")
    if not at or not re.fullmatch(r"[A-Za-z0-9_.+-]+", user):
        return False
    head, dot, tail = dom.partition(".")
    return bool(
        dot
        and re.fullmatch(r"[A-Za-z0-9-]+", head)
        and re.fullmatch(r"[A-Za-z0-9.-]+", tail)
    )


def two(s, lo, hi):
    return (
        len(s) == 2
        and s[0] in "0123456789"
        and s[1] in "0123456789"
        and lo <= int(s) <= hi
    )


def time(s):
    parts = s.split(":")
    if len(parts) == 2:
        h, m = parts
        return two(m, 0, 59) and (
            two(h, 0, 23) or (len(h) == 1 and h in "0123456789")
        )
    if len(parts) == 3:
        return all(
            two(p, 0, hi) for p, hi in zip(parts, (23, 59, 59))
        )
    if len(parts) == 4:
        # hh:mm:ss+zz:zz
        h, m, mid, z = parts
        return (
            two(h, 0, 23)
            and two(m, 0, 59)
            and len(mid) == 5
            and two(mid[:2], 0, 59)
            and mid[2] in "+-"
            and two(mid[3:], 0, 19)
            and two(z, 0, 59)
        )
    return False


def _year(s):
    if len(s) == 2:
        return is_digit(s[0]) and is_digit(s[1])
    return len(s) == 4 and s[0] in "12" and all(map(is_digit, s[1:]))


def _day(s, short=True):
    if len(s) == 1:
        return short and s in "123456789"
    if len(s) != 2 or not is_digit(s[1]):
        return False
    return (
        (s[0] == "0" and s[1] in "123456789")
        or s[0] in "12"
        or s in ("30", "31")
    )


def _month(s, short=True):
    if len(s) == 1:
        return short and s in "123456789"
    return len(s) == 2 and (
        (s[0] == "0" and s[1] in "123456789") or s in ("10", "11", "12")
    )


def date(s, orig):
    if not s or not (is_digit(s[0])):
        return False
    for sep in "-/. ":
        p = s.split(sep)
        if len(p) == 3:
            a, b, c = p
            if _month(a) and _day(b) and _year(c):
                return True
            if _day(a) and _month(b) and _year(c):
                return True
            if _year(a) and _month(b) and _day(c):
                return True
    for y, m, d in ("\u5e74\u6708\u65e5", "\ub144\uc6d4\uc77c"):
        if orig.endswith(d) and y in orig and m in orig:
            i, j = orig.index(y), orig.index(m)
            if i < j and _year(s[:i]) and _month(s[i + 1 : j]) and _day(s[j + 1 : -1]):
                return True
    n = len(s)
    if n in (6, 8):
        yl = n - 4
        if _month(s[:2]) and _day(s[2:4]) and _year(s[4:]):
            return True
        if _day(s[:2]) and _month(s[2:4]) and _year(s[4:]):
            return True
        if _year(s[:yl]) and _month(s[yl : yl + 2]) and _day(s[yl + 2 :]):
            return True
    return False


def _date(orig):
    o = orig.strip()
    return date(canon(o), o)


def _time(orig):
    return time(canon(orig.strip()))


def datetime(s):
    """s is the stripped cell itself"""
    if not s or not s[0].isdigit():
        return False
    if " " in s:
        p = s.split(" ")
        return len(p) == 2 and _date(p[0]) and _time(p[1])
    p = s.split("T")
    if len(p) != 2 or not _date(p[0]):
        return False
    t = p[1]
    if _time(t) or (t.endswith("Z") and _time(t[:-1])):
        return True
    for sign in "+-":
        if sign in t:
            q = t.split(sign)
            if len(q) != 2 or not _time(q[0]):
                return False
            z = q[1].strip()
            return (
                _time(z)
                or (two(z[:2], 0, 23) and two(z[2:], 0, 59))
                or two(z, 0, 23)
            )
    return False


def alphanum(orig, quoted):
    if not orig:
        return False
    for c in orig:
        if c == " " or c in SPECIAL or (quoted and c in QUOTED_SPECIAL):
            continue
        if unicodedata.category(c)[0] not in "LN":
            return False
    return True


def path(s):
    if s[:1] in ("~", "."):
        s = s[1:]
    if s[:1] != "/":
        return False
    if len(s) > 1 and s.endswith("/"):
        s = s[:-1]
    parts = s.split("/")[1:]
    return all(re.fullmatch(r"[A-Za-z0-9._-]+", p) for p in parts)


def json_object(s):
    if not (s.startswith("{") and s.endswith("}")):
        return False
    try:
        json.loads(s)
    except (ValueError, RecursionError):
        return False
    return True


def detect(cell, quoted=False):
    """Name of the first type, or None"""
    s = cell.strip()
    c = canon(s)
    if s == "":
        return "empty"
    if url(c):
        return "url"
    if email(c):
        return "email"
    if re.fullmatch(IPV4, c):
        return "ipv4"
    if number(c):
        return "number"
    if time(c):
        return "time"
    if s.endswith("%") and number(canon(s.rstrip("%").strip())):
        return "percentage"
    if unicodedata.category(s[0]) == "Sc" and "\n" not in s[2:]:
        # one whitespace character, that may be a line end, and a number
        if number(canon(s[1:].strip())):
            return "currency"
    if path(c):
        return "unix_path"
    if s.lower() in ("n/a", "na", "nan"):
        return "nan"
    if date(c, s):
        return "date"
    if datetime(s):
        return "datetime"
    if alphanum(s, quoted):
        return "unicode_alphanum"
    if s.startswith("bytearray(b") and s.endswith(")"):
        return "bytearray"
    if json_object(s):
        return "json"
    return None


_OK = {}


def comparable(cell):
    """False if a character is of a category that depends on the version of
    the Unicode data, or a whitespace character on whose kind the libraries
    differ"""
    for c in cell:
        if c < "\x80":
            if "\x1c" <= c <= "\x1f":
                return False
            continue
        ok = _OK.get(c)
        if ok is None:
            import regex

            cat = unicodedata.category(c)
            ok = (
                cat != "Cn"
                and bool(regex.match(r"\p{L}", c)) == (cat[0] == "L")
                and bool(regex.match(r"\p{N}", c)) == (cat[0] == "N")
                and bool(regex.match(r"\d", c)) == (cat == "Nd")
                and bool(regex.match(r"\p{Sc}", c)) == (cat == "Sc")
                and c not in (LET, DIG, NUM)
            )
            _OK[c] = ok
        if not ok:
            return False
    return True
