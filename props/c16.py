"""C16: the candidate dialects are exactly the possible ones"""

from clevercsv.escape import is_potential_escapechar
from clevercsv.potential_dialects import filter_urls
from clevercsv.potential_dialects import get_delimiters
from clevercsv.potential_dialects import get_dialects
from clevercsv.potential_dialects import get_quotechars
from clevercsv.potential_dialects import masked_by_quotechar

import unicodedata

from lib import gen
from lib.engine import Stratum
from lib.models import celltypes
from lib.models import dialects as M

ID = "C16"
RULE = (
    "A case is a sample and allowed delimiters; the set of candidates is "
    "compared with an independent definition. One stratum runs through every "
    "Unicode character as a possible delimiter, escape and quote. "
    "Non-trivial: more than one candidate; distinct by sample and delimiters."
)
TECHNIQUE = "runtime monitoring: set of candidates checked against an independent definition"
LEVEL_NOTE = (
    "Complete over single characters of the Unicode planes in use (every "
    "64th block of the rest), random otherwise; trusts unicodedata."
)
REQUIRED = ["huge texts", "candidates compared", "escapes among the candidates", "urls removed", "masked compared", "characters compared", "encodings compared"]


def key(d):
    return (d.delimiter, d.quotechar, d.escapechar)


def one(ctx, text, delims, masked=False):
    if not celltypes.comparable(text):
        ctx.event("samples not compared")
        return
    info = dict(text=text, delimiters=delims)
    got = get_dialects(text, delimiters=delims, test_masked_by_quotes=masked)
    keys = [key(d) for d in got]
    ctx.check(len(keys) == len(set(keys)), "a dialect occurs twice", got=keys, **info)
    want = M.candidates(text, delims)
    if masked:
        want = {k for k in want if not M.masked(text, k[1], k[2], k[0])}
        ctx.event("masked compared")
    if set(keys) != want:
        ctx.fail(
            "candidates",
            missing=sorted(want - set(keys)),
            added=sorted(set(keys) - want),
            masked=masked,
            **info,
        )
    ctx.check(all(d.strict is False for d in got), "strict candidate", **info)
    ctx.event("candidates compared", len(keys))
    ctx.event("escapes among the candidates", sum(1 for k in keys if k[2]))
    if len(keys) > 1:
        ctx.nontrivial(text, delims)


def random_samples(ctx, rng, i):
    text = gen.sample_text(rng)
    delims = None
    if rng.random() < 0.35:
        delims = rng.sample([",", ";", "|", "\t", " ", ":", "-", "a", "1", "/", ".", '"', "\u00e9"], rng.randint(0, 5))
    one(ctx, text, delims, rng.random() < 0.25)
    ctx.sample((text, delims))


def urls(ctx, rng, i):
    """Delimiter-like characters inside and next to URLs"""
    from props.c14 import g_email, g_path, g_url

    parts = []
    for _ in range(rng.randint(1, 8)):
        parts.append(rng.choice([g_url, g_url, g_email, g_path, lambda r: r.choice(gen.WORDS)])(rng))
        parts.append(rng.choice([",", ";", " ", "\n", ":", "|", "-", "", '"', "\\", "'", "~", "?", "#"]))
    text = "".join(parts)
    if not celltypes.comparable(text):
        return
    got = filter_urls(text)
    want = M.without_urls(text)
    ctx.same(got, want, "text without URLs", text=text)
    if want != text:
        ctx.event("urls removed")
    one(ctx, text, None)
    ctx.sample(text)


def components(ctx, rng, i):
    text = gen.sample_text(rng)
    delims = None
    if rng.random() < 0.5:
        delims = rng.sample([",", ";", "a", "\t", "\n", '"'], rng.randint(0, 4))
    ctx.same(
        get_delimiters(text, "UTF-8", delimiters=delims),
        M.delimiters(text, delims),
        "delimiters",
        text=text,
        allowed=delims,
    )
    ctx.same(get_quotechars(text), {""} | (M.QUOTES & set(text)), "quotes", text=text)
    d, q, e = gen.dialect_chars(rng, common=0.9)
    text = gen.soup(rng, d, q, e, rng.randint(0, 14))
    if q:
        ctx.same(
            masked_by_quotechar(text, q, e, d),
            M.masked(text, q, e, d),
            "masked",
            text=text,
            dialect=(d, q, e),
        )
        ctx.event("masked compared")


ENCODINGS = [
    "utf-8", "UTF-8", "ascii", "ASCII", "latin-1", "cp1252", "iso8859-15", "koi8-r", "shift_jis", "gb18030", "utf-16", "utf-16-le",
    "utf-32", "utf-8-sig", "utf_8", "utf8", "big5", "euc-kr", "cp437", "mac-roman", "UTF-8-SIG", "Windows-1252", "cp949",
]
CATS = ["Lu", "Ll", "Lo", "Nd", "Ps", "Pe", "Po", "Pd", "Sm", "Zs", "Cc", "Sk", "Sc", "Pc", "So"]


def encodings(ctx, rng, i):
    """Texts in other encodings, other blocked characters and categories"""
    enc = rng.choice(ENCODINGS)
    text = gen.sample_text(rng)
    if rng.random() < 0.5:
        # bytes of that encoding
        raw = bytes(rng.randrange(256) for _ in range(30)).decode(enc, "ignore")
        text = "".join(rng.choice(raw + text + ",;\\") for _ in range(rng.randint(1, 60)))
    keep = []
    for c in text:
        try:
            if c.encode(enc).decode(enc) == c:
                keep.append(c)
        except UnicodeError:
            pass
    text = "".join(keep)
    if not celltypes.comparable(text):
        return
    delims = None
    if rng.random() < 0.3 and text:
        delims = [rng.choice(text) for _ in range(3)] + [","]
    info = dict(text=text, encoding=enc, delimiters=delims)
    got = [key(d) for d in get_dialects(text, encoding=enc, delimiters=delims)]
    ctx.same(sorted(got), sorted(M.candidates(text, delims)), "candidates in an encoding", **info)
    ctx.event("encodings compared")
    for c in set(text):
        ctx.same(bool(is_potential_escapechar(c, enc)), M.is_escape(c), "potential escape", char=c, **info)
        block = rng.choice([None, "", "\\", ["/", c], {"!"}, (c,)])
        want = M.is_escape(c) if block is None else unicodedata.category(c) == "Po" and c not in block
        ctx.same(bool(is_potential_escapechar(c, enc, block_char=block)), want, "potential escape", char=c, block=block, **info)
    block = rng.choice([None, [], [",", "\n"], [".", "/"], list(text[:3])])
    cats = rng.choice([None, [], rng.sample(CATS, 4)])
    want = {""}
    for c in set(text):
        if c == "\t" or (
            c not in (M.BLOCKED if block is None else block)
            and unicodedata.category(c) not in (M.BLOCKED_CATS if cats is None else cats)
        ):
            want.add(c)
    ctx.same(get_delimiters(text, enc, block_cat=cats, block_char=block), want, "delimiters with other blocks", categories=cats, block=block, **info)
    qs = rng.choice(["", "'", "abc", ["'", '"', "|"], {"x", "~"}, ("`",)])
    ctx.same(get_quotechars(text, quote_chars=qs), {""} | (set(qs) & set(text)), "other quotes", quotes=qs, **info)
    if len(got) > 1:
        ctx.nontrivial("enc", text, enc, delims)


def chars(ctx, rng, block):
    """Every character as delimiter, quote and escape"""
    for c in range(block * 64, block * 64 + 64):
        if c == 0 or 0xD800 <= c <= 0xDFFF or c > 0x10FFFF:
            continue
        ch = chr(c)
        if not celltypes.comparable(ch) and "\x1c" > ch > "\x1f":
            continue
        import unicodedata

        if unicodedata.category(ch) == "Cn":
            continue
        text = "a" + ch + "," + ch + "'" + ch + ch + "b"
        got = {key(d) for d in get_dialects(text)}
        if celltypes.comparable(text):
            ctx.same(got, M.candidates(text), "candidates for a character", char=ch)
        got = get_delimiters(ch, "UTF-8")
        ctx.same(got, M.delimiters(ch), "delimiter", char=ch)
        ctx.event("characters compared")


PLANES = list(range(0, 0x3000 // 64)) + list(range(0xF900 // 64, 0x10000 // 64))
PLANES += list(range(0x10000 // 64, 0x12000 // 64)) + list(range(0x1D000 // 64, 0x1FB00 // 64))
REST = [b for b in range(0x110000 // 64) if b not in set(PLANES)]
PLANES += REST[::64]


def large(ctx, rng, i):
    """Characters that occur at the end of a large text only"""
    text = gen.late(rng)
    tail = gen.messy(rng) if rng.random() < 0.7 else gen.sample_text(rng)
    one(ctx, text + tail, None, rng.random() < 0.3)
    ctx.event("large samples")


def many(ctx, rng, i):
    """Hundreds of possible delimiters and escapes"""
    text = gen.many(rng)
    delims = None
    if rng.random() < 0.3:
        delims = rng.sample(sorted(set(text)), len(set(text)) // 2)
    one(ctx, text, delims, len(text) < 1500 and rng.random() < 0.3)
    ctx.maxi("different characters", len(set(text)))


def huge(ctx, rng, i):
    """More than a million characters: what is possible comes at the end"""
    n = [210000, 1050000, 1300000][i % 3]
    body = rng.choice(["a,b\n", "12;x\n", "word\n"])
    tail = rng.choice(["^x", "http://x.com/a^b", '"', "\\" + body[-3:], "\\\"", "\u2026", "~`", "a|http://y.org|b"])
    few = body * 3 + tail
    text = body * (n // len(body)) + tail
    for delims in (None, [",", "^", "|"]):
        want = sorted((x.delimiter, x.quotechar, x.escapechar) for x in get_dialects(few, delimiters=delims))
        got = sorted((x.delimiter, x.quotechar, x.escapechar) for x in get_dialects(text, delimiters=delims))
        ctx.same(got, want, "dialects of a huge text", body=body, tail=tail, length=len(text), delimiters=delims)
    one(ctx, few, None, False)
    ctx.event("huge texts")
    ctx.nontrivial("huge", body, tail, n)


STRATA = [
    Stratum("huge", huge, 8, 90),
    Stratum("many", many, 60, 1500),
    Stratum("chars", chars, None, cases=PLANES),
    Stratum("random", random_samples, 36000, 150000),
    Stratum("urls", urls, 36000, 150000),
    Stratum("components", components, 48000, 200000),
    Stratum("encodings", encodings, 12000, 100000),
    Stratum("chars_rest", chars, 0, None, cases=REST),
    Stratum("large", large, 24, 500),
]
