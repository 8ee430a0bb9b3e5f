"""CSV files with content in many encodings, and models of loading them."""

import os
import random
import tempfile

from clevercsv.encoding import get_encoding
from clevercsv.detect import Detector

from lib import gen

ENC = [
    "utf-8", "utf-8", "utf-8", "utf-8-sig", "utf-16", "utf-16-le", "utf-16-be", "utf-32", "latin-1", "cp1252", "ascii", "shift_jis",
    "koi8-r", "iso8859-15",
]


def content(rng, big=None):
    """A text for a file; sometimes with a mark in front"""
    text = _content(rng, big)
    return "\ufeff" + text if rng.random() < 0.05 else text


def _content(rng, big=None):
    """A text for a file; sometimes larger than the buffers"""
    r = rng.random()
    if big is None:
        big = r < 0.06
    if big:
        d = rng.choice(gen.COMMON_D)
        q = rng.choice(['"', "'", ""])
        nl = rng.choice(["\n", "\r\n", "\r"])
        nc = rng.randint(2, 5)
        size = rng.choice([8190, 8192, 8193, 16384, 20000, 66000])
        out = []
        n = 0
        while n < size:
            row = [gen.word(rng, 1, 30) + rng.choice(["", "", "\u00e9", "\u4e2d", "\U0001f600", " x"]) for _ in range(nc)]
            if q:
                row = [q + c + q if rng.random() < 0.5 else c for c in row]
            out.append(d.join(row))
            n += len(out[-1]) + len(nl)
        return nl.join(out) + nl
    if r < 0.5:
        return gen.messy(rng, rows=rng.randint(1, 8))
    if r < 0.7:
        rows = [[gen.word(rng) for _ in range(3)] for _ in range(rng.randint(1, 6))]
        if rng.random() < 0.3:
            rows[0][0] = rows[0][1]
        if rng.random() < 0.4:
            rows.insert(rng.randint(0, len(rows)), [])
        if rng.random() < 0.4:
            rows.append(rows[0][:2])
        if rng.random() < 0.3:
            rows.append(rows[0] + ["x", "y"])
        return gen.write_csv(rows, delimiter=rng.choice(gen.COMMON_D), quoting=rng.choice([0, 1]), lineterminator=rng.choice(["\n", "\r\n", "\r"]))
    if r < 0.75:
        return ""
    return gen.sample_text(rng)


def encode(rng, text):
    """(bytes, encoding to pass, or None to have it detected)"""
    for _ in range(20):
        enc = rng.choice(ENC)
        try:
            data = text.encode(enc)
            if data.decode(enc) != text:
                continue
        except UnicodeError:
            continue
        return data, (None if rng.random() < 0.4 else enc)
    return text.encode("utf-8"), "utf-8"


class File:
    """A scratch file that is removed again"""

    def __init__(self, data, name=None, folder=None):
        if folder is None:
            folder = tempfile.gettempdir()
            name = "%d_%s" % (os.getpid(), name or "file.csv")
        self.path = os.path.join(folder, name)
        with open(self.path, "wb") as f:
            f.write(data)
        self.data = data

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        try:
            os.unlink(self.path)
        except OSError:
            pass


def sample_of(path, encoding, num_chars):
    """What detection gets to see"""
    with open(path, "rb") as f:
        data = f.read()
    text = data.decode(encoding)
    return text[:num_chars] if num_chars else text


def text_of(path, encoding):
    with open(path, "rb") as f:
        return f.read().decode(encoding or "utf-8")
