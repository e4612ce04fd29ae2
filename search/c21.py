"""C21 search: checksum and encoding detection on real files."""
import hashlib
import os
import sys
import types
from cli import put

RULE = "file sizes around multiples of the block, detectors that are certain after k chunks; non-trivial: longer than one block"


def content(n, fill=None):
    import random
    if fill is not None:
        return (bytes([fill]) * n)
    return random.Random(n).randbytes(n) if n < 300 else (random.Random(n).randbytes(251) * (n // 251 + 1))[:n]


def one(s, n, done, mode, fill=None):
    import clevercsv.encoding as en
    import clevercsv.utils as ut
    inp = {"n": n, "done": done, "mode": mode, "fill": fill}
    s.begin(inp)
    p = os.path.join(s.work, "c21.bin")
    data = content(n, fill)
    put(p, data)
    if mode == "sha":
        got = ut.sha1sum(p)
        if got != hashlib.sha1(data).hexdigest():
            s.fail(inp, hashlib.sha1(data).hexdigest(), got)
        s.count(repr(inp), n > 65536)
        return
    feeds, closed, made = [], [], []
    answer = object()

    class U:
        def __init__(self, *a, **k):
            made.append(self)
            self.result = {"encoding": "early"} if not closed else None

        @property
        def done(self):
            return done is not None and len(feeds) >= done

        def feed(self, b):
            if closed:
                s.fail(inp, "no feed after close", "feed")
            feeds.append(bytes(b))

        def close(self):
            closed.append(1)
            self.result = {"encoding": answer, "confidence": 1}
            return self.result
    import chardet
    real = chardet.UniversalDetector
    had = sys.modules.get("cchardet")
    other = []

    def wrong(*a, **k):
        other.append(1)
        return U()
    chardet.UniversalDetector = U if mode == "chardet" else wrong
    sys.modules["cchardet"] = types.SimpleNamespace(UniversalDetector=U if mode == "cchardet" else wrong, __name__="cchardet", __version__="2.1.18")
    try:
        got = en.get_encoding(p, try_cchardet=(mode == "cchardet"))
    finally:
        chardet.UniversalDetector = real
        if had is None:
            del sys.modules["cchardet"]
        else:
            sys.modules["cchardet"] = had
    if got is not answer:
        s.fail(inp, "the detector's answer", repr(got))
    if other or len(made) != 1 or len(closed) != 1:
        s.fail(inp, "one detector of the kind asked for, closed once", "%d %d %d" % (len(other), len(made), len(closed)))
    fed = b"".join(feeds)
    if fed != data[:len(fed)]:
        s.fail(inp, "consecutive chunks of the file", "differs")
    sure = done is not None and len(feeds) >= done
    if not sure and fed != data:
        s.fail(inp, "the whole file fed", "%d of %d bytes" % (len(fed), n))
    if done is not None and len([f for f in feeds]) > done:
        s.fail(inp, "no feed once the detector is certain (%d feeds)" % done, "%d feeds" % len(feeds))
    s.count(repr(inp), n > 65536)


def run(s):
    s.rule = RULE
    rng = s.rng
    B = 65536
    sizes = [0, 1, 2, 100, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B, 3 * B + 7, 5 * B - 3, 8192, 8193, 131, 1 << 18, (1 << 20) + 1]
    for n in sizes:
        one(s, n, None, "sha")
        for mode in ("chardet", "cchardet"):
            for done in (None, 0, 1, 2, 3):
                one(s, n, done, mode)
    for n in (1, 2, B - 1, B, B + 1, 2 * B + 3):
        for fill in (0, 10, 32, 13, 48, 255):
            one(s, n, None, "sha", fill)
            one(s, n, None, "chardet", fill)
    s.families.append("sizes %r with detectors certain after 0 to 3 chunks or never" % sizes)
    while s.time_left() and (s.deep or s.frac(0.4)):
        n = rng.choice([rng.randint(0, 4 * B), B * rng.randint(0, 6) + rng.randint(-2, 2)])
        one(s, max(0, n), rng.choice([None, None, 0, 1, 2, 5]), rng.choice(["sha", "chardet", "cchardet"]), rng.choice([None, None, None, 0, 10, 32]))


def replay(s, i):
    one(s, i["n"], i["done"], i["mode"], i.get("fill"))
