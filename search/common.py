"""Bounded conformance search: the property checked on the real code, on generated inputs."""
import hashlib
import json
import os
import random
import time


class Found(Exception):
    pass


def enc(x):
    """JSON form of an input"""
    if isinstance(x, bytes):
        return {"b": x.decode("latin-1")}
    if isinstance(x, tuple):
        return {"t": [enc(i) for i in x]}
    if isinstance(x, list):
        return [enc(i) for i in x]
    if isinstance(x, dict):
        return {"d": [[enc(k), enc(v)] for k, v in x.items()]}
    if x is None or isinstance(x, (bool, int, float)):
        return x
    if isinstance(x, str):
        return {"s": x} if x.isascii() and x.isprintable() else {"u": [ord(c) for c in x]}
    return {"r": repr(x)}


def dec(x):
    if isinstance(x, list):
        return [dec(i) for i in x]
    if isinstance(x, dict):
        (k, v), = x.items()
        if k == "b":
            return v.encode("latin-1")
        if k == "t":
            return tuple(dec(i) for i in v)
        if k == "d":
            return {dec(a): dec(b) for a, b in v}
        if k == "s":
            return v
        if k == "u":
            return "".join(map(chr, v))
        return v
    return x


class Search:
    def __init__(self, pid, seed, budget, deep, out, work):
        self.pid, self.deep, self.out, self.work = pid, deep, out, work
        self.rng = random.Random(seed)
        self.seed = seed
        self.t0 = time.time()
        self.deadline = self.t0 + budget
        self.evaluations = 0
        self.seen = set()
        self.samples, self.failures, self.families = [], [], []
        self.rule = ""
        self.lastfile = open(out + ".last", "w")
        self.crashy = pid in ("C01", "C03", "C04", "C10")
        self.cur = None

    def time_left(self):
        return time.time() < self.deadline

    def frac(self, f):
        """deadline test for a share of the budget"""
        return time.time() < self.t0 + (self.deadline - self.t0) * f

    def mark(self, *inp):
        """input about to be run (kept for crashes)"""
        self.lastfile.seek(0)
        self.lastfile.truncate()
        self.lastfile.write(json.dumps(enc(list(inp)))[:20000])
        self.lastfile.flush()

    def begin(self, inp):
        self.cur = inp
        if self.crashy:
            self.mark(inp)

    def count(self, key, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            h = hashlib.blake2b(repr(key).encode("utf-8", "backslashreplace"), digest_size=8).digest()
            if h not in self.seen:
                self.seen.add(h)
                if len(self.samples) < 5 and (len(self.seen) in (1, 10, 100, 1000, 5000)):
                    self.samples.append(repr(key)[:400])

    def fail(self, inp, expected, got, finding=None):
        self.failures.append({"input": enc(inp), "shown": repr(inp)[:1500], "expected": repr(expected)[:1500] if not isinstance(expected, str) else expected[:1500],
                              "got": repr(got)[:1500] if not isinstance(got, str) else got[:1500], "finding": finding or "new"})
        if finding is None or len(self.failures) > 20:
            raise Found()

    def save(self, finished):
        with open(self.out, "w") as fh:
            json.dump({"evaluations": self.evaluations, "distinct": len(self.seen), "samples": self.samples, "failures": self.failures,
                       "rule": self.rule, "families": self.families, "finished": finished, "secs": time.time() - self.t0}, fh)


# ------------------------------------------------------------------ generators
def pick(rng, weights):
    return rng.choices([w[0] for w in weights], [w[1] for w in weights])[0]


def rtext(rng, alphabet, maxlen):
    return "".join(rng.choice(alphabet) for _ in range(rng.randint(0, maxlen)))
