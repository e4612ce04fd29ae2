"""C11 search: comparison, hashing and validation of dialects."""
import itertools

RULE = "pairs and triples of dialects over a pool of components (None, empty, one character, longer, not strings); non-trivial: components differ"
CH = ["", ",", ";", "\t", "|", "a", " ", "\U0001f600", "é", "\0", "-", "<", "~"]
ODD = [None, "ab", 5, b",", [], 1.5, ("a",), True, {}, "", ","]


class Sub(str):
    pass


def mk(t):
    from clevercsv.dialect import SimpleDialect
    return SimpleDialect(t[0], t[1], t[2], strict=t[3])


def less(a, b):
    """documented order on defined components"""
    def k(t):
        return (0 if t[0] == "," else 1 if t[0] == ";" else 2,) + tuple(t)
    return k(a) < k(b)


def pair(s, a, b):
    inp = {"what": "pair", "a": a, "b": b}
    s.begin(inp)
    A, B = mk(a), mk(b)
    eq = a == b
    if (A == B) is not eq or (A != B) is not (not eq) or (B == A) is not eq:
        s.fail(inp, "equal: %r" % eq, "==: %r, !=: %r" % (A == B, A != B))
    if eq and hash(A) != hash(B):
        s.fail(inp, "equal hashes", "%r %r" % (hash(A), hash(B)))
    if eq and len({A, B}) != 1 or not eq and len({A, B}) != 2:
        s.fail(inp, "set membership follows equality", repr({A, B}))
    if all(isinstance(x, str) for x in a[:3] + b[:3]):
        try:
            lt, gt, le, ge = A < B, A > B, A <= B, A >= B
        except Exception as x:
            s.fail(inp, "an order", "%s: %s" % (type(x).__name__, x))
            return
        e = less(a, b)
        if lt is not e or gt is not less(b, a) or le is not (e or eq) or ge is not (less(b, a) or eq):
            s.fail(inp, "a < b is %r" % e, "<: %r >: %r <=: %r >=: %r" % (lt, gt, le, ge))
    for x, t in ((A, a), (B, b)):
        if (x.delimiter, x.quotechar, x.escapechar, x.strict) != tuple(t):
            s.fail(inp, "comparing changes nothing", repr(vars(x)))
    s.count((a, b), not eq)


class Same:
    """looks like a dialect but is none"""

    def __init__(self, t):
        self.delimiter, self.quotechar, self.escapechar, self.strict = t


def other(s, t):
    import csv
    A = mk(t)
    for o in (None, 5, "x", t, list(t), {}, object(), csv.excel, csv.excel(), Same(t), A.__dict__, repr(A)):
        s.begin({"what": "other", "t": t})
        if (A == o) is not False or (o == A) is not False or (A != o) is not True:
            s.fail({"what": "other", "t": t}, "not equal to %r" % (o,), "equal")
        s.count(("other", t, repr(o)[:40]))


def validate(s, t):
    inp = {"what": "validate", "t": t}
    s.begin(inp)
    ok = all(isinstance(x, str) and len(x) <= 1 for x in t[:3]) and isinstance(t[3], bool)
    A = mk(t)
    try:
        r = A.validate()
        got = True
    except Exception as x:
        if type(x).__name__ == "Found":
            raise
        got = False
        r = None
    amb = t[3] in (0, 1) and not isinstance(t[3], bool) if isinstance(t[3], (int, float)) else False
    if got is not ok and not amb:
        s.fail(inp, "valid: %r" % ok, "valid: %r" % got)
    if r is not None:
        s.fail(inp, "validate returns None", repr(r))
    s.count(("validate", repr(t)), not ok)


def run(s):
    s.rule = RULE
    rng = s.rng
    for i in range(3):
        for x in ODD:
            t = [",", '"', "", False]
            t[i] = x
            validate(s, tuple(t))
    for x in (True, False, None, "yes", 2, 0.5, [], "True"):
        validate(s, (",", '"', "", x))
    pool = [(d, q, e, st) for d in ["", ",", ";", "\t", "-", "a", " "] for q in ["", '"'] for e in ["", "\\"] for st in (False, True)]
    for a, b in itertools.product(pool, repeat=2):
        pair(s, a, b)
    s.families.append("every pair of %d dialects" % len(pool))
    for t in pool[::5]:
        other(s, t)
    # None components: equality and hashing only
    for a, b in itertools.product([(None, None, None, False), (None, '"', "", False), (",", None, "", True), ("", "", "", False)], repeat=2):
        pair(s, a, b)
    while s.time_left() and (s.deep or s.frac(0.6)):
        a = tuple(rng.choice(CH) for _ in range(3)) + (rng.random() < 0.5,)
        b = list(a) if rng.random() < 0.6 else [rng.choice(CH) for _ in range(3)] + [rng.random() < 0.5]
        if rng.random() < 0.7:
            i = rng.randrange(4)
            b[i] = rng.choice(CH) if i < 3 else not b[3]
        pair(s, a, tuple(b))
        if rng.random() < 0.1:
            other(s, a)
        if rng.random() < 0.2:
            t = [rng.choice(CH + ODD) for _ in range(3)] + [rng.choice([True, False, None, "x"])]
            validate(s, tuple(t))
        if rng.random() < 0.1:
            ts = list({tuple(rng.choice(CH) for _ in range(3)) + (rng.random() < 0.5,) for _ in range(6)})
            s.begin({"what": "sort", "ts": ts})
            got = [(x.delimiter, x.quotechar, x.escapechar, x.strict) for x in sorted(map(mk, ts))]
            exp = sorted(ts, key=lambda t: (0 if t[0] == "," else 1 if t[0] == ";" else 2,) + t)
            if got != exp:
                s.fail({"what": "sort", "ts": ts}, repr(exp), repr(got))


def replay(s, i):
    if i["what"] == "pair":
        pair(s, i["a"], i["b"])
    elif i["what"] == "validate":
        validate(s, i["t"])
    elif i["what"] == "other":
        other(s, i["t"])
    else:
        run(s)
