"""C12 search: conversion and serialization of dialects."""
import csv
import io

RULE = "valid dialects over all components and csv dialects of every kind; non-trivial: some component differs from the default"
CH = ["", ",", ";", "\t", "|", "a", " ", "\U0001f600", "é", "\0", '"', "'", "\\", "/", "\n", "\ud800", "\u2028", "\x7f"]


def parts(x):
    return (x.delimiter, x.quotechar, x.escapechar, x.strict)


def one(s, t):
    from clevercsv.dialect import SimpleDialect
    inp = {"what": "simple", "t": t}
    s.begin(inp)
    A = SimpleDialect(t[0], t[1], t[2], strict=t[3])
    before = dict(vars(A))
    try:
        B = SimpleDialect.deserialize(A.serialize())
        C = SimpleDialect.from_dict(A.to_dict())
        D = A.to_dict()
    except Exception as x:
        s.fail(inp, "a round trip", "%s: %s" % (type(x).__name__, x))
        return
    if D != dict(delimiter=t[0], quotechar=t[1], escapechar=t[2], strict=t[3]):
        s.fail(inp, "the dictionary of the components", repr(D))
    for name, x in (("serialize", B), ("dict", C)):
        if not (x == A) or parts(x) != tuple(t) or type(x.strict) is not bool:
            s.fail(inp, repr(t), "%s gives %r" % (name, parts(x)))
    if t[0] != "":
        try:
            c = A.to_csv_dialect()
            E = SimpleDialect.from_csv_dialect(c)
            if parts(E) != tuple(t):
                s.fail(inp, repr(t), "via csv dialect %r" % (parts(E),))
            c2 = A.to_csv_dialect()
            if A.quotechar == "" and c.quoting != csv.QUOTE_NONE:
                s.fail(inp, "no quoting without a quote character", repr(c.quoting))
        except Exception as x:
            if type(x).__name__ == "Found":
                raise
            s.fail(inp, "a csv dialect", "%s: %s" % (type(x).__name__, x))
    if vars(A) != before:
        s.fail(inp, "converting changes nothing", repr(vars(A)))
    s.count(t, tuple(t) != (",", '"', "", False))


def fromcsv(s, attrs, how):
    """a csv dialect of some kind"""
    from clevercsv.dialect import SimpleDialect
    inp = {"what": "csv", "attrs": attrs, "how": how}
    s.begin(inp)
    cls = type("D", (csv.Dialect,), dict(attrs))
    exp = (attrs.get("delimiter") or "", "" if attrs["quoting"] == csv.QUOTE_NONE else attrs["quotechar"], attrs.get("escapechar") or "", bool(attrs.get("strict", False)))
    try:
        if how == "class":
            d = cls
        elif how == "instance":
            d = cls() if attrs.get("delimiter") else cls.__new__(cls)
        else:
            csv.register_dialect("verif12", **attrs)
            d = csv.get_dialect("verif12")
            csv.unregister_dialect("verif12")
    except (TypeError, ValueError, csv.Error):
        return
    before = {k: getattr(d, k, None) for k in dir(d) if not k.startswith("__")}
    try:
        got = parts(SimpleDialect.from_csv_dialect(d))
    except Exception as x:
        s.fail(inp, repr(exp), "%s: %s" % (type(x).__name__, x))
        return
    if got != exp:
        s.fail(inp, repr(exp), repr(got))
    if {k: getattr(d, k, None) for k in dir(d) if not k.startswith("__")} != before:
        s.fail(inp, "converting changes nothing", "changed")
    s.count((repr(attrs), how))


def run(s):
    import itertools
    s.rule = RULE
    rng = s.rng
    for d, q, e in itertools.product(CH, repeat=3):
        for st in (False, True):
            one(s, (d, q, e, st))
    s.families.append("every dialect over %d characters per component" % len(CH))
    for d in (",", ";", "\t", "|", None, "é"):
        for q in ('"', "'", None):
            for e in (None, "\\", "/"):
                for quoting in (csv.QUOTE_MINIMAL, csv.QUOTE_ALL, csv.QUOTE_NONE, csv.QUOTE_NONNUMERIC):
                    for st in (None, False, True, 1):
                        if q is None and quoting != csv.QUOTE_NONE:
                            continue
                        a = dict(delimiter=d, quotechar=q, escapechar=e, quoting=quoting, lineterminator="\n", doublequote=True, skipinitialspace=False)
                        if st is not None:
                            a["strict"] = st
                        for how in ("class", "instance", "registered"):
                            fromcsv(s, a, how)
    while s.time_left() and (s.deep or s.frac(0.5)):
        t = tuple("" if rng.random() < 0.2 else chr(rng.choice([rng.randint(0, 127), rng.randint(0, 0xffff), rng.randint(0x10000, 0x10ffff)])) for _ in range(3)) + (rng.random() < 0.5,)
        one(s, t)


def replay(s, i):
    if i["what"] == "simple":
        one(s, tuple(i["t"]))
    else:
        fromcsv(s, i["attrs"], i["how"])
