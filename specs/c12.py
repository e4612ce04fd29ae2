"""C12: dialects survive conversion and serialization."""
import z3
from engine import smt
from engine import csvlib as L
from engine.contracts import Contract
from engine.smt import STR
from engine.vals import *
from specs.c11 import KEY, NAMES, dialect, same


def comps(it, o):
    return [it.getf(o, n) for n in NAMES + ("strict",)]


def is_dialect(it, o):
    return isinstance(o, Obj) and o.cls is it.resolve(KEY)


def equals(it, o, want):
    """the dialect o has exactly these components (None means undefined)"""
    out = []
    for g, w in zip(comps(it, o), want):
        if w is None or g is None:
            out.append(z3.BoolVal(g is w))
        elif kind_of(g) != kind_of(w):
            return z3.BoolVal(False)
        else:
            e = it.eq(g, w)
            out.append(z3.BoolVal(e) if isinstance(e, bool) else e)
    return z3.And(*out)


def untouched(it, o):
    return z3.BoolVal(all(a is b for a, b in zip(comps(it, o), o.comp)))


class FromCsv(Contract):
    key = KEY + ".from_csv_dialect"

    def setup(self, it):
        o, d = L.csv_dialect(it, "d")
        self.o, self.d = o, d
        return {"d": o}

    def body(self, it, args):
        return it.call(it.resolve(self.key), [args["d"]], {})

    def post(self, it, args, kind, v):
        d = self.d
        it.path.check(z3.BoolVal(kind == "return"), "every csv dialect can be converted")
        if kind != "return":
            return
        it.path.check(z3.BoolVal(is_dialect(it, v)), "the result is a SimpleDialect")
        none = d["quoting"].t == L.QUOTING["QUOTE_NONE"]
        q = S("str", z3.If(none, STR.empty, d["quotechar"].t)) if d["quotechar"] is not None else S("str", STR.empty)
        want = [d["delimiter"] if d["delimiter"] is not None else "", q, d["escapechar"] if d["escapechar"] is not None else "", d["strict"]]
        it.path.check(equals(it, v, want), "delimiter, quotechar, escapechar and strict are taken over; absent ones become empty")
        it.path.check(L.unchanged(it, self.o, d), "the csv dialect is not modified")


class ToCsvAndBack(Contract):
    key = KEY + ".to_csv_dialect"
    label = KEY + ".to_csv_dialect and from_csv_dialect (round trip)"

    def setup(self, it):
        o = dialect(it, "d", none=False)
        for c in o.comp[:3]:
            it.path.assume(STR.len(c.t) <= 1)
        it.path.assume(STR.len(o.comp[0].t) == 1)
        it.ghost["csv_dialect_total"] = True
        return {"self": o}

    def body(self, it, args):
        c = it.call(it.getattr(args["self"], "to_csv_dialect"), [], {})
        return c, it.call(it.resolve(KEY + ".from_csv_dialect"), [c], {})

    def post(self, it, args, kind, v):
        o = args["self"]
        it.path.check(z3.BoolVal(kind == "return"), "a dialect with a delimiter can be converted to a csv dialect and back")
        if kind != "return":
            return
        it.path.check(z3.BoolVal(is_dialect(it, v[1])), "the result is a SimpleDialect")
        it.path.check(equals(it, v[1], o.comp), "the round trip preserves delimiter, quotechar, escapechar and strict")
        it.path.check(untouched(it, o), "converting changes the dialect in no way")
        c = v[0]
        dq = it.truth(it.getattr(c, "doublequote"))
        it.path.check(z3.BoolVal(dq) if isinstance(dq, bool) else dq, "quotes inside cells are doubled")
        it.path.check(it.eq(it.getattr(c, "skipinitialspace"), False), "no initial space is skipped")


class ToDict(Contract):
    key = KEY + ".to_dict"
    label = KEY + ".to_dict and from_dict (round trip)"
    must_reach = ("return", "raise")

    def setup(self, it):
        return {"self": dialect(it, "d")}

    def run(self, it, o):
        d = it.call(it.getattr(o, "to_dict"), [], {})
        return it.call(it.resolve(KEY + ".from_dict"), [d], {})

    def body(self, it, args):
        return self.run(it, args["self"])

    def post(self, it, args, kind, v):
        o = args["self"]
        valid = z3.And(*[STR.len(c.t) <= 1 if c is not None else z3.BoolVal(False) for c in o.comp[:3]])
        it.path.check(untouched(it, o), "the dialect is not modified")
        if kind == "raise":
            it.path.check(z3.Not(valid), "every valid dialect survives")
            return
        it.path.check(z3.BoolVal(is_dialect(it, v)), "the result is a SimpleDialect")
        it.path.check(z3.Implies(valid, equals(it, v, o.comp)), "the result equals the original")
        it.path.check(z3.Implies(valid, it.eq(v, o) if not isinstance(it.eq(v, o), bool) else z3.BoolVal(it.eq(v, o))), "the result compares equal to the original")


class Serialize(ToDict):
    key = KEY + ".serialize"
    label = KEY + ".serialize and deserialize (round trip)"

    def run(self, it, o):
        s = it.call(it.getattr(o, "serialize"), [], {})
        return it.call(it.resolve(KEY + ".deserialize"), [s], {})


ASSUMED = {}
CONTRACTS = [FromCsv(), ToCsvAndBack(), ToDict(), Serialize()]
TRUSTED = [L.TRUST_CSV, L.TRUST_JSON, smt.TRUSTED_STR]
