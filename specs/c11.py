"""C11: dialects compare, hash and validate consistently."""
import z3
from engine import smt
from engine.contracts import Contract
from engine.models import Model
from engine.smt import STR
from engine.vals import *

KEY = "clevercsv.dialect.SimpleDialect"
NAMES = ("delimiter", "quotechar", "escapechar")


def dialect(it, tag, none=True):
    """a dialect built by the real constructor from arbitrary components (text or undefined)"""
    args = []
    for n in NAMES:
        if none and it.path.choose(2) == 1:
            args.append(None)
        else:
            args.append(it.fresh("str", tag + "_" + n))
    args.append(it.fresh("bool", tag + "_strict"))
    o = it.call(it.resolve(KEY), args, {})
    o.comp = args
    return o


def same(it, a, b):
    out = []
    for x, y in zip(a.comp, b.comp):
        if (x is None) != (y is None):
            return z3.BoolVal(False)
        if x is not None:
            if x.kind == "str":
                it.path.assume(STR.ext(x.t, y.t))
            out.append(x.t == y.t)
    return z3.And(*out)


def as_bool(it, v):
    """obligation-friendly truth of a result that must be a bool"""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, S) and v.kind == "bool":
        return v.t
    if isinstance(v, z3.ExprRef):
        return v
    it.path.check(z3.BoolVal(False), "the comparison returns True or False")
    return z3.BoolVal(False)


class Eq(Contract):
    key = KEY + ".__eq__"

    def setup(self, it):
        return {"self": dialect(it, "a"), "other": dialect(it, "b")}

    def post(self, it, args, kind, v):
        a, b = args["self"], args["other"]
        it.path.check(z3.BoolVal(kind == "return"), "comparing dialects never raises")
        if kind == "return":
            it.path.check(as_bool(it, v) == same(it, a, b), "equal exactly when delimiter, quotechar, escapechar and strict are equal")
            for o in (a, b):
                it.path.check(it.conj([it.eq(it.getf(o, n), c) for n, c in zip(NAMES + ("strict",), o.comp)]), "comparing changes neither dialect")


FOREIGN = Model("foreign object", getany=lambda it, o, n: it.fresh("str", "attr"))


def foreign(it):
    k = it.path.choose(6)
    return [None, lambda: it.fresh("str", "x"), lambda: it.fresh("int", "x"), lambda: (it.fresh("str", "x"),) * 3 + (False,),
            lambda: DictObj(it, []), lambda: Obj(it, FOREIGN)][k]() if k else None


class EqOther(Contract):
    key = KEY + ".__eq__"
    label = KEY + ".__eq__ (other types)"

    def setup(self, it):
        return {"self": dialect(it, "a"), "other": foreign(it)}

    def post(self, it, args, kind, v):
        it.path.check(z3.BoolVal(kind == "return"), "comparing with any object never raises")
        if kind == "return":
            it.path.check(z3.Not(as_bool(it, v)), "a dialect equals no object of another type")


class Hash(Contract):
    key = KEY + ".__hash__"

    def setup(self, it):
        return {"self": dialect(it, "a"), "b": dialect(it, "b")}

    def body(self, it, args):
        h = it.builtins["hash"]
        return it.call(h, [args["self"]], {}), it.call(h, [args["b"]], {})

    def post(self, it, args, kind, v):
        it.path.check(z3.BoolVal(kind == "return"), "hashing never raises")
        if kind == "return":
            it.path.check(z3.Implies(same(it, args["self"], args["b"]), it.term(v[0], "int") == it.term(v[1], "int")), "equal dialects hash alike")


def rank(it, d):
    return z3.If(d == it.path.lit(","), 0, z3.If(d == it.path.lit(";"), 1, 2))


def LT(it, a, b):
    """the specified order: comma, then semicolon, then by the components"""
    (d, q, e, s), (d2, q2, e2, s2) = [[c.t for c in o.comp] for o in (a, b)]
    for x, y in ((d, d2), (q, q2), (e, e2)):
        it.path.assume(STR.ext(x, y))
    comma, semi = it.path.lit(","), it.path.lit(";")
    for x in (d, d2):
        it.path.assume(STR.ext(x, comma))
        it.path.assume(STR.ext(x, semi))
    lt = smt.str_lt
    lex = z3.Or(lt(d, d2), z3.And(d == d2, z3.Or(lt(q, q2), z3.And(q == q2, z3.Or(lt(e, e2), z3.And(e == e2, z3.Not(s), s2))))))
    ra, rb = rank(it, d), rank(it, d2)
    return z3.Or(ra < rb, z3.And(ra == rb, lex))


class Lt(Contract):
    key = KEY + ".__lt__"
    label = KEY + ".__lt__ and total_ordering"

    def setup(self, it):
        return {"self": dialect(it, "a", none=False), "other": dialect(it, "b", none=False)}

    def body(self, it, args):
        op = ["Lt", "Gt", "LtE", "GtE"][it.path.choose(4)]
        self.op = op
        r = it.compare(op, args["self"], args["other"])
        return (op, r)

    def post(self, it, args, kind, v):
        it.path.check(z3.BoolVal(kind == "return"), "ordering dialects with defined components never raises")
        if kind != "return":
            return
        op, r = v
        a, b = args["self"], args["other"]
        want = {"Lt": LT(it, a, b), "Gt": LT(it, b, a), "LtE": z3.Not(LT(it, b, a)), "GtE": z3.Not(LT(it, a, b))}[op]
        it.path.check(as_bool(it, r) == want, "%s is the specified order (comma, semicolon, then the components)" % op)


class Order(Contract):
    """lemma over the specified order; no code is executed"""
    key = KEY + ".__lt__"
    label = "lemma: the specified order is a strict total order, comma first, semicolon next"

    def setup(self, it):
        return {k: dialect(it, k, none=False) for k in "abc"}

    def body(self, it, args):
        return None

    def post(self, it, args, kind, v):
        a, b, c = args["a"], args["b"], args["c"]
        L = {(x, y): LT(it, args[x], args[y]) for x in "abc" for y in "abc" if x != y}
        it.path.check(z3.Not(LT(it, a, a)), "irreflexive")
        it.path.check(z3.Not(z3.And(L["ab"[0], "b"], L["b", "a"])), "asymmetric")
        it.path.check(z3.Implies(z3.And(L["a", "b"], L["b", "c"]), L["a", "c"]), "transitive")
        it.path.check(z3.Or(L["a", "b"], L["b", "a"], same(it, a, b)), "total")
        da, db = a.comp[0].t, b.comp[0].t
        comma, semi = it.path.lit(","), it.path.lit(";")
        it.path.check(z3.Implies(z3.And(da == comma, db != comma), L["a", "b"]), "comma comes first")
        it.path.check(z3.Implies(z3.And(da == semi, db != semi, db != comma), L["a", "b"]), "semicolon comes next")


class Validate(Contract):
    key = KEY + ".validate"
    must_reach = ("return", "raise")

    def setup(self, it):
        args, ok = [], []
        for n in NAMES:
            k = it.path.choose(4)
            v = [lambda: it.fresh("str", n), lambda: None, lambda: it.fresh("int", n), lambda: it.new_list([])][k]()
            args.append(v)
            ok.append(STR.len(v.t) <= 1 if k == 0 else z3.BoolVal(False))
        k = it.path.choose(4)
        v = [lambda: it.fresh("bool", "strict"), lambda: None, lambda: it.fresh("str", "strict"), lambda: it.fresh("int", "strict")][k]()
        args.append(v)
        ok.append(z3.BoolVal(True) if k == 0 else z3.Or(v.t == 0, v.t == 1) if k == 3 else z3.BoolVal(False))
        o = it.call(it.resolve(KEY), args, {})
        o.comp, o.ok = args, z3.And(*ok)
        return {"self": o}

    def post(self, it, args, kind, v):
        o = args["self"]
        if kind == "return":
            it.path.check(o.ok, "what validation accepts are strings of at most one character and a true or false strictness")
        else:
            it.path.check(z3.Not(o.ok), "validation refuses only invalid dialects")
            it.path.check(z3.BoolVal(v.cls.name == "ValueError"), "an invalid dialect is refused with ValueError")
        it.path.check(z3.BoolVal(all(it.getf(o, n) is c for n, c in zip(NAMES + ("strict",), o.comp))), "validation changes nothing")


ASSUMED = {}
CONTRACTS = [Eq(), EqOther(), Hash(), Lt(), Order(), Validate()]
TRUSTED = [smt.TRUSTED_STR, "tuple ==, <, hash and functools.total_ordering as in the language reference (engine/models.py compare)",
           "hash is a function of the value"]
