"""C08: detection picks a best-scoring candidate and skipping is harmless."""
import z3
from engine import smt
from engine.contracts import Contract
from engine.lemma import Lemma
from engine.models import B, Model
from engine.smt import STR, DSEQ, U, DIALECT, NONE_U
from engine.vals import *
from specs import ctie

CD = "clevercsv.consistency.ConsistencyDetector"
D, I, R = DIALECT, smt.I, smt.R
PS = z3.Function("pattern_score", STR.sort, D, R)
TS = z3.Function("type_score", STR.sort, D, R)
UNREADABLE = z3.Function("unreadable", STR.sort, z3.BoolSort())        # the sample cannot be parsed (under any candidate)
SORTED = z3.Function("sorted_dialects", DSEQ.sort, DSEQ.sort)
CAND = z3.Function("candidate_dialects", STR.sort, U, DSEQ.sort)
IDX = z3.Function("index_of_dialect", DSEQ.sort, D, I)
TM = z3.Function("best_score", STR.sort, DSEQ.sort, I, R)               # largest score of the first n candidates
WIT = z3.Function("best_index", STR.sort, DSEQ.sort, I, I)
BEST = z3.Function("best_dialects", STR.sort, DSEQ.sort, R, I, DSEQ.sort)
TIE = z3.Function("tie_choice", STR.sort, DSEQ.sort, D)
TIEN = z3.Function("tie_broken", STR.sort, DSEQ.sort, z3.BoolSort())
at, ln = DSEQ.at, DSEQ.len


def SC(data, d):
    return smt.fmul(PS(data, d), TS(data, d))


def unfold(data, s, n, m=None):
    """definitions at n"""
    sc = SC(data, at(s, n - 1))
    prev = TM(data, s, n - 1)
    out = [z3.Implies(z3.And(1 <= n, n <= ln(s)), z3.And(
        TM(data, s, n) == z3.If(n == 1, sc, z3.If(sc > prev, sc, prev)),
        WIT(data, s, n) == z3.If(z3.Or(n == 1, sc > prev), n - 1, WIT(data, s, n - 1))))]
    if m is not None:
        b = BEST(data, s, m, n - 1)
        out.append(BEST(data, s, m, z3.IntVal(0)) == DSEQ.empty)
        out.append(z3.Implies(z3.And(1 <= n, n <= ln(s)), BEST(data, s, m, n) == z3.If(sc == m, DSEQ.cat(b, DSEQ.unit(at(s, n - 1))), b)))
    return z3.And(*out)


OSEQ = smt.OSEQ
MEM, MEMIX = z3.Function("is_listed", OSEQ.sort, U, z3.BoolSort()), z3.Function("listed_at", OSEQ.sort, U, I)


def mem_axioms():
    """an element stands in a list"""
    a, b = z3.Consts("a!ms b!ms", OSEQ.sort)
    v, u = z3.Consts("v!ms u!ms", U)
    i = z3.Int("i!ms")
    yield z3.ForAll([a, b, v], MEM(OSEQ.cat(a, b), v) == z3.Or(MEM(a, v), MEM(b, v)), patterns=[MEM(OSEQ.cat(a, b), v)])
    yield z3.ForAll([u, v], MEM(OSEQ.unit(u), v) == (u == v), patterns=[MEM(OSEQ.unit(u), v)])
    yield z3.ForAll([v], z3.Not(MEM(OSEQ.empty, v)), patterns=[MEM(OSEQ.empty, v)])
    ix = MEMIX(a, v)
    yield z3.ForAll([a, v], z3.Implies(MEM(a, v), z3.And(0 <= ix, ix < OSEQ.len(a), OSEQ.at(a, ix) == v)), patterns=[MEM(a, v)])
    yield z3.ForAll([a, v, i], z3.Implies(z3.And(0 <= i, i < OSEQ.len(a), OSEQ.at(a, i) == v), MEM(a, v)), patterns=[z3.MultiPattern(MEM(a, v), OSEQ.at(a, i))])


def score_axioms():
    x, d = z3.Const("x!sa", STR.sort), z3.Const("d!sa", D)
    yield z3.ForAll([x, d], PS(x, d) > 0, patterns=[PS(x, d)])
    yield z3.ForAll([x, d], z3.And(TS(x, d) > 0, TS(x, d) <= 1), patterns=[TS(x, d)])


def upper(data, s, n):
    """lemma 1: the best score is attained and exceeded by none of the first n"""
    j = z3.Int("j!ub")
    w = WIT(data, s, n)
    return z3.Implies(z3.And(1 <= n, n <= ln(s)), z3.And(0 <= w, w < n, SC(data, at(s, w)) == TM(data, s, n),
                      smt.forall([j], z3.Implies(z3.And(0 <= j, j < n), SC(data, at(s, j)) <= TM(data, s, n)), patterns=[at(s, j)])))


POS = z3.Function("position_in_source", STR.sort, DSEQ.sort, R, I, I, I)     # witness: element j of BEST(n) stands at this index
RANK = z3.Function("position_in_best", STR.sort, DSEQ.sort, R, I, I, I)


def members(data, s, m, n):
    """lemma 2: BEST(n) holds exactly the first n candidates of score m"""
    b = BEST(data, s, m, n)
    j = z3.Int("j!me")
    p, r = POS(data, s, m, n, j), RANK(data, s, m, n, j)
    return z3.Implies(z3.And(0 <= n, n <= ln(s)), z3.And(
        smt.forall([j], z3.Implies(z3.And(0 <= j, j < ln(b)), z3.And(0 <= p, p < n, at(s, p) == at(b, j), SC(data, at(b, j)) == m)), patterns=[at(b, j)]),
        smt.forall([j], z3.Implies(z3.And(0 <= j, j < n, SC(data, at(s, j)) == m), z3.And(0 <= r, r < ln(b), at(b, r) == at(s, j))), patterns=[at(s, j), r])))


def lemmas():
    data, s, m, n = z3.Const("data", STR.sort), z3.Const("s", DSEQ.sort), z3.Const("m", R), z3.Int("n")
    one = z3.IntVal(1)
    yield "best score: one candidate", [unfold(data, s, one)], upper(data, s, one)
    yield "best score: one more candidate", [n >= 1, upper(data, s, n), unfold(data, s, n + 1)], upper(data, s, n + 1)
    j = z3.Int("j!me")
    b = BEST(data, s, m, n)
    # the witnesses of n + 1 are those of n, extended by the new element
    wit = [smt.forall([j], POS(data, s, m, n + 1, j) == z3.If(j == ln(b), n, POS(data, s, m, n, j)), patterns=[POS(data, s, m, n + 1, j)]),
           smt.forall([j], RANK(data, s, m, n + 1, j) == z3.If(j == n, ln(b), RANK(data, s, m, n, j)), patterns=[RANK(data, s, m, n + 1, j)])]
    yield "best candidates: none", [unfold(data, s, one, m)], members(data, s, m, z3.IntVal(0))
    # one more candidate, element by element and case by case
    k = z3.Int("k")
    b1 = BEST(data, s, m, n + 1)
    new = SC(data, at(s, n)) == m
    pre = [n >= 0, n + 1 <= ln(s), members(data, s, m, n), unfold(data, s, n + 1, m)] + wit
    p, r = POS(data, s, m, n + 1, k), RANK(data, s, m, n + 1, k)
    first = z3.Implies(z3.And(0 <= k, k < ln(b1)), z3.And(0 <= p, p < n + 1, at(s, p) == at(b1, k), SC(data, at(b1, k)) == m))
    second = z3.Implies(z3.And(0 <= k, k < n + 1, SC(data, at(s, k)) == m), z3.And(0 <= r, r < ln(b1), at(b1, r) == at(s, k)))
    u = DSEQ.unit(at(s, n))
    hint = [at(DSEQ.cat(b, u), ln(b)) == at(u, 0), at(DSEQ.cat(b, u), ln(b)) == at(s, n)]
    yield "appending puts the new one last", [], z3.And(*hint)
    for nm, c in (("another score", z3.Not(new)), ("best score, old element", z3.And(new, k != ln(b))), ("best score, new element", z3.And(new, k == ln(b)))):
        yield "best candidates: one more stands in the source, " + nm, pre + hint + [c], first
    for nm, c in (("another score", z3.Not(new)), ("best score, old index", z3.And(new, k != n, r == RANK(data, s, m, n, k))), ("best score, new index", z3.And(new, k == n, r == ln(b)))):
        yield "best candidates: one more is listed, " + nm, pre + hint + [c], second
    yield "cases of the witness", wit, z3.If(k == n, r == ln(b), r == RANK(data, s, m, n, k))


# ---------------------------------------------------------------- the map from dialects to scores
def fields_of(o):
    return [k for k in o.f if k.startswith("v:")]


def m_set(it, o, k, v):
    d = it.ETS["dialect"].unwrap(k)
    if not isinstance(v, Obj) or v.cls is not o.shape or set(v.f) != {x[2:] for x in fields_of(o)}:
        raise Unsupported("score %r" % (v,))
    has = it.getf(o, "has").t
    if not it.path.decide(z3.Select(has, d)):
        it.setf(o, "keys", Seq(it.ETS["dialect"], DSEQ.cat(it.getf(o, "keys").t, DSEQ.unit(d))))
        it.setf(o, "has", S("dset", z3.Store(has, d, z3.BoolVal(True))))
    for k in fields_of(o):
        x = it.getf(v, k[2:])
        if not (x is None or kind_of(x) == "flt"):
            raise Unsupported("score %r" % (x,))
        it.setf(o, k, S("dmap", z3.Store(it.getf(o, k).t, d, it.ETS["optf"].unwrap(x))))
    it.freeze(v)


def value(it, o, d):
    r = Obj(it, o.shape, {})
    r.frozen = True
    snap = {k: it.getf(o, k).t for k in fields_of(o)}

    def lazy(it2, name):
        if "v:" + name not in snap:
            return UNSET
        t = z3.Select(snap["v:" + name], d)
        it2.path.assume(z3.Or(smt.obj_is_none(t), smt.is_flt(t)))       # all that m_set lets in
        return None if it2.path.decide(smt.obj_is_none(t)) else S("flt", smt.unbox_flt(t))
    r.lazy = lazy
    return r


def m_get(it, o, k):
    d = it.ETS["dialect"].unwrap(k)
    if not it.path.decide(z3.Select(it.getf(o, "has").t, d)):
        raise it.exc("KeyError")
    return value(it, o, d)


def keys(it, o):
    return it.seq_idx(it.getf(o, "keys"))


def view(what):
    def f(it, o, a, kw):
        s = keys(it, o)
        K = it.getf(o, "keys").t

        def get(i2, k):
            d = at(K, k if isinstance(k, z3.ExprRef) else z3.IntVal(k))
            x = i2.ETS["dialect"].wrap(i2, d)
            return {"keys": x, "values": lambda: value(i2, o, d), "items": lambda: (x, value(i2, o, d))}[what]() if what != "keys" else x
        return Idx(s.n, get, base=s.base)
    return f


SMAP = Model("dict", {k: view(k) for k in ("keys", "values", "items")}, setitem=m_set, getitem=m_get,
             contains=lambda it, o, k: z3.Select(it.getf(o, "has").t, it.ETS["dialect"].unwrap(k)), idx=keys,
             length=lambda it, o: S("int", ln(it.getf(o, "keys").t)), truth=lambda it, o: ln(it.getf(o, "keys").t) > 0,
             isinstance=lambda it, o, c: c is B["dict"])


def new_map(it):
    f = {"keys": Seq(it.ETS["dialect"], DSEQ.empty), "has": S("dset", z3.K(D, z3.BoolVal(False)))}
    cls = it.resolve("clevercsv.consistency.ConsistencyScore")
    for n in cls.fields:
        f["v:" + n] = S("dmap", z3.K(D, NONE_U))
    o = Obj(it, SMAP, f)
    o.shape = cls
    it.ghost.setdefault("smaps", []).append(o)
    return o


# ---------------------------------------------------------------- invariants
def finite(x):
    return kind_of(x) == "flt" and not (isinstance(x, float) and x == -float("inf"))


def lowest(x):
    """minus infinity, or the "nothing so far" of a maximum in the making"""
    return x is None or isinstance(x, float) and x == -float("inf")


def dseq(it, x):
    if isinstance(x, ListObj):
        x = it.getf(x, "v")
    if isinstance(x, list):
        return DSEQ.empty if not x else None
    return x.t if isinstance(x, Seq) and x.et is it.ETS["dialect"] else None


def optlist(it, x):
    if isinstance(x, ListObj):
        x = it.getf(x, "v")
    if isinstance(x, list):
        return OSEQ.empty if not x else None
    return x.t if isinstance(x, Seq) and x.et in (it.ETS["optf"], it.ETS["nones"]) else None


def templates(it, st):
    out = []
    c = it.con
    data = c.data.t
    s = dseq(it, getattr(st.src, "base", None))
    if s is None:
        return out
    n = ln(s)
    it.path.assume(upper(data, s, n))
    j = z3.Int("j!c8")
    dd = z3.Const("d!c8", D)

    def upto(s2, body):
        return smt.forall([j], z3.Implies(z3.And(0 <= j, j < s2.idx), body), patterns=[at(s, j)])
    box = smt.box_flt
    frame = list(st.cells())
    for cell, o, v in frame:
        e = st.entry.get(cell, UNSET)
        name = "%s.%s" % cell
        if isinstance(o, Obj) and o.cls is SMAP:
            if cell[1] == "keys":
                def f(s2, o=o):
                    it.path.assume(DSEQ.snoc(s, s2.idx - 1))
                    return o.f["keys"].t == DSEQ.sub(s, z3.IntVal(0), s2.idx)
                out.append((name + " = source[:idx]", f))
            elif cell[1] == "has":
                out.append((name + " holds the source", lambda s2, o=o: upto(s2, z3.Select(o.f["has"].t, at(s, j)))))

                def f(s2, o=o):
                    h = o.f["has"].t
                    return smt.forall([dd], z3.Implies(z3.Select(h, dd), z3.And(0 <= IDX(s, dd), IDX(s, dd) < s2.idx, at(s, IDX(s, dd)) == dd)), patterns=[z3.Select(h, dd), IDX(s, dd)])
                out.append((name + " holds nothing else", f))
            elif cell[1] == "v:P":
                out.append((name, lambda s2, o=o: upto(s2, z3.Select(o.f["v:P"].t, at(s, j)) == box(PS(data, at(s, j))))))
            elif cell[1] == "v:Q":
                def f(s2, o=o, skip=True):
                    it.path.assume(unfold(data, s, s2.idx))
                    q = z3.Select(o.f["v:Q"].t, at(s, j))
                    full = q == box(SC(data, at(s, j)))
                    return upto(s2, z3.Or(full, z3.And(smt.obj_is_none(q), PS(data, at(s, j)) < TM(data, s, s2.idx))) if skip else full)
                out.append((name + " or skipped", f))
                out.append((name + " for all", lambda s2, f=f: f(s2, skip=False)))
            continue
        if isinstance(e, (float, S)) and (kind_of(e) == "flt" or lowest(e)) or lowest(e):
            def inc(s2, cell=cell):
                x = s2.decided(cell)
                it.path.assume(unfold(data, s, s2.idx))
                if lowest(x):
                    return s2.idx == 0
                return z3.And(s2.idx > 0, it.term(x, "flt") == TM(data, s, s2.idx)) if finite(x) else None
            out.append((name + " is the best score so far", inc))

            def le(s2, cell=cell):
                x = s2.decided(cell)
                return z3.BoolVal(True) if lowest(x) else it.term(x, "flt") <= TM(data, s, n) if finite(x) else None
            out.append((name + " is no more than the best score", le))
            for o2 in it.ghost.get("smaps", []):
                def ge(s2, cell=cell, o2=o2):
                    x = s2.decided(cell)
                    q = z3.Select(o2.f["v:Q"].t, at(s, j))
                    if lowest(x):
                        return upto(s2, smt.obj_is_none(q))
                    return upto(s2, z3.Or(smt.obj_is_none(q), smt.unbox_flt(q) <= it.term(x, "flt"))) if finite(x) else None
                out.append((name + " bounds the scores so far", ge))
        if isinstance(e, (list, Seq, ListObj)):
            for o2 in it.ghost.get("smaps", []):
                def col(s2, cell=cell, o2=o2):
                    x = s2.now(cell)
                    if isinstance(x, ListObj):
                        x = it.getf(x, "v")
                    if isinstance(x, list):
                        return s2.idx == 0 if not x else None
                    if x.et not in (it.ETS["optf"], it.ETS["nones"]):
                        return None
                    return upto2(x, lambda k: smt.OSEQ.at(x.t, k) == z3.Select(o2.f["v:Q"].t, at(s, k)))
                out.append((name + " lists the scores", col))

            def bounded(s2, cell=cell):
                x = optlist(it, s2.now(cell))
                if x is None:
                    return None
                k = z3.Int("k!c8")
                return smt.forall([k], z3.Implies(z3.And(0 <= k, k < OSEQ.len(x)), z3.Or(smt.obj_is_none(OSEQ.at(x, k)), smt.unbox_flt(OSEQ.at(x, k)) <= TM(data, s, n))), patterns=[OSEQ.at(x, k)])

            def reached(s2, cell=cell):
                x = optlist(it, s2.now(cell))
                w = WIT(data, s, n)
                it.path.assume(it.path.fresh("witness", D) == at(s, w))
                return None if x is None else z3.Implies(z3.And(n > 0, s2.idx > w), MEM(x, box(TM(data, s, n))))
            def numbers(s2, cell=cell):
                x = optlist(it, s2.now(cell))
                if x is None:
                    return None
                k = z3.Int("k!c8")
                return smt.forall([k], z3.Implies(z3.And(0 <= k, k < OSEQ.len(x)), smt.is_flt(OSEQ.at(x, k))), patterns=[OSEQ.at(x, k)])
            if it.ghost.get("smaps"):
                out.append((name + " lists numbers only", numbers))
                out.append((name + " lists no more than the best score", bounded))
                out.append((name + " lists the best score", reached))

            def best(s2, cell=cell):
                x = dseq(it, s2.now(cell))
                m = TM(data, s, n)
                it.path.assume(unfold(data, s, s2.idx, m))
                return x == BEST(data, s, m, s2.idx) if x is not None else None
            out.append((name + " lists the best dialects", best))
    if any(o.cls is SMAP for _, o, _v in frame if isinstance(o, Obj)):
        out.append(("an unreadable sample fails at the first candidate", lambda s2: z3.Or(s2.idx == 0, z3.Not(UNREADABLE(data)))))
    return out


def upto2(x, body):
    k = z3.Int("k!c8")
    return smt.forall([k], z3.Implies(z3.And(0 <= k, k < smt.OSEQ.len(x.t)), body(k)), patterns=[smt.OSEQ.at(x.t, k)])


def score_list_templates(it, st):
    """loops over a list of scores: the running maximum"""
    b = getattr(st.src, "base", None)
    if not isinstance(b, Seq) or b.et not in (it.ETS["optf"], it.ETS["nones"]):
        return []
    out = []
    data = it.con.data.t
    for o in it.ghost.get("smaps", []):
        s = o.f["keys"].t
        n = ln(s)
        it.path.assume(upper(data, s, n))
        it.path.assume(it.path.fresh("listed", z3.BoolSort()) == MEM(b.t, smt.box_flt(TM(data, s, n))))
        it.path.assume(it.path.fresh("witness", U) == smt.OSEQ.at(b.t, WIT(data, s, n)))
        j = z3.Int("j!c8")
        for cell, _, v in st.cells():
            e = st.entry.get(cell, UNSET)
            if not (kind_of(e) == "flt" or lowest(e) or e is None):
                continue

            def le(s2, cell=cell):
                x = s2.decided(cell)
                return z3.BoolVal(True) if lowest(x) or x is None else it.term(x, "flt") <= TM(data, s, n) if finite(x) else None

            def ge(s2, cell=cell):
                x = s2.decided(cell)
                q = smt.OSEQ.at(b.t, j)

                def up(body):
                    return smt.forall([j], z3.Implies(z3.And(0 <= j, j < s2.idx), body), patterns=[q])
                if lowest(x) or x is None:
                    return up(smt.obj_is_none(q))
                return up(z3.Or(smt.obj_is_none(q), smt.unbox_flt(q) <= it.term(x, "flt"))) if finite(x) else None
            out.append(("%s.%s is no more than the best score" % cell, le))
            out.append(("%s.%s bounds the scores so far" % cell, ge))
    return out


# ---------------------------------------------------------------- contracts of the callees
class GetDialects:
    """contract of get_dialects (C07): a duplicate-free list, a function of the sample and the allowed delimiters"""

    def apply(self, it, f, args):
        c = it.con
        ok = kind_of(args["data"]) == "str"
        it.path.check(z3.And(it.term(args["data"], "str") == c.data.t, z3.BoolVal(args["delimiters"] is c.delims)) if ok else z3.BoolVal(False), "candidates come from the sample and the allowed delimiters")
        for k, v in args.items():
            if k not in ("data", "delimiters", "encoding") and v is not False:
                raise Unsupported("option %s of get_dialects" % k)
        return it.seq_list(Seq(it.ETS["dialect"], c.cand))


class PatternScore:
    """contract of pattern_score (C10): a positive function of sample and dialect"""

    def apply(self, it, f, args):
        a = list(args.values())
        d = it.ETS["dialect"].unwrap(args["dialect"])
        it.path.check(it.term(args["data"], "str") == it.con.data.t, "the pattern score is that of the sample")
        if any(k not in ("data", "dialect", "eps") for k in args) or not isinstance(args.get("eps", 0.001), float):
            raise Unsupported("options of pattern_score")
        r = PS(it.con.data.t, d)
        it.path.assume(r > 0)
        return S("flt", r)


class TypeScore:
    """contract of compute_type_score (C09): in (0, 1], or an error when the sample cannot be parsed"""

    def apply(self, it, f, args):
        d = it.ETS["dialect"].unwrap(args["dialect"])
        it.path.check(it.term(args["data"], "str") == it.con.data.t, "the type score is that of the sample")
        if it.path.decide(UNREADABLE(it.con.data.t)):
            raise it.exc("Exception", "cannot parse")
        r = TS(it.con.data.t, d)
        it.path.assume(z3.And(r > 0, r <= 1))
        return S("flt", r)


class TieBreaker:
    """contract of tie_breaker (proved in ctie): nothing, or one of the dialects given"""

    def apply(self, it, f, args):
        s = it.as_seq(args["dialects"])
        t = DSEQ.empty if s.et is None else s.t
        data = it.con.data.t
        it.path.check(it.term(args["data"], "str") == data, "ties are broken on the sample")
        it.ghost.setdefault("ties", []).append(t)
        if not it.path.decide(TIEN(data, t)):
            return None
        j = it.path.fresh("chosen", I)
        it.path.assume(z3.And(0 <= j, j < ln(t), TIE(data, t) == at(t, j)))
        return it.ETS["dialect"].wrap(it, TIE(data, t))


class FieldLimit:
    """contract of field_size_limit (C04): the previous limit"""

    def apply(self, it, f, args):
        return it.fresh("int", "limit")


class TypeDet:
    """a type detector; only compute_type_score uses it"""

    def construct(self, it, cls, args, kw):
        return Obj(it, Model("TypeDetector", {"is_known_type": lambda it2, o, a, kw2: it2.fresh("bool", "known")}), {})


def sorted_hook(it, a, kw):
    v = a[0]
    if kw or not isinstance(v, (ListObj, Seq)):
        return None
    s = it.as_seq(v)
    if s.et is not it.ETS["dialect"]:
        return None
    assume_sorted(it, s.t)
    return it.seq_list(Seq(it.ETS["dialect"], SORTED(s.t)))


PERM, PINV = z3.Function("sort_to", DSEQ.sort, I, I), z3.Function("sort_from", DSEQ.sort, I, I)


def assume_sorted(it, d):
    s = SORTED(d)
    j = z3.Int("j!so")
    p, q = PERM(d, j), PINV(d, j)
    it.path.assume(ln(s) == ln(d))
    it.path.assume(smt.forall([j], z3.Implies(z3.And(0 <= j, j < ln(s)), z3.And(0 <= p, p < ln(d), at(d, p) == at(s, j), PINV(d, p) == j)), patterns=[at(s, j)]))
    it.path.assume(smt.forall([j], z3.Implies(z3.And(0 <= j, j < ln(d)), z3.And(0 <= q, q < ln(s), at(s, q) == at(d, j), PERM(d, q) == j)), patterns=[at(d, j)]))
    nodup(it, s)


def nodup(it, s):
    j = z3.Int("j!nd")
    it.path.assume(smt.forall([j], z3.Implies(z3.And(0 <= j, j < ln(s)), IDX(s, at(s, j)) == j), patterns=[at(s, j)]))


class Detect(Contract):
    key = CD + ".detect"
    must_reach = ("return", "raise")
    templates = [templates, score_list_templates]
    budget = 400

    def axioms(self):
        return list(smt.opt_axioms()) + list(mem_axioms()) + list(score_axioms())

    def setup(self, it):
        self.data = it.fresh("str", "data")
        self.delims = None
        u = NONE_U
        if it.path.choose(2) == 1:
            self.delims = it.fresh("obj", "delimiters")
            u = self.delims.t
        self.cand = CAND(self.data.t, u)
        nodup(it, self.cand)
        self.skip = it.fresh("bool", "skip")
        self.verbose = it.fresh("bool", "verbose")
        self.obj = it.call(it.resolve(CD), [], {"skip": self.skip, "verbose": self.verbose})
        it.ghost["new_map"] = new_map
        it.ghost["sorted"] = sorted_hook
        return {"self": self.obj, "data": self.data, "delimiters": self.delims}

    def body(self, it, args):
        return it.call(it.getattr(args["self"], "detect"), [args["data"]], {"delimiters": args["delimiters"]})

    def post(self, it, args, kind, v):
        C = it.path.check
        data, c = self.data.t, self.cand
        n = ln(c)
        if kind == "raise":
            C(UNREADABLE(data), "detection fails only when the sample cannot be parsed")
            return
        C(z3.Or(z3.Not(UNREADABLE(data)), n == 0), "a failure to parse does not depend on skipping")
        ms = it.ghost.get("smaps", [])
        if len(ms) != 1:
            raise Unsupported("%d score maps" % len(ms))
        s = ms[0].f["keys"].t
        assume_sorted(it, c)
        for x in (c, SORTED(c)):
            it.path.assume(DSEQ.ext(s, x))
        C(z3.Or(s == SORTED(c), s == c), "every candidate is scored")
        # the outcome, written without any mention of skipping
        src = SORTED(c) if it.path.decide(s == SORTED(c)) else c
        m = TM(data, src, n)
        b = BEST(data, src, m, n)
        it.path.assume(z3.And(upper(data, src, n), members(data, src, m, n)))
        j = it.path.fresh("any", I)
        it.path.assume(z3.And(unfold(data, src, z3.IntVal(0), m), z3.Implies(n == 0, src == DSEQ.empty)))
        one = ln(b) == 1
        if v is None:
            C(z3.And(z3.Not(one), z3.Not(TIEN(data, b))), "nothing is returned only when the best ones are tied and the tie cannot be broken")
            return
        if not (isinstance(v, Obj) and isinstance(v.cls, ClassVal) and v.cls.name == "SimpleDialect"):
            C(z3.BoolVal(False), "the result is a dialect")
            return
        r = it.ETS["dialect"].unwrap(v)
        C(z3.Implies(one, r == at(b, 0)), "the unique best candidate is returned, with or without skipping")
        C(z3.Implies(z3.Not(one), z3.And(TIEN(data, b), r == TIE(data, b))), "otherwise the choice among the best ones, with or without skipping")
        i = z3.Int("i!re")
        C(z3.Exists([i], z3.And(0 <= i, i < n, at(src, i) == r)), "the result is a candidate")
        C(z3.Implies(z3.And(0 <= j, j < n), SC(data, at(src, j)) <= SC(data, r)), "no other candidate scores higher")


ASSUMED = {"clevercsv.potential_dialects.get_dialects": GetDialects(), "clevercsv.detect_pattern.pattern_score": PatternScore(),
           CD + ".compute_type_score": TypeScore(), "clevercsv.break_ties.tie_breaker": TieBreaker(),
           "clevercsv.cparser_util.field_size_limit": FieldLimit(),
           "class:clevercsv.detect_type.TypeDetector": TypeDet()}
CONTRACTS = [Detect(), Lemma("best score and best candidates (induction on the number of candidates)", lemmas, score_axioms)] + ctie.CONTRACTS
TRUSTED = ["sorted() permutes its argument and depends on nothing else", "float product: monotone rounding (p * t <= p for 0 <= t <= 1)",
           "scores are finite; whether the sample can be parsed does not depend on the candidate (the parser fails on NUL only: C01, C04)",
           "get_dialects: duplicate free (C07); pattern_score positive (C10); compute_type_score in (0, 1] (C09)"]
