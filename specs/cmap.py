"""Mappings with symbolic keys: membership and values as arrays over opaque keys."""
import z3
from engine import smt, models
from engine.models import Model, B, set_op
from engine.smt import STR, ROW, OSEQ, U, Unsupported
from engine.vals import *

Z = z3.IntVal
HASF = z3.Function("map_has", U, KSET)              # of a mapping given by the caller
VALF = z3.Function("map_val", U, KMAP)
KEYSF = z3.Function("map_keys", U, OSEQ.sort)       # its keys in their order
KIX = z3.Function("map_key_index", U, U, smt.I)
LO = {"obj": z3.Function("last_occurrence", OSEQ.sort, smt.I, U, smt.I), "str": z3.Function("last_occurrence_str", ROW.sort, smt.I, U, smt.I)}
BOXROW = {"str": z3.Function("box_row", ROW.sort, U), "obj": z3.Function("box_orow", OSEQ.sort, U)}
NONE_K = z3.Const("none_object", U)
UNBOX = smt.unbox_str


def at(et, s, i):
    """element i of a sequence of keys or values, as an opaque object"""
    return OSEQ.at(s, i) if et == "obj" else smt.box_str(ROW.at(s, i))


def axioms():
    m, k = z3.Consts("m!mp k!mp", U)
    i, j, n = z3.Ints("i!mp j!mp n!mp")
    a = z3.Const("s!mp", STR.sort)
    yield smt.forall([a], UNBOX(smt.box_str(a)) == a, patterns=[smt.box_str(a)])
    K = KEYSF(m)
    yield smt.forall([m, i], z3.Implies(z3.And(0 <= i, i < OSEQ.len(K)), z3.And(z3.Select(HASF(m), OSEQ.at(K, i)), KIX(m, OSEQ.at(K, i)) == i)), patterns=[OSEQ.at(K, i)])
    yield smt.forall([m, k], z3.Implies(z3.Select(HASF(m), k), z3.And(0 <= KIX(m, k), KIX(m, k) < OSEQ.len(K), OSEQ.at(K, KIX(m, k)) == k)), patterns=[z3.Select(HASF(m), k)])
    for et, th in (("obj", OSEQ), ("str", ROW)):
        s = z3.Const("s!lo" + et, th.sort)
        L = LO[et](s, n, k)
        yield smt.forall([s, n, k], z3.Implies(n >= 0, z3.And(L >= -1, L < n, z3.Implies(L >= 0, at(et, s, L) == k))), patterns=[L])
        yield smt.forall([s, n, k, j], z3.Implies(z3.And(L < j, j < n, j >= 0), at(et, s, j) != k), patterns=[z3.MultiPattern(L, th.at(s, j))])
        whole = LO[et](s, i + n, k)
        Ls = LO[et](th.sub(s, i, j), n, k)
        yield smt.forall([s, i, j, n, k], z3.Implies(z3.And(0 <= i, n >= 0, i + n <= j, j <= th.len(s)), Ls == z3.If(whole >= i, whole - i, -1)), patterns=[Ls])


def kt(it, v):
    """a key or value as an opaque object"""
    if v is None:
        return NONE_K
    if isinstance(v, ListObj):
        s = it.as_seq(v)
        if s.et is None:
            return BOXROW["str"](ROW.empty)
        return BOXROW[s.et.name](s.t)
    if isinstance(v, S) and v.kind == "obj":
        return v.t
    if kind_of(v) == "str":
        return smt.box_str(it.term(v, "str"))
    raise Unsupported("key or value %r" % (v,))


def keq(it, a, b):
    return kt(it, a) == kt(it, b)


def m_set(it, o, k, v):
    t, x = kt(it, k), kt(it, v)
    it.setf(o, "has", S("kset", z3.Store(it.getf(o, "has").t, t, z3.BoolVal(True))))
    it.setf(o, "val", S("kmap", z3.Store(it.getf(o, "val").t, t, x)))


def m_in(it, o, k):
    return z3.Select(it.getf(o, "has").t, kt(it, k))


def m_getitem(it, o, k):
    if not it.path.decide(m_in(it, o, k)):
        raise it.exc("KeyError")
    return S("obj", z3.Select(it.getf(o, "val").t, kt(it, k)))


def m_get(it, o, a, kw):
    d = a[1] if len(a) > 1 else kw.get("default")
    t = kt(it, a[0])
    r = it.path.fresh("got", U)
    it.path.assume(r == z3.If(z3.Select(it.getf(o, "has").t, t), z3.Select(it.getf(o, "val").t, t), kt(it, d)))
    return S("obj", r)


def m_setdefault(it, o, a, kw):
    d = a[1] if len(a) > 1 else None
    if not it.path.decide(m_in(it, o, a[0])):
        m_set(it, o, a[0], d)
    return m_getitem(it, o, a[0])


def m_idx(it, o):
    """iteration over the keys in their order"""
    t = getattr(o, "uterm", None)
    if t is None:
        # some order: each key once
        h, ks = it.getf(o, "has").t, it.path.fresh("keys", OSEQ.sort)
        at = z3.Function("at_" + str(ks), U, smt.I)
        k, i = z3.Const("k!ks", U), z3.Int("i!ks")
        it.path.assume(z3.ForAll([k], z3.Implies(z3.Select(h, k), z3.And(0 <= at(k), at(k) < OSEQ.len(ks), OSEQ.at(ks, at(k)) == k)), patterns=[at(k)] + pats(h, h, k)))
        it.path.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < OSEQ.len(ks)), z3.And(z3.Select(h, OSEQ.at(ks, i)), at(OSEQ.at(ks, i)) == i)), patterns=[OSEQ.at(ks, i)]))
        return it.seq_idx(Seq(it.ETS["obj"], ks))
    return it.seq_idx(Seq(it.ETS["obj"], KEYSF(t)))


def m_set_of(it, o):
    return SymSet("obj", it.getf(o, "has").t)


def m_truth(it, o):
    return it.truth(SetObj(it, m_set_of(it, o)))


def m_copy(it, o, d):
    it.setf(d, "has", it.getf(o, "has"))
    it.setf(d, "val", it.getf(o, "val"))


MAP = Model("dict", {"get": m_get, "keys": lambda it, o, a, k: view(it, o), "setdefault": m_setdefault, "items": lambda it, o, a, k: items(it, o)},
            setitem=m_set, getitem=m_getitem, contains=m_in, idx=m_idx, as_set=m_set_of, truth=m_truth, copy_into=m_copy,
            isinstance=lambda it, o, c: c is B["dict"], length=lambda it, o: S("int", OSEQ.len(m_idx(it, o).base.t)))


def v_binop(it, op, a, b):
    def c(x):
        return SetObj(it, m_set_of(it, x.f["map"])) if isinstance(x, Obj) and x.cls is VIEW else x
    return set_op(it, op, c(a), c(b))


VIEW = Model("dict_keys", {}, contains=lambda it, o, k: m_in(it, o.f["map"], k), idx=lambda it, o: m_idx(it, o.f["map"]),
             as_set=lambda it, o: m_set_of(it, o.f["map"]), truth=lambda it, o: m_truth(it, o.f["map"]), binop=v_binop,
             length=lambda it, o: S("int", OSEQ.len(m_idx(it, o.f["map"]).base.t)))


def view(it, o):
    return Obj(it, VIEW, {"map": o})


def items(it, o):
    s = m_idx(it, o)
    return Idx(s.n, lambda i2, k: (s.get(i2, k), S("obj", z3.Select(i2.getf(o, "val").t, kt(i2, s.get(i2, k))))), base=s.base)


def new_map(it):
    return Obj(it, MAP, {"has": S("kset", z3.K(U, z3.BoolVal(False))), "val": S("kmap", z3.K(U, NONE_K))})


def wrap_map(it, t):
    o = Obj(it, MAP, {"has": S("kset", HASF(t)), "val": S("kmap", VALF(t))})
    o.uterm, o.frozen = t, True
    it.ghost.setdefault("maps", []).append(o)
    return o


def prepare(it):
    it.ghost["new_map"] = new_map
    it.ETS["mapobj"] = ET("mapobj", OSEQ, wrap_map, lambda v: v.uterm, None)


def seqs_of(st):
    """the sequences a loop runs over"""
    b = getattr(st.src, "base", None)
    bs = b if isinstance(b, list) else [st.src]
    out = []
    for x in bs:
        s = getattr(x, "base", None)
        if isinstance(s, Seq) and s.et is not None and s.et.name in ("obj", "str"):
            out.append(s)
        elif isinstance(s, ListObj):
            out.append(None)
    return out


def local_seqs(it):
    """the sequences the function at work has names for"""
    out = []
    for v in (list(it.frames[-1].f.values()) if it.frames else []):
        if isinstance(v, ListObj):
            v = v.f.get("v")
        if isinstance(v, Seq) and v.et is not None and v.et.name in ("obj", "str") and not any(v.t.eq(x.t) for x in out):
            out.append(v)
    return out


def map_templates(it, st):
    """a mapping built in a loop: the keys seen so far with their last value"""
    out = []
    sq = seqs_of(st)
    by_index = not any(sq) and st.src is not None
    near = local_seqs(it)
    if by_index:
        sq = near                               # a loop over positions
    consts = [("c%d" % i, c) for i, c in enumerate(it.ghost.get("consts", []))]
    for cell, o, v in st.cells():
        if cell[1] not in ("has", "val") or not isinstance(o, Obj) or o.cls is not MAP or cell not in st.entry:
            continue
        e = st.entry[cell].t
        k = z3.Const("k!mt", U)
        for n, s in enumerate(sq):
            if s is None:
                continue
            et = s.et.name

            def last(st2, s=s, et=et):
                return LO[et](s.t, st2.idx, k)
            if cell[1] == "has":
                def f(st2, o=o, e=e, last=last):
                    h = o.f["has"].t
                    return smt.forall([k], z3.Select(h, k) == z3.Or(z3.Select(e, k), last(st2) >= 0), patterns=pats(h, e, k) + [last(st2)])
                out.append(("%s.has by source %d" % (cell[0], n), f))
                continue
            for m, w in [("near %d" % i, w) for i, w in enumerate(near)]:
                for i, c in consts:
                    def f(st2, o=o, e=e, last=last, w=w, c=c):
                        h = o.f["val"].t
                        x = z3.If(last(st2) < w.et.th.len(w.t), at(w.et.name, w.t, last(st2)), c)
                        return smt.forall([k], z3.Select(h, k) == z3.If(last(st2) >= 0, x, z3.Select(e, k)), patterns=pats(h, e, k) + [last(st2)])
                    out.append(("%s.val by source %d -> %s or %s" % (cell[0], n, m, i), f))
            for m, w in list(enumerate(sq)) + consts:
                if w is None:
                    continue

                def f(st2, o=o, e=e, last=last, w=w):
                    h = o.f["val"].t
                    x = at(w.et.name, w.t, last(st2)) if isinstance(w, Seq) else w
                    return smt.forall([k], z3.Select(h, k) == z3.If(last(st2) >= 0, x, z3.Select(e, k)), patterns=pats(h, e, k) + [last(st2)])
                out.append(("%s.val by source %d -> %s" % (cell[0], n, m), f))
    return out


def pats(h, e, k):
    return [z3.Select(x, k) for x in (h, e) if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED or z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED] or [z3.Select(h, k)]
