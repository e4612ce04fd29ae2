"""C10: row-pattern abstraction and pattern score.

1. The C extension computes `abstraction_of_prefix` and `blocks_as_cells` (specs/cabs.py, deductive).
2. Lemmas (z3, by induction): these two definitions are the transducers BASE and MERGE below.
3. make_abstraction, executed symbolically with transducers: its result is STRIP(FILL(MERGE(.))) of the
   base abstraction, for base abstractions of any length, and every such string is well formed.
4. pattern_score: the documented sum over the row patterns, positive."""
import os
import time
import z3
from engine import smt, fst, strfun
from engine.contracts import Contract, Result, without
from engine.lemma import Lemma
from engine.smt import STR, I, Unsupported
from engine.vals import *
from engine.models import Model, as_set
from . import cabs
from .cpars import LEAKS

REPO = os.environ.get("VERIF_REPO", "/repo")
Z = z3.IntVal
MARKS = "CDQR"
C, D, Q, R = map(ord, MARKS)


# ------------------------------------------------------------------ the transducers of the specification
def base_table():
    """{(escape open, last marker): {class: (output, new escape, new last)}}; classes: n line end, d delimiter,
    q quote, e escape, o anything else"""
    t = {}
    for esc in (0, 1):
        for last in ("",) + tuple(MARKS):
            row = {}
            put = lambda m: (m, m)
            once = lambda m: ("", last) if last == m else (m, m)
            for k in "ndqeo":
                if k == "n":
                    (o, l), e2 = once("R"), esc
                elif k in "dq":
                    (o, l), e2 = put("C" if esc else k.upper()), 0
                elif k == "e":
                    (o, l), e2 = (once("C"), 0) if esc else (("", last), 1)
                else:
                    (o, l), e2 = once("C"), 0
                row[k] = (o, e2, l)
            t[(esc, last)] = row
    return t


BASE_T = base_table()


def base_fst():
    ids = {s: i for i, s in enumerate(BASE_T)}
    return fst.FST("ndqeo", [(ids[(0, "")], "")], [[(k, o, ids[(e, l)]) for k, (o, e, l) in BASE_T[s].items()] for s in BASE_T],
                   {i: "" for i in range(len(ids))})


# state: (mode, what is promised): O outside, N outside and no quote follows, B/E inside a block that is closed
# later (E: a quote follows), U/V inside one that never is
MERGE_T = {"O": [("x", "x", "O"), ("Q", "C", "B"), ("Q", "Q", "U")], "N": [("x", "x", "O")],
           "B": [("x", "C", "B"), ("Q", "C", "E"), ("Q", "C", "N")], "E": [("Q", "C", "B")],
           "U": [("x", "x", "U"), ("Q", "Q", "V")], "V": [("Q", "Q", "U")]}
MERGE_END = "ONU"
MODE = {"O": 0, "N": 0, "B": 1, "U": 1, "E": 2, "V": 2}


def merge_fst(sigma):
    ids = {s: i for i, s in enumerate(MERGE_T)}
    trans = []
    for s, row in MERGE_T.items():
        out = []
        for a, o, t in row:
            for c in (sigma if a == "x" else "Q"):
                if not (a == "x" and c == "Q"):
                    out.append((c, c if o == "x" else o, ids[t]))
        trans.append(out)
    return fst.FST(sigma, [(0, "")], trans, {ids[s]: "" for s in MERGE_END})


def fill_fst(sigma):
    """a cell before, between and after delimiters that lack one; runs of cells become one"""
    st = ["", "C", "D", "R", "x"]
    trans = []
    for p in st:
        row = []
        for c in sigma:
            if c == "C":
                o = "" if p == "C" else "C"
            elif c == "D":
                o = "CD" if p in ("", "D", "R") else "D"
            elif c == "R":
                o = "CR" if p == "D" else "R"
            else:
                o = c
            row.append((c, o, st.index(c) if c in "CDR" else 4))
        trans.append(row)
    return fst.FST(sigma, [(0, "")], trans, {i: "C" if p == "D" else "" for i, p in enumerate(st)})


def spec_fst(sigma):
    return merge_fst(sigma).then(fill_fst(sigma)).then(fst.strip_end(sigma, "R"))


def well_formed(sigma):
    """only markers; no CC, no RR, no R at the end; no D at the start, the end, next to D or R; a quote marker only
    from a quoted part that is never closed: from the first one on, quote markers come in pairs"""
    bad = fst.everything(sigma).complement()
    for w in ("CC", "RR", "DD", "DR", "RD"):
        bad = bad.join(fst.having(sigma, w, "in"))
    bad = bad.join(fst.having(sigma, "R", "end")).join(fst.having(sigma, "D", "end")).join(fst.having(sigma, "D", "start"))
    # 0 no quote yet, 1 open, 2 after the first quote of a pair, 3 wrong
    delta = [{c: 0 for c in sigma}, {c: 1 for c in sigma}, {c: 3 for c in sigma}, {c: 3 for c in sigma}]
    delta[0]["Q"], delta[1]["Q"], delta[2]["Q"] = 1, 2, 1
    for row in delta:
        for c in sigma:
            if c not in MARKS:
                row[c] = 3
    return bad.complement().meet(fst.DFA(sigma, delta, 0, {0, 1}))


def sample(w):
    """a text whose base abstraction is w"""
    out = ""
    for i, c in enumerate(w):
        out += {"D": ",", "Q": '"', "R": "\n", "C": "\\," if i and w[i - 1] == "C" else "x"}[c]
    return {"text": out, "d": ",", "q": '"', "e": "\\"}


# ------------------------------------------------------------------ make_abstraction
class Abstraction:
    key = "clevercsv.detect_pattern.make_abstraction"
    label = key + " (result and well-formedness, any base abstraction)"
    budget = 120

    def natives(self, sigma):
        def arg(a, n):
            return isinstance(a, strfun.Arg) and a.name == n

        def base(m, args, kw):
            names = ["text", "delimiter", "quotechar", "escapechar"]
            if kw or len(args) != 4 or not all(arg(a, n) for a, n in zip(args, ["data", "dialect.delimiter", "dialect.quotechar", "dialect.escapechar"])):
                raise strfun.Raises("the abstraction is not made of the sample with the delimiter, quote and escape character of the dialect")
            return strfun.Tr(fst.identity(m.ex.sigma))

        def merge(m, args, kw):
            if kw or len(args) != 1 or not isinstance(args[0], strfun.Tr):
                raise Unsupported("merge of something else")
            # contract of the extension: ASCII text is merged
            return m.tr(args[0].f.then(merge_fst(m.ex.sigma)))
        return {("cabstraction", "base_abstraction"): base, ("cabstraction", "c_merge_with_quotechar"): merge}

    def verify(self, *a, **k):
        res = Result(self.label)
        res.backend = "automata (engine/fst.py)"
        t0 = time.time()
        sigma = MARKS
        try:
            while True:
                try:
                    self.attempt(res, sigma, t0)
                    break
                except strfun.NewSymbols as n:
                    sigma += str(n)
                    if len(sigma) > 10:
                        raise Unsupported("too many characters")
        except Unsupported as u:
            res.unsupported = str(u) or "unsupported construct"
        except RecursionError:
            res.unsupported = "too deep"
        except Exception as e:
            import traceback
            res.error, res.trace = "%s: %s" % (type(e).__name__, e), traceback.format_exc()
        res.wall = time.time() - t0
        return res

    def attempt(self, res, sigma, t0):
        res.obligations = []

        def ob(label, ok, detail="", where=""):
            res.obligations.append((label, "proved" if ok else "failed", 0.0, detail, where))
        dom = base_fst().image(sigma)
        ex = strfun.Explorer(REPO, sigma, dom, t0 + self.budget, self.natives(sigma))
        mod = strfun.Module(REPO, "detect_pattern")
        outcomes = []

        def body(m):
            try:
                v = m.call(m.global_(mod, "make_abstraction"), [strfun.Arg("data"), strfun.Arg("dialect")], {})
            except strfun.Raises as r:
                return ("raise", str(r), m.D)
            return ("return", v, m.D)
        outcomes = ex.run(body)
        spec, good = spec_fst(sigma), well_formed(sigma)
        for l in ex.obls:
            ob(l, True)
        for n, (kind, v, dm) in enumerate(sorted(outcomes, key=lambda o: o[2].witness() or "")):
            w = dm.witness()
            if kind == "raise":
                ob("path %d: no exception" % n, False, "%s for the base abstraction %r" % (v, w))
                self.found(res, w)
                continue
            if isinstance(v, str):
                v = strfun.Tr(fst.constant(sigma, v))
            if not isinstance(v, strfun.Tr):
                ob("path %d: a string is returned" % n, False, type(v).__name__)
                self.found(res, w)
                continue
            f = v.f.only(dm)
            lack = dm.meet(f.domain().complement()).witness()
            if lack is not None:
                raise Unsupported("partial function")
            x = fst.differ(f, spec.only(dm))
            ob("path %d: quoted blocks merged, missing cells filled, trailing rows stripped" % n, x is None,
               "" if x is None else "base abstraction %r gives %r, not %r" % (x, f(x), spec(x)))
            if x is not None:
                self.found(res, x)
            bad = f.preimage(good.complement()).meet(dm).witness()
            ob("path %d: the abstraction is well formed" % n, bad is None, "" if bad is None else "base abstraction %r gives %r" % (bad, f(bad)))
            if bad is not None:
                self.found(res, bad)
        left = dom
        for _, _, dm in outcomes:
            left = left.meet(dm.complement())
        ob("the paths cover every base abstraction", left.witness() is None, "none covers %r" % left.witness())
        res.paths, res.complete = ex.paths, len(outcomes)
        res.inlined = sorted(ex.inlined)
        res.used = ["abstraction.c:base_abstraction", "abstraction.c:c_merge_with_quotechar"]

    def found(self, res, w):
        if not getattr(res, "counterexample", None) and set(w) <= set(MARKS):
            res.counterexample = sample(w)


# ------------------------------------------------------------------ lemmas: the definitions of specs/cabs.py are these transducers
def base_lemma():
    s = z3.Const("s!b", cabs.S_)
    d, q, e, i = z3.Ints("d!b q!b e!b i!b")
    c = STR.at(s, i)
    nl = z3.Or(c == 10, c == 13)
    cls = {"n": nl, "d": z3.And(z3.Not(nl), c == d), "q": z3.And(z3.Not(nl), c != d, c == q),
           "e": z3.And(z3.Not(nl), c != d, c != q, c == e), "o": z3.And(z3.Not(nl), c != d, c != q, c != e)}
    o = cabs.ab_out(s, d, q, e, i)
    o2 = cabs.ab_out(s, d, q, e, i + 1)

    def state(x, esc, i, st):
        n = STR.len(x)
        return z3.And(esc == bool(st[0]), n == 0 if st[1] == "" else z3.And(n > 0, STR.at(x, n - 1) == ord(st[1])))
    out = [("the abstraction of nothing is empty, in the initial state", [cabs.ab_base(s, d, q, e)],
            state(cabs.ab_out(s, d, q, e, 0), cabs.ab_esc(s, d, q, e, 0), Z(0), (0, "")))]
    for st, row in BASE_T.items():
        for k, (w, e2, l2) in row.items():
            want = o if w == "" else STR.cat(o, STR.unit(Z(ord(w))))
            out.append(("escape %d, last %r, class %s" % (st[0], st[1], k),
                        [0 <= i, i < STR.len(s), cabs.ab_unfold(s, d, q, e, i), state(o, cabs.ab_esc(s, d, q, e, i), i, st), cls[k]],
                        z3.And(o2 == want, state(o2, cabs.ab_esc(s, d, q, e, i + 1), i + 1, (e2, l2)))))
    out.append(("the classes cover every character", [], z3.Or(*cls.values())))
    return out


def merge_lemma():
    s = z3.Const("s!m", cabs.S_)
    n, i, m, x, j = z3.Ints("n!m i!m m!m x!m j!m")
    ln = STR.len(s)
    mode, cnt, st, sl, sr, fill = cabs.q_mode, cabs.q_count, cabs.q_start, cabs.seg_l, cabs.seg_r, cabs.fill
    K = cnt(s, ln)
    inb = lambda k: z3.Or(mode(s, k) >= 1, z3.And(mode(s, k) == 0, STR.at(s, k) == Q))

    def P0(n):
        return z3.And(0 <= mode(s, n), mode(s, n) <= 2, z3.Implies(mode(s, n) == 2, z3.And(n < ln, STR.at(s, n) == Q)), cnt(s, n) >= 0)

    def P1(n, i):
        return z3.Implies(z3.And(0 <= i, i < n, inb(i)), z3.Or(z3.And(cnt(s, i) < cnt(s, n), sl(s, cnt(s, i)) <= i, i <= sr(s, cnt(s, i))),
                                                              z3.And(cnt(s, i) == cnt(s, n), mode(s, n) != 0, st(s, n) <= i)))

    def P2(n, i, m):
        return z3.Implies(z3.And(0 <= i, i < n, 0 <= m, m < cnt(s, n), sl(s, m) <= i, i <= sr(s, m)), z3.And(inb(i), cnt(s, i) == m))

    def P3(n, i):
        return z3.Implies(z3.And(mode(s, n) != 0, st(s, n) <= i, i < n), z3.And(inb(i), cnt(s, i) == cnt(s, n)))

    def P4(n, m):
        return z3.And(z3.Implies(z3.And(0 <= m, m < cnt(s, n)), z3.And(0 <= sl(s, m), sl(s, m) < sr(s, m), sr(s, m) < n)),
                      z3.Implies(mode(s, n) != 0, z3.And(0 <= st(s, n), st(s, n) < n)))

    def P5(n, i):
        return z3.Implies(z3.And(0 <= i, i <= n), cnt(s, i) <= cnt(s, n))
    step = [0 <= n, n < ln, cabs.q_unfold(s, n), P0(n), 0 <= i]
    zero = [cabs.q_base(s)]
    out = [("modes, at the start", zero, P0(Z(0))), ("modes, next character", step, P0(n + 1)),
           ("blocks before the start", zero, z3.And(P1(Z(0), i), P2(Z(0), i, m), P4(Z(0), m), P5(Z(0), i), z3.Implies(0 <= i, P3(Z(0), i)))),
           ("a character inside a block belongs to that block", step + [P1(n, i), P4(n, cnt(s, i)), P5(n, i)], P1(n + 1, i)),
           ("a block holds characters inside it only", step + [P2(n, i, m), P3(n, i), P4(n, m)], P2(n + 1, i, m)),
           ("the open block", step + [P3(n, i)], P3(n + 1, i)),
           ("blocks end before the next character", step + [P4(n, m)], P4(n + 1, m)),
           ("the number of blocks grows", step + [P5(n, i)], P5(n + 1, i))]
    # the text after filling block by block
    at = lambda t: STR.at(t, i)

    def F(t, j, x):
        return z3.And(STR.len(t) == ln, z3.Implies(z3.And(0 <= i, i < ln), at(t) == z3.If(z3.And(inb(i), cnt(s, i) < K, z3.Or(cnt(s, i) < j, z3.And(cnt(s, i) == j, i < x))), Z(C), STR.at(s, i))))
    hyp = [P1(ln, i), P5(ln, i), K >= 0, P0(i), z3.Implies(z3.And(0 <= i, i < ln), cnt(s, i) >= 0)]
    out += [("nothing filled", hyp + zero, F(fill(s, 0, sl(s, 0)), Z(0), sl(s, 0))),
            ("one more character filled", hyp + [0 <= j, j < K, sl(s, j) <= x, x <= sr(s, j), P4(ln, j), P2(ln, x, j), cabs.fill_unfold(s, j, x), F(fill(s, j, x), j, x)],
             F(fill(s, j, x + 1), j, x + 1)),
            ("next block", hyp + [0 <= j, j < K, P4(ln, j), P2(ln, i, j), P2(ln, i, j + 1), P4(ln, j + 1), cabs.fill_unfold(s, j, x), F(fill(s, j, sr(s, j) + 1), j, sr(s, j) + 1)],
             F(fill(s, j + 1, sl(s, j + 1)), j + 1, sl(s, j + 1))),
            ("all blocks filled: the characters of closed blocks become cells", hyp + [F(fill(s, K, sl(s, K)), K, sl(s, K)), 0 <= i, i < ln],
             at(fill(s, K, sl(s, K))) == z3.If(z3.And(inb(i), cnt(s, i) < K), Z(C), STR.at(s, i)))]
    # the transducer: forward (mode and count), backward (closed later or not), output
    a = STR.at(s, i)

    def ahead(t, k):
        nq = z3.And(k < ln, STR.at(s, k) == Q)
        return nq if t in "EV" else z3.Not(nq) if t == "N" else z3.BoolVal(True)

    def claim(t, k):
        return cnt(s, k) < K if t in "BE" else cnt(s, k) == K if t in "UV" else z3.BoolVal(True)
    for t, row in MERGE_T.items():
        for c, o, t2 in row:
            pre = [0 <= i, i < ln, cabs.q_unfold(s, i), mode(s, i) == MODE[t], a == Q if c == "Q" else a != Q, ahead(t2, i + 1)]
            step = "%s, %s read, to %s" % (t, c, t2)
            # a state that promises "no quote follows" reads none, one that promises a quote reads nothing else
            out.append((step + ": mode", pre, mode(s, i + 1) == MODE[t2]))
            back = pre + [claim(t2, i + 1), P5(ln, i + 1)]
            out.append((step + ": closed later", back, claim(t, i)))
            out.append((step + ": output", back, z3.If(z3.And(inb(i), cnt(s, i) < K), Z(C), a) == (Z(C) if o == "C" else Z(Q) if o == "Q" else a)))
    for t in MERGE_END:
        out.append(("end in %s" % t, [], claim(t, ln)))
    promise = all(a == "Q" for t in "EV" for a, _, _ in MERGE_T[t]) and all(a == "x" for a, _, _ in MERGE_T["N"]) and not set("EV") & set(MERGE_END)
    out.append(("promised characters are the ones read", [], z3.BoolVal(promise)))
    total = fst.everything(MARKS).meet(merge_fst(MARKS).domain().complement()).witness() is None
    out.append(("every marker string has a run", [], z3.BoolVal(total)))
    return out


# ------------------------------------------------------------------ the score
ABSTR = z3.Function("abstraction_of", STR.sort, smt.DIALECT, STR.sort)
ROWS = smt.ROW.sort
KIND = z3.Function("distinct_rows", ROWS, I)                        # how many, and the j-th with its number
KEY = z3.Function("distinct_row", ROWS, I, STR.sort)
CNT = z3.Function("occurrences", ROWS, I, I)
CELLS = z3.Function("cells_of_pattern", STR.sort, I)
SUM = z3.Function("score_sum", ROWS, z3.RealSort(), I, z3.RealSort())


def real_axioms():
    """float arithmetic read as real arithmetic"""
    a, b = z3.Reals("ra!q rb!q")
    for f, g in ((smt.fadd, a + b), (smt.fsub, a - b), (smt.fmul, a * b)):
        yield z3.ForAll([a, b], f(a, b) == g, patterns=[f(a, b)])
    yield z3.ForAll([a, b], z3.Implies(b != 0, smt.fdiv(a, b) == a / b), patterns=[smt.fdiv(a, b)])


def term(L, e, j):
    n, k = z3.ToReal(CNT(L, j)), z3.ToReal(smt.ROW.len(smt.split(KEY(L, j), STR.unit(Z(D)))))
    return n * (z3.If(k - 1 > e, k - 1, e) / k)


def sum_unfold(L, e, i):
    """definition of the sum of the first i terms, and its sign"""
    return z3.And(SUM(L, e, Z(0)) == 0, z3.Implies(z3.And(0 < i, i <= KIND(L)), SUM(L, e, i) == SUM(L, e, i - 1) + term(L, e, i - 1)))


def entries(L, j):
    return z3.Implies(z3.And(0 <= j, j < KIND(L)), z3.And(CNT(L, j) >= 1, COUNT(L, KEY(L, j)) == CNT(L, j)))


COUNT = z3.Function("occurrences_of", ROWS, STR.sort, I)


def counter_item(it, L, j):
    it.path.assume(entries(L, j))
    return S("str", KEY(L, j)), S("int", CNT(L, j))


def _counter(which):
    def f(it, o, a, kw):
        if a or kw:
            raise Unsupported("Counter.%s with arguments" % which)
        L = o.f["rows"]

        def get(it2, k):
            k2 = Z(k) if isinstance(k, int) else k
            key, n = counter_item(it2, L, k2)
            return {"items": (key, n), "keys": key, "values": n, "most_common": (key, n)}[which]
        return Idx(KIND(L), get, base=o)
    return f


COUNTER = Model("collections.Counter", {k: _counter(k) for k in ("items", "keys", "values")}, length=lambda it, o: S("int", KIND(o.f["rows"])), idx=lambda it, o: _counter("keys")(it, o, [], {}),
                getitem=lambda it, o, k: S("int", COUNT(o.f["rows"], it.term(k, "str"))),
                as_set=lambda it, o: counter_set(it, o))


def counter_set(it, o):
    if getattr(it, "mono", None) is None:
        raise Unsupported("set of a Counter")           # a sum over its elements in any order: for C22 only
    return as_set(it, it.seq_list(Seq(it.ETS["str"], o.f["rows"]), frozen=True))


def make_counter(it, a, kw):
    if len(a) != 1 or kw:
        raise Unsupported("Counter")
    if isinstance(a[0], ListObj) is False:
        raise Unsupported("Counter of something else")
    s = it.as_seq(a[0])
    if s.et is not it.ETS["str"]:
        raise Unsupported("Counter of something else")
    it.path.assume(z3.And(KIND(s.t) >= 0, KIND(s.t) <= smt.ROW.len(s.t), z3.Implies(smt.ROW.len(s.t) > 0, KIND(s.t) >= 1)))
    return Obj(it, COUNTER, {"rows": s.t})



def score_templates(it, st):
    base = getattr(st.src, "base", None)
    L = base.f.get("rows") if isinstance(base, Obj) and base.cls is COUNTER else None
    if L is None:
        return []
    e = it.con.eps_term(it)
    out = []
    for cell, _, v in st.cells():
        e0 = st.entry.get(cell, UNSET)
        if kind_of(e0) not in ("flt", "int"):
            continue

        def f(s2, cell=cell, e0=e0):
            it.path.assume(sum_unfold(L, e, s2.idx))
            it.path.assume(entries(L, s2.idx - 1))
            x = s2.now(cell)
            return it.term(x, "flt") == it.term(e0, "flt") + SUM(L, e, s2.idx) if kind_of(x) in ("flt", "int") else None
        out.append(("%s.%s is the sum over the row patterns so far" % cell, f))

    def pos(s2):
        it.path.assume(sum_unfold(L, e, s2.idx))
        it.path.assume(entries(L, s2.idx - 1))
        return z3.And(SUM(L, e, s2.idx) >= 0, z3.Implies(s2.idx > 0, SUM(L, e, s2.idx) > 0))
    out.append(("the sum so far is positive", pos))
    return out


class MakeAbstraction:
    """contract of make_abstraction as seen by pattern_score (proved above): a function of the sample and the dialect"""

    def apply(self, it, f, args):
        c = it.con
        ok = kind_of(args["data"]) == "str"
        d = it.ETS["dialect"].unwrap(args["dialect"])
        it.path.check(z3.And(it.term(args["data"], "str") == c.data.t, d == c.d) if ok else z3.BoolVal(False), "the abstraction of the sample with the dialect")
        return S("str", ABSTR(it.term(args["data"], "str"), d))


class PatternScore(Contract):
    key = "clevercsv.detect_pattern.pattern_score"
    templates = [score_templates]
    externals = {"collections.Counter": make_counter}
    assumed = {"clevercsv.detect_pattern.make_abstraction": MakeAbstraction()}
    axioms = staticmethod(real_axioms)
    numbers_are_reals = True

    def eps_term(self, it):
        return it.term(self.eps if self.eps is not None else 1e-3, "flt")

    def setup(self, it):
        self.data = it.fresh("str", "data")
        self.d = it.path.fresh("dialect", smt.DIALECT)
        self.eps = None
        if it.path.choose(2) == 1:
            self.eps = it.fresh("flt", "eps")
            it.path.assume(self.eps.t > 0)
        return {}

    def body(self, it, args):
        return it.call(it.resolve(self.key), [self.data, it.ETS["dialect"].wrap(it, self.d)], {} if self.eps is None else {"eps": self.eps})

    def post(self, it, args, kind, v):
        C_ = it.path.check
        C_(kind == "return", "the score exists")
        if kind != "return":
            return
        L = smt.split(ABSTR(self.data.t, self.d), STR.unit(Z(R)))
        n, e = KIND(L), self.eps_term(it)
        it.path.assume(sum_unfold(L, e, Z(0)))
        r = it.term(v, "flt")
        C_(r == SUM(L, e, n) / z3.ToReal(n), "the score is the documented average over the row patterns")
        C_(r > 0, "the score is positive")


CONTRACTS = [Abstraction(), PatternScore(), Lemma("the base abstraction is the transducer BASE", base_lemma),
             Lemma("merging quoted blocks is the transducer MERGE", merge_lemma, cabs.q_axioms)] + [without(c, *LEAKS) for c in cabs.CONTRACTS if "memory safety" not in (c.label or "") and "PyInit" not in c.func]
ASSUMED = {}
TRUSTED = ["CPython C API contracts (engine/capi.py)", "float arithmetic of pattern_score read as real arithmetic",
           "collections.Counter: the distinct elements with the number of their occurrences (at least 1 each, at least one element for a non-empty list)",
           "str.replace, startswith, endswith, rstrip, slicing, re.sub of the patterns used: transducers of engine/fst.py",
           "the decision procedures for automata and transducers in engine/fst.py"]
