"""Contracts of the abstraction extension (src/abstraction.c), used by C03 and C10."""
import z3
from engine.capi import MAXCHAR
from engine.ccontract import CContract
from engine.csym import CV, NULL, BufPtr, CObj, Opaque, of_array, ints_of, inr
from engine.smt import STR, ISEQ, I
from .cpars import SetChar, PyInit, expect_failed

FILE = "abstraction.c"
Z = z3.IntVal
B = z3.BoolSort()
S_ = STR.sort
C, D, Q, R = map(ord, "CDQR")

# ------------------------------------------------------------------ what the abstraction is
ab_out = z3.Function("abstraction_of_prefix", S_, I, I, I, I, S_)      # text, delimiter, quote, escape, length
ab_esc = z3.Function("escape_open_after", S_, I, I, I, I, B)


def last_is(o, c):
    n = STR.len(o)
    return z3.And(n > 0, STR.at(o, n - 1) == c)


def ab_unfold(s, d, q, e, i):
    """definition of the abstraction of the first i+1 characters"""
    o, esc = ab_out(s, d, q, e, i), ab_esc(s, d, q, e, i)
    c = STR.at(s, i)
    put = lambda m: STR.cat(o, STR.unit(Z(m)))
    once = lambda m: z3.If(last_is(o, Z(m)), o, put(m))
    nl = z3.Or(c == 10, c == 13)
    o2 = z3.If(nl, once(R), z3.If(c == d, z3.If(esc, put(C), put(D)), z3.If(c == q, z3.If(esc, put(C), put(Q)),
               z3.If(c == e, z3.If(esc, once(C), o), once(C)))))
    e2 = z3.If(nl, esc, z3.And(c == e, c != d, c != q, z3.Not(esc)))
    return z3.Implies(z3.And(0 <= i, i < STR.len(s)), z3.And(ab_out(s, d, q, e, i + 1) == o2, ab_esc(s, d, q, e, i + 1) == e2))


def ab_base(s, d, q, e):
    return z3.And(ab_out(s, d, q, e, 0) == STR.empty, z3.Not(ab_esc(s, d, q, e, 0)))


# quoted blocks
q_mode = z3.Function("quote_mode", S_, I, I)            # 0 outside, 1 inside a block, 2 at the second of two quotes
q_start = z3.Function("quote_start", S_, I, I)
q_count = z3.Function("closed_blocks", S_, I, I)        # closed before position i
seg_l = z3.Function("block_start", S_, I, I)
seg_r = z3.Function("block_end", S_, I, I)
segs_l = z3.Function("block_starts", S_, I, ISEQ.sort)
segs_r = z3.Function("block_ends", S_, I, ISEQ.sort)
ordered = z3.Function("blocks_ordered", S_, I, B)         # every block closed before i has 0 <= start < end < i
fill = z3.Function("blocks_as_cells", S_, I, I, S_)       # first j blocks overwritten, and block j up to x


def q_axioms():
    """what the sequences of block ends and blocks_ordered mean"""
    s, n, j = z3.Const("s!q", S_), z3.Int("n!q"), z3.Int("j!q")
    for f, g in ((segs_l, seg_l), (segs_r, seg_r)):
        yield z3.ForAll([s, n], z3.Implies(n >= 0, ISEQ.len(f(s, n)) == n), patterns=[f(s, n)])
        yield z3.ForAll([s, n, j], z3.Implies(z3.And(0 <= j, j < n), ISEQ.at(f(s, n), j) == g(s, j)), patterns=[ISEQ.at(f(s, n), j)])
    yield z3.ForAll([s, n, j], z3.Implies(z3.And(ordered(s, n), 0 <= j, j < q_count(s, n)), z3.And(0 <= seg_l(s, j), seg_l(s, j) < seg_r(s, j), seg_r(s, j) < n)),
                    patterns=[z3.MultiPattern(ordered(s, n), seg_l(s, j))])


def q_unfold(s, i):
    n = STR.len(s)
    c = STR.at(s, i)
    m, st, k = q_mode(s, i), q_start(s, i), q_count(s, i)
    isq = c == Q
    two = z3.And(i + 1 < n, STR.at(s, i + 1) == Q)
    close = z3.And(m == 1, isq, z3.Not(two))
    m2 = z3.If(m == 0, z3.If(isq, Z(1), Z(0)), z3.If(m == 2, Z(1), z3.If(isq, z3.If(two, Z(2), Z(0)), Z(1))))
    return z3.Implies(z3.And(0 <= i, i < n), z3.And(
        q_mode(s, i + 1) == m2,
        q_start(s, i + 1) == z3.If(z3.And(m == 0, isq), i, st),
        q_count(s, i + 1) == z3.If(close, k + 1, k),
        z3.Implies(close, z3.And(seg_l(s, k) == st, seg_r(s, k) == i, ISEQ.ext(segs_l(s, k + 1), ISEQ.cat(segs_l(s, k), ISEQ.unit(st))),
                                 ISEQ.ext(segs_r(s, k + 1), ISEQ.cat(segs_r(s, k), ISEQ.unit(i))))),
        z3.Implies(z3.And(ordered(s, i), z3.Implies(close, z3.And(0 <= st, st < i))), ordered(s, i + 1))))


def q_base(s):
    return z3.And(ordered(s, 0), q_mode(s, 0) == 0, q_count(s, 0) == 0, segs_l(s, 0) == ISEQ.empty, segs_r(s, 0) == ISEQ.empty, fill(s, 0, seg_l(s, 0)) == s)


def fill_unfold(s, j, x):
    return z3.And(z3.Implies(z3.And(seg_l(s, j) <= x, x <= seg_r(s, j)), fill(s, j, x + 1) == STR.upd(fill(s, j, x), x, Z(C))),
                  fill(s, j + 1, seg_l(s, j + 1)) == fill(s, j, seg_r(s, j) + 1))


# ------------------------------------------------------------------ helpers for templates
_cache = {}


def instance(m, f, *args):
    """assume an instance of a definition, once per path"""
    args = tuple(z3.simplify(a) if z3.is_expr(a) else Z(a) for a in args)
    key = (f.__name__,) + tuple(a.get_id() for a in args)
    done = m.path.__dict__.setdefault("instances", {})
    if key in done:
        return
    done[key] = args
    hit = _cache.get(key)
    if hit is None or not all(x.eq(y) for x, y in zip(hit[0], args)):
        hit = _cache[key] = (args, f(*args))
    m.path.assume(hit[1])


def local_vars(m):
    """(name, reader) of the local integers and buffers of the function under verification"""
    out = []
    for si, sc in enumerate(m.frames[-1]["scopes"]):
        for name, cell in sc.items():
            out.append((name, cell[0], (lambda m2, si=si, name=name: m2.frames[-1]["scopes"][si][name][1] if si < len(m2.frames[-1]["scopes"])
                                        and name in m2.frames[-1]["scopes"][si] else None)))
    return out


def split_vars(m):
    ints, bufs = [], []
    for name, ty, rd in local_vars(m):
        if ty.kind == "int":
            ints.append((name, rd))
        elif ty.kind == "ptr" and ty.to.kind == "int":
            bufs.append((name, rd, ty.to.bits))
    return ints, bufs


def it(m, rd):
    v = rd(m)
    return v.term() if isinstance(v, CV) else None


def bf(m, rd):
    v = rd(m)
    return v.block if isinstance(v, BufPtr) and v.block.alive and v.block.esize and v.off == 0 else None


class BaseAbstraction(CContract):
    """the abstraction of the whole text, character by character"""
    file, func = FILE, "base_abstraction"
    contracts = {"_set_char": SetChar(FILE)}
    budget = 400

    def setup(self, m):
        return [CObj(m, "module", borrowed=True), Opaque("args")]

    def theory(self, m):
        """(text, d, q, e) once the arguments are known"""
        g = m.ghost_hook.get("given")
        if not g or len(g) != 4 or g[0] is None:
            return None
        if "abargs" not in m.ghost_hook:
            ch = []
            for k in (1, 2, 3):
                c = SetChar.outcome(m, g[k])
                if c is None:
                    return None
                ch.append(c)
            m.ghost_hook["abargs"] = (g[0].at["s"],) + tuple(ch)
            m.path.assume(ab_base(*m.ghost_hook["abargs"]))
        return m.ghost_hook["abargs"]

    def templates(self, m, entry):
        th = self.theory(m)
        if th is None:
            return []
        ints, bufs = split_vars(m)
        out = []

        def upto(m2, rd):
            i = it(m2, rd)
            if i is None:
                return None
            instance(m2, ab_unfold, *th, i - 1)
            return i
        for n, rd in ints:
            for k, rk in ints:
                if k == n:
                    continue

                def esc(m2, rd=rd, rk=rk):
                    i, x = upto(m2, rd), it(m2, rk)
                    return None if i is None or x is None else (x != 0) == ab_esc(*th, i)
                out.append(("%s tells whether an escape is open after %s characters" % (k, n), esc))

                def last(m2, rd=rd, rk=rk):
                    i, x = upto(m2, rd), it(m2, rk)
                    if i is None or x is None:
                        return None
                    o = ab_out(*th, i)
                    return x == z3.If(STR.len(o) == 0, Z(0), STR.at(o, STR.len(o) - 1))
                out.append(("%s is the last mark after %s characters" % (k, n), last))
                for b, rb, bits in bufs:
                    if bits != 8:
                        continue

                    def cont(m2, rd=rd, rk=rk, rb=rb):
                        i, x, bl = upto(m2, rd), it(m2, rk), bf(m2, rb)
                        return None if i is None or x is None or bl is None else of_array(bl.arr, x) == ab_out(*th, i)
                    out.append(("%s[0..%s) is the abstraction of the first %s characters" % (b, k, n), cont))
        return out

    def post(self, m, ret):
        if ret is NULL:
            m.exit_check(None)
            expect_failed(m, ret, ("TypeError",))
            if "failed" not in m.ghost and m.ghost_hook.get("given"):
                m.check(self.theory(m) is None, "only invalid arguments are refused")
            return
        m.exit_check(ret if isinstance(ret, CObj) else None)
        m.check(m.exc is None, "success leaves no exception")
        th = self.theory(m)
        if th is None:
            m.fail("invalid arguments are refused")
        if not (isinstance(ret, CObj) and ret.pykind == "str"):
            m.fail("a string is returned")
        want = ab_out(*th, STR.len(th[0]))
        m.check(ret.at["s"] == want, "the abstraction is that of the whole text")


class Merge(CContract):
    """every closed quoted block becomes cell text, everything else stays"""
    file, func = FILE, "c_merge_with_quotechar"
    budget = 500

    def __init__(self, ascii):
        self.ascii = ascii
        self.label = "abstraction.c:c_merge_with_quotechar (%s)" % ("any ASCII string: the closed blocks are merged" if ascii else "any string: memory safety")

    axioms = staticmethod(q_axioms)

    def setup(self, m):
        m.ghost_hook["ascii"] = self.ascii
        return [CObj(m, "module", borrowed=True), Opaque("args")]

    def text(self, m):
        g = m.ghost_hook.get("given")
        if not g or g.get(0) is None:
            return None
        s = g[0].at["s"]
        if "qbase" not in m.ghost_hook:
            m.ghost_hook["qbase"] = True
            m.path.assume(q_base(s))
        return s

    def templates(self, m, entry):
        s = self.text(m)
        if s is None:
            return []
        ints, bufs = split_vars(m)
        out = []
        n = STR.len(s)

        def upto(m2, rd):
            i = it(m2, rd)
            if i is None:
                return None
            # a step moves over one character, or over two quotes
            instance(m2, q_unfold, s, i - 2)
            instance(m2, q_unfold, s, i - 1)
            return i
        chars = [b for b in bufs if b[2] == 8]
        idxs = [b for b in bufs if b[2] == 64]

        def whole(m2, ri, rc):
            instance(m2, fill_unfold, s, it(m2, ri) - 1, seg_l(s, it(m2, ri)))
            return of_array(bf(m2, rc).arr, n) == fill(s, it(m2, ri), seg_l(s, it(m2, ri)))

        def copied(m2, ri, rc):
            i = it(m2, ri)
            m2.path.assume(z3.And(STR.snoc(s, i - 2), STR.snoc(s, i - 1), z3.Implies(n >= 0, STR.sub(s, Z(0), n) == s)))
            return of_array(bf(m2, rc).arr, i) == STR.sub(s, Z(0), i)

        def entries(m2, ri, ra):
            """contents and range of the first i entries; instances for the last entry"""
            i, a = it(m2, ri), bf(m2, ra).arr
            x = z3.Select(a, i - 1)
            m2.path.assume(z3.Implies(i >= 1, z3.And(ints_of(a, i) == ISEQ.cat(ints_of(a, i - 1), ISEQ.unit(x)),
                                                     inr(a, i, Z(0), n - 1) == z3.And(inr(a, i - 1, Z(0), n - 1), 0 <= x, x <= n - 1))))
            return ints_of(a, i), inr(a, i, Z(0), n - 1)

        def add(name, f):
            def g(m2):
                try:
                    return f(m2)
                except (TypeError, AttributeError, z3.Z3Exception):
                    return None
            out.append((name, g))
        for i_, ri in ints:
            add("outside or inside a block after %s" % i_, lambda m2, ri=ri: z3.Or(q_mode(s, upto(m2, ri)) == 0, z3.And(q_mode(s, upto(m2, ri)) == 1,
                0 <= q_start(s, upto(m2, ri)), q_start(s, upto(m2, ri)) < upto(m2, ri))))
            add("blocks before %s are ordered" % i_, lambda m2, ri=ri: ordered(s, upto(m2, ri)))
            for b, rb in ints:
                if b != i_:
                    add("%s tells whether a block is open after %s" % (b, i_), lambda m2, ri=ri, rb=rb: (it(m2, rb) != 0) == (q_mode(s, upto(m2, ri)) == 1))
                    add("%s blocks are closed before %s" % (b, i_), lambda m2, ri=ri, rb=rb: q_count(s, upto(m2, ri)) == it(m2, rb))
                    add("%s open entries" % b, lambda m2, ri=ri, rb=rb: it(m2, rb) + q_mode(s, upto(m2, ri)) <= upto(m2, ri))
                    for a, ra, _ in idxs:
                        add("%s[%s] is the start of the block open after %s" % (a, b, i_), lambda m2, ri=ri, rb=rb, ra=ra: z3.Implies(q_mode(s, upto(m2, ri)) == 1,
                            z3.And(it(m2, rb) + 1 <= bf(m2, ra).inited, z3.Select(bf(m2, ra).arr, it(m2, rb)) == q_start(s, upto(m2, ri)))))
            for c, rc, _ in chars:
                add("%s[0..%s) is copied" % (c, i_), lambda m2, ri=ri, rc=rc: copied(m2, ri, rc))
                for b, rb in ints:
                    if b != i_:
                        add("%s filled up to block %s" % (c, i_), lambda m2, ri=ri, rc=rc: whole(m2, ri, rc))

                        def part(m2, ri=ri, rb=rb, rc=rc):
                            instance(m2, fill_unfold, s, it(m2, rb), it(m2, ri) - 1)
                            return of_array(bf(m2, rc).arr, n) == fill(s, it(m2, rb), it(m2, ri))
                        add("%s filled up to character %s of block %s" % (c, i_, b), part)
            for a, ra, _ in idxs:
                for b, rb in ints:
                    if b != i_:
                        add("%s <= %s[%s] + 1" % (i_, a, b), lambda m2, ri=ri, rb=rb, ra=ra: it(m2, ri) <= z3.Select(bf(m2, ra).arr, it(m2, rb)) + 1)
                        add("%s >= %s[%s]" % (i_, a, b), lambda m2, ri=ri, rb=rb, ra=ra: it(m2, ri) >= z3.Select(bf(m2, ra).arr, it(m2, rb)))
                add("%s[0..%s) are block starts" % (a, i_), lambda m2, ri=ri, ra=ra: entries(m2, ri, ra)[0] == segs_l(s, it(m2, ri)))
                add("%s[0..%s) are block ends" % (a, i_), lambda m2, ri=ri, ra=ra: entries(m2, ri, ra)[0] == segs_r(s, it(m2, ri)))
                add("%s[0..%s) lie inside the text" % (a, i_), lambda m2, ri=ri, ra=ra: entries(m2, ri, ra)[1])
        return out

    def post(self, m, ret):
        s = self.text(m)
        if ret is NULL:
            m.exit_check(None)
            expect_failed(m, ret, ("TypeError",) if s is None else ("UnicodeDecodeError",) if not self.ascii else ())
            return
        g = m.ghost_hook["given"][0]
        if ret is g:
            m.check(g.refs == 1, "every pointer kept or returned owns a reference")
            g.refs = 0
            m.exit_check(None)
        else:
            m.exit_check(ret if isinstance(ret, CObj) else None)
        m.check(m.exc is None, "success leaves no exception")
        if not (isinstance(ret, CObj) and ret.pykind == "str"):
            m.fail("a string is returned")
        if self.ascii:
            k = q_count(s, STR.len(s))
            m.check(z3.Or(ret.at["s"] == fill(s, k, seg_l(s, k)), z3.And(STR.len(s) == 0, STR.len(ret.at["s"]) == 0)), "exactly the closed quoted blocks become cell text")


CONTRACTS = [SetChar(FILE), BaseAbstraction(), Merge(True), Merge(False), PyInit(FILE, "PyInit_cabstraction")]
