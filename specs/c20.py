"""C20: normal-form detection accepts exactly the samples of a documented form."""
import z3
from engine import smt
from engine.contracts import Contract
from engine.lemma import Lemma
from engine.models import Model
from engine.smt import STR, ROW, DIALECT
from engine.vals import *

NF = "clevercsv.normal_form."
I, Bo = smt.I, z3.BoolSort()
Z = z3.IntVal
Q2 = ("'", '"')
DELIMS = (",", ";", "|", "\t")
ln, at, sub = STR.len, STR.at, STR.sub
rl, ra = ROW.len, ROW.at
POT = z3.Function("potential_escape", STR.sort, STR.sort, Bo)           # C07: is_potential_escapechar(char, encoding)

# ---------------------------------------------------------------- cells of a row: cut at delimiters outside quotes
IN = z3.Function("inside_quotes", STR.sort, STR.sort, STR.sort, I, Bo)          # row, delimiter, quote, position
ST = z3.Function("cell_start", STR.sort, STR.sort, STR.sort, I, I)
CP = z3.Function("cells_before", STR.sort, STR.sort, STR.sort, I, ROW.sort)
CELLS = z3.Function("cells", STR.sort, STR.sort, STR.sort, ROW.sort)


def unfold(r, d, q, i):
    """definitions at position i"""
    c = STR.unit(at(r, i - 1))
    cut = z3.And(c == d, z3.Not(IN(r, d, q, i - 1)))
    a = (r, d, q, i - 1)
    out = [z3.Not(IN(r, d, q, Z(0))), ST(r, d, q, Z(0)) == 0, CP(r, d, q, Z(0)) == ROW.empty,
           CELLS(r, d, q) == ROW.cat(CP(r, d, q, ln(r)), ROW.unit(sub(r, ST(r, d, q, ln(r)), ln(r)))),
           z3.Implies(z3.And(0 < i, i <= ln(r)), z3.And(
               IN(r, d, q, i) == z3.If(cut, IN(*a), z3.If(c == q, z3.Not(IN(*a)), IN(*a))),
               ST(r, d, q, i) == z3.If(cut, i, ST(*a)),
               CP(r, d, q, i) == z3.If(cut, ROW.cat(CP(*a), ROW.unit(sub(r, ST(*a), i - 1))), CP(*a))))]
    return z3.And(*out)


def no_quotes(r, d, q, i):
    """lemma: a quote character that does not occur changes nothing"""
    e = STR.empty
    return z3.Implies(z3.And(z3.Or(ln(q) == 0, z3.Not(smt.contains(r, q))), ln(q) <= 1, 0 <= i, i <= ln(r)),
                      z3.And(z3.Not(IN(r, d, q, i)), z3.Not(IN(r, d, e, i)), ST(r, d, q, i) == ST(r, d, e, i), CP(r, d, q, i) == CP(r, d, e, i)))


def no_cut(r, d, q, i):
    """lemma: without a delimiter the row is one cell"""
    return z3.Implies(z3.And(ln(d) == 0, 0 <= i, i <= ln(r)), z3.And(ST(r, d, q, i) == 0, CP(r, d, q, i) == ROW.empty))


def start_ok(r, d, q, i):
    return z3.Implies(z3.And(0 <= i, i <= ln(r)), z3.And(0 <= ST(r, d, q, i), ST(r, d, q, i) <= i))


def lemmas():
    r, d, q, i = z3.Const("r", STR.sort), z3.Const("d", STR.sort), z3.Const("q", STR.sort), z3.Int("i")
    e = STR.empty
    for nm, f in (("an absent quote character", no_quotes), ("an absent delimiter", no_cut), ("the start of a cell", start_ok)):
        u0, u1 = [unfold(r, d, q, Z(0)), unfold(r, d, e, Z(0))], [unfold(r, d, q, i + 1), unfold(r, d, e, i + 1)]
        one = [z3.Implies(ln(q) == 1, q == STR.unit(at(q, 0))), z3.Implies(ln(q) == 0, q == e), ln(STR.unit(at(r, i))) == 1, ln(e) == 0]
        yield nm + ", nothing read", u0 + one, f(r, d, q, Z(0))
        yield nm + ", one more character", u1 + one + [i >= 0, i + 1 <= ln(r), f(r, d, q, i), at(STR.unit(at(r, i)), Z(0)) == at(r, i)], f(r, d, q, i + 1)


def cells_axioms():
    """what the lemmas give at the end of the row, and the specification of str.split"""
    r, d, q = z3.Consts("r!ca d!ca q!ca", STR.sort)
    e = STR.empty
    n = ln(r)
    c = CELLS(r, d, q)
    yield z3.ForAll([r, d, q], z3.And(unfold(r, d, q, Z(0)), no_cut(r, d, q, n), no_quotes(r, d, q, n), unfold(r, d, e, Z(0)), rl(c) >= 1), patterns=[c])
    yield z3.ForAll([r, d], z3.Implies(ln(d) == 1, smt.split(r, d) == CELLS(r, d, e)), patterns=[smt.split(r, d)])


def cells_are(it, r, d, q):
    """the definitions for this row"""
    it.path.assume(z3.And(unfold(r, d, q, Z(0)), no_cut(r, d, q, ln(r)), no_quotes(r, d, q, ln(r)), unfold(r, d, STR.empty, Z(0))))
    it.path.assume(z3.And(STR.ext(sub(r, Z(0), ln(r)), r), z3.Implies(ln(q) == 0, STR.ext(q, STR.empty)), z3.Implies(ln(d) == 0, STR.ext(d, STR.empty))))
    return CELLS(r, d, q)


# ---------------------------------------------------------------- texts over a set of characters
CLASSES = {}


def ranges(chars):
    out = []
    for c in sorted(chars):
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return tuple(map(tuple, out))


def all_in(rs):
    """predicate: every character lies in the ranges"""
    if rs not in CLASSES:
        n = len(CLASSES)
        CLASSES[rs] = (z3.Function("all_in_%d" % n, STR.sort, Bo), z3.Function("not_in_%d" % n, STR.sort, I))
    return CLASSES[rs][0]


def inside(rs, c):
    return z3.Or(*[c == a if a == b else z3.And(a <= c, c <= b) for a, b in rs])


def class_axioms(only=None):
    s = z3.Const("s!cl", STR.sort)
    k = z3.Int("k!cl")
    for rs, (f, w) in CLASSES.items():
        if only is not None and rs not in only:
            continue
        yield z3.ForAll([s, k], z3.Implies(z3.And(f(s), 0 <= k, k < ln(s)), inside(rs, at(s, k))), patterns=[z3.MultiPattern(f(s), at(s, k))])
        yield z3.ForAll([s], z3.Or(f(s), z3.And(0 <= w(s), w(s) < ln(s), z3.Not(inside(rs, at(s, w(s)))))), patterns=[f(s)])


def chars(text):
    return {ord(c) for c in text}


AZ = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
PLAIN = all_in(ranges(chars(AZ + "._&-@+%() /")))
ONE = all_in(ranges(chars(AZ + "._&-")))
ONEQ = all_in(ranges(chars(AZ + "._&- ")))
SIMPLE_ESC = {c: c for c in ".-_&@+%() /\\[]^$*?|{}!\"',;:<>=#~`"}
SIMPLE_ESC.update({"n": "\n", "t": "\t", "r": "\r"})


def char_class(pat):
    """(anchored at the start, ranges of the class, repetition, end anchor) of a pattern that is one character class; None otherwise"""
    if not isinstance(pat, str):
        return None
    bol = pat[:1] == "^" or pat[:2] == "\\A"
    if bol:
        pat = pat[1 if pat[0] == "^" else 2:]
    if not pat.startswith("["):
        return None
    i, neg, got = 1, False, set()
    if pat[i:i + 1] == "^":
        neg, i = True, 2
    items = []
    while i < len(pat) and pat[i] != "]":
        c = pat[i]
        if c == "\\":
            c = SIMPLE_ESC.get(pat[i + 1:i + 2])
            if c is None:
                return None
            items.append((c, True))
            i += 2
            continue
        if c in "[&|~" and pat[i + 1:i + 2] == c:
            return None
        items.append((c, False))
        i += 1
    if i >= len(pat):
        return None
    k = 0
    while k < len(items):
        if k + 2 < len(items) and items[k + 1] == ("-", False):
            a, b = ord(items[k][0]), ord(items[k + 2][0])
            if a > b:
                return None
            got |= set(range(a, b + 1))
            k += 3
        else:
            got.add(ord(items[k][0]))
            k += 1
    rep, end = pat[i + 1:], ""
    for e in ("$", "\\Z"):
        if rep.endswith(e):
            rep, end = rep[:-len(e)], e
    if rep not in ("", "+", "*") or not got:
        return None
    rs = ranges(got)
    return bol, outside(rs) if neg else rs, rep, end


def outside(rs):
    out, c = [], 0
    for a, b in rs:
        if c < a:
            out.append((c, a - 1))
        c = b + 1
    if c <= 0x10ffff:
        out.append((c, 0x10ffff))
    return tuple(out)


def m_run(how):
    def f(it, o, a, kw):
        if len(a) != 1 or kw or kind_of(a[0]) != "str":
            raise Unsupported("use of a pattern")
        bol, rs, rep, end = it.getf(o, "cls")
        t = it.term(a[0])
        bol = bol or how != "search"
        known = set(CLASSES)

        def whole(x):
            r = all_in(rs)(x)
            return r if rep == "*" else z3.And(ln(x) > 0, r) if rep == "+" else z3.And(ln(x) == 1, inside(rs, at(x, Z(0))))
        if how == "fullmatch" or (bol and end):
            r = whole(t)
            if end == "$" and how != "fullmatch":
                n = ln(t) - 1
                r = z3.Or(r, z3.And(n >= 0, at(t, n) == ord("\n"), whole(sub(t, Z(0), n))))
        elif rep == "*":
            r = z3.BoolVal(True)
        elif bol and not end:
            r = z3.And(ln(t) > 0, inside(rs, at(t, Z(0))))
        elif not bol and not end:
            r = z3.Not(all_in(outside(rs))(t))
        else:
            raise Unsupported("pattern %s%s with %s" % (rep, end, how))
        for ax in class_axioms(set(CLASSES) - known):
            it.path.assume(ax)
        return Obj(it, MATCHED, {}) if it.path.decide(r) else None
    return f


PATTERN = Model("Pattern", {k: m_run(k) for k in ("fullmatch", "search", "match")}, truth=lambda it, o: True)
MATCHED = Model("Match", {}, truth=lambda it, o: True)


def compile_(it, a, kw):
    c = char_class(a[0])
    if len(a) != 1 or kw or c is None:
        raise Unsupported("pattern %r" % (a,))
    return Obj(it, PATTERN, {"cls": c})


def direct(how):
    def f(it, a, kw):
        return PATTERN.methods[how](it, compile_(it, a[:1], kw), a[1:], {})
    return f


EXTERNALS = {m + "." + n: f for m in ("regex", "re") for n, f in (("compile", compile_), ("fullmatch", direct("fullmatch")), ("search", direct("search")), ("match", direct("match")))}


# ---------------------------------------------------------------- the forms
def q_char(q, c):
    """c is the quote character"""
    return STR.unit(c) == q


def quoted(c, q):
    """the cell is enclosed in the quote character"""
    return z3.And(ln(c) >= 2, q_char(q, at(c, Z(0))), q_char(q, at(c, ln(c) - 1)))


def lit(x):
    return STR.unit(Z(ord(x)))


def any_quoted(c):
    return z3.Or(*[quoted(c, lit(x)) for x in Q2])


def inner(c):
    return sub(c, Z(1), ln(c) - 1)


def cell1(c, q):
    return z3.And(quoted(c, q), z3.Not(smt.contains(inner(c), q)))


def cell2(c, q=None):
    return z3.Or(ln(c) == 0, PLAIN(c))


def cell3(c, q):
    empty = z3.Or(ln(c) == 0, z3.And(ln(c) == 2, any_quoted(c)))
    return z3.And(z3.Not(empty), z3.If(any_quoted(c), quoted(c, q), PLAIN(c)))


CELL = {1: cell1, 2: cell2, 3: cell3}
WC = {k: z3.Function("bad_cell_%d" % k, STR.sort, STR.sort, STR.sort, I) for k in CELL}
ROWOK = {k: z3.Function("row_of_form_%d" % k, STR.sort, STR.sort, STR.sort, Bo) for k in CELL}
FORM = {k: z3.Function("form_%d" % k, ROW.sort, STR.sort, STR.sort, Bo) for k in (1, 2, 3, 4, 5)}
INNER = z3.Function("rows_without_quotes", ROW.sort, ROW.sort)


def form_axioms():
    r, d, q = z3.Consts("r!fa d!fa q!fa", STR.sort)
    R = z3.Const("R!fa", ROW.sort)
    k = z3.Int("k!fa")
    c = CELLS(r, d, q)
    for n, f in CELL.items():
        ok, w = ROWOK[n](r, d, q), WC[n](r, d, q)
        yield z3.ForAll([r, d, q, k], z3.Implies(z3.And(ok, 0 <= k, k < rl(c)), f(ra(c, k), q)), patterns=[z3.MultiPattern(ok, ra(c, k))])
        yield z3.ForAll([r, d, q], z3.Or(ok, z3.And(0 <= w, w < rl(c), z3.Not(f(ra(c, w), q)))), patterns=[ok])
    yield z3.ForAll([R], rl(INNER(R)) == rl(R), patterns=[INNER(R)])
    yield z3.ForAll([R, k], z3.Implies(z3.And(0 <= k, k < rl(R)), ra(INNER(R), k) == sub(ra(R, k), Z(1), ln(ra(R, k)) - 1)), patterns=[ra(INNER(R), k)])


def table(rows, d, q, j):
    """row j has the delimiter and as many cells as the first, at least two"""
    return z3.And(smt.contains(ra(rows, j), d), rl(CELLS(ra(rows, j), d, q)) == rl(CELLS(ra(rows, Z(0)), d, q)), rl(CELLS(ra(rows, j), d, q)) >= 2)


def every(rows, body, j):
    return smt.forall([j], z3.Implies(z3.And(0 <= j, j < rl(rows)), body), patterns=[ra(rows, j)])


def form4_row(r, q):
    return z3.If(ln(q) == 0, ONE(r), z3.And(quoted(r, q), ONEQ(inner(r))))


def form5_row(r, d, q):
    return z3.And(smt.contains(r, d), ln(r) > 2, quoted(r, q))


def meaning(n, rows, d, q):
    """the documented form n"""
    j = z3.Int("j!fo")
    r = ra(rows, j)
    if n in (1, 2, 3):
        return z3.And(rl(rows) > (1 if n == 3 else 0), every(rows, z3.And(table(rows, d, q, j), ROWOK[n](r, d, q)), j))
    if n == 4:
        return z3.And(rl(rows) > 1, every(rows, form4_row(r, q), j))
    return z3.And(rl(rows) > 1, every(rows, form5_row(r, d, q), j), FORM[2](INNER(rows), d, q))


# ---------------------------------------------------------------- invariants
def templates(it, st):
    b = getattr(st.src, "base", None)
    con = it.con
    out = []
    if not isinstance(b, Seq) or b.et is None or not hasattr(con, "d"):
        return out
    d, q = con.d.t, con.q.t
    j = z3.Int("j!te")
    if b.et.name == "char" and b.t.eq(con.row.t if getattr(con, "row", None) is not None else b.t):
        r = b.t

        def upto(s2):
            it.path.assume(z3.And(unfold(r, d, q, s2.idx), start_ok(r, d, q, s2.idx), start_ok(r, d, q, s2.idx - 1)))
            it.path.assume(STR.snoc(r, s2.idx - 1))
        for cell, o, v in st.cells():
            e = st.entry.get(cell, UNSET)
            if kind_of(e) == "bool":
                def f(s2, cell=cell):
                    upto(s2)
                    x = s2.now(cell)
                    return it.term(x, "bool") == IN(r, d, q, s2.idx) if kind_of(x) == "bool" else None
                out.append(("%s.%s: inside quotes" % cell, f))
            elif kind_of(e) == "str":
                def f(s2, cell=cell):
                    upto(s2)
                    x = s2.now(cell)
                    if kind_of(x) != "str":
                        return None
                    now = sub(r, ST(r, d, q, s2.idx), s2.idx)
                    before = sub(r, ST(r, d, q, s2.idx - 1), s2.idx - 1)
                    c = STR.unit(at(r, s2.idx - 1))
                    it.path.assume(z3.And(STR.ext(it.term(x), now), STR.ext(STR.cat(before, c), now)))
                    return it.term(x) == now
                out.append(("%s.%s: the current cell" % cell, f))
            elif kind_of(e) == "int":
                def f(s2, cell=cell):
                    upto(s2)
                    x = s2.now(cell)
                    return it.term(x, "int") == ST(r, d, q, s2.idx) if kind_of(x) == "int" else None
                out.append(("%s.%s: the start of the cell" % cell, f))
            elif isinstance(e, list) and not e:
                def f(s2, cell=cell):
                    upto(s2)
                    x = s2.now(cell)
                    if isinstance(x, list):
                        return CP(r, d, q, s2.idx) == ROW.empty if not x else None
                    return x.t == CP(r, d, q, s2.idx) if x.et is it.ETS["str"] else None
                out.append(("%s.%s: the cells before" % cell, f))
    if b.et.name == "str":
        L = b.t

        def all_so_far(nm, body):
            out.append(("so far " + nm, lambda s2: smt.forall([j], z3.Implies(z3.And(0 <= j, j < s2.idx), body(ra(L, j), j)), patterns=[ra(L, j)])))
        if getattr(con, "rows", None) is not None and L.eq(con.rows.t):
            all_so_far("the delimiter", lambda x, k: smt.contains(x, d))
            all_so_far("as many cells", lambda x, k: rl(CELLS(x, d, q)) == rl(CELLS(ra(L, Z(0)), d, q)))
            all_so_far("several cells", lambda x, k: rl(CELLS(x, d, q)) >= 2)
            for n in CELL:
                all_so_far("rows of form %d" % n, lambda x, k, n=n: ROWOK[n](x, d, q))
            all_so_far("single cells", lambda x, k: form4_row(x, q))
            all_so_far("whole rows quoted", lambda x, k: z3.And(ln(x) > 2, quoted(x, q)))
            for cell, o, v in st.cells():
                e = st.entry.get(cell, UNSET)
                if isinstance(e, list) and not e:
                    def counts(s2, cell=cell):
                        x = s2.now(cell)
                        if isinstance(x, list):
                            return s2.idx == 0 if not x else None
                        if x.et is not it.ETS["int"]:
                            return None
                        return z3.And(smt.ISEQ.len(x.t) == s2.idx, smt.forall([j], z3.Implies(z3.And(0 <= j, j < s2.idx), smt.ISEQ.at(x.t, j) == rl(CELLS(ra(L, j), d, q))),
                                                                             patterns=[smt.ISEQ.at(x.t, j), ra(L, j)]))
                    out.append(("%s.%s: the numbers of cells" % cell, counts))

                    def f(s2, cell=cell):
                        x = s2.now(cell)
                        if isinstance(x, list):
                            return s2.idx == 0 if not x else None
                        N = INNER(L)
                        it.path.assume(ROW.snoc(N, s2.idx - 1))
                        it.path.assume(z3.Implies(s2.idx == rl(L), ROW.ext(sub_row(N, s2.idx), N)))
                        return x.t == sub_row(N, s2.idx) if x.et is it.ETS["str"] else None
                    out.append(("%s.%s: rows without their quotes" % cell, f))
        for n, fn in CELL.items():
            all_so_far("cells of form %d" % n, lambda x, k, fn=fn: fn(x, q))
    return out


def sub_row(N, i):
    return ROW.sub(N, Z(0), i)


def rstrip_templates(it, st):
    out = []
    for cell, o, v in st.cells():
        e = st.entry.get(cell, UNSET)
        if kind_of(e) != "str":
            continue
        for c in "\n\r":
            def f(s2, cell=cell, e=e, c=c):
                x = s2.now(cell)
                return it.term(x) == smt.rstrip_of(it.term(e), lit(c)) if kind_of(x) == "str" else None

            def g(s2, cell=cell, e=e, c=c):
                x = s2.now(cell)
                return z3.Or(it.term(x) == smt.rstrip_of(it.term(e), lit(c)), it.term(x) == it.term(e)) if kind_of(x) == "str" else None
            out.append(("%s.%s stripped of %r" % (cell + (c,)), f))
            out.append(("%s.%s as before or stripped of %r" % (cell + (c,)), g))
    return out


def strip_axioms():
    s = z3.Const("s!rs", STR.sort)
    k = z3.Int("k!rs")
    for c in "\n\r":
        r = smt.rstrip_of(s, lit(c))
        yield z3.ForAll([s], z3.And(z3.Or(ln(r) == 0, at(r, ln(r) - 1) != ord(c)), z3.Implies(z3.Or(ln(s) == 0, at(s, ln(s) - 1) != ord(c)), r == s)), patterns=[r])


# ---------------------------------------------------------------- contracts of the parts
def axioms():
    return list(cells_axioms()) + list(form_axioms()) + list(class_axioms()) + list(strip_axioms())


def dialect(it, con):
    return it.call(it.resolve("clevercsv.dialect.SimpleDialect"), [], {"delimiter": con.d, "quotechar": con.q, "escapechar": ""})


def short(it, t):
    it.path.assume(ln(t) <= 1)
    it.path.assume(z3.And(z3.Implies(ln(t) == 0, t == STR.empty), z3.Implies(ln(t) == 1, t == STR.unit(at(t, Z(0))))))


def parts(it, args):
    dl = args["dialect"]
    d, q = it.getattr(dl, "delimiter"), it.getattr(dl, "quotechar")
    if kind_of(d) != "str" or kind_of(q) != "str":
        raise Unsupported("dialect without delimiter or quote character")
    return it.term(d), it.term(q)


class SplitRow(Contract):
    key = NF + "split_row"
    templates = [templates]
    externals = EXTERNALS

    def axioms(self):
        return axioms()

    def setup(self, it):
        self.row, self.d, self.q = it.fresh("str", "row"), it.fresh("str", "delimiter"), it.fresh("str", "quotechar")
        short(it, self.d.t)
        short(it, self.q.t)
        return {"row": self.row, "dialect": dialect(it, self)}

    def post(self, it, args, kind, v):
        C = it.path.check
        if kind == "raise":
            C(z3.BoolVal(False), "cutting a row does not fail")
            return
        want = cells_are(it, self.row.t, self.d.t, self.q.t)
        s = it.as_seq(v)
        if s.et is None or s.et.name != "str":
            C(z3.BoolVal(False), "a row gives a list of cells")
            return
        it.path.assume(ROW.ext(s.t, want))
        it.path.assume(ROW.ext(want, ROW.unit(self.row.t)))
        C(s.t == want, "the row is cut at its delimiters outside quotes")

    def apply(self, it, f, args):
        if kind_of(args["row"]) != "str":
            raise Unsupported("row")
        d, q = parts(it, args)
        return it.seq_list(Seq(it.ETS["str"], CELLS(it.term(args["row"]), d, q)))


class IsForm(Contract):
    templates = [templates]
    externals = EXTERNALS
    timeout = 6000

    def __init__(self, n):
        self.n, self.key = n, NF + "is_form_%d" % n

    def axioms(self):
        return axioms()

    def setup(self, it):
        self.d, self.q = it.fresh("str", "delimiter"), it.fresh("str", "quotechar")
        short(it, self.d.t)
        short(it, self.q.t)
        rows = it.path.fresh("rows", ROW.sort)
        self.rows = Seq(it.ETS["str"], rows)
        return {"rows": it.seq_list(self.rows, frozen=True), "dialect": dialect(it, self)}

    def body(self, it, args):
        return it.decide(it.call(it.resolve(self.key), [args["rows"], args["dialect"]], {}))

    def post(self, it, args, kind, v):
        C = it.path.check
        if kind == "raise":
            C(z3.BoolVal(False), "testing a form does not fail")
            return
        m = meaning(self.n, self.rows.t, self.d.t, self.q.t)
        if v:
            C(m, "only rows of the form are accepted")
        else:
            C(z3.Not(m), "rows of the form are accepted")

    def apply(self, it, f, args):
        s = it.as_seq(args["rows"])
        if s.et is None:
            s = Seq(it.ETS["str"], ROW.empty)
        d, q = parts(it, args)
        return S("bool", FORM[self.n](s.t, d, q))


ROWS = z3.Function("rows_of", STR.sort, ROW.sort)


class SplitFile(Contract):
    """the sample without its trailing line ends, cut at the one kind of line end in use"""
    key = NF + "split_file"
    templates = [rstrip_templates]

    def axioms(self):
        return axioms()

    def setup(self, it):
        self.data = it.fresh("str", "data")
        return {"data": self.data}

    def post(self, it, args, kind, v):
        C = it.path.check
        if kind == "raise":
            C(z3.BoolVal(False), "cutting the sample does not fail")
            return
        t = smt.rstrip_of(smt.rstrip_of(self.data.t, lit("\n")), lit("\r"))
        crlf = it.path.lit("\r\n")
        want = z3.If(smt.contains(t, crlf), smt.split(t, crlf), z3.If(smt.contains(t, lit("\n")), smt.split(t, lit("\n")), z3.If(smt.contains(t, lit("\r")), smt.split(t, lit("\r")), ROW.unit(t))))
        s = it.as_seq(v)
        C(s.t == want if s.et is it.ETS["str"] else z3.BoolVal(False), "the rows are the lines of the sample")

    def apply(self, it, f, args):
        return it.seq_list(Seq(it.ETS["str"], ROWS(it.term(args["data"], "str"))), frozen=True)


HASESC = z3.Function("has_escape", STR.sort, STR.sort, STR.sort, STR.sort, Bo)     # sample, encoding, delimiter, quote


class MaybeEscape(Contract):
    key = NF + "maybe_has_escapechar"

    def __init__(self):
        self.templates = [self.tpl]

    def axioms(self):
        return axioms()

    def setup(self, it):
        self.data, self.enc = it.fresh("str", "data"), it.fresh("str", "encoding")
        self.delim, self.quote = it.fresh("str", "delim"), it.fresh("str", "quotechar")
        short(it, self.delim.t)
        short(it, self.quote.t)
        it.path.assume(ln(self.quote.t) == 1)
        return {}

    def bad(self, k):
        D = self.data.t
        c = STR.unit(at(D, k + 1))
        return z3.And(z3.Or(c == self.delim.t, c == self.quote.t), POT(STR.unit(at(D, k)), self.enc.t))

    def tpl(self, it, st):
        j = z3.Int("j!me")
        D = self.data.t
        return [("no escape so far", lambda s2: smt.forall([j], z3.Implies(z3.And(0 <= j, j < s2.idx), z3.Not(self.bad(j))), patterns=[at(D, j)])),
                ("no escape before the last character", lambda s2: smt.forall([j], z3.Implies(z3.And(0 <= j, j + 1 < s2.idx), z3.Not(self.bad(j))), patterns=[at(D, j)]))]

    def body(self, it, args):
        return it.decide(it.call(it.resolve(self.key), [self.data, self.enc, self.delim, self.quote], {}))

    def post(self, it, args, kind, v):
        C = it.path.check
        D, j = self.data.t, z3.Int("j!me")
        if kind == "raise":
            C(z3.BoolVal(False), "looking for escapes does not fail")
        elif v:
            C(z3.Exists([j], z3.And(0 <= j, j + 1 < ln(D), self.bad(j))), "an escape is reported only where there is one")
        else:
            k = it.path.fresh("position", I)
            it.path.assume(z3.And(0 <= k, k + 1 < ln(D)))
            C(z3.Not(self.bad(k)), "every potential escape is seen")

    def apply(self, it, f, args):
        return S("bool", HASESC(*[it.term(args[k], "str") for k in ("data", "encoding", "delim", "quotechar")]))


class Potential:
    """contract of is_potential_escapechar (C07): a function of character and encoding"""

    def apply(self, it, f, args):
        if args.get("block_char") is not None:
            raise Unsupported("block_char")
        return S("bool", POT(it.term(args["char"], "str"), it.term(args["encoding"], "str")))


class Detect(Contract):
    """first documented dialect, in the documented order, whose form the sample has"""
    key = NF + "detect_dialect_normal"
    externals = EXTERNALS

    def __init__(self, n=None):
        self.n = n
        self.label = self.key + (" (documented delimiters)" if n is None else " (%d delimiters given)" % n)
        if n is not None:
            self.bounded = "number of delimiters given: %d; samples and delimiters are arbitrary" % n

    def axioms(self):
        return axioms()

    def setup(self, it):
        self.data, self.enc = it.fresh("str", "data"), it.fresh("str", "encoding")
        if self.n is None:
            self.ds, a = list(DELIMS), None
        else:
            self.ds = [it.fresh("str", "delim%d" % k) for k in range(self.n)]
            for x in self.ds:
                short(it, x.t)
            a = it.new_list(list(self.ds))
        return {"data": self.data, "delimiters": a, "encoding": self.enc, "verbose": it.fresh("bool", "verbose")}

    def post(self, it, args, kind, v):
        C = it.path.check
        if kind == "raise":
            C(z3.BoolVal(False), "normal-form detection does not fail")
            return
        T = lambda x: it.term(x, "str")
        D, R = self.data.t, ROWS(self.data.t)
        esc = z3.Or(*[HASESC(D, self.enc.t, T(d), T(q)) for d in self.ds for q in Q2], z3.BoolVal(False))
        order = [(FORM[2], d, "") for d in self.ds] + [(FORM[k], d, q) for d in self.ds for q in Q2 for k in (1, 3, 5)] + [(FORM[4], "", q) for q in ("'", '"', "")]
        if v is None:
            C(z3.Or(esc, z3.Not(z3.Or(*[f(R, T(d), T(q)) for f, d, q in order]))), "nothing is returned only when there is an escape or no form matches")
            return
        if not (isinstance(v, Obj) and isinstance(v.cls, ClassVal) and v.cls.name == "SimpleDialect"):
            C(z3.BoolVal(False), "the result is a dialect")
            return
        C(z3.Not(esc), "a dialect is returned only without potential escapes")
        g = lambda n: it.getattr(v, n)
        got = [g(n) for n in ("delimiter", "quotechar", "escapechar")]
        if any(kind_of(x) != "str" for x in got) or g("strict") is not False:
            C(z3.BoolVal(False), "the result is a plain dialect")
            return
        want = z3.BoolVal(False)
        for f, d, q in reversed(order):
            want = z3.If(f(R, T(d), T(q)), z3.And(T(got[0]) == T(d), T(got[1]) == T(q), T(got[2]) == STR.empty), want)
        C(want, "the result is the first documented dialect whose form the rows have")


PARTS = {c.key: c for c in [SplitRow(), SplitFile(), MaybeEscape()] + [IsForm(n) for n in (1, 2, 3, 4, 5)]}
CONTRACTS = list(PARTS.values()) + [Detect()] + [Detect(n) for n in (0, 1, 2, 3)] + [Lemma("cells of a row (induction on the characters read)", lemmas, smt.string_axioms)]
ASSUMED = {"clevercsv.escape.is_potential_escapechar": Potential()}
for c in CONTRACTS:
    c.assumed = dict(ASSUMED, **{k: v for k, v in PARTS.items() if k != c.key})
TRUSTED = ["str.split, rstrip, in; regex character classes (read from the pattern text)", "delimiters are at most one character long",
           "is_potential_escapechar: a function of character and encoding (C07)"]
