"""Contracts of the C parser (src/cparser.c), used by C01, C03 and C04."""
import z3
from engine import grammar
from engine.capi import MAXCHAR, TRUST_CAPI, TRUST_CFRONT
from engine.ccontract import CContract
from engine.csym import (CV, NULL, UNINIT, BufPtr, MaybeBuf, Block, CObj, SObj, Ref, StrData, StrLit, Opaque, Static, INT, UINT, LONG, ULONG,
                         of_array, inr, ARR, Machine)
from engine.smt import STR, ROW, CROW, CELL, I, Unsupported, PathEnd

FILE = "cparser.c"
Z = z3.IntVal


MEMBERS = {"ob_base", "input_iter", "fields", "field", "field_size", "field_len", "quote_start", "quote_end", "field_limit", "delimiter", "quotechar",
           "escapechar", "doublequote", "strict", "return_quoted", "state"}


# obligations about resources only: C03's
LEAKS = ("every reference acquired is released or handed over", "all memory acquired is released or kept by the parser", "memory acquired in a loop is not lost",
         "references acquired in a loop are released exactly once", "the garbage collector knows")


class View:
    """what the parser object stands for: the state of the grammar"""

    def __init__(self, m, o):
        f = o.f
        g = lambda n: f[n].term() if isinstance(f.get(n), CV) else m.fail("the parser's members are initialised")
        self.state, self.len, self.start, self.end = g("state"), g("field_len"), g("quote_start"), g("quote_end")
        self.limit, self.strict, self.rq = g("field_limit"), g("strict"), g("return_quoted")
        self.d, self.q, self.e = g("delimiter"), g("quotechar"), g("escapechar")
        p = f["field"]
        self.raw = STR.empty if p is NULL else of_array(p.block.arr, self.len) if isinstance(p, (BufPtr, MaybeBuf)) else m.fail("the parser's buffer is valid")
        self.fields = f["fields"]
        self.cells = f["fields"].at.get("seq") if isinstance(f["fields"], CObj) else None

    def same(self, o):
        """configuration unchanged"""
        return z3.And(self.limit == o.limit, self.strict == o.strict, self.rq == o.rq, self.d == o.d, self.q == o.q, self.e == o.e)


def cells_theory(m):
    return CROW if m.ghost_hook["flags"] else ROW


def new_self(m, fields="list", buffer=None, flags=None, owned=True):
    """an arbitrary parser object satisfying the type invariant"""
    P = m.path
    if {n for n, _ in m.p.fields("ParserObj")} != MEMBERS:
        raise Unsupported("the members of the parser object are not the known ones")
    o = SObj(m, "ParserObj", refs=0, borrowed=True)
    fl = P.choose(2) == 1 if flags is None else flags
    m.ghost_hook["flags"] = fl
    m.ghost_hook["empty_seq"] = cells_theory(m).empty
    f = o.f
    f["ob_base"] = Opaque("head")
    fill(m, o, fields, buffer)
    for n in ("delimiter", "quotechar", "escapechar"):
        f[n] = m.fresh(n, UINT)
        P.assume(f[n].term() <= MAXCHAR)
    f["field_limit"] = m.fresh("limit", LONG)
    f["doublequote"] = m.fresh("doublequote", INT)
    f["strict"] = m.fresh("strict", INT)
    P.assume(z3.And(f["strict"].term() >= 0, f["strict"].term() <= 1))
    f["return_quoted"] = CV(1 if fl else 0, INT)
    f["input_iter"] = CObj(m, "iter", refs=1)
    m.self = o
    return o


def fill(m, o, fields="list", buffer=None):
    """the members that parsing changes, arbitrary within the type invariant"""
    P, f = m.path, o.f
    if buffer == 1:
        f["field"], f["field_size"], f["field_len"] = NULL, CV(0, LONG), CV(0, LONG)
    else:
        size = m.fresh("field_size", LONG)
        null = P.fresh("null", z3.BoolSort())
        P.assume(z3.And(size.term() >= 0, (size.term() == 0) == null, size.term() * 4 <= LONG.hi()))
        b = Block(m, size.term() * 4, True)
        b.esize, b.ety, b.size = 4, UINT, size.term()
        n = m.fresh("field_len", LONG)
        b.inited = P.fresh("inited", I)
        P.assume(z3.And(n.term() >= 0, n.term() <= size.term(), n.term() <= b.inited, b.inited <= size.term()))
        P.assume(inr(b.arr, n.term(), Z(0), Z(MAXCHAR)))
        f["field"], f["field_size"], f["field_len"] = MaybeBuf(b, null), size, n
    f["quote_start"], f["quote_end"], f["state"] = m.fresh("quote_start", INT), m.fresh("quote_end", LONG), m.fresh("state", UINT)
    P.assume(inv_ints(o))
    if fields == "list":
        th = cells_theory(m)
        f["fields"] = CObj(m, "list", refs=1, seq=P.fresh("cells", th.sort))
    else:
        f["fields"] = NULL


def inv_ints(o):
    f = o.f
    n, s, e = f["field_len"].term(), f["quote_start"].term(), f["quote_end"].term()
    return z3.And(s >= 0, s <= 1, e >= 0, e <= n, z3.Implies(s == 1, n >= 1), f["state"].term() <= 8)


def inv_state(o):
    """inside quotes something was collected since the last closing quote"""
    f = o.f
    s = f["state"].term()
    return z3.And(z3.Implies(z3.Or([s == k for k in (grammar.QTD, grammar.QESC, grammar.QQ)]), f["quote_end"].term() < f["field_len"].term()),
                  z3.Implies(z3.Or(s == grammar.ESC, s == grammar.QESC), f["escapechar"].term() != 0))


def check_inv(m, o, fields=None, what="the parser stays well formed"):
    """type invariant"""
    f = o.f
    for n, ty in m.p.fields("ParserObj"):
        if ty.kind in ("int", "ptr") and f.get(n, UNINIT) is UNINIT:
            m.fail(what + " (%s initialised)" % n)
    for n in ("field_len", "field_size", "quote_start", "quote_end", "state"):
        if not isinstance(f[n], CV):
            m.fail(what)
    p, size, ln = f["field"], f["field_size"].term(), f["field_len"].term()
    if p is NULL:
        m.check(z3.And(size == 0, ln == 0), what)
    elif p is not UNINIT and isinstance(p, (BufPtr, MaybeBuf)) and p.block.alive and p.block.esize == 4 and (isinstance(p, MaybeBuf) or p.off == 0):
        b = p.block
        null = p.null if isinstance(p, MaybeBuf) else z3.BoolVal(False)
        m.check(z3.And(z3.Implies(z3.Not(null), size == b.size), size >= 0, (size == 0) == null, size * 4 <= LONG.hi(), ln >= 0, ln <= size), what + " (buffer size)")
        m.check(z3.And(ln <= b.inited, z3.Implies(z3.Not(null), b.inited <= b.size)), what + " (buffer initialised)")
        m.check(inr(b.arr, ln, Z(0), Z(MAXCHAR)), what + " (characters)")
    else:
        m.fail(what)
    m.check(inv_ints(o), what)
    m.check(z3.And(f["strict"].term() >= 0, f["strict"].term() <= 1, f["return_quoted"].term() >= 0, f["return_quoted"].term() <= 1,
                   f["delimiter"].term() <= MAXCHAR, f["quotechar"].term() <= MAXCHAR, f["escapechar"].term() <= MAXCHAR), what + " (settings)")
    fl = f["fields"]
    if fields == "list":
        if not (isinstance(fl, CObj) and fl.pykind == "list" and not fl.dead()):
            m.fail(what + " (row)")
    elif fl is not NULL and not (isinstance(fl, CObj) and fl.pykind == "list" and not fl.dead()):
        m.fail(what + " (row)")


def seq_eq(m, a, b, th):
    m.path.assume(th.ext(a, b))
    return a == b


def spec_cell(m, raw, opened, end, trail_quoted):
    """grammar.cell on terms: (text, quoted)"""
    n = STR.len(raw)
    inner = z3.If(n >= 2, STR.sub(raw, Z(1), n - 1), STR.empty)
    strip = z3.And(opened, end == n)
    tail = z3.And(trail_quoted, opened)
    txt = z3.If(strip, inner, z3.If(tail, STR.sub(raw, Z(1), n), raw))
    return txt, z3.Or(strip, tail)


def as_item(flags, txt, quoted):
    return CELL.cell(txt, quoted) if flags else txt


def expect_failed(m, ret, errs=()):
    """a failing call has an exception set; unless memory ran out or foreign code failed it is one of errs"""
    m.check(m.exc is not None, "every failure is reported as an exception")
    o = m.self if hasattr(m, "self") else None
    if m.exc is not None and m.exc[0] == "MemoryError" and "failed" not in m.ghost and o is not None and isinstance(o.f.get("field_size"), CV) \
            and m.path.decide(o.f["field_size"].term() * 8 > LONG.hi()):
        m.ghost["failed"] = "MemoryError"       # a buffer that cannot be doubled within the address space
    if m.exc is not None and "failed" not in m.ghost:
        m.check(m.exc[0] in errs, "only the documented errors are raised")


def cv(m, v):
    if not isinstance(v, CV):
        m.fail("the function returns a value")
    return v.term()


# ------------------------------------------------------------------ helpers with contracts
class SetBool(CContract):
    file, func = FILE, "_set_bool"

    def setup(self, m):
        self.box = [UNINIT]
        self.target = Ref(lambda: self.box[0], lambda v: self.box.__setitem__(0, m.assignconv(v, INT)), INT, "target", ("t",))
        self.src = NULL if m.path.choose(2) else CObj(m, "obj", borrowed=True, anon=True)
        self.dflt = m.fresh("dflt", INT)
        return [StrLit("name"), self.target, self.src, self.dflt]

    def post(self, m, ret):
        r = m.path.decide(cv(m, ret) == 0)
        if r:
            if self.box[0] is UNINIT:
                m.fail("the value is set")
            want = self.dflt.term() if self.src is NULL else z3.If(self.src.at["truth"], Z(1), Z(0)) if "truth" in self.src.at else None
            m.check(self.box[0].term() == want if want is not None else False, "the value is the truth of the argument, or the default")
            m.check(m.exc is None, "success leaves no exception")
        else:
            expect_failed(m, ret)
            m.check(cv(m, ret) < 0, "failure is a negative answer")
        m.exit_check(None)

    def apply(self, m, a):
        name, target, src, dflt = a
        if src is NULL:
            target.set(m.convert(dflt, INT))
            return CV(0, INT)
        m.live(src)
        if m.path.choose(2) == 1:
            m.raise_("exception", "environment")
            m.ghost["failed"] = "exception"
            r = m.fresh("ret", INT)
            m.path.assume(r.term() < 0)
            return r
        if "truth" not in src.at:
            src.at["truth"] = m.path.fresh("truth", z3.BoolSort())
        target.set(m.bval(src.at["truth"]))
        return CV(0, INT)


class SetLong(CContract):
    file, func = FILE, "_set_long"

    def setup(self, m):
        self.box = [UNINIT]
        self.target = Ref(lambda: self.box[0], lambda v: self.box.__setitem__(0, m.assignconv(v, LONG)), LONG, "target", ("t",))
        self.src = NULL if m.path.choose(2) else CObj(m, "obj", borrowed=True, anon=True)
        self.dflt = m.fresh("dflt", INT)
        return [StrLit("name"), self.target, self.src, self.dflt]

    @staticmethod
    def outcome(m, src):
        """None (TypeError), or (value, fits)"""
        from engine.capi import kind_known
        if "long" in src.at:
            return src.at["long"]
        if kind_known(m, src) == "int" and src.at["exact"]:
            v = src.at["value"]
            return v, m.path.decide(z3.And(v >= LONG.lo(), v <= LONG.hi()))
        return None

    def post(self, m, ret):
        ok = m.path.decide(cv(m, ret) == 0)
        if self.src is NULL:
            m.check(ok, "a missing argument is accepted")
            m.check(self.box[0].term() == self.dflt.term() if isinstance(self.box[0], CV) else False, "a missing argument sets the default")
            return m.exit_check(None)
        want = self.outcome(m, self.src)
        m.check(ok == (want is not None and want[1]), "exactly integers that fit are accepted")
        if ok:
            m.check(self.box[0].term() == want[0] if isinstance(self.box[0], CV) else False, "the value is the given integer")
            m.check(m.exc is None, "success leaves no exception")
        else:
            expect_failed(m, ret, ("TypeError", "OverflowError"))
            m.check(cv(m, ret) < 0, "failure is a negative answer")
        m.exit_check(None)

    def apply(self, m, a):
        name, target, src, dflt = a
        if src is NULL:
            target.set(m.convert(dflt, LONG))
            return CV(0, INT)
        m.live(src)
        if src.pykind == "obj" and "is" not in src.at and "long" not in src.at:
            # the value of the object as an integer, whatever it is
            src.at["long"] = [(m.fresh("value", LONG).term(), True), None, (Z(0), False)][m.path.choose(3)]
        w = self.outcome(m, src)
        if w is None or not w[1]:
            m.raise_("TypeError" if w is None else "OverflowError")
            r = m.fresh("ret", INT)
            m.path.assume(r.term() < 0)
            return r
        target.set(CV(w[0], LONG))
        return CV(0, INT)


class SetChar(CContract):
    file, func = FILE, "_set_char"

    def __init__(self, file=FILE):
        self.file = file

    def setup(self, m):
        self.box = [UNINIT]
        self.target = Ref(lambda: self.box[0], lambda v: self.box.__setitem__(0, m.assignconv(v, UINT)), UINT, "target", ("t",))
        self.src = NULL if m.path.choose(2) else CObj(m, "obj", borrowed=True, anon=True)
        self.dflt = m.fresh("dflt", UINT)
        m.path.assume(self.dflt.term() <= MAXCHAR)
        return [StrLit("name"), self.target, self.src, self.dflt]

    @staticmethod
    def outcome(m, src):
        """None (TypeError) or the character (0: none)"""
        from engine.capi import kind_known
        if "char" in src.at:
            return src.at["char"]
        if src.at.get("is") == "Py_None" or src.at.get("name") == "Py_None":
            return Z(0)
        if kind_known(m, src) != "str":
            return None
        s = src.at["s"]
        if m.path.decide(STR.len(s) > 1):
            return None
        if m.path.decide(STR.len(s) == 0):
            return Z(0)
        c = STR.at(s, 0)
        m.path.assume(z3.And(c >= 0, c <= MAXCHAR))
        return c

    def post(self, m, ret):
        ok = m.path.decide(cv(m, ret) == 0)
        if self.src is NULL:
            m.check(ok, "a missing argument is accepted")
            m.check(self.box[0].term() == self.dflt.term() if isinstance(self.box[0], CV) else False, "a missing argument sets the default")
            return m.exit_check(None)
        want = self.outcome(m, self.src)
        m.check(ok == (want is not None), "exactly None and strings of at most one character are accepted")
        if ok:
            m.check(self.box[0].term() == want if isinstance(self.box[0], CV) else False, "the character is that of the string, or none")
            m.check(m.exc is None, "success leaves no exception")
        else:
            expect_failed(m, ret, ("TypeError",))
            m.check(cv(m, ret) < 0, "failure is a negative answer")
        m.exit_check(None)

    def apply(self, m, a):
        name, target, src, dflt = a
        if src is NULL:
            target.set(m.convert(dflt, UINT))
            return CV(0, INT)
        m.live(src)
        if src.pykind == "obj" and "is" not in src.at and "char" not in src.at:
            # the character the object stands for, or none if it is no string of at most one character
            c = m.fresh("char", UINT).term()
            m.path.assume(c <= MAXCHAR)
            src.at["char"] = c if m.path.choose(2) == 0 else None
        w = self.outcome(m, src)
        if w is None:
            m.raise_("TypeError")
            r = m.fresh("ret", INT)
            m.path.assume(r.term() < 0)
            return r
        target.set(CV(w, UINT))
        return CV(0, INT)


class SaveField(CContract):
    """the collected characters become one cell, without the quotes that enclose them"""
    file, func = FILE, "parse_save_field"

    def setup(self, m):
        o = new_self(m)
        self.pre = View(m, o)
        self.trailing = m.fresh("trailing", INT)
        m.path.assume(z3.Implies(self.trailing.term() != 0, inv_state(o)))
        return [o, self.trailing]

    @staticmethod
    def spec(m, v, trailing):
        th = cells_theory(m)
        txt, quoted = spec_cell(m, v.raw, v.start != 0, v.end, z3.And(trailing != 0, v.state == grammar.QTD))
        return th.cat(v.cells, th.unit(as_item(m.ghost_hook["flags"], txt, quoted)))

    def post(self, m, ret):
        o, pre = m.self, self.pre
        check_inv(m, o, "list")
        m.exit_check(None)
        now = View(m, o)
        m.check(z3.And(now.same(pre), now.state == pre.state), "nothing else changes")
        if m.path.decide(cv(m, ret) < 0):
            expect_failed(m, ret)
            return
        m.check(m.exc is None, "success leaves no exception")
        th = cells_theory(m)
        want = self.spec(m, pre, self.trailing.term())
        txt, quoted = spec_cell(m, pre.raw, pre.start != 0, pre.end, z3.And(self.trailing.term() != 0, pre.state == grammar.QTD))
        cells = now.cells
        last = th.at(cells, th.len(cells) - 1)
        m.check(now.fields is pre.fields and th.len(cells) == th.len(pre.cells) + 1, "exactly one cell is added")
        got = CELL.txt(last) if m.ghost_hook["flags"] else last
        m.path.assume(STR.ext(got, txt))
        m.check(got == txt, "the cell is the collected text without its enclosing quotes")
        if m.ghost_hook["flags"]:
            m.check(CELL.quoted(last) == quoted, "the cell is flagged exactly when it was quoted")
        m.check(seq_eq(m, cells, want, th), "earlier cells stay as they were")
        m.check(z3.And(now.len == 0, now.start == 0, now.end == 0), "the next cell starts empty")

    def apply(self, m, a):
        o, trailing = a
        pre = View(m, o)
        if pre.cells is None:
            m.fail("a cell is saved only while a row is open")
        check_inv(m, o, "list", "precondition of parse_save_field")
        m.check(z3.Implies(trailing.term() != 0, inv_state(o)), "precondition of parse_save_field")
        if m.path.choose(2) == 1:
            m.raise_("MemoryError", "environment")
            m.ghost["failed"] = "MemoryError"
            for n in ("field_len", "quote_start", "quote_end"):
                o.f[n] = m.fresh(n, LONG if n != "quote_start" else INT)
            ln = o.f["field_len"].term()
            m.path.assume(z3.And(ln >= 0, ln <= pre.len, inv_ints(o)))
            if isinstance(o.f["field"], (BufPtr, MaybeBuf)):
                m.path.assume(inr(o.f["field"].block.arr, ln, Z(0), Z(MAXCHAR)))
            if isinstance(pre.fields, CObj):
                pre.fields.at["seq"] = m.path.fresh("cells", cells_theory(m).sort)
            r = m.fresh("ret", INT)
            m.path.assume(r.term() < 0)
            return r
        pre.fields.at["seq"] = self.spec(m, pre, trailing.term())
        o.f["field_len"], o.f["quote_end"], o.f["quote_start"] = CV(0, LONG), CV(0, LONG), CV(0, INT)
        r = m.fresh("ret", INT)
        m.path.assume(r.term() >= 0)
        return r


class AddChar(CContract):
    """one more character is collected, unless that exceeds the limit"""
    file, func = FILE, "parse_add_char"

    def setup(self, m):
        o = new_self(m)
        self.pre = View(m, o)
        self.c = m.fresh("c", UINT)
        m.path.assume(self.c.term() <= MAXCHAR)
        return [o, self.c]

    def post(self, m, ret):
        o, pre = m.self, self.pre
        check_inv(m, o, "list")
        m.exit_check(None)
        now = View(m, o)
        m.check(z3.And(now.same(pre), now.state == pre.state, now.start == pre.start, now.end == pre.end), "nothing else changes")
        m.check(now.fields is pre.fields and now.cells is pre.cells, "the row is not touched")
        over = pre.len >= pre.limit
        if m.path.decide(cv(m, ret) < 0):
            if m.exc and m.exc[0] == "MemoryError" and "failed" not in m.ghost:
                # a buffer that cannot be doubled within the address space
                m.check(pre.len * 8 > LONG.hi(), "memory is reported as exhausted only when it is")
                m.ghost["failed"] = "MemoryError"
            expect_failed(m, ret, ("Error",))
            if "failed" not in m.ghost:
                m.check(over, "collecting fails for size only beyond the limit")
            m.check(z3.And(now.len == pre.len, seq_eq(m, now.raw, pre.raw, STR)), "a failed call changes nothing")
            return
        m.check(m.exc is None, "success leaves no exception")
        m.check(z3.Not(over), "no more characters than the limit are collected")
        want = STR.cat(pre.raw, STR.unit(self.c.term()))
        m.check(now.len == pre.len + 1, "one character is appended")
        m.check(seq_eq(m, now.raw, want, STR), "exactly that character is appended")

    def apply(self, m, a):
        o, c = a
        pre = View(m, o)
        check_inv(m, o, None, "precondition of parse_add_char")
        c = m.convert(c, UINT)
        m.check(c.term() <= MAXCHAR, "only characters are collected")
        if m.path.decide(pre.len >= pre.limit):
            m.raise_("Error")
            r = m.fresh("ret", INT)
            m.path.assume(r.term() < 0)
            return r
        if m.path.choose(2) == 1:
            m.raise_("MemoryError", "environment")
            m.ghost["failed"] = "MemoryError"
            r = m.fresh("ret", INT)
            m.path.assume(r.term() < 0)
            return r
        n = pre.len
        size = m.fresh("field_size", LONG)
        if isinstance(o.f["field"], (BufPtr, MaybeBuf)):
            o.f["field"].block.alive = False
        b = Block(m, size.term() * 4, True)
        b.esize, b.ety, b.size = 4, UINT, size.term()
        b.inited = m.path.fresh("inited", I)
        m.path.assume(z3.And(n + 1 <= size.term(), size.term() * 4 <= LONG.hi(), b.inited >= n + 1, b.inited <= size.term(),
                             of_array(b.arr, n + 1) == STR.cat(pre.raw, STR.unit(c.term())), inr(b.arr, n + 1, Z(0), Z(MAXCHAR))))
        o.f["field"], o.f["field_size"], o.f["field_len"] = BufPtr(b, 0), size, CV(n + 1, LONG)
        r = m.fresh("ret", INT)
        m.path.assume(r.term() >= 0)
        return r


def grammar_step(m, v, u, w):
    """(kind, mode, raw, opened, closed, cells) of one grammar step from the parser's view"""
    T = m.path.decide
    mode = next(k for k in range(9) if k == 8 or T(v.state == k))
    missing = lambda c: z3.If(c == 0, Z(-1), c)
    o = grammar.step(mode, u, w, missing(v.d), missing(v.q), missing(v.e), v.strict != 0, truth=T)
    if o.error:
        return "error", o.error
    raw, n = v.raw, v.len
    for c in o.add:
        if T(n >= v.limit):
            return "error", "limit"
        raw, n = STR.cat(raw, STR.unit(c if z3.is_expr(c) else Z(c))), n + 1
    start = z3.BoolVal(True) if o.open else v.start != 0
    end = n if o.close else v.end
    cells = v.cells
    if o.save:
        th = cells_theory(m)
        txt, quoted = spec_cell(m, raw, start, end, z3.BoolVal(False))
        cells = th.cat(cells, th.unit(as_item(m.ghost_hook["flags"], txt, quoted)))
        raw, n, start, end = STR.empty, Z(0), z3.BoolVal(False), Z(0)
    return "ok", Z(o.mode), raw, n, start, end, cells


class ProcessChar(CContract):
    """one character follows the grammar step"""
    file, func = FILE, "parse_process_char"
    contracts = {"parse_save_field": SaveField(), "parse_add_char": AddChar()}
    budget = 400

    def setup(self, m):
        o = new_self(m)
        self.pre = View(m, o)
        self.u, self.v = m.fresh("u", UINT), m.fresh("v", UINT)
        m.path.assume(z3.And(self.u.term() <= MAXCHAR, self.v.term() <= MAXCHAR))
        m.path.assume(inv_state(o))
        # in a doubled quote the character is that quote: it was the lookahead of the step before
        m.path.assume(z3.Implies(self.pre.state == grammar.QQ, z3.And(self.u.term() == self.pre.q, self.u.term() != 0)))
        return [o, self.u, self.v]

    def post(self, m, ret):
        o, pre = m.self, self.pre
        failed = m.path.decide(cv(m, ret) < 0)
        check_inv(m, o, "list")
        m.exit_check(None)
        if failed:
            expect_failed(m, ret, ("Error",))
            if "failed" in m.ghost:
                return
        else:
            m.check(inv_state(o), "the parser stays well formed (inside quotes)")
        w = grammar_step(m, pre, self.u.term(), self.v.term())
        if w[0] == "error":
            m.check(failed, "collecting beyond the limit is an error" if w[1] == "limit" else "what the grammar refuses is an error")
            return
        m.check(not failed, "nothing else is an error")
        if failed:
            return
        m.check(m.exc is None, "success leaves no exception")
        now = View(m, o)
        _, mode, raw, n, start, end, cells = w
        m.check(now.same(pre), "the settings do not change")
        m.check(z3.Implies(now.state == grammar.QQ, z3.And(self.v.term() == pre.q, pre.q != 0)), "a doubled quote is entered only on a following quote")
        m.check(now.state == mode, "the next state follows the grammar")
        m.check(now.len == n, "as many characters are collected as the grammar says")
        m.check(seq_eq(m, now.raw, raw, STR), "the collected text follows the grammar")
        m.check(z3.And((now.start != 0) == start, now.end == end), "opening and closing quotes are noted as the grammar says")
        th = cells_theory(m)
        m.check(now.fields is pre.fields and seq_eq(m, now.cells, cells, th), "cells are completed exactly where the grammar says")

    # as seen by Parser_iternext: an uninterpreted step, the same one for every character
    def apply(self, m, a):
        o, u, v = a
        u, v = m.convert(u, UINT), m.convert(v, UINT)
        check_inv(m, o, "list", "precondition of parse_process_char")
        m.check(inv_state(o), "precondition of parse_process_char")
        m.check(z3.And(u.term() <= MAXCHAR, v.term() <= MAXCHAR), "only characters are parsed")
        pre = View(m, o)
        m.check(z3.Implies(pre.state == grammar.QQ, z3.And(u.term() == pre.q, u.term() != 0)), "the second of two quotes follows the first")
        ps = pstate(m, pre)
        T = theory(m)
        k = m.path.choose(3)
        if k == 1:
            m.raise_("MemoryError", "environment")
            m.ghost["failed"] = "MemoryError"
        elif k == 2:
            m.path.assume(T.err(ps, u.term(), v.term()))
            m.raise_("Error")
            m.ghost["step_error"] = True
        if isinstance(o.f["field"], (BufPtr, MaybeBuf)):
            o.f["field"].block.alive = False
        fields = o.f["fields"]
        fill(m, o, "list")
        new = o.f["fields"]
        m.objs.remove(new)
        fields.at["seq"] = new.at["seq"]
        o.f["fields"] = fields
        o.f["doublequote"] = m.fresh("doublequote", INT)
        r = m.fresh("ret", INT)
        if k:
            m.path.assume(r.term() < 0)
            return r
        m.path.assume(inv_state(o))
        m.path.assume(z3.Implies(o.f["state"].term() == grammar.QQ, z3.And(v.term() == pre.q, pre.q != 0)))
        m.path.assume(z3.And(r.term() >= 0, z3.Not(T.err(ps, u.term(), v.term()))))
        m.path.assume(pstate(m, View(m, o)) == T.step(ps, u.term(), v.term()))
        return r


class Theory:
    def __init__(self, name, th):
        d = z3.Datatype("PState" + name)
        d.declare("mk", ("mode", I), ("raw", STR.sort), ("opened", z3.BoolSort()), ("closed", I), ("cells", th.sort))
        self.S = S = d.create()
        self.th = th
        self.step = z3.Function("step" + name, S, I, I, S)
        self.err = z3.Function("step_error" + name, S, I, I, z3.BoolSort())
        self.pos = z3.Function("state_at" + name, I, I, S)        # after i characters of line j
        self.init = S.mk(Z(0), STR.empty, z3.BoolVal(False), Z(0), th.empty)


THEORIES = {False: Theory("_plain", ROW), True: Theory("_flags", CROW)}


def theory(m):
    return THEORIES[m.ghost_hook["flags"]]


def pstate(m, v):
    return theory(m).S.mk(v.state, v.raw, v.start != 0, v.end, v.cells)


PARSER_CONTRACTS = {"parse_save_field": SaveField(), "parse_process_char": ProcessChar()}


def parser_templates(m, entry, o):
    """loop invariants about the parser object"""
    out = [("the parser is well formed", lambda m2: loop_inv(m2, o)),
           ("no doubled quote is open", lambda m2: o.f["state"].term() != grammar.QQ)]
    for loc, v in entry.items():
        if loc[0] == "L" and (v is UNINIT or isinstance(v, CV)):
            def qq(m2, loc=loc):
                y = m2.frames[loc[1]]["scopes"][loc[2]][loc[3]][1]
                if not isinstance(y, CV):
                    return None
                return z3.Or(o.f["state"].term() != grammar.QQ, z3.And(y.term() == o.f["quotechar"].term(), y.term() != 0))
            out.append(("a doubled quote is open only before %s" % loc[3], qq))
    if "line" in m.ghost_hook:
        j, s = m.ghost_hook["line"]
        for loc, v in entry.items():
            if loc[0] == "L" and isinstance(v, CV) and v.ty.signed:
                for l2, v2 in entry.items():
                    if l2[0] == "L" and isinstance(v2, (CV, type(UNINIT))) and l2 != loc:
                        def look(m2, loc=loc, l2=l2):
                            x = m2.frames[loc[1]]["scopes"][loc[2]][loc[3]][1]
                            y = m2.frames[l2[1]]["scopes"][l2[2]][l2[3]][1]
                            if not isinstance(x, CV) or not isinstance(y, CV) or y.ty.signed:
                                return None
                            x, y = x.term(), y.term()
                            return z3.Or(z3.And(x == 0, y == 0), z3.And(x > 0, y == z3.If(x < STR.len(s), STR.at(s, x), Z(0))))
                        out.append(("%s looks ahead of %s" % (l2[3], loc[3]), look))
        for loc, v in entry.items():
            if loc[0] == "L" and isinstance(v, CV) and v.ty.signed:
                def qat(m2, loc=loc):
                    x = m2.frames[loc[1]]["scopes"][loc[2]][loc[3]][1]
                    if not isinstance(x, CV):
                        return None
                    x, q = x.term(), o.f["quotechar"].term()
                    return z3.Or(o.f["state"].term() != grammar.QQ, z3.And(x >= 0, x < STR.len(s), STR.at(s, x) == q, q != 0))
                out.append(("a doubled quote is open only before character %s" % loc[3], qat))
    for loc, v in entry.items():
        if loc[0] == "L" and (v is UNINIT or isinstance(v, CV)):
            def ch(m2, loc=loc):
                y = m2.frames[loc[1]]["scopes"][loc[2]][loc[3]][1]
                return y.term() <= MAXCHAR if isinstance(y, CV) and y.ty.bits == 32 else None
            out.append(("%s is a character" % loc[3], ch))
    return out


def loop_inv(m, o):
    f = o.f
    p = f["field"]
    for n in ("field_len", "field_size", "quote_start", "quote_end", "state"):
        if not isinstance(f[n], CV):
            return None
    ln = f["field_len"].term()
    if p is NULL:
        c = z3.And(f["field_size"].term() == 0, ln == 0)
    elif isinstance(p, (BufPtr, MaybeBuf)) and p.block.alive and p.block.esize == 4:
        b = p.block
        sz = f["field_size"].term()
        null = p.null if isinstance(p, MaybeBuf) else z3.BoolVal(False)
        c = z3.And(z3.Implies(z3.Not(null), z3.And(sz == b.size, b.inited <= b.size)), sz >= 0, (sz == 0) == null, sz * 4 <= LONG.hi(), ln >= 0, ln <= sz, ln <= b.inited, inr(b.arr, ln, Z(0), Z(MAXCHAR)))
    else:
        return None
    return z3.And(c, inv_ints(o), inv_state(o))


def rest_inv(o):
    """the parser between two calls, when a row is still held"""
    return z3.And(inv_state(o), o.f["state"].term() != grammar.QQ)


class IterNextSafe(CContract):
    """memory safety and reference counting of one call of next(), for every iterator, also one that uses the parser itself,
    and for lines whose destructors do"""
    file, func = FILE, "Parser_iternext"
    contracts = PARSER_CONTRACTS
    budget = 500

    def __init__(self, flags):
        self.flags = flags
        self.label = "cparser.c:Parser_iternext (any iterator, re-entrant, return_quoted=%d)" % flags

    def setup(self, m):
        kind = m.path.choose(2)
        o = new_self(m, "list" if kind == 0 else "none", flags=self.flags)
        if kind == 0:
            m.path.assume(rest_inv(o))
            if m.path.choose(2) == 1:
                m.objs.remove(o.f["input_iter"])
                o.f["input_iter"] = NULL
        m.ghost_hook["foreign"] = lambda m2: self.reenter(m2, o)
        m.ghost_hook["destroy"] = lambda m2: self.reenter(m2, o)
        return [o]

    def templates(self, m, entry):
        return parser_templates(m, entry, m.self)

    def reenter(self, m, o):
        """foreign code may call the parser: its parsing state is arbitrary afterwards"""
        if not isinstance(o.f["fields"], CObj) and o.f["fields"] is not NULL:
            m.fail("the parser stays well formed (row)")
        check_inv(m, o, None, "the parser is well formed when foreign code runs")
        k = m.path.choose(3)
        if k == 0:
            return
        if isinstance(o.f["field"], (BufPtr, MaybeBuf)):
            o.f["field"].block.alive = False
        if isinstance(o.f["fields"], CObj):
            o.f["fields"].refs -= 1
        if k == 1:
            fill(m, o, "list")
            m.path.assume(rest_inv(o))
        else:
            fill(m, o, "none")
        o.f["doublequote"] = m.fresh("doublequote", INT)

    def post(self, m, ret):
        o = m.self
        check_inv(m, o, None)
        if o.f["fields"] is not NULL:
            m.check(rest_inv(o), "the parser stays well formed (inside quotes)")
        m.exit_check(ret if isinstance(ret, CObj) else None)
        if ret is NULL:
            return
        m.check(isinstance(ret, CObj) and ret.pykind == "list", "next() returns a row or nothing")
        m.check(m.exc is None, "success leaves no exception")


class IterNext(CContract):
    """one call of next() reads exactly one row of the grammar and consumes exactly its lines"""
    file, func = FILE, "Parser_iternext"
    label = "cparser.c:Parser_iternext (rows follow the grammar)"
    contracts = PARSER_CONTRACTS
    budget = 500

    def setup(self, m):
        o = new_self(m, "list" if m.path.choose(2) == 0 else "none")
        P = m.path
        self.L = L = P.fresh("lines", ROW.sort)
        self.n = ROW.len(L)
        self.j0 = P.fresh("j0", I)
        P.assume(z3.And(self.j0 >= 0, self.j0 <= self.n))
        m.ghost["j"] = self.j0
        m.ghost_hook["next"] = lambda m2, it: self.next_line(m2, it)
        m.ghost_hook["error"] = lambda m2: m2.ghost_hook.__setitem__("ints", [c[1].term() for sc in m2.frames[-1]["scopes"] for c in sc.values()
                                                                               if isinstance(c[1], CV) and c[1].ty.bits == 64])
        self.o = o
        self.cfg = View(m, o)
        T = theory(m)
        P.assume(T.pos(self.j0, 0) == T.init)
        return [o]

    def next_line(self, m, it):
        m.check(it is self.o.f["input_iter"], "lines come from the parser's iterator")
        j = m.ghost["j"]
        k = m.path.choose(4)
        T = theory(m)
        m.ghost_hook["last"] = k
        if k == 0:
            m.path.assume(j == self.n)
            return NULL
        if k == 1:
            m.raise_("exception", "environment")
            m.ghost["failed"] = "exception"
            return NULL
        if k == 2:
            m.path.assume(j < self.n)
            s = ROW.at(self.L, j)
            m.ghost["j"] = j + 1
            o = CObj(m, "str", refs=1, s=s)
            o.at["line"] = j
            # the grammar over this line: definition of state_at, and the end of the line
            m.path.assume(z3.And(STR.len(s) >= 0, T.pos(j + 1, 0) == T.step(T.pos(j, STR.len(s)), Z(0), Z(0))))
            m.ghost_hook["line"] = (j, s)
            return o
        m.ghost["nonstr"] = True
        return CObj(m, "nonstr", refs=1)

    def axioms(self):
        return []

    def unfold(self, m, i):
        """state_at(j, i+1) by definition"""
        j, s = m.ghost_hook["line"]
        T = theory(m)
        look = z3.If(i + 1 < STR.len(s), STR.at(s, i + 1), Z(0))
        m.path.assume(z3.Implies(z3.And(i >= 0, i < STR.len(s)), T.pos(j, i + 1) == T.step(T.pos(j, i), STR.at(s, i), look)))

    def templates(self, m, entry):
        T = theory(m)
        out = []
        o = self.o

        def ps(m2):
            v = View(m2, o)
            return pstate(m2, v) if v.cells is not None else None
        out.append(("parser at the start of line j", lambda m2: None if ps(m2) is None else ps(m2) == T.pos(m2.ghost["j"], 0)))
        out.append(("no row ends before line j", lambda m2: z3.Or(m2.ghost["j"] == self.j0, T.S.mode(T.pos(m2.ghost["j"], 0)) != grammar.REC)))
        out.append(("j in range", lambda m2: z3.And(m2.ghost["j"] >= self.j0, m2.ghost["j"] <= self.n)))
        out.append(("the parser keeps its settings", lambda m2: View(m2, o).same(self.cfg)))
        out += parser_templates(m, entry, o)
        if "line" in m.ghost_hook:
            j, s = m.ghost_hook["line"]
            for loc, v in entry.items():
                if loc[0] == "L" and isinstance(v, CV) and v.ty.signed:
                    def at(m2, loc=loc):
                        x = m2.frames[loc[1]]["scopes"][loc[2]][loc[3]][1]
                        return x.term() if isinstance(x, CV) else None

                    def rel(m2, loc=loc):
                        x = at(m2, loc)
                        if x is None or ps(m2) is None:
                            return None
                        self.unfold(m2, x - 1)
                        return ps(m2) == T.pos(j, x)
                    out.append(("parser at character %s of the line" % loc[3], rel))
        return out

    def post(self, m, ret):
        o = m.self
        P, T = m.path, theory(m)
        check_inv(m, o, None)
        m.exit_check(ret if isinstance(ret, CObj) else None)
        j = m.ghost["j"]
        here = T.pos(j, 0)
        strict = self.cfg.strict != 0
        if isinstance(ret, CObj):
            m.check(m.exc is None, "success leaves no exception")
            seq = ret.at.get("seq")
            m.check(o.f["fields"] is NULL, "the row is handed over")
            if m.ghost_hook.get("last") == 0:
                # end of the input inside a row
                m.check(z3.And(z3.Not(strict), T.S.mode(here) != grammar.REC), "a row is completed at the end of the input only when it was open and the parser is not strict")
                raw, st, en = T.S.raw(here), T.S.opened(here), T.S.closed(here)
                txt, quoted = spec_cell(m, raw, st, en, T.S.mode(here) == grammar.QTD)
                want = T.th.cat(T.S.cells(here), T.th.unit(as_item(m.ghost_hook["flags"], txt, quoted)))
                m.check(seq_eq(m, seq, want, T.th), "the open row is completed with the text collected so far")
            else:
                m.check(z3.And(j > self.j0, T.S.mode(here) == grammar.REC), "a row ends only where the grammar says")
                m.check(seq_eq(m, seq, T.S.cells(here), T.th), "the row returned is the row of the grammar")
            return
        m.check(ret is NULL, "next() returns a row or nothing")
        if m.exc is None:
            m.check(z3.And(z3.BoolVal(m.ghost_hook.get("last") == 0), j == self.n, T.S.mode(here) == grammar.REC), "iteration stops only at the end of the input outside a row")
            return
        if "failed" in m.ghost:
            return
        if m.ghost.get("nonstr"):
            m.check(m.exc[0] == "Error", "a line that is no string is an error")
            return
        if m.ghost.get("step_error"):
            m.check(m.exc[0] == "Error", "grammar errors are reported as the package's Error")
            return
        if m.ghost_hook.get("last") == 0:
            m.check(z3.And(strict, T.S.mode(here) != grammar.REC), "an unfinished row is an error exactly in strict mode")
            m.check(m.exc[0] == "Error", "an unfinished row is reported as the package's Error")
            return
        # the only other error: a NUL character in the line
        ints = m.ghost_hook.get("ints", [])
        if "line" not in m.ghost_hook or not ints:
            m.fail("the only other error is a NUL character")
        line = m.ghost_hook["line"][1]
        m.check(z3.Or([z3.And(x >= 0, x < STR.len(line), STR.at(line, x) == 0) for x in ints]), "the only other error is a NUL character")
        m.check(m.exc[0] == "Error", "a NUL character is reported as the package's Error")


# ------------------------------------------------------------------ construction, destruction, module
ARGDEFAULTS = {"delimiter": ord(","), "quotechar": 0, "escapechar": 0, "field_limit": 128 * 1024, "strict": 0, "return_quoted": 0}


class ParserNew(CContract):
    """Parser(): the settings are the arguments or their defaults, parsing starts at a record, invalid arguments are refused"""
    file, func = FILE, "cparser_parser"
    contracts = {"_set_char": SetChar(), "_set_long": SetLong(), "_set_bool": SetBool()}

    def setup(self, m):
        if {n for n, _ in m.p.fields("ParserObj")} != MEMBERS:
            raise Unsupported("the members of the parser object are not the known ones")
        m.ghost_hook["flags"] = False
        m.ghost_hook["empty_seq"] = ROW.empty
        return [CObj(m, "module", borrowed=True), Opaque("args"), Opaque("kwargs")]

    def post(self, m, ret):
        given = m.ghost_hook.get("given")
        if ret is NULL:
            m.exit_check(None)
            if "failed" in m.ghost:
                m.check(m.exc is not None, "every failure is reported as an exception")
                return
            expect_failed(m, ret, ("TypeError", "OverflowError"))
            if given is None:
                return
            bad = False
            for n in ("delimiter", "quotechar", "escapechar"):
                bad = bad or (given.get(n) is not None and SetChar.outcome(m, given[n]) is None)
            lim = given.get("field_limit")
            if not bad and lim is not None:
                w = SetLong.outcome(m, lim)
                bad = w is None or not w[1]
            m.check(bad, "only invalid settings are refused")
            return
        if not isinstance(ret, SObj) or ret.pykind != "ParserObj":
            m.fail("a parser or nothing is returned")
        m.check(m.exc is None, "success leaves no exception")
        check_inv(m, ret, "list")
        m.exit_check(ret)
        m.check(getattr(ret, "tracked", False), "the garbage collector knows the parser")
        f = ret.f
        if set(given) != {"csvfile"} | set(ARGDEFAULTS):
            m.fail("the parser takes its documented arguments")
        it = f["input_iter"]
        m.check(isinstance(it, CObj) and it.pykind == "iter" and it.at.get("of") is given["csvfile"], "lines come from the given iterable")
        v = View(m, ret)
        m.check(z3.And(v.state == grammar.REC, v.len == 0, v.start == 0, v.end == 0, ROW.len(v.cells) == 0), "parsing starts at a record")
        for n in ("delimiter", "quotechar", "escapechar"):
            o = given[n]
            want = Z(ARGDEFAULTS[n]) if o is None else SetChar.outcome(m, o)
            if want is None:
                m.fail("invalid settings are refused")
            m.check(f[n].term() == want, "%s is the one given" % n)
        lim = given["field_limit"]
        w = (Z(ARGDEFAULTS["field_limit"]), True) if lim is None else SetLong.outcome(m, lim)
        if w is None or not w[1]:
            m.fail("invalid settings are refused")
        m.check(f["field_limit"].term() == w[0], "the field limit is the one given")
        for n in ("strict", "return_quoted"):
            o = given[n]
            if o is not None and "truth" not in o.at:
                m.fail("%s is the one given" % n)
            m.check((f[n].term() != 0) == (z3.BoolVal(False) if o is None else o.at["truth"]), "%s is the one given" % n)


class Dealloc(CContract):
    """the deallocator releases everything the parser owns, once, also of a parser whose construction failed"""
    file, func = FILE, "Parser_dealloc"

    def setup(self, m):
        o = new_self(m, ("list", "none")[m.path.choose(2)], flags=False)
        if m.path.choose(2) == 1:
            m.objs.remove(o.f["input_iter"])
            o.f["input_iter"] = NULL
        o.tracked = m.path.choose(2) == 1
        if m.path.choose(2) == 1:
            for n, ty in m.p.fields("ParserObj"):
                if ty.kind == "int":
                    o.f[n] = UNINIT
        self.owned = [o.f["input_iter"], o.f["fields"]]
        return [o]

    def post(self, m, ret):
        o = m.self
        m.check(getattr(o, "gone", False), "the memory of the parser is released")
        o.borrowed = False
        m.check(o.refs == 0, "the parser is not kept alive")
        m.exit_check(None)


class Clear(CContract):
    """breaking cycles drops the references and leaves a parser that can still be used and destroyed"""
    file, func = FILE, "Parser_clear"

    def setup(self, m):
        o = new_self(m, ("list", "none")[m.path.choose(2)], flags=False)
        if m.path.choose(2) == 1:
            m.objs.remove(o.f["input_iter"])
            o.f["input_iter"] = NULL
        return [o]

    def post(self, m, ret):
        o = m.self
        check_inv(m, o, None)
        m.check(z3.And(z3.BoolVal(o.f["input_iter"] is NULL and o.f["fields"] is NULL), cv(m, ret) == 0), "both references are dropped")
        m.exit_check(None)


class Traverse(CContract):
    """the garbage collector is shown every reference the parser owns, once"""
    file, func = FILE, "Parser_traverse"

    def setup(self, m):
        o = new_self(m, ("list", "none")[m.path.choose(2)], flags=False)
        if m.path.choose(2) == 1:
            m.objs.remove(o.f["input_iter"])
            o.f["input_iter"] = NULL
        return [o, FnOpaque("visitproc"), Opaque("arg")]

    def post(self, m, ret):
        o = m.self
        vis = m.ghost_hook.get("visited", [])
        own = [v for n, v in o.f.items() if isinstance(v, CObj)]
        seen = [v for v, r in vis]
        m.check(all(v in own for v in seen) and len(set(id(v) for v in seen)) == len(seen), "only owned references are shown, once each")
        for v, r in vis[:-1]:
            m.check(r.term() == 0, "a refusal ends the visit")
        r = cv(m, ret)
        if len(seen) == len(own):
            m.check(r == (vis[-1][1].term() if vis else 0), "the answer of the visitor is passed on")
        else:
            m.check(z3.And(r != 0, r == vis[-1][1].term()) if vis else False, "every owned reference is shown unless the visitor refuses")
        m.exit_check(None)


def FnOpaque(name):
    return Opaque(name)


class ModState(CContract):
    file = FILE

    def setup(self, m):
        from engine.capi import State
        mod = CObj(m, "module", refs=1, borrowed=True)
        st = State(m)
        m.objs.remove(st.f["error_obj"])
        st.f["error_obj"] = CObj(m, "exc", refs=1, name="Error") if m.path.choose(2) == 0 else NULL
        m.gvars["module state"] = st
        self.st, self.err = st, st.f["error_obj"]
        self.mod = mod
        mod.refs = 0
        return self.args(m, mod)


class ModClear(ModState):
    """the module's references are dropped once"""
    func = "_cparser_clear"

    def args(self, m, mod):
        return [mod]

    def post(self, m, ret):
        m.check(self.st.f["error_obj"] is NULL, "the reference is dropped")
        m.check(self.err is NULL or self.err.refs == 0, "every reference acquired is released or handed over")
        if self.func == "_cparser_clear":
            m.check(cv(m, ret) == 0, "clearing succeeds")


class ModFree(ModClear):
    func = "_cparser_free"


class ModTraverse(ModState):
    """the garbage collector is shown the module's reference"""
    func = "_cparser_traverse"

    def args(self, m, mod):
        return [mod, FnOpaque("visitproc"), Opaque("arg")]

    def post(self, m, ret):
        vis = m.ghost_hook.get("visited", [])
        m.check([v for v, r in vis] == ([self.err] if self.err is not NULL else []), "every owned reference is shown once")
        m.check(cv(m, ret) == (vis[0][1].term() if vis else 0), "the answer of the visitor is passed on")


class PyInit(CContract):
    """the module is complete or its creation fails with an exception, without leaks"""

    def __init__(self, file, func):
        self.file, self.func = file, func

    def setup(self, m):
        return []

    def post(self, m, ret):
        if ret is NULL:
            m.check(m.exc is not None, "every failure is reported as an exception")
        else:
            m.check(isinstance(ret, CObj) and ret.pykind == "module", "the module is returned")
            m.check(m.exc is None, "success leaves no exception")
            if self.file == FILE:
                st = m.gvars.get("module state")
                e = st.f["error_obj"] if st is not None else NULL
                m.check(isinstance(e, CObj) and e.pykind == "exc" and ret.at.get("names", {}).get("Error") is e, "the module exports its Error")
        st = m.gvars.get("module state")
        if st is not None and st.owner.dead():
            # the module's own clear function releases what its state holds
            e = st.f["error_obj"]
            if isinstance(e, CObj):
                m.check(e.refs >= 1, "the module state owns its reference")
                e.refs -= 1
                st.f["error_obj"] = NULL
        m.exit_check(ret if isinstance(ret, CObj) else None)


CONTRACTS = [SetBool(), SetLong(), SetChar(), SaveField(), AddChar(), ProcessChar(), IterNextSafe(False), IterNextSafe(True), IterNext(), ParserNew(),
             Dealloc(), Clear(), Traverse(), ModClear(), ModFree(), ModTraverse(), PyInit(FILE, "PyInit_cparser")]
