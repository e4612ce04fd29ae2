"""SMT layer: axiomatised sequences (strings are sequences of code points), uninterpreted
float arithmetic with IEEE-sound axioms, and the path explorer."""
import time
import z3

z3.set_param("warning", False)
I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()
U = z3.DeclareSort("Obj")


class SeqTheory:
    """Finite sequences over `elem`, given by length and index, with empty/unit/cat/sub.
    Every axiom below is true of mathematical sequences."""
    all = {}

    def __init__(self, name, elem):
        self.name, self.elem = name, elem
        S = self.sort = z3.DeclareSort(name)
        self.len = z3.Function(name + "_len", S, I)
        self.at = z3.Function(name + "_at", S, I, elem)
        self.empty = z3.Const(name + "_empty", S)
        self.unit = z3.Function(name + "_unit", elem, S)
        self.cat = z3.Function(name + "_cat", S, S, S)
        self.sub = z3.Function(name + "_sub", S, I, I, S)
        self.upd = z3.Function(name + "_upd", S, I, elem, S)
        self.diff = z3.Function(name + "_diff", S, S, I)
        SeqTheory.all[name] = self

    def axioms(self):
        S, E = self.sort, self.elem
        a, b = z3.Consts(self.name + "!a " + self.name + "!b", S)
        i, j, k = z3.Ints("i!q j!q k!q")
        x = z3.Const("x!q" + self.name, E)
        ln, at, cat, sub, unit, upd = self.len, self.at, self.cat, self.sub, self.unit, self.upd
        FA = z3.ForAll
        yield FA([a], ln(a) >= 0, patterns=[ln(a)])
        yield ln(self.empty) == 0
        yield FA([a], z3.Implies(ln(a) == 0, a == self.empty), patterns=[ln(a)])
        yield FA([x], z3.And(ln(unit(x)) == 1, at(unit(x), 0) == x), patterns=[unit(x)])
        yield FA([a, b], z3.And(ln(cat(a, b)) == ln(a) + ln(b),
                                z3.Implies(ln(a) == 0, cat(a, b) == b),
                                z3.Implies(ln(b) == 0, cat(a, b) == a)), patterns=[cat(a, b)])
        yield FA([a, b, i], z3.Implies(z3.And(0 <= i, i < ln(a) + ln(b)), at(cat(a, b), i) == z3.If(i < ln(a), at(a, i), at(b, i - ln(a)))),
                 patterns=[at(cat(a, b), i)])
        yield FA([a, i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= ln(a)),
                                       z3.And(ln(sub(a, i, j)) == j - i,
                                              z3.Implies(z3.And(i == 0, j == ln(a)), sub(a, i, j) == a))),
                 patterns=[sub(a, i, j)])
        yield FA([a, i, j, k], z3.Implies(z3.And(0 <= i, i <= j, j <= ln(a), 0 <= k, k < j - i),
                                          at(sub(a, i, j), k) == at(a, i + k)),
                 patterns=[at(sub(a, i, j), k)])
        yield FA([a, i, x], ln(upd(a, i, x)) == ln(a), patterns=[upd(a, i, x)])
        yield FA([a, i, x, k], z3.Implies(z3.And(0 <= k, k < ln(a)), at(upd(a, i, x), k) == z3.If(k == i, x, at(a, k))),
                 patterns=[at(upd(a, i, x), k)])

    def ext(self, a, b):
        """extensionality instance for one pair (diff is the witness)"""
        k = self.diff(a, b)
        return z3.Or(a == b, self.len(a) != self.len(b),
                     z3.And(0 <= k, k < self.len(a), self.at(a, k) != self.at(b, k)))

    def snoc(self, s, i):
        """s[:i+1] == s[:i] + [s[i]] instance"""
        return z3.Implies(z3.And(0 <= i, i < self.len(s)),
                          self.sub(s, 0, i + 1) == self.cat(self.sub(s, 0, i), self.unit(self.at(s, i))))


STR = SeqTheory("Str", I)
ROW = SeqTheory("Row", STR.sort)            # sequence of strings
_c = z3.Datatype("Cell")
_c.declare("cell", ("txt", STR.sort), ("quoted", B))
CELL = _c.create()
CROW = SeqTheory("CRow", CELL)              # sequence of (text, is_quoted)
TABLE = SeqTheory("Table", ROW.sort)        # sequence of rows
CTABLE = SeqTheory("CTable", CROW.sort)
OSEQ = SeqTheory("OSeq", U)                 # sequence of opaque objects
OTABLE = SeqTheory("OTable", OSEQ.sort)
_d = z3.Datatype("Dialect")
_d.declare("mk", ("delim", STR.sort), ("quote", STR.sort), ("esc", STR.sort), ("strict", B))
DIALECT = _d.create()
DSEQ = SeqTheory("DSeq", DIALECT)
ISEQ = SeqTheory("ISeq", I)
BSEQ = SeqTheory("BSeq", B)

fadd = z3.Function("fadd", R, R, R)
fsub = z3.Function("fsub", R, R, R)
fmul = z3.Function("fmul", R, R, R)
fdiv = z3.Function("fdiv", R, R, R)


def float_axioms():
    a, b = z3.Reals("fa!q fb!q")
    FA, Im, An = z3.ForAll, z3.Implies, z3.And
    # all valid for finite IEEE-754 doubles under round-to-nearest (monotone rounding)
    yield FA([a, b], An(Im(An(a >= 0, b >= 0), An(fadd(a, b) >= a, fadd(a, b) >= b)),
                        Im(b == 0, fadd(a, b) == a), Im(a == 0, fadd(a, b) == b)), patterns=[fadd(a, b)])
    yield FA([a, b], An(Im(An(a >= 0, b >= 0), fmul(a, b) >= 0),
                        Im(An(a >= 0, b >= 0, b <= 1), fmul(a, b) <= a),
                        Im(An(a >= 0, b >= 0, a <= 1), fmul(a, b) <= b)), patterns=[fmul(a, b)])
    yield FA([a, b], An(Im(An(a >= 0, b > 0), fdiv(a, b) >= 0),
                        Im(An(a >= 0, b > 0, a <= b), fdiv(a, b) <= 1),
                        Im(An(a >= 0, b >= 1), fdiv(a, b) <= a)), patterns=[fdiv(a, b)])
    yield FA([a, b], Im(a >= b, fsub(a, b) >= 0), patterns=[fsub(a, b)])


_consts = {}


def str_const(s):
    """SMT constant for a literal string (cached), plus its defining axioms."""
    if s == "":
        return STR.empty
    if len(s) == 1:
        return STR.unit(z3.IntVal(ord(s)))
    if s not in _consts:
        _consts[s] = z3.Const("lit_%d_%s" % (len(_consts), "".join(c if c.isalnum() else "_" for c in s[:12])), STR.sort)
    return _consts[s]


def str_const_axioms(s):
    t = str_const(s)
    if len(s) <= 1:
        return []
    out = [STR.len(t) == len(s)]
    if len(s) <= 40:
        out += [STR.at(t, k) == ord(c) for k, c in enumerate(s)]
    return out


_base = None


def base_axioms():
    global _base
    if _base is None:
        _base = []
        for th in SeqTheory.all.values():
            _base += list(th.axioms())
        _base += list(float_axioms())
    return _base


def mk_solver(timeout_ms):
    s = z3.Solver()
    s.set("auto_config", False)
    s.set("smt.mbqi", False)
    s.set("timeout", timeout_ms)
    s.set("smt.qi.eager_threshold", 50.0)
    s.set("random_seed", 1)
    return s


class PathEnd(Exception):
    """this path is finished (cut at a loop back edge, or infeasible)"""


class Restart(Exception):
    """a loop's frame, kinds or candidate invariants changed: explore again from its entry"""

    def __init__(self, prefix):
        self.prefix = list(prefix)


class Unsupported(Exception):
    """construct outside the subset of the verifier"""


class Obligation:
    __slots__ = ("label", "status", "secs", "detail", "where", "trace")

    def __init__(self, label, status, secs, detail, where, trace=()):
        self.label, self.status, self.secs, self.detail, self.where = label, status, secs, detail, where
        self.trace = tuple(trace)


class Path:
    """one execution path: decisions, path condition, obligations"""

    def __init__(self, ex, prefix):
        self.ex, self.prefix, self.trace = ex, prefix, []
        self.solver = mk_solver(ex.timeout)
        self.solver.add(base_axioms())
        for a in ex.extra_axioms:
            self.solver.add(a)
        self.fresh_n = 0
        self.lits = set()
        self.notes = []
        self.pc = []

    # names are deterministic per path, so replays give identical terms
    def fresh(self, hint, sort):
        self.fresh_n += 1
        return z3.Const("%s!%d" % (hint, self.fresh_n), sort)

    def lit(self, s):
        if s not in self.lits:
            self.lits.add(s)
            for a in str_const_axioms(s):
                self.solver.add(a)
        return str_const(s)

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise PathEnd()
        self.pc.append(f)
        self.solver.add(f)

    def replaying(self):
        return len(self.trace) < len(self.prefix)

    def sat(self, f):
        self.solver.push()
        self.solver.add(f)
        self.solver.set("timeout", self.ex.branch_timeout)
        t = time.time()
        r = self.solver.check()
        self.ex.solver_s += time.time() - t
        self.ex.queries += 1
        self.solver.set("timeout", self.ex.timeout)
        self.solver.pop()
        return r != z3.unsat

    def decide(self, cond, note=""):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        n = len(self.trace)
        if n < len(self.prefix):
            v = self.prefix[n]
        else:
            t = self.sat(cond)
            f = self.sat(z3.Not(cond)) if t else True
            if not t and not f:
                raise PathEnd()
            if t and f:
                self.ex.push(self.trace + [False])
            v = bool(t)
        self.trace.append(v)
        self.assume(cond if v else z3.Not(cond))
        return v

    def choose(self, n, note=""):
        """demonic choice among n alternatives"""
        if n == 1:
            return 0
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            for alt in range(n - 1, 0, -1):
                self.ex.push(self.trace + [alt])
            v = 0
        self.trace.append(v)
        return v

    def prove(self, f, timeout=None, want_detail=True):
        """(status, secs, detail) of path-condition => f"""
        if f is True:
            return "proved", 0.0, ""
        t = time.time()
        if f is not False and z3.is_true(z3.simplify(f)):
            return "proved", 0.0, "simplify"
        self.solver.push()
        self.solver.add(z3.BoolVal(True) if f is False else z3.Not(f))
        if timeout:
            self.solver.set("timeout", timeout)
        r = self.solver.check()
        detail = ""
        if r != z3.unsat and want_detail:
            detail = "z3: " + (str(r) if r == z3.sat else "unknown (%s)" % self.solver.reason_unknown())
            try:
                m = self.solver.model()
                detail += "; candidate model: " + ", ".join(
                    "%s=%s" % (d.name(), m[d]) for d in m.decls()
                    if d.arity() == 0 and "!" in d.name() and str(m[d]).find("!val") < 0)[:600]
            except z3.Z3Exception:
                pass
        smt2 = None
        if self.ex.dump is not None and r == z3.unsat:
            smt2 = self.solver.to_smt2()
        self.solver.set("timeout", self.ex.timeout)
        self.solver.pop()
        secs = time.time() - t
        self.ex.solver_s += secs
        self.ex.queries += 1
        if smt2 is not None:
            self.ex.dump.append(smt2)
        return ("proved" if r == z3.unsat else "failed"), secs, detail

    def again(self, f):
        """another attempt, with every term relevant to instantiation"""
        ex = self.ex
        if z3.is_false(z3.simplify(f)) or ex.again_s > 60:
            return False
        t = time.time()
        for rel, seed in ((0, 1), (2, 11)):
            s = mk_solver(min(6000, ex.timeout))
            s.set("smt.relevancy", rel)
            s.set("random_seed", seed)
            s.add(self.solver.assertions())
            s.add(z3.Not(f))
            r = s.check()
            ex.queries += 1
            if r == z3.unsat:
                break
        ex.again_s += time.time() - t
        ex.solver_s += time.time() - t
        return r == z3.unsat

    def check(self, f, label, where=""):
        """proof obligation; the path goes on assuming it"""
        if self.ex.beside is not None and self.ex.beside(label):
            return              # not part of the property checked: neither shown nor assumed
        if not self.replaying():
            st, secs, detail = self.prove(f)
            if st == "failed" and f is not False and self.again(f):
                st, detail = "proved", "second attempt"
            if st == "failed":
                detail += " | path: " + "; ".join(self.notes[-6:])
            self.ex.obligations.append(Obligation(label, st, secs, detail, where, self.trace))
        self.assume(f)

    def note(self, s):
        self.notes.append(s)


class Explorer:
    MAX_PATHS = 6000

    def __init__(self, timeout=10000, branch_timeout=1500, deadline=None):
        self.timeout, self.branch_timeout = timeout, branch_timeout
        self.solver_s, self.queries = 0.0, 0
        self.extra_axioms = []
        self.again_s = 0.0
        self.dump = None
        self.beside = None
        self.deadline = deadline
        self.reset()

    def reset(self):
        self.work, self.obligations, self.paths, self.complete = [[]], [], 0, []
        self.restarts = 0

    def push(self, prefix):
        self.work.append(prefix)

    def run(self, body):
        """explore all paths of body(path)"""
        while self.work:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget of this function used up after %d paths" % self.paths)
            prefix = self.work.pop()
            p = Path(self, prefix)
            self.paths += 1
            if self.paths > self.MAX_PATHS:
                raise Unsupported("more than %d paths" % self.MAX_PATHS)
            try:
                body(p)
                self.complete.append(tuple(p.trace))
            except PathEnd:
                pass
            except Restart as r:
                k, n = tuple(r.prefix), len(r.prefix)
                self.restarts += 1
                self.work = [w for w in self.work if tuple(w[:n]) != k]
                self.obligations = [o for o in self.obligations if o.trace[:n] != k]
                self.complete = [t for t in self.complete if t[:n] != k]
                self.work.append(list(r.prefix))


# ---------------------------------------------------------------- string functions (trusted contracts of str)
box_str = z3.Function("box_str", STR.sort, U)
obj_truth = z3.Function("obj_truth", U, B)
unbox_str = z3.Function("unbox_str", U, STR.sort)
box_flt = z3.Function("box_flt", R, U)
unbox_flt = z3.Function("unbox_flt", U, R)
is_flt = z3.Function("obj_is_float", U, B)
NONE_U = z3.Const("none_object", U)
obj_is_none = z3.Function("obj_is_none", U, B)
contains = z3.Function("str_contains", STR.sort, STR.sort, B)       # needle in haystack: contains(hay, needle)
find_ix = z3.Function("str_find", STR.sort, STR.sort, I)
split = z3.Function("str_split", STR.sort, STR.sort, ROW.sort)
replace = z3.Function("str_replace", STR.sort, STR.sort, STR.sort, STR.sort)
strip = z3.Function("str_strip", STR.sort, STR.sort)
rstrip_of = z3.Function("str_rstrip_chars", STR.sort, STR.sort, STR.sort)
lower = z3.Function("str_lower", STR.sort, STR.sort)
str_lt = z3.Function("str_lt", STR.sort, STR.sort, B)
isdigit = z3.Function("str_isdigit", STR.sort, B)
int_str = z3.Function("int_str", I, STR.sort)


def string_axioms():
    s, t, u = z3.Consts("s!q t!q u!q", STR.sort)
    i, c = z3.Ints("i!qs c!qs")
    FA, Im, An, Or, Not = z3.ForAll, z3.Implies, z3.And, z3.Or, z3.Not
    ln, at = STR.len, STR.at
    # one-character membership
    yield FA([s, c], Im(contains(s, STR.unit(c)), An(0 <= find_ix(s, STR.unit(c)), find_ix(s, STR.unit(c)) < ln(s),
                                                      at(s, find_ix(s, STR.unit(c))) == c)), patterns=[contains(s, STR.unit(c))])
    yield FA([s, c, i], Im(An(0 <= i, i < ln(s), at(s, i) == c), contains(s, STR.unit(c))),
             patterns=[z3.MultiPattern(contains(s, STR.unit(c)), at(s, i))])
    yield FA([s, t], An(Im(contains(s, t), ln(t) <= ln(s)), Im(ln(t) == 0, contains(s, t))), patterns=[contains(s, t)])
    # split on a non-empty separator
    sp = split(s, t)
    yield FA([s, t], Im(ln(t) > 0, An(ROW.len(sp) >= 1, (ROW.len(sp) == 1) == Not(contains(s, t)),
                                      Im(Not(contains(s, t)), sp == ROW.unit(s)), ROW.len(sp) <= ln(s) + 1)), patterns=[sp])
    # strip
    yield FA([s], An(strip(strip(s)) == strip(s), ln(strip(s)) <= ln(s), Im(ln(s) == 0, strip(s) == s)), patterns=[strip(s)])
    yield FA([s, t], An(ln(rstrip_of(s, t)) <= ln(s), rstrip_of(s, t) == STR.sub(s, 0, ln(rstrip_of(s, t)))), patterns=[rstrip_of(s, t)])
    # order on strings
    yield FA([s, t], An(Not(An(str_lt(s, t), str_lt(t, s))), Or(str_lt(s, t), str_lt(t, s), s == t), Im(str_lt(s, t), s != t)),
             patterns=[str_lt(s, t)])
    yield FA([s, t, u], Im(An(str_lt(s, t), str_lt(t, u)), str_lt(s, u)), patterns=[z3.MultiPattern(str_lt(s, t), str_lt(t, u))])


def opt_axioms():
    """values of None, text and float kept in one sequence"""
    a = z3.Const("s!op", STR.sort)
    x = z3.Const("x!op", R)
    yield obj_is_none(NONE_U)
    yield z3.ForAll([a], z3.And(unbox_str(box_str(a)) == a, z3.Not(obj_is_none(box_str(a))), z3.Not(is_flt(box_str(a)))), patterns=[box_str(a)])
    yield z3.ForAll([x], z3.And(unbox_flt(box_flt(x)) == x, z3.Not(obj_is_none(box_flt(x))), is_flt(box_flt(x))), patterns=[box_flt(x)])
    u = z3.Const("u!op", U)
    yield z3.ForAll([u], z3.Implies(is_flt(u), z3.And(z3.Not(obj_is_none(u)), box_flt(unbox_flt(u)) == u)), patterns=[is_flt(u)])


TRUSTED_STR = "str methods (in, split, strip, rstrip, lower, replace, <): axioms of engine/smt.py string_axioms"


def forall(vs, body, patterns):
    """quantifier with those of the patterns z3 accepts"""
    try:
        return z3.ForAll(vs, body, patterns=patterns)
    except z3.Z3Exception:
        ok = []
        for p in patterns:
            try:
                z3.ForAll(vs, body, patterns=[p])
                ok.append(p)
            except z3.Z3Exception:
                pass
        return z3.ForAll(vs, body, patterns=ok) if ok else z3.ForAll(vs, body)
