"""C09: type detection is total, blind to surrounding whitespace, and the type score is the bounded share of known cells."""
import ast
import os
import z3
from engine import smt
from engine.contracts import Contract
from engine.models import B, Model
from engine.smt import STR, DIALECT, CROW, CTABLE
from engine.vals import *

MOD = "clevercsv.detect_type"
TD = MOD + ".TypeDetector"
CD = "clevercsv.consistency.ConsistencyDetector"
I = smt.I
Z = z3.IntVal


# ---------------------------------------------------------------- the regex library
MATCH = z3.Function("regex_matches", I, STR.sort, z3.BoolSort())
GROUP = z3.Function("regex_group", I, I, STR.sort, STR.sort)
WAYS = {"fullmatch": 0, "match": 1, "search": 2}


def always(pat, k):
    """group k takes part in every match: it is not inside an alternation or a repetition that may be empty; None: cannot tell"""
    if not isinstance(pat, str) or "(?" in pat:
        return None
    depth, n, stack, i, at = 0, 0, [], 0, None
    opens, alt, ends = {}, set(), {}
    while i < len(pat):
        c = pat[i]
        if c == "\\":
            i += 2
            continue
        if c == "[":
            i += 1
            while i < len(pat) and (pat[i] != "]" or pat[i - 1] == "["):
                i += 2 if pat[i] == "\\" else 1
        elif c == "(":
            n += 1
            stack.append(n)
            opens[n] = list(stack)
        elif c == ")":
            if not stack:
                return None
            ends[stack.pop()] = pat[i + 1:i + 2]
        elif c == "|":
            alt.add(stack[-1] if stack else 0)
        i += 1
    if k not in opens or stack:
        return None
    if 0 in alt or any(g in alt for g in opens[k][:-1]):
        return None
    return True if all(ends[g] not in ("?", "*", "{") for g in opens[k]) else None


def m_run(how):
    def f(it, o, a, kw):
        if len(a) != 1 or kw:
            raise Unsupported("options of a pattern")
        if kind_of(a[0]) != "str":
            raise it.exc("TypeError", "expected string or buffer")
        t = it.term(a[0])
        no = Z(it.getf(o, "no") * 3 + WAYS[how])
        if not it.path.decide(MATCH(no, t)):
            return None
        return Obj(it, MATCHED, {"pat": it.getf(o, "pat"), "no": no, "text": t})
    return f


def m_group(it, o, a, kw):
    k = a[0] if a else 0
    if not isinstance(k, int):
        raise Unsupported("group %r" % (k,))
    if k and not always(it.getf(o, "pat"), k):
        raise Unsupported("a group that may be absent")
    return S("str", GROUP(it.getf(o, "no"), Z(k), it.getf(o, "text")))


PATTERN = Model("Pattern", {k: m_run(k) for k in WAYS}, truth=lambda it, o: True)
MATCHED = Model("Match", {"group": m_group}, truth=lambda it, o: True)


def compile_(it, a, kw):
    if len(a) != 1 or kw:
        raise Unsupported("options of regex.compile")
    n = it.ghost.setdefault("patterns", [0])
    n[0] += 1
    return Obj(it, PATTERN, {"pat": a[0] if isinstance(a[0], str) else None, "no": n[0]})


def escape(it, a, kw):
    return it.fresh("str", "escaped")


def loads(it, a, kw):
    """json.loads: a value, ValueError, or RecursionError on deep nesting"""
    if kind_of(a[0]) != "str":
        raise Unsupported("json.loads of something else")
    k = it.path.choose(3)
    if k == 0:
        return it.fresh("obj", "json")
    raise it.exc("ValueError" if k == 1 else "RecursionError")


EXTERNALS = {"regex.compile": compile_, "regex.escape": escape, "json.loads": loads}


# ---------------------------------------------------------------- single tests
def tests():
    """the type tests of the class, from the current source"""
    try:
        with open(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "clevercsv", "detect_type.py")) as fh:
            tree = ast.parse(fh.read())
    except (OSError, SyntaxError):
        return []
    for c in tree.body:
        if isinstance(c, ast.ClassDef) and c.name == "TypeDetector":
            for f in c.body:
                if isinstance(f, ast.FunctionDef) and f.name.startswith("is_") and f.name != "is_known_type" and not f.decorator_list \
                        and [a.arg for a in f.args.args] == ["self", "cell", "is_quoted"]:
                    yield f.name


def detector(it):
    strip = it.fresh("bool", "strip_whitespace")
    d = it.call(it.resolve(TD), [], {} if it.con.strips else {"strip_whitespace": strip})
    if it.mono is not None:
        it.mono.age(it)         # a detector with a past
    return d


class Test(Contract):
    """a type test gives an answer for every cell"""
    strips = False
    externals = EXTERNALS

    def __init__(self, name):
        self.name, self.key = name, TD + "." + name
        self.assumed = {TD + "." + n: IsType(n) for n in tests() if n != name}

    def setup(self, it):
        self.cell, self.quoted = it.fresh("str", "cell"), it.fresh("bool", "quoted")
        return {}

    def body(self, it, args):
        r = it.call(it.getattr(detector(it), self.name), [self.cell], {"is_quoted": self.quoted})
        return it.decide(r)

    def post(self, it, args, kind, v):
        it.path.check(z3.BoolVal(kind == "return"), "the type test answers for every cell")


class IsType:
    """contract of a type test: an answer, a function of the cell (its text and whether it is quoted)"""

    def __init__(self, name):
        self.fn = z3.Function("type_" + name, STR.sort, z3.BoolSort(), z3.BoolSort())

    def apply(self, it, f, args):
        c, q = args["cell"], args.get("is_quoted", False)
        if kind_of(c) != "str":
            it.path.check(z3.BoolVal(False), "a type test is given a text")
            raise smt.PathEnd()
        return S("bool", self.fn(it.term(c), it.term(q, "bool")))


# ---------------------------------------------------------------- the detector
class Detect(Contract):
    """two cells that differ in surrounding whitespace, the second one seen by a detector that has seen other cells"""
    key = TD + ".detect_type"
    strips = True
    externals = EXTERNALS

    def __init__(self):
        self.assumed = {TD + "." + n: IsType(n) for n in tests()}

    def setup(self, it):
        self.cell, self.other, self.quoted = it.fresh("str", "cell"), it.fresh("str", "padded"), it.fresh("bool", "quoted")
        it.path.assume(smt.strip(self.cell.t) == smt.strip(self.other.t))
        return {}

    def body(self, it, args):
        a, b = detector(it), detector(it)
        run = lambda d, m, c, q: it.call(it.getattr(d, m), [c], {"is_quoted": q})
        r = run(a, "detect_type", self.cell, self.quoted)
        run(b, "detect_type", self.other, it.fresh("bool", "quoted0"))
        return (r, run(b, "detect_type", self.other, self.quoted), run(a, "is_known_type", self.cell, self.quoted), it.call(it.getattr(a, "list_known_types"), [], {}))

    def post(self, it, args, kind, v):
        C = it.path.check
        if kind == "raise":
            C(z3.BoolVal(False), "type detection does not fail")
            return
        r, r2, known, names = v
        C(z3.BoolVal(r == r2) if isinstance(r, str) and isinstance(r2, str) else z3.BoolVal(r is None and r2 is None), "surrounding whitespace and earlier cells do not change the type")
        names = it.getf(names, "v")
        C(z3.BoolVal(r is None or r in names), "the type is one of those listed")
        C(it.term(known, "bool") == z3.BoolVal(r is not None), "a type is known exactly when there is one")


# ---------------------------------------------------------------- type scores
CELLS = z3.Function("parsed_cells", STR.sort, DIALECT, CTABLE.sort)
FAILS = z3.Function("parse_fails", STR.sort, DIALECT, z3.BoolSort())
KNOWN = z3.Function("known_type", STR.sort, z3.BoolSort(), z3.BoolSort())
ROWK = z3.Function("known_in_row", CROW.sort, I, I)            # known cells among the first j
CT = z3.Function("cells_before", CTABLE.sort, I, I)             # cells of the first i rows
KT = z3.Function("known_before", CTABLE.sort, I, I)
CELL = smt.CELL


def known(c):
    return z3.If(KNOWN(CELL.txt(c), CELL.quoted(c)), Z(1), Z(0))


def row_unfold(r, j):
    return z3.And(ROWK(r, Z(0)) == 0, z3.Implies(z3.And(0 < j, j <= CROW.len(r)), ROWK(r, j) == ROWK(r, j - 1) + known(CROW.at(r, j - 1))))


def table_unfold(T, i):
    r = CTABLE.at(T, i - 1)
    return z3.And(CT(T, Z(0)) == 0, KT(T, Z(0)) == 0, z3.Implies(z3.And(0 < i, i <= CTABLE.len(T)), z3.And(
        CT(T, i) == CT(T, i - 1) + CROW.len(r), KT(T, i) == KT(T, i - 1) + ROWK(r, CROW.len(r)))))


# sums of a list of flags or numbers
BTOT, BSUM = z3.Function("flags_set", smt.BSEQ.sort, I), z3.Function("flags_set_before", smt.BSEQ.sort, I, I)
ITOT, ISUM = z3.Function("numbers_total", smt.ISEQ.sort, I), z3.Function("numbers_total_before", smt.ISEQ.sort, I, I)
SUMS = {"bool": (smt.BSEQ, BTOT, BSUM, lambda x: z3.If(x, Z(1), Z(0))), "int": (smt.ISEQ, ITOT, ISUM, lambda x: x)}


def sum_axioms():
    for th, tot, part, val in SUMS.values():
        a, b = z3.Const("a!sm", th.sort), z3.Const("b!sm", th.sort)
        x = z3.Const("x!sm", th.elem)
        yield tot(th.empty) == 0
        yield z3.ForAll([a, b], tot(th.cat(a, b)) == tot(a) + tot(b), patterns=[th.cat(a, b)])
        yield z3.ForAll([x], tot(th.unit(x)) == val(x), patterns=[th.unit(x)])
        yield z3.ForAll([a], z3.And(part(a, Z(0)) == 0, part(a, th.len(a)) == tot(a)), patterns=[tot(a)])


def sum_templates(it, st):
    """a list filled with one entry per cell holds as many entries as there were cells and adds up to the known ones; a sum over a list adds up to the part of it gone through"""
    b = getattr(st.src, "base", None)
    if not isinstance(b, Seq) or b.et is None:
        return []
    out = []
    if b.et.name in SUMS:
        th, tot, part, val = SUMS[b.et.name]
        for cell, _, v in st.cells():
            e = st.entry.get(cell, UNSET)
            if kind_of(e) not in ("int", "bool"):
                continue

            def f(s2, cell=cell, e=e):
                i = s2.idx
                it.path.assume(z3.And(part(b.t, Z(0)) == 0, part(b.t, th.len(b.t)) == tot(b.t),
                                      z3.Implies(z3.And(0 < i, i <= th.len(b.t)), part(b.t, i) == part(b.t, i - 1) + val(th.at(b.t, i - 1)))))
                x = s2.now(cell)
                return it.term(x, "int") == it.term(e, "int") + part(b.t, i) if kind_of(x) in ("int", "bool") else None
            out.append(("%s.%s adds up the list" % cell, f))
    if b.et.name not in ("crow", "cell"):
        return out
    table = b.et.name == "crow"
    for cell, _, v in st.cells():
        for k, (th, tot, part, val) in SUMS.items():
            def flags(x, k=k, th=th):
                if isinstance(x, list):
                    return th.empty if not x else None
                return x.t if isinstance(x, Seq) and x.et is not None and x.et.name == k else None

            e = flags(st.entry.get(cell, UNSET))
            if e is None:
                continue

            def held(s2, cell=cell, e=e, th=th, flags=flags):
                x = flags(s2.now(cell))
                it.path.assume(unfolded(b, s2.idx, table))
                return None if x is None else th.len(x) == th.len(e) + (CT(b.t, s2.idx) if table else s2.idx)

            def added(s2, cell=cell, e=e, tot=tot, flags=flags):
                x = flags(s2.now(cell))
                it.path.assume(unfolded(b, s2.idx, table))
                return None if x is None else tot(x) == tot(e) + (KT(b.t, s2.idx) if table else ROWK(b.t, s2.idx))
            out += [("%s.%s has an entry per cell, " % cell + k, held), ("%s.%s adds up to the known cells, " % cell + k, added)]
    return out


def unfolded(b, i, table):
    return table_unfold(b.t, i) if table else row_unfold(b.t, i)


def templates(it, st):
    b = getattr(st.src, "base", None)
    if not isinstance(b, Seq) or b.et is None or b.et.name not in ("crow", "cell"):
        return []
    table = b.et.name == "crow"

    def unfold(s2):
        it.path.assume(table_unfold(b.t, s2.idx) if table else row_unfold(b.t, s2.idx))
    fns = [("cells", lambda i: CT(b.t, i)), ("known cells", lambda i: KT(b.t, i))] if table else [("cells", lambda i: i), ("known cells", lambda i: ROWK(b.t, i))]
    out = []

    def order(s2):
        unfold(s2)
        return z3.And(0 <= fns[1][1](s2.idx), fns[1][1](s2.idx) <= fns[0][1](s2.idx))
    out.append(("no more known cells than cells", order))
    for cell, _, v in st.cells():
        e = st.entry.get(cell, UNSET)
        if kind_of(e) != "int":
            continue
        for nm, fn in fns:
            def f(s2, cell=cell, e=e, fn=fn):
                unfold(s2)
                x = s2.now(cell)
                return it.term(x, "int") == it.term(e, "int") + fn(s2.idx) if kind_of(x) in ("int", "bool") else None
            out.append(("%s.%s counts the %s" % (cell + (nm,)), f))
    return out


class Parse:
    """contract of parse_string with return_quoted (C01, C04): the cells, or an error of the parser"""

    def apply(self, it, f, args):
        c = it.con
        ok = kind_of(args["data"]) == "str"
        d = it.ETS["dialect"].unwrap(args["dialect"])
        it.path.check(z3.And(it.term(args["data"], "str") == c.data.t, d == c.d) if ok else z3.BoolVal(False), "the sample is parsed with the dialect")
        rq = args.get("return_quoted", False)
        if rq is not True:
            raise Unsupported("parse without quote information")
        if it.path.decide(FAILS(c.data.t, d)):
            raise it.exc("Exception", "parser")
        return it.seq_list(Seq(it.ETS["crow"], CELLS(c.data.t, d)))


class IsKnown:
    """contract of is_known_type (proved above): a function of the cell"""

    def apply(self, it, f, args):
        return S("bool", KNOWN(it.term(args["cell"], "str"), it.term(args.get("is_quoted", False), "bool")))


class Score(Contract):
    must_reach = ("return", "raise")
    strips = True
    externals = EXTERNALS
    templates = [templates, sum_templates]
    assumed = {"clevercsv.cparser_util.parse_string": Parse(), TD + ".is_known_type": IsKnown()}

    def __init__(self, key, method):
        self.key, self.method = key, method

    def axioms(self):
        return list(sum_axioms())

    def setup(self, it):
        self.data = it.fresh("str", "data")
        self.d = it.path.fresh("dialect", DIALECT)
        self.eps = None
        if it.path.choose(2) == 1:
            self.eps = it.fresh("flt", "eps")
            it.path.assume(z3.And(self.eps.t > 0, self.eps.t <= 1))
        return {}

    def body(self, it, args):
        d = it.ETS["dialect"].wrap(it, self.d)
        kw = {} if self.eps is None else {"eps": self.eps}
        if self.method:
            o = it.call(it.resolve(CD), [], {})
            if it.mono is not None:
                it.mono.age(it)
            return it.call(it.getattr(o, "compute_type_score"), [self.data, d], kw)
        return it.call(it.resolve(self.key), [self.data, d], kw)

    def post(self, it, args, kind, v):
        C = it.path.check
        if kind == "raise":
            C(FAILS(self.data.t, self.d), "only a sample that cannot be parsed has no score")
            return
        T = CELLS(self.data.t, self.d)
        n = CTABLE.len(T)
        it.path.assume(table_unfold(T, Z(0)))
        e = it.term(self.eps if self.eps is not None else 1e-10, "flt")
        total, kn = CT(T, n), KT(T, n)
        share = smt.fdiv(z3.ToReal(kn), z3.ToReal(total))
        r = it.term(v, "flt")
        C(z3.Implies(total == 0, r == e), "a sample without cells scores the minimum")
        C(z3.Implies(total > 0, r == z3.If(share > e, share, e)), "the score is the share of cells of known type, but no less than the minimum")
        C(z3.And(r > 0, r <= 1), "the score lies in (0, 1]")


CONTRACTS = [Detect()] + [Test(n) for n in tests()] + [Score(MOD + ".type_score", False), Score(CD + ".compute_type_score", True)]
ASSUMED = {}
TRUSTED = ["regex: fullmatch/match/search answer for every text, deterministically; a group outside alternations and optional parts takes part in every match",
           "json.loads raises ValueError or RecursionError only", "str.strip is idempotent", "quotient of counts as floats: 0 <= a <= b gives 0 <= a/b <= 1",
           "lru_cache returns what the function returned for equal arguments", "the parser gives the cells of the sample (C01, C04)"]
