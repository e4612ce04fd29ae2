"""C18: generated code reproduces the detection.

INSIDE(t, v): '"' + t + '"' is a Python string literal with the value v, and t ends between two tokens of
the literal.  UNIT(u, c): u is one self-delimiting piece of a literal (a plain character or a complete
escape) with the value c."""
import ast
import builtins
import io
import re
import tokenize
import types
import z3
from engine import smt
from engine.contracts import Contract
from engine.models import B
from engine.smt import STR, ROW, Unsupported
from engine.vals import *
from specs import cio

UT = "clevercsv.console.commands._utils"
CC = "clevercsv.console.commands.code.CodeCommand"
INSIDE = z3.Function("inside_literal", STR.sort, STR.sort, smt.B)
QIN = z3.Function("opened_literal", STR.sort, STR.sort, smt.B)
LITERAL = z3.Function("literal", STR.sort, STR.sort, smt.B)
UNIT = z3.Function("literal_piece", STR.sort, smt.I, smt.B)
REPR = z3.Function("repr_text", STR.sort, STR.sort)
RIN = z3.Function("inside_of_repr", smt.I, STR.sort)
JOIN0 = z3.Function("joined", ROW.sort, STR.sort)
SPECIAL = {34: '"', 92: "\\", 10: "\n", 13: "\r", 0: "\0"}
PREDS = ("isprintable", "isascii", "isalnum", "isalpha", "isdigit", "isspace", "isidentifier", "isdecimal", "isnumeric", "islower", "isupper")
PRED = {p: z3.Function("char_" + p, smt.I, smt.B) for p in PREDS}
PIECE = re.compile(r"\\(?:[\\'\"abfnrtv]|[0-3][0-7]{2}|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|N\{[^{}\"\\\n]+\})")
_facts = {}


def piece(s):
    """the character a constant piece of a literal stands for, or None"""
    if len(s) == 1:
        c = ord(s)
        return None if c in SPECIAL or 0xd800 <= c < 0xe000 else c
    if not PIECE.fullmatch(s):
        return None
    try:
        v = ast.literal_eval('"%s"' % s)
    except (SyntaxError, ValueError):
        return None
    return ord(v) if len(v) == 1 else None


def enumerate_facts():
    """the facts about repr and the character predicates, each checked for every code point there is"""
    if _facts:
        return _facts
    plain, hexed = [], []
    for c in range(0x110000):
        x = chr(c)
        r = repr(x)
        assert r[0] == r[-1] and r[0] in "'\"" and len(r) >= 3
        t = r[1:-1]
        if c == 34:
            assert t == '"'
        else:
            assert '"' not in t and (t == x and c not in SPECIAL and not 0xd800 <= c < 0xe000 or PIECE.fullmatch(t)), c
        (plain if t == x and c != 34 else hexed).append((c, t))
    # what the pieces mean, asked of Python itself: alone and with text that could continue an escape after them
    for part in (plain, hexed):
        for k in range(0, len(part), 20000):
            some = part[k:k + 20000]
            for tail in ("", "0", "a", "{", "'"):
                vs = ast.literal_eval("[" + ",".join('"%s%s"' % (t.replace('"', '\\"'), tail) for _, t in some) + "]")
                assert vs == [chr(c) + tail for c, _ in some]
            if part is plain:
                break_at = [chr(c) for c, _ in some]
                assert ast.literal_eval('"%s"' % "".join(break_at)) == "".join(break_at)
    for p in PREDS:
        vals = {getattr(chr(c), p)() for c in range(0xd800, 0xe000)}
        assert len(vals) == 1
        _facts[p] = {c: getattr(chr(c), p)() for c in list(SPECIAL) + [0xd800]}
    return _facts


def axioms():
    facts = enumerate_facts()
    t, u, v, a, b = z3.Consts("t!li u!li v!li a!li b!li", STR.sort)
    r = z3.Const("r!li", ROW.sort)
    c, d = z3.Ints("c!li d!li")
    FA, Im, An = z3.ForAll, z3.Implies, z3.And
    cat, unit = STR.cat, STR.unit
    q = unit(z3.IntVal(34))
    yield INSIDE(STR.empty, STR.empty)
    yield FA([t, u, v, c], Im(An(INSIDE(t, v), UNIT(u, c)), INSIDE(cat(t, u), cat(v, unit(c)))), patterns=[INSIDE(cat(t, u), cat(v, unit(c)))])
    yield QIN(q, STR.empty)
    yield FA([t, u, v, c], Im(An(QIN(t, v), UNIT(u, c)), QIN(cat(t, u), cat(v, unit(c)))), patterns=[QIN(cat(t, u), cat(v, unit(c)))])
    yield FA([t, v], Im(INSIDE(t, v), LITERAL(cat(cat(q, t), q), v)), patterns=[LITERAL(cat(cat(q, t), q), v)])
    yield FA([t, v], Im(INSIDE(t, v), LITERAL(cat(q, cat(t, q)), v)), patterns=[LITERAL(cat(q, cat(t, q)), v)])
    yield FA([t, v], Im(QIN(t, v), LITERAL(cat(t, q), v)), patterns=[LITERAL(cat(t, q), v)])
    special = [c == k for k in SPECIAL] + [An(0xd800 <= c, c < 0xe000)]
    yield FA([c, d], UNIT(unit(c), d) == An(c == d, z3.Not(z3.Or(*special))), patterns=[UNIT(unit(c), d)])
    # repr of one character
    yield FA([c], Im(c != 34, An(UNIT(RIN(c), c), smt.replace(RIN(c), q, z3.Const("lit_dq", STR.sort)) == RIN(c))), patterns=[RIN(c)])
    yield RIN(z3.IntVal(34)) == q
    for p in PREDS:
        for k, x in facts[p].items():
            lo, hi = (k, k) if k in SPECIAL else (0xd800, 0xdfff)
            yield FA([c], Im(An(lo <= c, c <= hi), PRED[p](c) == x), patterns=[PRED[p](c)])
    # replacing one character distributes over concatenation
    rep = smt.replace
    yield FA([t, u, c, b], rep(cat(t, u), unit(c), b) == cat(rep(t, unit(c), b), rep(u, unit(c), b)), patterns=[rep(cat(t, u), unit(c), b)])
    yield FA([c, d, b], rep(unit(d), unit(c), b) == z3.If(c == d, b, unit(d)), patterns=[rep(unit(d), unit(c), b)])
    yield FA([c, b], rep(STR.empty, unit(c), b) == STR.empty, patterns=[rep(STR.empty, unit(c), b)])
    yield JOIN0(ROW.empty) == STR.empty
    yield FA([r, t], JOIN0(ROW.cat(r, ROW.unit(t))) == cat(JOIN0(r), t), patterns=[JOIN0(ROW.cat(r, ROW.unit(t)))])
    yield FA([t], JOIN0(ROW.unit(t)) == t, patterns=[JOIN0(ROW.unit(t))])


def escaped(it, t):
    """t with its double quotes escaped afterwards"""
    dq = it.term('\\"', "str")
    it.path.assume(z3.Const("lit_dq", STR.sort) == dq)
    return smt.replace(t, STR.unit(z3.IntVal(34)), dq)


def templates(it, st):
    src = getattr(st.src, "base", None)
    while isinstance(src, Idx):
        src = src.base
    if not isinstance(src, Seq) or src.et is None or src.et.name != "char":
        return []
    V, out = src.t, []

    def pre(s):
        it.path.assume(STR.snoc(V, s.idx - 1))
        return STR.sub(V, z3.IntVal(0), s.idx)

    def text(x):
        if isinstance(x, ListObj):
            x = it.getf(x, "v")
        if isinstance(x, list):
            if not x:
                return STR.empty
            if not all(kind_of(y) == "str" for y in x):
                return None
            t = ROW.empty
            for y in x:
                t = ROW.cat(t, ROW.unit(it.term(y, "str")))
            return JOIN0(t)
        if isinstance(x, Seq):
            return JOIN0(x.t) if x.et is not None and x.et.th is ROW else STR.empty if x.et is None else None
        return it.term(x, "str") if kind_of(x) == "str" else None
    for cell, o, v in st.cells():
        def mk(fn, cell=cell):
            def g(s):
                x = text(s.now(cell))
                return None if x is None else fn(x, pre(s))
            return g
        n = "%s.%s" % cell
        out += [(n + " is the inside of a literal", mk(lambda x, p: INSIDE(x, p))), (n + " is the inside of a literal once quotes are escaped", mk(lambda x, p: INSIDE(escaped(it, x), p))),
                (n + " is an open literal", mk(lambda x, p: QIN(x, p)))]
    return out


def _repr(it, a, kw):
    v = a[0]
    if not (isinstance(v, S) and v.kind == "str"):
        return B["repr"].fn(it, a, kw)
    t = v.t
    if not (z3.is_app(t) and t.decl().eq(STR.unit)):
        raise Unsupported("repr of a string")
    c = t.arg(0)
    escaped(it, t)
    q = STR.unit(z3.If(c == 39, z3.IntVal(34), z3.IntVal(39)))
    R = STR.cat(STR.cat(q, RIN(c)), q)
    n = STR.len(R)
    it.path.assume(z3.And(STR.sub(R, z3.IntVal(1), n - 1) == RIN(c), STR.len(RIN(c)) >= 1))
    if not it.path.decide(c != 34):
        it.path.assume(RIN(c) == STR.unit(z3.IntVal(34)))
    return S("str", R)


def pred(name):
    def fn(it, a, kw):
        if isinstance(a[0], str):
            return getattr(a[0], name)()
        t = a[0].t
        if not (z3.is_app(t) and t.decl().eq(STR.unit)):
            raise Unsupported("str." + name)
        return S("bool", PRED[name](t.arg(0)))
    return fn


def _ord(it, a, kw):
    if isinstance(a[0], S) and z3.is_app(a[0].t) and a[0].t.decl().eq(STR.unit):
        return S("int", a[0].t.arg(0))
    return B["ord"].fn(it, a, kw)


def join(it, sep, x):
    if sep != "":
        return None
    if isinstance(x, (GenExpV, MapV, GenCall)):
        acc = Obj(it, "text", {"s": ""})
        it.iterate(x, lambda e: it.setf(acc, "s", it.str_cat([it.getf(acc, "s"), e])), ("join", id(getattr(x, "node", None))))
        return it.getf(acc, "s")
    if isinstance(x, ListObj):
        v = it.as_seq(x)
        if v.et is None:
            return ""
        if v.et.th is ROW:
            return S("str", JOIN0(v.t))
    return None


def literal_value(it, ev):
    """the string a piece of constant text has to mean, told to the solver"""
    for s in list(it.path.lits):
        c = piece(s)
        if len(s) > 1:
            it.path.assume(UNIT(it.path.lit(s), z3.IntVal(c)) if c is not None else z3.BoolVal(True))


class LitBase(Contract):
    budget = 200

    def __init__(self, *a):
        self.templates = [templates]

    def axioms(self):
        return list(axioms())

    def prepare(self, it):
        it.builtins = dict(it.builtins)
        it.builtins["repr"] = BuiltinFn("repr", _repr)
        it.builtins["ord"] = BuiltinFn("ord", _ord)
        for p in PREDS:
            it.builtins["method:str." + p] = pred(p)
        it.ghost["join"] = join
        it.ghost["strict_fmt"] = True
        lit = it.path.lit

        def told(s):
            new = s not in it.path.lits
            t = lit(s)
            if new and len(s) > 1:
                c = piece(s)
                if c is not None:
                    it.path.assume(UNIT(t, z3.IntVal(c)))
            return t
        it.path.lit = told


class LitCall:
    """contract of _literal (proved below): a literal of the value, or None"""

    def apply(self, it, f, args):
        v = args["value"]
        if v is None:
            return "None"
        if isinstance(v, Maybe) or kind_of(v) != "str":
            raise Unsupported("literal of %r" % (v,))
        t = it.path.fresh("inside", STR.sort)
        it.path.assume(INSIDE(t, it.term(v, "str")))
        return it.str_cat(['"', S("str", t), '"'])


class Literal(LitBase):
    key = UT + "._literal"

    def setup(self, it):
        self.prepare(it)
        self.v = it.fresh("str", "value") if it.path.choose(2) == 0 else None
        return {"value": self.v}

    def post(self, it, args, kind, v):
        C = it.path.check
        if kind == "raise":
            C(z3.BoolVal(False), "no exception")
        elif self.v is None:
            C(z3.BoolVal(v == "None" if isinstance(v, str) else False), "None is written as None")
        else:
            t = self.v.t
            it.path.assume(z3.And(STR.sub(t, z3.IntVal(0), z3.IntVal(0)) == STR.empty, STR.sub(t, z3.IntVal(0), STR.len(t)) == t))
            C(LITERAL(it.term(v, "str"), t) if kind_of(v) == "str" else z3.BoolVal(False), "a literal with exactly this value")


# ---------------------------------------------------------------------------------- the code as a whole
def leaves(it, x, out=None):
    """a string value as constants and symbolic pieces"""
    out = [] if out is None else out
    if isinstance(x, str):
        out.append(x)
        return out
    names = {}
    for s in it.path.lits:
        names[it.path.lit(s).get_id()] = s

    def go(t):
        if z3.is_app(t) and t.decl().eq(STR.cat):
            go(t.arg(0))
            go(t.arg(1))
        elif t.get_id() in names:
            out.append(names[t.get_id()])
        elif z3.is_app(t) and t.decl().eq(STR.unit) and z3.is_int_value(t.arg(0)):
            out.append(chr(t.arg(0).as_long()))
        elif z3.is_app(t) and t.decl().eq(STR.empty.decl()):
            pass
        else:
            out.append(t)
    go(it.term(x, "str"))
    return out


def execute(code):
    """what the generated code opens and reads; the same as the search's"""
    seen = {}

    class F:
        def __init__(self, *a, **k):
            seen.setdefault("open", []).append((a, k))

        def __enter__(self):
            return self

        def __exit__(self, *a):
            seen["closed"] = True

    def reader(fp, *a, **k):
        seen.setdefault("reader", []).append((isinstance(fp, F) and "closed" not in seen, a, k))
        return iter([["r1"], ["r2"]])

    def frame(*a, **k):
        seen.setdefault("frame", []).append((a, k))
        return "df"
    mod = types.SimpleNamespace(reader=reader, read_dataframe=frame)

    def imp(name, *a, **k):
        if name == "clevercsv":
            return mod
        raise ImportError(name)
    safe = {n: getattr(builtins, n) for n in ("list", "tuple", "range", "len", "enumerate", "dict", "set", "str", "int", "True", "False", "None") if hasattr(builtins, n)}
    env = {"__builtins__": dict(safe, open=F, __import__=imp)}
    try:
        exec(compile(code, "<generated>", "exec"), env)
    except Exception as x:
        return None, "%s: %s" % (type(x).__name__, x)
    return seen, env


def judge(it, C, parts, f, d, q, e, enc, pandas):
    """parts: the text of the code; f, d, q, e, enc: the values it has to hold (terms, or None)"""
    values = [("VPNAME", f), ("VPDELIM", d), ("VPQUOTE", q), ("VPESC", e), ("VPENC", enc)]
    code, found = "", True
    for p in parts:
        if isinstance(p, str):
            code += p
            continue
        for name, v in values:
            if v is not None and it.path.prove(INSIDE(p, v), want_detail=False)[0] == "proved":
                code += name
                break
        else:
            found = False
            code += "VPUNKNOWN"
    C(z3.BoolVal(found), "every value in the code is written as a literal of it")
    whole = True
    try:
        for tok in tokenize.generate_tokens(io.StringIO(code).readline):
            if "VP" in tok.string and tok.type != tokenize.COMMENT and not re.fullmatch(r'"VP[A-Z]+"', tok.string):
                whole = False
    except (tokenize.TokenError, SyntaxError, IndentationError):
        whole = False
    C(z3.BoolVal(whole), "the literals are tokens of the code")
    if not (found and whole):
        return
    seen, env = execute(code)
    C(z3.BoolVal(seen is not None), "the code is valid Python" + ("" if seen is not None else " (%s)" % env))
    if seen is None:
        return
    one = {n: None if v is None else n for n, v in values}
    want = {"delimiter": one["VPDELIM"], "quotechar": one["VPQUOTE"], "escapechar": one["VPESC"]}

    def is_(x, w):
        """the value w: by its own literal or by one proved to hold the same text"""
        if x == w:
            return True
        if x is None or w is None:
            return False
        a, b = dict(values).get(x), dict(values).get(w)
        return a is not None and b is not None and it.path.prove(a == b, want_detail=False)[0] == "proved"

    def same(got):
        return set(got) == set(want) and all(is_(got[k], want[k]) for k in want)
    if pandas:
        ok = "open" not in seen and "reader" not in seen and len(seen.get("frame", [])) == 1
        a, k = seen["frame"][0] if ok else ((), {})
        C(z3.BoolVal(bool(ok and len(a) == 1 and is_(a[0], "VPNAME"))), "read_dataframe is given exactly this file")
        C(z3.BoolVal(bool(ok and same(k))), "read_dataframe is given exactly the detected characters")
        return
    ok = "frame" not in seen and len(seen.get("open", [])) == 1 and len(seen.get("reader", [])) == 1
    C(z3.BoolVal(ok), "one file is opened and read")
    if not ok:
        return
    a, k = seen["open"][0]
    got = dict(zip(["file", "mode", "buffering", "encoding", "errors", "newline"], a))
    got.update(k)
    C(z3.BoolVal(is_(got.get("file"), "VPNAME")), "exactly this file is opened")
    C(z3.BoolVal(is_(got.get("encoding"), one["VPENC"])), "with exactly this encoding")
    C(z3.BoolVal(got.get("mode", "r") in ("r", "rt") and got.get("newline") == "" and got.get("errors") is None and not got.get("buffering")), "for reading text without newline translation")
    op, ra, rk = seen["reader"][0]
    C(z3.BoolVal(bool(op and not ra and same(rk))), "the reader is given exactly the detected characters")
    C(z3.BoolVal(env.get("rows") == [["r1"], ["r2"]]), "every row is kept")


def dialect(it, d, q, e):
    return Obj(it, it.resolve("clevercsv.dialect.SimpleDialect"), {"delimiter": d, "quotechar": q, "escapechar": e, "strict": False})


def opt(it, name):
    return it.fresh("str", name) if it.path.choose(2) == 0 else None


def term(v):
    return None if v is None else v.t


class Generate(LitBase):
    key = UT + ".generate_code"
    assumed = {UT + "._literal": LitCall()}

    def setup(self, it):
        self.prepare(it)
        self.f, self.q = it.fresh("str", "filename"), it.fresh("str", "quotechar")
        self.d, self.e, self.enc = opt(it, "delimiter"), opt(it, "escapechar"), opt(it, "encoding")
        self.pandas = it.fresh("bool", "use_pandas")
        return {"filename": self.f, "dialect": dialect(it, self.d, self.q, self.e), "encoding": self.enc, "use_pandas": self.pandas}

    def post(self, it, args, kind, v):
        C = it.path.check
        if kind == "raise":
            C(z3.BoolVal(False), "no exception")
            return
        src = it.idx_source(v)
        if src is None or not isinstance(src.n, int):
            raise Unsupported("the lines of the code")
        parts = []
        for k in range(src.n):
            if k:
                parts.append("\n")
            leaves(it, src.get(it, k), parts)
        judge(it, C, parts, term(self.f), term(self.d), term(self.q), term(self.e), term(self.enc), it.path.decide(self.pandas.t))


class DetectCall:
    """contract of detect_dialect (C19): a dialect or nothing, or an exception"""

    def apply(self, it, f, args):
        c = it.con
        c.calls.append(dict(args))
        if it.path.choose(2) == 1:
            raise cio.any_exception(it, ["StopIteration"])
        if it.path.choose(2) == 1:
            return None
        c.dia = [it.fresh("str", n) for n in ("delimiter", "quotechar", "escapechar")]
        return dialect(it, *c.dia)


class EncCall:
    """contract of get_encoding (C21)"""

    def apply(self, it, f, args):
        c = it.con
        if it.path.choose(2) == 1:
            raise cio.any_exception(it, ["StopIteration"])
        n = args["filename"]
        it.path.check(it.term(n, "str") == c.f.t if kind_of(n) == "str" else z3.BoolVal(False), "the encoding of this file is detected")
        c.got = opt(it, "detected_encoding")
        return c.got


class Command(LitBase):
    key = CC + ".handle"
    assumed = {UT + "._literal": LitCall(), "clevercsv.wrappers.detect_dialect": DetectCall(), "clevercsv.encoding.get_encoding": EncCall()}
    must_reach = ("return", "raise")

    def setup(self, it):
        self.prepare(it)
        self.calls, self.dia, self.got, self.out = [], None, UNSET, []
        self.f, self.enc = it.fresh("str", "path"), opt(it, "encoding")
        self.num = it.fresh("int", "num_chars") if it.path.choose(2) == 1 else None
        self.pandas = it.fresh("bool", "pandas")
        args = Obj(it, ClassVal("Namespace", [], {}), {"path": self.f, "encoding": self.enc, "num_chars": self.num, "pandas": self.pandas, "verbose": it.fresh("bool", "verbose")})

        def pr(it2, a, kw):
            if kw.get("file") is not None:
                return
            sep, end = kw.get("sep", " "), kw.get("end", "\n")
            for k, x in enumerate(a):
                if k:
                    self.out.append(" " if sep is None else sep)
                self.out.append(it2.to_str(x))
            self.out.append("\n" if end is None else end)
        it.ghost["print"] = pr
        return {"self": Obj(it, it.resolve(CC), {"args": args})}

    def post(self, it, args, kind, v):
        C = it.path.check

        def same(x, y):
            if x is None or y is None:
                return z3.BoolVal(x is None and y is None)
            return it.term(x) == it.term(y) if kind_of(x) == kind_of(y) else z3.BoolVal(False)
        for c in self.calls:
            C(same(c["filename"], self.f), "the dialect of this file is detected")
            C(same(c.get("num_chars"), self.num), "from the requested number of characters")
            C(same(c.get("encoding"), self.used()), "in the encoding the code names")
        if kind == "raise":
            C(z3.BoolVal(not self.out), "nothing is printed when anything fails")
            C(z3.BoolVal(self.dia is None), "only a failure of detection is raised")
            return
        if isinstance(v, bool) or kind_of(v) != "int":
            C(z3.BoolVal(False), "an exit code is returned")
            return
        C(z3.BoolVal(len(self.calls) == 1), "the dialect is detected once")
        code = it.term(v, "int")
        if self.dia is None:
            C(z3.And(code == 1, z3.BoolVal(not self.out)), "failed detection gives exit code 1 and prints no code")
            return
        C(code == 0, "exit code 0")
        parts = []
        for x in self.out:
            leaves(it, x, parts)
        if self.enc is not None:        # an empty encoding asks for detection
            C(z3.Implies(STR.len(self.enc.t) > 0, z3.BoolVal(self.got is UNSET)), "a given encoding is used")
        judge(it, C, parts, term(self.f), term(self.dia[0]), term(self.dia[1]), term(self.dia[2]), term(self.used()), it.path.decide(self.pandas.t))

    def used(self):
        """the encoding to use: the given one, else the detected one"""
        return self.enc if self.got is UNSET else self.got


ASSUMED = {}
CONTRACTS = [Literal(), Generate(), Command()]
TRUSTED = ["repr of one character and the str.is* predicates: checked for every code point at check time (enumerate_facts)",
           "str.replace of one character distributes over concatenation; a Python literal is read piece by piece (INSIDE); generated code is run with the literals as placeholder tokens",
           "print writes its arguments; argparse delivers strings, None and an integer for -n; detect_dialect and get_encoding: contracts of C19 and C21"]
