"""C07: the candidate dialects are exactly the combinations of characters that stand in the sample."""
import ast
import z3
from engine import smt
from engine.contracts import Contract
from engine.lemma import Lemma
from engine.models import Model, set_op
from engine.smt import STR, ROW, DSEQ, DIALECT
from engine.vals import *

PD = "clevercsv.potential_dialects."
ESC = "clevercsv.escape."
I, Bo = smt.I, z3.BoolSort()
Z = z3.IntVal
ln, at, sub, unit = STR.len, STR.at, STR.sub, STR.unit
mk = lambda d, q, e: DIALECT.mk(d, q, e, z3.BoolVal(False))
dl, qu, es, strict = DIALECT.delim, DIALECT.quote, DIALECT.esc, DIALECT.strict

BLOCK_CAT = ["Lu", "Ll", "Lt", "Lm", "Lo", "Nd", "Nl", "No", "Ps", "Pe", "Co"]
BLOCK_CHAR = [".", "/", '"', "'", "\n", "\r"]
QUOTES = ["'", '"', "~", "`"]
NOT_ESCAPE = ["!", "?", '"', "'", ".", ",", ";", ":", "%", "*", "&", "#"]

CAT = z3.Function("category", STR.sort, STR.sort)                                   # unicodedata.category
DEC = z3.Function("decoded", STR.sort, STR.sort, STR.sort)                          # character after encoding and decoding
UNENC = z3.Function("cannot_be_encoded", STR.sort, STR.sort, Bo)
POT = z3.Function("potential_escape", STR.sort, STR.sort, Bo)
NOURL = z3.Function("without_urls", STR.sort, STR.sort, STR.sort)                  # text, what stands in for each URL
HASURL = z3.Function("has_url", STR.sort, Bo)
MASKED = z3.Function("masked", STR.sort, STR.sort, STR.sort, STR.sort, Bo)
FOL = z3.Function("stands_before", STR.sort, I, STR.sort, STR.sort, Bo)            # among the first n pairs of neighbours: (text, n, v, e): e directly before v
MEMR, MEMRIX = z3.Function("is_allowed", ROW.sort, STR.sort, Bo), z3.Function("allowed_at", ROW.sort, STR.sort, I)
MEMD, NODUP = z3.Function("is_in_list", DSEQ.sort, DIALECT, Bo), z3.Function("no_duplicates", DSEQ.sort, Bo)


def occurs(s, c):
    """the character stands in the text"""
    return z3.And(ln(c) == 1, smt.contains(s, c))


def fol_at(data, n):
    v, e = z3.Consts("v!fo e!fo", STR.sort)
    return z3.And(z3.ForAll([v, e], z3.Not(FOL(data, Z(0), v, e)), patterns=[FOL(data, Z(0), v, e)]),
                  z3.Implies(n > 0, z3.ForAll([v, e], FOL(data, n, v, e) == z3.Or(FOL(data, n - 1, v, e), z3.And(e == unit(at(data, n - 1)), v == unit(at(data, n)))), patterns=[FOL(data, n, v, e)])))


def fol_occurs(data, n):
    v, e = z3.Consts("v!fo e!fo", STR.sort)
    return z3.Implies(z3.And(0 <= n, z3.Or(n == 0, n < ln(data))), z3.ForAll([v, e], z3.Implies(FOL(data, n, v, e), z3.And(occurs(data, e), occurs(data, v))), patterns=[FOL(data, n, v, e)]))


def pairs(data):
    return z3.If(ln(data) > 0, ln(data) - 1, Z(0))


def lemmas():
    data, n = z3.Const("data", STR.sort), z3.Int("n")
    yield "no pairs", [fol_at(data, Z(0))], fol_occurs(data, Z(0))
    yield "one more pair", [n >= 0, fol_at(data, n + 1), fol_occurs(data, n), ln(unit(at(data, n))) == 1, ln(unit(at(data, n + 1))) == 1], fol_occurs(data, n + 1)


def axioms():
    s, r, c, x = z3.Consts("s!c7 r!c7 c!c7 x!c7", STR.sort)
    R = z3.Const("R!c7", ROW.sort)
    a, b = z3.Consts("a!c7 b!c7", DSEQ.sort)
    u, v = z3.Consts("u!c7 v!c7", DIALECT)
    k = z3.Int("k!c7")
    FA, Im, An, Or, Not = z3.ForAll, z3.Implies, z3.And, z3.Or, z3.Not
    # Pattern.sub: what is left of the text, and the replacement where there was a match
    yield FA([s, r, c], Im(ln(c) == 1, smt.contains(NOURL(s, r), c) == Or(smt.contains(NOURL(s, STR.empty), c), An(HASURL(s), smt.contains(r, c)))), patterns=[smt.contains(NOURL(s, r), c)])
    yield FA([s, c], Im(An(ln(c) == 1, smt.contains(NOURL(s, STR.empty), c)), smt.contains(s, c)), patterns=[smt.contains(NOURL(s, STR.empty), c)])
    yield FA([c], Im(ln(c) == 1, Not(smt.contains(STR.empty, c))), patterns=[smt.contains(STR.empty, c)])
    # one-character texts
    yield FA([s], Im(ln(s) == 1, s == unit(at(s, Z(0)))), patterns=[ln(s)])
    # membership and duplicates, by definition
    ix = MEMRIX(R, x)
    yield FA([R, x], Im(MEMR(R, x), An(0 <= ix, ix < ROW.len(R), ROW.at(R, ix) == x)), patterns=[MEMR(R, x)])
    yield FA([R, x, k], Im(An(0 <= k, k < ROW.len(R), ROW.at(R, k) == x), MEMR(R, x)), patterns=[z3.MultiPattern(MEMR(R, x), ROW.at(R, k))])
    yield FA([a, b, v], MEMD(DSEQ.cat(a, b), v) == Or(MEMD(a, v), MEMD(b, v)), patterns=[MEMD(DSEQ.cat(a, b), v)])
    yield FA([u, v], MEMD(DSEQ.unit(u), v) == (u == v), patterns=[MEMD(DSEQ.unit(u), v)])
    yield FA([v], Not(MEMD(DSEQ.empty, v)), patterns=[MEMD(DSEQ.empty, v)])
    yield NODUP(DSEQ.empty)
    yield FA([a, u], NODUP(DSEQ.cat(a, DSEQ.unit(u))) == An(NODUP(a), Not(MEMD(a, u))), patterns=[NODUP(DSEQ.cat(a, DSEQ.unit(u)))])
    yield FA([u], u == DIALECT.mk(dl(u), qu(u), es(u), strict(u)), patterns=[dl(u)])


def admissible(it, x, enc, cats=BLOCK_CAT, chars=BLOCK_CHAR):
    """may be a delimiter, by its category"""
    c = CAT(DEC(x, enc))
    L = it.path.lit
    return z3.Or(x == L("\t"), z3.And(*[x != L(k) for k in chars], *[c != L(k) for k in cats]))


def allowed(it, x, enc, delims):
    """delims: None or a sequence of texts"""
    return admissible(it, x, enc) if delims is None else MEMR(delims, x)


def row_of(it, v):
    if v is None:
        return None
    s = it.as_seq(v)
    if s.et is None:
        return ROW.empty
    if s.et is not it.ETS["str"]:
        raise Unsupported("allowed delimiters that are no texts")
    return s.t


def is_text(v):
    return kind_of(v) == "str"


# ---------------------------------------------------------------- texts in an encoding, categories
def codec_error(it, x, enc):
    """encoding may fail"""
    if it.path.decide(UNENC(x, enc)):
        it.ghost["codec"] = True
        raise it.exc("UnicodeEncodeError")


def encoded(it, a, kw):
    if len(a) + len(kw) < 1 or not is_text(a[0]):
        raise Unsupported("encoding of %r" % (a,))
    enc = a[1] if len(a) > 1 else kw.get("encoding", "utf-8")
    codec_error(it, it.term(a[0]), it.term(enc, "str"))
    return Obj(it, ENCODED, {"x": a[0], "enc": enc})


def decode(it, a, kw):
    o = a[0]
    enc = a[1] if len(a) > 1 else kw.get("encoding", "utf-8")
    if not isinstance(o, Obj) or o.cls is not ENCODED:
        raise Unsupported("decoding of %r" % (o,))
    it.path.check(it.term(enc, "str") == it.term(it.getf(o, "enc"), "str"), "what was encoded is decoded with the same encoding")
    return S("str", DEC(it.term(it.getf(o, "x")), it.term(enc, "str")))


ENCODED = Model("bytes", {"decode": lambda it, o, a, kw: decode(it, [o] + list(a), kw)})


def category(it, a, kw):
    return S("str", CAT(it.term(a[0], "str")))


def url_sub(it, o, a, kw):
    if len(a) != 2 or kw or not is_text(a[0]) or not is_text(a[1]):
        raise Unsupported("use of a pattern")
    if isinstance(a[0], str) and "\\" in a[0]:
        raise Unsupported("template as replacement")
    return S("str", NOURL(it.term(a[1]), it.term(a[0])))


PATTERN = Model("Pattern", {"sub": url_sub}, truth=lambda it, o: True)


def compile_(it, a, kw):
    return Obj(it, PATTERN, {"text": a[0]})


EXTERNALS = {"codecs.decode": decode, "codecs.encode": encoded, "unicodedata.category": category, "regex.compile": compile_, "re.compile": compile_}


# ---------------------------------------------------------------- sets of characters computed when the module is loaded
MODULE = {}


def loaded(it):
    """the module's own code run by the interpreter: its sets of characters"""
    t = it.prog.tree("clevercsv.escape")
    key = ast.dump(t[0])
    if key not in MODULE:
        ns = {"__name__": "clevercsv.escape"}
        try:
            for n in ast.walk(t[0]):
                if isinstance(n, (ast.ImportFrom, ast.Import)):
                    names = [n.module] if isinstance(n, ast.ImportFrom) else [x.name for x in n.names]
                    if any((m or "clevercsv").split(".")[0] not in ("codecs", "sys", "unicodedata", "typing", "functools", "itertools") for m in names):
                        raise Unsupported("import of %s" % names)
            exec(compile(ast.unparse(t[0]), "escape.py", "exec"), ns)
        except Unsupported:
            raise
        except Exception as e:
            raise Unsupported("escape.py: %s" % e)
        MODULE[key] = ns
    return MODULE[key]


def module_value(it, m, name):
    if m.name != "clevercsv.escape":
        return UNSET
    v = loaded(it).get(name)
    if isinstance(v, (set, frozenset)) and all(isinstance(c, str) and len(c) == 1 for c in v):
        return Obj(it, CHARSET, {"v": frozenset(v)})
    return UNSET


def ranges(chars):
    out = []
    for c in sorted(map(ord, chars)):
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return out


def in_chars(x, chars):
    c = at(x, Z(0))
    return z3.And(ln(x) == 1, z3.Or(*[c == a if a == b else z3.And(a <= c, c <= b) for a, b in ranges(chars)]))


def charset_as_set(it, o):
    mem = it.path.fresh("charset", z3.ArraySort(STR.sort, smt.B))
    x = z3.Const("x!cs", STR.sort)
    it.path.assume(z3.ForAll([x], z3.Select(mem, x) == in_chars(x, it.getf(o, "v")), patterns=[z3.Select(mem, x)]))
    return SymSet("str", mem)


def c_op(op):
    def f(it, o, a, kw):
        other = a[0]
        if isinstance(other, Obj) and other.cls is CHARSET:
            x, y = it.getf(o, "v"), it.getf(other, "v")
            return Obj(it, CHARSET, {"v": x - y if op == "Sub" else x & y if op == "BitAnd" else x | y})
        return set_op(it, op, o, other)
    return f


CHARSET = Model("set", {"difference": c_op("Sub"), "intersection": c_op("BitAnd"), "union": c_op("BitOr"), },
                contains=lambda it, o, x: in_chars(it.term(x), it.getf(o, "v")) if is_text(x) else False, as_set=charset_as_set)
PO = None


def po_chars():
    global PO
    if PO is None:
        import sys
        import unicodedata
        PO = {c for c in map(chr, range(sys.maxunicode + 1)) if unicodedata.category(c) == "Po"}
    return PO


def prepare(it):
    it.ghost["symbolic_sets"] = True
    it.ghost["module_value"] = module_value
    it.builtins = dict(it.builtins)
    it.builtins["new:bytes"] = encoded


class C7(Contract):
    externals = EXTERNALS

    def axioms(self):
        return list(axioms())

    def fails(self, it, kind):
        """the only failure allowed is that of a codec"""
        if kind == "raise":
            it.path.check(z3.BoolVal(bool(it.ghost.get("codec"))), "no failure but that of an encoding")
        return kind == "raise"


class UnicodeCategory(C7):
    key = PD + "unicode_category"

    def setup(self, it):
        prepare(it)
        self.x, self.enc = it.fresh("str", "x"), it.fresh("str", "encoding")
        return {"x": self.x, "encoding": self.enc}

    def post(self, it, args, kind, v):
        if not self.fails(it, kind):
            it.path.check(it.term(v, "str") == CAT(DEC(self.x.t, self.enc.t)), "the category of the character")

    def apply(self, it, f, args):
        x, e = it.term(args["x"], "str"), it.term(args["encoding"], "str")
        codec_error(it, x, e)
        return S("str", CAT(DEC(x, e)))


class Escape(C7):
    key = ESC + "is_potential_escapechar"
    timeout = 30000

    def __init__(self, given):
        self.given = given
        self.label = self.key + (" (block_char given)" if given else "")

    def setup(self, it):
        prepare(it)
        self.x, self.enc = it.fresh("str", "char"), it.fresh("str", "encoding")
        a = {"char": self.x, "encoding": self.enc}
        if self.given:
            self.block = it.path.fresh("block", ROW.sort)
            a["block_char"] = it.seq_list(Seq(it.ETS["str"], self.block), frozen=True)
        # categories of characters
        c = z3.Const("c!po", STR.sort)
        it.path.assume(z3.ForAll([c], (CAT(c) == it.path.lit("Po")) == in_chars(c, po_chars()), patterns=[CAT(c)]))
        return a

    def body(self, it, args):
        return it.decide(it.call(it.resolve(self.key), [], args))

    def post(self, it, args, kind, v):
        if self.fails(it, kind):
            return
        low = smt.lower(self.enc.t)
        L = it.path.lit
        x = z3.If(z3.Or(low == L("utf-8"), low == L("ascii")), self.x.t, DEC(self.x.t, self.enc.t))
        u = it.path.fresh("uchar", STR.sort)
        it.path.assume(u == x)
        blocked = MEMR(self.block, u) if self.given else in_chars(u, NOT_ESCAPE)
        want = z3.And(in_chars(u, po_chars()), z3.Not(blocked))
        it.path.check(want == bool(v), "a potential escape is a punctuation character that is not blocked")

    def apply(self, it, f, args):
        if args.get("block_char") is not None:
            raise Unsupported("block_char")
        x, e = it.term(args["char"], "str"), it.term(args["encoding"], "str")
        codec_error(it, x, e)
        return S("bool", POT(x, e))


class FilterUrls(C7):
    key = PD + "filter_urls"

    def setup(self, it):
        prepare(it)
        self.data = it.fresh("str", "data")
        self.given = it.path.choose(2) == 1
        a = {"data": self.data}
        f = it.resolve(self.key)
        self.how = None
        if self.given and len(f.node.args.args) > 1:
            self.how = it.fresh("str", "placeholder")
            a[f.node.args.args[1].arg] = self.how
        return a

    def post(self, it, args, kind, v):
        C = it.path.check
        if kind == "raise":
            C(z3.BoolVal(False), "removing URLs does not fail")
            return
        if self.how is not None:
            C(it.term(v, "str") == NOURL(self.data.t, self.how.t), "each URL is replaced")
            return
        r, c = it.path.fresh("replacement", STR.sort), it.path.fresh("char", STR.sort)
        it.path.assume(ln(c) == 1)
        t = it.term(v, "str")
        C(z3.Implies(smt.contains(NOURL(self.data.t, STR.empty), c), smt.contains(t, c)), "what is no URL stays")

    def apply(self, it, f, args):
        rest = [v for k, v in args.items() if k != "data"]
        if len(rest) > 1 or rest and not is_text(rest[0]):
            raise Unsupported("arguments of filter_urls")
        t = it.term(args["data"], "str")
        if not rest:
            rest = ["U"]
        return S("str", NOURL(t, it.term(rest[0])))


# ---------------------------------------------------------------- delimiters and quote characters
def set_mem(it, v, x):
    """x is in the set v (SetObj)"""
    s = it.getf(v, "v") if isinstance(v, SetObj) else None
    if isinstance(s, list):
        return z3.Or(*[it.term(e, "str") == x for e in s], z3.BoolVal(False))
    if isinstance(s, SymSet) and s.kind == "str":
        return z3.Select(s.mem, x)
    raise Unsupported("a set expected: %r" % (v,))


def of_done(st, x):
    return z3.Select(st.done.mem, x)


class GetDelimiters(C7):
    key = PD + "get_delimiters"

    def __init__(self):
        self.templates = [self.tpl]

    def want(self, it, data, enc, delims, x):
        return z3.Or(ln(x) == 0, z3.And(occurs(data, x), allowed(it, x, enc, delims)))

    def setup(self, it):
        prepare(it)
        self.data, self.enc = it.fresh("str", "data"), it.fresh("str", "encoding")
        self.delims = it.path.fresh("allowed", ROW.sort) if it.path.choose(2) == 1 else None
        return {"data": self.data, "encoding": self.enc, "delimiters": None if self.delims is None else it.seq_list(Seq(it.ETS["str"], self.delims), frozen=True)}

    def tpl(self, it, st):
        out = []
        if st.done is None or st.done.x.kind != "str":
            return out
        x = z3.Const("x!gd", STR.sort)
        for cell, o, v in st.cells():
            if not isinstance(o, SetObj):
                continue
            for nm, extra in (("", z3.BoolVal(False)), (" and none", ln(x) == 0)):
                def f(s2, cell=cell, extra=extra):
                    w = s2.now(cell)
                    body = z3.Or(extra, z3.And(of_done(s2, x), allowed(it, x, self.enc.t, self.delims)))
                    if isinstance(w, list):
                        if any(isinstance(e, S) for e in w):
                            return None
                        m = z3.Or(*[it.term(e, "str") == x for e in w], z3.BoolVal(False))
                        return z3.ForAll([x], m == body)
                    if not isinstance(w, SymSet):
                        return None
                    return smt.forall([x], z3.Select(w.mem, x) == body, patterns=[z3.Select(w.mem, x)])
                out.append(("%s.%s: the admissible ones so far" % cell + nm, f))
        return out

    def post(self, it, args, kind, v):
        if self.fails(it, kind):
            return
        if not isinstance(v, SetObj):
            raise Unsupported("delimiters that are no set")
        x = it.path.fresh("any", STR.sort)
        it.path.assume(z3.Implies(ln(x) == 0, x == STR.empty))
        it.path.check(set_mem(it, v, x) == self.want(it, self.data.t, self.enc.t, self.delims, x), "the delimiters are the admissible characters of the text, and none")

    def apply(self, it, f, args):
        for k in ("block_cat", "block_char"):
            if args.get(k) is not None:
                raise Unsupported(k)
        data, enc, ds = it.term(args["data"], "str"), it.term(args["encoding"], "str"), row_of(it, args.get("delimiters"))
        if it.path.choose(2) == 1:
            it.ghost["codec"] = True
            raise it.exc("UnicodeEncodeError")
        return fresh_set(it, "delim", lambda x: self.want(it, data, enc, ds, x))


def fresh_set(it, role, want):
    mem = it.path.fresh(role + "s", z3.ArraySort(STR.sort, smt.B))
    x = z3.Const("x!" + role, STR.sort)
    it.path.assume(z3.ForAll([x], z3.Select(mem, x) == want(x), patterns=[z3.Select(mem, x)]))
    it.ghost.setdefault("roles", {})[mem.get_id()] = (role, mem)
    return SetObj(it, SymSet("str", mem))


MEMP, MEMPIX = z3.Function("is_among_the_first", ROW.sort, I, STR.sort, Bo), z3.Function("among_the_first_at", ROW.sort, I, STR.sort, I)


class GetQuotes(C7):
    key = PD + "get_quotechars"

    def __init__(self):
        self.templates = [self.tpl]

    def axioms(self):
        r, x = z3.Const("r!mp", ROW.sort), z3.Const("x!mp", STR.sort)
        n, k = z3.Ints("n!mp k!mp")
        ix = MEMPIX(r, n, x)
        return C7.axioms(self) + [
            z3.ForAll([r, n, x], z3.Implies(MEMP(r, n, x), z3.And(0 <= ix, ix < n, ROW.at(r, ix) == x)), patterns=[MEMP(r, n, x)]),
            z3.ForAll([r, n, x, k], z3.Implies(z3.And(0 <= k, k < n, ROW.at(r, k) == x), MEMP(r, n, x)), patterns=[z3.MultiPattern(MEMP(r, n, x), ROW.at(r, k))])]

    def tpl(self, it, st):
        """a set filled in a loop over the given quote characters"""
        out = []
        if self.given is None or st.n is None or st.done is not None:
            return out
        x = z3.Const("x!gq", STR.sort)
        for cell, o, v in st.cells():
            if not isinstance(o, SetObj):
                continue
            for nm, extra in (("", z3.BoolVal(False)), (" and none", ln(x) == 0)):
                def f(s2, cell=cell, extra=extra):
                    w = s2.now(cell)
                    body = z3.Or(extra, z3.And(MEMP(self.given, s2.idx, x), smt.contains(self.data.t, x)))
                    if isinstance(w, list):
                        if any(isinstance(e, S) for e in w):
                            return None
                        return z3.ForAll([x], z3.Or(*[it.term(e, "str") == x for e in w], z3.BoolVal(False)) == body)
                    if not isinstance(w, SymSet):
                        return None
                    return smt.forall([x], z3.Select(w.mem, x) == body, patterns=[z3.Select(w.mem, x)])
                out.append(("%s.%s: the quote characters so far" % cell + nm, f))
        return out

    def setup(self, it):
        prepare(it)
        self.data = it.fresh("str", "data")
        self.given = it.path.fresh("given", ROW.sort) if it.path.choose(2) == 1 else None
        if self.given is not None:
            k = z3.Int("k!given")
            it.path.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ROW.len(self.given)), ln(ROW.at(self.given, k)) == 1), patterns=[ROW.at(self.given, k)]))
        return {"data": self.data, "quote_chars": None if self.given is None else it.seq_list(Seq(it.ETS["str"], self.given), frozen=True)}

    def want(self, it, data, x):
        return z3.Or(ln(x) == 0, z3.And(occurs(data, x), z3.Or(*[x == it.path.lit(q) for q in QUOTES])))

    def post(self, it, args, kind, v):
        C = it.path.check
        if kind == "raise":
            C(z3.BoolVal(False), "looking for quote characters does not fail")
            return
        x = it.path.fresh("any", STR.sort)
        it.path.assume(z3.Implies(ln(x) == 0, x == STR.empty))
        if not isinstance(v, SetObj):
            raise Unsupported("quote characters that are no set")
        w = self.want(it, self.data.t, x) if self.given is None else z3.Or(ln(x) == 0, z3.And(occurs(self.data.t, x), MEMR(self.given, x)))
        C(set_mem(it, v, x) == w, "the quote characters are those of the text, and none")

    def apply(self, it, f, args):
        if args.get("quote_chars") is not None:
            raise Unsupported("quote_chars")
        data = it.term(args["data"], "str")
        return fresh_set(it, "quote", lambda x: self.want(it, data, x))


class Pairwise(C7):
    """the neighbouring pairs of a text"""
    key = "clevercsv.utils.pairwise"

    def setup(self, it):
        prepare(it)
        self.s = it.fresh("str", "s")
        return {"iterable": self.s}

    def post(self, it, args, kind, v):
        C = it.path.check
        if kind == "raise":
            C(z3.BoolVal(False), "pairing does not fail")
            return
        s = it.idx_source(v)
        if s is None:
            raise Unsupported("pairs that cannot be indexed")
        n = Z(s.n) if isinstance(s.n, int) else s.n
        C(n == pairs(self.s.t), "one pair for each neighbouring pair")
        k = it.path.fresh("k", I)
        it.path.assume(z3.And(0 <= k, k < n))
        if s.n == 0:
            return
        e = s.get(it, k)
        if not isinstance(e, tuple) or len(e) != 2:
            C(z3.BoolVal(False), "the elements are pairs")
            return
        C(z3.And(it.term(e[0], "str") == unit(at(self.s.t, k)), it.term(e[1], "str") == unit(at(self.s.t, k + 1))), "each pair holds a character and the one after it")

    def apply(self, it, f, args):
        v = args["iterable"]
        if not is_text(v):
            raise Unsupported("pairs of %r" % (v,))
        t = it.term(v)
        return Idx(pairs(t), lambda it2, k: (S("str", unit(at(t, k))), S("str", unit(at(t, k + 1)))), base=Seq(it.ETS["char"], t))


class MaskedBy(C7):
    """contract of masked_by_quotechar: a function of its arguments"""
    key = PD + "masked_by_quotechar"

    def apply(self, it, f, args):
        return S("bool", MASKED(*[it.term(args[k], "str") for k in ("data", "quotechar", "escapechar", "test_char")]))


# ---------------------------------------------------------------- the dict of sets and the dict of booleans
def pair(it, k):
    if isinstance(k, tuple) and len(k) == 2 and all(is_text(x) for x in k):
        return it.term(k[0]), it.term(k[1])
    return None


def m_set(it, o, k, v):
    p = pair(it, k)
    if p is not None:
        if isinstance(v, Obj) and v.cls is VIEW:
            return None         # x[k] |= ...: the set changed in place
        if not isinstance(v, SetObj):
            raise Unsupported("value %r" % (v,))
        x = z3.Const("x!ms", DIALECT)
        old = it.getf(o, "mem").t
        new = it.path.fresh("mem", DSET)
        key = z3.And(dl(x) == p[0], qu(x) == p[1])
        it.path.assume(z3.ForAll([x], z3.Select(new, x) == z3.If(key, z3.And(z3.Not(strict(x)), set_mem(it, v, es(x))), z3.Select(old, x)), patterns=[z3.Select(new, x)]))
        it.setf(o, "mem", S("dset", new))
        it.setf(o, "has", S("dset", z3.Store(it.getf(o, "has").t, mk(p[0], p[1], STR.empty), z3.BoolVal(True))))
        v.frozen = True
        return None
    if is_text(k) and kind_of(v) == "bool":
        it.setf(o, "chas", S("fsex", z3.Store(it.getf(o, "chas").t, it.term(k), z3.BoolVal(True))))
        it.setf(o, "cval", S("fsex", z3.Store(it.getf(o, "cval").t, it.term(k), it.term(v, "bool"))))
        return None
    raise Unsupported("entry %r: %r" % (k, v))


def m_has(it, o, k):
    p = pair(it, k)
    if p is not None:
        return z3.Select(it.getf(o, "has").t, mk(p[0], p[1], STR.empty))
    if is_text(k):
        return z3.Select(it.getf(o, "chas").t, it.term(k))
    raise Unsupported("key %r" % (k,))


def m_get(it, o, k):
    if not it.path.decide(m_has(it, o, k)):
        raise it.exc("KeyError")
    p = pair(it, k)
    if p is not None:
        return Obj(it, VIEW, {"map": o, "d": S("str", p[0]), "q": S("str", p[1])})
    return S("bool", z3.Select(it.getf(o, "cval").t, it.term(k)))


def m_dflt(it, o, a, kw):
    return m_get(it, o, a[0]) if it.path.decide(m_has(it, o, a[0])) else (a[1] if len(a) > 1 else None)


def m_setdefault(it, o, a, kw):
    if not it.path.decide(m_has(it, o, a[0])):
        m_set(it, o, a[0], a[1])
    return m_get(it, o, a[0])


CMAP = Model("dict", {"get": m_dflt, "setdefault": m_setdefault}, setitem=m_set, getitem=m_get, contains=m_has)


def v_add(it, o, a, kw):
    m = it.getf(o, "map")
    x = mk(it.getf(o, "d").t, it.getf(o, "q").t, it.term(a[0], "str"))
    it.setf(m, "mem", S("dset", z3.Store(it.getf(m, "mem").t, x, z3.BoolVal(True))))


def v_set(it, o):
    m, d, q = it.getf(it.getf(o, "map"), "mem").t, it.getf(o, "d").t, it.getf(o, "q").t
    mem = it.path.fresh("escs", z3.ArraySort(STR.sort, smt.B))
    e = z3.Const("e!vs", STR.sort)
    it.path.assume(z3.ForAll([e], z3.Select(mem, e) == z3.Select(m, mk(d, q, e)), patterns=[z3.Select(mem, e), z3.Select(m, mk(d, q, e))]))
    it.ghost.setdefault("roles", {})[mem.get_id()] = ("esc", mem)
    return SymSet("str", mem)


VIEW = Model("set", {"add": v_add}, as_set=v_set, iterate=lambda it, o, body, key: it.iterate(SetObj(it, v_set(it, o)), body, key),
             contains=lambda it, o, x: z3.Select(it.getf(it.getf(o, "map"), "mem").t, mk(it.getf(o, "d").t, it.getf(o, "q").t, it.term(x, "str"))))


def new_map(it):
    none, cnone = z3.K(DIALECT, z3.BoolVal(False)), z3.K(STR.sort, z3.BoolVal(False))
    return Obj(it, CMAP, {"has": S("dset", none), "mem": S("dset", none), "chas": S("fsex", cnone), "cval": S("fsex", cnone)})


def dseq(it, x):
    if isinstance(x, ListObj):
        x = it.getf(x, "v")
    if isinstance(x, list):
        return DSEQ.empty if not x else None
    return x.t if isinstance(x, Seq) and x.et is it.ETS["dialect"] else None


PART = {"delim": dl, "quote": qu, "esc": es}


class GetDialects(C7):
    key = PD + "get_dialects"
    budget = 400

    def __init__(self):
        self.templates = [self.tpl]

    def setup(self, it):
        prepare(it)
        it.ghost["new_map"] = new_map
        self.data, self.enc = it.fresh("str", "data"), it.fresh("str", "encoding")
        self.delims = it.path.fresh("allowed", ROW.sort) if it.path.choose(2) == 1 else None
        self.tm = it.fresh("bool", "test_masked_by_quotes")
        D = self.data.t
        it.path.assume(fol_at(D, Z(0)))
        self.n = it.path.fresh("n", I)
        it.path.assume(self.n == pairs(D))
        it.path.assume(fol_occurs(D, self.n))
        return {"data": self.data, "encoding": self.enc, "test_masked_by_quotes": self.tm,
                "delimiters": None if self.delims is None else it.seq_list(Seq(it.ETS["str"], self.delims), frozen=True)}

    def kept(self, x):
        return z3.Not(z3.And(self.tm.t, MASKED(self.data.t, qu(x), es(x), dl(x))))

    def before(self, n, x):
        D = self.data.t
        return z3.And(POT(es(x), self.enc.t), z3.Or(FOL(D, n, dl(x), es(x)), FOL(D, n, qu(x), es(x))))

    def tpl(self, it, st):
        sts = it.ghost.get("sts", [])[:len(it.loops)]
        while len(sts) < len(it.loops):
            sts.append(None)
        it.ghost["sts"] = sts + [st]
        outer = [s for s in sts if s is not None]
        roles = it.ghost.get("roles", {})
        D = self.data.t

        def role(s):
            if s.done is None:
                return None
            r = roles.get(s.done.x.mem.get_id())
            if r is None or s.done.x.kind != "str":
                raise Unsupported("iteration over a set of unknown meaning")
            return r[0]
        mine = role(st)
        x = z3.Const("x!tp", DIALECT)
        u = z3.Const("u!tp", STR.sort)
        whole = {r[0]: m for m, r in ((r[1], r) for r in roles.values())}

        def around(s2):
            """the part of the dialects this loop and those around it have gone through"""
            c = [z3.Not(strict(x))]
            seen = set()
            for s in outer:
                r = role(s)
                if r is not None:
                    c.append(PART[r](x) == s.done.cur)
                    seen.add(r)
            if mine is not None:
                c.append(z3.Select(s2.done.mem, PART[mine](x)))
                seen.add(mine)
            for r in ("delim", "quote"):
                if r not in seen and r in whole:
                    c.append(z3.Select(whole[r], PART[r](x)))
            return z3.And(*c)
        scan = [s for s in outer if s.done is None and s.n is not None]
        out = []
        ent = lambda cell: st.entry.get(cell, UNSET)
        for cell, o, v in st.cells():
            nm = "%s.%s" % cell
            e = ent(cell)
            if isinstance(o, Obj) and o.cls is CMAP:
                def rel(nm2, what, cell=cell, e=e):
                    def f(s2):
                        now = s2.now(cell).t
                        return smt.forall([x], z3.Select(now, x) == z3.Or(z3.Select(e.t, x), z3.And(around(s2), what())), patterns=[z3.Select(now, x)])
                    out.append((nm + " " + nm2, f))
                if cell[1] in ("has", "mem") and mine is not None:
                    rel("gains the empty escape", lambda: es(x) == STR.empty)
                    if scan:
                        k = scan[-1].idx
                        cu, cv = unit(at(D, k)), unit(at(D, k + 1))
                        rel("gains the character before", lambda cu=cu, cv=cv: z3.And(es(x) == cu, z3.Or(dl(x) == cv, qu(x) == cv)))
                if cell[1] == "mem" and mine is None and st.n is not None:
                    def f(s2, cell=cell):
                        it.path.assume(fol_at(D, s2.idx))
                        now = s2.now(cell).t
                        b = z3.And(z3.Not(strict(x)), *[z3.Select(whole[r], PART[r](x)) for r in ("delim", "quote") if r in whole])
                        return smt.forall([x], z3.Select(now, x) == z3.And(b, z3.Or(es(x) == STR.empty, self.before(s2.idx, x))), patterns=[z3.Select(now, x)])
                    out.append((nm + " holds those before a delimiter or quote", f))
                if cell[1] in ("chas", "cval"):
                    def g(s2, o=o):
                        h = o.f["chas"].t
                        return smt.forall([u], z3.Implies(z3.Select(h, u), z3.Select(o.f["cval"].t, u) == POT(u, self.enc.t)), patterns=[z3.Select(h, u)])
                    out.append((nm + " remembers the verdicts", g))
            elif isinstance(e, (list, Seq, ListObj)) and mine is not None:
                maps = [m for m in it.objs.values() if isinstance(m, Obj) and m.cls is CMAP]

                def f(s2, cell=cell, e=e):
                    now, old = dseq(it, s2.now(cell)), dseq(it, e)
                    if now is None or old is None:
                        return None
                    got = z3.Or(*[z3.And(z3.Select(m.f["mem"].t, x)) for m in maps], z3.BoolVal(False))
                    return smt.forall([x], MEMD(now, x) == z3.Or(MEMD(old, x), z3.And(around(s2), got, self.kept(x))), patterns=[MEMD(now, x)])
                out.append((nm + " holds those gone through", f))

                def g(s2, cell=cell):
                    now = dseq(it, s2.now(cell))
                    return None if now is None else NODUP(now)
                out.append((nm + " has no duplicates", g))
        return out

    def post(self, it, args, kind, v):
        if self.fails(it, kind):
            return
        C = it.path.check
        L = dseq(it, v)
        if L is None:
            raise Unsupported("candidates %r" % (v,))
        D, enc = self.data.t, self.enc.t
        x = it.path.fresh("any", DIALECT)
        N = NOURL(D, STR.empty)
        for p in (dl, qu, es):
            it.path.assume(z3.Implies(ln(p(x)) == 0, p(x) == STR.empty))
        it.path.assume(x == DIALECT.mk(dl(x), qu(x), es(x), strict(x)))
        d_ok = z3.Or(ln(dl(x)) == 0, z3.And(occurs(N, dl(x)), allowed(it, dl(x), enc, self.delims)))
        q_ok = z3.Or(ln(qu(x)) == 0, z3.And(occurs(N, qu(x)), z3.Or(*[qu(x) == it.path.lit(q) for q in QUOTES])))
        e_ok = z3.Or(ln(es(x)) == 0, self.before(self.n, x))
        C(NODUP(L), "the candidates have no duplicates")
        C(z3.Implies(MEMD(L, x), z3.And(z3.Not(strict(x)), d_ok)), "every delimiter is admissible and stands outside URLs")
        C(z3.Implies(MEMD(L, x), q_ok), "every quote character is admissible and stands outside URLs")
        C(z3.Implies(MEMD(L, x), e_ok), "every escape character is admissible and stands before the delimiter or quote")
        C(z3.Implies(MEMD(L, x), self.kept(x)), "masked dialects are left out when asked for")
        C(z3.Implies(z3.And(z3.Not(strict(x)), d_ok, q_ok, e_ok, self.kept(x)), MEMD(L, x)), "every combination is there")
        C(z3.Implies(MEMD(L, x), z3.And(*[z3.Or(ln(p(x)) == 0, occurs(D, p(x))) for p in (dl, qu, es)])), "every character stands in the sample")
        if self.delims is not None:
            C(z3.Implies(MEMD(L, x), z3.Or(ln(dl(x)) == 0, MEMR(self.delims, dl(x)))), "only the allowed delimiters are used")


# ---------------------------------------------------------------- the entry points hand the allowed delimiters on
class Within:
    """contract of a detection step: nothing, or a dialect over the sample and the allowed delimiters"""

    def __init__(self, key, data):
        self.key, self.data = key, data

    def apply(self, it, f, args):
        con = it.con
        C = it.path.check
        C(it.term(args[self.data], "str") == con.data.t if is_text(args[self.data]) else z3.BoolVal(False), "detection looks at the sample")
        ds = args.get("delimiters")
        if con.delims is None:
            C(z3.BoolVal(ds is None), "no delimiters are made up")
        elif ds is None:
            C(z3.BoolVal(False), "the allowed delimiters are handed on")
        else:
            C(row_of(it, ds) == con.delims, "the allowed delimiters are handed on")
        if it.path.choose(2) == 0:
            return None
        r = it.ETS["dialect"].wrap(it, it.path.fresh("found", DIALECT))
        con.found.append(r)
        return r


class Entry(C7):
    must_reach = ("return",)

    def __init__(self, key, data, how=()):
        self.key, self.data_name, self.how = key, data, how

    def setup(self, it):
        prepare(it)
        self.data = it.fresh("str", "sample")
        self.found = []
        self.delims = it.path.fresh("allowed", ROW.sort) if it.path.choose(2) == 1 else None
        ds = None
        if self.delims is not None:
            ds = it.seq_list(Seq(it.ETS["str"], self.delims), frozen=True)
            if it.path.choose(2) == 1:
                ds = it.call(it.builtins["iter"], [ds], {})         # gone through only once
        a = {self.data_name: self.data, "delimiters": ds, "verbose": it.fresh("bool", "verbose")}
        if "method" in self.how:
            k = it.path.choose(4)
            if k:
                a["method"] = ("auto", "normal", "consistency")[k - 1]
        if "skip" in self.how:
            a["skip"] = it.fresh("bool", "skip")
        return a

    def body(self, it, args):
        cls, _, m = self.key.rpartition(".")
        if self.key.count(".") > 2:
            return it.call(it.getattr(it.call(it.resolve(cls), [], {}), m), [], args)
        return it.call(it.resolve(self.key), [], args)

    def post(self, it, args, kind, v):
        C = it.path.check
        if kind == "raise":
            C(z3.BoolVal(False), "detection does not fail by itself")
            return
        C(z3.BoolVal(v is None or any(v is r for r in self.found)), "the result is what a detection step found")


def cons_obj(it, o, a, kw):
    return Within("", "data").apply(it, None, dict({"data": a[0], "delimiters": a[1] if len(a) > 1 else None}, **kw))


class TypeDet:
    """a type detector; no entry point uses it"""

    def construct(self, it, cls, args, kw):
        return Obj(it, Model("TypeDetector", {"is_known_type": lambda it2, o, a, k: None}), {})


CONSISTENCY = "clevercsv.consistency.ConsistencyDetector.detect"
WITHIN = {"clevercsv.normal_form.detect_dialect_normal": Within("", "data"), CONSISTENCY: Within("", "data"),
          "class:clevercsv.detect_type.TypeDetector": TypeDet()}
PARTS = [UnicodeCategory(), Escape(False), FilterUrls(), GetDelimiters(), GetQuotes(), Pairwise(), GetDialects()]
ENTRIES = [Entry("clevercsv.detect.Detector.detect", "sample", ("method", "skip")), Entry("clevercsv.detect.Detector.sniff", "sample"),
           Entry("clevercsv.consistency.detect_dialect_consistency", "data", ("skip",))]
ASSUMED = {c.key: c for c in PARTS + [MaskedBy()]}
CONTRACTS = PARTS + [Escape(True)] + ENTRIES + [Lemma("what stands before a character occurs in the text (induction on the pairs)", lemmas, smt.string_axioms)]
for c in PARTS:
    c.assumed = {k: v for k, v in ASSUMED.items() if k != c.key}
CONTRACTS[len(PARTS)].assumed = {}
for c in ENTRIES:
    c.assumed = dict(WITHIN)
TRUSTED = ["unicodedata.category and the codecs are functions of their arguments; the character sets of escape.py are computed by the interpreter from the module's source",
           "Pattern.sub keeps the characters outside matches and adds only those of the replacement; which texts are URLs is what PATTERN_URL matches",
           "masked_by_quotechar is a function of its arguments (only used with test_masked_by_quotes)",
           "detect_dialect_normal and ConsistencyDetector.detect return one of the dialects considered (C20, C08)"]
