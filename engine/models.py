"""Trusted contracts: Python builtins and the library functions the repository calls."""
import z3
from fractions import Fraction
from . import smt
from .smt import STR, ROW, TABLE, ISEQ, OSEQ, U, Unsupported
from .vals import *
from .pysym import PyExc, BreakEx, StarSeq, Poison, Interp, is_any

B = {}      # builtins


def bi(name):
    def deco(fn):
        B[name] = BuiltinFn(name, fn)
        return fn
    return deco


def method(t, name):
    def deco(fn):
        B["method:%s.%s" % (t, name)] = fn
        return fn
    return deco


# ------------------------------------------------------------------ classes
OBJECT = ClassVal("object", [], {}, py=object)
B["object"] = OBJECT


def _cls(name, py, bases=()):
    c = ClassVal(name, list(bases) or [OBJECT], {}, py=py)
    B[name] = c
    return c


for n in ("str", "int", "float", "complex", "list", "dict", "set", "tuple", "type", "bytes", "frozenset"):
    _cls(n, {"type": type}.get(n) or getattr(__builtins__, n, None) if not isinstance(__builtins__, dict) else __builtins__[n])
_cls("bool", bool, [B["int"]])
for n in ("BaseException",):
    _cls(n, BaseException)
_EXC = ["Exception", "StopIteration", "ArithmeticError", "OverflowError:ArithmeticError", "ZeroDivisionError:ArithmeticError",
        "AssertionError", "AttributeError", "LookupError", "IndexError:LookupError", "KeyError:LookupError", "NameError",
        "UnboundLocalError:NameError", "OSError", "FileNotFoundError:OSError", "RuntimeError", "RecursionError:RuntimeError",
        "NotImplementedError:RuntimeError", "TypeError", "ValueError", "UnicodeError:ValueError", "UnicodeDecodeError:UnicodeError",
        "UnicodeEncodeError:UnicodeError", "Warning", "UserWarning:Warning", "MemoryError", "ImportError",
        "ModuleNotFoundError:ImportError"]
import builtins as _b
for e in _EXC:
    n, _, base = e.partition(":")
    _cls(n, getattr(_b, n), [B[base or ("BaseException" if n == "Exception" else "Exception")]])
_cls("KeyboardInterrupt", KeyboardInterrupt, [B["BaseException"]])
_cls("SystemExit", SystemExit, [B["BaseException"]])
_cls("GeneratorExit", GeneratorExit, [B["BaseException"]])
B["IOError"] = B["OSError"]
JSONDecodeError = ClassVal("json.JSONDecodeError", [B["ValueError"]], {}, py=__import__("json").JSONDecodeError)


# ------------------------------------------------------------------ operators
def infinite(it, op, x, y, left):
    """arithmetic of an infinity with a finite number"""
    if op == "Add" or op == "Sub":
        return x if left or op == "Add" else -x
    if op == "Div" and not left:
        return S("flt", z3.RealVal(0))
    if op in ("Mult", "Div"):
        t = it.term(y, "flt")
        if not it.path.decide(t == 0):
            return x if it.path.decide(t > 0) else -x
    raise Unsupported("arithmetic with infinity")


def binop(it, op, a, b):
    ka, kb = kind_of(a), kind_of(b)
    if isinstance(a, (Poison, Maybe)) or isinstance(b, (Poison, Maybe)):
        raise Unsupported("value lost at a loop")
    if ka and kb and not isinstance(a, S) and not isinstance(b, S):
        import operator
        fn = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv, "FloorDiv": operator.floordiv,
              "Mod": operator.mod, "LShift": operator.lshift, "RShift": operator.rshift, "BitAnd": operator.and_, "BitOr": operator.or_,
              "Pow": operator.pow}.get(op)
        if fn:
            try:
                return fn(a, b)
            except ZeroDivisionError:
                raise it.exc("ZeroDivisionError")
            except TypeError:
                raise it.exc("TypeError")
    num = ("int", "bool", "flt")
    if op == "Mod" and ka == "str":
        return percent(it, a, b)
    if ka in num and kb in num:
        if "flt" in (ka, kb) or op == "Div":
            if op == "Div":
                z = it.eq(b, 0)
                if it.path.decide(z):
                    raise it.exc("ZeroDivisionError")
            for x, y in ((a, b), (b, a)):
                if isinstance(x, float) and x in (float("inf"), -float("inf")):
                    return infinite(it, op, x, y, x is a)
            fn = {"Add": smt.fadd, "Sub": smt.fsub, "Mult": smt.fmul, "Div": smt.fdiv}.get(op)
            if fn is None:
                raise Unsupported("float " + op)
            return S("flt", fn(it.term(a, "flt"), it.term(b, "flt")))
        x, y = it.term(a, "int"), it.term(b, "int")
        if op == "Add":
            return S("int", x + y)
        if op == "Sub":
            return S("int", x - y)
        if op == "Mult":
            return S("int", x * y)
        if op in ("Mod", "FloorDiv") and isinstance(b, int) and b > 0:
            return S("int", x % y if op == "Mod" else x / y)
        raise Unsupported("int " + op)
    if op == "Add" and ka == "str" and kb == "str":
        return it.str_cat([a, b])
    if op == "Add" and ka == "bytes" and kb == "bytes":
        return S("bytes", STR.cat(it.term(a), it.term(b)))
    if op == "Mult" and isinstance(a, ListObj) and kb == "int":
        items = it.getf(a, "v")
        if isinstance(items, list) and isinstance(b, int):
            return it.new_list(items * b)
        if isinstance(items, Seq) and items.et is not None and it.path.decide(it.seq_len(items) == 1):
            items = [it.seq_idx(items).get(it, z3.IntVal(0))]
        if isinstance(items, list) and len(items) == 1:
            et = it.et_for(items[0])
            if et is None:
                raise Unsupported("list repetition")
            s = it.fresh_seq(et, "rep")
            n = it.term(b, "int")
            k = z3.Int("k!rep")
            e = et.unwrap(items[0])
            it.path.assume(et.th.len(s.t) == z3.If(n > 0, n, z3.IntVal(0)))
            it.path.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), et.th.at(s.t, k) == e), patterns=[et.th.at(s.t, k)]))
            return it.seq_list(s)
    if op == "Add" and isinstance(a, ListObj) and isinstance(b, ListObj):
        v = it.seq_cat(it.getf(a, "v"), it.getf(b, "v"))
        return ListObj(it, v)
    if op == "Add" and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if isinstance(a, SetObj) or isinstance(b, SetObj) or isinstance(a, DictKeys):
        return set_op(it, op, a, b)
    if ka and kb:
        raise it.exc("TypeError", "unsupported operand")
    h = getattr(getattr(a, "cls", None), "binop", None) or getattr(getattr(b, "cls", None), "binop", None)
    if h:
        return h(it, op, a, b)
    raise Unsupported("%s of %r and %r" % (op, a, b))


B["binop"] = binop


def percent(it, a, b):
    if isinstance(a, str):
        args = b if isinstance(b, tuple) else (b,)
        import re
        parts, pos, k = [], 0, 0
        for m in re.finditer(r"%(%|[-+ #0]*\d*(?:\.\d+)?[sdrifgG])", a):
            parts.append(a[pos:m.start()])
            pos = m.end()
            if m.group(1) == "%":
                parts.append("%")
                continue
            if k >= len(args):
                raise it.exc("TypeError", "not enough arguments")
            x = args[k]
            k += 1
            if m.group(1) == "s":
                parts.append(it.to_str(x))
            elif m.group(1) == "r":
                parts.append(it.call(it.builtins["repr"], [x], {}))
            elif m.group(1) in ("d", "i") and isinstance(x, int):
                parts.append(str(x))
            else:
                parts.append(opaque_fmt(it))
        parts.append(a[pos:])
        return it.str_cat(parts)
    return opaque_fmt(it)


def opaque_fmt(it):
    if it.ghost.get("strict_fmt"):
        raise Unsupported("formatting")
    return it.fresh("str", "fmt")


def compare(it, op, a, b):
    if (is_any(a) or is_any(b)) and op not in ("Is", "IsNot"):
        if it.path.choose(2) == 1:
            raise any_exception(it)
        return it.path.fresh("anycmp", smt.B)
    if op == "Is" or op == "IsNot":
        r = is_(it, a, b)
        return r if op == "Is" else it.neg(r)
    if op == "Eq":
        return it.eq(a, b)
    if op == "NotEq":
        return it.neg(it.eq(a, b))
    if op in ("In", "NotIn"):
        r = contains(it, b, a)
        return r if op == "In" else it.neg(r)
    ka, kb = kind_of(a), kind_of(b)
    if ka and kb:
        if not isinstance(a, S) and not isinstance(b, S):
            try:
                return {"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b}[op]()
            except TypeError:
                raise it.exc("TypeError")
        num = ("int", "bool", "flt")
        if ka in num and kb in num:
            for x, other_side in ((a, 0), (b, 1)):
                if isinstance(x, float) and x in (float("inf"), -float("inf")):
                    big = x > 0
                    if other_side == 0:     # inf op finite
                        return {"Lt": not big, "LtE": not big, "Gt": big, "GtE": big}[op]
                    return {"Lt": big, "LtE": big, "Gt": not big, "GtE": not big}[op]
            k = "flt" if "flt" in (ka, kb) else "int"
            x, y = it.term(a, k), it.term(b, k)
            return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op]
        if ka == kb == "str":
            x, y = it.term(a), it.term(b)
            it.path.assume(STR.ext(x, y))
            return {"Lt": lambda: smt.str_lt(x, y), "Gt": lambda: smt.str_lt(y, x), "LtE": lambda: z3.Not(smt.str_lt(y, x)),
                    "GtE": lambda: z3.Not(smt.str_lt(x, y))}[op]()
        if "obj" in (ka, kb):
            raise Unsupported("order of opaque objects")
        raise it.exc("TypeError", "not ordered")
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            raise Unsupported("order of tuples of different lengths")
        # lexicographic, forking on equality of the components like Python does
        for x, y in zip(a, b):
            if not it.path.decide(it.eq(x, y)):
                return compare(it, op, x, y)
        return op in ("LtE", "GtE")
    if isinstance(a, Obj) and isinstance(a.cls, ClassVal):
        name = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op]
        m = a.cls.lookup(name)
        if m is not None:
            return it.truth(it.call(Bound(m, a), [b], {}))
        if "total_ordering" in a.cls.decorators and a.cls.lookup("__lt__"):
            lt = it.truth(it.call(Bound(a.cls.lookup("__lt__"), a), [b], {}))
            if op == "LtE":
                return it.disj([lt, it.eq(a, b)])
            if op == "Gt":
                return it.conj([it.neg(lt), it.neg(it.eq(a, b))])
            return it.neg(lt)
    if a is None or b is None:
        raise it.exc("TypeError", "not ordered")
    raise Unsupported("comparison of %r and %r" % (a, b))


B["compare"] = compare


def is_(it, a, b):
    if isinstance(a, (Poison, Maybe)) or isinstance(b, (Poison, Maybe)):
        raise Unsupported("value lost at a loop")
    if is_any(a) or is_any(b):
        return it.path.fresh("anyis", smt.B)
    if a is None or b is None:
        o = b if a is None else a
        if isinstance(o, S) and o.kind == "obj":
            return smt.obj_is_none(o.t)
        return o is None
    if isinstance(a, (bool,)) or isinstance(b, (bool,)):
        if kind_of(a) == "bool" and kind_of(b) == "bool":
            return it.eq(a, b)
        return False
    if isinstance(a, (S, str, int, float, tuple)) or isinstance(b, (S, str, int, float, tuple)):
        if kind_of(a) != kind_of(b):
            return False
        raise Unsupported("identity of values")
    return a is b


def contains(it, c, x):
    c = it.blur(c)
    if isinstance(c, (tuple,)):
        return it.member(x, c)
    if isinstance(c, ListObj):
        v = it.getf(c, "v")
        if isinstance(v, list):
            return it.member(x, v)
        if v.et is None:
            return False
        e = v.et.unwrap(x)
        w = it.path.fresh("memw", smt.I)
        n = v.et.th.len(v.t)
        k = z3.Int("k!mem")
        m = it.path.fresh("mem", smt.B)
        it.path.assume(z3.Implies(m, z3.And(0 <= w, w < n, v.et.th.at(v.t, w) == e)))
        it.path.assume(z3.Implies(z3.Not(m), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), v.et.th.at(v.t, k) != e), patterns=[v.et.th.at(v.t, k)])))
        return m
    if isinstance(c, SetObj):
        v = it.getf(c, "v")
        if isinstance(v, list):
            return it.member(x, v)
        if kind_of(x) != v.kind:
            return False
        return z3.Select(v.mem, it.term(x, v.kind))
    if isinstance(c, DictObj):
        v = it.getf(c, "v")
        if isinstance(v, list):
            return it.member(x, [k for k, _ in v])
    if kind_of(c) == "str":
        if kind_of(x) != "str":
            raise it.exc("TypeError", "in <string>")
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(x, str) and x == "":
            return True
        return smt.contains(it.term(c), it.term(x))
    h = getattr(getattr(c, "cls", None), "contains", None)
    if h:
        return h(it, c, x)
    if isinstance(c, GenExpV) or isinstance(c, MapV):
        return it.truth(it.call(B["any"], [MapV(BuiltinFn("eqx", lambda i2, a, k: i2.wrap_bool(i2.eq(a[0], x))), [c])], {}))
    if c is None:
        raise it.exc("TypeError", "not a container")
    raise Unsupported("membership in %r" % (c,))


def getitem(it, v, k):
    v = it.blur(v)
    if isinstance(v, StarSeq):
        raise Unsupported("star")
    if isinstance(v, DictObj):
        items = it.getf(v, "v")
        if isinstance(items, list):
            for kk, vv in items:
                if it.path.decide(it.eq(kk, k)):
                    return vv
            raise it.exc("KeyError", k)
    gi = getattr(getattr(v, "cls", None), "getitem", None)
    if gi:
        return gi(it, v, k)
    if isinstance(v, (tuple, list)):
        if isinstance(k, int):
            if not -len(v) <= k < len(v):
                raise it.exc("IndexError")
            return v[k]
    src = it.idx_source(v) if not isinstance(v, (DictObj, SetObj)) else None
    if src is not None:
        if kind_of(k) not in ("int", "bool"):
            raise it.exc("TypeError", "index")
        if isinstance(src.n, int) and isinstance(k, int):
            if not -src.n <= k < src.n:
                raise it.exc("IndexError")
            return src.get(it, k % src.n)
        n = z3.IntVal(src.n) if isinstance(src.n, int) else src.n
        if isinstance(k, int):
            if k >= 0:
                ok = n > k
                kt = z3.IntVal(k)
            else:
                ok = n >= -k
                kt = n + k
            if not it.path.decide(ok):
                raise it.exc("IndexError")
        else:
            kt = it.term(k, "int")
            if not it.path.decide(z3.And(kt >= 0, kt < n)):
                if not it.path.decide(z3.And(kt < 0, kt >= -n)):
                    raise it.exc("IndexError")
                kt = n + kt
            if isinstance(src.n, int):
                for i in range(src.n - 1):
                    if it.path.decide(kt == i):
                        return src.get(it, i)
                return src.get(it, src.n - 1)
        return src.get(it, kt)
    if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
        m = v.cls.lookup("__getitem__")
        if m is not None:
            return it.call(Bound(m, v), [k], {})
    if v is None or isinstance(v, (int, float)):
        raise it.exc("TypeError", "not subscriptable")
    raise Unsupported("item of %r" % (v,))


B["getitem"] = getitem


def slice_(it, v, lo, hi, step):
    if step not in (None, 1):
        raise Unsupported("slice step")
    if isinstance(v, (str, tuple)) and all(x is None or isinstance(x, int) for x in (lo, hi)):
        return v[lo:hi]
    if isinstance(v, ListObj):
        x = it.getf(v, "v")
        if isinstance(x, list) and all(q is None or isinstance(q, int) for q in (lo, hi)):
            return it.new_list(x[lo:hi])
    sq = it.as_seq(v)
    if sq.et is None:
        return it.new_list([])
    n = sq.et.th.len(sq.t)

    def norm(x, dflt):
        if x is None:
            return dflt
        t = it.term(x, "int")
        if isinstance(x, int):
            if x >= 0:
                return z3.If(t <= n, t, n) if x else t
            return z3.If(n + t >= 0, n + t, z3.IntVal(0))
        t = z3.If(t < 0, z3.If(n + t >= 0, n + t, z3.IntVal(0)), z3.If(t <= n, t, n))
        return t
    a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
    b = z3.If(b >= a, b, a)
    r = Seq(sq.et, sq.et.th.sub(sq.t, z3.simplify(a), z3.simplify(b)))
    if sq.et.name == "char":
        return S("bytes" if kind_of(v) == "bytes" else "str", r.t)
    return it.seq_list(r)


B["slice"] = slice_


# ------------------------------------------------------------------ sets
class DictKeys:
    def __init__(self, d):
        self.d = d


def as_set(it, v, key=("asset",)):
    """SetObj value of an iterable"""
    if isinstance(v, SetObj):
        return it.getf(v, "v")
    h = getattr(getattr(v, "cls", None), "as_set", None)
    if h:
        return h(it, v)
    if kind_of(v) == "str" and isinstance(v, S):
        mem = it.path.fresh("chars", z3.ArraySort(STR.sort, smt.B))
        i = z3.Int("i!cs")
        q = z3.Const("q!cs", STR.sort)
        w = z3.Function("w!%s" % mem, STR.sort, smt.I)
        it.path.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < STR.len(v.t)), z3.Select(mem, STR.unit(STR.at(v.t, i)))),
                                 patterns=[STR.at(v.t, i)]))
        it.path.assume(z3.ForAll([q], z3.Implies(z3.Select(mem, q), z3.And(0 <= w(q), w(q) < STR.len(v.t),
                                                                           q == STR.unit(STR.at(v.t, w(q))))), patterns=[z3.Select(mem, q)]))
        return SymSet("str", mem)
    if isinstance(v, (MapV, GenExpV)):
        if it.ghost.get("symbolic_sets"):
            acc = SetObj(it, [])
            it.iterate(v, lambda e: set_add(it, [acc, e], {}), key)
            return it.getf(acc, "v")
        out = it.collect(v, key)
        return as_set(it, out)
    src = it.idx_source(v)
    if src is not None and isinstance(src.n, int):
        out = []
        for k in range(src.n):
            x = src.get(it, k)
            if not it.path.decide(it.member(x, out)):
                out.append(x)
        return out
    if isinstance(v, ListObj):
        x = it.getf(v, "v")
        th, et = x.et.th, x.et
        if et.name in ("str", "int", "obj"):
            kind = et.name
            memo = it.ghost.get(("setof", et.name, x.t.get_id()))
            if memo is not None:
                return memo[1]
            mem = it.path.fresh("elems", z3.ArraySort(SORTS[kind], smt.B))
            i = z3.Int("i!cs")
            q = z3.Const("q!cs", SORTS[kind])
            w = z3.Function("w!%s" % mem, SORTS[kind], smt.I)
            it.path.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < th.len(x.t)), z3.Select(mem, th.at(x.t, i))), patterns=[th.at(x.t, i)]))
            it.path.assume(z3.ForAll([q], z3.Implies(z3.Select(mem, q), z3.And(0 <= w(q), w(q) < th.len(x.t), q == th.at(x.t, w(q)))),
                                     patterns=[z3.Select(mem, q)]))
            r = SymSet(kind, mem)
            it.ghost[("card", id(r))] = lambda: r_card(it, r, x, th)    # replaced by the number once asked for
            it.ghost[("keep", id(r))] = r
            it.ghost[("setof", et.name, x.t.get_id())] = (x.t, r)
            return r
    raise Unsupported("set of %r" % (v,))


def r_card(it, s, x, th):
    """number of distinct elements of a sequence: 0 iff empty, 1 iff non-empty and constant, len iff all distinct"""
    n = it.path.fresh("card", smt.I)
    i, j = z3.Ints("i!cd j!cd")
    ln = th.len(x.t)
    a, b = it.path.fresh("cda", smt.I), it.path.fresh("cdb", smt.I)
    c, d = it.path.fresh("cdc", smt.I), it.path.fresh("cdd", smt.I)
    it.path.assume(z3.And(0 <= n, n <= ln, (n == 0) == (ln == 0)))
    it.path.assume(z3.Implies(n <= 1, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < ln, 0 <= j, j < ln), th.at(x.t, i) == th.at(x.t, j)),
                                                patterns=[z3.MultiPattern(th.at(x.t, i), th.at(x.t, j))])))
    it.path.assume(z3.Implies(n > 1, z3.And(0 <= a, a < ln, 0 <= b, b < ln, th.at(x.t, a) != th.at(x.t, b))))
    it.path.assume(z3.Implies(n == ln, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < ln), th.at(x.t, i) != th.at(x.t, j)),
                                                 patterns=[z3.MultiPattern(th.at(x.t, i), th.at(x.t, j))])))
    it.path.assume(z3.Implies(n != ln, z3.And(0 <= c, c < d, d < ln, th.at(x.t, c) == th.at(x.t, d))))
    it.ghost[("card", id(s))] = n
    return n


def set_op(it, op, a, b):
    def val(x):
        if isinstance(x, SetObj):
            return it.getf(x, "v")
        return as_set(it, x)
    x, y = val(a), val(b)
    if isinstance(x, list) and isinstance(y, list):
        if op == "BitAnd":
            return SetObj(it, [e for e in x if it.path.decide(it.member(e, y))])
        if op == "BitOr":
            return SetObj(it, x + [e for e in y if not it.path.decide(it.member(e, x))])
        if op == "Sub":
            return SetObj(it, [e for e in x if not it.path.decide(it.member(e, y))])
    if isinstance(x, list) and op == "BitAnd":
        return SetObj(it, [e for e in x if it.path.decide(z3.Select(y.mem, it.term(e, y.kind)))])
    if isinstance(y, list) and op == "BitAnd":
        return SetObj(it, [e for e in y if it.path.decide(z3.Select(x.mem, it.term(e, x.kind)))])
    fn = {"BitAnd": lambda p, q: z3.And(p, q), "BitOr": lambda p, q: z3.Or(p, q), "Sub": lambda p, q: z3.And(p, z3.Not(q))}.get(op)
    kind = x.kind if isinstance(x, SymSet) else y.kind if isinstance(y, SymSet) else None
    if fn and kind:
        def mem(z):
            if isinstance(z, SymSet):
                return z.mem
            m = z3.K(SORTS[kind], z3.BoolVal(False))
            for e in z:
                m = z3.Store(m, it.term(e, kind), z3.BoolVal(True))
            return m
        mx, my, r = mem(x), mem(y), it.path.fresh("setop", z3.ArraySort(SORTS[kind], smt.B))
        q = z3.Const("q!so", SORTS[kind])
        pats = [z3.Select(r, q)] + [z3.Select(m, q) for m in (mx, my) if z3.is_const(m) or z3.is_app_of(m, z3.Z3_OP_UNINTERPRETED)]
        it.path.assume(z3.ForAll([q], z3.Select(r, q) == fn(z3.Select(mx, q), z3.Select(my, q)), patterns=pats))
        return SetObj(it, SymSet(kind, r))
    raise Unsupported("set operation " + op)


def new_set(it, args, kw):
    if not args:
        return SetObj(it, [])
    with unordered(it):
        return SetObj(it, as_set(it, args[0], ("set", id(getattr(it, "callsite", None)))))


B["new:set"] = new_set
B["new:frozenset"] = new_set


def symbolic_set(it, items, kind):
    m = z3.K(SORTS[kind], z3.BoolVal(False))
    for e in items:
        m = z3.Store(m, it.term(e, kind), z3.BoolVal(True))
    return SymSet(kind, m)


@method("set", "add")
def set_add(it, a, kw):
    s, x = a
    v = it.getf(s, "v")
    if isinstance(v, list) and it.ghost.get("symbolic_sets") and it.loops and s.birth <= it.loops[-1].start and kind_of(x) in ("str", "int", "obj"):
        v = symbolic_set(it, v, kind_of(x))         # filled in a loop: any number of elements
    if isinstance(v, list):
        if not it.path.decide(it.member(x, v)):
            it.setf(s, "v", v + [x])
        return None
    it.setf(s, "v", SymSet(v.kind, z3.Store(v.mem, it.term(x, v.kind), z3.BoolVal(True))))


@method("set", "update")
def set_update(it, a, kw):
    r = set_op(it, "BitOr", a[0], a[1])
    it.setf(a[0], "v", r.f["v"])


@method("set", "difference")
def set_difference(it, a, kw):
    r = a[0]
    for x in a[1:]:
        r = set_op(it, "Sub", r, x)
    return r


@method("set", "copy")
def set_copy(it, a, kw):
    v = it.getf(a[0], "v")
    return SetObj(it, list(v) if isinstance(v, list) else v)


@method("set", "discard")
def set_discard(it, a, kw):
    v = it.getf(a[0], "v")
    if isinstance(v, list):
        it.setf(a[0], "v", [e for e in v if not it.path.decide(it.eq(e, a[1]))])
    else:
        it.setf(a[0], "v", SymSet(v.kind, z3.Store(v.mem, it.term(a[1], v.kind), z3.BoolVal(False))))


# ------------------------------------------------------------------ builtin functions
@bi("len")
def _len(it, a, kw):
    return it.len_of(a[0])


@bi("print")
def _print(it, a, kw):
    h = it.ghost.get("print")
    if h is not None:
        h(it, a, kw)
    return None


@bi("isinstance")
def _isinstance(it, a, kw):
    v, c = a
    if isinstance(c, tuple):
        return it.wrap_bool(it.disj([it.truth(_isinstance(it, [v, x], {})) for x in c]))
    if isinstance(c, ExtVal):
        h = it.externals.get("isinstance:" + c.name)
        if h:
            return h(it, v)
        raise Unsupported("isinstance with external " + c.name)
    if not isinstance(c, ClassVal):
        raise Unsupported("isinstance with %r" % (c,))
    if isinstance(v, (Poison, Maybe)):
        raise Unsupported("value lost at a loop")
    h = getattr(c, "instance_hook", None)
    if h:
        return h(it, v)
    if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
        return v.cls.issub(c) or (getattr(v, "enum_value", None) is not None and isinstance(v.f["value"], str) and c is B["str"] and B["str"] in v.cls.mro())
    if isinstance(v, S) and v.kind == "obj":
        raise Unsupported("class of an opaque object")
    tn = {"int": "int", "bool": "bool", "flt": "float", "str": "str", "bytes": "bytes"}.get(kind_of(v)) if kind_of(v) else None
    if tn is None:
        if isinstance(v, ListObj) or isinstance(v, Seq):
            tn = "list"
        elif isinstance(v, DictObj):
            tn = "dict"
        elif isinstance(v, SetObj):
            tn = "set"
        elif isinstance(v, tuple):
            tn = "tuple"
        elif isinstance(v, ClassVal):
            return c in (B["type"], OBJECT)
        elif v is None or isinstance(v, (FuncVal, Bound, BuiltinFn, ModuleVal)):
            return c is OBJECT
        elif isinstance(v, bytes):
            tn = "bytes"
        elif isinstance(v, Obj):
            h = getattr(v.cls, "isinstance", None)
            if h:
                return h(it, v, c)
            return False
        else:
            raise Unsupported("isinstance of %r" % (v,))
    return B[tn].issub(c)


@bi("issubclass")
def _issubclass(it, a, kw):
    if not isinstance(a[0], ClassVal):
        raise it.exc("TypeError", "issubclass")
    if isinstance(a[1], tuple):
        return any(a[0].issub(c) for c in a[1])
    return a[0].issub(a[1])


@bi("getattr")
def _getattr(it, a, kw):
    if not isinstance(a[1], str):
        raise Unsupported("getattr with a symbolic name")
    return it.getattr(a[0], a[1], a[2] if len(a) > 2 else UNSET)


@bi("setattr")
def _setattr(it, a, kw):
    if not isinstance(a[1], str):
        raise Unsupported("setattr with a symbolic name")
    it.setattr(a[0], a[1], a[2])


@bi("hasattr")
def _hasattr(it, a, kw):
    if not isinstance(a[1], str):
        raise Unsupported("hasattr with a symbolic name")
    return it.getattr(a[0], a[1], B) is not B


def _type(it, a, kw):
    if len(a) == 3:
        name, bases, d = a
        return ClassVal(name, list(bases), {k: v for k, v in it.getf(d, "v")})
    v = a[0]
    if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
        return v.cls
    k = kind_of(v)
    if k:
        return B[{"flt": "float"}.get(k, k)]
    for t, n in ((ListObj, "list"), (DictObj, "dict"), (SetObj, "set"), (tuple, "tuple")):
        if isinstance(v, t):
            return B[n]
    raise Unsupported("type()")


B["new:type"] = _type


@bi("iter")
def _iter(it, a, kw):
    v = a[0]
    if len(a) == 2:
        return Obj(it, "calliter", {"fn": a[0], "stop": a[1]})
    if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
        m = v.cls.lookup("__iter__")
        if m is not None:
            return it.call(Bound(m, v), [], {})
        raise it.exc("TypeError", "not iterable")
    if isinstance(v, (GenCall, GenExpV, MapV, ZipV, EnumV)) or isinstance(v, Obj) and v.cls == "iterator":
        return v
    if it.idx_source(v) is not None:
        return Obj(it, "iterator", {"src": v, "pos": 0})
    h = getattr(getattr(v, "cls", None), "iter", None)
    if h:
        return h(it, v)
    if v is None or isinstance(v, (int, float)):
        raise it.exc("TypeError", "not iterable")
    raise Unsupported("iter of %r" % (v,))


@bi("next")
def _next(it, a, kw):
    v = a[0]
    if isinstance(v, Obj) and v.cls == "iterator":
        s, pos = it.idx_source(v.f["src"]), it.getf(v, "pos")
        if pos is UNSET:
            raise Unsupported("iterator position unknown")
        p = it.term(pos) if not isinstance(pos, int) else pos
        ok = (p < s.n) if isinstance(p, int) and isinstance(s.n, int) else (z3.IntVal(s.n) if isinstance(s.n, int) else s.n) > p
        if it.path.decide(ok):
            it.setf(v, "pos", p + 1 if isinstance(p, int) else S("int", p + 1))
            return s.get(it, p)
        if len(a) > 1:
            return a[1]
        raise it.exc("StopIteration")
    if isinstance(v, GenExpV):
        # a generator expression used once: its first element
        got = []

        def body(e):
            got.append(e)
            raise BreakEx()
        it.iterate(v, body, ("next", id(v.node)))
        if got:
            return got[0]
        if len(a) > 1:
            return a[1]
        raise it.exc("StopIteration")
    if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
        m = v.cls.lookup("__next__")
        if m is None:
            raise it.exc("TypeError", "not an iterator")
        if len(a) > 1:
            try:
                return it.call(Bound(m, v), [], {})
            except PyExc as x:
                if it.exc_is(x.value, B["StopIteration"]):
                    return a[1]
                raise
        return it.call(Bound(m, v), [], {})
    h = getattr(getattr(v, "cls", None), "next", None)
    if h:
        return h(it, v, *a[1:])
    raise Unsupported("next of %r" % (v,))


def _quant(it, a, stop_on):
    res = Obj(it, "cell", {"v": not stop_on})

    def body(e):
        t = it.decide(e)
        if t == stop_on:
            it.setf(res, "v", stop_on)
            raise BreakEx()
    with unordered(it):
        r = it.iterate(a[0], body, ("any" if stop_on else "all", id(getattr(a[0], "node", None))))
    return stop_on if r == "break" else (not stop_on)


@bi("any")
def _any(it, a, kw):
    return _quant(it, a, True)


@bi("all")
def _all(it, a, kw):
    return _quant(it, a, False)


@bi("sum")
def _sum(it, a, kw):
    cell = Obj(it, "cell", {"v": a[1] if len(a) > 1 else 0})

    def body(e):
        it.setf(cell, "v", binop(it, "Add", it.getf(cell, "v"), e))
    it.iterate(a[0], body, ("sum", id(getattr(a[0], "node", None))))
    return it.getf(cell, "v")


def _minmax(it, a, kw, op):
    if len(a) >= 2 and "key" not in kw:
        best = a[0]
        for x in a[1:]:
            c = compare(it, op, x, best)
            if it.path.decide(c):
                best = x
        return best
    src = it.idx_source(a[0]) if len(a) == 1 else None
    if src is not None and isinstance(src.n, int) and not kw:
        if src.n == 0:
            raise it.exc("ValueError", "empty")
        return _minmax(it, [src.get(it, k) for k in range(src.n)] if src.n > 1 else [src.get(it, 0)] * 2, {}, op)
    cell = Obj(it, "cell", {"v": None})

    def body(e):
        cur = it.getf(cell, "v")
        if cur is None or it.path.decide(compare(it, op, e, cur)):
            it.setf(cell, "v", e)
    with unordered(it, "key" not in kw):
        it.iterate(a[0], body, ("minmax", id(getattr(it, "callsite", None))))
    r = it.getf(cell, "v")
    if r is None:
        if "default" in kw:
            return kw["default"]
        raise it.exc("ValueError", "empty")
    return r


@bi("max")
def _max(it, a, kw):
    return _minmax(it, a, kw, "Gt")


@bi("min")
def _min(it, a, kw):
    return _minmax(it, a, kw, "Lt")


@bi("map")
def _map(it, a, kw):
    return MapV(a[0], list(a[1:]))


@bi("filter")
def _filter(it, a, kw):
    return FilterV(a[0], [a[1]])


@bi("enumerate")
def _enumerate(it, a, kw):
    return EnumV(a[0], a[1] if len(a) > 1 else kw.get("start", 0))


@bi("range")
def _range(it, a, kw):
    if len(a) == 1:
        return RangeV(0, a[0])
    return RangeV(*a)


def zip_star(it, s, fill=None):
    """zip(*rows): as long as the shortest row; with a fill value zip_longest(*rows): as long as the longest"""
    th, rt = s.et.th, (smt.ROW if s.et.name == "row" else smt.OSEQ)
    T, p = s.t, it.path
    n = th.len(T)
    out = p.fresh("zipped", th.sort)
    w = p.fresh("wit", smt.I)
    i, j = z3.Ints("i!zp j!zp")
    m = th.len(out)
    p.assume(z3.Implies(n == 0, m == 0))
    p.assume(z3.Implies(n > 0, z3.And(0 <= w, w < n, m == rt.len(th.at(T, w)))))
    rel = rt.len(th.at(T, i))
    p.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), rel >= m if fill is None else rel <= m), patterns=[th.at(T, i)]))
    p.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), rt.len(th.at(out, j)) == n), patterns=[th.at(out, j)]))
    v = rt.at(th.at(T, i), j)
    if fill is not None:
        v = z3.If(j < rel, v, fill)
    p.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < m), rt.at(th.at(out, j), i) == v), patterns=[rt.at(th.at(out, j), i)]))
    return Seq(s.et, out)


@bi("zip")
def _zip(it, a, kw):
    if len(a) == 1 and isinstance(a[0], StarSeq):
        s = it.as_seq(a[0].lst)
        if s.et is not None and s.et.name in ("row", "orow"):
            return zip_star(it, s)
        raise Unsupported("zip(*...)")
    return ZipV(list(a))


def _zip_longest(it, a, kw):
    if len(a) == 1 and isinstance(a[0], StarSeq):
        s = it.as_seq(a[0].lst)
        if s.et is not None and s.et.name in ("row", "orow"):
            fill = kw.get("fillvalue")
            if s.et.name == "row" and kind_of(fill) != "str":
                raise Unsupported("zip_longest(*...) filled with something else")
            return zip_star(it, s, it.term(fill, "str") if s.et.name == "row" else it.term(fill, "obj"))
        raise Unsupported("zip_longest(*...)")
    raise Unsupported("zip_longest")


@bi("reversed")
def _reversed(it, a, kw):
    s = it.idx_source(a[0])
    if s is None:
        raise Unsupported("reversed")
    if isinstance(s.n, int):
        return it.new_list([s.get(it, k) for k in range(s.n - 1, -1, -1)])
    return Idx(s.n, lambda i2, k: s.get(i2, s.n - 1 - k))


def new_list(it, a, kw):
    if not a:
        return ListObj(it, [])
    return it.collect(a[0], ("list", id(getattr(it, "callsite", None))))


B["new:list"] = new_list


def new_tuple(it, a, kw):
    if not a:
        return ()
    l = new_list(it, a, kw)
    v = it.getf(l, "v")
    if isinstance(v, list):
        return tuple(v)
    return v


B["new:tuple"] = new_tuple


def new_dict(it, a, kw):
    d = it.new_map()
    if a:
        whole = getattr(getattr(a[0], "cls", None), "copy_into", None)
        if whole:
            whole(it, a[0], d)
        elif isinstance(a[0], DictObj):
            for k, v in it.getf(a[0], "v"):
                it.setitem(d, k, v)
        else:
            h = it.ghost.get("dict_of")
            if h:
                r = h(it, a[0])
                if r is not None:
                    return r

            def body(e):
                k, v = it.unpack(e, 2)
                it.setitem(d, k, v)
            it.iterate(a[0], body, ("dict", id(getattr(it, "callsite", None))))
    for k, v in kw.items():
        it.setitem(d, k, v)
    return d


B["new:dict"] = new_dict


def new_str(it, a, kw):
    return it.to_str(a[0]) if a else ""


B["new:str"] = new_str


def new_int(it, a, kw):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, S) and v.kind == "bool":
        return S("int", z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(v, S) and v.kind == "int":
        return v
    if isinstance(v, (bool, int, float)):
        return int(v)
    if kind_of(v) == "str":
        if it.path.choose(2) == 0:
            return it.fresh("int", "int")
        raise it.exc("ValueError", "invalid literal")
    if v is None:
        raise it.exc("TypeError", "int()")
    raise Unsupported("int() of %r" % (v,))


B["new:int"] = new_int


def new_float(it, a, kw):
    v = a[0] if a else 0.0
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            raise it.exc("ValueError")
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, S) and v.kind in ("int", "flt", "bool"):
        return S("flt", it.term(v, "flt"))
    raise Unsupported("float()")


B["new:float"] = new_float


def new_bool(it, a, kw):
    return it.wrap_bool(it.truth(a[0])) if a else False


B["new:bool"] = new_bool


@bi("repr")
def _repr(it, a, kw):
    v = a[0]
    if v is None or isinstance(v, (bool, int, str)):
        return repr(v)
    if isinstance(v, S) and v.kind == "str":
        h = it.ghost.get("repr")
        if h:
            return h(it, v)
    if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and v.cls.lookup("__repr__"):
        return it.call(Bound(v.cls.lookup("__repr__"), v), [], {})
    return it.fresh("str", "repr")


@bi("id")
def _id(it, a, kw):
    if it.mono is not None:
        it.mono.outside(it, "id")
    raise Unsupported("id")


@bi("hash")
def _hash(it, a, kw):
    v = a[0]
    if it.mono is not None:
        it.mono.hashed(it)
    if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
        m = v.cls.lookup("__hash__")
        if m is not None:
            return it.call(Bound(m, v), [], {})
    return S("int", hash_term(it, v))


HASHF = {k: z3.Function("hash_" + k, s, smt.I) for k, s in SORTS.items()}
HASHC = z3.Function("hash_combine", smt.I, smt.I, smt.I)


def hash_term(it, v):
    if v is None:
        return z3.IntVal(17)
    if isinstance(v, tuple):
        h = z3.IntVal(len(v))
        for x in v:
            h = HASHC(h, hash_term(it, x))
        return h
    k = kind_of(v)
    if k:
        return HASHF[k](it.term(v, k))
    if isinstance(v, (ListObj, DictObj, SetObj)):
        raise it.exc("TypeError", "unhashable")
    raise Unsupported("hash of %r" % (v,))


@bi("ord")
def _ord(it, a, kw):
    v = a[0]
    if isinstance(v, str):
        if len(v) != 1:
            raise it.exc("TypeError")
        return ord(v)
    if not it.path.decide(STR.len(v.t) == 1):
        raise it.exc("TypeError")
    return S("int", STR.at(v.t, 0))


@bi("chr")
def _chr(it, a, kw):
    v = a[0]
    if isinstance(v, int):
        return chr(v)
    return S("str", STR.unit(v.t))


@bi("sorted")
def _sorted(it, a, kw):
    h = it.ghost.get("sorted")
    if h:
        r = h(it, a, kw)
        if r is not None:
            return r
    with unordered(it, not kw):
        lst = it.collect(a[0], ("sorted", id(getattr(it, "callsite", None))))
    v = it.getf(lst, "v")
    if isinstance(v, list) and len(v) <= 4 and not kw:
        out = []
        for x in v:
            i = 0
            while i < len(out) and not it.path.decide(compare(it, "Lt", x, out[i])):
                i += 1
            out.insert(i, x)
        return it.new_list(out)
    raise Unsupported("sorted of a symbolic sequence")


@bi("abs")
def _abs(it, a, kw):
    v = a[0]
    return abs(v) if not isinstance(v, S) else S(v.kind, z3.If(v.t >= 0, v.t, -v.t))


@bi("callable")
def _callable(it, a, kw):
    return isinstance(a[0], (FuncVal, BuiltinFn, Bound, ClassVal))


# ------------------------------------------------------------------ list methods
@method("list", "append")
def list_append(it, a, kw):
    it.list_append(a[0], a[1])


@method("list", "extend")
def list_extend(it, a, kw):
    it.list_extend(a[0], a[1], ("extend", id(getattr(it, "callsite", None))))


@method("list", "pop")
def list_pop(it, a, kw):
    v = it.getf(a[0], "v")
    k = a[1] if len(a) > 1 else -1
    if isinstance(v, list) and isinstance(k, int):
        if not v or not -len(v) <= k < len(v):
            raise it.exc("IndexError")
        k %= len(v)
        it.setf(a[0], "v", v[:k] + v[k + 1:])
        return v[k]
    raise Unsupported("pop")


@method("list", "copy")
def list_copy(it, a, kw):
    return ListObj(it, it.getf(a[0], "v"))


@method("list", "insert")
def list_insert(it, a, kw):
    v = it.getf(a[0], "v")
    if isinstance(v, list) and isinstance(a[1], int):
        v = list(v)
        v.insert(a[1], a[2])
        it.setf(a[0], "v", v)
        return
    raise Unsupported("insert")


@method("list", "sort")
def list_sort(it, a, kw):
    r = _sorted(it, [a[0]], kw)
    it.setf(a[0], "v", it.getf(r, "v"))


# ------------------------------------------------------------------ dict methods
@method("dict", "items")
def dict_items(it, a, kw):
    return it.new_list([(k, v) for k, v in it.getf(a[0], "v")])


@method("dict", "keys")
def dict_keys(it, a, kw):
    return it.new_list([k for k, v in it.getf(a[0], "v")])


@method("dict", "values")
def dict_values(it, a, kw):
    return it.new_list([v for k, v in it.getf(a[0], "v")])


@method("dict", "get")
def dict_get(it, a, kw):
    for k, v in it.getf(a[0], "v"):
        if it.path.decide(it.eq(k, a[1])):
            return v
    return a[2] if len(a) > 2 else None


@method("dict", "setdefault")
def dict_setdefault(it, a, kw):
    for k, v in it.getf(a[0], "v"):
        if it.path.decide(it.eq(k, a[1])):
            return v
    d = a[2] if len(a) > 2 else None
    it.setitem(a[0], a[1], d)
    return d


@method("dict", "copy")
def dict_copy(it, a, kw):
    return DictObj(it, it.getf(a[0], "v"))


@method("dict", "update")
def dict_update(it, a, kw):
    for k, v in (it.getf(a[1], "v") if len(a) > 1 else []):
        it.setitem(a[0], k, v)
    for k, v in kw.items():
        it.setitem(a[0], k, v)


@method("dict", "pop")
def dict_pop(it, a, kw):
    items = it.getf(a[0], "v")
    for i, (k, v) in enumerate(items):
        if it.path.decide(it.eq(k, a[1])):
            it.setf(a[0], "v", items[:i] + items[i + 1:])
            return v
    if len(a) > 2:
        return a[2]
    raise it.exc("KeyError")


# ------------------------------------------------------------------ str methods
def pure_str(name):
    def fn(it, a, kw):
        if all(isinstance(x, (str, int, type(None))) for x in a) and not kw:
            r = getattr(a[0], name)(*a[1:])
            return it.new_list(r) if isinstance(r, list) else r
        return sym_str(it, name, a, kw)
    B["method:str." + name] = fn


def affix(it, s, p, end):
    """s starts/ends with p"""
    if isinstance(p, tuple):
        return it.disj([affix(it, s, x, end) for x in p])
    t = it.term(s)
    if isinstance(p, str):
        n = len(p)
        ln = STR.len(t)
        return z3.And(ln >= n, *[STR.at(t, (ln - n + i) if end else z3.IntVal(i)) == ord(c) for i, c in enumerate(p)])
    pt = it.term(p)
    n, ln = STR.len(pt), STR.len(t)
    sub = STR.sub(t, ln - n, ln) if end else STR.sub(t, 0, n)
    it.path.assume(STR.ext(sub, pt))
    return z3.And(ln >= n, sub == pt)


def sym_str(it, name, a, kw):
    s = a[0]
    it.used.add(smt.TRUSTED_STR)
    if name == "startswith" and len(a) == 2:
        return S("bool", affix(it, s, a[1], False))
    if name == "endswith" and len(a) == 2:
        return S("bool", affix(it, s, a[1], True))
    t = it.term(s)
    if name == "strip" and (len(a) == 1 or a[1] is None):
        return S("str", smt.strip(t))
    if name == "rstrip" and len(a) == 2:
        r = smt.rstrip_of(t, it.term(a[1]))
        if isinstance(a[1], str) and len(a[1]) == 1:
            n = STR.len(r)
            c = ord(a[1])
            k = z3.Int("k!rs")
            it.path.assume(z3.Or(n == 0, STR.at(r, n - 1) != c))
            it.path.assume(z3.ForAll([k], z3.Implies(z3.And(n <= k, k < STR.len(t)), STR.at(t, k) == c), patterns=[STR.at(t, k)]))
        return S("str", r)
    if name in ("strip", "lstrip", "rstrip"):
        # a part of the text; what is cut off is not specified further
        if len(a) > 1 and a[1] is not None and not isinstance(a[1], str):
            raise Unsupported("str.%s" % name)
        cs = None if len(a) == 1 else a[1]
        f = lambda n: z3.Function("str_%s_%s" % (n, "ws" if cs is None else "_".join("%x" % ord(c) for c in sorted(set(cs)))), STR.sort, STR.sort)
        r, n = f(name)(t), z3.Int("n!st")
        whole = (lambda x: smt.strip(x)) if cs is None else f("strip")
        it.path.assume(z3.And(STR.len(r) <= STR.len(t), f(name)(r) == r, whole(r) == whole(t)))
        if name == "strip":
            it.path.assume(z3.And(f("lstrip")(f("rstrip")(t)) == r, f("rstrip")(f("lstrip")(t)) == r))
        else:
            it.path.assume(f("rstrip" if name == "lstrip" else "lstrip")(r) == whole(t))
            k = STR.len(t) - STR.len(r)
            it.path.assume(r == (STR.sub(t, k, STR.len(t)) if name == "lstrip" else STR.sub(t, 0, STR.len(r))))
        return S("str", r)
    if name == "splitlines" and len(a) <= 2:
        keep = it.decide(kw.get("keepends", a[1] if len(a) > 1 else False))
        return it.seq_list(Seq(it.ETS["str"], z3.Function("str_splitlines_keepends" if keep else "str_splitlines", STR.sort, smt.ROW.sort)(t)))
    if name == "lower":
        return S("str", smt.lower(t))
    if name == "split" and len(a) == 2:
        sep = it.term(a[1])
        if not isinstance(a[1], str) or a[1] == "":
            if not it.path.decide(STR.len(sep) > 0):
                raise it.exc("ValueError", "empty separator")
        return it.seq_list(Seq(it.ETS["str"], smt.split(t, sep)))
    if name == "count" and len(a) == 2 and isinstance(a[1], str) and a[1]:
        return S("int", ROW.len(smt.split(t, it.term(a[1]))) - 1)       # one part more than separators
    if name == "replace" and len(a) == 3:
        return S("str", smt.replace(t, it.term(a[1]), it.term(a[2])))
    if name == "isdigit":
        return S("bool", smt.isdigit(t))
    if name == "join":
        raise Unsupported("join")
    raise Unsupported("str.%s" % name)


def bytes_strip(name):
    def fn(it, a, kw):
        if all(isinstance(x, bytes) for x in a):
            return getattr(a[0], name)(*a[1:])
        if len(a) > 1 and not isinstance(a[1], bytes):
            raise Unsupported("bytes.%s" % name)
        t = it.term(a[0], "bytes")
        r = z3.Function("bytes_%s_%s" % (name, a[1].hex() if len(a) > 1 else "ws"), STR.sort, STR.sort)(t)
        it.path.assume(z3.And(STR.len(r) <= STR.len(t)))
        return S("bytes", r)
    B["method:bytes." + name] = fn


for _n in ("strip", "lstrip", "rstrip"):
    bytes_strip(_n)


for _n in ("startswith", "endswith", "strip", "rstrip", "lstrip", "lower", "upper", "split", "replace", "isdigit", "isalpha", "isprintable",
           "find", "count", "splitlines", "encode", "isspace", "title", "partition", "rpartition", "index", "isalnum", "format", "zfill",
           "capitalize", "casefold", "swapcase", "removeprefix", "removesuffix", "rfind", "rindex", "rsplit", "center", "ljust", "rjust",
           "expandtabs", "isascii", "isupper", "islower", "isnumeric", "isdecimal", "isidentifier", "istitle"):
    pure_str(_n)


@method("str", "join")
def str_join(it, a, kw):
    sep, x = a
    src = None if isinstance(x, (GenExpV, MapV, GenCall)) else it.idx_source(x)
    if type(x) is MapV and len(x.srcs) == 1 and isinstance(x.srcs[0], (tuple, str)):
        x = [it.call(x.fn, [e], {}) for e in x.srcs[0]]
        src = Idx(len(x), lambda it2, k: x[k])
    if src is not None and isinstance(src.n, int):
        parts = []
        for k in range(src.n):
            if k:
                parts.append(sep)
            parts.append(src.get(it, k))
        return it.str_cat(parts)
    h = it.ghost.get("join")
    if h:
        r = h(it, sep, x)
        if r is not None:
            return r
    try:
        it.iterate(x, lambda e: None, ("join", id(getattr(x, "node", None))))
    except Unsupported:
        raise
    return it.fresh("str", "join")


# ------------------------------------------------------------------ a class of library objects
class Model:
    """class of a trusted library object: methods are python functions (interp, self, args, kw)"""

    def __init__(self, name, methods=None, attrs=None, **hooks):
        self.name, self.methods, self.attrs = name, methods or {}, attrs or {}
        for k, v in hooks.items():
            setattr(self, k, v)

    def get(self, it, o, name):
        if name in self.methods:
            fn = self.methods[name]
            return BuiltinFn(self.name + "." + name, lambda i2, a, k: fn(i2, o, a, k))
        if name in self.attrs:
            return self.attrs[name](it, o)
        if name in o.f:
            return it.getf(o, name)
        g = getattr(self, "getany", None)
        if g:
            return g(it, o, name)
        raise Unsupported("attribute %s of %s" % (name, self.name))

    def set(self, it, o, name, val):
        if name in getattr(self, "settable", ()):
            it.setf(o, name, val)
            return
        raise Unsupported("assignment to %s.%s" % (self.name, name))


EXT = {}    # dotted name -> trusted contract


def ext(name):
    def deco(fn):
        EXT[name] = fn
        return fn
    return deco


EXT["itertools.zip_longest"] = _zip_longest


@ext("itertools.product")
def _product(it, a, kw):
    srcs = list(a)
    if "repeat" in kw:
        srcs = srcs * kw["repeat"]
    return ProductV(srcs)


@ext("itertools.chain")
def _chain(it, a, kw):
    return ChainV(None, list(a))


@ext("itertools.chain.from_iterable")
def _chain_from(it, a, kw):
    v = ChainV(None, list(a[:1]))
    v.nested = True
    return v


@ext("copy.copy")
def _copy(it, a, kw):
    v = it.blur(a[0])
    if not (isinstance(v, Obj) and isinstance(v.cls, ClassVal)) or any(v.cls.lookup(n) is not None for n in ("__copy__", "__reduce__", "__reduce_ex__", "__getstate__", "__setstate__")):
        raise Unsupported("copy of %r" % (v,))
    return Obj(it, v.cls, {n: it.getf(v, n) for n in list(v.f)})


@ext("contextlib.contextmanager")
def _ctxmgr(it, a, kw):
    return BuiltinFn("contextmanager", lambda i2, b, k: Obj(i2, "genmgr", {"gen": i2.call(a[0], list(b), dict(k))}))


@ext("typing.cast")
def _cast(it, a, kw):
    return a[1]


@ext("collections.OrderedDict")
def _od(it, a, kw):
    return new_dict(it, a, kw)


@ext("warnings.warn")
def _warn(it, a, kw):
    return None


@ext("typing.TypeVar")
def _tv(it, a, kw):
    return None


@ext("functools.partial")
def _partial(it, a, kw):
    f, a0, k0 = a[0], list(a[1:]), dict(kw)
    return BuiltinFn("partial", lambda i2, b, k: i2.call(f, a0 + list(b), dict(k0, **k)))


EXT["typing.TYPE_CHECKING"] = False
EXT["json.JSONDecodeError"] = JSONDecodeError
EXT["enum.Enum"] = ClassVal("Enum", [OBJECT], {})
EXT["clevercsv.cparser.Error"] = ClassVal("clevercsv.cparser.Error", [B["Exception"]], {}, py=None)
EXT["clevercsv.cparser.Error"].py = type("ParserError", (Exception,), {})


def any_exception(it, never=()):
    """an exception of unknown class"""
    return PyExc(Obj(it, "anyexc", {"args": (), "never": [B[n] for n in never]}))


# a cached function returns what the function returned for equal arguments before; the functions cached are deterministic
CACHED = Model("lru_cache wrapper", {"cache_clear": lambda it, o, a, kw: None}, call=lambda it, o, a, kw: it.call(o.f["fn"], a, kw))


def _cached(it, a, kw):
    return Obj(it, CACHED, {"fn": a[0]})


def _lru(it, a, kw):
    if a and isinstance(a[0], (FuncVal, Bound)):
        return _cached(it, a, kw)
    return BuiltinFn("lru_cache decorator", _cached)


EXT["functools.lru_cache:decorator"] = _cached
EXT["functools.lru_cache"] = _lru
EXT["functools.cache"] = _cached
