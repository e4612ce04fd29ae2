"""Verification-condition generator for the C extensions.

The source of /repo/src is preprocessed on every run (gcc -E against the declarations in cstub/, which
replace the Python headers), parsed with pycparser and executed symbolically: integers are mathematical
integers with the ranges of their C types, and every signed overflow, out-of-range access, use of
uninitialised or released memory and wrong reference count is an obligation.  Loops are cut with
invariants (Houdini over the candidate templates), calls of functions under contract use the contract,
other local functions are verified inline."""
import os
import subprocess
import z3
import pycparser
from pycparser import c_ast as A
from . import smt
from .smt import STR, ISEQ, I, PathEnd, Restart, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))

# ---------------------------------------------------------------- array contents seen as sequences
ARR = z3.ArraySort(I, I)
of_array = z3.Function("of_array", ARR, I, STR.sort)            # characters [0, n)
ints_of = z3.Function("ints_of_array", ARR, I, ISEQ.sort)
inr = z3.Function("all_in_range", ARR, I, I, I, z3.BoolSort())   # elements [0, n) lie in [lo, hi]


def array_axioms():
    a = z3.Const("a!arr", ARR)
    n, k, c, m, lo, hi = z3.Ints("n!arr k!arr c!arr m!arr lo!arr hi!arr")
    FA, Im, An = z3.ForAll, z3.Implies, z3.And
    for f, th in ((of_array, STR), (ints_of, ISEQ)):
        st = f(z3.Store(a, k, c), m)
        yield FA([a, n], Im(n >= 0, th.len(f(a, n)) == n), patterns=[f(a, n)])
        yield FA([a, n, k], Im(An(0 <= k, k < n), th.at(f(a, n), k) == a[k]), patterns=[th.at(f(a, n), k)] + ([z3.MultiPattern(f(a, n), a[k])] if f is ints_of else []))
        yield FA([a, k, c, m], An(Im(An(m == k + 1, k >= 0), st == th.cat(f(a, k), th.unit(c))),
                                  Im(An(0 <= m, m <= k), st == f(a, m)),
                                  Im(An(0 <= k, k < m), st == th.upd(f(a, m), k, c))), patterns=[st])
        yield FA([a], f(a, 0) == th.empty, patterns=[f(a, 0)])
    st = inr(z3.Store(a, k, c), m, lo, hi)
    yield FA([a, k, c, m, lo, hi], An(
        Im(An(m == k + 1, k >= 0, lo <= c, c <= hi, inr(a, k, lo, hi)), st),
        Im(An(m <= k, inr(a, m, lo, hi)), st),
        Im(An(inr(a, m, lo, hi), lo <= c, c <= hi), st)), patterns=[st])
    yield FA([a, m, lo, hi, k], Im(An(inr(a, m, lo, hi), 0 <= k, k < m), An(lo <= a[k], a[k] <= hi)),
             patterns=[z3.MultiPattern(inr(a, m, lo, hi), a[k])])
    yield FA([a, m, lo, hi], Im(m <= 0, inr(a, m, lo, hi)), patterns=[inr(a, m, lo, hi)])


# ---------------------------------------------------------------- C types
class CT:
    def __init__(self, kind, name=None, bits=0, signed=True, to=None, n=None):
        self.kind, self.name, self.bits, self.signed, self.to, self.n = kind, name, bits, signed, to, n

    def lo(self):
        return -(1 << (self.bits - 1)) if self.signed else 0

    def hi(self):
        return (1 << (self.bits - (1 if self.signed else 0))) - 1 if self.name != "_Bool" else 1

    def __repr__(self):
        return self.name or self.kind


def _it(name, bits, signed):
    return CT("int", name, bits, signed)


CHAR, SCHAR, UCHAR = _it("char", 8, True), _it("signed char", 8, True), _it("unsigned char", 8, False)
SHORT, USHORT = _it("short", 16, True), _it("unsigned short", 16, False)
INT, UINT = _it("int", 32, True), _it("unsigned int", 32, False)
LONG, ULONG = _it("long", 64, True), _it("unsigned long", 64, False)
BOOL = _it("_Bool", 1, False)
VOID = CT("void", "void")
VOIDP = CT("ptr", "void *", to=VOID)
BASIC = {"char": CHAR, "signed char": SCHAR, "unsigned char": UCHAR, "short": SHORT, "short int": SHORT, "unsigned short": USHORT,
         "unsigned short int": USHORT, "int": INT, "signed": INT, "signed int": INT, "unsigned": UINT, "unsigned int": UINT, "long": LONG, "long int": LONG,
         "long long": LONG, "long long int": LONG, "unsigned long": ULONG, "unsigned long int": ULONG, "long unsigned int": ULONG,
         "unsigned long long": ULONG, "unsigned long long int": ULONG, "signed long": LONG, "_Bool": BOOL, "void": VOID}


# ---------------------------------------------------------------- values
class CV:
    """integer: python int or z3 term, with its C type; b: the truth value when it came from a comparison"""
    __slots__ = ("t", "ty", "b")

    def __init__(self, t, ty=INT, b=None):
        if z3.is_expr(t) and z3.is_int_value(t):
            t = t.as_long()
        self.t, self.ty, self.b = t, ty, b

    def term(self):
        return z3.IntVal(self.t) if isinstance(self.t, int) else self.t

    def __repr__(self):
        return "%s:%s" % (self.t, self.ty)


class _Sing:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NULL, UNINIT, VOIDV = _Sing("NULL"), _Sing("uninitialised"), _Sing("void")


class Block:
    """memory obtained at run time; sizes in elements once the element type is known"""
    n = 0

    def __init__(self, m, nbytes, heap):
        m.seq += 1
        self.id = m.seq
        self.nbytes, self.heap, self.alive = nbytes, heap, True
        self.esize = self.ety = None
        self.size = None
        self.arr = m.path.fresh("mem", ARR)
        self.inited = z3.IntVal(0)
        m.blocks.append(self)

    def typed(self, m, ety, es):
        if self.esize is None:
            self.esize, self.ety = es, ety
            if es == 1:
                self.size = self.nbytes
            else:
                e = z3.simplify(self.nbytes)
                q = m.path.fresh("elems", I)
                m.path.assume(z3.And(q >= 0, q * es <= self.nbytes, self.nbytes < (q + 1) * es))
                self.size = q
        elif self.esize != es:
            raise Unsupported("memory used with two element types")


class BufPtr:
    def __init__(self, block, off=0):
        self.block, self.off = block, off


class MaybeBuf:
    """a pointer that is NULL or the start of the block; decided when it is read"""

    def __init__(self, block, null):
        self.block, self.null = block, null


class Ref:
    """address of a variable or member"""

    def __init__(self, get, set_, ty, what, same=None):
        self.get, self.set, self.ty, self.what, self.same = get, set_, ty, what, same


class CObj:
    """a Python object; refs: references owned by the code under verification"""

    def __init__(self, m, pykind="obj", refs=0, borrowed=False, **at):
        m.seq += 1
        self.id = m.seq
        self.pykind, self.refs, self.borrowed = pykind, refs, borrowed
        self.at = dict(at)
        self.inside = []
        m.objs.append(self)

    def dead(self):
        return self.refs <= 0 and not self.borrowed and all(c.dead() for c in self.inside)

    def __repr__(self):
        return "<%s %d refs %d>" % (self.pykind, self.id, self.refs)


class SObj(CObj):
    """a Python object with a C struct (the parser)"""

    def __init__(self, m, struct, refs=0, borrowed=False):
        CObj.__init__(self, m, struct, refs, borrowed)
        self.f = {}


class StrData:
    """PyUnicode_DATA / KIND of a string object"""

    def __init__(self, o):
        self.o = o


class FnPtr:
    def __init__(self, name):
        self.name = name


class StrLit:
    def __init__(self, s):
        self.s = s


class Opaque:
    def __init__(self, what, to=None):
        self.what, self.to = what, to


class Static:
    """a file-level variable that is only passed on"""

    def __init__(self, name, init=None):
        self.name, self.init = name, init


# ---------------------------------------------------------------- program
class CProgram:
    def __init__(self, fname, repo=None):
        src = os.path.join(repo or REPO, "src", fname)
        r = subprocess.run(["gcc", "-E", "-nostdinc", "-DNDEBUG", "-I", os.path.join(HERE, "cstub"), src], capture_output=True, text=True)
        if r.returncode:
            raise Unsupported("preprocessing failed: " + r.stderr[-300:])
        try:
            self.ast = pycparser.CParser().parse(r.stdout, fname)
        except Exception as e:
            raise Unsupported("parsing failed: %s" % e)
        self.typedefs, self.structs, self.enums, self.funcs, self.globals = {}, {}, {}, {}, {}
        for e in self.ast.ext:
            if isinstance(e, A.Typedef):
                self.typedefs[e.name] = e.type
                self.scan(e.type)
            elif isinstance(e, A.FuncDef):
                self.funcs[e.decl.name] = e
            elif isinstance(e, A.Decl):
                self.scan(e.type)
                if e.name and not isinstance(e.type, A.FuncDecl):
                    self.globals[e.name] = e

    def scan(self, t):
        while isinstance(t, (A.TypeDecl, A.PtrDecl, A.ArrayDecl)):
            t = t.type
        if isinstance(t, A.Struct) and t.decls:
            self.structs[t.name or id(t)] = t
        if isinstance(t, A.Enum) and t.values:
            v = 0
            for en in t.values.enumerators:
                if en.value is not None:
                    v = int(self.const(en.value))
                self.enums[en.name] = v
                v += 1

    def const(self, n):
        if isinstance(n, A.Constant):
            return int(n.value.rstrip("uUlL"), 0)
        if isinstance(n, A.UnaryOp) and n.op == "-":
            return -self.const(n.expr)
        raise Unsupported("constant expression")

    def ctype(self, t):
        if isinstance(t, A.Typename):
            return self.ctype(t.type)
        if isinstance(t, A.TypeDecl):
            return self.ctype(t.type)
        if isinstance(t, A.PtrDecl):
            to = t.type
            if isinstance(to, A.FuncDecl):
                return CT("ptr", "function pointer", to=CT("func"))
            return CT("ptr", to=self.ctype(to))
        if isinstance(t, A.ArrayDecl):
            return CT("array", to=self.ctype(t.type), n=t.dim)
        if isinstance(t, A.FuncDecl):
            return CT("func")
        if isinstance(t, A.Enum):
            return UINT
        if isinstance(t, A.Struct):
            return CT("struct", t.name or id(t), to=t)
        if isinstance(t, A.IdentifierType):
            names = [x for x in t.names if x not in ("const", "volatile", "static", "inline", "register")]
            k = " ".join(names)
            if k in BASIC:
                return BASIC[k]
            k2 = " ".join(sorted(names))
            for b in BASIC:
                if " ".join(sorted(b.split())) == k2:
                    return BASIC[b]
            if len(names) == 1 and names[0] in self.typedefs:
                r = self.ctype(self.typedefs[names[0]])
                if r.kind == "struct":
                    r = CT("struct", names[0], to=r.to)
                return r
        raise Unsupported("type %s" % getattr(t, "names", type(t).__name__))

    def fields(self, sname):
        td = self.typedefs.get(sname)
        if td is None:
            raise Unsupported("struct %s" % sname)
        while not isinstance(td, A.Struct):
            td = td.type
        return [(d.name, self.ctype(d.type)) for d in (td.decls or [])]

    def sizeof(self, ty):
        if ty.kind == "int":
            return max(1, ty.bits // 8)
        if ty.kind == "ptr":
            return 8
        raise Unsupported("sizeof %s" % ty)


class Goto(Exception):
    pass


class LoopInfo:
    def __init__(self):
        self.mod, self.dead, self.kinds, self.seen = set(), set(), {}, {}

    def version(self):
        return (frozenset(self.mod), frozenset(self.dead), frozenset((k, frozenset(v)) for k, v in self.kinds.items()))


# ---------------------------------------------------------------- machine
class Machine:
    def __init__(self, prog, path, contracts, api, con=None):
        self.p, self.path, self.contracts, self.api, self.con = prog, path, contracts, api, con
        self.blocks, self.objs = [], []
        self.seq = 0
        self.frames = []
        self.exc = None              # pending exception: (class name, object or None)
        self.exc_by = None           # what set it: "environment" for allocation failures and foreign code
        self.ghost = {}
        self.gvars = {}
        self.depth = 0
        self.loopno = {}
        self.templates = []
        self.ghost_hook = {}
        self.where = ""

    # ---- helpers
    def fresh(self, hint, ty):
        t = self.path.fresh(hint, I)
        self.path.assume(z3.And(t >= ty.lo(), t <= ty.hi()))
        return CV(t, ty)

    def fail(self, label):
        self.path.check(False, label, self.where)
        raise PathEnd()

    def check(self, f, label):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        self.path.check(f, label, self.where)

    def truth(self, v):
        if isinstance(v, CV):
            if v.b is not None:
                return self.path.decide(v.b)
            if isinstance(v.t, int):
                return v.t != 0
            return self.path.decide(v.t != 0)
        if v is NULL:
            return False
        if v is UNINIT or v is VOIDV:
            self.fail("no use of an uninitialised value")
        self.use(v)
        return True

    def bval(self, b):
        if isinstance(b, bool):
            return CV(int(b), INT)
        b = z3.simplify(b)
        if z3.is_true(b):
            return CV(1, INT)
        if z3.is_false(b):
            return CV(0, INT)
        return CV(z3.If(b, z3.IntVal(1), z3.IntVal(0)), INT, b)

    def use(self, v):
        """a value is read: it must not be a stale pointer when it is dereferenced later; here only uninitialised values are refused"""
        if v is UNINIT:
            self.fail("no use of an uninitialised value")
        return v

    def live(self, o, label="no use of a released object"):
        if o is UNINIT:
            self.fail("no use of an uninitialised value")
        if o is NULL:
            self.fail("no NULL pointer is dereferenced")
        if not isinstance(o, CObj):
            if isinstance(o, Opaque):
                return o
            raise Unsupported("object expected, not %r" % (o,))
        if o.dead():
            self.fail(label)
        return o

    # ---- exceptions
    def raise_(self, cls, by="code"):
        self.exc, self.exc_by = (cls, None), by

    # ---- references
    def incref(self, o):
        self.live(o)
        if not o.at.get("immortal"):
            o.refs += 1

    def decref(self, o):
        if o.at.get("immortal") if isinstance(o, CObj) else False:
            return
        if not isinstance(o, CObj):
            self.live(o)
            return
        if o.refs <= 0:
            self.fail("no reference is released that is not owned")
        o.refs -= 1
        if o.dead() and isinstance(o, SObj):
            self.dealloc(o)
        elif o.dead() and "destroy" in self.ghost_hook and o.pykind in ("str", "nonstr", "obj") and o.at.get("foreign"):
            self.ghost_hook["destroy"](self)

    def dealloc(self, o):
        """the object is destroyed: contract of its deallocator (Parser_dealloc)"""
        for n, ty in self.p.fields(o.pykind):
            if ty.kind != "ptr":
                continue
            v = o.f.get(n, UNINIT)
            if v is UNINIT:
                self.fail("the members read by the deallocator are initialised")
            if isinstance(v, CObj):
                if v.refs <= 0 and not v.at.get("immortal"):
                    self.fail("no reference is released that is not owned")
                if not v.at.get("immortal"):
                    v.refs -= 1
            elif isinstance(v, (BufPtr, MaybeBuf)):
                self.free(v)
        o.f = {n: UNINIT for n in o.f}

    def settle(self, v):
        if self.path.decide(v.null):
            v.block.alive = False
            return NULL
        return BufPtr(v.block, 0)

    def free(self, v):
        if isinstance(v, MaybeBuf):
            v = self.settle(v)
        if v is NULL:
            return
        if v is UNINIT:
            self.fail("no use of an uninitialised value")
        if not isinstance(v, BufPtr):
            raise Unsupported("free of %r" % (v,))
        self.check(z3.And(z3.BoolVal(v.block.alive and v.block.heap), CV(v.off).term() == 0), "memory is released once and by its own address")
        v.block.alive = False

    # ---- integers
    def inrange(self, t, ty):
        if isinstance(t, int):
            return ty.lo() <= t <= ty.hi()
        return z3.And(t >= ty.lo(), t <= ty.hi())

    def proved(self, f):
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return not self.path.sat(z3.Not(f))

    def convert(self, v, ty):
        if ty.kind != "int" or not isinstance(v, CV):
            return v
        if v.ty is ty:
            return v
        if ty is BOOL:
            b = v.b if v.b is not None else (v.t != 0)
            return CV(int(b), BOOL) if isinstance(b, bool) else CV(z3.If(b, z3.IntVal(1), z3.IntVal(0)), BOOL, b)
        if ty.lo() <= v.ty.lo() and v.ty.hi() <= ty.hi() or v.b is not None:
            return CV(v.t, ty, v.b)
        if isinstance(v.t, int):
            x = v.t & ((1 << ty.bits) - 1)
            return CV(x - (1 << ty.bits) if ty.signed and x > ty.hi() else x, ty)
        if self.proved(self.inrange(v.t, ty)):
            return CV(v.t, ty)
        n = z3.IntVal(1 << ty.bits)
        if ty.signed:
            h = z3.IntVal(1 << (ty.bits - 1))
            return CV((v.t + h) % n - h, ty)
        return CV(v.t % n, ty)

    def result(self, t, ty, what):
        if ty.signed:
            ok = self.inrange(t, ty)
            if ok is not True:
                self.check(ok, "no signed overflow")
            return CV(t, ty)
        if isinstance(t, int):
            return CV(t & ((1 << ty.bits) - 1), ty)
        if self.proved(self.inrange(t, ty)):
            return CV(t, ty)
        return CV(t % z3.IntVal(1 << ty.bits), ty)

    def common(self, a, b):
        ra, rb = [INT if x.ty.bits < 32 else x.ty for x in (a, b)]
        if ra.bits == rb.bits:
            ty = ra if ra.signed == rb.signed else (rb if ra.signed else ra)
        else:
            ty = ra if ra.bits > rb.bits else rb
        return ty, self.convert(a, ty), self.convert(b, ty)

    def arith(self, op, a, b):
        for x in (a, b):
            if x is UNINIT:
                self.fail("no use of an uninitialised value")
        if isinstance(a, BufPtr) or isinstance(b, BufPtr):
            return self.parith(op, a, b)
        if op in ("==", "!=") and not (isinstance(a, CV) and isinstance(b, CV)):
            return self.peq(op, a, b)
        if not (isinstance(a, CV) and isinstance(b, CV)):
            raise Unsupported("arithmetic on %r %r" % (a, b))
        if op in ("<<", ">>"):
            if not isinstance(b.t, int):
                raise Unsupported("shift by a variable")
            k = CV(1 << b.t, a.ty if a.ty.bits >= 32 else INT)
            return self.arith("*", a, k) if op == "<<" else self.arith("/", a, k)
        ty, a, b = self.common(a, b)
        x, y = a.t, b.t
        if op in ("==", "!=", "<", "<=", ">", ">="):
            r = {"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[op]()
            return self.bval(r)
        if op == "+":
            return self.result(x + y, ty, op)
        if op == "-":
            return self.result(x - y, ty, op)
        if op == "*":
            return self.result(x * y, ty, op)
        if op in ("/", "%"):
            if not (isinstance(y, int) and y > 0):
                self.check(CV(y).term() != 0, "no division by zero")
                if ty.signed:
                    raise Unsupported("signed division by a variable")
            if isinstance(x, int) and isinstance(y, int):
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return CV(q if op == "/" else x - q * y, ty)
            if ty.signed and not self.proved(x >= 0 if not isinstance(x, int) else x >= 0):
                raise Unsupported("division of a negative number")
            xt, yt = CV(x).term(), CV(y).term()
            return CV(xt / yt if op == "/" else xt % yt, ty)
        if op in ("&", "|", "^"):
            if isinstance(x, int) and isinstance(y, int):
                return CV({"&": x & y, "|": x | y, "^": x ^ y}[op], ty)
            if a.b is not None and b.b is not None:
                return self.bval({"&": z3.And, "|": z3.Or, "^": z3.Xor}[op](a.b, b.b))
            raise Unsupported("bit operation on variables")
        raise Unsupported("operator " + op)

    def peq(self, op, a, b):
        if isinstance(a, CV) and a.t == 0:
            a = NULL
        if isinstance(b, CV) and b.t == 0:
            b = NULL
        if isinstance(a, CV) or isinstance(b, CV):
            raise Unsupported("pointer compared with a number")
        if a is NULL or b is NULL:
            r = a is b
        elif isinstance(a, (CObj, Opaque, Static)) and isinstance(b, (CObj, Opaque, Static)):
            r = self.identical(a, b)
        elif isinstance(a, Ref) and isinstance(b, Ref):
            r = a.same == b.same
        elif type(a) is not type(b):
            r = False
        else:
            raise Unsupported("pointers compared")
        return CV(int(r if op == "==" else not r), INT)

    def identical(self, a, b):
        if a is b:
            return True
        if isinstance(a, CObj) and isinstance(b, CObj):
            for x, y in ((a, b), (b, a)):
                if x.at.get("anon") and y.at.get("immortal"):
                    # a foreign object may be one of the singletons
                    n = y.at.get("name")
                    if "is" in x.at:
                        return x.at["is"] == n
                    if n in x.at.setdefault("isnot", set()) or x.pykind not in ("obj", "nonstr"):
                        return False
                    if self.path.choose(2) == 0:
                        x.at["isnot"].add(n)
                        return False
                    x.at["is"], x.pykind = n, "singleton"
                    return True
            if a.at.get("anon") and b.at.get("anon"):
                raise Unsupported("two foreign objects compared")
        return False

    def parith(self, op, a, b):
        if op in ("+", "-") and isinstance(a, BufPtr) and isinstance(b, CV):
            o = self.arith(op, CV(a.off, LONG), self.convert(b, LONG))
            return BufPtr(a.block, o.t)
        if op == "+" and isinstance(b, BufPtr) and isinstance(a, CV):
            return self.parith("+", b, a)
        if op in ("==", "!="):
            if a is NULL or b is NULL or (isinstance(a, CV) and a.t == 0) or (isinstance(b, CV) and b.t == 0):
                return CV(int(op == "!="), INT)
            if isinstance(a, BufPtr) and isinstance(b, BufPtr):
                if a.block is not b.block:
                    return CV(int(op == "!="), INT)
                return self.arith(op, CV(a.off, LONG), CV(b.off, LONG))
            return CV(int(op == "!="), INT)
        if isinstance(a, BufPtr) and isinstance(b, BufPtr) and a.block is b.block and op in ("-", "<", "<=", ">", ">="):
            return self.arith(op, CV(a.off, LONG), CV(b.off, LONG))
        raise Unsupported("pointer arithmetic " + op)

    # ---- memory
    def elem(self, p, idx):
        """(block, index term) of an access, bounds checked"""
        if p is UNINIT:
            self.fail("no use of an uninitialised value")
        if p is NULL:
            self.fail("no NULL pointer is dereferenced")
        if not isinstance(p, BufPtr):
            raise Unsupported("subscript of %r" % (p,))
        b = p.block
        if not b.alive:
            self.fail("no use of released memory")
        if b.esize is None:
            raise Unsupported("untyped memory accessed")
        i = z3.simplify(CV(p.off).term() + idx.term())
        self.check(z3.And(i >= 0, i < b.size), "every access lies inside its memory")
        return b, i

    def load(self, p, idx):
        b, i = self.elem(p, idx)
        self.check(i < b.inited, "no uninitialised memory is read")
        t = z3.simplify(z3.Select(b.arr, i))
        self.path.assume(z3.And(t >= b.ety.lo(), t <= b.ety.hi()))
        return CV(t, b.ety)

    def store(self, p, idx, v):
        b, i = self.elem(p, idx)
        if not isinstance(v, CV):
            raise Unsupported("pointer stored in memory")
        v = self.convert(v, b.ety)
        b.arr = z3.Store(b.arr, i, v.term())
        if self.proved(i < b.inited):
            pass
        elif self.proved(i == b.inited):
            b.inited = z3.simplify(b.inited + 1)
        elif self.proved(i > b.inited):
            b.sparse = True
        else:
            b.inited = z3.simplify(z3.If(i == b.inited, b.inited + 1, b.inited))

    def retype(self, v, ty):
        """pointer conversion"""
        if ty.kind == "ptr":
            if isinstance(v, CV):
                if v.t == 0:
                    return NULL
                raise Unsupported("number converted to a pointer")
            if isinstance(v, BufPtr) and ty.to.kind == "int":
                if v.block.esize is None:
                    v.block.typed(self, ty.to, self.p.sizeof(ty.to))
                elif v.block.ety is not ty.to and v.block.esize != self.p.sizeof(ty.to):
                    raise Unsupported("memory used with two element types")
        return v

    def assignconv(self, v, ty):
        if ty.kind == "int":
            if isinstance(v, CV):
                return self.convert(v, ty)
            if isinstance(v, StrData) or v is UNINIT:
                return v
            if ty is BOOL:
                return CV(int(self.truth(v)), BOOL)
            raise Unsupported("pointer converted to a number: %r" % (v,))
        return self.retype(v, ty)

    # ---- variables
    def var(self, name):
        for sc in reversed(self.frames[-1]["scopes"]):
            if name in sc:
                return sc
        return None

    def declare(self, name, ty, v):
        self.frames[-1]["scopes"][-1][name] = [ty, v]

    def lvalue(self, n):
        """(get, set, type)"""
        if isinstance(n, A.ID):
            sc = self.var(n.name)
            if sc is None:
                return self.global_lv(n.name)
            cell = sc[n.name]

            def set_(v, cell=cell):
                cell[1] = self.assignconv(v, cell[0])
            return Ref(lambda: cell[1], set_, cell[0], n.name, ("var", id(cell)))
        if isinstance(n, A.UnaryOp) and n.op == "*":
            p = self.ev(n.expr)
            return self.deref(p)
        if isinstance(n, A.ArrayRef):
            p, i = self.ev(n.name), self.ev(n.subscript)
            if isinstance(i, BufPtr):
                p, i = i, p
            return self.memref(p, i)
        if isinstance(n, A.StructRef):
            base = self.ev(n.name) if n.type == "->" else self.lvalue(n.name).get()
            return self.member(base, n.field.name)
        if isinstance(n, A.Cast):
            return self.lvalue(n.expr)
        raise Unsupported("assignment target %s" % type(n).__name__)

    def global_lv(self, name):
        if name in self.p.enums:
            v = CV(self.p.enums[name], INT)
            return Ref(lambda: v, None, INT, name)
        if name in self.api.get("objects", {}) or name.startswith("PyExc_") or name in ("Py_None", "Py_True", "Py_False"):
            if name not in self.gvars:
                self.gvars[name] = CObj(self, "exc" if name.startswith("PyExc_") else "singleton", refs=1, borrowed=True, immortal=True, name=name)
            v = self.gvars[name]
            return Ref(lambda: v, None, VOIDP, name)
        if name in self.p.funcs or name in self.api["functions"]:
            v = FnPtr(name)
            return Ref(lambda: v, None, CT("func"), name)
        if name in self.p.globals:
            v = Static(name, self.p.globals[name].init)
            return Ref(lambda: v, None, VOIDP, name, ("static", name))
        raise Unsupported("name %s" % name)

    def deref(self, p):
        if p is UNINIT:
            self.fail("no use of an uninitialised value")
        if p is NULL:
            self.fail("no NULL pointer is dereferenced")
        if isinstance(p, Ref):
            return p
        if isinstance(p, BufPtr):
            return self.memref(p, CV(0, LONG))
        raise Unsupported("dereference of %r" % (p,))

    def memref(self, p, i):
        if isinstance(p, StrData):
            raise Unsupported("string data accessed directly")
        return Ref(lambda: self.load(p, i), lambda v: self.store(p, i, v), p.block.ety if isinstance(p, BufPtr) else VOIDP, "element",
                   ("mem", p.block.id if isinstance(p, BufPtr) else 0, str(i.t)))

    def member(self, o, name):
        if isinstance(o, Ref):
            o = o.get()
        if isinstance(o, Opaque) and o.to is not None:
            v = o.to(name)
            return Ref(lambda: v, None, VOIDP, name)
        self.live(o)
        if isinstance(o, SObj):
            ty = dict(self.p.fields(o.pykind)).get(name)
            if ty is None:
                raise Unsupported("member %s" % name)

            def get():
                if o.dead():
                    self.fail("no use of a released object")
                v = o.f.get(name, UNINIT)
                if isinstance(v, MaybeBuf):
                    v = o.f[name] = self.settle(v)
                return v

            def set_(v):
                o.f[name] = self.assignconv(v, ty)
            return Ref(get, set_, ty, "->" + name, ("mem", o.id, name))
        if isinstance(o, CObj) and name == "ob_type":
            v = Opaque("type", lambda nm: Opaque("type name"))
            return Ref(lambda: v, None, VOIDP, name)
        raise Unsupported("member %s of %r" % (name, o))

    # ---- expressions
    def ev(self, n):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("C expression %s" % type(n).__name__)
        return m(n)

    def rd(self, n):
        """value of an expression that must be initialised"""
        v = self.ev(n)
        if v is UNINIT:
            self.fail("no use of an uninitialised value")
        return v

    def ev_Constant(self, n):
        if n.type == "char":
            s = n.value[1:-1]
            if s.startswith("\\"):
                esc = {"n": 10, "r": 13, "t": 9, "0": 0, "\\": 92, "'": 39, '"': 34, "a": 7, "b": 8, "f": 12, "v": 11}
                if s[1:] in esc:
                    return CV(esc[s[1:]], INT)
                if s[1] == "x":
                    return CV(int(s[2:], 16), INT)
                return CV(int(s[1:], 8), INT)
            return CV(ord(s), INT)
        if n.type == "string":
            return StrLit(n.value[1:-1])
        if "int" in n.type or "long" in n.type:
            txt = n.value.lower()
            suf = txt[len(txt.rstrip("ul")):]
            base = txt.rstrip("ul")
            v = int(base, 8) if len(base) > 1 and base[0] == "0" and base[1].isdigit() else int(base, 0)
            ty = INT if "l" not in suf and v <= INT.hi() else LONG
            if "u" in suf:
                ty = UINT if "l" not in suf and v <= UINT.hi() else ULONG
            elif v > LONG.hi():
                ty = ULONG
            return CV(v, ty)
        raise Unsupported("constant %s" % n.type)

    def ev_ID(self, n):
        return self.lvalue(n).get()

    def ev_StructRef(self, n):
        return self.lvalue(n).get()

    def ev_ArrayRef(self, n):
        return self.lvalue(n).get()

    def ev_Cast(self, n):
        ty = self.p.ctype(n.to_type)
        v = self.ev(n.expr)
        if ty.kind == "void":
            return VOIDV
        return self.assignconv(v, ty)

    def ev_UnaryOp(self, n):
        op = n.op
        if op == "sizeof":
            ty = self.p.ctype(n.expr) if isinstance(n.expr, A.Typename) else self.lvalue(n.expr).ty
            return CV(self.p.sizeof(ty), ULONG)
        if op == "&":
            if isinstance(n.expr, A.ID) and self.var(n.expr.name) is None and n.expr.name in self.p.globals:
                return Static(n.expr.name)
            if isinstance(n.expr, A.ArrayRef):
                return self.arith("+", self.ev(n.expr.name), self.ev(n.expr.subscript))
            return self.lvalue(n.expr)
        if op == "*":
            return self.lvalue(n).get()
        if op == "!":
            v = self.rd(n.expr)
            if isinstance(v, CV):
                if v.b is not None:
                    return self.bval(z3.Not(v.b))
                return self.bval(v.t == 0)
            return CV(int(not self.truth(v)), INT)
        if op in ("++", "--", "p++", "p--"):
            r = self.lvalue(n.expr)
            old = r.get()
            if old is UNINIT:
                self.fail("no use of an uninitialised value")
            new = self.arith("+" if "+" in op else "-", old, CV(1, INT))
            r.set(new)
            return old if op[0] == "p" else r.get()
        if op == "-":
            v = self.rd(n.expr)
            return self.arith("-", CV(0, INT), v)
        if op == "+":
            return self.rd(n.expr)
        if op == "~":
            raise Unsupported("bit complement")
        raise Unsupported("operator " + op)

    def ev_BinaryOp(self, n):
        op = n.op
        if op == "&&":
            a = self.rd(n.left)
            if not self.truth(a):
                return CV(0, INT)
            b = self.rd(n.right)
            return self.logic(b)
        if op == "||":
            a = self.rd(n.left)
            if self.truth(a):
                return CV(1, INT)
            return self.logic(self.rd(n.right))
        return self.arith(op, self.rd(n.left), self.rd(n.right))

    def logic(self, v):
        if isinstance(v, CV):
            if v.b is not None:
                return self.bval(v.b)
            return self.bval(v.t != 0)
        return CV(int(self.truth(v)), INT)

    def ev_Assignment(self, n):
        if n.op == "=":
            # the right side may declare the element type of fresh memory by the type of the target
            v = self.ev(n.rvalue)
            if v is VOIDV:
                raise Unsupported("void value used")
            r = self.lvalue(n.lvalue)
            if r.set is None:
                raise Unsupported("assignment to %s" % r.what)
            r.set(v)
            return r.get() if r.same is None or r.same[0] == "var" else v
        r = self.lvalue(n.lvalue)
        old = r.get()
        if old is UNINIT:
            self.fail("no use of an uninitialised value")
        new = self.arith(n.op[:-1], old, self.rd(n.rvalue))
        r.set(new)
        return r.get()

    def ev_TernaryOp(self, n):
        c = self.rd(n.cond)
        return self.ev(n.iftrue if self.truth(c) else n.iffalse)

    def ev_ExprList(self, n):
        v = VOIDV
        for e in n.exprs:
            v = self.ev(e)
        return v

    def ev_FuncCall(self, n):
        args = n.args.exprs if n.args is not None else []
        if isinstance(n.name, A.ID) and self.var(n.name.name) is None:
            name = n.name.name
        else:
            f = self.ev(n.name)
            if isinstance(f, FnPtr):
                name = f.name
            elif isinstance(f, Opaque) and f.what == "visitproc":
                vals = [self.rd(a) for a in args]
                self.live(vals[0])
                r = self.fresh("visit", INT)
                self.ghost_hook.setdefault("visited", []).append((vals[0], r))
                if len(vals) != 2 or not isinstance(vals[1], Opaque):
                    self.fail("objects are visited with the argument given")
                return r
            else:
                raise Unsupported("indirect call")
        vals = [self.ev(a) for a in args]
        for v in vals:
            if v is UNINIT and name not in ():
                self.fail("no use of an uninitialised value")
        return self.call(name, vals)

    def call(self, name, vals):
        c = self.contracts.get(name)
        if name in self.p.funcs:
            if c is not None and getattr(self.con, "func", None) != name and hasattr(c, "apply"):
                self.path.ex.used.add(name)
                return c.apply(self, vals)
            self.path.ex.inlined.add(name)
            return self.run_func(name, vals)
        h = self.api["functions"].get(name)
        if h is None:
            raise Unsupported("call of %s" % name)
        return h(self, *vals)

    # ---- statements
    def run_func(self, name, vals):
        fd = self.p.funcs[name]
        if self.depth > 12:
            raise Unsupported("recursion in C")
        ft = fd.decl.type
        params = [p for p in (ft.args.params if ft.args else []) if not isinstance(p, (A.EllipsisParam,)) and getattr(p, "name", None)]
        if len(params) != len(vals):
            raise Unsupported("argument count of %s" % name)
        self.depth += 1
        self.frames.append({"name": name, "scopes": [{}], "uid": (tuple(f["name"] for f in self.frames), name)})
        try:
            for p, v in zip(params, vals):
                ty = self.p.ctype(p.type)
                if ty.kind == "array":
                    ty = CT("ptr", to=ty.to)
                self.declare(p.name, ty, self.assignconv(v, ty))
            rty = self.p.ctype(ft.type)
            r = self.st(fd.body)
            if r is None:
                if rty.kind != "void":
                    return UNINIT
                return VOIDV
            if r[0] == "return":
                return self.assignconv(r[1], rty) if rty.kind != "void" else VOIDV
            raise Unsupported("control leaves %s by %s" % (name, r[0]))
        finally:
            self.frames.pop()
            self.depth -= 1

    def st(self, n):
        if n is None:
            return None
        if n.coord is not None:
            self.where = "%s:%s" % (os.path.basename(n.coord.file or ""), n.coord.line)
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            if type(n).__name__ in ("Assignment", "UnaryOp", "FuncCall", "BinaryOp", "TernaryOp", "Cast", "ID", "Constant", "ExprList", "StructRef", "ArrayRef"):
                self.ev(n)
                return None
            raise Unsupported("C statement %s" % type(n).__name__)
        return m(n)

    def st_Compound(self, n):
        self.frames[-1]["scopes"].append({})
        try:
            return self.seq_(n.block_items or [], 0)
        finally:
            self.frames[-1]["scopes"].pop()

    def seq_(self, items, k):
        while k < len(items):
            r = self.st(items[k])
            if r is not None and r[0] == "goto":
                j = self.find_label(items, r[1])
                if j is None:
                    return r
                if j[0] <= k:
                    raise Unsupported("backward goto")
                k, node = j
                r = self.st(node.stmt)
                if r is not None and r[0] == "goto":
                    j = self.find_label(items, r[1])
                    if j is None:
                        return r
                    raise Unsupported("goto after a label")
                if r is not None:
                    return r
                k += 1
                continue
            if r is not None:
                return r
            k += 1
        return None

    def find_label(self, items, name):
        for k, x in enumerate(items):
            while isinstance(x, A.Label):
                if x.name == name:
                    return k, x
                x = x.stmt
        return None

    def st_Label(self, n):
        return self.st(n.stmt)

    def st_Goto(self, n):
        return ("goto", n.name)

    def st_EmptyStatement(self, n):
        return None

    def st_DeclList(self, n):
        for d in n.decls:
            r = self.st(d)
            if r is not None:
                return r
        return None

    def st_Decl(self, n):
        if isinstance(n.type, A.FuncDecl):
            return None
        if "static" in (n.storage or []):
            self.declare(n.name, VOIDP, Static(n.name, n.init))
            return None
        ty = self.p.ctype(n.type)
        if ty.kind == "array":
            dim = self.rd(ty.n) if ty.n is not None else None
            if dim is None or ty.to.kind != "int" or n.init is not None:
                raise Unsupported("array variable")
            b = Block(self, z3.IntVal(self.p.sizeof(ty.to)) * dim.term(), False)
            b.typed(self, ty.to, self.p.sizeof(ty.to))
            b.size = dim.term()
            self.declare(n.name, CT("ptr", to=ty.to), BufPtr(b, 0))
            return None
        if ty.kind == "struct":
            raise Unsupported("struct variable")
        if n.init is None:
            self.declare(n.name, ty, UNINIT)
            return None
        v = self.ev(n.init)
        self.declare(n.name, ty, UNINIT)
        self.var(n.name)[n.name][1] = self.assignconv(v, ty)
        return None

    def st_If(self, n):
        if self.truth(self.rd(n.cond)):
            return self.st(n.iftrue)
        return self.st(n.iffalse)

    def st_Return(self, n):
        return ("return", self.ev(n.expr) if n.expr is not None else VOIDV)

    def st_Break(self, n):
        return ("break",)

    def st_Continue(self, n):
        return ("continue",)

    def st_Switch(self, n):
        v = self.rd(n.cond)
        items = n.stmt.block_items if isinstance(n.stmt, A.Compound) else [n.stmt]
        # cases may be nested as fall-through chains of empty cases
        flat = []
        for c in items or []:
            flat.append(c)
        self.frames[-1]["scopes"].append({})
        try:
            start = None
            default = None
            for k, c in enumerate(flat):
                if isinstance(c, A.Case):
                    t = self.arith("==", v, self.rd(c.expr))
                    if self.truth(t):
                        start = k
                        break
                elif isinstance(c, A.Default):
                    default = k
            if start is None:
                start = default
            if start is None:
                return None
            for c in flat[start:]:
                body = c.stmts if isinstance(c, (A.Case, A.Default)) else [c]
                r = self.seq_(body or [], 0)
                if r is not None:
                    if r[0] == "break":
                        return None
                    return r
            return None
        finally:
            self.frames[-1]["scopes"].pop()

    # ---- loops
    def st_While(self, n):
        return self.loop(n, lambda: self.truth(self.rd(n.cond)), n.stmt, None, False)

    def st_DoWhile(self, n):
        return self.loop(n, lambda: self.truth(self.rd(n.cond)), n.stmt, None, True)

    def st_For(self, n):
        self.frames[-1]["scopes"].append({})
        try:
            if n.init is not None:
                if isinstance(n.init, A.DeclList):
                    self.st(n.init)
                else:
                    self.ev(n.init)
            return self.loop(n, (lambda: self.truth(self.rd(n.cond))) if n.cond is not None else (lambda: True), n.stmt,
                             (lambda: self.ev(n.next)) if n.next is not None else None, False)
        finally:
            self.frames[-1]["scopes"].pop()

    def locations(self):
        out = {}
        for fi, fr in enumerate(self.frames):
            for si, sc in enumerate(fr["scopes"]):
                for name, cell in sc.items():
                    out[("L", fi, si, name)] = cell[1]
        for o in self.objs:
            if isinstance(o, SObj):
                for k, v in o.f.items():
                    out[("F", o.id, k)] = v
            elif "seq" in o.at:
                out[("O", o.id)] = o.at["seq"]
        for b in self.blocks:
            if b.alive:
                out[("B", b.id, "arr")] = b.arr
                out[("B", b.id, "inited")] = b.inited
        for k, v in self.ghost.items():
            if z3.is_expr(v):
                out[("G", k)] = v
        return out

    def byid(self, i):
        for o in self.objs:
            if o.id == i:
                return o
        for b in self.blocks:
            if b.id == i:
                return b

    def setloc(self, loc, v):
        k = loc[0]
        if k == "L":
            self.frames[loc[1]]["scopes"][loc[2]][loc[3]][1] = v
        elif k == "F":
            self.byid(loc[1]).f[loc[2]] = v
        elif k == "O":
            self.byid(loc[1]).at["seq"] = v
        elif k == "B":
            setattr(self.byid(loc[1]), loc[2], v)
        else:
            self.ghost[loc[1]] = v

    def locty(self, loc):
        if loc[0] == "L":
            return self.frames[loc[1]]["scopes"][loc[2]][loc[3]][0]
        if loc[0] == "F":
            return dict(self.p.fields(self.byid(loc[1]).pykind))[loc[2]]

    @staticmethod
    def same(a, b):
        if a is b:
            return True
        if isinstance(a, CV) and isinstance(b, CV):
            if isinstance(a.t, int) or isinstance(b.t, int):
                return isinstance(a.t, int) and isinstance(b.t, int) and a.t == b.t
            return a.t.eq(b.t)
        if isinstance(a, BufPtr) and isinstance(b, BufPtr):
            return a.block is b.block and Machine.same(CV(a.off), CV(b.off))
        if z3.is_expr(a) and z3.is_expr(b):
            return a.eq(b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.same == b.same and a.same is not None
        if isinstance(a, StrData) and isinstance(b, StrData):
            return a.o is b.o
        if isinstance(a, FnPtr) and isinstance(b, FnPtr):
            return a.name == b.name
        if isinstance(a, (Static, StrLit)) and type(a) is type(b):
            return vars(a) == vars(b)
        return False

    def loop(self, node, cond, body, step, post):
        key = (tuple(f["name"] for f in self.frames), str(node.coord), type(node).__name__)
        info = self.path.ex.infos.setdefault(key, LoopInfo())
        prefix = list(self.path.trace)
        entry = {k: self.stale(v) for k, v in self.locations().items()}
        ekinds = {loc: self.kindof(v, v) for loc, v in entry.items() if v is NULL or v is UNINIT or isinstance(v, (BufPtr, MaybeBuf, CObj, CV)) or z3.is_expr(v)}
        cands = self.candidates(entry)
        # establish
        for name, f in cands:
            if name in info.dead:
                continue
            if self.path.replaying() and not getattr(f, "effect", False):
                continue
            g = f(self)
            if g is None or not (self.path.replaying() or self.path.prove(g, 4000, False)[0] == "proved"):
                info.dead.add(name)
        # an arrival is explored with one set of invariants: when another arrival changed it, start over
        here, ver = tuple(prefix), info.version()
        if self.path.replaying() and info.seen.get(here) not in (None, ver):
            info.seen.pop(here)
            raise Restart(prefix)
        info.seen[here] = ver
        # havoc
        moved = []
        for loc in sorted(info.mod, key=str):
            if loc not in entry:
                continue
            self.havoc(loc, entry[loc], sorted(info.kinds.get(loc, {"same"})), info, moved)
        for name, f in cands:
            if name not in info.dead:
                g = f(self)
                if g is not None:
                    self.path.assume(g)
                else:
                    info.dead.add(name)
                    info.seen.pop(here, None)
                    raise Restart(prefix)
        head = self.locations()
        head_blocks = [b for b in self.blocks if b.alive]
        head_refs = {o.id: o.refs for o in self.objs}
        nobj = len(self.objs)
        if not post and not cond():
            return None
        r = self.st(body)
        if r is not None and r[0] == "break":
            return None
        if r is not None and r[0] != "continue":
            return r
        if step is not None:
            step()
        if post and not cond():
            return None
        # back edge
        now = self.locations()
        changed = False
        for loc, old in head.items():
            new = now.get(loc, UNINIT if loc[0] != "B" else None)
            if new is None:
                continue            # memory released: seen through the pointers to it
            new = self.stale(new)
            if not self.same(self.stale0(old), new):
                if loc not in info.mod:
                    info.mod.add(loc)
                    changed = True
                k = self.kindof(new, old)
                ks = info.kinds.setdefault(loc, set())
                e = ekinds.get(loc, "poison")
                for x in (e, k):
                    if x not in ks:
                        ks.add(x)
                        changed = True
            elif loc not in info.mod and new is UNINIT and old is not UNINIT:
                info.mod.add(loc)
                info.kinds.setdefault(loc, set()).update(("poison", ekinds.get(loc, "poison")))
                changed = True
        if changed:
            raise Restart(prefix)
        # every block and reference acquired in the iteration is accounted for
        held = {id(v.block) for v in now.values() if isinstance(v, (BufPtr, MaybeBuf))}
        for b in self.blocks:
            if b.alive and b not in head_blocks and b.heap:
                self.check(id(b) in held, "memory acquired in a loop is not lost")
        owners = [self.stale(v) for v in now.values()]
        for k, o in enumerate(self.objs):
            if o.at.get("immortal"):
                continue
            if k < nobj:
                want = head_refs[o.id]
                swapped = [loc for loc, v in head.items() if v is o and self.stale(now.get(loc)) is not o]
                if swapped and o.refs == want - len(swapped):
                    continue
                self.check(o.refs == want, "references acquired in a loop are released exactly once")
            else:
                n = sum(1 for loc, v in now.items() if v is o and loc in info.mod and self.owning(loc))
                self.check(o.refs == n, "references acquired in a loop are released exactly once")
        bad = False
        todo = []
        for name, f in cands:
            if name in info.dead:
                continue
            g = f(self)
            if self.path.replaying():
                continue
            if g is None:
                info.dead.add(name)
                bad = True
            else:
                todo.append((name, g))
        if todo and self.path.prove(z3.And([g for _, g in todo]), 3000, False)[0] != "proved":
            for name, g in todo:
                if self.path.prove(g, 6000, False)[0] != "proved":
                    info.dead.add(name)
                    bad = True
        if bad:
            raise Restart(prefix)
        raise PathEnd()

    def owning(self, loc):
        return loc[0] == "F"

    def stale(self, v):
        """dead pointers count as uninitialised"""
        if isinstance(v, CObj) and v.dead():
            return UNINIT
        if isinstance(v, (BufPtr, MaybeBuf)) and not v.block.alive:
            return UNINIT
        if isinstance(v, StrData) and v.o.dead():
            return UNINIT
        return v

    stale0 = stale

    def kindof(self, new, old):
        if isinstance(new, CV) or z3.is_expr(new):
            return "int"
        if new is NULL:
            return "null"
        if new is UNINIT:
            return "poison"
        if isinstance(new, MaybeBuf):
            return "maybebuf"
        if isinstance(new, BufPtr):
            if isinstance(old, BufPtr) and old.block is new.block:
                return "off"
            return "newbuf"
        if isinstance(new, CObj):
            if new is old:
                return "obj:%s:%d" % (new.pykind, new.refs)
            return "obj:%s:%d" % (new.pykind, new.refs)
        raise Unsupported("loop variable %r" % (new,))

    def havoc(self, loc, old, kinds, info, moved):
        kinds = [k for k in kinds if k != "same"]
        if not kinds:
            return
        if "newbuf" in kinds or "null" in kinds:
            kinds = sorted({"newbuf" if k == "off" else k for k in kinds})
        if "maybebuf" in kinds or ("newbuf" in kinds and "null" in kinds):
            kinds = sorted({"maybebuf" if k in ("newbuf", "null", "off") else k for k in kinds})
        # a value that may be uninitialised must not be read: the other kinds add nothing
        k = "poison" if "poison" in kinds else kinds[self.path.choose(len(kinds))]
        if k == "int":
            ty = self.locty(loc)
            if ty is not None and ty.kind == "int":
                self.setloc(loc, self.fresh(str(loc[-1]), ty))
            elif isinstance(old, CV):
                self.setloc(loc, self.fresh(str(loc[-1]), old.ty))
            elif z3.is_expr(old):
                self.setloc(loc, self.path.fresh("h_%s" % loc[-1], old.sort()))
            else:
                raise Unsupported("loop location %r" % (loc,))
        elif k == "null":
            self.setloc(loc, NULL)
        elif k == "poison":
            self.setloc(loc, UNINIT)
        elif k == "off":
            t = self.path.fresh("off", I)
            self.setloc(loc, BufPtr(old.block, t))
        elif k in ("newbuf", "maybebuf"):
            es = old.block if isinstance(old, (BufPtr, MaybeBuf)) else None
            ty = self.locty(loc)
            if ty is None or ty.kind != "ptr" or ty.to.kind != "int":
                raise Unsupported("pointer changed in a loop")
            if es is not None:
                es.alive = False
            nb = self.path.fresh("bytes", I)
            self.path.assume(z3.And(nb >= 0, nb <= LONG.hi()))
            b = Block(self, nb, True)
            b.typed(self, ty.to, self.p.sizeof(ty.to))
            b.inited = self.path.fresh("inited", I)
            self.path.assume(z3.And(b.inited >= 0, b.inited <= b.size))
            self.setloc(loc, BufPtr(b, 0) if k == "newbuf" else MaybeBuf(b, self.path.fresh("null", z3.BoolSort())))
        elif k.startswith("obj:"):
            _, pk, refs = k.split(":")
            if isinstance(old, CObj) and not old.at.get("immortal") and self.owning(loc) and not isinstance(old, SObj):
                old.refs -= 1
            o = CObj(self, pk, refs=int(refs))
            if isinstance(old, CObj):
                o.at = dict(old.at)
            if "seq" in o.at:
                o.at["seq"] = self.path.fresh("seq", o.at["seq"].sort())
            self.setloc(loc, o)
        else:
            raise Unsupported("loop kind " + k)

    # ---- candidate invariants
    def candidates(self, entry):
        out = []
        ints = []
        seen = {}
        for loc, v in entry.items():
            ty = self.locty(loc) if loc[0] in "LF" else None
            if (ty is not None and ty.kind == "int" and ty is not BOOL) and not isinstance(v, StrData):
                ints.append((loc, "%s%s" % ("" if loc[0] == "L" else "->", loc[-1])))
        bufs = [(loc, str(loc[-1])) for loc, v in entry.items() if loc[0] in "LF" and isinstance(v, BufPtr)]

        def now(m, loc):
            if loc[0] == "L":
                v = m.frames[loc[1]]["scopes"][loc[2]].get(loc[3], [None, UNINIT])[1]
            else:
                v = m.byid(loc[1]).f.get(loc[2], UNINIT)
            return v

        def it(m, loc):
            v = now(m, loc)
            return v.term() if isinstance(v, CV) else None

        def add(name, f):
            out.append((name, f))

        strs = {}
        for loc, v in entry.items():
            if isinstance(v, CObj) and v.pykind == "str":
                strs[v.id] = v
        for loc, nm in ints:
            add(nm + " >= 0", lambda m, l=loc: (lambda x: None if x is None else x >= 0)(it(m, l)))
            add(nm + " <= 1", lambda m, l=loc: (lambda x: None if x is None else x <= 1)(it(m, l)))
            for o in strs.values():
                add("%s <= len of string %d" % (nm, o.id), lambda m, l=loc, o=o: (lambda x: None if x is None else x <= STR.len(o.at["s"]))(it(m, l)))
            for l2, n2 in ints:
                if l2 == loc:
                    continue
                for op, f in (("<=", lambda a, b: a <= b), ("<", lambda a, b: a < b), ("==", lambda a, b: a == b)):
                    if op == "==" and str(loc) > str(l2):
                        continue
                    add("%s %s %s" % (nm, op, n2), lambda m, a=loc, b=l2, f=f: (lambda x, y: None if x is None or y is None else f(x, y))(it(m, a), it(m, b)))
                if str(loc) < str(l2) and isinstance(entry[loc], CV) and isinstance(entry[l2], CV):
                    s0 = entry[loc].term() + entry[l2].term()
                    add("%s + %s unchanged" % (nm, n2), lambda m, a=loc, b=l2, s0=s0: (lambda x, y: None if x is None or y is None else x + y == s0)(it(m, a), it(m, b)))
            for bl, bn in bufs:
                def bf(m, bl, f):
                    v = now(m, bl)
                    return f(v.block, m) if isinstance(v, BufPtr) and v.block.alive and v.block.esize else None
                add("%s == size of %s" % (nm, bn), lambda m, l=loc, bl=bl: bf(m, bl, lambda b, m: None if it(m, l) is None else it(m, l) == b.size))
                add("%s < size of %s" % (nm, bn), lambda m, l=loc, bl=bl: bf(m, bl, lambda b, m: None if it(m, l) is None else it(m, l) < b.size))
                add("%s <= size of %s" % (nm, bn), lambda m, l=loc, bl=bl: bf(m, bl, lambda b, m: None if it(m, l) is None else it(m, l) <= b.size))
                add("%s elements of %s initialised" % (nm, bn), lambda m, l=loc, bl=bl: bf(m, bl, lambda b, m: None if it(m, l) is None else it(m, l) <= b.inited))
                add("%s + 1 elements of %s initialised" % (nm, bn), lambda m, l=loc, bl=bl: bf(m, bl, lambda b, m: None if it(m, l) is None else it(m, l) + 1 <= b.inited))
                for hi, hn in ((127, "ascii"), (0x10FFFF, "characters")):
                    add("%s[0..%s) are %s" % (bn, nm, hn), lambda m, l=loc, bl=bl, hi=hi: bf(m, bl, lambda b, m: None if it(m, l) is None else inr(b.arr, it(m, l), z3.IntVal(0), z3.IntVal(hi))))
                for l2, n2 in ints:
                    if l2 != loc:
                        add("%s[0..%s) lie below %s" % (bn, nm, n2), lambda m, l=loc, bl=bl, l2=l2: bf(m, bl, lambda b, m: None if it(m, l) is None or it(m, l2) is None else inr(b.arr, it(m, l), z3.IntVal(0), it(m, l2) - 1)))
        for bl, bn in bufs:
            add("whole of %s initialised" % bn, lambda m, bl=bl: (lambda v: v.block.inited >= v.block.size if isinstance(v, BufPtr) and v.block.alive and v.block.esize else None)(now(m, bl)))
            def atleast(m, bl, k):
                v = now(m, bl)
                return v.block.inited >= k if isinstance(v, BufPtr) and v.block.alive else None
        for loc, v in entry.items():
            if loc[0] == "B":
                b = self.byid(loc[1])
                if loc[2] == "inited":
                    e = v
                    add("block %d keeps what was initialised" % loc[1], lambda m, b=b, e=e: b.inited >= e)
                    add("block %d initialised within its size" % loc[1], lambda m, b=b: b.inited <= b.size if b.size is not None else None)
                    add("block %d initialised >= 0" % loc[1], lambda m, b=b: b.inited >= 0)
        for t in self.templates:
            for name, f in t(self, entry):
                g = lambda m, f=f: f(m)
                g.effect = True          # may add instances of definitions
                out.append((name, g))
        return out

    # ---- end of a function
    def exit_check(self, ret, owners=()):
        """memory and references at the end: everything acquired was released or handed over"""
        for b in self.blocks:
            if b.alive and b.heap:
                held = any(isinstance(v, (BufPtr, MaybeBuf)) and v.block is b for o in self.objs if isinstance(o, SObj) and not o.dead() for v in o.f.values())
                self.check(held, "all memory acquired is released or kept by the parser")
        for o in self.objs:
            if isinstance(o, SObj) and not o.dead():
                for v in o.f.values():
                    if isinstance(v, (BufPtr, MaybeBuf)) and not v.block.alive:
                        self.fail("the parser keeps no released memory")
        for o in self.objs:
            if o.at.get("immortal"):
                continue
            n = 0
            for s in self.objs:
                if isinstance(s, SObj) and not s.dead():
                    n += sum(v is o for v in s.f.values())
            if ret is o:
                n += 1
            if o.refs < n:
                self.fail("every pointer kept or returned owns a reference")
            self.check(o.refs == n, "every reference acquired is released or handed over")
        if isinstance(ret, CObj) and ret.dead():
            self.fail("no released object is returned")
