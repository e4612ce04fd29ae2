"""Contracts of the C library and CPython functions the extensions call (trusted).

Each function says what it needs of its arguments, which references it takes, returns or borrows, when it
can fail and what it leaves behind.  Every allocation can fail; every call into foreign code can raise."""
import z3
from .csym import (CV, NULL, UNINIT, VOIDV, BufPtr, Block, CObj, SObj, Ref, StrData, StrLit, Opaque, Static, FnPtr, BOOL, INT, LONG, ULONG, UINT,
                   of_array, inr, ARR)
from .smt import STR, ROW, CROW, CELL, I, Unsupported

MAXCHAR = 0x10FFFF
PTRDIFF_MAX = LONG.hi()


def fork_fail(m, cls="MemoryError", exc=True):
    """True when the environment makes the call fail"""
    if m.path.choose(2) == 1:
        if exc:
            m.raise_(cls, "environment")
        m.ghost["failed"] = cls
        return True
    return False


# ------------------------------------------------------------------ memory
def _alloc(m, nbytes, exc):
    if m.path.choose(2) == 1:
        m.ghost["failed"] = "MemoryError"
        return NULL
    n = m.convert(nbytes, ULONG)
    m.path.assume(n.term() <= PTRDIFF_MAX)
    return BufPtr(Block(m, n.term(), True), 0)


def malloc(m, n):
    return _alloc(m, n, False)


def calloc(m, a, b):
    p = malloc(m, m.arith("*", m.convert(a, ULONG), m.convert(b, ULONG)))
    if p is not NULL:
        p.block.zero = True
        p.block.arr = z3.K(I, z3.IntVal(0))
        p.block.inited = p.block.nbytes
    return p


def realloc(m, p, n):
    n = m.convert(n, ULONG)
    if p is NULL:
        return malloc(m, n)
    if not isinstance(p, BufPtr):
        raise Unsupported("realloc of %r" % (p,))
    m.check(z3.And(z3.BoolVal(p.block.alive and p.block.heap), CV(p.off).term() == 0), "memory is resized only while owned")
    m.check(n.term() > 0, "memory is never resized to nothing")
    if m.path.choose(2) == 1:
        m.ghost["failed"] = "MemoryError"
        return NULL
    old = p.block
    m.path.assume(n.term() <= PTRDIFF_MAX)
    b = Block(m, n.term(), True)
    if old.esize is not None:
        b.typed(m, old.ety, old.esize)
        if m.proved(b.size >= old.size):
            b.arr, b.inited = old.arr, old.inited
        else:
            k = z3.Int("k!re")
            m.path.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < b.size), z3.Select(b.arr, k) == z3.Select(old.arr, k)), patterns=[z3.Select(b.arr, k)]))
            b.inited = z3.If(old.inited < b.size, old.inited, b.size)
    old.alive = False
    return BufPtr(b, 0)


def free(m, p):
    m.free(p)
    return VOIDV


def memset(m, p, c, n):
    if not isinstance(p, BufPtr) or p.block.esize != 1:
        raise Unsupported("memset")
    b, n = p.block, m.convert(n, ULONG).term()
    if not b.alive:
        m.fail("no use of released memory")
    m.check(z3.And(CV(p.off).term() >= 0, CV(p.off).term() + n <= b.size), "every access lies inside its memory")
    if not (isinstance(p.off, int) and p.off == 0):
        raise Unsupported("memset inside")
    new = m.path.fresh("mem", ARR)
    k = z3.Int("k!ms")
    ch = m.convert(c, b.ety).term()
    m.path.assume(z3.ForAll([k], z3.Select(new, k) == z3.If(z3.And(0 <= k, k < n), ch, z3.Select(b.arr, k)), patterns=[z3.Select(new, k)]))
    b.arr = new
    b.inited = z3.If(b.inited < n, n, b.inited)
    return p


# ------------------------------------------------------------------ references
def incref(m, o):
    m.incref(o)
    return VOIDV


def xincref(m, o):
    if o is not NULL:
        m.incref(o)
    return VOIDV


def decref(m, o):
    m.live(o, "no reference is released that is not owned")
    m.decref(o)
    return VOIDV


def xdecref(m, o):
    return VOIDV if o is NULL else decref(m, o)


def newref(m, o):
    m.incref(o)
    return o


# ------------------------------------------------------------------ exceptions
def exc_name(o):
    if isinstance(o, CObj):
        return o.at.get("name", "?").replace("PyExc_", "")
    return "?"


def fmt_check(m, fmt, args):
    """the arguments fit the format"""
    if not isinstance(fmt, StrLit):
        raise Unsupported("computed format")
    import re
    specs = re.findall(r"%[-0-9.]*(ld|lu|zd|zu|d|u|i|x|c|s|U|S|R|A|V|p|%)", fmt.s)
    specs = [x for x in specs if x != "%"]
    m.check(z3.BoolVal(len(specs) == len(args)), "the arguments fit the format")
    for sp, a in zip(specs, args):
        if sp in ("d", "i", "u", "x", "c"):
            ok = isinstance(a, CV) and a.ty.bits <= 32
        elif sp in ("ld", "lu", "zd", "zu"):
            ok = isinstance(a, CV) and a.ty.bits == 64
        elif sp == "s":
            ok = isinstance(a, (StrLit, Opaque))
        else:
            ok = isinstance(a, CObj)
            m.live(a)
        m.check(z3.BoolVal(ok), "the arguments fit the format")
        if sp == "c":
            m.check(z3.And(a.term() >= 0, a.term() <= MAXCHAR), "the formatted character is valid")


def err_format(m, cls, fmt, *args):
    m.live(cls)
    fmt_check(m, fmt, args)
    m.raise_(exc_name(cls), "code")
    if "error" in m.ghost_hook:
        m.ghost_hook["error"](m)
    return NULL


def err_setstring(m, cls, s):
    m.live(cls)
    m.raise_(exc_name(cls), "code")
    if "error" in m.ghost_hook:
        m.ghost_hook["error"](m)
    return VOIDV


def err_nomemory(m):
    m.raise_("MemoryError", "environment" if "failed" in m.ghost else "code")
    return NULL


def err_occurred(m):
    return Opaque("exception") if m.exc else NULL


def err_clear(m):
    m.exc = None
    return VOIDV


# ------------------------------------------------------------------ foreign code
def foreign(m, cls="exception"):
    """arbitrary code runs: it can raise, and reach everything reachable from outside"""
    hook = m.ghost_hook.get("foreign") if hasattr(m, "ghost_hook") else None
    if hook:
        hook(m)


def is_true(m, o):
    m.live(o)
    foreign(m)
    k = m.path.choose(2)
    if k == 1:
        m.raise_("exception", "environment")
        m.ghost["failed"] = "exception"
        return CV(-1, INT)
    if "truth" not in o.at:
        o.at["truth"] = m.path.fresh("truth", z3.BoolSort())
    return m.bval(o.at["truth"])


def iter_next(m, it):
    m.live(it)
    f = m.ghost_hook.get("next")
    foreign(m)
    if f:
        return f(m, it)
    k = m.path.choose(4)
    if k == 0:
        return NULL
    if k == 1:
        m.raise_("exception", "environment")
        m.ghost["failed"] = "exception"
        return NULL
    if k == 2:
        o = new_str(m, m.path.fresh("line", STR.sort))
        o.at["foreign"] = True
        m.ghost_hook["line"] = (None, o.at["s"])
        return o
    return CObj(m, "nonstr", refs=1, foreign=True)


def get_iter(m, o):
    m.live(o)
    foreign(m)
    if fork_fail(m, "exception"):
        return NULL
    return CObj(m, "iter", refs=1, of=o)


# ------------------------------------------------------------------ strings
def new_str(m, s, refs=1):
    return CObj(m, "str", refs=refs, s=s)


def kind_known(m, o):
    """a foreign object turns out to be a string or not, an integer or not, ..."""
    if o.pykind == "obj":
        ks = ("str", "int", "nonstr")
        o.pykind = ks[m.path.choose(3)]
        if o.pykind == "str":
            o.at["s"] = m.path.fresh("str", STR.sort)
        if o.pykind == "int":
            o.at["value"] = m.path.fresh("value", I)
            o.at["exact"] = m.path.choose(2) == 0
    return o.pykind


def unicode_check(m, o):
    m.live(o)
    return CV(int(kind_known(m, o) == "str"), INT)


def need_str(m, o):
    m.live(o)
    if o.pykind != "str":
        m.fail("string functions are used on strings only")
    return o.at["s"]


def get_length(m, o):
    m.live(o)
    if o.pykind == "obj":
        kind_known(m, o)
    if o.pykind != "str":
        m.raise_("TypeError")
        return CV(-1, LONG)
    return length_macro(m, o)


def length_macro(m, o):
    s = need_str(m, o)
    n = STR.len(s)
    m.path.assume(z3.And(n >= 0, n <= PTRDIFF_MAX // 4))      # a string's characters fit in memory
    return CV(n, LONG)


def char_at(m, o, i):
    s = need_str(m, o)
    t = i.term()
    m.check(z3.And(t >= 0, t <= STR.len(s)), "every character read lies inside its string")
    c = z3.If(t < STR.len(s), STR.at(s, t), z3.IntVal(0))
    m.path.assume(z3.And(c >= 0, c <= (127 if m.ghost_hook.get("ascii") else MAXCHAR)))
    return CV(z3.simplify(c), UINT)


def read_char(m, o, i):
    return char_at(m, o, i)


def u_kind(m, o):
    need_str(m, o)
    return StrData(o)


u_data = u_kind


def u_read(m, kind, data, i):
    if not (isinstance(kind, StrData) and isinstance(data, StrData)):
        raise Unsupported("PyUnicode_READ")
    m.check(z3.BoolVal(kind.o is data.o), "a string is read with its own kind")
    return char_at(m, data.o, i)


def u_ready(m, o):
    need_str(m, o)
    return CV(-1, INT) if fork_fail(m) else CV(0, INT)


def u_substring(m, o, a, b):
    s = need_str(m, o)
    a, b = a.term(), b.term()
    bad = z3.Or(a < 0, b < 0)
    if m.path.decide(bad):
        m.raise_("IndexError")
        return NULL
    if fork_fail(m):
        return NULL
    n = STR.len(s)
    e = z3.If(b > n, n, b)
    r = z3.If(z3.Or(a >= n, e < a), STR.empty, STR.sub(s, a, e))
    return new_str(m, z3.simplify(r) if False else r)


def u_from_kind(m, kind, p, n):
    if not isinstance(kind, CV) or kind.t != 4:
        raise Unsupported("PyUnicode_FromKindAndData of another kind")
    n = n.term()
    if p is NULL:
        m.check(n == 0, "only memory that was initialised is turned into a string")
        return NULL if fork_fail(m) else new_str(m, STR.empty)
    if not isinstance(p, BufPtr):
        raise Unsupported("PyUnicode_FromKindAndData of %r" % (p,))
    b = p.block
    if not b.alive:
        m.fail("no use of released memory")
    if b.esize != 4 or p.off != 0:
        raise Unsupported("PyUnicode_FromKindAndData of other memory")
    m.check(z3.And(n >= 0, n <= b.size), "every access lies inside its memory")
    m.check(n <= b.inited, "only memory that was initialised is turned into a string")
    m.check(inr(b.arr, n, z3.IntVal(0), z3.IntVal(MAXCHAR)), "only valid characters are turned into a string")
    return NULL if fork_fail(m) else new_str(m, of_array(b.arr, n))


def u_from_bytes(m, p, n):
    n = n.term()
    if not isinstance(p, BufPtr):
        raise Unsupported("PyUnicode_FromStringAndSize of %r" % (p,))
    b = p.block
    if not b.alive:
        m.fail("no use of released memory")
    if b.esize != 1 or p.off != 0:
        raise Unsupported("PyUnicode_FromStringAndSize of other memory")
    m.check(z3.And(n >= 0, n <= b.size), "every access lies inside its memory")
    m.check(n <= b.inited, "only memory that was initialised is turned into a string")
    if fork_fail(m):
        return NULL
    if not m.proved(inr(b.arr, n, z3.IntVal(0), z3.IntVal(127))):
        # the bytes may be any UTF-8 text, or none
        k = m.path.choose(2)
        if k == 1:
            m.raise_("UnicodeDecodeError")
            return NULL
        return new_str(m, m.path.fresh("decoded", STR.sort))
    return new_str(m, of_array(b.arr, n))


# ------------------------------------------------------------------ numbers
def long_checkexact(m, o):
    m.live(o)
    return CV(int(kind_known(m, o) == "int" and o.at["exact"]), INT)


def long_check(m, o):
    m.live(o)
    return CV(int(kind_known(m, o) == "int"), INT)


def long_aslong(m, o):
    m.live(o)
    if kind_known(m, o) != "int":
        foreign(m)
        if m.path.choose(2) == 1:
            m.raise_("TypeError")
            return CV(-1, LONG)
        return m.fresh("converted", LONG)
    v = o.at["value"]
    if m.path.decide(z3.And(v >= LONG.lo(), v <= LONG.hi())):
        return CV(v, LONG)
    m.raise_("OverflowError")
    return CV(-1, LONG)


def bool_fromlong(m, n):
    o = m.global_lv("Py_True" if m.truth(n) else "Py_False").get()
    return o


# ------------------------------------------------------------------ containers
def tuple_new(m, n):
    if not isinstance(n.t, int):
        raise Unsupported("tuple of variable size")
    return NULL if fork_fail(m) else CObj(m, "tuple", refs=1, items=[None] * n.t)


def steal(m, c, item):
    if item is NULL:
        return
    m.live(item)
    if not item.at.get("immortal"):
        if item.refs <= 0:
            m.fail("only an owned reference is given away")
        item.refs -= 1
    item.inside.append(c)


def tuple_setitem(m, t, i, item):
    m.live(t)
    if t.pykind != "tuple" or not isinstance(i.t, int):
        raise Unsupported("PyTuple_SetItem")
    if not 0 <= i.t < len(t.at["items"]):
        m.decref(item)
        m.raise_("IndexError")
        return CV(-1, INT)
    m.check(z3.BoolVal(t.refs == 1), "a tuple is filled only while it is new")
    steal(m, t, item)
    t.at["items"][i.t] = item
    return CV(0, INT)


def tuple_pack(m, n, *items):
    t = tuple_new(m, n)
    if t is not NULL:
        for k, x in enumerate(items):
            m.incref(x)
            tuple_setitem(m, t, CV(k), x)
    return t


def list_new(m, n):
    if n.t != 0:
        raise Unsupported("PyList_New of a size")
    return NULL if fork_fail(m) else CObj(m, "list", refs=1, seq=m.ghost_hook.get("empty_seq"))


def as_cell(m, o):
    """contents of a list item as a term"""
    if o.pykind == "str":
        return o.at["s"]
    if o.pykind == "tuple" and len(o.at["items"]) == 2:
        a, b = o.at["items"]
        if isinstance(a, CObj) and a.pykind == "str" and isinstance(b, CObj) and b.at.get("name") in ("Py_True", "Py_False"):
            return CELL.cell(a.at["s"], z3.BoolVal(b.at["name"] == "Py_True"))
    return None


def list_append(m, l, o):
    m.live(l)
    m.live(o)
    if l.pykind != "list":
        m.fail("list functions are used on lists only")
    if o.pykind == "tuple" and None in o.at["items"]:
        m.fail("a tuple is complete before it is used")
    if fork_fail(m):
        return CV(-1, INT)
    o.inside.append(l)
    s = l.at.get("seq")
    c = as_cell(m, o)
    if s is None:
        s = l.at.get("empty", {}).get(str(c.sort())) if c is not None else None
        if s is None:
            s = ROW.empty if c is not None and c.sort() == STR.sort else CROW.empty
    if c is None:
        l.at["seq"] = m.path.fresh("seq", s.sort())
    else:
        th = ROW if c.sort() == STR.sort else CROW
        if s.sort() != th.sort:
            m.fail("a row holds cells of one form")
        l.at["seq"] = th.cat(s, th.unit(c))
    return CV(0, INT)


# ------------------------------------------------------------------ objects and modules
def gc_new(m, ty):
    name = m.api["structs"].get(getattr(ty, "name", None))
    if name is None:
        raise Unsupported("object of type %r" % (ty,))
    if fork_fail(m):
        return NULL
    o = SObj(m, name, refs=1)
    o.f = {n: UNINIT for n, t in m.p.fields(name)}
    o.tracked = False
    return o


def gc_track(m, o):
    m.live(o)
    for n, ty in m.p.fields(o.pykind):
        if ty.kind == "ptr" and o.f.get(n) is UNINIT:
            m.fail("an object is complete before the garbage collector sees it")
    o.tracked = True
    return VOIDV


def gc_untrack(m, o):
    m.live(o)
    o.tracked = False
    return VOIDV


def gc_del(m, o):
    m.live(o)
    if getattr(o, "tracked", False):
        m.fail("an object is hidden from the garbage collector before it is released")
    if getattr(o, "gone", False):
        m.fail("an object is released once")
    o.gone = True
    return VOIDV


def parse_tuple(m, args, fmt, *outs):
    return parse_args(m, fmt, outs)


def parse_tuple_kw(m, args, kw, fmt, kwlist, *outs):
    from pycparser import c_ast as A
    init = getattr(kwlist, "init", None)
    if not isinstance(init, A.InitList):
        raise Unsupported("computed keyword list")
    names = [e.value[1:-1] if isinstance(e, A.Constant) and e.type == "string" else None for e in init.exprs]
    if isinstance(fmt, StrLit) and (names[-1:] != [None] or None in names[:-1] or len(names) - 1 != len([c for c in fmt.s if c.isalpha()])):
        m.fail("the keyword list matches the argument format")
    r = parse_args(m, fmt, outs)
    if m.ghost_hook.get("given") is not None:
        m.ghost_hook["given"] = {names[k]: v for k, v in m.ghost_hook["given"].items()}
    return r


def parse_args(m, fmt, outs):
    if not isinstance(fmt, StrLit):
        raise Unsupported("computed argument format")
    foreign_fail = m.path.choose(2)
    if foreign_fail:
        m.raise_("TypeError")
        return CV(0, INT)
    f = fmt.s.split(":")[0].split(";")[0]
    opt, k = False, 0
    given = {}
    for c in f:
        if c == "|":
            opt = True
            continue
        if c == "$":
            continue
        if c not in "OU":
            raise Unsupported("argument format " + fmt.s)
        r = outs[k]
        if not isinstance(r, Ref):
            raise Unsupported("argument target")
        if opt and m.path.choose(2) == 1:
            given[k] = None
            k += 1
            continue
        o = CObj(m, "str" if c == "U" else "obj", refs=0, borrowed=True, anon=True)
        if c == "U":
            o.at["s"] = m.path.fresh("arg", STR.sort)
        given[k] = o
        r.set(o)
        k += 1
    m.check(z3.BoolVal(k == len(outs)), "the arguments fit the format")
    m.ghost_hook["given"] = given
    return CV(1, INT)


def getstate(m, mod):
    m.live(mod)

    def fld(name):
        return Ref(lambda: m.gvars.setdefault("state." + name, CObj(m, "exc", refs=1, borrowed=True, immortal=True, name="Error")), None, None, name)
    s = m.gvars.get("module state")
    if s is None:
        s = m.gvars["module state"] = State(m)
    return s


class State(SObj):
    def __init__(self, m):
        CObj.__init__(self, m, "_cparserstate", refs=1, borrowed=True, immortal=True)
        err = m.gvars.get("error_obj")
        if err is None:
            err = m.gvars["error_obj"] = CObj(m, "exc", refs=1, borrowed=True, immortal=True, name="Error")
        self.f = {"error_obj": err}


def find_module(m, d):
    o = m.gvars.get("module")
    if o is None:
        o = m.gvars["module"] = CObj(m, "module", refs=1, borrowed=True, immortal=True)
    return o


def module_create(m, d):
    if fork_fail(m):
        return NULL
    o = CObj(m, "module", refs=1)
    st = SObj(m, "_cparserstate", refs=1, borrowed=True)
    st.at["immortal"] = True
    st.f = {"error_obj": NULL}
    st.owner = o
    m.gvars["module state"] = st
    return o


def add_string(m, mod, name, val):
    m.live(mod)
    return CV(-1, INT) if fork_fail(m) else CV(0, INT)


def add_object(m, mod, name, o):
    m.live(mod)
    if fork_fail(m):
        return CV(-1, INT)
    if not isinstance(name, StrLit):
        raise Unsupported("computed name")
    steal(m, mod, o)
    mod.at.setdefault("names", {})[name.s] = o
    return CV(0, INT)


def new_exception(m, name, base, d):
    return NULL if fork_fail(m) else CObj(m, "exc", refs=1, name="Error")


def type_ready(m, t):
    return CV(-1, INT) if fork_fail(m) else CV(0, INT)


def py_type(m, o):
    m.live(o)
    return Opaque("type", lambda nm: Opaque("type name"))


FUNCTIONS = {
    "malloc": malloc, "calloc": calloc, "realloc": realloc, "free": free, "memset": memset,
    "PyMem_Malloc": malloc, "PyMem_Calloc": calloc, "PyMem_Realloc": realloc, "PyMem_Free": free,
    "PyMem_RawMalloc": malloc, "PyMem_RawRealloc": realloc, "PyMem_RawFree": free, "PyMem_RawCalloc": calloc,
    "Py_INCREF": incref, "Py_XINCREF": xincref, "Py_DECREF": decref, "Py_XDECREF": xdecref, "Py_NewRef": newref,
    "PyErr_Format": err_format, "PyErr_SetString": err_setstring, "PyErr_NoMemory": err_nomemory, "PyErr_Occurred": err_occurred, "PyErr_Clear": err_clear,
    "PyObject_IsTrue": is_true, "PyIter_Next": iter_next, "PyObject_GetIter": get_iter,
    "PyUnicode_Check": unicode_check, "PyUnicode_GetLength": get_length, "PyUnicode_GET_LENGTH": length_macro, "PyUnicode_READ_CHAR": read_char,
    "PyUnicode_ReadChar": read_char,
    "PyUnicode_KIND": u_kind, "PyUnicode_DATA": u_data, "PyUnicode_READ": u_read, "PyUnicode_READY": u_ready, "PyUnicode_Substring": u_substring,
    "PyUnicode_FromKindAndData": u_from_kind, "PyUnicode_FromStringAndSize": u_from_bytes,
    "PyLong_CheckExact": long_checkexact, "PyLong_Check": long_check, "PyLong_AsLong": long_aslong, "PyBool_FromLong": bool_fromlong,
    "PyTuple_New": tuple_new, "PyTuple_SetItem": tuple_setitem, "PyTuple_SET_ITEM": lambda m, t, i, x: (tuple_setitem(m, t, i, x), VOIDV)[1], "PyTuple_Pack": tuple_pack,
    "PyList_New": list_new, "PyList_Append": list_append,
    "_PyObject_GC_New": gc_new, "PyObject_GC_Track": gc_track, "PyObject_GC_UnTrack": gc_untrack, "PyObject_GC_Del": gc_del,
    "PyArg_ParseTuple": parse_tuple, "PyArg_ParseTupleAndKeywords": parse_tuple_kw,
    "PyModule_GetState": getstate, "PyState_FindModule": find_module, "PyModule_Create": module_create,
    "PyModule_AddStringConstant": add_string, "PyModule_AddObject": add_object, "PyErr_NewException": new_exception, "PyType_Ready": type_ready,
    "Py_TYPE": py_type,
}
API = {"functions": FUNCTIONS, "structs": {"Parser_Type": "ParserObj"}}
TRUST_CAPI = ("CPython and C library functions called by the extensions: the contracts of engine/capi.py (references taken, returned and borrowed; every "
              "allocation may fail; objects handed over as borrowed arguments stay alive during the call)")
TRUST_CFRONT = ("the C front end: gcc -E with the declarations of engine/cstub instead of the Python headers, pycparser, and engine/csym.py; int is 32 bits, long and "
                "pointers are 64 bits; assert() is compiled out as in the normal build")
