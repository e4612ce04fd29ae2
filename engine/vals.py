"""Values of the symbolic Python interpreter."""
from contextlib import contextmanager
import z3
from . import smt
from .smt import STR, ROW, TABLE, CROW, CTABLE, OSEQ, OTABLE, DSEQ, ISEQ, BSEQ, CELL, DIALECT, U, Unsupported


class S:
    """symbolic scalar"""
    __slots__ = ("kind", "t")

    def __init__(self, kind, t):
        self.kind, self.t = kind, t

    def __repr__(self):
        return "<%s %s>" % (self.kind, str(self.t)[:60])


FSMAP = z3.ArraySort(STR.sort, STR.sort)
FSEX = z3.ArraySort(STR.sort, smt.B)
KSET = z3.ArraySort(U, smt.B)
KMAP = z3.ArraySort(U, U)
DSET, DMAP = z3.ArraySort(smt.DIALECT, smt.B), z3.ArraySort(smt.DIALECT, U)
SORTS = {"dset": DSET, "dmap": DMAP, "kset": KSET, "kmap": KMAP, "int": smt.I, "bool": smt.B, "flt": smt.R, "str": STR.sort, "obj": U, "bytes": STR.sort, "fsmap": FSMAP, "fsex": FSEX}


class Unset:
    def __repr__(self):
        return "<unset>"


UNSET = Unset()


class Maybe:
    """value of one of several kinds, decided when first read"""

    def __init__(self, options):
        self.options = options      # list of thunks(interp) -> value


class Seq:
    """immutable sequence of symbolic length"""
    __slots__ = ("et", "t")

    def __init__(self, et, t):
        self.et, self.t = et, t

    def __repr__(self):
        return "<seq %s %s>" % (self.et.name if self.et else None, str(self.t)[:60])


class Obj:
    """heap object: class and fields"""

    def __init__(self, interp, cls, fields=None, label=""):
        self.cls, self.f, self.label = cls, dict(fields or {}), label
        interp.heap_n += 1
        self.id = interp.heap_n
        self.birth = self.id
        self.frozen = False
        self.static = interp.loading > 0        # made while a module is loaded
        interp.objs[self.id] = self

    def __repr__(self):
        return "<%s#%d %s>" % (getattr(self.cls, "name", self.cls), self.id, {k: v for k, v in list(self.f.items())[:4]})


class ListObj(Obj):
    """f['v'] is a python list (known length) or a Seq"""

    def __init__(self, interp, v, label="list"):
        Obj.__init__(self, interp, "list", {"v": v}, label)


class DictObj(Obj):
    """f['v']: python list of (key, value) pairs with known keys; insertion order"""

    def __init__(self, interp, items=(), cls="dict"):
        Obj.__init__(self, interp, cls, {"v": list(items)})


class SetObj(Obj):
    """f['v']: python list of distinct values, or SymSet"""

    def __init__(self, interp, v):
        Obj.__init__(self, interp, "set", {"v": v})


class SymSet:
    __slots__ = ("kind", "mem")

    def __init__(self, kind, mem):
        self.kind, self.mem = kind, mem


class ModuleVal:
    def __init__(self, name, tree, path):
        self.name, self.tree, self.path = name, tree, path

    def __repr__(self):
        return "<module %s>" % self.name


class ExtVal:
    """something outside the repository, named by its dotted path"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<external %s>" % self.name


class FuncVal:
    def __init__(self, node, module, closure, qualname, defaults, kwdefaults, owner=None):
        self.node, self.module, self.closure, self.qualname = node, module, closure, qualname
        self.defaults, self.kwdefaults, self.owner = defaults, kwdefaults, owner
        self.wrapper = None     # e.g. lru_cache

    @property
    def name(self):
        return self.qualname

    def __repr__(self):
        return "<function %s>" % self.qualname


class BuiltinFn:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_

    def __repr__(self):
        return "<bound %r>" % (self.fn,)


class ClassVal:
    def __init__(self, name, bases, ns, module=None, py=None):
        self.name, self.bases, self.ns, self.module, self.py = name, bases, ns, module, py
        self.decorators = []
        self.model = None

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name]
        return None

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return "<class %s>" % self.name


class Prop:
    def __init__(self, get, set_=None):
        self.get, self.set = get, set_


class StaticM:
    def __init__(self, fn):
        self.fn = fn


class ClassM:
    def __init__(self, fn):
        self.fn = fn


class GenExpV:
    def __init__(self, node, frame):
        self.node, self.frame = node, frame


class GenCall:
    """a called generator function, not started"""

    def __init__(self, fn, frame):
        self.fn, self.frame = fn, frame


class MapV:
    def __init__(self, fn, srcs):
        self.fn, self.srcs = fn, srcs


class FilterV(MapV):
    """filter(fn, src)"""


class ChainV(MapV):
    """itertools.chain: the elements of srcs one after the other, or of the elements of srcs[0] (nested)"""
    nested = False


class ZipV:
    def __init__(self, srcs, longest=False, fill=None):
        self.srcs, self.longest, self.fill = srcs, longest, fill


class EnumV:
    def __init__(self, src, start=0):
        self.src, self.start = src, start


class RangeV:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class ProductV:
    def __init__(self, srcs):
        self.srcs = srcs


class Idx:
    """indexable source: n (int or z3 Int) and get(interp, k)"""

    def __init__(self, n, get, base=None):
        self.n, self.get, self.base = n, get, base


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


# ---------------------------------------------------------------- element types
class ET:
    def __init__(self, name, th, wrap, unwrap, match):
        self.name, self.th, self.wrap, self.unwrap, self.match = name, th, wrap, unwrap, match

    def __repr__(self):
        return "ET(%s)" % self.name


def to_z3(v, kind=None):
    """scalar value -> z3 term"""
    if isinstance(v, S):
        if kind == "flt" and v.kind == "int":
            return z3.ToReal(v.t)
        if kind in ("int", "flt") and v.kind == "bool":
            t = z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            return z3.ToReal(t) if kind == "flt" else t
        if kind and v.kind != kind:
            raise Unsupported("a %s where a %s is needed" % (v.kind, kind))
        return v.t
    if kind == "flt" and isinstance(v, (int, float)) and not isinstance(v, bool):
        if v != v or v in (float("inf"), -float("inf")):
            raise Unsupported("infinite float in arithmetic")
        return z3.RealVal(repr(v) if isinstance(v, int) else "%.30f" % v if abs(v) > 1e-20 else repr(v))
    if isinstance(v, bool):
        return z3.BoolVal(v) if kind in (None, "bool") else z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        return to_z3(v, "flt")
    if isinstance(v, str):
        if kind not in (None, "str"):
            raise Unsupported("a str where a %s is needed" % kind)
        raise Unsupported("string literal needs the path (use interp.term)")
    raise Unsupported("no term for %r" % (v,))


def kind_of(v):
    if isinstance(v, S):
        return v.kind
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, float):
        return "flt"
    if isinstance(v, str):
        return "str"
    if isinstance(v, bytes):
        return "bytes"
    return None


@contextmanager
def unordered(it, on=True):
    """what is done with the elements does not depend on their order"""
    m = it.mono
    if m is None or not on:
        yield
        return
    m.quiet += 1
    try:
        yield
    finally:
        m.quiet -= 1
