"""Arbitrary values: an over-approximation used for frame properties.  An ANY value may be anything;
every operation on it gives an arbitrary value or raises an arbitrary exception."""
import z3
from . import smt
from .smt import Unsupported
from .vals import *
from .models import Model, B, any_exception


def any_value(it):
    return Obj(it, ANY, {})


def may_raise(it):
    if it.path.choose(2) == 1:
        raise any_exception(it)


def op(it, *a):
    may_raise(it)
    return any_value(it)


def fresh_bool(it, *a):
    return it.path.fresh("anyb", smt.B)


def _getany(it, o, name):
    if name in it.ghost.get("unsafe_names", ()):
        raise Unsupported("call of .%s on an unknown object" % name)
    return any_value(it)


def _iterate(it, v, body, key):
    def test():
        c = it.path.choose(3)
        if c == 2:
            raise any_exception(it)
        return c == 0
    return it.while_loop(test, lambda: body(any_value(it)), key + ("any",))


def _length(it, o):
    may_raise(it)
    n = it.fresh("int", "anylen")
    it.path.assume(n.t >= 0)
    return n


ANY = Model("any", getany=_getany, call=lambda it, f, a, k: op(it), truth=lambda it, o: fresh_bool(it),
            binop=lambda it, o, a, b: op(it), getitem=lambda it, o, k: op(it), setitem=lambda it, o, k, v: may_raise(it),
            contains=lambda it, c, x: fresh_bool(it), iterate=_iterate, length=_length, iter=lambda it, v: any_value(it),
            next=lambda it, v, *a: op(it), isinstance=lambda it, v, c: it.wrap_bool(fresh_bool(it)))
ANY.set = lambda it, o, name, val: may_raise(it)
ANY.any = True


def is_any(v):
    return isinstance(v, Obj) and v.cls is ANY


def has_any(v, d=0):
    if is_any(v):
        return True
    if isinstance(v, (ListObj, DictObj, SetObj)) and is_any(v.f.get("v")):
        return True
    if isinstance(v, (tuple, list)) and d < 3:
        return any(has_any(x, d + 1) for x in v)
    if isinstance(v, ListObj) and isinstance(v.f.get("v"), list) and d < 3:
        return any(has_any(x, d + 1) for x in v.f["v"])
    if isinstance(v, DictObj) and isinstance(v.f.get("v"), list) and d < 3:
        return any(has_any(x, d + 1) for kv in v.f["v"] for x in kv)
    return isinstance(v, (MapV, GenExpV, ZipV, EnumV, GenCall)) and d < 1 and any(has_any(x, d + 1) for x in getattr(v, "srcs", []))


KEEP = ("print", "len", "isinstance", "issubclass", "getattr", "hasattr", "setattr", "iter", "next", "append", "extend", "super", "init", "bool",
        "any", "all", "enumerate", "zip", "map", "filter", "reversed", "partial", "contextmanager", "typing.cast", "functools.partial",
        "callable", "type", "insert", "add", "contextlib.contextmanager", "any_body")


def havoc(it, f, args, kw):
    """calls of library functions in frame mode"""
    if isinstance(f, ExtVal):
        return op(it)
    name = f.name
    if name == "isinstance" and (has_any(args[:1]) or isinstance(args[1], ExtVal) or has_any(args[1:])):
        return it.wrap_bool(fresh_bool(it))
    if name in KEEP:
        return UNSET
    if has_any(args) or has_any(list(kw.values())):
        return op(it)
    return UNSET
