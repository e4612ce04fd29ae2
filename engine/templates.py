"""Generic loop-invariant candidates (filtered by Houdini: only inductive ones are kept)."""
import z3
from . import smt
from .smt import I
from .vals import *


def _ent(it, v, kind):
    try:
        return it.term(v, kind)
    except Exception:
        return None


def scalars(it, st):
    """frame cells holding scalars: unchanged / bounds / tied to the loop index"""
    out = []
    for cell, o, v in st.cells():
        e = st.entry.get(cell, UNSET)
        k = kind_of(e)
        if k == "int":
            e0 = it.term(e, "int")

            def val(s, cell=cell):
                x = s.now(cell)
                return it.term(x, "int") if kind_of(x) in ("int",) else None

            def mk(fn, val=val):
                def g(s):
                    x = val(s)
                    return None if x is None else fn(s, x)
                return g
            n = "%s.%s" % cell
            out.append((n + "=entry", mk(lambda s, x, e0=e0: x == e0)))
            out.append((n + ">=entry", mk(lambda s, x, e0=e0: x >= e0)))
            out.append((n + "=entry+idx", mk(lambda s, x, e0=e0: x == e0 + s.idx)))
            out.append((n + "<=entry+idx", mk(lambda s, x, e0=e0: x <= e0 + s.idx)))
            out.append((n + ">=0", mk(lambda s, x: x >= 0)))
        elif k == "bool":
            e0 = it.term(e, "bool")

            def g(s, cell=cell, e0=e0):
                x = s.now(cell)
                return it.term(x, "bool") == e0 if kind_of(x) == "bool" else None
            out.append(("%s.%s=entry" % cell, g))
        elif k == "flt":
            def g(s, cell=cell):
                x = s.now(cell)
                return it.term(x, "flt") >= 0 if kind_of(x) == "flt" and not (isinstance(x, float) and abs(x) == float("inf")) else None
            out.append(("%s.%s>=0" % cell, g))
        elif k == "str":
            e0 = it.term(e, "str")

            def g(s, cell=cell, e0=e0):
                x = s.now(cell)
                return it.term(x, "str") == e0 if kind_of(x) == "str" else None
            out.append(("%s.%s=entry" % cell, g))
    return out


def accumulate(it, st):
    """list cells: entry ++ source[:idx], and length"""
    out = []
    src = getattr(getattr(st.src, "base", None), "t", None)
    base = getattr(st.src, "base", None)
    for cell, o, v in st.cells():
        e = st.entry.get(cell, UNSET)
        if not isinstance(e, (list, Seq)) and not isinstance(e, ListObj):
            continue

        def seq(x):
            if isinstance(x, ListObj):
                x = it.getf(x, "v")
            if isinstance(x, list) and not x:
                return None
            try:
                return it.as_seq(x)
            except Exception:
                return None

        def ln(x):
            if isinstance(x, ListObj):
                x = it.getf(x, "v")
            if isinstance(x, list):
                return z3.IntVal(len(x))
            if isinstance(x, Seq):
                return it.seq_len(x) if x.et else z3.IntVal(0)
            return None
        l0 = ln(e)
        n = "%s.%s" % cell

        def glen(s, cell=cell, l0=l0):
            x = ln(s.now(cell))
            return None if x is None or l0 is None else x == l0 + s.idx

        def gle(s, cell=cell, l0=l0):
            x = ln(s.now(cell))
            return None if x is None or l0 is None else z3.And(x >= l0, x <= l0 + s.idx)
        out.append((n + " len=entry+idx", glen))
        out.append((n + " len<=entry+idx", gle))
        if isinstance(base, Seq) and base.et is not None:
            th = base.et.th

            def gacc(s, cell=cell, e=e, th=th, base=base):
                x = s.now(cell)
                e1 = e
                if isinstance(e1, ListObj):
                    e1 = it.getf(e1, "v")
                xs = seq(x)
                pre = th.sub(base.t, z3.IntVal(0), s.idx)
                it.path.assume(th.snoc(base.t, s.idx - 1))
                if isinstance(e1, list) and not e1:
                    if xs is None:
                        return th.len(pre) == 0
                    if xs.et is not base.et:
                        return None
                    return xs.t == pre
                es = seq(e1)
                if es is None or xs is None or es.et is not base.et or xs.et is not base.et:
                    return None
                it.path.assume(th.ext(xs.t, th.cat(es.t, pre)))
                return xs.t == th.cat(es.t, pre)
            out.append((n + " = entry ++ source[:idx]", gacc))
    return out


GENERIC = [scalars, accumulate]
