"""Symbolic interpreter for the subset of Python used by the repository.

It reads the real source files and executes functions symbolically, path by path.  A call to a
function that has a contract is replaced by the contract; every other repository function is
executed inline.  Loops over sources of unknown length are cut at the loop head with inductive
invariants (templates filtered by Houdini)."""
import ast
import os
from fractions import Fraction
import z3
from . import smt
from .smt import STR, ROW, TABLE, CROW, CTABLE, OSEQ, OTABLE, DSEQ, ISEQ, BSEQ, CELL, DIALECT, U
from .smt import Path, PathEnd, Restart, Unsupported
from .vals import *

REPO = os.environ.get("VERIF_REPO", "/repo")


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PyExc(Exception):
    """a Python exception of the program under verification"""

    def __init__(self, value):
        self.value = value


class ConsumerEx(Exception):
    """exception of the consumer of a generator passing through the generator's frames"""

    def __init__(self, inner):
        self.inner = inner


class Frame(Obj):
    def __init__(self, interp, name, module, parent=None, yield_to=None):
        Obj.__init__(self, interp, "frame", {}, name)
        self.module, self.parent, self.yield_to = module, parent, yield_to
        self.nonlocals, self.globals_ = set(), set()
        self.is_class = False
        self.localnames = None


class LoopInfo:
    def __init__(self, key):
        self.key, self.frame, self.kinds, self.removed = key, [], {}, set()


class LoopState:
    """what an invariant template may look at"""

    def __init__(self, interp, idx, n, src, entry, info, done=None):
        self.interp, self.idx, self.n, self.src, self.entry, self.info = interp, idx, n, src, entry, info
        self.done = done

    def cells(self):
        for cell in self.info.frame:
            o = self.interp.objs.get(cell[0])
            if o is not None:
                yield cell, o, o.f.get(cell[1], UNSET)

    def now(self, cell):
        o = self.interp.objs[cell[0]]
        return o.f.get(cell[1], UNSET)

    def decided(self, cell):
        """the value, of one definite kind"""
        return self.interp.getf(self.interp.objs[cell[0]], cell[1])


class ActiveLoop:
    def __init__(self, start, info):
        self.start, self.info, self.new = start, info, []


def stmts_assign_names(node):
    """names bound in a function body (locals)"""
    out, nl, gl = set(), set(), set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        visit_ImportFrom = visit_Import

        def visit_Nonlocal(self, n):
            nl.update(n.names)

        def visit_Global(self, n):
            gl.update(n.names)
    v = V()
    for st in node.body:
        v.visit(st)
    return out - nl - gl, nl, gl


def is_generator(node):
    class V(ast.NodeVisitor):
        found = False

        def visit_Yield(self, n):
            self.found = True
        visit_YieldFrom = visit_Yield

        def visit_FunctionDef(self, n):
            pass
        visit_Lambda = visit_ClassDef = visit_GeneratorExp = visit_ListComp = visit_FunctionDef
    v = V()
    for st in node.body:
        v.visit(st)
    return v.found


class Program:
    """the repository's source, parsed once per run"""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.trees = {}
        self.sources = {}

    def path_of(self, name):
        base = os.path.join(self.repo, *name.split("."))
        for p in (base + ".py", os.path.join(base, "__init__.py")):
            if os.path.isfile(p):
                return p
        return None

    def tree(self, name):
        if name not in self.trees:
            p = self.path_of(name)
            if p is None:
                return None
            with open(p, encoding="utf-8") as fh:
                src = fh.read()
            self.trees[name] = (ast.parse(src, p), p)
            self.sources[name] = src
        return self.trees[name]


class Interp:
    MAXDEPTH = 60
    havoc = None        # frame mode: unknown values and library calls are arbitrary
    loading = 0
    mono = None         # purity mode (engine/purity.py): watches what the outcome can depend on

    def __init__(self, prog, path, contracts, externals, builtins, templates=()):
        self.prog, self.path, self.contracts, self.externals = prog, path, contracts, externals
        self.builtins = builtins
        self.heap_n = 0
        self.objs = {}
        self.modules = {}
        self.mod_frames = {}
        self.mod_index = {}
        self.loops = []
        self.comps = []                     # comprehensions being evaluated
        self.depth = 0
        self.frames = []
        self.templates = list(templates)
        self.verifying = None
        self.used = path.ex.used
        self.ghost = {}
        self.where = ""
        self.ETS = make_ets(self)

    # ------------------------------------------------------------ terms
    def term(self, v, kind=None):
        if isinstance(v, str) and kind in (None, "str"):
            return self.path.lit(v)
        if isinstance(v, bytes) and kind in (None, "bytes"):
            return self.path.lit(v.decode("latin-1"))
        if isinstance(v, float) or (kind == "flt" and isinstance(v, (int, float)) and not isinstance(v, bool)):
            if v in (float("inf"), -float("inf")) or v != v:
                raise Unsupported("infinite float in arithmetic")
            return z3.RealVal(str(Fraction(v)))
        if isinstance(v, Maybe):
            raise Unsupported("undecided value")
        if kind == "obj":
            return self.box(v)
        return to_z3(v, kind)

    def box(self, v):
        """any value as an opaque object"""
        if isinstance(v, S) and v.kind == "obj":
            return v.t
        if isinstance(v, S) and v.kind == "str" or isinstance(v, str):
            return smt.box_str(self.term(v, "str"))
        raise Unsupported("cannot treat %r as an opaque object" % (v,))

    def fresh(self, kind, hint="v"):
        t = self.path.fresh(hint, SORTS[kind])
        return S(kind, t)

    def fresh_seq(self, et, hint="s"):
        return Seq(et, self.path.fresh(hint, et.th.sort))

    # ------------------------------------------------------------ heap
    def setf(self, obj, key, val):
        if obj.frozen:
            raise Unsupported("mutation of a value stored in a symbolic sequence")
        if self.mono is not None:
            self.mono.wrote(self, obj, key)
        self.note_write(obj, key)
        obj.f[key] = val

    def note_write(self, obj, key):
        cell = (obj.id, key)
        for lp in self.loops:
            if obj.birth <= lp.start and cell not in lp.info.kinds and cell not in lp.new:
                lp.new.append(cell)

    def getf(self, obj, key):
        if self.mono is not None:
            self.mono.read(self, obj, key)
        v = obj.f.get(key, UNSET)
        if isinstance(v, Maybe):
            v = v.options[self.path.choose(len(v.options))](self)
            obj.f[key] = v
        return v

    # ------------------------------------------------------------ exceptions
    def exc(self, name, *args):
        cls = self.builtins[name] if name in self.builtins else self.resolve(name)
        return PyExc(Obj(self, cls, {"args": tuple(args)}))

    def resolve(self, dotted):
        """repository object by dotted name"""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            m = ".".join(parts[:i])
            if m in self.externals and i == len(parts):
                return self.ext(m)
            if self.prog.tree(m):
                v = self.module(m)
                for a in parts[i:]:
                    v = self.getattr(v, a)
                return v
        raise Unsupported("cannot resolve " + dotted)

    def ext(self, dotted):
        e = self.externals.get(dotted)
        if e is None:
            return ExtVal(dotted)
        self.used.add(dotted)
        if isinstance(e, (ClassVal, str, int, float)) or e is None:
            return e
        if callable(e):
            return BuiltinFn(dotted, e)
        return e

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        t = self.prog.tree(name)
        if t is None:
            return None
        m = ModuleVal(name, t[0], t[1])
        self.modules[name] = m
        fr = Frame(self, name, m)
        fr.static = True
        self.mod_frames[name] = fr
        idx = {}

        def scan(body, cond=False):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    idx.setdefault(st.name, []).append(st)
                elif isinstance(st, ast.Assign):
                    for tg in st.targets:
                        for n in ast.walk(tg):
                            if isinstance(n, ast.Name):
                                idx.setdefault(n.id, []).append(st)
                elif isinstance(st, ast.AnnAssign):
                    if isinstance(st.target, ast.Name) and st.value is not None:
                        idx.setdefault(st.target.id, []).append(st)
                elif isinstance(st, (ast.Import, ast.ImportFrom)):
                    for a in st.names:
                        idx.setdefault((a.asname or a.name).split(".")[0] if isinstance(st, ast.Import) else (a.asname or a.name), []).append(st)
                elif isinstance(st, ast.If):
                    if isinstance(st.test, ast.Name) and st.test.id == "TYPE_CHECKING":
                        scan(st.orelse)
                    else:
                        scan(st.body)
                        scan(st.orelse)
                elif isinstance(st, ast.Try):
                    scan(st.body)
        scan(m.tree.body)
        self.mod_index[name] = idx
        return m

    def mod_get(self, m, name):
        fr = self.mod_frames[m.name]
        if name in fr.f:
            return self.getf(fr, name)
        idx = self.mod_index[m.name]
        if name in idx:
            st = idx[name][-1]
            h = self.ghost.get("module_value")
            if h is not None and isinstance(st, (ast.Assign, ast.AnnAssign)):
                v = h(self, m, name)
                if v is not UNSET:
                    return v
            loops, self.loops = self.loops, []
            frames, self.frames = self.frames, [fr]
            self.loading += 1
            try:
                if isinstance(st, (ast.Import, ast.ImportFrom)):
                    self.do_import(st, fr, only=name)
                else:
                    self.exec_stmt(st, fr)
            finally:
                self.loops, self.frames = loops, frames
                self.loading -= 1
            if name in fr.f:
                return fr.f[name]
        if self.prog.path_of(m.name + "." + name):
            return self.module(m.name + "." + name)
        d = m.name + "." + name
        if d in self.externals:
            return self.ext(d)
        if name == "__name__":
            return m.name
        return UNSET

    def do_import(self, st, fr, only=None):
        if isinstance(st, ast.Import):
            for a in st.names:
                bound = a.asname or a.name.split(".")[0]
                if only and bound != only:
                    continue
                target = a.name if a.asname else a.name.split(".")[0]
                fr.f[bound] = self.module(target) or ExtVal(target)
            return
        base = st.module or ""
        if st.level:
            pkg = fr.module.name.split(".")
            isinit = fr.module.path.endswith("__init__.py")
            pkg = pkg[:len(pkg) - (st.level - (1 if isinit else 0))]
            base = ".".join(pkg + ([st.module] if st.module else []))
        for a in st.names:
            bound = a.asname or a.name
            if only and bound != only:
                continue
            d = base + "." + a.name
            m = self.module(base)
            v = UNSET
            if m is not None:
                v = self.mod_get(m, a.name)
            if v is UNSET:
                v = self.module(d) or self.ext(d)
            fr.f[bound] = v

    # ------------------------------------------------------------ names
    def lookup(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if not (f.is_class and not first):
                if name in f.f:
                    v = self.getf(f, name)
                    if v is UNSET:
                        raise self.exc("UnboundLocalError", name)
                    return v
                if first and f.localnames and name in f.localnames:
                    raise self.exc("UnboundLocalError", name)
            if name in f.globals_:
                break
            first = False
            f = f.parent
        v = self.mod_get(fr.module, name)
        if v is not UNSET:
            return v
        if name in self.builtins:
            b = self.builtins[name]
            return b
        if name in self.externals:
            return self.ext(name)
        if name in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[name]
        raise Unsupported("unknown name " + name)

    def store(self, name, v, fr):
        if name in fr.globals_:
            self.setf(self.mod_frames[fr.module.name], name, v)
            return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.f:
                    self.setf(f, name, v)
                    return
                f = f.parent
        self.setf(fr, name, v)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        """python bool or z3 Bool"""
        v = self.blur(v)
        if isinstance(v, S):
            if v.kind == "bool":
                return v.t
            if v.kind == "int":
                return v.t != 0
            if v.kind == "flt":
                return v.t != 0
            if v.kind in ("str", "bytes"):
                return STR.len(v.t) > 0
            if v.kind == "obj":
                return smt.obj_truth(v.t)
        if v is None or isinstance(v, (bool, int, float, str, tuple, bytes)):
            return bool(v)
        if isinstance(v, Seq):
            return v.et.th.len(v.t) > 0
        if isinstance(v, (ListObj, SetObj, DictObj)):
            x = self.getf(v, "v")
            if isinstance(x, list):
                return len(x) > 0
            if isinstance(x, Seq):
                return self.seq_len(x) > 0
            if isinstance(x, SymSet):
                e, w = self.path.fresh("nonempty", smt.B), self.path.fresh("elem", SORTS[x.kind])
                q = z3.Const("q!ne", SORTS[x.kind])
                self.path.assume(z3.Implies(e, z3.Select(x.mem, w)))
                self.path.assume(z3.Implies(z3.Not(e), z3.ForAll([q], z3.Not(z3.Select(x.mem, q)), patterns=[z3.Select(x.mem, q)])))
                return e
            raise Unsupported("truth of a symbolic set")
        if isinstance(v, Obj):
            cls = v.cls
            if isinstance(cls, ClassVal):
                m = cls.lookup("__bool__") or cls.lookup("__len__")
                if m is not None:
                    return self.truth(self.call(Bound(m, v), [], {}))
            tr = getattr(cls, "truth", None)
            if tr:
                return tr(self, v)
            return True
        if isinstance(v, (FuncVal, ClassVal, Bound, BuiltinFn, ModuleVal)) or isinstance(v, ExtVal) and "." not in v.name:
            return True
        raise Unsupported("truth value of %r" % (v,))

    def decide(self, v):
        t = self.truth(v)
        return self.path.decide(t)

    # ------------------------------------------------------------ sequences
    def seq_len(self, s):
        return s.et.th.len(s.t) if s.et is not None else 0

    def et_for(self, v):
        """element type that can hold v"""
        E = self.ETS
        if v is None:
            return E["nones"]
        if isinstance(v, (S, str, bool, int, float)):
            k = kind_of(v)
            return {"str": E["str"], "int": E["int"], "bool": E["bool"], "obj": E["obj"], "flt": E["optf"]}.get(k)
        if isinstance(v, tuple) and len(v) == 2 and kind_of(v[0]) == "str" and kind_of(v[1]) == "bool":
            return E["cell"]
        if isinstance(v, ListObj):
            x = self.getf(v, "v")
            e = x.et if isinstance(x, Seq) else (self.et_for(x[0]) if x else None)
            if e is None:
                return E["row"]
            return {"str": E["row"], "cell": E["crow"], "obj": E["orow"]}.get(e.name)
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and v.cls.name.endswith("SimpleDialect"):
            return E["dialect"]
        return None

    def et_of(self, items):
        """element type that can hold all the items"""
        et = self.et_for(items[0])
        if any(x is None for x in items) and any(x is not None for x in items):
            k = {kind_of(x) for x in items if x is not None}
            return {"flt": self.ETS["optf"], "str": self.ETS["opts"]}.get(k.pop()) if len(k) == 1 else None
        return et

    def as_seq(self, v, et=None):
        """list value / str -> Seq term"""
        if isinstance(v, Seq):
            return v
        if isinstance(v, ListObj):
            return self.as_seq(self.getf(v, "v"), et)
        if isinstance(v, (list, tuple)):
            if not v:
                if et is None:
                    return Seq(None, None)
                return Seq(et, et.th.empty)
            et = et or self.et_of(v)
            if et is None:
                raise Unsupported("list of %r" % (v[0],))
            t = et.th.unit(et.unwrap(v[0]))
            for x in v[1:]:
                t = et.th.cat(t, et.th.unit(et.unwrap(x)))
            return Seq(et, t)
        if isinstance(v, S) and v.kind in ("str", "bytes") or isinstance(v, str):
            return Seq(self.ETS["char"], self.term(v))
        raise Unsupported("not a sequence: %r" % (v,))

    def new_list(self, items):
        return ListObj(self, list(items))

    def seq_list(self, seq, frozen=False):
        o = ListObj(self, seq)
        o.frozen = frozen
        return o

    def freeze(self, v):
        if isinstance(v, Obj):
            v.frozen = True

    def blur(self, v):
        """a container whose contents became arbitrary"""
        if self.havoc and isinstance(v, (ListObj, DictObj, SetObj)) and is_any(self.getf(v, "v")):
            return v.f["v"]
        return v

    def list_append(self, lst, v):
        if self.blur(lst) is not lst:
            return
        x = self.getf(lst, "v")
        if isinstance(x, list):
            self.setf(lst, "v", x + [v])
            return
        et = x.et or self.et_for(v)
        if et is None:
            raise Unsupported("append of %r to a symbolic list" % (v,))
        if x.et is None:
            x = Seq(et, et.th.empty)
        if et.name == "nones" and v is not None:
            et = {"flt": self.ETS["optf"], "str": self.ETS["opts"]}.get(kind_of(v), et)
        e = et.unwrap(v)
        self.freeze(v)
        new = et.th.cat(x.t, et.th.unit(e))
        self.setf(lst, "v", Seq(et, new))

    def idx_source(self, v):
        """value -> Idx, or None when it is not indexable"""
        v = self.blur(v)
        if isinstance(v, Idx):
            return v
        if isinstance(v, (list, tuple)):
            return Idx(len(v), lambda it, k: v[k])
        if isinstance(v, ListObj):
            x = self.getf(v, "v")
            if isinstance(x, list):
                return Idx(len(x), lambda it, k: it.getf(v, "v")[k], base=v)
            if x.et is None:
                return Idx(0, None)
            return self.seq_idx(x)
        if isinstance(v, Seq):
            return self.seq_idx(v)
        if isinstance(v, str):
            return Idx(len(v), lambda it, k: v[k])
        if isinstance(v, S) and v.kind == "str":
            return self.seq_idx(Seq(self.ETS["char"], v.t))
        if isinstance(v, DictObj):
            x = v.f["v"]
            if isinstance(x, list):
                return Idx(len(x), lambda it, k: x[k][0])
        if isinstance(v, RangeV):
            if isinstance(v.lo, int) and isinstance(v.hi, int):
                r = range(v.lo, v.hi, v.step)
                return Idx(len(r), lambda it, k: r[k])
            if v.step == 1:
                lo, hi = self.term(v.lo, "int"), self.term(v.hi, "int")
                return Idx(z3.If(hi > lo, hi - lo, z3.IntVal(0)), lambda it, k: S("int", lo + k))
        if isinstance(v, EnumV):
            s = self.idx_source(v.src)
            if s:
                return Idx(s.n, lambda it, k: (k + v.start if isinstance(k, int) else S("int", k + it.term(v.start)), s.get(it, k)), base=s.base)
        if isinstance(v, ZipV) and not v.longest:
            ss = [self.idx_source(x) for x in v.srcs]
            if all(s is not None for s in ss):
                if not ss:
                    return Idx(0, None)
                n = ss[0].n
                for s in ss[1:]:
                    if isinstance(n, int) and isinstance(s.n, int):
                        n = min(n, s.n)
                    else:
                        a = z3.IntVal(n) if isinstance(n, int) else n
                        b = z3.IntVal(s.n) if isinstance(s.n, int) else s.n
                        n = z3.If(a <= b, a, b)
                return Idx(n, lambda it, k: tuple(s.get(it, k) for s in ss), base=ss)
        h = getattr(getattr(v, "cls", None), "idx", None)
        if h is not None:
            return h(self, v)
        if isinstance(v, Obj) and v.cls == "iterator":
            src, pos = v.f["src"], self.getf(v, "pos")
            s = self.idx_source(src)
            if s:
                p = pos if isinstance(pos, int) else self.term(pos)
                if isinstance(p, int) and isinstance(s.n, int):
                    return Idx(max(0, s.n - p), lambda it, k: s.get(it, p + k), base=v)
                n = s.n if not isinstance(s.n, int) else z3.IntVal(s.n)
                return Idx(z3.If(n > p, n - p, z3.IntVal(0)), lambda it, k: s.get(it, p + k), base=s.base if isinstance(p, int) and p == 0 else v)
        return None

    def seq_idx(self, s):
        return Idx(s.et.th.len(s.t), lambda it, k: s.et.wrap(it, s.et.th.at(s.t, k)), base=s)

    # ------------------------------------------------------------ iteration
    def iterate(self, v, body, key, allow_break=True):
        """run body(element) for every element of v; returns 'done' or 'break'"""
        v = self.blur(v)
        if isinstance(v, Maybe):
            raise Unsupported("iteration over an undecided value")
        if isinstance(v, GenExpV):
            return self.iter_genexp(v, body, key)
        if isinstance(v, GenCall):
            return self.iter_gencall(v, body)
        if isinstance(v, FilterV):
            return self.iterate(v.srcs[0], lambda e: body(e) if self.decide(e if v.fn is None else self.call(v.fn, [e], {})) else None, key)
        if isinstance(v, ChainV):
            def inner(e, k=key + ("chain",)):
                if self.iterate(e, body, k) == "break":
                    raise BreakEx()
            if v.nested:
                return self.iterate(v.srcs[0], inner, key)
            for i, s in enumerate(v.srcs):
                if self.iterate(s, body, key + ("chain", i)) == "break":
                    return "break"
            return "done"
        if isinstance(v, MapV):
            if len(v.srcs) == 1:
                return self.iterate(v.srcs[0], lambda e: body(self.call(v.fn, [e], {})), key)
            return self.iterate(ZipV(v.srcs), lambda e: body(self.call(v.fn, list(e), {})), key)
        if isinstance(v, ProductV):
            if len(v.srcs) == 1:
                return self.iterate(v.srcs[0], lambda e: body((e,)), key)

            def outer(e):
                rest = ProductV(v.srcs[1:])
                if self.iterate(rest, lambda r: body((e,) + r), key + ("p",)) == "break":
                    raise BreakEx()
            return self.iterate(v.srcs[0], outer, key)
        if isinstance(v, EnumV) and self.idx_source(v) is None:
            cell = Obj(self, "counter", {"n": v.start})

            def bd(e):
                n = self.getf(cell, "n")
                self.setf(cell, "n", n + 1 if isinstance(n, int) else S("int", n.t + 1))
                body((n, e))
            return self.iterate(v.src, bd, key)
        if isinstance(v, SetObj):
            return self.iter_set(v, body, key)
        src = self.idx_source(v)
        if src is not None:
            res = self.iter_idx(src, body, key)
            if isinstance(v, Obj) and v.cls == "iterator":
                self.setf(v, "pos", UNSET if res == "break" else self.len_of(v.f["src"]))
            return res
        if isinstance(v, Obj) and v.cls == "calliter":
            def nextone():
                e = self.call(v.f["fn"], [], {})
                if self.path.decide(self.eq(e, v.f["stop"])):
                    raise StopLoop()
                body(e)
            try:
                return self.while_loop(lambda: True, nextone, key)
            except StopLoop:
                return "done"
        if isinstance(v, Obj):
            itf = getattr(v.cls, "iterate", None)
            if itf:
                return itf(self, v, body, key)
            if isinstance(v.cls, ClassVal):
                m = v.cls.lookup("__iter__")
                if m is not None:
                    it = self.call(Bound(m, v), [], {})
                    if it is v or (isinstance(it, Obj) and isinstance(it.cls, ClassVal)):
                        nx = it.cls.lookup("__next__")
                        if nx is None:
                            raise self.exc("TypeError", "not an iterator")
                        return self.iter_next(it, nx, body, key)
                    return self.iterate(it, body, key)
                m = v.cls.lookup("__next__")
                if m is not None:
                    return self.iter_next(v, m, body, key)
        if v is None or isinstance(v, (int, float)) or isinstance(v, S) and v.kind in ("int", "bool", "flt"):
            raise self.exc("TypeError", "not iterable")
        raise Unsupported("iteration over %r" % (v.srcs if isinstance(v, ZipV) else v,))

    def iter_next(self, it, nx, body, key):
        def test():
            return True

        def bd():
            try:
                e = self.call(Bound(nx, it), [], {})
            except PyExc as x:
                if self.exc_is(x.value, self.builtins["StopIteration"]):
                    raise StopLoop()
                raise
            body(e)
        try:
            return self.while_loop(test, bd, key)
        except StopLoop:
            return "done"

    def run_body(self, body, e):
        try:
            body(e)
        except ContinueEx:
            pass

    def iter_genexp(self, v, body, key):
        node, fr = v.node, Frame(self, "genexp", v.frame.module, v.frame)

        def level(i, outer):
            g = node.generators[i]

            def bd(e):
                self.assign(g.target, e, fr)
                for c in g.ifs:
                    if not self.decide(self.eval(c, fr)):
                        return
                if i + 1 < len(node.generators):
                    if level(i + 1, False) == "break":
                        raise BreakEx()
                else:
                    if isinstance(node, ast.DictComp):
                        body((self.eval(node.key, fr), self.eval(node.value, fr)))
                    else:
                        body(self.eval(node.elt, fr))
            src = self.eval(g.iter, v.frame if i == 0 else fr)
            return self.iterate(src, bd, (id(node), i))
        self.comps.append(fr)
        try:
            return level(0, True)
        finally:
            self.comps.pop()

    def iter_gencall(self, v, body):
        def handler(e):
            try:
                self.run_body(body, e)
            except (PyExc, BreakEx, ReturnEx) as x:
                raise ConsumerEx(x)
        v.frame.yield_to = handler
        try:
            self.run_function_body(v.fn, v.frame)
        except ConsumerEx as c:
            if isinstance(c.inner, BreakEx):
                return "break"
            raise c.inner
        return "done"

    def iter_idx(self, src, body, key):
        n = src.n
        if isinstance(n, z3.ExprRef):
            n = z3.simplify(n)
            if z3.is_int_value(n):
                n = n.as_long()
        if isinstance(n, int):
            k = 0
            while k < n:
                try:
                    self.run_body(body, src.get(self, k))
                except BreakEx:
                    return "break"
                k += 1
                if isinstance(src.base, ListObj):       # the list may change while iterating
                    cur = self.getf(src.base, "v")
                    if not isinstance(cur, list):
                        raise Unsupported("list changed while iterating")
                    n = len(cur)
            return "done"
        st = self.loop_begin(key, n, src)
        idx = st.idx
        if self.path.choose(2) == 0:
            self.path.assume(z3.And(idx >= 0, idx < n))
            return self.loop_body(st, lambda: self.run_body(body, src.get(self, idx)))
        self.path.assume(idx == n)
        return "done"

    def while_loop(self, test, body, key):
        st = self.loop_begin(key, None, None)
        self.loops.append(ActiveLoop(st.start, st.info))
        try:
            go = self.path.decide(test())
        finally:
            lp = self.loops.pop()
        st.pending = lp.new
        if go:
            def bd():
                try:
                    body()
                except ContinueEx:
                    pass
            return self.loop_body(st, bd)
        if lp.new:
            self.loop_grow(st, lp.new)
        return "done"

    # loops cut by invariants
    def loop_begin(self, key, n, src, done=None):
        full = (key, tuple(f.label for f in self.frames[-6:]), len(self.frames), tuple(self.path.trace))
        infos = self.path.ex.infos
        info = infos.get(full)
        if info is None:
            info = infos[full] = LoopInfo(full)
        entry = {}
        for cell in info.frame:
            o = self.objs[cell[0]]
            entry[cell] = o.f.get(cell[1], UNSET)
        idx0 = z3.IntVal(0)
        st = LoopState(self, idx0, n, src, entry, info, done)
        st.prefix = list(self.path.trace)
        st.key = key
        if done is not None:
            done.start()
        cands = []
        for tpl in self.templates:
            for name, fn in tpl(self, st):
                if name not in info.removed:
                    cands.append((name, fn))
        cands = self.check_cands(cands, st, info)
        # all paths from this arrival are explored with one set of invariants
        sig = (frozenset(info.removed), frozenset((c, frozenset(k)) for c, k in info.kinds.items()))
        if self.path.replaying() and getattr(info, "sig", None) not in (None, sig):
            info.sig = None
            raise Restart(list(self.path.trace))
        info.sig = sig
        st.cands = cands
        # havoc; what it makes belongs to the iteration
        st.start = self.heap_n
        for cell in info.frame:
            o = self.objs[cell[0]]
            kinds = info.kinds[cell]
            self.note_write(o, cell[1])
            o.f[cell[1]] = self.make(kinds, entry[cell], cell)
        idx = self.path.fresh("k", smt.I)
        self.path.assume(idx >= 0)
        if n is not None:
            self.path.assume(idx <= n)
        st.idx = idx
        if done is not None:
            done.havoc()
        for name, fn in cands:
            f = fn(st)
            if f is not None:
                self.path.assume(f)
        st.pending = []
        return st

    def check_cands(self, cands, st, info):
        """candidates that hold now; the others are removed from the loop's candidate set"""
        fs = []
        for name, fn in cands:
            f = fn(st)
            if f is None or f is False:
                info.removed.add(name)
                st.removed_now = True
            elif f is True:
                fs.append((name, fn, None))
            else:
                fs.append((name, fn, f))
        terms = [f for _, _, f in fs if f is not None]
        if terms:
            ok, _, _ = self.path.prove(z3.And(*terms) if len(terms) > 1 else terms[0])
            if ok != "proved":
                keep = []
                good = []
                for name, fn, f in fs:
                    if f is None or self.path.prove(f, timeout=min(self.path.ex.timeout, 3000))[0] == "proved":
                        keep.append((name, fn, f))
                    else:
                        info.removed.add(name)
                        st.removed_now = True
                fs = keep
        return [(a, b) for a, b, _ in fs]

    def loop_grow(self, st, cells):
        for cell in cells:
            if cell not in st.info.kinds:
                st.info.frame.append(cell)
                st.info.kinds[cell] = set()
        n = len(st.prefix)
        later, gone = False, []
        for k, i in self.path.ex.infos.items():
            # what was found out about the loops inside (one in the test of a while loop starts on the same path)
            if k[3][:n] == tuple(st.prefix) and (len(k[3]) > n or later):
                gone.append(k)
            later = later or i is st.info
        for k in gone:
            del self.path.ex.infos[k]
        raise Restart(st.prefix)

    def loop_body(self, st, run):
        info = st.info
        lp = ActiveLoop(st.start, info)
        lp.new = list(st.pending)
        self.loops.append(lp)
        ok = False
        try:
            run()
            ok = True
        except BreakEx:
            self.leave(st, lp)
            return "break"
        except PathEnd:
            self.leave(st, lp, True)
            raise
        except Restart:
            self.leave(st, lp, True)
            raise
        except (PyExc, ReturnEx, ConsumerEx, StopLoop):
            self.leave(st, lp)
            raise
        finally:
            if ok:
                self.leave(st, lp)
        # back edge
        grew = False
        fresh = [o.f.get(c[1]) for c in info.frame for o in [self.objs[c[0]]]]
        fresh = [id(v) for v in fresh if isinstance(v, ListObj) and v.birth > st.start and not v.frozen]
        if len(fresh) != len(set(fresh)):
            raise Unsupported("one list under two names across iterations")
        for cell in info.frame:
            o = self.objs[cell[0]]
            ks = set(info.kinds[cell])
            for v in (o.f.get(cell[1], UNSET), st.entry[cell]):
                if isinstance(v, Maybe):
                    if not v.kinds <= ks:
                        ks |= v.kinds
                else:
                    ks.add(self.kind_at(v, st))
            ks = merge_kinds(ks)
            if getattr(self.con, "numbers_are_reals", False) and ("flt",) in ks:
                ks -= {("int",)}            # an int is kept as the float of its value
            if ks != info.kinds[cell]:
                info.kinds[cell] = ks
                grew = True
        if grew:
            self.loop_grow(st, [])
        after = LoopState(self, st.idx + 1, st.n, st.src, st.entry, info, st.done)
        after.prefix, after.key = st.prefix, st.key
        if st.done is not None:
            st.done.step()
        after.removed_now = False
        self.check_cands(st.cands, after, info)
        if after.removed_now:
            raise Restart(st.prefix)
        raise PathEnd()

    def leave(self, st, lp, quiet=False):
        if self.loops and self.loops[-1] is lp:
            self.loops.pop()
        else:
            while self.loops and self.loops.pop() is not lp:
                pass
        new = [c for c in lp.new if c not in st.info.kinds]
        if new:
            if quiet:
                for c in new:
                    pass
                return
            self.loop_grow(st, new)
        if not quiet and any(not st.info.kinds[c] for c in st.info.frame):
            # kinds not known yet: the frame cells were havocked blindly
            pass

    def kind_at(self, v, st):
        if v is UNSET:
            return ("unset",)
        if is_any(v):
            return ("any",)
        if isinstance(v, Maybe):
            return ("other",)
        if v is None:
            return ("none",)
        if isinstance(v, S):
            return (v.kind,)
        if isinstance(v, bool):
            return ("bool",)
        if isinstance(v, int):
            return ("int",)
        if isinstance(v, str):
            return ("str",)
        if isinstance(v, float):
            return ("flt",) if v == v and v not in (float("inf"), -float("inf")) else ("const", v)
        if isinstance(v, Seq):
            return ("seq", v.et.name if v.et else None)
        if isinstance(v, list):
            if not v:
                return ("seq", None)
            if isinstance(v[0], tuple) and len(v[0]) == 2 and not self.et_for(v[0]):
                return ("other",)
            e = self.et_of(v)
            return ("seq", e.name) if e else ("other",)
        if isinstance(v, SymSet):
            return ("symset", v.kind)
        if isinstance(v, tuple):
            return ("tuple",) + tuple(self.kind_at(x, st) for x in v)
        if isinstance(v, ListObj) and (v.birth > st.start or v.frozen):
            k = self.kind_at(v.f["v"], st)
            return ("newlist", k[1]) if k[0] == "seq" else ("other",)
        if isinstance(v, Obj):
            if v.birth <= st.start:
                return ("ref", v.id)
            if isinstance(v.cls, ClassVal) and v.cls.name.endswith("SimpleDialect"):
                return ("dialect",)
            return ("other",)
        return ("same", id(v), v)

    def make(self, kinds, entry, cell):
        """fresh value of the given kinds"""
        if not kinds:
            return entry        # first pass; nothing learnt from it is kept
        opts = [self.make1(k, cell) for k in sorted(kinds, key=repr)]
        if len(opts) == 1:
            v = opts[0](self)
            return v
        m = Maybe(opts)
        m.kinds = set(kinds)
        return m

    def make1(self, k, cell):
        hint = str(cell[1])
        if k[0] in SORTS:
            return lambda it: it.fresh(k[0], hint)
        if k[0] == "none":
            return lambda it: None
        if k[0] == "unset":
            return lambda it: UNSET
        if k[0] == "const":
            return lambda it: k[1]
        if k[0] == "seq":
            if k[1] is None:
                return lambda it: []
            return lambda it: it.fresh_seq(it.ETS[k[1]], hint)
        if k[0] == "newlist":
            if k[1] is None:
                return lambda it: ListObj(it, [])
            return lambda it: ListObj(it, it.fresh_seq(it.ETS[k[1]], hint))
        if k[0] == "symset":
            return lambda it: SymSet(k[1], it.path.fresh(hint, z3.ArraySort(SORTS[k[1]], smt.B)))
        if k[0] == "tuple":
            parts = [self.make1(x, cell) for x in k[1:]]
            return lambda it: tuple(p(it) for p in parts)
        if k[0] == "ref":
            return lambda it: it.objs[k[1]]
        if k[0] == "dialect":
            return lambda it: it.ETS["dialect"].wrap(it, it.path.fresh(hint, DIALECT))
        if k[0] == "same":
            return lambda it: k[2]
        if k[0] == "any" or self.havoc:
            return lambda it: Obj(it, self.any_model, {})
        return lambda it: Poison()

    # sets
    def iter_set(self, v, body, key):
        x = self.getf(v, "v")
        if self.mono is not None and not (isinstance(x, list) and len(x) <= 1):
            self.mono.order(self)
        if isinstance(x, list):
            items = list(x)
            if len(items) > 4:
                raise Unsupported("iteration over a set of %d elements" % len(items))
            while items:
                k = self.path.choose(len(items))     # any order
                e = items.pop(k)
                try:
                    self.run_body(body, e)
                except BreakEx:
                    return "break"
            return "done"
        done = DoneSet(self, x)
        st = self.loop_begin(key, None, None, done)
        e = z3.Const("e!set%d" % self.heap_n, SORTS[x.kind])
        if self.path.choose(2) == 0:
            el = self.path.fresh("el", SORTS[x.kind])
            self.path.assume(z3.And(z3.Select(x.mem, el), z3.Not(z3.Select(done.mem, el))))
            done.cur = el
            return self.loop_body(st, lambda: self.run_body(body, S(x.kind, el)))
        q = z3.Const("q!set", SORTS[x.kind])
        self.path.assume(z3.ForAll([q], z3.Select(x.mem, q) == z3.Select(done.mem, q),
                                   patterns=[z3.Select(x.mem, q), z3.Select(done.mem, q)]))
        return "done"

    def collect(self, v, key):
        """all elements of v as a list value"""
        src = None if isinstance(v, (GenExpV, GenCall, MapV)) else self.idx_source(v)
        if isinstance(v, ListObj):
            x = self.getf(v, "v")
            return ListObj(self, list(x) if isinstance(x, list) else x)
        if isinstance(v, (tuple, list)):
            return ListObj(self, list(v))
        if isinstance(v, Seq):
            return ListObj(self, v)
        if isinstance(v, SetObj) and self.ghost.get("collect_set"):
            r = self.ghost["collect_set"](self, v)
            if r is not None:
                return r
        whole = getattr(getattr(v, "cls", None), "collect", None)
        if whole:
            return whole(self, v)
        if isinstance(v, ProductV) and any(isinstance(s, SetObj) and isinstance(self.getf(s, "v"), SymSet) for s in v.srcs) \
                and all(isinstance(s, (SetObj, tuple)) for s in v.srcs):
            # the pairs of elements of symbolic sets: enough to run over them again, in any order
            return ProductV([SetObj(self, self.getf(s, "v")) if isinstance(s, SetObj) else s for s in v.srcs])
        out = ListObj(self, [])
        self.iterate(v, lambda e: self.list_append(out, e), key)
        return out

    def len_of(self, v):
        v = self.blur(v)
        if isinstance(v, (str, tuple)):
            return len(v)
        if isinstance(v, S) and v.kind in ("str", "bytes"):
            return S("int", STR.len(v.t))
        if isinstance(v, ListObj):
            x = self.getf(v, "v")
            if isinstance(x, list):
                return len(x)
            if x.et is None:
                return 0
            return S("int", self.seq_len(x))
        if isinstance(v, (DictObj, SetObj)):
            x = self.getf(v, "v")
            if isinstance(x, list):
                return len(x)
            h = self.ghost.get(("card", id(x)))
            if h is not None:
                return S("int", h() if callable(h) else h)
            raise Unsupported("size of a symbolic collection")
        if isinstance(v, Seq):
            return S("int", self.seq_len(v))
        if isinstance(v, RangeV):
            s = self.idx_source(v)
            return s.n if isinstance(s.n, int) else S("int", s.n)
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
            m = v.cls.lookup("__len__")
            if m is not None:
                return self.call(Bound(m, v), [], {})
        ln = getattr(getattr(v, "cls", None), "length", None)
        if ln:
            return ln(self, v)
        if v is None or isinstance(v, (int, float)):
            raise self.exc("TypeError", "no len()")
        raise Unsupported("len of %r" % (v,))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        self.depth += 1
        if self.depth > self.MAXDEPTH:
            self.depth = 0
            raise Unsupported("call depth")
        try:
            return self.call1(f, list(args), dict(kw))
        finally:
            self.depth -= 1

    def call1(self, f, args, kw):
        if isinstance(f, Bound):
            if isinstance(f.fn, ClassM):
                return self.call1(f.fn.fn, [f.self] + args, kw)
            return self.call1(f.fn, [f.self] + args, kw)
        if isinstance(f, StaticM):
            return self.call1(f.fn, args, kw)
        if isinstance(f, BuiltinFn):
            if self.havoc:
                r = self.havoc(self, f, args, kw)
                if r is not UNSET:
                    return r
            return f.fn(self, args, kw)
        if isinstance(f, FuncVal):
            if f.wrapper:
                return f.wrapper(self, f, args, kw)
            return self.call_func(f, args, kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, Obj):
            c = getattr(f.cls, "call", None)
            if c:
                return c(self, f, args, kw)
            if isinstance(f.cls, ClassVal):
                m = f.cls.lookup("__call__")
                if m is not None:
                    return self.call1(m, [f] + args, kw)
        if isinstance(f, ExtVal):
            if self.havoc:
                return self.havoc(self, f, args, kw)
            if self.mono is not None:
                self.mono.outside(self, f.name)
            raise Unsupported("no contract for external " + f.name)
        if f is None or isinstance(f, (str, int, float, tuple)):
            raise self.exc("TypeError", "not callable")
        raise Unsupported("call of %r" % (f,))

    def call_func(self, f, args, kw):
        key = f.module.name + "." + f.qualname
        con = self.contracts.get(key)
        if con is not None and self.verifying != key:
            self.used.add("contract:" + key)
            return con.apply(self, f, self.bind(f, args, kw, asdict=True))
        self.path.ex.inlined.add(key)
        fr = self.bind(f, args, kw)
        if is_generator(f.node):
            return GenCall(f, fr)
        return self.run_function_body(f, fr)

    def run_function_body(self, f, fr):
        self.frames.append(fr)
        if sum(1 for g in self.frames if g.label == fr.label) > 3:
            self.frames.pop()
            raise Unsupported("recursion in " + f.qualname)
        try:
            self.exec_block(f.node.body, fr)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            if self.frames and self.frames[-1] is fr:
                self.frames.pop()

    def bind(self, f, args, kw, asdict=False):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        rest = []
        for i, v in enumerate(args):
            if i < len(names):
                vals[names[i]] = v
            elif a.vararg:
                rest.append(v)
            else:
                raise self.exc("TypeError", "too many arguments for " + f.qualname)
        extra = []
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in vals:
                    raise self.exc("TypeError", "multiple values for " + k)
                vals[k] = v
            elif a.kwarg:
                extra.append((k, v))
            else:
                raise self.exc("TypeError", "unexpected keyword " + k)
        for n, d in f.defaults.items():
            vals.setdefault(n, d)
        for n, d in f.kwdefaults.items():
            vals.setdefault(n, d)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                raise self.exc("TypeError", "missing argument " + n)
        if a.vararg:
            vals[a.vararg.arg] = tuple(rest)
        if a.kwarg:
            vals[a.kwarg.arg] = DictObj(self, extra)
        if asdict:
            return vals
        fr = Frame(self, f.qualname, f.module, f.closure)
        loc, nl, gl = stmts_assign_names(f.node) if isinstance(f.node, ast.FunctionDef) else (set(), set(), set())
        fr.localnames, fr.nonlocals, fr.globals_ = loc, nl, gl
        for k, v in vals.items():
            fr.f[k] = v
        fr.func = f
        fr.first = args[0] if args else None
        return fr

    def instantiate(self, cls, args, kw):
        key = "class:" + ((cls.module.name + ".") if cls.module else "") + cls.name
        con = self.contracts.get(key)
        if con is not None and self.verifying != key:
            self.used.add("contract:" + key)
            return con.construct(self, cls, args, kw)
        if cls.py is not None:
            return self.builtin_new(cls, args, kw)
        new = cls.lookup("__init__")
        base = next((c for c in cls.mro() if c.py is not None and c.py is not object), None)
        if base is not None and issubclass(base.py, BaseException):
            return Obj(self, cls, {"args": tuple(args)})
        if any(getattr(c, "enum", False) for c in cls.mro()):
            return self.enum_call(cls, args)
        for c in cls.mro():
            if c.model:
                return c.model(self, cls, args, kw)
        o = Obj(self, cls)
        if new is not None:
            self.call1(new, [o] + args, kw)
        elif "dataclass" in cls.decorators:
            names = cls.fields
            for n, v in zip(names, args):
                o.f[n] = v
            for k, v in kw.items():
                o.f[k] = v
        elif args or kw:
            raise self.exc("TypeError", "takes no arguments")
        return o

    def enum_call(self, cls, args):
        v = args[0]
        if isinstance(v, Obj) and v.cls is cls:
            return v
        for n, m in cls.enum_members.items():
            eq = self.eq(m.f["value"], v)
            if self.path.decide(eq):
                return m
        raise self.exc("ValueError", "not a member")

    def builtin_new(self, cls, args, kw):
        fn = self.builtins.get("new:" + cls.name)
        if fn:
            return fn(self, args, kw)
        if isinstance(cls.py, type) and issubclass(cls.py, BaseException):
            return Obj(self, cls, {"args": tuple(args)})
        raise Unsupported("construct " + cls.name)

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name, default=UNSET):
        r = self.getattr1(v, name)
        if r is UNSET:
            if default is not UNSET:
                return default
            raise self.exc("AttributeError", name)
        return r

    def getattr1(self, v, name):
        v = self.blur(v)
        if isinstance(v, ModuleVal):
            r = self.mod_get(v, name)
            return r
        if isinstance(v, ExtVal):
            return self.ext(v.name + "." + name)
        if isinstance(v, SuperV):
            mro = v.obj.cls.mro()
            for c in mro[mro.index(v.cls) + 1:]:
                if name in c.ns:
                    return Bound(c.ns[name], v.obj)
                if c.py is not None and name == "__init__":
                    return BuiltinFn("init", lambda it, a, k: None)
            if name == "__init__":
                return BuiltinFn("init", lambda it, a, k: None)
            return UNSET
        if isinstance(v, ClassVal):
            if name == "__name__":
                return v.name.split(".")[-1]
            r = v.lookup(name)
            if r is None and not any(name in c.ns for c in v.mro()):
                m = self.builtins.get("classattr:" + v.name + "." + name)
                if m:
                    return m
                return UNSET
            if isinstance(r, StaticM):
                return r.fn
            if isinstance(r, ClassM):
                return Bound(r.fn, v)
            return r
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
            if name == "__class__":
                return v.cls
            found = any(name in c.ns for c in v.cls.mro())
            r = v.cls.lookup(name) if found else None
            if isinstance(r, Prop):
                return self.call(r.get, [v], {})
            if name in v.f:
                return self.getf(v, name)
            if found:
                if isinstance(r, FuncVal):
                    return Bound(r, v)
                if isinstance(r, StaticM):
                    return r.fn
                if isinstance(r, ClassM):
                    return Bound(r.fn, v.cls)
                if isinstance(r, BuiltinFn):
                    return Bound(r, v)
                return r
            for c in v.cls.mro():
                if c.py is not None and c.py is not object and issubclass(c.py, BaseException) and name == "args":
                    return v.f.get("args", ())
            g = v.cls.lookup("__getattr__")
            if g is not None:
                return self.call(g, [v, name], {})
            if self.mono is not None:
                self.mono.read(self, v, name)
            if getattr(v, "lazy", None):
                v.f[name] = v.lazy(self, name)
                return v.f[name]
            if any(getattr(c, "outside", False) for c in v.cls.mro()):
                raise Unsupported("attribute %s of a class of another package" % name)
            return UNSET
        if isinstance(v, Obj) and not isinstance(v.cls, str):
            m = v.cls.get(self, v, name)
            return m
        if isinstance(v, FuncVal):
            if name == "__name__":
                return v.node.name
            h = getattr(v, "attrs", {}).get(name)
            if h is not None:
                return h
        if self.mono is not None:
            self.mono.mutates(self, v, name)
        m = self.builtins.get("method:" + type_name(v) + "." + name)
        if m is not None:
            return Bound(BuiltinFn(name, m), v)
        if isinstance(v, (S, Seq)) or type_name(v) in ("list", "dict", "set", "str", "tuple"):
            if type_name(v) not in PYTYPES or hasattr(PYTYPES[type_name(v)], name):
                raise Unsupported("method %s of %s" % (name, type_name(v)))
            if isinstance(v, S) and v.kind == "obj":
                raise Unsupported("attribute %s of an opaque object" % name)
            return UNSET
        if v is None or isinstance(v, (int, float)):
            if hasattr(v, name):
                raise Unsupported("attribute %s of %s" % (name, type(v).__name__))
            return UNSET
        if isinstance(v, (Poison, Maybe)):
            raise Unsupported("value lost at a loop")
        if isinstance(v, BuiltinFn) and v.name + "." + name in self.externals:
            return self.ext(v.name + "." + name)
        raise Unsupported("attribute %s of %r" % (name, v))

    def setattr(self, v, name, val):
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
            r = v.cls.lookup(name)
            if isinstance(r, Prop):
                if r.set is None:
                    raise self.exc("AttributeError", name)
                self.call(r.set, [v, val], {})
                return
            self.setf(v, name, val)
            return
        if isinstance(v, Obj) and not isinstance(v.cls, str):
            v.cls.set(self, v, name, val)
            return
        if isinstance(v, ClassVal):
            if self.mono is not None:
                self.mono.wrote_class(self, v, name)
            v.ns[name] = val
            return
        if isinstance(v, ModuleVal):
            self.setf(self.mod_frames[v.name], name, val)
            return
        raise Unsupported("set attribute %s of %r" % (name, v))

    # ------------------------------------------------------------ equality
    def eq(self, a, b):
        """python bool or z3 Bool"""
        if isinstance(a, (Maybe, Poison)) or isinstance(b, (Maybe, Poison)):
            raise Unsupported("undecided value")
        if a is b and not (isinstance(a, float) and a != a):
            return True
        if is_any(a) or is_any(b):
            return self.path.fresh("anyeq", smt.B)
        ka, kb = kind_of(a), kind_of(b)
        if ka and kb:
            num = ("int", "bool", "flt")
            if not isinstance(a, S) and not isinstance(b, S):
                return a == b
            if ka in num and kb in num:
                for x in (a, b):
                    if isinstance(x, float) and (x != x or x in (float("inf"), -float("inf"))):
                        return False
                k = "flt" if "flt" in (ka, kb) else ("bool" if ka == kb == "bool" else "int")
                return self.term(a, k) == self.term(b, k)
            if ka == kb and ka in ("str", "bytes"):
                ta, tb = self.term(a), self.term(b)
                if not ta.eq(tb):
                    self.path.assume(STR.ext(ta, tb))
                return ta == tb
            if ka == kb == "obj":
                return a.t == b.t
            if "obj" in (ka, kb):
                raise Unsupported("comparison of an opaque object with %r" % (b if ka == "obj" else a,))
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, ListObj) and isinstance(b, ListObj):
            x, y = self.getf(a, "v"), self.getf(b, "v")
            if isinstance(x, list) and isinstance(y, list):
                if len(x) != len(y):
                    return False
                return self.conj([self.eq(p, q) for p, q in zip(x, y)])
            sx, sy = self.as_seq(x, y.et if isinstance(y, Seq) else None), self.as_seq(y, x.et if isinstance(x, Seq) else None)
            if sx.et is None or sy.et is None:
                o = sx if sy.et is None else sy
                return True if o.et is None else o.et.th.len(o.t) == 0
            if sx.et is not sy.et:
                raise Unsupported("comparison of lists of different kinds")
            self.path.assume(sx.et.th.ext(sx.t, sy.t))
            return sx.t == sy.t
        if isinstance(a, SetObj) and isinstance(b, SetObj):
            x, y = self.getf(a, "v"), self.getf(b, "v")
            if isinstance(x, list) and isinstance(y, list):
                return self.conj([self.member(i, y) for i in x] + [self.member(i, x) for i in y])
            raise Unsupported("equality of symbolic sets")
        if isinstance(a, DictObj) and isinstance(b, DictObj):
            raise Unsupported("equality of dicts")
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj) and isinstance(x.cls, ClassVal):
                m = x.cls.lookup("__eq__")
                if isinstance(m, FuncVal):
                    r = self.call(Bound(m, x), [y], {})
                    return self.truth(r)
        if isinstance(a, Obj) and isinstance(a.cls, ClassVal) and "dataclass" in a.cls.decorators:
            if isinstance(b, Obj) and b.cls is a.cls:
                return self.conj([self.eq(self.getf(a, n), self.getf(b, n)) for n in a.cls.fields])
            return False
        if getattr(a, "enum_value", None) is not None and kb == "str":
            return self.eq(a.f["value"], b)
        if getattr(b, "enum_value", None) is not None and ka == "str":
            return self.eq(b.f["value"], a)
        if isinstance(a, S) and a.kind == "obj" or isinstance(b, S) and b.kind == "obj":
            o, x = (a, b) if isinstance(a, S) and a.kind == "obj" else (b, a)
            if x is None:
                return smt.obj_is_none(o.t)
            raise Unsupported("comparison of an opaque object")
        return False

    def conj(self, fs):
        out = []
        for f in fs:
            if f is False:
                return False
            if f is not True:
                out.append(f)
        if not out:
            return True
        return z3.And(*out) if len(out) > 1 else out[0]

    def disj(self, fs):
        out = []
        for f in fs:
            if f is True:
                return True
            if f is not False:
                out.append(f)
        if not out:
            return False
        return z3.Or(*out) if len(out) > 1 else out[0]

    def neg(self, f):
        return (not f) if isinstance(f, bool) else z3.Not(f)

    def member(self, x, items):
        return self.disj([self.eq(x, y) for y in items])

    def wrap_bool(self, f):
        return f if isinstance(f, bool) else S("bool", f)

    def exc_is(self, value, cls):
        if isinstance(cls, tuple):
            return any(self.exc_is(value, c) for c in cls)
        if isinstance(value, Obj) and value.cls == "anyexc":
            # an exception of unknown class
            if isinstance(cls, ClassVal) and cls.py is BaseException:
                return True
            never = value.f.setdefault("never", [])
            if any(cls is c or cls.issub(c) for c in never):
                return False
            if self.path.choose(2) == 0:
                nv = [c for c in value.f.get("never", [])]
                value.f["never"] = nv + [cls]
                return False
            value.cls = cls
            value.f.setdefault("args", ())
            return True
        if not isinstance(cls, ClassVal):
            raise Unsupported("except %r" % (cls,))
        return value.cls.issub(cls)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for st in stmts:
            self.exec_stmt(st, fr)

    def exec_stmt(self, st, fr):
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(st).__name__)
        self.where = "%s:%d" % (fr.module.name, st.lineno)
        m(st, fr)

    def x_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, fr)

    def x_Pass(self, st, fr):
        pass

    def x_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, st, fr):
        if fr.is_class and isinstance(st.target, ast.Name):
            fr.f.setdefault("__fields__", []).append(st.target.id)
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def x_AugAssign(self, st, fr):
        if isinstance(st.target, ast.Name):
            cur = self.lookup(st.target.id, fr)
        else:
            cur = self.eval(ast.copy_location(load(st.target), st.target), fr)
        v = self.eval(st.value, fr)
        if isinstance(cur, ListObj) and isinstance(st.op, ast.Add):
            self.list_extend(cur, v, (id(st), "aug"))
            return
        self.assign(st.target, self.binop(st.op, cur, v), fr)

    def list_extend(self, lst, v, key):
        x, y = self.getf(lst, "v"), None
        if isinstance(v, ListObj):
            y = self.getf(v, "v")
        elif isinstance(v, tuple):
            y = list(v)
        elif isinstance(v, Seq):
            y = v
        if y is None:
            self.iterate(v, lambda e: self.list_append(lst, e), key)
            return
        self.setf(lst, "v", self.seq_cat(x, y))

    def seq_cat(self, x, y):
        if isinstance(x, list) and isinstance(y, list):
            return x + y
        a = self.as_seq(x, y.et if isinstance(y, Seq) else None)
        b = self.as_seq(y, a.et)
        if a.et is None:
            return b
        if b.et is None:
            return a
        if a.et is not b.et:
            raise Unsupported("concatenation of different kinds of list")
        return Seq(a.et, a.et.th.cat(a.t, b.t))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            self.setitem(o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred assignment")
            for e, x in zip(t.elts, self.unpack(v, len(t.elts))):
                self.assign(e, x, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        src = self.idx_source(v)
        if src is None:
            lst = self.collect(v, ("unpack", id(v)))
            src = self.idx_source(lst)
        if isinstance(src.n, int):
            if src.n != n:
                raise self.exc("ValueError", "unpack")
        elif not self.path.decide(src.n == n):
            raise self.exc("ValueError", "unpack")
        return [src.get(self, k) for k in range(n)]

    def setitem(self, o, k, v):
        o = self.blur(o)
        if isinstance(o, DictObj):
            items = self.getf(o, "v")
            if isinstance(items, list):
                for i, (kk, vv) in enumerate(items):
                    if self.path.decide(self.eq(kk, k)):
                        self.setf(o, "v", items[:i] + [(kk, v)] + items[i + 1:])
                        return
                self.setf(o, "v", items + [(k, v)])
                return
        si = getattr(getattr(o, "cls", None), "setitem", None)
        if si:
            return si(self, o, k, v)
        if isinstance(o, ListObj):
            x = self.getf(o, "v")
            if isinstance(x, list) and isinstance(k, int):
                if not -len(x) <= k < len(x):
                    raise self.exc("IndexError")
                k %= len(x)
                self.setf(o, "v", x[:k] + [v] + x[k + 1:])
                return
            if isinstance(x, Seq) and kind_of(k) == "int":
                kt = self.term(k)
                n = self.seq_len(x)
                if not self.path.decide(z3.And(kt >= 0, kt < n)):
                    raise Unsupported("negative or out-of-range store")
                self.setf(o, "v", Seq(x.et, x.et.th.upd(x.t, kt, x.et.unwrap(v))))
                return
        raise Unsupported("item assignment on %r" % (o,))

    def x_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.store(t.id, UNSET, fr)
            elif isinstance(t, ast.Subscript):
                o, k = self.eval(t.value, fr), self.eval(t.slice, fr)
                if isinstance(o, DictObj) and isinstance(o.f["v"], list):
                    items = self.getf(o, "v")
                    for i, (kk, vv) in enumerate(items):
                        if self.path.decide(self.eq(kk, k)):
                            self.setf(o, "v", items[:i] + items[i + 1:])
                            break
                    else:
                        raise self.exc("KeyError")
                else:
                    raise Unsupported("del of an item")
            else:
                raise Unsupported("del")

    def x_Return(self, st, fr):
        raise ReturnEx(self.eval(st.value, fr) if st.value else None)

    def x_If(self, st, fr):
        if self.decide(self.eval(st.test, fr)):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def x_For(self, st, fr):
        src = self.eval(st.iter, fr)

        def body(e):
            self.assign(st.target, e, fr)
            self.exec_block(st.body, fr)
        r = self.iterate(src, body, (id(st),))
        if r == "done":
            self.exec_block(st.orelse, fr)

    def x_While(self, st, fr):
        r = self.while_loop(lambda: self.truth(self.eval(st.test, fr)), lambda: self.exec_block(st.body, fr), (id(st),))
        if r == "done":
            self.exec_block(st.orelse, fr)

    def x_Break(self, st, fr):
        raise BreakEx()

    def x_Continue(self, st, fr):
        raise ContinueEx()

    def x_Raise(self, st, fr):
        if st.exc is None:
            if not self.handling:
                raise self.exc("RuntimeError")
            raise PyExc(self.handling[-1])
        v = self.eval(st.exc, fr)
        if isinstance(v, ClassVal):
            v = self.instantiate(v, [], {})
        if not isinstance(v, Obj):
            raise Unsupported("raise %r" % (v,))
        raise PyExc(v)

    handling = ()

    def x_Assert(self, st, fr):
        if not self.decide(self.eval(st.test, fr)):
            raise self.exc("AssertionError")

    def x_Try(self, st, fr):
        depth, frames, loops = self.depth, list(self.frames), list(self.loops)
        try:
            try:
                self.exec_block(st.body, fr)
            except PyExc as x:
                self.depth, self.frames = depth, frames
                for h in st.handlers:
                    if h.type is None or self.exc_is(x.value, self.eval(h.type, fr)):
                        if h.name:
                            self.store(h.name, x.value, fr)
                        old = self.handling
                        self.handling = tuple(old) + (x.value,)
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self.handling = old
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, fr)
        except (PathEnd, Restart, Unsupported):
            raise
        except (PyExc, ReturnEx, BreakEx, ContinueEx, ConsumerEx, StopLoop):
            if st.finalbody:
                self.exec_block(st.finalbody, fr)
            raise
        else:
            self.exec_block(st.finalbody, fr)

    def x_With(self, st, fr):
        def go(items):
            if not items:
                self.exec_block(st.body, fr)
                return
            mgr = self.eval(items[0].context_expr, fr)
            if isinstance(mgr, Obj) and mgr.cls == "genmgr":
                return self.with_generator(mgr.f["gen"], items[0], lambda: go(items[1:]), fr)
            v = self.call(self.getattr(mgr, "__enter__"), [], {})
            if items[0].optional_vars is not None:
                self.assign(items[0].optional_vars, v, fr)
            ex = self.getattr(mgr, "__exit__")
            try:
                go(items[1:])
            except (PathEnd, Restart, Unsupported):
                raise
            except PyExc as x:
                r = self.call(ex, [x.value.cls if isinstance(x.value.cls, ClassVal) else None, x.value, None], {})
                if r is None or not self.decide(r):
                    raise
                return
            except (ReturnEx, BreakEx, ContinueEx, ConsumerEx, StopLoop):
                self.call(ex, [None, None, None], {})
                raise
            self.call(ex, [None, None, None], {})
        go(st.items)

    def with_generator(self, gen, item, inner, fr):
        """with over a contextlib.contextmanager function"""
        state = {"n": 0, "left": None}

        def handler(v):
            state["n"] += 1
            if state["n"] > 1:
                raise self.exc("RuntimeError", "generator didn't stop")
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
            saved = list(self.frames)
            if self.frames and self.frames[-1] is gen.frame:
                self.frames = self.frames[:-1]
            try:
                inner()
            except (ReturnEx, BreakEx, ContinueEx, ConsumerEx, StopLoop) as x:
                state["left"] = x
            finally:
                self.frames = saved
        gen.frame.yield_to = handler
        self.run_function_body(gen.fn, gen.frame)
        if state["n"] == 0:
            raise self.exc("RuntimeError", "generator didn't yield")
        if state["left"] is not None:
            raise state["left"]

    def x_Global(self, st, fr):
        pass

    x_Nonlocal = x_Global

    def x_Import(self, st, fr):
        self.do_import(st, fr)

    x_ImportFrom = x_Import

    def x_FunctionDef(self, st, fr):
        f = self.make_func(st, fr)
        v = f
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, fr)
        self.store(st.name, v, fr)

    def make_func(self, node, fr):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        dflt = {}
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            dflt[n] = self.eval(d, fr)
        kwd = {}
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[x.arg] = self.eval(d, fr)
        closure = fr
        owner = None
        is_mod = fr is self.mod_frames.get(fr.module.name)
        if fr.is_class:
            owner = fr.label
            closure = fr.parent
        qn = node.name if isinstance(node, ast.FunctionDef) else "<lambda>"
        if owner:
            qn = owner + "." + qn
        elif not is_mod:
            qn = fr.label + ".<locals>." + qn
        if closure is self.mod_frames.get(fr.module.name):
            closure = None
        f = FuncVal(node, fr.module, closure, qn, dflt, kwd, owner)
        f.classframe = fr if fr.is_class else None
        return f

    def decorate(self, d, v, fr):
        name = d.id if isinstance(d, ast.Name) else None
        if name == "property":
            return Prop(v)
        if name == "staticmethod":
            return StaticM(v)
        if name == "classmethod":
            return ClassM(v)
        if isinstance(d, ast.Attribute) and d.attr == "setter":
            p = self.eval(d.value, fr)
            return Prop(p.get, v)
        dv = self.eval(d, fr)
        if isinstance(dv, ExtVal):
            if dv.name in ("functools.lru_cache", "functools.cache"):
                dv = self.ext("functools.lru_cache:decorator")
        return self.call(dv, [v], {})

    def x_ClassDef(self, st, fr):
        bases = []
        for b in st.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
                if isinstance(b, ast.Name) and b.id in ("Generic", "Iterator", "Protocol", "Mapping"):
                    continue
            bv = self.eval(b, fr)
            if isinstance(bv, ExtVal):
                if bv.name.startswith("typing."):
                    continue
                bv = ClassVal(bv.name, [self.builtins["object"]], {})
                bv.outside = True       # a class of another package: nothing is known of what it defines
            if isinstance(bv, ClassVal):
                bases.append(bv)
        cf = Frame(self, st.name, fr.module, None if fr is self.mod_frames.get(fr.module.name) else fr)
        cf.is_class = True
        self.frames.append(cf)
        try:
            for s in st.body:
                self.exec_stmt(s, cf)
        finally:
            self.frames.pop()
        fields = cf.f.pop("__fields__", [])
        c = ClassVal(st.name, bases or [self.builtins["object"]], dict(cf.f), fr.module)
        c.fields = fields
        for d in st.decorator_list:
            dn = d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", getattr(getattr(d, "func", None), "id", "?"))
            c.decorators.append(dn)
            if dn not in ("dataclass", "total_ordering"):
                raise Unsupported("class decorator " + dn)
        if any(b.name == "Enum" for b in c.mro()):
            c.enum = True
            c.enum_members = {}
            for k, val in list(c.ns.items()):
                if not k.startswith("_") and not isinstance(val, (FuncVal, Prop, StaticM, ClassM)):
                    m = Obj(self, c, {"value": val, "name": k})
                    m.enum_value = val
                    c.enum_members[k] = m
                    c.ns[k] = m
        for k, val in c.ns.items():
            if isinstance(val, FuncVal):
                val.cls = c
            for attr in ("get", "set", "fn"):
                g = getattr(val, attr, None)
                if isinstance(g, FuncVal):
                    g.cls = c
        self.store(st.name, c, fr)

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        v = self.lookup(e.id, fr)
        if isinstance(v, Poison):
            raise Unsupported("value of %s lost at a loop" % e.id)
        return v

    def e_Tuple(self, e, fr):
        return tuple(self.eval_star(e.elts, fr))

    def e_List(self, e, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            out = ListObj(self, [])
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    self.list_extend(out, self.eval(x.value, fr), (id(x),))
                else:
                    self.list_append(out, self.eval(x, fr))
            return out
        return self.new_list([self.eval(x, fr) for x in e.elts])

    def eval_star(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                src = self.idx_source(v)
                if src is None or not isinstance(src.n, int):
                    lst = self.collect(v, (id(x),))
                    src = self.idx_source(lst)
                    n = src.n if isinstance(src.n, int) else self.known_len(src.n)
                    if n is None:
                        out.append(StarSeq(lst))
                        continue
                    out += [src.get(self, k) for k in range(n)]
                    continue
                out += [src.get(self, k) for k in range(src.n)]
            else:
                out.append(self.eval(x, fr))
        return out

    def known_len(self, n):
        """the length, where the path leaves only one (small) possibility"""
        for k in range(7):
            if self.path.sat(n == k):
                return None if self.path.sat(n != k) else k
        return None

    def e_Set(self, e, fr):
        return self.make_set([self.eval(x, fr) for x in e.elts])

    def make_set(self, items):
        out = []
        for x in items:
            if not self.path.decide(self.member(x, out)):
                out.append(x)
        return SetObj(self, out)

    def new_map(self):
        """an empty dict; with symbolic keys where the contract asks for it"""
        h = self.ghost.get("new_map")
        return h(self) if h else DictObj(self)

    def e_Dict(self, e, fr):
        d = self.new_map()
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.eval(v, fr)
                if not isinstance(m, DictObj):
                    raise Unsupported("** of a non-dict")
                for kk, vv in self.getf(m, "v"):
                    self.setitem(d, kk, vv)
            else:
                self.setitem(d, self.eval(k, fr), self.eval(v, fr))
        return d

    def e_ListComp(self, e, fr):
        out = ListObj(self, [])
        self.iter_genexp(GenExpV(e, fr), lambda x: self.list_append(out, x), (id(e),))
        return out

    def e_SetComp(self, e, fr):
        return self.call(self.builtins["set"], [GenExpV(e, fr)], {})

    def e_DictComp(self, e, fr):
        d = self.new_map()
        self.iter_genexp(GenExpV(e, fr), lambda kv: self.setitem(d, kv[0], kv[1]), (id(e),))
        return d

    def e_GeneratorExp(self, e, fr):
        return GenExpV(e, fr)

    def e_Lambda(self, e, fr):
        node = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.Return(value=e.body, lineno=e.lineno, col_offset=0)],
                               decorator_list=[], lineno=e.lineno, col_offset=0)
        return self.make_func(node, fr)

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                if v.format_spec is None and v.conversion == -1:
                    parts.append(self.to_str(x))
                else:
                    parts.append(self.fmt_opaque(x, v.conversion, v.format_spec))
        return self.str_cat(parts)

    def str_cat(self, parts):
        out = ""
        for p in parts:
            if isinstance(out, str) and isinstance(p, str):
                out += p
            elif isinstance(p, str) and p == "":
                pass
            elif isinstance(out, str) and out == "":
                out = p
            else:
                out = S("str", STR.cat(self.term(out, "str"), self.term(p, "str")))
        return out

    def fmt_opaque(self, x, conv, spec):
        if conv == ord("r"):
            return self.call(self.builtins["repr"], [x], {})
        return self.fresh("str", "fmt")

    def to_str(self, x):
        if isinstance(x, str) or isinstance(x, S) and x.kind == "str":
            return x
        if x is None or isinstance(x, (bool, int)):
            return str(x)
        h = getattr(getattr(x, "cls", None), "to_str", None)
        if h:
            return h(self, x)
        return self.fresh("str", "str")

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.decide(self.eval(e.test, fr)) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.decide(v)
            if isinstance(e.op, ast.And) and not t:
                return False if isinstance(v, S) and v.kind == "bool" else v
            if isinstance(e.op, ast.Or) and t:
                return True if isinstance(v, S) and v.kind == "bool" else v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return self.wrap_bool(self.neg(self.truth(v)))
        if isinstance(e.op, ast.USub):
            if isinstance(v, S):
                return S(v.kind, -v.t)
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr))

    def binop(self, op, a, b):
        fn = self.builtins["binop"]
        return fn(self, type(op).__name__, a, b)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(c, fr)
            r = self.compare(type(op).__name__, left, right)
            if i == len(e.ops) - 1:
                if res is True:
                    return r if not isinstance(r, z3.ExprRef) else S("bool", r)
            if not self.decide(self.wrap_bool(r)):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        return self.builtins["compare"](self, op, a, b)

    def e_Attribute(self, e, fr):
        v = self.eval(e.value, fr)
        name = e.attr
        if name.startswith("__") and not name.endswith("__"):
            name = self.mangle(name, fr)
        return self.getattr(v, name)

    def mangle(self, name, fr):
        return name     # class-private names are unique per class here

    def e_Subscript(self, e, fr):
        v = self.eval(e.value, fr)
        if isinstance(v, (ExtVal, ClassVal)):
            return v    # a type expression
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, fr) if e.slice.lower else None
            hi = self.eval(e.slice.upper, fr) if e.slice.upper else None
            st = self.eval(e.slice.step, fr) if e.slice.step else None
            return self.builtins["slice"](self, v, lo, hi, st)
        return self.builtins["getitem"](self, v, self.eval(e.slice, fr))

    def e_Starred(self, e, fr):
        raise Unsupported("starred expression")

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and getattr(f, "func", None) is None:
                f = f.parent
            return SuperV(getattr(f.func, "cls", None), f.first)
        f = self.eval(e.func, fr)
        args = self.eval_star(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                m = self.eval(k.value, fr)
                if isinstance(m, DictObj) and isinstance(m.f["v"], list):
                    for kk, vv in self.getf(m, "v"):
                        if not isinstance(kk, str):
                            raise Unsupported("** with symbolic keys")
                        kw[kk] = vv
                elif isinstance(m, Obj) and getattr(m.cls, "kwargs", None):
                    kw["**"] = m
                else:
                    raise Unsupported("** of %r" % (m,))
            else:
                kw[k.arg] = self.eval(k.value, fr)
        if any(isinstance(a, StarSeq) for a in args) and not (isinstance(f, BuiltinFn) and getattr(f, "star_ok", False)):
            if not (isinstance(f, BuiltinFn) and f.name in ("zip", "itertools.zip_longest", "print")):
                raise Unsupported("* of a sequence of unknown length")
        self.where = "%s:%d" % (fr.module.name, e.lineno)
        self.callsite = e
        return self.call(f, args, kw)

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value else None
        f = fr
        if f.yield_to is None:
            raise Unsupported("yield outside a driven generator")
        f.yield_to(v)
        return None

    def e_YieldFrom(self, e, fr):
        src = self.eval(e.value, fr)
        if fr.yield_to is None:
            raise Unsupported("yield outside a driven generator")

        def body(x):
            try:
                fr.yield_to(x)
            except ConsumerEx:
                raise
        if self.iterate(src, body, (id(e),)) == "break":
            raise BreakEx()
        return None


class StopLoop(Exception):
    pass


def is_any(v):
    return isinstance(v, Obj) and getattr(v.cls, "any", False) is True


class Poison:
    def __repr__(self):
        return "<lost>"


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class StarSeq:
    def __init__(self, lst):
        self.lst = lst


class DoneSet:
    """ghost: elements of a symbolic set already iterated"""

    def __init__(self, interp, x):
        self.interp, self.x = interp, x
        self.sort = SORTS[x.kind]
        self.mem = None
        self.cur = None

    def start(self):
        self.mem = z3.K(self.sort, z3.BoolVal(False))

    def havoc(self):
        self.mem = self.interp.path.fresh("done", z3.ArraySort(self.sort, smt.B))
        q = z3.Const("q!done", self.sort)
        self.interp.path.assume(z3.ForAll([q], z3.Implies(z3.Select(self.mem, q), z3.Select(self.x.mem, q)),
                                          patterns=[z3.Select(self.mem, q)]))

    def step(self):
        self.mem = z3.Store(self.mem, self.cur, z3.BoolVal(True))


def merge_kinds(ks):
    ks = set(ks)
    for tag in ("seq", "newlist"):
        if (tag, None) in ks and any(k[0] == tag and k[1] is not None for k in ks):
            ks.discard((tag, None))
        if (tag, "nones") in ks and ks & {(tag, "opts"), (tag, "optf")}:
            ks.discard((tag, "nones"))
    for k in [k for k in ks if k[0] == "symset"]:
        ks -= {("seq", None), ("seq", k[1])}       # a set that had finitely many elements
    for tag in ("symset",):
        if (tag, None) in ks and any(k[0] == tag and k[1] is not None for k in ks):
            ks.discard((tag, None))
    return ks


PYTYPES = {"str": str, "list": list, "dict": dict, "set": set, "tuple": tuple, "int": int, "float": float, "bytes": bytes, "bool": bool}


def type_name(v):
    if isinstance(v, S):
        return {"str": "str", "int": "int", "bool": "bool", "flt": "float", "bytes": "bytes"}.get(v.kind, "?")
    if isinstance(v, ListObj) or isinstance(v, Seq):
        return "list"
    if isinstance(v, DictObj):
        return "dict"
    if isinstance(v, SetObj):
        return "set"
    if v is None:
        return "NoneType"
    if isinstance(v, Obj) and isinstance(v.cls, str):
        return v.cls
    if isinstance(v, (str, bool, int, float, tuple, bytes)):
        return type(v).__name__
    return "?"


def load(t):
    n = ast.parse(ast.unparse(t), mode="eval").body
    return n


def make_ets(interp):
    E = {}

    def scalar(name, th, kind):
        E[name] = ET(name, th, lambda it, t: S(kind, t), lambda v: interp.term(v, kind), None)
    scalar("str", ROW, "str")
    scalar("int", ISEQ, "int")
    scalar("bool", BSEQ, "bool")
    scalar("obj", OSEQ, "obj")

    def opt(name, unbox):
        """sequences of None and values of one kind"""
        def wrap(it, t):
            it.path.assume(smt.obj_is_none(smt.NONE_U))
            if unbox is None or it.path.decide(smt.obj_is_none(t)):
                return None
            return unbox(t)

        def unwrap(v):
            if v is None:
                interp.path.assume(smt.obj_is_none(smt.NONE_U))
                return smt.NONE_U
            if name == "optf" and kind_of(v) == "flt":
                x = interp.term(v, "flt")
                b = smt.box_flt(x)
                interp.path.assume(z3.And(z3.Not(smt.obj_is_none(b)), smt.is_flt(b), smt.unbox_flt(b) == x))
                return b
            if name == "opts" and kind_of(v) == "str":
                x = interp.term(v, "str")
                b = smt.box_str(x)
                interp.path.assume(z3.And(z3.Not(smt.is_flt(b)), z3.Not(smt.obj_is_none(b)), smt.unbox_str(b) == x))
                return b
            raise Unsupported("%r in a list of %s" % (v, name))
        E[name] = ET(name, OSEQ, wrap, unwrap, None)
    opt("nones", None)
    opt("opts", lambda t: S("str", smt.unbox_str(t)))
    opt("optf", lambda t: S("flt", smt.unbox_flt(t)))
    E["char"] = ET("char", STR, lambda it, t: S("str", STR.unit(t)), lambda v: STR.at(interp.term(v, "str"), 0), None)

    def wrap_list(et):
        def w(it, t):
            return it.seq_list(Seq(E[et], t), frozen=True)
        return w

    def unwrap_list(et):
        def u(v):
            s = interp.as_seq(v, E[et])
            if s.et is None:
                return E[et].th.empty
            if s.et is not E[et]:
                raise Unsupported("row of %s where %s is expected" % (s.et.name, et))
            return s.t
        return u
    E["row"] = ET("row", TABLE, wrap_list("str"), unwrap_list("str"), None)
    E["cell"] = ET("cell", CROW, lambda it, t: (S("str", CELL.txt(t)), S("bool", CELL.quoted(t))),
                   lambda v: CELL.cell(interp.term(v[0], "str"), interp.term(v[1], "bool")), None)
    E["crow"] = ET("crow", CTABLE, wrap_list("cell"), unwrap_list("cell"), None)
    E["orow"] = ET("orow", OTABLE, wrap_list("obj"), unwrap_list("obj"), None)

    def wrap_d(it, t):
        cls = it.resolve("clevercsv.dialect.SimpleDialect")
        o = Obj(it, cls, {"delimiter": S("str", DIALECT.delim(t)), "quotechar": S("str", DIALECT.quote(t)),
                          "escapechar": S("str", DIALECT.esc(t)), "strict": S("bool", DIALECT.strict(t))})
        o.term = t
        return o

    def unwrap_d(v):
        f = v.f
        return DIALECT.mk(interp.term(interp.getf(v, "delimiter"), "str"), interp.term(interp.getf(v, "quotechar"), "str"),
                          interp.term(interp.getf(v, "escapechar"), "str"), interp.term(interp.getf(v, "strict"), "bool"))
    E["dialect"] = ET("dialect", DSEQ, wrap_d, unwrap_d, None)
    return E
