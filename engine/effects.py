"""Frame conditions over the whole package: which functions may leave a piece of global state changed.

A function is `clean` when neither it nor anything it can call (by name: every function or method of
the package with a name that occurs in its body, and every dunder method) writes the state.  A function
that does refer to a writer is verified: executed symbolically with every other package function
havocked, it must leave the state as it found it on every outcome.  Functions for which that fails are
executed inline in their callers."""
import ast
import os
import time
import z3
from . import smt, models
from .anyval import ANY, any_value, any_exception, havoc, may_raise
from .contracts import Contract, Result, verify
from .pysym import Program, PyExc, Frame, is_generator, ConsumerEx
from .smt import Unsupported
from .vals import *


class Fn:
    def __init__(self, module, qualname, node, owner):
        self.module, self.qualname, self.node, self.owner = module, qualname, node, owner
        self.key = module + "." + qualname
        self.short = qualname.split(".")[-1]
        names = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name):
                names.add(n.id)
            elif isinstance(n, ast.Attribute):
                names.add(n.attr)
        self.names = names
        self.globals = {g for n in ast.walk(node) if isinstance(n, ast.Global) for g in n.names}


def package_functions(prog, pkg="clevercsv"):
    out = {}
    root = os.path.join(prog.repo, pkg)
    for d, _, files in sorted(os.walk(root)):
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            rel = os.path.relpath(os.path.join(d, f), prog.repo)[:-3].replace(os.sep, ".")
            if rel.endswith(".__init__"):
                rel = rel[:-9]
            tree = prog.tree(rel)[0]

            def scan(body, prefix):
                for st in body:
                    if isinstance(st, ast.FunctionDef):
                        fn = Fn(rel, prefix + st.name, st, prefix[:-1] or None)
                        out[fn.key] = fn
                    elif isinstance(st, ast.ClassDef):
                        scan(st.body, prefix + st.name + ".")
                    elif isinstance(st, (ast.If, ast.Try)):
                        scan(st.body, prefix)
            scan(tree.body, "")
    return out


DYNAMIC = ("exec", "eval", "globals", "vars", "__dict__", "__import__", "importlib")


class Havoc:
    """contract of every function that leaves the state alone: any result or any exception"""

    def __init__(self, key):
        self.key = key

    def apply(self, it, f, args):
        may_raise(it)
        return any_value(it)

    def construct(self, it, cls, args, kw):
        return self.apply(it, None, None)


class AllHavoc(dict):
    def __init__(self, fns, unsafe):
        dict.__init__(self)
        self.fns, self.unsafe = fns, unsafe

    def get(self, key, default=None):
        if key.startswith("class:"):
            k = key[6:] + ".__init__"
            if key[6:].startswith("clevercsv.") and k not in self.unsafe and not any(u.startswith(key[6:] + ".") for u in self.unsafe):
                return Havoc(key)
            return default
        if key in self.fns and key not in self.unsafe:
            return Havoc(key)
        return default


class Restores(Contract):
    """the function leaves the state as it found it, however it ends"""
    must_reach = ()
    budget = 40
    max_paths = 1500

    def __init__(self, key, fn, cell, make, what, names):
        self.key, self.fn, self.cell, self.make_state, self.what, self.names = key, fn, cell, make, what, names
        self.label = "%s leaves %s unchanged" % (key, what)

    def setup(self, it):
        it.havoc = havoc
        it.any_model = ANY
        it.ghost["unsafe_names"] = self.names
        mod, var = self.cell
        it.module(mod)
        fr = it.mod_frames[mod]
        self.state0 = self.make_state(it)
        fr.f[var] = self.state0
        self.frame = fr
        f = it.resolve(self.key)
        fn = f.fn if isinstance(f, (StaticM, ClassM, Bound)) else f
        if isinstance(f, BuiltinFn) or not isinstance(fn, FuncVal):
            raise Unsupported("decorated function")
        self.f = fn
        args = {}
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for n in names:
            args[n] = any_value(it)
        if self.fn.owner and names and not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in self.fn.node.decorator_list):
            cls = it.resolve(self.fn.module + "." + self.fn.owner)
            if any(isinstance(d, ast.Name) and d.id == "classmethod" for d in self.fn.node.decorator_list):
                args[names[0]] = cls
            else:
                o = Obj(it, cls, {})
                o.lazy = lambda it2, nm: any_value(it2)
                args[names[0]] = o
        return args

    def body(self, it, args):
        pos = []
        a = self.f.node.args
        if a.vararg:        # at most two extra arguments
            args = dict(args)
            for n in [x.arg for x in a.posonlyargs + a.args]:
                pos.append(args.pop(n))
            pos += [any_value(it)] * it.path.choose(3)
        r = it.call_func(self.f, pos, args)
        if isinstance(r, GenCall):
            def consume(e):
                may_raise(it)
            it.iterate(r, consume, ("consumer",))
        return r

    def post(self, it, args, kind, v):
        mod, var = self.cell
        now = it.getf(self.frame, var)
        it.path.check(it.eq(now, self.state0) if kind_of(now) else z3.BoolVal(now is self.state0),
                      "%s is unchanged when it %s" % (self.what, "returns" if kind == "return" else "raises"))


class FrameProof:
    """obligations: every entry point leaves the state unchanged"""
    label = None
    key = None

    def __init__(self, label, getter, entries, what):
        self.label, self.getter, self.entries, self.what = label, getter, entries, what

    def verify(self, dump=False):
        t0 = time.time()
        res = Result(self.label)
        prog = Program()
        fns = package_functions(prog)
        try:
            self.run(prog, fns, res, dump)
        except Unsupported as u:
            res.unsupported = str(u)
        res.wall = time.time() - t0
        res.complete = 1
        return res

    def run(self, prog, fns, res, dump):
        g = fns.get(self.getter)
        if g is None or len(g.globals) != 1:
            raise Unsupported("the state behind %s is not one module variable" % self.getter)
        var = next(iter(g.globals))
        cell = (g.module, var)
        for k, f in fns.items():
            bad = [d for d in DYNAMIC if d in f.names and f.module != "clevercsv._optional"]
            if bad:
                raise Unsupported("%s uses %s" % (k, bad[0]))
            for n in ast.walk(f.node):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
                for t in tg:
                    if isinstance(t, ast.Attribute) and t.attr == var:
                        raise Unsupported("%s assigns .%s" % (k, var))
        unsafe = {k for k, f in fns.items() if var in f.globals}
        proofs, status = {}, {}
        changed = True
        while changed:
            changed = False
            names = {fns[k].short for k in unsafe}
            classes = {fns[k].owner.split(".")[-1] for k in unsafe if fns[k].short == "__init__" and fns[k].owner}
            for k, f in sorted(fns.items()):
                if k in unsafe or not (f.names & (names | classes) or any(n.startswith("__") and n.endswith("__") for n in names - {"__init__"})):
                    continue
                if status.get(k) == frozenset(unsafe):
                    continue
                con = Restores(k, f, cell, self.make, self.what, names)
                r = verify(con, AllHavoc(fns, unsafe))
                proofs[k] = r
                status[k] = frozenset(unsafe)
                res.paths += r.paths
                res.queries += r.queries
                res.solver_s += r.solver_s
                if not r.ok():
                    unsafe.add(k)
                    changed = True
                    break
        for k, r in proofs.items():
            if k not in unsafe:
                res.obligations += [(k + ": " + o[0],) + tuple(o[1:]) for o in r.obligations]
                res.used.append("contract:" + k)
        for e in self.entries:
            if e not in fns:
                res.unsupported = "no function " + e
                continue
            if e in unsafe:
                r = proofs.get(e)
                fails = [o for o in r.failed] if r else []
                if not fails:
                    res.unsupported = "%s: %s" % (e, (r.unsupported or r.error) if r else "writes the state")
                res.obligations += [(e + ": " + o[0],) + tuple(o[1:]) for o in fails]
            else:
                res.obligations.append(("%s leaves %s unchanged" % (e, self.what), "proved", 0.0,
                                        "verified" if e in proofs else "no writer in its call closure", ""))
        res.inlined = sorted(unsafe)

    def make(self, it):
        return it.fresh("int", "limit0")
