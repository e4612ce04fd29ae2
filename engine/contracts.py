"""Contracts and the function-by-function verification driver."""
import copy
import re
import time
import traceback
import z3
from . import smt, models
from .smt import Explorer, Unsupported, PathEnd
from .pysym import Interp, Program, PyExc, ReturnEx
from .vals import *


class Contract:
    """Specification of one repository function.

    setup(it)            symbolic arguments (dict), preconditions are assumed on it.path
    post(it, args, kind, value)
                         kind 'return' or 'raise'; emits the obligations with it.path.check
    apply(it, f, args)   the contract as seen by callers (assert the precondition, havoc the frame,
                         assume the postcondition)
    templates            candidate loop invariants besides the generic ones
    """
    key = None
    label = None
    templates = ()
    timeout = 10000
    budget = 240
    externals = {}
    generic = True
    must_reach = ("return",)

    def setup(self, it):
        raise NotImplementedError

    def body(self, it, args):
        """runs the function; overridden for generators and several calls in a row"""
        f = it.resolve(self.key)
        if isinstance(f, BuiltinFn):
            raise Unsupported("%s is not a repository function" % self.key)
        fn = f.fn if isinstance(f, (StaticM, ClassM, Bound)) else f
        return it.call_func(fn, [], args)

    def post(self, it, args, kind, value):
        raise NotImplementedError


def without(con, *labels):
    """the contract less the obligations named: those that are no part of the property at hand.
    They are neither shown nor assumed; another property has the whole contract."""
    c = copy.copy(con)
    rx = re.compile("|".join(labels))
    c.beside = lambda label: rx.match(label) is not None
    return c


class Result:
    def __init__(self, label):
        self.label = label
        self.obligations, self.paths, self.complete, self.restarts = [], 0, 0, 0
        self.solver_s, self.queries, self.wall = 0.0, 0, 0.0
        self.unsupported = None
        self.error = None
        self.inlined, self.used = [], []
        self.vacuous = None
        self.dumps = []

    @property
    def failed(self):
        return [o for o in self.obligations if o[1] != "proved"]

    @property
    def discharged(self):
        return [o for o in self.obligations if o[1] == "proved"]

    def ok(self):
        return not self.failed and not self.unsupported and not self.error and not self.vacuous


def verify(con, contracts, externals=None, repo=None, dump=False, verbose=False):
    from . import templates as T
    if getattr(con, "assumed", None) is not None:
        contracts = con.assumed
    res = Result(con.label or con.key)
    t0 = time.time()
    ex = Explorer(timeout=con.timeout, deadline=t0 + con.budget)
    if getattr(con, "max_paths", None):
        ex.MAX_PATHS = con.max_paths
    ex.used, ex.inlined, ex.infos = set(), set(), {}
    ex.beside = getattr(con, "beside", None)
    ex.extra_axioms = list(smt.string_axioms()) + list(getattr(con, "axioms", lambda: [])())
    if dump:
        ex.dump = []
    prog = Program(repo)
    exts = dict(models.EXT)
    exts.update(externals or {})
    exts.update(con.externals)
    tpls = (list(T.GENERIC) if con.generic else []) + list(con.templates)
    reached = set()

    def body(path):
        it = Interp(prog, path, contracts, exts, models.B, tpls)
        it.verifying = con.key
        it.con = con
        args = con.setup(it)
        try:
            v = con.body(it, args)
            kind = "return"
        except PyExc as x:
            kind, v = "raise", x.value
        n0 = len(path.ex.obligations)
        path.note("outcome %s %s" % (kind, getattr(getattr(v, "cls", None), "name", "")))
        if not path.sat(z3.BoolVal(True)):
            raise PathEnd()
        reached.add(kind)
        con.post(it, args, kind, v)
    try:
        ex.run(body)
        if hasattr(con, "finish"):
            con.finish(ex)
    except Unsupported as u:
        res.unsupported = str(u) or "unsupported construct"
        if hasattr(con, "finish"):
            con.finish(ex)
        if verbose:
            traceback.print_exc()
    except RecursionError:
        res.unsupported = "term too deep"
    except Exception as e:              # a fault of the verifier itself: never a verdict
        res.error = "%s: %s" % (type(e).__name__, e)
        res.trace = traceback.format_exc()
        if verbose:
            traceback.print_exc()
    res.obligations = [(o.label, o.status, round(o.secs, 3), o.detail, o.where) for o in ex.obligations]
    res.paths, res.complete, res.restarts = ex.paths, len(ex.complete), ex.restarts
    res.solver_s, res.queries, res.wall = ex.solver_s, ex.queries, time.time() - t0
    res.inlined, res.used = sorted(ex.inlined), sorted(map(str, ex.used))
    res.dumps = ex.dump or []
    if not res.unsupported and not res.error:
        if not ex.complete:
            res.vacuous = "no feasible path reaches the end of the function"
        elif set(con.must_reach) - reached:
            res.vacuous = "never reached: " + ", ".join(set(con.must_reach) - reached)
        elif not res.obligations:
            res.vacuous = "no obligations generated"
    return res
