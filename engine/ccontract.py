"""Contracts on C functions and their verification."""
import time
import traceback
import z3
from . import smt, csym, capi
from .smt import Explorer, PathEnd, Unsupported
from .contracts import Result

_progs = {}


def program(fname):
    if fname not in _progs:
        _progs[fname] = csym.CProgram(fname)
    return _progs[fname]


class CContract:
    """Specification of one C function: setup(m) -> arguments (preconditions assumed), post(m, ret) obligations,
    apply(m, vals) the contract as seen by callers"""
    file = None
    func = None
    label = None
    timeout = 10000
    budget = 240
    max_paths = 20000
    contracts = {}
    must_reach = ()
    axioms = staticmethod(lambda: [])

    @property
    def key(self):
        return "%s:%s" % (self.file, self.func)

    def templates(self, m, entry):
        return []

    def body(self, m, vals):
        return m.run_func(self.func, vals)

    def verify(self, dump=False, verbose=False):
        res = Result(self.label or self.key)
        t0 = time.time()
        ex = Explorer(timeout=self.timeout, deadline=t0 + self.budget)
        ex.MAX_PATHS = self.max_paths
        ex.used, ex.inlined, ex.infos = set(), set(), {}
        ex.beside = getattr(self, "beside", None)
        reached = set()
        try:
            prog = program(self.file)
            if self.func not in prog.funcs:
                raise Unsupported("%s has no function %s" % (self.file, self.func))
            ex.extra_axioms = list(smt.string_axioms()) + list(csym.array_axioms()) + list(self.axioms())
            if dump:
                ex.dump = []

            def body(path):
                m = csym.Machine(prog, path, self.contracts, capi.API, self)
                m.templates = [self.templates]
                m.reached = reached
                vals = self.setup(m)
                ret = self.body(m, vals)
                if not path.sat(z3.BoolVal(True)):
                    raise PathEnd()
                reached.add("end")
                self.post(m, ret)
            ex.run(body)
        except Unsupported as u:
            res.unsupported = str(u) or "unsupported construct"
            if verbose:
                traceback.print_exc()
        except RecursionError:
            res.unsupported = "term too deep"
        except Exception as e:
            res.error = "%s: %s" % (type(e).__name__, e)
            res.trace = traceback.format_exc()
            if verbose:
                traceback.print_exc()
        res.obligations = [(o.label, o.status, round(o.secs, 3), o.detail, o.where) for o in ex.obligations]
        res.paths, res.complete, res.restarts = ex.paths, len(ex.complete), ex.restarts
        res.solver_s, res.queries, res.wall = ex.solver_s, ex.queries, time.time() - t0
        res.inlined, res.used = sorted(ex.inlined), sorted(ex.used)
        res.dumps = ex.dump or []
        if not res.unsupported and not res.error:
            miss = (set(self.must_reach) | {"end"}) - reached
            if not ex.complete:
                res.vacuous = "no feasible path reaches the end of the function"
            elif miss:
                res.vacuous = "never reached: " + ", ".join(sorted(miss))
            elif not res.obligations:
                res.vacuous = "no obligations generated"
        return res
