"""C17: in-place safety and exit codes."""
import z3
from engine import smt, world as W
from engine.contracts import Contract
from engine.models import B
from engine.smt import ROW, STR, OSEQ
from engine.vals import *
from specs import cio, cstd
from specs.cio import Z

SC = cstd.SC
RET = z3.Function("handle_path_result", smt.I, smt.I)       # result of call number n (1, 2 or 0)


class HPCall:
    """contract of handle_path (proved below): 0, 1, 2 or an exception; what it is called with is checked here"""

    def apply(self, it, f, args):
        g = it.ghost["calls"]
        c, n = g.spec, it.term(g.f["n"], "int")
        C = it.path.check
        C(z3.Not(it.term(g.f["failed"], "bool")), "the first failure stops the run")
        C(n < ROW.len(c.P), "no file is handled twice")

        def same(v, t):
            return it.term(v, "str") == t if kind_of(v) == "str" else z3.BoolVal(False)

        def opt(v, w):
            if v is None or w is None:
                return z3.BoolVal(v is w)
            return it.term(v) == it.term(w) if kind_of(v) == kind_of(w) else z3.BoolVal(False)
        C(same(args["path"], ROW.at(c.P, n)), "the files are handled in order")
        out = args["output"]
        C(ROW.len(c.O) == 0 if out is None else z3.And(ROW.len(c.O) == ROW.len(c.P), same(out, ROW.at(c.O, n))), "each file is paired with its own output")
        enc = args["encoding"]
        ne = ROW.len(c.E)
        C(ne == 0 if enc is None else z3.And(ne > 0, z3.Or(ne == 1, ne == ROW.len(c.P)), same(enc, z3.If(ne == 1, ROW.at(c.E, 0), ROW.at(c.E, n)))), "each file is read in its own encoding")
        C(opt(args["num_chars"], c.num), "the number of characters is passed on")
        C(opt(args["target_encoding"], c.tenc), "the target encoding is passed on")
        C(z3.Not(z3.And(c.inp.t, ROW.len(c.O) > 0)), "in place and output files are not combined")
        it.setf(g, "n", S("int", n + 1))
        if it.path.choose(2) == 1:
            it.setf(g, "raised", True)
            raise cio.any_exception(it, [])
        r = RET(n)
        it.path.assume(z3.And(0 <= r, r <= 2))
        it.setf(g, "failed", S("bool", r == 1))
        it.setf(g, "changed", S("bool", z3.Or(it.term(g.f["changed"], "bool"), r == 2)))
        return S("int", r)


def templates(it, st):
    g = it.ghost.get("calls")
    if g is None:
        return []
    c = g.spec

    def t(name, kind="bool"):
        return it.term(g.f[name], kind)
    out = [("calls = index", lambda s: t("n", "int") == s.idx), ("none failed", lambda s: z3.Not(t("failed"))), ("none raised", lambda s: z3.Not(t("raised")))]
    for cell, o, v in st.cells():
        e = st.entry.get(cell, UNSET)
        if o is g:
            continue
        if kind_of(e) == "int":
            def code(s, cell=cell):
                x = s.now(cell)
                return it.term(x, "int") == z3.If(t("changed"), Z(2), Z(0)) if kind_of(x) == "int" else None
            out.append(("%s.%s is the code so far" % cell, code))
        elif kind_of(e) == "bool":
            def chg(s, cell=cell):
                x = s.now(cell)
                return it.term(x, "bool") == t("changed") if kind_of(x) == "bool" else None
            out.append(("%s.%s tells of a change" % cell, chg))
        elif isinstance(e, (list, Seq, ListObj)):
            for nm, want in (("nothing", smt.NONE_U), ("the first encoding", ROW.at(c.E, 0))):
                def fill(s, cell=cell, want=want):
                    x = s.now(cell)
                    if isinstance(x, ListObj):
                        x = it.getf(x, "v")
                    if isinstance(x, list):
                        return z3.BoolVal(True) if not x else None
                    if x.et is None or x.et.th.elem != want.sort():
                        return None
                    i = z3.Int("i!fl")
                    return smt.forall([i], z3.Implies(z3.And(0 <= i, i < x.et.th.len(x.t)), x.et.th.at(x.t, i) == want), patterns=[x.et.th.at(x.t, i)])
                out.append(("%s.%s holds %s" % (cell + (nm,)), fill))
    return out


class Handle(Contract):
    key = SC + ".handle"
    must_reach = ("return", "raise")
    templates = [templates]
    assumed = {SC + ".handle_path": HPCall()}
    budget = 300

    def setup(self, it):
        fr = it.path.fresh
        self.P, self.O, self.E = fr("paths", ROW.sort), fr("outputs", ROW.sort), fr("encodings", ROW.sort)
        it.path.assume(ROW.len(self.P) > 0)
        i = z3.Int("i!en")
        et = it.ETS["str"]

        def lst(t):
            return it.seq_list(Seq(et, t), frozen=True)
        self.inp = it.fresh("bool", "in_place")
        self.tenc = it.fresh("str", "target_encoding") if it.path.choose(2) == 1 else None
        self.num = it.fresh("int", "num_chars") if it.path.choose(2) == 1 else None
        args = Obj(it, ClassVal("Namespace", [], {}), {
            "verbose": it.fresh("bool", "verbose"), "path": lst(self.P), "output": lst(self.O), "encoding": lst(self.E), "num_chars": self.num,
            "in_place": self.inp, "target_encoding": self.tenc, "transpose": it.fresh("bool", "transpose")})
        self.cmd = Obj(it, it.resolve(SC), {"args": args})
        g = Obj(it, ClassVal("Calls", [], {}), {"n": 0, "failed": False, "changed": False, "raised": False})
        g.spec = self
        it.ghost["calls"] = self.g = g
        self.printed = []
        it.ghost["print"] = lambda it2, a, kw: self.printed.append(kw)
        return {"self": self.cmd}

    def post(self, it, args, kind, v):
        g = self.g
        n = it.term(g.f["n"], "int")
        failed, changed, raised = (it.term(g.f[k], "bool") for k in ("failed", "changed", "raised"))
        np, no, ne = ROW.len(self.P), ROW.len(self.O), ROW.len(self.E)
        bad = z3.Or(z3.And(self.inp.t, no > 0), z3.And(no > 0, no != np), z3.And(ne > 1, ne != np))
        it.path.check(z3.BoolVal(all(k.get("file") is not None for k in self.printed)), "nothing is printed to standard output")
        if kind == "raise":
            it.path.check(raised, "only a failure of a file is raised")
            return
        if isinstance(v, bool) or kind_of(v) != "int":
            it.path.check(z3.BoolVal(False), "an exit code is returned")
            return
        code = it.term(v, "int")
        it.path.check(z3.Not(raised), "a failure of a file is not swallowed")
        it.path.check(z3.Implies(bad, z3.And(code == 1, n == 0)), "inconsistent options give exit code 1 before anything is written")
        it.path.check(z3.Implies(z3.Not(bad), z3.Or(failed, n == np)), "every file is handled unless one failed")
        it.path.check(z3.Implies(z3.Not(bad), code == z3.If(failed, Z(1), z3.If(changed, Z(2), Z(0)))), "the exit code is 1 at the first failure, otherwise 2 if a file was changed, otherwise 0")


ASSUMED = cstd.ASSUMED
CONTRACTS = [Handle()] + cstd.PATHS
TRUSTED = cstd.TRUST + ["argparse delivers lists of strings, an integer or None for -n, booleans for flags; at least one path"]
