"""C15: writing a table is all or nothing and faithful."""
import z3
from engine import smt, world as W
from engine.contracts import Contract
from engine.models import B
from engine.smt import STR, OTABLE, OSEQ
from engine.vals import *
from specs import cio
from specs.cio import FS0, EX0, Z


def lengths(it, st):
    """a list of numbers holding the length of each row seen so far"""
    out = []
    base = getattr(st.src, "base", None)
    if not isinstance(base, Seq) or base.et not in (it.ETS["orow"], it.ETS["row"]):
        return out
    rt = OSEQ if base.et.name == "orow" else smt.ROW
    for cell, o, v in st.cells():
        e = st.entry.get(cell)
        if isinstance(e, list) and not e:
            def f(s, cell=cell):
                x = s.now(cell)
                if isinstance(x, list):
                    return s.idx == 0 if not x else None
                if x.et is not it.ETS["int"]:
                    return None
                i = z3.Int("i!ln")
                return z3.And(smt.ISEQ.len(x.t) == s.idx, smt.forall([i], z3.Implies(z3.And(0 <= i, i < s.idx), smt.ISEQ.at(x.t, i) == rt.len(base.et.th.at(base.t, i))),
                                                                  patterns=[smt.ISEQ.at(x.t, i), base.et.th.at(base.t, i)]))
            out.append(("%s.%s = lengths" % cell, f))

    def regular(s):
        i, at = z3.Int("i!ln"), base.et.th.at
        return z3.Or(s.idx == 0, smt.forall([i], z3.Implies(z3.And(0 <= i, i < s.idx), rt.len(at(base.t, i)) == rt.len(at(base.t, 0))), patterns=[at(base.t, i)]))
    out.append(("rows seen are as long as the first", regular))
    return out


def columns(it, st):
    """a list holding the cell at one position of each row seen so far; a list holding the columns seen so far"""
    out = []
    ot = it.ETS["orow"]
    base = getattr(st.src, "base", None)
    near = [v for fr in it.frames[-1:] + it.comps[-2:] for v in fr.f.values()]
    near = [v.f.get("v") if isinstance(v, ListObj) else v for v in near]
    at = [it.term(v, "int") for v in near if kind_of(v) == "int"]
    tabs = [v.t for v in near if isinstance(v, Seq) and v.et is ot]
    i, j = z3.Ints("i!cl j!cl")
    for cell, o, v in st.cells():
        e = st.entry.get(cell)
        if not (isinstance(e, list) and not e):
            continue
        if isinstance(base, Seq) and base.et is ot:
            for n, c in enumerate(at):
                def f(s, cell=cell, c=c):
                    x = s.now(cell)
                    if isinstance(x, list):
                        return s.idx == 0 if not x else None
                    if x.et is not it.ETS["obj"]:
                        return None
                    return smt.forall([i], z3.Implies(z3.And(0 <= i, i < s.idx), OSEQ.at(x.t, i) == OSEQ.at(OTABLE.at(base.t, i), c)), patterns=[OSEQ.at(x.t, i)])
                out.append(("%s.%s = column at %d" % (cell + (n,)), f))
        for n, T in enumerate(tabs):
            def f(s, cell=cell, T=T):
                x = s.now(cell)
                if isinstance(x, list):
                    return s.idx == 0 if not x else None
                if x.et is not ot:
                    return None
                row = OTABLE.at(x.t, j)
                return z3.And(smt.forall([j], z3.Implies(z3.And(0 <= j, j < s.idx), OSEQ.len(row) == OTABLE.len(T)), patterns=[row]),
                              smt.forall([j, i], z3.Implies(z3.And(0 <= j, j < s.idx, 0 <= i, i < OTABLE.len(T)), OSEQ.at(row, i) == OSEQ.at(OTABLE.at(T, i), j)), patterns=[OSEQ.at(row, i)]))
            out.append(("%s.%s = columns of %d" % (cell + (n,)), f))
    return out


def only_changed(it, path):
    """every other file is as it was"""
    o = W.fs(it)
    q = z3.Const("q!path", STR.sort)
    m, e = it.getf(o, "map").t, it.getf(o, "ex").t
    k = it.path.fresh("other", STR.sort)
    return z3.Implies(k != path, z3.And(z3.Select(m, k) == z3.Select(FS0, k), z3.Select(e, k) == z3.Select(EX0, k)))


class WriteTable(Contract):
    key = "clevercsv.wrappers.write_table"
    must_reach = ("return", "raise")
    templates = [lengths, columns]

    def __init__(self, transpose):
        self.transpose = transpose
        self.label = self.key + (" (transposed)" if transpose else "")

    def setup(self, it):
        self.T = it.path.fresh("T", OTABLE.sort)
        seq = Seq(it.ETS["orow"], self.T)
        table = it.seq_list(seq, frozen=True)
        if it.path.choose(2) == 1:
            table = Obj(it, "iterator", {"src": table, "pos": 0})       # can be consumed once, always true
        self.path_ = it.fresh("str", "filename")
        self.enc = it.fresh("str", "encoding") if it.path.choose(2) == 1 else None
        if self.enc is not None:
            it.path.assume(STR.len(self.enc.t) > 0)
        self.dialect = it.fresh("obj", "dialect") if it.path.choose(2) == 1 else "excel"
        if self.dialect != "excel":
            it.path.assume(z3.Not(smt.obj_is_none(self.dialect.t)))
        return {"table": table, "filename": self.path_, "dialect": self.dialect, "transpose": self.transpose, "encoding": self.enc}

    def post(self, it, args, kind, v):
        T = self.T
        n = OTABLE.len(T)
        a, b = it.path.fresh("a", smt.I), it.path.fresh("b", smt.I)
        # all rows have the length of the first one
        i = z3.Int("i!rg")
        first = OSEQ.len(OTABLE.at(T, 0))
        reg = smt.forall([i], z3.Implies(z3.And(0 <= i, i < n), OSEQ.len(OTABLE.at(T, i)) == first), patterns=[OTABLE.at(T, i)])
        rag = z3.And(0 <= a, a < n, OSEQ.len(OTABLE.at(T, a)) != first)
        p = self.path_.t
        if kind == "raise" and v.cls is B["ValueError"]:
            it.path.check(z3.Or(z3.Not(reg), z3.BoolVal(self.dialect is None)), "ValueError is raised only for a ragged table")
            it.path.check(cio.fs_same(it), "a refused table leaves every file alone")
            return
        # (a: any row) the table was not refused, so it is not ragged
        if kind == "return" or it.ghost.get("files"):
            it.path.check(z3.Not(rag), "a ragged table is refused with ValueError before the file is touched")
        it.path.check(only_changed(it, p), "no other file is changed")
        if kind == "raise":
            it.path.check(z3.BoolVal(W.from_outside(it, v)), "only failures of the environment surface")
            return
        if it.path.decide(n == 0):
            it.path.check(cio.fs_same(it), "an empty table creates no file")
            return
        enc = W.enc_of(self.enc.t) if self.enc is not None else W.enc_none
        d = self.dialect.t if self.dialect != "excel" else smt.box_str(it.term("excel", "str"))
        fs = it.ghost.get("files", [])
        it.path.check(z3.BoolVal(len(fs) == 1 and fs[0].f["newline"] == "" and fs[0].f["errors"] is None), "the file is opened once, without newline translation")
        ws = it.ghost.get("writers", [])
        it.path.check(z3.BoolVal(len(ws) == 1), "one writer is used")
        if len(ws) != 1:
            return
        rows = it.getf(ws[0].rows, "v")
        X = OTABLE.empty if isinstance(rows, list) and not rows else it.as_seq(rows).t
        it.path.check(W.fs_get(it, p) == W.encode(enc, cio.TEXT["orow"](d, X)), "the file holds the rows written in the dialect and encoding")
        it.path.check(z3.Select(it.getf(W.fs(it), "ex").t, p), "the file exists")
        if not self.transpose:
            it.path.assume(OTABLE.ext(X, T))
            it.path.check(X == T, "exactly the table's rows are written, in order and complete")
            return
        it.path.check(OTABLE.len(X) == first, "one row per column is written")
        r, c = it.path.fresh("r", smt.I), it.path.fresh("c", smt.I)
        it.path.assume(z3.And(0 <= r, r < first, 0 <= c, c < n))
        it.path.check(OSEQ.len(OTABLE.at(X, r)) == n, "every written row holds one cell of each row")
        it.path.check(OSEQ.at(OTABLE.at(X, r), c) == OSEQ.at(OTABLE.at(T, c), r), "every cell is written in its transposed position")


ASSUMED = dict(cio.ASSUMED)
CONTRACTS = [WriteTable(False), WriteTable(True)] + [cio.MakeWriter(f, over=False) for f in ("simple", "csv", "name")] + [cio.WriteRow("writerow"), cio.WriteRow("writerows")]
TRUSTED = [W.TRUST_FILES, cio.TRUST_IO, "zip(*rows): transposition, as long as the shortest row; set of numbers: its size is 1 exactly when all are equal"]
