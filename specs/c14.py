"""C14: dictionary writing emits every value under its field."""
import z3
from engine import smt, world as W
from engine.contracts import Contract
from engine.models import B
from engine.smt import STR, OTABLE, OSEQ, U
from engine.vals import *
from specs import cio, cmap
from specs.cio import FS0, EX0, Z
from specs.c15 import only_changed

DW = "clevercsv.dict_read_write.DictWriter"
VALS = z3.Function("dict_row", U, OSEQ.sort, U, OSEQ.sort)             # mapping, field names, rest value
TAB = z3.Function("dict_rows", OSEQ.sort, OSEQ.sort, U, OTABLE.sort)   # mappings, field names, rest value


def axioms():
    m, rv = z3.Consts("m!dw rv!dw", U)
    F, M = z3.Consts("F!dw M!dw", OSEQ.sort)
    i = z3.Int("i!dw")
    r = VALS(m, F, rv)
    yield from cmap.axioms()
    yield smt.forall([m, F, rv], OSEQ.len(r) == OSEQ.len(F), patterns=[r])
    k = OSEQ.at(F, i)
    yield smt.forall([m, F, rv, i], z3.Implies(z3.And(0 <= i, i < OSEQ.len(F)), OSEQ.at(r, i) == z3.If(z3.Select(cmap.HASF(m), k), z3.Select(cmap.VALF(m), k), rv)),
                    patterns=[OSEQ.at(r, i)])
    t = TAB(M, F, rv)
    yield smt.forall([M, F, rv], OTABLE.len(t) == OSEQ.len(M), patterns=[t])
    yield smt.forall([M, F, rv, i], z3.Implies(z3.And(0 <= i, i < OSEQ.len(M)), OTABLE.at(t, i) == VALS(OSEQ.at(M, i), F, rv)), patterns=[OTABLE.at(t, i)])


def extra_in(m, F, k):
    """k is a key of m which is not a field"""
    return z3.And(z3.Select(cmap.HASF(m), k), cmap.LO["obj"](F, OSEQ.len(F), k) < 0)


def row_templates(it, st):
    """a row built in a loop over the field names: the values under them"""
    out = []
    rv = it.ghost.get("restval")
    for s in cmap.seqs_of(st):
        if s is None or s.et.name != "obj":
            continue
        for cell, o, v in st.cells():
            e = st.entry.get(cell)
            if not (isinstance(e, list) and not e):
                continue
            for mp in it.ghost.get("maps", []) + it.ghost.get("built", []):
                def f(st2, cell=cell, mp=mp, s=s):
                    x = st2.now(cell)
                    if isinstance(x, list):
                        return st2.idx == 0 if not x else None
                    if x.et is not it.ETS["obj"]:
                        return None
                    i = z3.Int("i!rt")
                    k = OSEQ.at(s.t, i)
                    has, val = it.getf(mp, "has").t, it.getf(mp, "val").t
                    return z3.And(OSEQ.len(x.t) == st2.idx, smt.forall([i], z3.Implies(z3.And(0 <= i, i < st2.idx), OSEQ.at(x.t, i) == z3.If(z3.Select(has, k), z3.Select(val, k), rv)),
                                                                      patterns=[OSEQ.at(x.t, i)]))
                out.append(("%s.%s = values of mapping %d" % (cell + (mp.id,)), f))

                def none(st2, cell=cell, mp=mp, s=s):
                    # a list of the keys that are no fields
                    return None
        break
    return out


def extra_templates(it, st):
    """a list of the keys seen so far that are not among the fields"""
    out = []
    F = it.ghost.get("F")
    for s in cmap.seqs_of(st):
        if s is None or s.et.name != "obj" or F is None:
            continue
        for cell, o, v in st.cells():
            e = st.entry.get(cell)
            if not (isinstance(e, list) and not e):
                continue

            def f(st2, cell=cell, s=s):
                x = st2.now(cell)
                i = z3.Int("i!xt")
                n = OSEQ.len(F)
                none = smt.forall([i], z3.Implies(z3.And(0 <= i, i < st2.idx), cmap.LO["obj"](F, n, OSEQ.at(s.t, i)) >= 0), patterns=[OSEQ.at(s.t, i)])
                if isinstance(x, list):
                    return none if not x else None
                if x.et is not it.ETS["obj"]:
                    return None
                y = OSEQ.at(x.t, 0)
                w = z3.Const("w!xt", U)
                return z3.If(OSEQ.len(x.t) == 0, none, z3.And(cmap.LO["obj"](F, n, y) < 0, *[z3.Select(cmap.HASF(m.uterm), y) for m in it.ghost.get("maps", [])[-1:]]))
            out.append(("%s.%s = keys outside the fields" % cell, f))
    return out


def tab_templates(it, st):
    """rows written so far: header, first mapping, the mappings seen"""
    out = []
    F, M, rv = it.ghost.get("F"), it.ghost.get("M"), it.ghost.get("restval")
    if M is None:
        return out
    for w in it.ghost.get("writers", []):
        cell = (w.rows.id, "v")
        if cell not in st.entry:
            continue
        T = TAB(M, F, rv)
        for off in (0, 1):
            for hd in (0, 1):
                def f(st2, cell=cell, off=off, hd=hd, T=T):
                    x = st2.now(cell)
                    n = st2.idx + off
                    if isinstance(x, list):
                        if not x:
                            return n == 0 if not hd else None
                        x = it.as_seq(x, it.ETS["orow"])
                    if x.et is not it.ETS["orow"]:
                        return None
                    it.path.assume(OTABLE.snoc(T, n - 1))
                    pre = OTABLE.sub(T, Z(0), n)
                    want = OTABLE.cat(OTABLE.unit(F), pre) if hd else pre
                    it.path.assume(OTABLE.ext(x.t, want))
                    return x.t == want
                out.append(("rows = %s first %d + idx" % ("header and" if hd else "", off), f))
    return out


class Sink:
    """csv writer of the dictionary writer: each row is kept as the sequence of its values"""


def sink_write(it, w, row):
    lst = it.collect(row, ("row", "writer"))
    x = it.as_seq(lst, it.ETS["obj"]).t if not isinstance(lst.f["v"], list) else OSEQ.empty
    for mp in it.ghost.get("maps", []):
        it.path.assume(OSEQ.ext(x, VALS(mp.uterm, it.ghost["F"], it.ghost["restval"])))
    if it.ghost.get("F") is not None:
        it.path.assume(OSEQ.ext(x, it.ghost["F"]))
    if it.path.choose(2) == 1:
        raise cio.any_exception(it, ["StopIteration"])
    o = w.out
    if isinstance(o, Obj) and o.cls is W.FILE and it.getf(o, "closed") is not False:
        raise it.exc("ValueError", "I/O operation on closed file")
    it.list_append(w.rows, it.seq_list(Seq(it.ETS["obj"], x), frozen=True))


cio_sink = cio.sink_write


class DictContract(Contract):
    must_reach = ("return", "raise")
    templates = [cmap.map_templates, row_templates, extra_templates, tab_templates]
    budget = 300

    def axioms(self):
        return list(axioms())

    def setup(self, it):
        cmap.prepare(it)
        it.ghost["sink"] = sink_write
        self.out = it.fresh("obj", "f")
        self.F = it.path.fresh("F", OSEQ.sort)
        self.rv = it.fresh("obj", "restval") if it.path.choose(2) == 1 else ""
        it.ghost["F"], it.ghost["restval"] = self.F, cmap.kt(it, self.rv)
        it.ghost["consts"] = [it.ghost["restval"]]
        self.action = it.fresh("str", "extrasaction") if it.path.choose(2) == 1 else "raise"
        return self.args(it)

    def make(self, it):
        cls = it.resolve(DW)
        kw = {"dialect": it.fresh("obj", "dialect")}
        it.path.assume(z3.Not(smt.obj_is_none(kw["dialect"].t)))
        if self.rv != "":
            kw["restval"] = self.rv
        if self.action != "raise":
            kw["extrasaction"] = self.action
        fields = it.seq_list(Seq(it.ETS["obj"], self.F), frozen=True)
        return it.call(cls, [self.out, fields], kw)

    def modes(self, it):
        """(raise, ignore) as formulas"""
        low = smt.lower(it.term(self.action, "str"))
        return (z3.BoolVal(True) if self.action == "raise" else low == it.term("raise", "str"),
                z3.BoolVal(False) if self.action == "raise" else low == it.term("ignore", "str"))

    def args(self, it):
        return {}

    def rows(self, it):
        ws = it.ghost.get("writers", [])
        it.path.check(z3.BoolVal(len(ws) == 1 and ws[0].out is self.out), "one writer, on the caller's file")
        v = it.getf(ws[0].rows, "v")
        return OTABLE.empty if isinstance(v, list) and not v else it.as_seq(v).t


class Construct(DictContract):
    key = DW + ".__init__"

    def body(self, it, args):
        return self.make(it)

    def post(self, it, args, kind, v):
        r, i = self.modes(it)
        if kind == "raise":
            if v.cls != "anyexc":
                it.path.check(z3.And(z3.BoolVal(v.cls is B["ValueError"]), z3.Not(z3.Or(r, i))), "ValueError only for an unknown extrasaction")
        else:
            it.path.check(z3.Or(r, i), "an unknown extrasaction is refused")


class Header(DictContract):
    key = DW + ".writeheader"

    def body(self, it, args):
        try:
            w = self.make(it)
        except PyExc:
            raise smt.PathEnd()
        return it.call(it.getattr(w, "writeheader"), [], {})

    def post(self, it, args, kind, v):
        x = self.rows(it)
        if kind == "raise":
            it.path.check(z3.And(z3.BoolVal(v.cls == "anyexc"), OTABLE.len(x) == 0), "the header is refused only by the file or the csv module")
            return
        it.path.assume(OSEQ.ext(OTABLE.at(x, 0), self.F))
        it.path.check(z3.And(OTABLE.len(x) == 1, OTABLE.at(x, 0) == self.F), "the header row is the field names in order")


class WriteRow(DictContract):
    key = DW + ".writerow"

    def args(self, it):
        self.m = it.path.fresh("m", U)
        return {}

    def body(self, it, args):
        try:
            w = self.make(it)
        except PyExc:
            raise smt.PathEnd()
        return it.call(it.getattr(w, "writerow"), [cmap.wrap_map(it, self.m)], {})

    def post(self, it, args, kind, v):
        x = self.rows(it)
        r, i = self.modes(it)
        k = it.path.fresh("k", U)
        q = z3.Const("q!wr", U)
        L = cmap.LO["obj"](self.F, OSEQ.len(self.F), q)
        extras = z3.Not(smt.forall([q], z3.Implies(z3.Select(cmap.HASF(self.m), q), L >= 0), patterns=[z3.Select(cmap.HASF(self.m), q)]))
        if kind == "raise":
            it.path.check(OTABLE.len(x) == 0, "nothing of a refused row is written")
            if v.cls != "anyexc":
                it.path.check(z3.And(z3.BoolVal(v.cls is B["ValueError"]), r), "ValueError only when extras are refused")
                it.path.check(extras, "ValueError only for a mapping with an unknown key")
            return
        it.path.check(z3.Not(z3.And(r, extra_in(self.m, self.F, k))), "a mapping with an unknown key is refused")
        want = VALS(self.m, self.F, it.ghost["restval"])
        it.path.assume(OSEQ.ext(OTABLE.at(x, 0), want))
        it.path.check(z3.And(OTABLE.len(x) == 1, OTABLE.at(x, 0) == want), "one row with each field's value, or the rest value, in field order")


class WriteRows(DictContract):
    key = DW + ".writerows"

    def args(self, it):
        self.M = it.path.fresh("M", OSEQ.sort)
        it.ghost["M"] = self.M
        items = it.seq_list(Seq(it.ETS["mapobj"], self.M), frozen=True)
        if it.path.choose(2) == 1:
            items = Obj(it, "iterator", {"src": items, "pos": 0})
        self.items = items
        return {}

    def body(self, it, args):
        try:
            w = self.make(it)
        except PyExc:
            raise smt.PathEnd()
        return it.call(it.getattr(w, "writerows"), [self.items], {})

    def post(self, it, args, kind, v):
        x = self.rows(it)
        T = TAB(self.M, self.F, it.ghost["restval"])
        it.path.assume(OTABLE.ext(x, OTABLE.sub(T, Z(0), OTABLE.len(x))))
        if kind == "raise":
            it.path.check(z3.And(OTABLE.len(x) <= OTABLE.len(T), x == OTABLE.sub(T, Z(0), OTABLE.len(x))), "the rows before the refused one are written, nothing else")
            return
        it.path.check(x == T, "one row per mapping, in order and complete")


class WriteDicts(DictContract):
    key = "clevercsv.wrappers.write_dicts"

    def setup(self, it):
        cmap.prepare(it)
        it.ghost["sink"] = sink_write
        self.M = it.path.fresh("M", OSEQ.sort)
        first = OSEQ.at(self.M, 0)
        self.F = cmap.KEYSF(first)
        self.rv = ""
        it.ghost.update(M=self.M, F=self.F, restval=cmap.kt(it, ""), consts=[cmap.kt(it, "")])
        items = it.seq_list(Seq(it.ETS["mapobj"], self.M), frozen=True)
        if it.path.choose(2) == 1:
            items = Obj(it, "iterator", {"src": items, "pos": 0})
        self.path_ = it.fresh("str", "filename")
        self.enc = it.fresh("str", "encoding") if it.path.choose(2) == 1 else None
        if self.enc is not None:
            it.path.assume(STR.len(self.enc.t) > 0)
        self.dialect = it.fresh("obj", "dialect") if it.path.choose(2) == 1 else "excel"
        if self.dialect != "excel":
            it.path.assume(z3.Not(smt.obj_is_none(self.dialect.t)))
        return {"items": items, "filename": self.path_, "dialect": self.dialect, "encoding": self.enc}

    def body(self, it, args):
        return Contract.body(self, it, args)

    def post(self, it, args, kind, v):
        p = self.path_.t
        it.path.check(only_changed(it, p), "no other file is changed")
        n = OSEQ.len(self.M)
        if kind == "raise":
            if v.cls is B["ValueError"]:
                ks = [extra_in(m.uterm, self.F, z3.Const("q!e", U)) for m in it.ghost.get("maps", [])]
            return
        if it.path.decide(n == 0):
            it.path.check(cio.fs_same(it), "no file is created when there are no mappings")
            return
        fs = it.ghost.get("files", [])
        it.path.check(z3.BoolVal(len(fs) == 1 and fs[0].f["newline"] == "" and fs[0].f["errors"] is None), "the file is opened once, without newline translation")
        ws = it.ghost.get("writers", [])
        it.path.check(z3.BoolVal(len(ws) == 1), "one writer is used")
        rows = it.getf(ws[0].rows, "v")
        x = OTABLE.empty if isinstance(rows, list) and not rows else it.as_seq(rows).t
        enc = W.enc_of(self.enc.t) if self.enc is not None else W.enc_none
        d = self.dialect.t if self.dialect != "excel" else smt.box_str(it.term("excel", "str"))
        it.path.check(W.fs_get(it, p) == W.encode(enc, cio.TEXT["orow"](d, x)), "the file holds the rows written in the dialect and encoding")
        want = OTABLE.cat(OTABLE.unit(self.F), TAB(self.M, self.F, it.ghost["restval"]))
        it.path.assume(OTABLE.ext(x, want))
        it.path.check(x == want, "the header and one row per mapping, in order and complete")


ASSUMED = dict(cio.ASSUMED)
CONTRACTS = [Construct(), Header(), WriteRow(), WriteRows(), WriteDicts()] + cio.WRITER_CONTRACTS
TRUSTED = [W.TRUST_FILES, cio.TRUST_IO, "mappings: keys, get and membership behave as for dict; keys and field names are hashable and not changed during the call",
           "str.lower: an uninterpreted function"]
from engine.pysym import PyExc
