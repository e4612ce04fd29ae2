"""C06: reader: dialect forms, overrides, iteration and line count."""
import z3
from engine import smt
from engine import csvlib as L
from engine.contracts import Contract
from engine.models import B, EXT
from engine.smt import STR
from engine.vals import *
from specs.c11 import KEY, NAMES, dialect
from specs.c12 import comps, is_dialect, untouched

RK = "clevercsv.read.reader"


def from_csv(d):
    """components a csv dialect converts to (specification)"""
    q = S("str", z3.If(d["quoting"].t == L.QUOTING["QUOTE_NONE"], STR.empty, d["quotechar"].t)) if d["quotechar"] is not None else ""
    return [d["delimiter"] if d["delimiter"] is not None else "", q, d["escapechar"] if d["escapechar"] is not None else "", d["strict"]]


class MakeSimple(Contract):
    """the dialect a reader works with"""
    must_reach = ("return", "raise")
    budget = 300

    def __init__(self, form, keys):
        self.form, self.keys = form, keys
        self.key = RK + ".__init__"
        self.label = "%s.__init__ (%s dialect, overriding %s)" % (RK, form, ", ".join(keys) or "nothing")
        if form == "unknown":
            self.must_reach = ("raise",)

    def setup(self, it):
        self.base, self.check_same = None, lambda: z3.BoolVal(True)
        f = self.form
        if f == "simple":
            d = dialect(it, "d")
            self.base, self.check_same = d.comp, lambda: untouched(it, d)
        elif f == "csv":
            d, m = L.csv_dialect(it, "d")
            self.base, self.check_same = from_csv(m), lambda: L.unchanged(it, d, m)
        elif f == "name":
            d = it.fresh("str", "name")
            self.known, self.asked = True, None

            def get(it2, name):
                self.asked = name
                if it2.path.choose(2) == 1:
                    self.known = False
                    raise it2.exc("csv.Error") if False else __import__("engine.pysym", fromlist=["PyExc"]).PyExc(Obj(it2, L.CSVERR, {"args": ()}))
                o, m = L.csv_dialect(it2, "r")
                self.base, self.check_same = from_csv(m), lambda: L.unchanged(it2, o, m)
                return o
            it.ghost["get_dialect"] = get
            self.name = d
        else:
            d = [None, it.fresh("int", "d"), DictObj(it, [])][it.path.choose(3)]
        self.over = {}
        for k in self.keys:
            c = it.path.choose(3 if f == "simple" else 2)
            if f != "simple":
                c = 2 * c
            if c == 0:
                self.over[k] = it.fresh("bool" if k == "strict" else "str", "over_" + k)
            elif c == 1:
                self.over[k] = None
        kw = dict(self.over)
        if self.keys and f != "simple" and it.path.choose(2) == 1:
            kw["skipinitialspace"] = it.fresh("bool", "other")
        self.src = it.fresh("obj", "csvfile")
        return {"csvfile": self.src, "dialect": d, "kw": kw}

    def body(self, it, args):
        return it.call(it.resolve(RK), [args["csvfile"], args["dialect"]], args["kw"])

    def post(self, it, args, kind, v):
        ok = None
        if self.base is not None:
            want = list(self.base)
            for i, n in enumerate(NAMES + ("strict",)):
                if n in self.over:
                    want[i] = self.over[n]
            valid = []
            for w in want[:3]:
                valid.append(STR.len(it.term(w, "str")) <= 1 if kind_of(w) == "str" else z3.BoolVal(False))
            valid.append(z3.BoolVal(kind_of(want[3]) == "bool"))
            ok = z3.And(*valid)
        it.path.check(self.check_same(), "the caller's dialect is not modified")
        if kind == "raise":
            if self.form == "unknown":
                it.path.check(z3.BoolVal(v.cls is B["ValueError"]), "an unknown dialect type is refused with ValueError")
            elif ok is None:
                it.path.check(z3.BoolVal(v.cls is L.CSVERR), "only an unregistered name has no dialect")
            else:
                it.path.check(z3.Not(ok), "every valid dialect is accepted")
                it.path.check(z3.BoolVal(v.cls is B["ValueError"]), "an invalid dialect is refused with ValueError")
            return
        it.path.check(ok if ok is not None else z3.BoolVal(False), "an invalid dialect is not accepted")
        if ok is None:
            return
        if self.form == "name":
            it.path.check(it.eq(self.asked, self.name) if self.asked is not None else z3.BoolVal(False), "the dialect registered under that very name is used")
        created = []
        it.ghost["parser_created"] = lambda it2, o: created.append(o)
        lim = it.fresh("int", "limit")
        it.module("clevercsv.cparser_util")
        it.mod_frames["clevercsv.cparser_util"].f["_FIELD_SIZE_LIMIT"] = lim
        ln = it.getattr(v, "line_num")
        it.path.check(it.eq(ln, 0) if kind_of(ln) == "int" else z3.BoolVal(False), "a new reader has returned no rows")
        it.call(B["iter"], [v], {})
        it.path.check(z3.BoolVal(len(created) == 1), "one parser reads the input")
        o = created[0]
        it.path.check(o.args[0] == self.src.t, "the parser reads the caller's input")
        conj = []
        for g, w in zip(o.args[1:5], want):
            w = it.term(w) if not isinstance(w, bool) else z3.BoolVal(w)
            if g.sort() == STR.sort:
                it.path.assume(STR.ext(g, w))
            conj.append(g == w)
        it.path.check(z3.And(*conj), "the parser uses the dialect with exactly the given overrides")
        it.path.check(o.args[5] == lim.t, "the parser uses the field size limit in force when it is created")
        it.path.check(z3.BoolVal(o.rq is False), "the reader yields plain cells")


def some_reader(it):
    """a reader that has already returned k rows"""
    d = dialect(it, "d", none=False)
    for c in d.comp[:3]:
        it.path.assume(STR.len(c.t) <= 1)
    r = it.call(it.resolve(RK), [it.fresh("obj", "csvfile"), d], {})
    created = []
    it.ghost["parser_created"] = lambda it2, o: created.append(o)
    r.created = created
    return r


class Next(Contract):
    key = RK + ".__next__"
    must_reach = ("return", "raise")
    MODE = "next"

    def setup(self, it):
        r = some_reader(it)
        self.k = z3.IntVal(0)
        started = it.path.choose(3)
        if started:
            # an iteration is under way: k rows returned so far
            it.call(B["iter"], [r], {})
            p = r.created[0]
            k = it.path.fresh("k", smt.I)
            th = p.table.et.th
            it.path.assume(z3.And(0 <= k, k <= th.len(p.table.t)))
            it.setf(p, "pos", S("int", k))
            it.setattr(r, "line_num", S("int", k))
            self.k = k
            if started == 2:
                it.call(B["iter"], [r], {})
        self.r = r
        return {"self": r}

    def body(self, it, args):
        return it.call(B["next"], [args["self"]], {})

    def post(self, it, args, kind, v):
        r, k = self.r, self.k
        it.path.check(z3.BoolVal(len(r.created) == 1), "one parser reads the input, however iteration is started")
        p = r.created[0]
        th = p.table.et.th
        n = th.len(p.table.t)
        ln = it.term(it.getattr(r, "line_num"), "int")
        pos = it.term(it.getf(p, "pos"))
        if kind == "return":
            it.path.check(k < n, "a row is returned only while there are rows")
            ok = isinstance(v, ListObj) and getattr(it.as_seq(v), "et", None) is it.ETS["str"]
            it.path.check(it.as_seq(v).t == th.at(p.table.t, k) if ok else z3.BoolVal(False), "the next row is returned")
            it.path.check(pos == k + 1, "exactly one row is consumed")
            it.path.check(ln == k + 1, "line_num counts the rows returned")
            return
        it.path.check(k == n, "rows are never skipped or refused")
        it.path.check(ln == n, "line_num counts the rows returned (at the end)")
        c = v.cls
        if c == "anyexc":
            it.path.check(p.fails, "an exception of the input passes through")
        elif c is B["StopIteration"]:
            it.path.check(z3.Not(p.fails), "iteration ends only when the rows end")
        else:
            it.path.check(z3.BoolVal(isinstance(c, ClassVal) and c is it.resolve("clevercsv.exceptions.Error")), "parse failures surface as the package's Error")
            it.path.check(p.fails, "an Error is raised only when parsing fails")


class IterNext(Next):
    key = RK + ".__iter__"
    label = RK + ".__iter__ followed by next()"

    def body(self, it, args):
        i = it.call(B["iter"], [args["self"]], {})
        return it.call(B["next"], [i], {})


class Loop(Contract):
    key = RK + ".__iter__"
    label = "for row in reader(...): every row once, in order"
    must_reach = ("return", "raise")
    templates = [L.parser_templates]

    def setup(self, it):
        r = some_reader(it)
        self.r = r
        return {"self": r}

    def body(self, it, args):
        out = ListObj(it, [])
        self.out = out
        it.iterate(args["self"], lambda e: it.list_append(out, e), ("forloop",))
        return out

    def post(self, it, args, kind, v):
        p = self.r.created[0]
        it.path.check(z3.BoolVal(len(self.r.created) == 1), "one parser reads the input")
        T = p.table
        x = it.getf(self.out, "v")
        th = T.et.th
        if isinstance(x, list) and not x:
            it.path.check(th.len(T.t) == 0, "all rows are delivered")
        else:
            s = it.as_seq(x)
            it.path.assume(th.ext(s.t, T.t))
            it.path.check(s.t == T.t, "all rows are delivered, once each, in order")
        ln = it.term(it.getattr(self.r, "line_num"), "int")
        it.path.check(ln == th.len(T.t), "line_num is the number of rows")
        if kind == "return":
            it.path.check(z3.Not(p.fails), "a parse failure is not swallowed")


ASSUMED = {}
CONTRACTS = [MakeSimple("simple", NAMES + ("strict",)), MakeSimple("csv", ()), MakeSimple("csv", ("delimiter", "quotechar")),
             MakeSimple("csv", ("escapechar", "strict")), MakeSimple("name", ()), MakeSimple("name", ("delimiter", "strict")),
             MakeSimple("unknown", ()), Next(), IterNext(), Loop()]
TRUSTED = [L.TRUST_CSV, L.TRUST_PARSER]
