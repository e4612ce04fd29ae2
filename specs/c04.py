"""C04: the field size limit is enforced exactly."""
import z3
from engine import smt
from engine import csvlib as L
from engine.contracts import Contract, without
from engine.models import B, EXT
from engine.smt import STR
from engine.vals import *
from engine.capi import TRUST_CAPI, TRUST_CFRONT
from specs.c11 import NAMES, dialect
from specs import cpars
from specs.cpars import AddChar, ParserNew, ProcessChar, SaveField, SetLong

MOD, VAR = "clevercsv.cparser_util", "_FIELD_SIZE_LIMIT"


def set_limit(it):
    lim = it.fresh("int", "limit0")
    it.module(MOD)
    it.mod_frames[MOD].f[VAR] = lim
    return lim


class FieldSizeLimit(Contract):
    key = "clevercsv.cparser_util.field_size_limit"
    must_reach = ("return", "raise")

    def setup(self, it):
        self.lim = set_limit(it)
        kind = it.path.choose(6)
        mk = [lambda: it.fresh("int", "new"), lambda: it.fresh("bool", "new"), lambda: it.fresh("str", "new"), lambda: None,
              lambda: it.fresh("flt", "new"), lambda: it.new_list([])][kind]
        shape = it.path.choose(4)
        self.valid, self.new = False, None
        if shape == 0:
            self.a, self.kw, self.valid = [], {}, True
        elif shape == 3:
            self.a, self.kw = [mk(), mk()], {}
        else:
            v = mk()
            self.a, self.kw = ([v], {}) if shape == 1 else ([], {"new_limit": v})
            if kind in (0, 1):
                self.valid, self.new = True, v
        return {}

    def body(self, it, args):
        return it.call(it.resolve(self.key), self.a, self.kw)

    def now(self, it):
        saved = it.call(it.resolve(self.key), [], {})
        return it.term(saved, "int")

    def post(self, it, args, kind, v):
        now = self.now(it)
        if kind == "raise":
            it.path.check(z3.BoolVal(not self.valid), "a valid call is never rejected")
            it.path.check(z3.BoolVal(v.cls is B["TypeError"]), "an invalid call is rejected with TypeError")
            it.path.check(now == self.lim.t, "a rejected call changes nothing")
            return
        it.path.check(z3.BoolVal(self.valid), "only one integer can be set")
        it.path.check(it.term(v, "int") == self.lim.t, "the previous limit is returned")
        if self.new is None:
            it.path.check(now == self.lim.t, "reading the limit changes nothing")
        else:
            it.path.check(now == it.term(self.new, "int"), "the limit is set to the given value")


def str_input(it):
    return it.fresh("obj", "data")


class ParseData(Contract):
    """dialect, overrides and limit reach the parser; its rows come out unchanged"""
    key = "clevercsv.cparser_util.parse_data"
    must_reach = ("return", "raise")
    templates = [L.parser_templates]
    budget = 300

    def setup(self, it):
        self.lim = set_limit(it)
        self.created = []
        it.ghost["parser_created"] = lambda it2, o: self.created.append(o)
        self.d = None
        if it.path.choose(2) == 0:
            self.d = dialect(it, "d", none=False)
            for c in self.d.comp[:3]:
                it.path.assume(STR.len(c.t) <= 1)
        self.data = str_input(it)
        kw = {"data": self.data, "dialect": self.d, "return_quoted": it.path.choose(2) == 1}
        self.want = list(self.d.comp) if self.d is not None else ["", "", "", False]
        for i, n in enumerate(NAMES + ("strict",)):
            if it.path.choose(2) == 1:
                v = it.fresh("bool" if n == "strict" else "str", "over_" + n)
                if n != "strict":
                    it.path.assume(STR.len(v.t) <= 1)
                kw[n] = v
                self.want[i] = v
        self.rq = kw["return_quoted"]
        return kw

    def input_term(self, it):
        return self.data.t

    def body(self, it, args):
        g = it.call(it.resolve(self.key), [], args)
        self.out = ListObj(it, [])
        it.iterate(g, lambda e: it.list_append(self.out, e), ("consumer",))

    def post(self, it, args, kind, v):
        it.path.check(z3.BoolVal(len(self.created) == 1), "the data is parsed once")
        o = self.created[0]
        it.path.check(o.args[0] == self.input_term(it), "the data given is what is parsed")
        conj = []
        for g, w in zip(o.args[1:5], self.want):
            w = z3.BoolVal(w) if isinstance(w, bool) else it.term(w)
            if g.sort() == STR.sort:
                it.path.assume(STR.ext(g, w))
            conj.append(g == w)
        it.path.check(z3.And(*conj), "the parser uses the dialect with exactly the given overrides")
        it.path.check(o.args[5] == self.lim.t, "the parser uses the field size limit in force when it is created")
        it.path.check(z3.BoolVal(o.rq is self.rq), "quoted flags are returned exactly when asked for")
        th = o.table.et.th
        x = it.getf(self.out, "v")
        if isinstance(x, list) and not x:
            it.path.check(th.len(o.table.t) == 0, "every row is delivered")
        else:
            s = it.as_seq(x)
            it.path.assume(th.ext(s.t, o.table.t))
            it.path.check(s.t == o.table.t if s.et is o.table.et else z3.BoolVal(False), "every row is delivered, unchanged and in order")
        if kind == "return":
            it.path.check(z3.Not(o.fails), "a parse failure is not swallowed")
        else:
            it.path.check(o.fails, "no failure is invented")
            it.path.check(z3.BoolVal(v.cls == "anyexc" or v.cls is it.resolve("clevercsv.exceptions.Error")), "parse failures surface as the package's Error")


class ParseString(ParseData):
    key = "clevercsv.cparser_util.parse_string"

    def setup(self, it):
        self.lim = set_limit(it)
        self.created = []
        it.ghost["parser_created"] = lambda it2, o: self.created.append(o)
        self.d = dialect(it, "d", none=False)
        for c in self.d.comp[:3]:
            it.path.assume(STR.len(c.t) <= 1)
        self.data = it.fresh("str", "data")
        self.want = list(self.d.comp)
        self.rq = it.path.choose(2) == 1
        return {"data": self.data, "dialect": self.d, "return_quoted": self.rq}

    def input_term(self, it):
        return L.input_of_str(self.data.t)


ASSUMED = {}
# which characters are collected and where cells end is the grammar's: C01
GRAMMAR = ("what the grammar refuses", "the next state follows", "the collected text follows", "opening and closing quotes", "cells are completed",
           "a doubled quote is entered", "the cell is the collected text", "the cell is flagged", "earlier cells", "exactly one cell",
           "exactly that character", "delimiter is", "quotechar is", "escapechar is", "strict is", "return_quoted is", "lines come from",
           "every row is delivered", "quoted flags are", "the parser uses the dialect", "a parse failure is not swallowed", "the data given is what")
CONTRACTS = [FieldSizeLimit()] + [without(c, *GRAMMAR, *cpars.LEAKS) for c in (ParseData(), ParseString(), AddChar(), SaveField(), ProcessChar(), SetLong(), ParserNew())]
TRUSTED = [TRUST_CAPI, TRUST_CFRONT, L.TRUST_PARSER, "io.StringIO(text, newline='') delivers the lines of the text with their line ends"]
