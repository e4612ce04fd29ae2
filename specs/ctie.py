"""Ties (C08): each tie-breaking function gives nothing or one of the dialects it was given."""
import z3
from engine import smt
from engine.contracts import Contract
from engine.smt import STR, DSEQ, DIALECT, TABLE
from engine.vals import *

BT = "clevercsv.break_ties."
PARSED = z3.Function("parsed_sample", STR.sort, DIALECT, TABLE.sort)


def same(it, a, b):
    """the values are equal dialects"""
    E = it.ETS["dialect"]
    if not (isinstance(b, Obj) and isinstance(b.cls, ClassVal) and b.cls.name == "SimpleDialect"):
        return z3.BoolVal(False)
    return E.unwrap(a) == E.unwrap(b)


def of_sample(it, args):
    k = args["data"]
    it.path.check(it.term(k, "str") == it.con.data.t if kind_of(k) == "str" else z3.BoolVal(False), "ties are broken on the sample")


class Parse:
    """contract of parse_string on a sample that can be parsed (C01, C04): the rows, a function of sample and dialect"""

    def apply(self, it, f, args):
        of_sample(it, args)
        if args.get("return_quoted") not in (None, False):
            raise Unsupported("option return_quoted")
        return it.seq_list(Seq(it.ETS["row"], PARSED(it.con.data.t, it.ETS["dialect"].unwrap(args["dialect"]))))


class Chosen:
    """contract of break_ties_*: nothing, or one of the dialects given"""

    def __init__(self, names, listed=None):
        self.names, self.listed = names, listed

    def given(self, it, args):
        if not self.listed:
            return [args[n] for n in self.names]
        s = it.idx_source(args[self.names[0]])
        if s is None:
            raise Unsupported("dialects that are not a list")
        n = z3.IntVal(s.n) if isinstance(s.n, int) else s.n
        it.path.check(z3.Or(*[n == k for k in self.listed]), "the number of dialects handed on")
        for k in self.listed:
            if it.path.decide(n == k):
                return [s.get(it, z3.IntVal(j) if not isinstance(s.n, int) else j) for j in range(k)]

    def apply(self, it, f, args):
        of_sample(it, args)
        ds = self.given(it, args)
        for d in ds:
            it.path.check(it.con.among(it, d), "the dialects handed on are among those given")
        k = it.path.choose(len(ds) + 1)
        return None if k == len(ds) else ds[k]


class Reduced(Chosen):
    """contract of reduce_pairwise: nothing, or some of the dialects given, in that order"""

    def apply(self, it, f, args):
        of_sample(it, args)
        ds = self.given(it, args)
        for d in ds:
            it.path.check(it.con.among(it, d), "the dialects handed on are among those given")
        if it.path.choose(2) == 0:
            return None
        return it.new_list([d for d in ds if it.path.choose(2) == 1])


class Tie(Contract):
    must_reach = ("return",)
    budget = 300

    def __init__(self, name, n, listed, what="dialect"):
        self.key, self.n, self.listed, self.what = BT + name, n, listed, what
        self.label = "%s (%d dialects)" % (self.key, n) if listed and n else self.key

    def axioms(self):
        return list(smt.opt_axioms())

    def setup(self, it):
        self.data = it.fresh("str", "data")
        E = it.ETS["dialect"]
        self.seq = None
        if self.n is None:          # any number
            self.seq = it.path.fresh("dialects", DSEQ.sort)
            return {}
        ts = [it.path.fresh("d%d" % k, DIALECT) for k in range(self.n)]
        self.ds = [E.wrap(it, t) for t in ts]
        if self.n > 1:
            it.path.assume(z3.Distinct(*ts))
        return {}

    def body(self, it, args):
        f = it.resolve(self.key)
        if self.seq is not None:
            return it.call(f, [self.data, it.seq_list(Seq(it.ETS["dialect"], self.seq), frozen=True)], {})
        return it.call(f, [self.data] + ([it.new_list(self.ds)] if self.listed else self.ds), {})

    def among(self, it, v):
        if self.seq is None:
            return z3.Or(*[same(it, d, v) for d in self.ds])
        if not (isinstance(v, Obj) and isinstance(v.cls, ClassVal) and v.cls.name == "SimpleDialect"):
            return z3.BoolVal(False)
        t = it.ETS["dialect"].unwrap(v)
        k = z3.Int("k!am")
        first = z3.Or(*[z3.And(j < DSEQ.len(self.seq), DSEQ.at(self.seq, z3.IntVal(j)) == t) for j in range(5)])
        return z3.Or(first, z3.Exists([k], z3.And(0 <= k, k < DSEQ.len(self.seq), DSEQ.at(self.seq, k) == t)))

    def post(self, it, args, kind, v):
        C = it.path.check
        if kind == "raise":
            C(z3.BoolVal(False), "breaking ties does not fail")
        elif v is None:
            C(z3.BoolVal(True), "the tie is not broken")
        elif self.what == "dialect":
            C(self.among(it, v), "the dialect chosen is one of those given")
        else:
            s = it.idx_source(v)
            if s is None or not isinstance(s.n, int):
                raise Unsupported("result of unknown length")
            for k in range(s.n):
                C(self.among(it, s.get(it, k)), "the dialects kept are among those given")


ASSUMED = {"clevercsv.cparser_util.parse_string": Parse(), BT + "break_ties_two": Chosen(["A", "B"]), BT + "break_ties_three": Chosen(["A", "B", "C"]),
           BT + "break_ties_four": Chosen(["dialects"], (4,)), BT + "reduce_pairwise": Reduced(["dialects"], (3, 4))}
CONTRACTS = [Tie("break_ties_two", 2, False), Tie("break_ties_three", 3, False), Tie("break_ties_four", 4, True),
             Tie("reduce_pairwise", 3, True, "list"), Tie("reduce_pairwise", 4, True, "list"), Tie("tie_breaker", None, True)]
for c in CONTRACTS:
    c.assumed = {k: v for k, v in ASSUMED.items() if k != c.key}
