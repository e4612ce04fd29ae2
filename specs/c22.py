"""C22: detection is deterministic.

Every function detection consists of is pure (engine/purity.py): its outcome depends on its arguments, never on
the order of a set, on hashes, on the outside world or on state kept from earlier calls; where the order of a set is
used (candidates), the postcondition determines the result all the same.  ConsistencyDetector.detect: the outcome is a
function of the sample, the set of candidates and the options.  Detector.detect: so is that of the whole."""
import z3
from engine import contracts as CT, smt
from engine.contracts import Contract
from engine.models import Model
from engine.purity import Pure, Watch
from engine.smt import STR, ROW, DSEQ, U, DIALECT
from engine.vals import *
from specs import c04, c07, c08, c09, c10, c11, c20, ctie

CD = c08.CD
LIM = "parsing during detection does not depend on the field size limit in force before"


def limit_set(it):
    it.path.check(z3.BoolVal(it.ghost.get("limit") is not None), LIM)


class FieldLimit:
    """contract of field_size_limit (C04)"""

    def apply(self, it, f, args):
        vals = [x for v in args.values() for x in (v if isinstance(v, tuple) else (v,))]
        if vals:
            t = it.term(vals[0], "int")
            it.ghost["limit"] = None if depends_on(t, it.ghost.get("limits0", [])) else t
        r = it.fresh("int", "limit")
        it.ghost.setdefault("limits0", []).append(r.t)
        return r


def depends_on(t, consts):
    ids = {c.get_id() for c in consts}
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in ids:
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo += x.children()
    return False


class TypeScore(c08.TypeScore):
    def apply(self, it, f, args):
        limit_set(it)
        return c08.TypeScore.apply(self, it, f, args)


class TieBreaker(c08.TieBreaker):
    def apply(self, it, f, args):
        limit_set(it)
        return c08.TieBreaker.apply(self, it, f, args)


_fixed = {}


def candidates_in_fixed_order():
    """get_dialects itself gives its candidates in an order that depends on its arguments only"""
    if "r" not in _fixed:
        class Ordered(Pure):
            def post(self, it, args, kind, v):
                it.mono = None
                it.path.check(z3.BoolVal(not self.watch.ordered), "order")
        base = next(c for c in c07.PARTS if c.key.endswith(".get_dialects"))
        r = CT.verify(Ordered(base), {})
        _fixed["r"] = not r.failed and not r.unsupported and not r.error and r.complete > 0
    return _fixed["r"]


class Detect(c08.Detect):
    """the candidates are sorted before their order can matter"""
    must_reach = ("return", "raise")
    label = CD + ".detect: the outcome does not depend on the order of the candidates"
    assumed = dict(c08.ASSUMED, **{CD + ".compute_type_score": TypeScore(), "clevercsv.break_ties.tie_breaker": TieBreaker(),
                                   "clevercsv.cparser_util.field_size_limit": FieldLimit()})

    def post(self, it, args, kind, v):
        C = it.path.check
        if kind == "raise":
            C(UNREAD(self.data), "detection fails only when the sample cannot be parsed")
            return
        ties = it.ghost.get("ties", [])
        ms = it.ghost.get("smaps", [])
        if len(ms) != 1 or len(ties) > 1:
            raise Unsupported("%d score maps" % len(ms))
        c = self.cand
        s = ms[0].f["keys"].t
        for x in (c, c08.SORTED(c)):
            it.path.assume(DSEQ.ext(s, x))
        n = DSEQ.len(c)
        if it.path.decide(s == c08.SORTED(c)):
            src = c08.SORTED(c)
        elif candidates_in_fixed_order():
            src = c
        elif ties and it.path.decide(z3.And(s == c, ties[0] == c08.SORTED(c08.BEST(self.data.t, c, c08.TM(self.data.t, c, n), n)))):
            return
        else:
            C(n <= 1, "the candidates come in a fixed order before their order can matter")
            return
        c08.assume_sorted(it, c)
        m = c08.TM(self.data.t, src, n)
        b = c08.BEST(self.data.t, src, m, n)
        it.path.assume(z3.And(c08.upper(self.data.t, src, n), c08.members(self.data.t, src, m, n)))
        it.path.assume(z3.And(c08.unfold(self.data.t, src, z3.IntVal(0), m), z3.Implies(n == 0, src == DSEQ.empty)))
        one = DSEQ.len(b) == 1
        if v is None:
            C(z3.And(z3.Not(one), z3.Not(c08.TIEN(self.data.t, b))), "the outcome is determined by the sample and the set of candidates")
            return
        if not (isinstance(v, Obj) and isinstance(v.cls, ClassVal) and v.cls.name == "SimpleDialect"):
            raise Unsupported("result %r" % (v,))
        r = it.ETS["dialect"].unwrap(v)
        C(z3.Or(z3.And(one, r == DSEQ.at(b, z3.IntVal(0))), r == c08.TIE(self.data.t, b)), "the outcome is determined by the sample and the set of candidates")


def UNREAD(d):
    return c08.UNREADABLE(d.t)


# ---------------------------------------------------------------- the whole
S_ = STR.sort
RS = ROW.sort
SETOF = z3.Function("as_set", RS, z3.ArraySort(S_, z3.BoolSort()))
LISTED = z3.Function("set_in_some_order", z3.ArraySort(S_, z3.BoolSort()), z3.IntSort(), RS)
SORTSET = z3.Function("sorted_set", z3.ArraySort(S_, z3.BoolSort()), RS)
KIND = ("no delimiters", "a list", "a generator", "a set", "a frozenset")


class Step:
    """contract of a detection step: an outcome that is a function of its arguments (of the allowed delimiters as a set when asset)"""

    def __init__(self, name, data, asset=False):
        self.name, self.data, self.asset = name, data, asset

    def apply(self, it, f, args):
        con = it.con
        text, ds = args[self.data], args.get("delimiters")
        if kind_of(text) != "str":
            raise Unsupported("sample %r" % (text,))
        if ds is None:
            given, row = z3.BoolVal(False), z3.Const("no_row", RS)
        elif isinstance(ds, SetObj) or isinstance(ds, Obj) and not isinstance(ds, ListObj):
            raise Unsupported("delimiters handed on as %r" % (ds,))
        else:
            given, row = z3.BoolVal(True), c07.row_of(it, ds)
        opts = []
        for k in sorted(args):
            if k in (self.data, "delimiters", "self") or args[k] is None:
                continue
            if k == "verbose":
                continue
            if kind_of(args[k]) == "str" and not isinstance(args[k], str):
                raise Unsupported("option " + k)
            opts.append("%s=%s" % (k, args[k]) if not isinstance(args[k], S) else k)
        if self.asset:
            row = con.as_set(row)
        F = z3.Function("%s(%s)" % (self.name, ",".join(opts)), S_, z3.BoolSort(), row.sort(), DIALECT)
        N = z3.Function("%s(%s) finds one" % (self.name, ",".join(opts)), S_, z3.BoolSort(), row.sort(), z3.BoolSort())
        a = (it.term(text, "str"), given, row)
        it.path.check(z3.BoolVal(not any(depends_on(x, con.orders) for x in a)), "the order of a set is not used")
        con.calls.append(self.name)
        if not it.path.decide(N(*a)):
            return None
        return it.ETS["dialect"].wrap(it, F(*a))


class ConsClass:
    """contract of ConsistencyDetector: a detector whose outcome depends on its options, the sample and the delimiters"""

    def construct(self, it, cls, args, kw):
        names = ("skip", "verbose", "cache_capacity")
        o = dict(zip(names, args))
        o.update(kw)
        o.pop("verbose", None)
        o.pop("cache_capacity", None)
        if set(o) - {"skip"} or "skip" in o and not (isinstance(o["skip"], bool) or o["skip"] is it.con.skip):
            raise Unsupported("options of the detector")
        if o.get("skip", True) is True:
            o = {}

        def det(it2, obj, a, k):
            k = dict(zip(("data", "delimiters"), a), **k)
            return Step("consistency", "data", True).apply(it2, None, dict(k, **o))
        return Obj(it, Model("ConsistencyDetector", {"detect": det}), {})


class Whole(Contract):
    """two calls, the second one on a detector with a past and with the delimiters of the set in another order"""
    must_reach = ("return",)
    budget = 200

    def __init__(self, key, data, how=()):
        self.key, self.data_name, self.how = key, data, how
        self.label = key + ": the outcome depends on sample, delimiters and options only"
        self.assumed = {"clevercsv.normal_form.detect_dialect_normal": Step("normal form", "data"), "class:" + CD: ConsClass()}

    def setup(self, it):
        c07.prepare(it)
        self.data = it.fresh("str", "sample")
        self.skip = it.fresh("bool", "skip")
        self.calls = []
        self.kind = KIND[it.path.choose(len(KIND))]
        self.row = it.path.fresh("allowed", RS)
        self.mem = it.path.fresh("allowed_set", z3.ArraySort(S_, z3.BoolSort()))
        self.method = None
        if "method" in self.how:
            k = it.path.choose(4)
            self.method = ("", "auto", "normal", "consistency")[k] or None
        it.ghost["sorted"] = self.sorted_hook
        it.ghost["collect_set"] = self.listed
        self.orders = []
        cls, _, m = self.key.rpartition(".")
        self.obj = it.call(it.resolve(cls), [], {}) if self.key.count(".") > 2 else None
        if self.obj is not None and it.path.choose(2) == 1:
            self.run(it, it.fresh("str", "earlier sample"), ("auto", "normal", "consistency")[it.path.choose(3)] if "method" in self.how else None)
        it.mono = self.watch = Watch(self, it.heap_n)
        self.R, self.W = set(), set()
        return {}

    def sorted_hook(self, it, a, kw):
        if kw or not isinstance(a[0], SetObj):
            return None
        s = it.getf(a[0], "v")
        if not (isinstance(s, SymSet) and s.mem is self.mem):
            return None
        return it.seq_list(Seq(it.ETS["str"], SORTSET(self.mem)))

    def listed(self, it, v):
        s = it.getf(v, "v")
        if not (isinstance(s, SymSet) and s.mem is self.mem):
            return None
        o = it.path.fresh("order", z3.IntSort())
        self.orders.append(o)
        return it.seq_list(Seq(it.ETS["str"], LISTED(self.mem, o)))

    def as_set(self, row):
        """the set of the elements of a list; that of a set in some order or sorted is the set"""
        if z3.is_app(row) and row.decl().name() in ("set_in_some_order", "sorted_set"):
            return row.arg(0)
        return SETOF(row)

    def run(self, it, data, method):
        ds = None
        if self.kind == "a set" or self.kind == "a frozenset":
            ds = SetObj(it, SymSet("str", self.mem))
            ds.immutable = self.kind == "a frozenset"
        elif self.kind != "no delimiters":
            ds = it.seq_list(Seq(it.ETS["str"], self.row), frozen=True)
            if self.kind == "a generator":
                ds = it.call(it.builtins["iter"], [ds], {})
        a = {self.data_name: data, "delimiters": ds, "verbose": it.fresh("bool", "verbose")}
        if "skip" in self.how:
            a["skip"] = self.skip
        if method:
            a["method"] = method
        f = it.resolve(self.key) if self.obj is None else it.getattr(self.obj, self.key.rpartition(".")[2])
        return it.call(f, [], a)

    def body(self, it, args):
        return self.run(it, self.data, self.method)

    def post(self, it, args, kind, v):
        w, it.mono = self.watch, None
        C = it.path.check
        C(z3.BoolVal(not w.ordered), "the order of a set is not used")
        both = sorted(self.R & self.W)
        C(z3.BoolVal(not both), "no state is kept for later calls" + (" (%s)" % ", ".join(both) if both else ""))
        if kind == "raise":
            raise Unsupported("detection raises")


PURE = ([c for c in ctie.CONTRACTS] + [c for c in c20.CONTRACTS if hasattr(c, "post")] +
        [c for c in c07.PARTS] + [c07.CONTRACTS[len(c07.PARTS)]])
for mod in (c09, c11, c04):
    for c in mod.CONTRACTS:
        if getattr(c, "file", None) or hasattr(c, "verify") or not hasattr(c, "post") or c.key == "clevercsv.cparser_util.field_size_limit":
            continue
        if getattr(c, "assumed", None) is None:
            c.assumed = mod.ASSUMED
        PURE.append(c)
PURE = [c for c in PURE if not type(c).__name__ in ("EqOther", "Validate", "Hash")]
PATTERN = c10.PatternScore()
PATTERN.timeout = c10.CONTRACTS[1].timeout
ENTRIES = [Whole("clevercsv.detect.Detector.detect", "sample", ("method", "skip")), Whole("clevercsv.detect.Detector.sniff", "sample"),
           Whole("clevercsv.consistency.detect_dialect_consistency", "data", ("skip",))]
ORDER = [c for c in c11.CONTRACTS if type(c).__name__ in ("Order", "Lt")]
ASSUMED = {}
for c in ORDER:
    if getattr(c, "assumed", None) is None and not hasattr(c, "verify"):
        c.assumed = c11.ASSUMED
det = Detect()
heavy = [c for c in PURE if c.key.endswith("get_dialects")]
CONTRACTS = [Pure(c, exact=True) for c in heavy] + [Pure(PATTERN, exact=False)] + [det, Pure(det, exact=False)] + [Pure(c, exact=c not in ctie.CONTRACTS and not isinstance(c, c09.Test)) for c in PURE if c not in heavy] + ENTRIES + ORDER
TRUSTED = ["sorted() of dialects depends on the set of dialects only: their order is a strict total order (lemma of C11, included)",
           "lru_cache is transparent; str, dict, list, re, json and unicodedata are functions of their arguments; dictionaries iterate in insertion order",
           "the C extensions are functions of their arguments and, for the parser, of the field size limit (C01, C04, C10)",
           "sample, delimiters and the objects inside them are not changed by others during the call"]
