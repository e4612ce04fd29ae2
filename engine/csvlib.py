"""Trusted contracts of the csv and json modules and of the C parser as the Python code sees it."""
import z3
from . import smt
from .smt import STR, ROW, TABLE, CTABLE, U, DIALECT, Unsupported
from .vals import *
from .models import Model, B, EXT, any_exception, OBJECT
from .pysym import PyExc

CSVERR = ClassVal("csv.Error", [B["Exception"]], {}, py=None)
CSVERR.py = type("CsvError", (Exception,), {})
QUOTING = {"QUOTE_MINIMAL": 0, "QUOTE_ALL": 1, "QUOTE_NONNUMERIC": 2, "QUOTE_NONE": 3}

DEFAULTS = {"_name": "", "_valid": False, "delimiter": None, "quotechar": None, "escapechar": None, "doublequote": None,
            "skipinitialspace": None, "lineterminator": None, "quoting": None}


def _dialect_init(it, a, kw):
    """csv.Dialect.__init__: accepts what _csv.Dialect accepts (a one-character delimiter, a one-character quotechar unless quoting is
    off, a line terminator), raises csv.Error or TypeError otherwise"""
    o = a[0]
    v = {n: it.getattr(o, n) for n in ("delimiter", "quotechar", "escapechar", "quoting", "lineterminator")}

    def one(x):
        return STR.len(it.term(x, "str")) == 1 if kind_of(x) == "str" else z3.BoolVal(False)
    ok = z3.And(one(v["delimiter"]), one(v["quotechar"]), z3.BoolVal(v["escapechar"] is None) if v["escapechar"] is None else one(v["escapechar"]),
                z3.BoolVal(kind_of(v["lineterminator"]) == "str"), z3.BoolVal(kind_of(v["quoting"]) == "int"))
    if it.path.decide(ok):
        if it.ghost.get("csv_dialect_total"):
            return None
        # characters that newer csv modules refuse (line ends, equal delimiter and quote character)
        if it.path.choose(2) == 1:
            raise PyExc(Obj(it, CSVERR, {"args": ()}))
        return None
    raise PyExc(Obj(it, CSVERR, {"args": ()}))


DIALECT_CLS = ClassVal("csv.Dialect", [OBJECT], dict(DEFAULTS, __init__=BuiltinFn("csv.Dialect.__init__", _dialect_init)))
C_DIALECT_CLS = ClassVal("_csv.Dialect", [OBJECT], {})


def csv_dialect(it, tag, strict="maybe"):
    """an arbitrary csv dialect object; returns (object, component map)"""
    d = {"delimiter": it.fresh("str", tag + "_delim"),
         "quotechar": it.fresh("str", tag + "_quote"),
         "escapechar": it.fresh("str", tag + "_esc"),
         "quoting": it.fresh("int", tag + "_quoting"),
         "strict": it.fresh("bool", tag + "_strict")}
    if it.path.choose(2) == 1:
        d["escapechar"] = None
    if it.path.choose(2) == 1:
        d["delimiter"] = None
    if it.path.choose(2) == 1:
        d["quotechar"] = None
        it.path.assume(d["quoting"].t == QUOTING["QUOTE_NONE"])
    form = it.path.choose(3)
    o = None
    if form == 0:               # _csv.Dialect instance (what csv.get_dialect returns)
        o = Obj(it, C_DIALECT_CLS, dict(d))
    else:
        ns = {k: v for k, v in d.items()}
        if it.path.choose(2) == 1:
            del ns["strict"]
            d["strict"] = False
        cls = ClassVal("userdialect", [DIALECT_CLS], ns)
        if form == 1:
            o = cls
        else:
            o = Obj(it, cls, {})
    return o, d


def unchanged(it, o, d):
    """the csv dialect object still has the attributes it was made with"""
    ns = o.ns if isinstance(o, ClassVal) else (o.f if o.cls is C_DIALECT_CLS else o.cls.ns)
    ok = all(ns.get(k, UNSET) is v for k, v in d.items() if not (k == "strict" and v is False))
    if isinstance(o, Obj) and o.cls is not C_DIALECT_CLS:
        ok = ok and not o.f
    return z3.BoolVal(ok)


def get_dialect(it, a, kw):
    h = it.ghost.get("get_dialect")
    if h:
        return h(it, a[0])
    if it.path.choose(2) == 1:
        raise PyExc(Obj(it, CSVERR, {"args": ()}))
    return csv_dialect(it, "registered")[0]


# ------------------------------------------------------------------ json
def dumps(it, a, kw):
    if len(a) != 1 or kw:
        raise Unsupported("json.dumps options")
    d = a[0]
    if not isinstance(d, DictObj) or not isinstance(it.getf(d, "v"), list):
        raise Unsupported("json.dumps of %r" % (d,))
    for k, v in it.getf(d, "v"):
        if not isinstance(k, str) or not (v is None or kind_of(v) in ("str", "bool", "int")):
            raise Unsupported("json.dumps of %r" % (v,))
    t = it.fresh("str", "json")
    it.ghost.setdefault("json", []).append((t, list(it.getf(d, "v"))))
    return t


def loads(it, a, kw):
    s = a[0]
    for t, items in it.ghost.get("json", []):
        if isinstance(s, S) and s.t.eq(t.t):
            return DictObj(it, list(items))
    raise Unsupported("json.loads of an unknown text")


# ------------------------------------------------------------------ the C parser as its callers see it
PROWS = z3.Function("parsed_rows", U, STR.sort, STR.sort, STR.sort, smt.B, smt.I, TABLE.sort)
PCELLS = z3.Function("parsed_cells", U, STR.sort, STR.sort, STR.sort, smt.B, smt.I, CTABLE.sort)
PFAILS = z3.Function("parse_fails", U, STR.sort, STR.sort, STR.sort, smt.B, smt.I, smt.B)
DEFAULT_LIMIT = 128 * 1024
input_of_str = z3.Function("lines_of", STR.sort, U)


def parser_args(it, d):
    names = ["data", "delimiter", "quotechar", "escapechar", "field_limit", "strict", "return_quoted"]
    return [d.get(n) for n in names]


def new_parser(it, a, kw):
    names = ["data", "delimiter", "quotechar", "escapechar", "field_limit", "strict", "return_quoted"]
    d = dict(zip(names, a))
    d.update(kw)
    if set(d) - set(names) or "data" not in d:
        raise it.exc("TypeError")
    h = it.ghost.get("parser_created")
    for n, dflt in (("delimiter", ""), ("quotechar", ""), ("escapechar", ""), ("field_limit", DEFAULT_LIMIT), ("strict", False), ("return_quoted", False)):
        if n not in d or d[n] is None and n != "field_limit":
            d[n] = dflt
    # the C code refuses components that are not strings of at most one character, and non-integer limits
    for n in ("delimiter", "quotechar", "escapechar"):
        if kind_of(d[n]) != "str" or not it.path.decide(STR.len(it.term(d[n], "str")) <= 1):
            raise it.exc("TypeError")
    if kind_of(d["field_limit"]) not in ("int", "bool"):
        raise it.exc("TypeError")
    data = d["data"]
    it.ghost["parsers"] = it.ghost.get("parsers", 0) + 1
    o = Obj(it, PARSER, {"pos": S("int", z3.IntVal(0)), "dead": False})
    o.d = d
    inp = input_term(it, data)
    args = [inp, it.term(d["delimiter"], "str"), it.term(d["quotechar"], "str"), it.term(d["escapechar"], "str"),
            it.truth(d["strict"]) if not isinstance(it.truth(d["strict"]), bool) else z3.BoolVal(it.truth(d["strict"])), it.term(d["field_limit"], "int")]
    o.args = args
    o.rq = it.decide(d["return_quoted"])
    o.table = Seq(it.ETS["crow" if o.rq else "row"], (PCELLS if o.rq else PROWS)(*args))
    o.fails = PFAILS(*args)
    if h:
        h(it, o)
    return o


def input_term(it, data):
    """the lines an input object delivers"""
    if isinstance(data, S) and data.kind == "obj":
        return data.t
    h = getattr(getattr(data, "cls", None), "lines_term", None)
    if h:
        return h(it, data)
    if isinstance(data, Obj) and data.cls == "iterator":
        if it.getf(data, "pos") != 0:
            raise Unsupported("partly read input")
        return input_term(it, data.f["src"])
    if isinstance(data, ListObj):
        s = it.as_seq(data)
        if s.et is it.ETS["str"]:
            return z3.Function("lines_list", ROW.sort, U)(s.t)
        raise Unsupported("parser input")
    raise Unsupported("parser input %r" % (data,))


def parser_next(it, o, *default):
    pos = it.term(it.getf(o, "pos"))
    n = o.table.et.th.len(o.table.t)
    if it.decide(it.getf(o, "dead")):
        raise Unsupported("parser used after it failed")
    if it.path.decide(pos < n):
        it.setf(o, "pos", S("int", pos + 1))
        return o.table.et.wrap(it, o.table.et.th.at(o.table.t, pos))
    if it.path.decide(o.fails):
        it.setf(o, "dead", True)
        k = it.path.choose(2)
        if k == 0:
            raise PyExc(Obj(it, EXT["clevercsv.cparser.Error"], {"args": (it.fresh("str", "message"),)}))
        raise any_exception(it, ["StopIteration"])         # from the input object
    if default:
        return default[0]
    raise it.exc("StopIteration")


class StopNow(Exception):
    pass


def parser_iterate(it, o, body, key):
    def bd():
        try:
            e = parser_next(it, o)
        except PyExc as x:
            if isinstance(x.value.cls, ClassVal) and x.value.cls is B["StopIteration"]:
                raise StopNow()
            raise
        body(e)
    try:
        return it.while_loop(lambda: True, bd, key + ("parser",))
    except StopNow:
        return "done"


PARSER = Model("Parser", {"__next__": lambda it, o, a, k: parser_next(it, o), "__iter__": lambda it, o, a, k: o},
               iterate=parser_iterate, next=parser_next, iter=lambda it, v: v)


def parser_templates(it, st):
    """loops over a parser: position = rows delivered"""
    out = []
    for cell, o, v in st.cells():
        if cell[1] == "pos" and getattr(o.cls, "name", "") == "Parser":
            th = o.table.et.th

            def inb(s, cell=cell, o=o, th=th):
                p = it.term(s.now(cell))
                return z3.And(p >= 0, p <= th.len(o.table.t))
            out.append(("%s.pos in range" % cell[0], inb))
            e0 = it.term(st.entry[cell]) if kind_of(st.entry.get(cell)) == "int" else None
            for c2, o2, v2 in st.cells():
                if kind_of(st.entry.get(c2)) == "int" and c2 != cell and e0 is not None:
                    x0 = it.term(st.entry[c2], "int")

                    def tied(s, cell=cell, c2=c2, e0=e0, x0=x0):
                        x = s.now(c2)
                        return it.term(x, "int") - x0 == it.term(s.now(cell)) - e0 if kind_of(x) == "int" else None
                    out.append(("%s.%s tied to %s.pos" % (c2 + (cell[0],)), tied))
                e = st.entry.get(c2)
                if isinstance(e, (list, Seq)):
                    def acc(s, cell=cell, c2=c2, o=o, th=th, e=e, e0=e0):
                        x = s.now(c2)
                        p = it.term(s.now(cell))
                        T = o.table.t
                        it.path.assume(th.snoc(T, p - 1))
                        if isinstance(x, list) and not x:
                            xs = th.empty
                        else:
                            xs = it.as_seq(x)
                            if xs.et is not o.table.et:
                                return None
                            xs = xs.t
                        if isinstance(e, list) and not e and e0 is not None and z3.is_int_value(z3.simplify(e0)) and z3.simplify(e0).as_long() == 0:
                            it.path.assume(th.ext(xs, th.sub(T, z3.IntVal(0), p)))
                            return xs == th.sub(T, z3.IntVal(0), p)
                        return None
                    out.append(("%s.%s = rows read from %s" % (c2 + (cell[0],)), acc))
    return out


EXTERNALS = {
    "csv.Dialect": DIALECT_CLS, "_csv.Dialect": C_DIALECT_CLS, "csv.Error": CSVERR, "_csv.Error": CSVERR,
    "csv.get_dialect": get_dialect, "_csv.get_dialect": get_dialect, "json.dumps": dumps, "json.loads": loads,
    "clevercsv.cparser.Parser": new_parser,
}
for _k, _v in QUOTING.items():
    EXTERNALS["csv." + _k] = _v
    EXTERNALS["_csv." + _k] = _v
EXT.update(EXTERNALS)
TRUST_CSV = ("csv.Dialect/_csv.Dialect/csv.get_dialect: contracts of engine/csvlib.py (a dialect object is its attributes; constructing one "
             "from attributes refuses anything but a one-character delimiter and quotechar)")
TRUST_PARSER = ("clevercsv.cparser.Parser as seen from Python: yields the rows parsed_rows(input, delimiter, quotechar, escapechar, strict, limit) in "
                "order, each once, then stops or raises; what those rows are is C01")
TRUST_JSON = "json.loads(json.dumps(d)) == d for dictionaries of strings, booleans and None"


# ------------------------------------------------------------------ io.StringIO as parser input
def new_stringio(it, a, kw):
    nl = kw.get("newline", a[1] if len(a) > 1 else "\n")
    init = a[0] if a else kw.get("initial_value", "")
    return Obj(it, STRINGIO, {"text": init, "newline": nl, "w": S("str", STR.empty), "closed": False})


def _sio_lines(it, o):
    t = it.term(it.getf(o, "text"), "str")
    nl = o.f["newline"]
    if nl == "":
        return input_of_str(t)
    return z3.Function("lines_of_nl_%s" % {None: "universal", "\n": "lf"}.get(nl, "other"), STR.sort, U)(t)


def _sio_open(it, o):
    if it.decide(it.getf(o, "closed")):
        raise it.exc("ValueError", "closed")


def _sio_close(it, o, a, kw):
    it.setf(o, "closed", True)


def _sio_write(it, o, a, kw):
    _sio_open(it, o)
    it.setf(o, "w", S("str", STR.cat(it.getf(o, "w").t, it.term(a[0], "str"))))
    return None


def _sio_getvalue(it, o, a, kw):
    _sio_open(it, o)
    if o.f["text"] != "":
        raise Unsupported("getvalue of an initialised StringIO")
    return it.getf(o, "w")


STRINGIO = Model("StringIO", {"write": _sio_write, "getvalue": _sio_getvalue, "close": _sio_close, "__enter__": lambda it, o, a, k: o, "__exit__": _sio_close}, lines_term=_sio_lines, iter=lambda it, v: v)
EXT["io.StringIO"] = new_stringio
