"""Contracts of the reader, the writer, detection and encoding detection as their callers in the package see them.
The reader's is discharged in C06, the writer's below (listed by the properties that use it), get_encoding's in C21."""
import z3
from engine import smt, csvlib as L, world as W
from engine.contracts import Contract
from engine.models import Model, B, EXT, any_exception
from engine.pysym import PyExc
from engine.smt import STR, ROW, TABLE, OSEQ, OTABLE, U, DIALECT, Unsupported
from engine.vals import *

SD = "clevercsv.dialect.SimpleDialect"
FS0 = z3.Const("fs0", FSMAP)
EX0 = z3.Const("ex0", FSEX)
DOBJ = z3.Function("dialect_object", DIALECT, U)
BOXB = z3.Function("box_bool", smt.B, U)
NONE_U = smt.NONE_U
ROWS = z3.Function("rows_read", U, U, TABLE.sort)           # lines, dialect
FAILS = z3.Function("read_fails", U, U, smt.B)
TEXT = {"row": z3.Function("csv_text", U, TABLE.sort, STR.sort), "orow": z3.Function("csv_text_objects", U, OTABLE.sort, STR.sort)}
DETSOME = z3.Function("detection_succeeds", STR.sort, U, smt.B, smt.B)      # sample, method, skip
DETD = z3.Function("detected_dialect", STR.sort, U, smt.B, DIALECT)
ENCF = z3.Function("encoding_of_bytes", STR.sort, U)
Z = z3.IntVal


def obj_term(it, v):
    """any value as an opaque object"""
    if isinstance(v, S) and v.kind == "obj":
        return v.t
    if v is None:
        return NONE_U
    if kind_of(v) == "str":
        return smt.box_str(it.term(v, "str"))
    if kind_of(v) == "bool":
        return BOXB(it.term(v, "bool"))
    if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and v.cls is it.resolve(SD):
        return DOBJ(it.ETS["dialect"].unwrap(v))
    if getattr(v, "enum_value", None) is not None:
        return obj_term(it, v.f["value"])
    t = getattr(v, "uterm", None)
    if t is not None:
        return t
    raise Unsupported("object term of %r" % (v,))


# ------------------------------------------------------------------ lines of a file
def file_lines(it, o):
    """the lines still to be read from an open text file"""
    if o.f["mode"][0] != "r" or o.f["kind"] != "str":
        raise Unsupported("lines of this file")
    if it.getf(o, "closed") is not False:
        raise it.exc("ValueError", "I/O operation on closed file")
    c = o.f["content"].t
    pos = it.getf(o, "pos")
    if pos is UNSET:
        raise Unsupported("file position unknown")
    t = L.input_of_str(STR.sub(c, it.term(pos), STR.len(c)))
    return t


W.FILE.lines_term = file_lines


# ------------------------------------------------------------------ clevercsv.read.reader
def start(it, r):
    if r.table is None:
        src = r.src
        t = L.input_term(it, src)
        if isinstance(src, Obj) and src.cls is W.FILE:
            it.setf(src, "pos", UNSET)
        r.table = Seq(it.ETS["row"], ROWS(t, r.d))
        r.fails = FAILS(t, r.d)


def reader_next(it, r, *default):
    start(it, r)
    th = TABLE
    pos = it.term(it.getf(r, "pos"))
    src = r.src
    if it.decide(it.getf(r, "dead")):
        raise Unsupported("reader used after it failed")
    if it.path.decide(pos < th.len(r.table.t)):
        if isinstance(src, Obj) and src.cls is W.FILE and it.getf(src, "closed") is not False:
            raise it.exc("ValueError", "I/O operation on closed file")
        it.setf(r, "pos", S("int", pos + 1))
        return r.table.et.wrap(it, th.at(r.table.t, pos))
    if it.path.decide(r.fails):
        it.setf(r, "dead", True)
        raise any_exception(it, ["StopIteration"])
    if default:
        return default[0]
    raise it.exc("StopIteration")


class StopNow(Exception):
    pass


def reader_iterate(it, r, body, key):
    start(it, r)

    def bd():
        try:
            e = reader_next(it, r)
        except PyExc as x:
            if isinstance(x.value.cls, ClassVal) and x.value.cls is B["StopIteration"]:
                raise StopNow()
            raise
        body(e)
    try:
        return it.while_loop(lambda: True, bd, key + ("reader",))
    except StopNow:
        return "done"


def reader_iter(it, r, a, k):
    return r


READER = Model("reader", {"__next__": lambda it, o, a, k: reader_next(it, o), "__iter__": reader_iter},
               {"line_num": lambda it, o: it.getf(o, "pos")}, iterate=reader_iterate, next=reader_next, iter=lambda it, v: v)


class ReaderClass:
    """contract of clevercsv.read.reader (discharged in C06)"""

    def construct(self, it, cls, a, kw):
        vals = dict(zip(["csvfile", "dialect"], a))
        vals.update(kw)
        src, d = vals.pop("csvfile"), vals.pop("dialect", "excel")
        if vals:
            raise Unsupported("reader with format parameters")
        if d is None:
            raise it.exc("ValueError", "Unknown dialect type")
        if isinstance(d, S) and d.kind == "obj" and not it.ghost.get("dialects_ok") and it.path.choose(2) == 1:
            raise any_exception(it, ["StopIteration"])
        r = Obj(it, READER, {"pos": S("int", Z(0)), "dead": False})
        r.src, r.d, r.table, r.fails = src, obj_term(it, d), None, None
        it.ghost.setdefault("readers", []).append(r)
        return r


def reader_templates(it, st):
    """loops over a reader: position = rows delivered"""
    out = []
    for r in it.ghost.get("readers", []):
        if r.table is None:
            continue
        T = r.table.t

        def inb(s, r=r, T=T):
            p = it.term(r.f["pos"])
            return z3.And(p >= 0, p <= TABLE.len(T))
        out.append(("reader%d position in range" % r.id, inb))
        out.append(("reader%d alive" % r.id, lambda s, r=r: z3.Not(it.term(r.f["dead"], "bool"))))
        p0 = it.term(r.f["pos"])
        for cell, o, v in st.cells():
            e = st.entry.get(cell)
            if isinstance(e, (list, Seq)) and not (isinstance(e, list) and e):
                e0 = TABLE.empty if isinstance(e, list) else e.t if e.et is it.ETS["row"] else None
                if e0 is None:
                    continue

                def acc(s, cell=cell, r=r, T=T, e0=e0, p0=p0):
                    x = s.now(cell)
                    p = it.term(r.f["pos"])
                    if isinstance(x, list):
                        if x:
                            return None
                        x = TABLE.empty
                    elif x.et is it.ETS["row"]:
                        x = x.t
                    else:
                        return None
                    it.path.assume(TABLE.snoc(T, p - 1))
                    want = TABLE.cat(e0, TABLE.sub(T, p0, p))
                    it.path.assume(TABLE.ext(x, want))
                    return x == want
                out.append(("%s.%s = rows read by reader%d" % (cell + (r.id,)), acc))
            if kind_of(e) == "int":
                x0 = it.term(e, "int")

                def tied(s, cell=cell, r=r, x0=x0, p0=p0):
                    x = s.now(cell)
                    return it.term(x, "int") - x0 == it.term(r.f["pos"]) - p0 if kind_of(x) == "int" else None
                out.append(("%s.%s tied to reader%d" % (cell + (r.id,)), tied))

            def cur(s, cell=cell, r=r, T=T):
                x = s.now(cell)
                p = it.term(r.f["pos"])
                if isinstance(x, ListObj) and isinstance(x.f["v"], Seq) and x.f["v"].et is it.ETS["str"]:
                    return z3.And(p >= 1, x.f["v"].t == TABLE.at(T, p - 1))
                return None
            out.append(("%s.%s = last row of reader%d" % (cell + (r.id,)), cur))
    return out


# ------------------------------------------------------------------ clevercsv.write.writer
def sink_write(it, w, row):
    """one row is written: any iterable of cells"""
    h = it.ghost.get("sink")
    if h:
        return h(it, w, row)
    if it.path.choose(2) == 1:
        raise any_exception(it, ["StopIteration"])
    o = w.out
    if isinstance(o, Obj) and o.cls is W.FILE and it.getf(o, "closed") is not False:
        raise it.exc("ValueError", "I/O operation on closed file")
    lst = it.collect(row, ("row", "writer"))
    it.list_append(w.rows, lst)


def w_row(it, w, a, kw):
    sink_write(it, w, a[0])
    return it.fresh("obj", "written")


def w_rows(it, w, a, kw):
    it.iterate(a[0], lambda e: sink_write(it, w, e), ("rows", "writer"))
    return None


WRITER = Model("writer", {"writerow": w_row, "writerows": w_rows})


def written_text(it, o):
    """text written to a file or buffer through its writer"""
    ws = o.writers
    if len(ws) > 1:
        raise Unsupported("several writers on one file")
    w = ws[0]
    x = it.getf(w.rows, "v")
    if isinstance(x, list) and not x:
        return STR.empty
    s = it.as_seq(x)
    return TEXT[s.et.name](w.d, s.t)


class WriterClass:
    """contract of clevercsv.write.writer (see MakeWriter and WriteRow)"""

    def construct(self, it, cls, a, kw):
        vals = dict(zip(["csvfile", "dialect"], a))
        vals.update(kw)
        out, d = vals.pop("csvfile"), vals.pop("dialect", "excel")
        if vals:
            raise Unsupported("writer with format parameters")
        if d is None:
            raise it.exc("ValueError", "Unknown dialect type")
        if not isinstance(d, str) and it.path.choose(2) == 1:
            raise any_exception(it, ["StopIteration"])
        w = Obj(it, WRITER, {})
        w.out, w.d, w.rows = out, obj_term(it, d), ListObj(it, [])
        if isinstance(out, Obj) and out.cls in (W.FILE, L.STRINGIO):
            if out.cls is W.FILE:
                if out.f["mode"][0] not in "wx" or out.f["kind"] != "str":
                    raise Unsupported("writer on this file")
                if out.f["newline"] != "":
                    w.d = z3.Function("newlines_translated", U, U)(w.d)
            elif out.f["newline"] != "":
                w.d = z3.Function("newlines_translated", U, U)(w.d)
            out.writers = getattr(out, "writers", []) + [w]
        it.ghost.setdefault("writers", []).append(w)
        return w


def flush(it, o):
    if o.f["mode"][0] in "wx":
        c = it.getf(o, "content").t
        if getattr(o, "writers", None):
            if not c.eq(STR.empty):
                raise Unsupported("writer on a file with contents")
            c = written_text(it, o)
        if o.f["kind"] == "str":
            c = W.encode(o.f["enc"], c)
        W.fs_put(it, o.f["path"], c)


W.flush = flush
_getvalue = L.STRINGIO.methods["getvalue"]


def sio_getvalue(it, o, a, kw):
    if getattr(o, "writers", None):
        if o.f["text"] != "" or not it.getf(o, "w").t.eq(STR.empty):
            raise Unsupported("mixed writes")
        return S("str", written_text(it, o))
    return _getvalue(it, o, a, kw)


L.STRINGIO.methods["getvalue"] = sio_getvalue


# ------------------------------------------------------------------ detection
class Detect:
    """contract of Detector.detect: its outcome depends on the sample and the options only (C22), it may raise"""

    def apply(self, it, f, args):
        if args.get("delimiters") is not None:
            raise Unsupported("detection with delimiters")
        sample = it.term(args["sample"], "str")
        m = obj_term(it, args["method"])
        skip = it.truth(args["skip"])
        skip = z3.BoolVal(skip) if isinstance(skip, bool) else skip
        it.ghost.setdefault("detections", []).append((sample, m, skip))
        if it.path.choose(2) == 1:
            raise any_exception(it, ["StopIteration"])
        if it.path.decide(DETSOME(sample, m, skip)):
            return it.ETS["dialect"].wrap(it, DETD(sample, m, skip))
        return None


class GetEnc:
    """contract of get_encoding (C21): a function of the bytes of the file"""

    def apply(self, it, f, args):
        p = W.path_term(it, args["filename"])
        W.may_fail(it, what="get_encoding")
        if not it.path.decide(W.fs_has(it, p)):
            raise it.exc("FileNotFoundError")
        return S("obj", ENCF(W.fs_get(it, p)))


ASSUMED = {"class:clevercsv.read.reader": ReaderClass(), "class:clevercsv.write.writer": WriterClass(),
           "clevercsv.detect.Detector.detect": Detect(), "clevercsv.encoding.get_encoding": GetEnc()}

TRUST_IO = ("_csv.writer: formats each row handed to it once, in order, and raises csv.Error or what the file raises; "
            "Detector.detect: a function of sample, method and skip (C22), any exception possible")


def path_arg(it):
    return it.fresh("str", "filename")


def fs_same(it):
    o = W.fs(it)
    return z3.And(it.getf(o, "map").t == FS0, it.getf(o, "ex").t == EX0)


# ------------------------------------------------------------------ the writer itself
WK = "clevercsv.write.writer"
DKEYS = ("delimiter", "quotechar", "escapechar", "strict", "doublequote", "skipinitialspace", "quoting", "lineterminator")


class CsvWriterObj:
    pass


def csv_writer(it, a, kw):
    """_csv.writer"""
    names = ["csvfile", "dialect"]
    vals = dict(zip(names, a))
    vals.update(kw)
    if set(vals) != {"csvfile", "dialect"}:
        raise Unsupported("csv.writer options")
    if it.path.choose(2) == 1:
        raise PyExc(Obj(it, L.CSVERR, {"args": ()}))
    o = Obj(it, CSVW, {})
    o.file, o.dialect = vals["csvfile"], vals["dialect"]
    it.ghost.setdefault("csvwriters", []).append(o)
    return o


def _csvw(name):
    def f(it, o, a, kw):
        it.ghost.setdefault("csvwrites", []).append((name, o, list(a)))
        k = it.path.choose(3)
        if k == 1:
            raise PyExc(Obj(it, L.CSVERR, {"args": (it.fresh("str", "message"),)}))
        if k == 2:
            raise any_exception(it)
        return it.ghost["result"]
    return f


CSVW = Model("csv.writer", {"writerow": _csvw("writerow"), "writerows": _csvw("writerows")})
EXT["_csv.writer"] = csv_writer
EXT["csv.writer"] = csv_writer


class MakeWriter(Contract):
    """a writer hands its file and the dialect, with exactly the given overrides, to the csv module"""
    must_reach = ("return", "raise")
    budget = 300
    assumed = {}

    def __init__(self, form, over=True):
        self.form, self.over = form, over
        self.key = WK + ".__init__"
        self.label = "%s.__init__ (%s dialect%s)" % (WK, form, "" if over else ", as it is")
        if form == "unknown":
            self.must_reach = ("raise",)

    def setup(self, it):
        from specs.c11 import dialect
        self.attrs, self.bad = None, False
        if self.form == "simple":
            d = dialect(it, "d", none=False)
            it.path.assume(STR.len(d.comp[0].t) == 1)
            for c in d.comp[1:3]:
                it.path.assume(STR.len(c.t) <= 1)
            q, e = d.comp[1], d.comp[2]
            noq = STR.len(q.t) == 0
            it.ghost["csv_dialect_total"] = True
            self.d0 = d
            self.attrs = {"delimiter": d.comp[0], "strict": d.comp[3], "doublequote": True, "skipinitialspace": False,
                          "quotechar": ("noquote", q), "escapechar": ("noesc", e), "lineterminator": "\n",
                          "quoting": S("int", z3.If(noq, Z(L.QUOTING["QUOTE_NONE"]), Z(L.QUOTING["QUOTE_MINIMAL"])))}
        elif self.form in ("csv", "name"):
            self.asked = []
            d, m = L.csv_dialect(it, "d")
            if self.form == "name":
                reg, d = d, it.fresh("str", "name")
                self.dname = d

                def get(it2, name):
                    self.asked.append(name)
                    if it2.path.choose(2) == 1:
                        raise PyExc(Obj(it2, L.CSVERR, {"args": ()}))
                    return reg
                it.ghost["get_dialect"] = get
            extra = {"doublequote": it.fresh("bool", "dq"), "skipinitialspace": it.fresh("bool", "sis"), "lineterminator": it.fresh("str", "lt")}
            if self.form == "csv" and it.path.choose(2) == 1:
                extra["lineterminator"] = None
            o = reg if self.form == "name" else d
            tgt = o.ns if isinstance(o, ClassVal) else o.f if o.cls is L.C_DIALECT_CLS else o.cls.ns
            tgt.update(extra)
            self.attrs = dict(m, **extra)
            if self.attrs["lineterminator"] is None:
                self.attrs["lineterminator"] = "\n"
            if "strict" not in tgt:
                del self.attrs["strict"]
        else:
            d = [None, it.fresh("int", "d"), DictObj(it, [])][it.path.choose(3)]
        kw = {}
        if self.form != "unknown" and self.over:
            k = it.path.choose(4)
            if k == 3:
                kw = {"escapechar": None, "doublequote": it.fresh("bool", "over_dq"), "strict": it.fresh("bool", "over_strict"),
                      "skipinitialspace": it.fresh("bool", "over_sis"), "quoting": it.fresh("int", "over_quoting")}
                self.attrs.update(kw)
            if k == 1:
                kw["delimiter"] = it.fresh("str", "over_delimiter")
                self.attrs["delimiter"] = kw["delimiter"]
            elif k == 2:
                kw["lineterminator"] = it.fresh("str", "over_lt")
                self.attrs["lineterminator"] = kw["lineterminator"]
        self.file = it.fresh("obj", "csvfile")
        return {"csvfile": self.file, "dialect": d, "kw": kw}

    def body(self, it, args):
        return it.call(it.resolve(WK), [args["csvfile"], args["dialect"]], args["kw"])

    def post(self, it, args, kind, v):
        ws = it.ghost.get("csvwriters", [])
        if kind == "raise":
            if self.form == "unknown":
                it.path.check(z3.BoolVal(v.cls is B["ValueError"]), "an unknown dialect type is refused with ValueError")
            else:
                it.path.check(z3.BoolVal(not ws and v.cls is L.CSVERR), "only the csv module refuses a dialect")
            return
        it.path.check(z3.BoolVal(len(ws) == 1 and ws[0].file is self.file), "one csv writer writes to the caller's file")
        if self.attrs is None:
            it.path.check(z3.BoolVal(False), "an unknown dialect type is refused")
            return
        if self.form == "name":
            it.path.check(it.eq(self.asked[0], self.dname) if len(self.asked) == 1 else z3.BoolVal(False), "the dialect registered under that very name is used")
        d = ws[0].dialect
        for n in DKEYS:
            if n not in self.attrs:
                continue
            w = self.attrs[n]
            g = it.getattr(d, n, None)
            if isinstance(w, tuple):
                # an empty quote or escape character of a simple dialect means none
                empty = it.path.decide(STR.len(w[1].t) == 0)
                if empty:
                    if w[0] == "noesc":
                        it.path.check(z3.BoolVal(g is None), "the csv module gets the dialect's %s" % n)
                    continue
                w = w[1]
            e = it.eq(g, w) if (g is None) == (w is None) else False
            it.path.check(z3.BoolVal(e) if isinstance(e, bool) else e, "the csv module gets the dialect's %s" % n)


class WriteRow(Contract):
    """rows go to the csv module as they are; its errors surface as the package's Error"""
    assumed = {}
    must_reach = ("return", "raise")

    def __init__(self, name):
        self.name = name
        self.key = WK + "." + name

    def setup(self, it):
        it.ghost["result"] = it.fresh("obj", "result")
        w = None
        d, m = L.csv_dialect(it, "d")
        try:
            w = it.call(it.resolve(WK), [it.fresh("obj", "csvfile"), d], {})
        except PyExc:
            raise smt.PathEnd()
        self.row = it.fresh("obj", "row")
        return {"self": w}

    def body(self, it, args):
        return it.call(it.getattr(args["self"], self.name), [self.row], {})

    def post(self, it, args, kind, v):
        log = it.ghost.get("csvwrites", [])
        ok = len(log) == 1 and log[0][0] == self.name and len(log[0][2]) == 1 and log[0][2][0] is self.row and log[0][1] is it.ghost["csvwriters"][0]
        it.path.check(z3.BoolVal(ok), "the csv module is handed exactly the caller's rows, once")
        if kind == "raise":
            it.path.check(z3.BoolVal(v.cls == "anyexc" or v.cls is it.resolve("clevercsv.exceptions.Error")), "errors of the csv module surface as the package's Error")
        else:
            it.path.check(z3.BoolVal(v is it.ghost["result"]), "the result of the csv module is passed on")


WRITER_CONTRACTS = [MakeWriter("simple"), MakeWriter("csv"), MakeWriter("name"), MakeWriter("unknown"), WriteRow("writerow"), WriteRow("writerows")]
