"""C19: file reading helpers return the whole file."""
import z3
from engine import smt, csvlib as L, world as W
from engine.contracts import Contract
from engine.models import B
from engine.smt import STR, TABLE, OSEQ, U
from engine.vals import *
from specs import cio
from specs.cio import FS0, EX0, Z

WR = "clevercsv.wrappers."
DICTS = z3.Function("dicts_read", U, U, OSEQ.sort)
DFAILS = z3.Function("dict_reading_fails", U, U, smt.B)


class DictReaderClass:
    """contract of DictReader (C13): a sequence of mappings determined by the lines and the dialect"""

    def construct(self, it, cls, a, kw):
        vals = dict(zip(["f", "fieldnames", "restkey", "restval", "dialect"], a))
        vals.update(kw)
        if vals.get("fieldnames") is not None or vals.get("restkey") is not None or vals.get("restval") is not None or set(vals) - {"f", "fieldnames", "restkey", "restval", "dialect"}:
            raise smt.Unsupported("options of DictReader")
        r = cio.ReaderClass().construct(it, None, [vals["f"], vals.get("dialect", "excel")], {})
        it.ghost["readers"].remove(r)
        r.cls = DREADER
        it.ghost.setdefault("dreaders", []).append(r)
        return r


def dstart(it, r):
    if r.table is None:
        t = L.input_term(it, r.src)
        if isinstance(r.src, Obj) and r.src.cls is W.FILE:
            it.setf(r.src, "pos", UNSET)
        r.table = Seq(it.ETS["obj"], DICTS(t, r.d))
        r.fails = DFAILS(t, r.d)


def dnext(it, r, *default):
    dstart(it, r)
    pos = it.term(it.getf(r, "pos"))
    if it.path.decide(pos < OSEQ.len(r.table.t)):
        if isinstance(r.src, Obj) and r.src.cls is W.FILE and it.getf(r.src, "closed") is not False:
            raise it.exc("ValueError", "I/O operation on closed file")
        it.setf(r, "pos", S("int", pos + 1))
        return S("obj", OSEQ.at(r.table.t, pos))
    if it.path.decide(r.fails):
        raise cio.any_exception(it, ["StopIteration"])
    if default:
        return default[0]
    raise it.exc("StopIteration")


def diterate(it, r, body, key):
    dstart(it, r)

    def bd():
        try:
            e = dnext(it, r)
        except cio.PyExc as x:
            if isinstance(x.value.cls, ClassVal) and x.value.cls is B["StopIteration"]:
                raise cio.StopNow()
            raise
        body(e)
    try:
        return it.while_loop(lambda: True, bd, key + ("dreader",))
    except cio.StopNow:
        return "done"


DREADER = cio.Model("DictReader", {"__next__": lambda it, o, a, k: dnext(it, o), "__iter__": lambda it, o, a, k: o}, iterate=diterate, next=dnext, iter=lambda it, v: v)


def dict_templates(it, st):
    out = []
    for r in it.ghost.get("dreaders", []):
        if r.table is None:
            continue
        T = r.table.t
        out.append(("dicts%d position" % r.id, lambda s, r=r, T=T: z3.And(it.term(r.f["pos"]) >= 0, it.term(r.f["pos"]) <= OSEQ.len(T))))
        for cell, o, v in st.cells():
            e = st.entry.get(cell)
            if isinstance(e, list) and not e:
                def acc(s, cell=cell, r=r, T=T):
                    x = s.now(cell)
                    p = it.term(r.f["pos"])
                    if isinstance(x, list):
                        if x:
                            return None
                        x = OSEQ.empty
                    elif x.et is it.ETS["obj"]:
                        x = x.t
                    else:
                        return None
                    it.path.assume(OSEQ.snoc(T, p - 1))
                    it.path.assume(OSEQ.ext(x, OSEQ.sub(T, Z(0), p)))
                    return x == OSEQ.sub(T, Z(0), p)
                out.append(("%s.%s = mappings read" % cell, acc))
    return out


class FileHelper(Contract):
    """what a reading helper returns for a file, and when it fails"""
    must_reach = ("return", "raise")
    templates = [cio.reader_templates, dict_templates]
    dicts = False
    method, skip = "auto", True

    def setup(self, it):
        self.path_ = it.fresh("str", "filename")
        a = {"filename": self.path_, "verbose": it.fresh("bool", "verbose")}
        self.enc = it.fresh("str", "encoding") if it.path.choose(2) == 1 else None
        if self.enc is not None:
            it.path.assume(STR.len(self.enc.t) > 0)
        self.num = it.fresh("int", "num_chars") if it.path.choose(2) == 1 else None
        if self.num is not None:
            it.path.assume(self.num.t >= 1)
        a["encoding"], a["num_chars"] = self.enc, self.num
        self.dialect = None
        if self.has_dialect() and it.path.choose(2) == 1:
            self.dialect = it.fresh("obj", "dialect")
            it.path.assume(z3.Not(smt.obj_is_none(self.dialect.t)))
        if self.has_dialect():
            a["dialect"] = self.dialect
        self.more(it, a)
        return a

    def has_dialect(self):
        return True

    def more(self, it, a):
        pass

    def facts(self, it):
        p = self.path_.t
        b = z3.Select(FS0, p)
        enc = W.enc_of(self.enc.t) if self.enc is not None else cio.ENCF(b)
        text = W.decode(enc, b)
        n = STR.len(text)
        if self.num is None:
            sample = text
        else:
            sample = z3.If(self.num.t <= n, STR.sub(text, Z(0), self.num.t), text)
        return b, text, sample

    def detection(self, it, text, sample):
        """(some, dialect) of the detection the helper must use; checks the sample it saw"""
        ds = it.ghost.get("detections", [])
        for s, m, k in ds:
            it.path.assume(STR.ext(s, sample))
            it.path.check(s == sample, "detection sees exactly the requested number of leading characters")
            it.path.check(z3.And(m == self.want_method(it), k == self.want_skip(it)), "detection uses the requested options")
        it.path.check(z3.BoolVal(len(ds) <= 1), "detection runs once")
        m, k = self.want_method(it), self.want_skip(it)
        return ds, cio.DETSOME(sample, m, k), cio.DETD(sample, m, k)

    def want_method(self, it):
        return smt.box_str(it.term("auto", "str"))

    def want_skip(self, it):
        return z3.BoolVal(True)

    def post(self, it, args, kind, v):
        b, text, sample = self.facts(it)
        it.path.check(cio.fs_same(it), "no file is changed")
        for f in it.ghost.get("files", []):
            it.path.check(z3.And(z3.BoolVal(f.f["mode"] in ("r", "rt") and f.f["newline"] == "" and f.f["errors"] is None), f.f["path"] == self.path_.t,
                                 f.f["enc"] == (W.enc_of(self.enc.t) if self.enc is not None else cio.ENCF(b))),
                          "the file is opened for reading with the given or detected encoding, without newline translation")
        ds, some, dd = self.detection(it, text, sample)
        if self.dialect is not None:
            it.path.check(z3.BoolVal(not ds), "a dialect supplied by the caller is used as given")
        self.outcome(it, kind, v, ds, some, dd, text)

    def outcome(self, it, kind, v, ds, some, dd, text):
        lines = L.input_of_str(text)
        if kind == "raise":
            if v.cls is it.resolve("clevercsv.exceptions.NoDetectionResult"):
                it.path.check(z3.And(z3.BoolVal(self.dialect is None and len(ds) == 1), z3.Not(some)), "NoDetectionResult is raised only when detection found nothing")
            elif isinstance(v.cls, ClassVal) and v.cls.py is not None and not issubclass(v.cls.py, (OSError, UnicodeError)):
                it.path.check(z3.BoolVal(False), "only failures of the environment or of detection surface")
            return
        if self.dialect is None:
            it.path.check(z3.And(z3.BoolVal(len(ds) == 1), some), "failed detection raises the documented error")
            d = cio.DOBJ(dd)
        else:
            d = self.dialect.t
        fn, fl, th, et = (DICTS, DFAILS, OSEQ, "obj") if self.dicts else (cio.ROWS, cio.FAILS, TABLE, "row")
        want = fn(lines, d)
        x = it.getf(v, "v") if isinstance(v, ListObj) else None
        if isinstance(x, list) and not x:
            it.path.check(th.len(want) == 0, "every row of the entire file is returned")
        elif isinstance(x, Seq) and x.et is it.ETS[et]:
            it.path.assume(th.ext(x.t, want))
            it.path.check(x.t == want, "every row of the entire file is returned, exactly as the reader gives them")
        else:
            it.path.check(z3.BoolVal(False), "a list of rows is returned")
        it.path.check(z3.Not(fl(lines, d)), "a reading failure is not swallowed")


class Stream(FileHelper):
    def body(self, it, args):
        r = Contract.body(self, it, args)
        out = ListObj(it, [])
        it.iterate(r, lambda e: it.list_append(out, e), ("consumer",))
        return out


class StreamTable(Stream):
    key = WR + "stream_table"


class StreamDicts(Stream):
    key = WR + "stream_dicts"
    dicts = True


class ReadTable(FileHelper):
    key = WR + "read_table"


class ReadDicts(FileHelper):
    key = WR + "read_dicts"
    dicts = True


class DetectDialect(FileHelper):
    key = WR + "detect_dialect"

    def has_dialect(self):
        return False

    def more(self, it, a):
        self.meth = it.fresh("str", "method")
        self.skp = it.fresh("bool", "skip")
        a["method"], a["skip"] = self.meth, self.skp

    def want_method(self, it):
        return smt.box_str(self.meth.t)

    def want_skip(self, it):
        return self.skp.t

    def outcome(self, it, kind, v, ds, some, dd, text):
        if kind == "raise":
            it.path.check(z3.BoolVal(W.from_outside(it, v)), "only failures of the environment or of detection surface")
            return
        it.path.check(z3.BoolVal(len(ds) == 1), "detection runs")
        if v is None:
            it.path.check(z3.Not(some), "nothing is returned only when detection finds nothing")
        else:
            ok = isinstance(v, Obj) and isinstance(v.cls, ClassVal) and v.cls is it.resolve(cio.SD)
            it.path.check(z3.And(some, it.ETS["dialect"].unwrap(v) == dd) if ok else z3.BoolVal(False), "the detected dialect is returned unchanged")


ASSUMED = dict(cio.ASSUMED)
ASSUMED["class:clevercsv.dict_read_write.DictReader"] = DictReaderClass()
CONTRACTS = [StreamTable(), StreamDicts(), ReadTable(), ReadDicts(), DetectDialect()]
TRUSTED = [W.TRUST_FILES, cio.TRUST_IO, "the reader's and DictReader's contracts are those discharged in C06 and C13, get_encoding's in C21"]
