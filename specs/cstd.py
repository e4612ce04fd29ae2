"""Standardizing: what handle_path and handle do, shared by C16 and C17."""
import z3
from engine import smt, csvlib as L, world as W
from engine.contracts import Contract
from engine.models import B
from engine.pysym import PyExc
from engine.smt import STR, ROW, TABLE, OSEQ, U
from engine.vals import *
from specs import cio, cmap
from specs.cio import FS0, EX0, Z

SC = "clevercsv.console.commands.standardize.StandardizeCommand"


def axioms():
    d = z3.Const("d!tx", U)
    yield z3.ForAll([d], cio.TEXT["row"](d, TABLE.empty) == STR.empty, patterns=[cio.TEXT["row"](d, TABLE.empty)])


class DetectDialect:
    """contract of detect_dialect (C19): a dialect or nothing; the call is recorded"""

    def apply(self, it, f, args):
        it.ghost.setdefault("detected", []).append(dict(args))
        W.may_fail(it, what="detect_dialect")
        if it.path.choose(2) == 1:
            raise cio.any_exception(it, ["StopIteration"])
        if it.path.choose(2) == 1:
            it.ghost["dialect"] = None
            return None
        d = it.ETS["dialect"].wrap(it, it.path.fresh("detected", smt.DIALECT))
        it.ghost["dialect"] = it.ETS["dialect"].unwrap(d)
        return d


class Sha1:
    """contract of sha1sum (C21): the SHA-1 of the file's bytes"""

    def apply(self, it, f, args):
        p = W.path_term(it, args["filename"])
        W.may_fail(it, what="sha1sum")
        if not it.path.decide(W.fs_has(it, p)):
            raise it.exc("FileNotFoundError")
        c = W.fs_get(it, p)
        for x in it.ghost.setdefault("hashed", []):
            it.path.assume(z3.Implies(W.SHA1(x) == W.SHA1(c), x == c))      # no collisions
        it.ghost["hashed"].append(c)
        return S("str", W.SHA1(c))


def flag(it, v):
    x = it.truth(v)
    return z3.BoolVal(x) if isinstance(x, bool) else x


def opt_enc(it, v):
    """an encoding handed on: None and names"""
    return W.enc_none if v is None else W.enc_term(it, v)


def columns(it, st):
    """the columns seen so far of a table, missing cells empty"""
    out = []
    rt = it.ETS["row"]
    vs = [v.f.get("v") if isinstance(v, ListObj) else v for fr in it.frames[-1:] + it.comps[-1:] for v in fr.f.values()]
    i, j = z3.Ints("i!cl j!cl")
    for cell, o, v in st.cells():
        e = st.entry.get(cell)
        for n, T in enumerate([x.t for x in vs if isinstance(x, Seq) and x.et is rt]):
            if not (isinstance(e, list) and not e):
                continue

            def f(s, cell=cell, T=T):
                x = s.now(cell)
                if isinstance(x, list):
                    return s.idx == 0 if not x else None
                if x.et is not rt:
                    return None
                new, row = TABLE.at(x.t, j), TABLE.at(T, i)
                return z3.And(smt.forall([j], z3.Implies(z3.And(0 <= j, j < s.idx), ROW.len(new) == TABLE.len(T)), patterns=[new]),
                              smt.forall([j, i], z3.Implies(z3.And(0 <= j, j < s.idx, 0 <= i, i < TABLE.len(T)), ROW.at(new, i) == z3.If(j < ROW.len(row), ROW.at(row, j), STR.empty)), patterns=[ROW.at(new, i)]))
            out.append(("%s.%s = columns of %d" % (cell + (n,)), f))
    return out


def padding(it, st):
    """the longest row seen so far; the rows seen so far, filled up to some length"""
    out = []
    base = getattr(st.src, "base", None)
    if not (isinstance(base, Seq) and base.et is it.ETS["row"]):
        return columns(it, st)
    T = base.t
    i, j = z3.Ints("i!pd j!pd")
    row = TABLE.at(T, j)
    near = [v for fr in it.frames[-1:] + it.comps[-1:] for v in fr.f.values() if kind_of(v) == "int"]
    for cell, o, v in st.cells():
        e = st.entry.get(cell)
        if isinstance(e, list) and not e:
            for n, c in enumerate(near):
                def col(s, cell=cell, c=it.term(c, "int")):
                    x = s.now(cell)
                    if isinstance(x, list):
                        return s.idx == 0 if not x else None
                    if x.et is not it.ETS["str"]:
                        return None
                    return smt.forall([j], z3.Implies(z3.And(0 <= j, j < s.idx), ROW.at(x.t, j) == z3.If(c < ROW.len(row), ROW.at(row, c), STR.empty)), patterns=[ROW.at(x.t, j)])
                out.append(("%s.%s = cells at %d" % (cell + (n,)), col))
        if e is None or isinstance(e, int) and not isinstance(e, bool):
            def most(s, cell=cell, part=0):
                x = s.decided(cell)
                if x is None:
                    return s.idx == 0
                if kind_of(x) != "int":
                    return None
                x = it.term(x, "int")
                if part == 0:
                    return smt.forall([j], z3.Implies(z3.And(0 <= j, j < s.idx), x >= ROW.len(row)), patterns=[row])
                return (z3.Or(z3.And(s.idx == 0, x == 0), z3.Exists([j], z3.And(0 <= j, j < s.idx, x == ROW.len(row)), patterns=[row])))
            out.append(("%s.%s >= the lengths of the rows" % cell, most))
            out.append(("%s.%s = length of one of the rows" % cell, lambda s, most=most: most(s, part=1)))
        if isinstance(e, list) and not e:
            for n, w in enumerate(near):
                def f(s, cell=cell, w=it.term(w, "int")):
                    x = s.now(cell)
                    if isinstance(x, list):
                        return s.idx == 0 if not x else None
                    if x.et is not base.et:
                        return None
                    new = TABLE.at(x.t, j)
                    return z3.And(smt.forall([j], z3.Implies(z3.And(0 <= j, j < s.idx), ROW.len(new) == w), patterns=[new]),
                                  smt.forall([j, i], z3.Implies(z3.And(0 <= j, j < s.idx, 0 <= i, i < w), ROW.at(new, i) == z3.If(i < ROW.len(row), ROW.at(row, i), STR.empty)), patterns=[ROW.at(new, i)]))
                out.append(("%s.%s = rows filled up to %d" % (cell + (n,)), f))
    return out


def stdout_write(it, a, kw):
    it.ghost["print"](it, [a[0]], {"end": ""})
    return S("int", STR.len(it.term(a[0], "str")))


class HandlePath(Contract):
    key = SC + ".handle_path"
    must_reach = ("return", "raise")
    templates = [cio.reader_templates, padding]
    budget = 400
    externals = {"sys.stdout.write": stdout_write, "sys.stdout.flush": lambda it, a, kw: None}

    def __init__(self, mode, transpose):
        self.mode, self.transpose = mode, transpose
        self.label = "%s (%s%s)" % (self.key, mode, ", transposed" if transpose else "")

    def axioms(self):
        return list(axioms())

    def setup(self, it):
        it.ghost["dialects_ok"] = True
        self.path_ = it.fresh("str", "path")
        it.ghost["protected"] = [self.path_.t]
        self.out = None
        if self.mode == "to file":
            self.out = it.fresh("str", "output")
            it.path.assume(self.out.t != self.path_.t)
            it.ghost["protected"].append(self.out.t)

        def opt(n):
            if it.path.choose(2) == 0:
                return None
            v = it.fresh("str", n)
            it.path.assume(STR.len(v.t) > 0)
            return v
        self.enc, self.tenc = opt("encoding"), opt("target_encoding") if self.mode != "stdout" else None
        self.num = it.fresh("int", "num_chars") if it.path.choose(2) == 1 else None
        self.verbose = it.fresh("bool", "verbose")
        cls = it.resolve(SC)
        args = Obj(it, ClassVal("Namespace", [], {}), {"in_place": self.mode == "in place", "transpose": self.transpose})
        self.cmd = Obj(it, cls, {"args": args})
        self.printed = []
        it.ghost["print"] = lambda it2, a, kw: self.printed.append((list(a), dict(kw)))
        return {"self": self.cmd, "path": self.path_, "output": self.out, "encoding": self.enc, "num_chars": self.num, "verbose": self.verbose, "target_encoding": self.tenc}

    def body(self, it, args):
        a = dict(args)
        me = a.pop("self")
        return it.call(it.getattr(me, "handle_path"), [a.pop("path"), a.pop("output")], a)

    def on_stdout(self):
        return [p for p in self.printed if getattr(p[1].get("file"), "name", "sys.stdout") == "sys.stdout"]

    def others(self, it, p):
        """files that existed at the start, except p"""
        o = W.fs(it)
        k = it.path.fresh("other", STR.sort)
        m, e = it.getf(o, "map").t, it.getf(o, "ex").t
        return z3.Implies(z3.And(z3.Select(EX0, k), k != p if p is not None else z3.BoolVal(True)),
                          z3.And(z3.Select(m, k) == z3.Select(FS0, k), z3.Select(e, k)))

    def original(self, it):
        p = self.path_.t
        return z3.And(W.fs_get(it, p) == z3.Select(FS0, p), W.fs_has(it, p) == z3.Select(EX0, p))

    def facts(self, it):
        p = self.path_.t
        b = z3.Select(FS0, p)
        enc = W.enc_of(self.enc.t) if self.enc is not None else cio.ENCF(b)
        tenc = W.enc_of(self.tenc.t) if self.tenc is not None else enc
        return p, b, enc, tenc

    def post(self, it, args, kind, v):
        p, b, enc, tenc = self.facts(it)
        ds = it.ghost.get("detected", [])
        it.path.check(z3.BoolVal(len(ds) <= 1), "detection runs once")
        for d in ds:
            ok = W.path_term(it, d["filename"]) == p
            it.path.check(z3.And(ok, opt_enc(it, d["encoding"]) == enc), "detection reads the input file in its encoding")
            n = d.get("num_chars")
            it.path.check((it.term(n, "int") == self.num.t) if n is not None and self.num is not None else z3.BoolVal(n is None and self.num is None), "detection uses the requested number of characters")
        for f in it.ghost.get("files", []):
            if f.f["mode"][0] == "r" and f.f["kind"] == "str":
                it.path.check(z3.And(z3.BoolVal(f.f["newline"] == "" and f.f["errors"] is None), f.f["path"] == p, f.f["enc"] == enc), "the input is read in its encoding, without newline translation")
            elif f.f["mode"][0] in "wx":
                it.path.check(z3.And(z3.BoolVal(f.f["kind"] == "str" and f.f["newline"] == "" and f.f["errors"] is None), f.f["enc"] == tenc), "output is written in the target encoding, without newline translation")
        keep = self.out.t if self.out is not None else p if self.mode == "in place" else None
        it.path.check(self.others(it, keep), "no other file is changed")
        if self.mode != "in place":
            it.path.check(self.original(it), "the input file is left alone")
        if kind == "raise":
            it.path.check(self.original(it), "the original file is left as it was when anything fails")
            it.path.check(z3.BoolVal(not self.on_stdout()), "nothing is printed when anything fails")
            it.path.check(z3.BoolVal(W.from_outside(it, v)), "only failures of the environment surface")
            return
        if isinstance(v, bool) or kind_of(v) != "int":
            it.path.check(z3.BoolVal(False), "an exit code is returned")
            return
        code = it.term(v, "int")
        if it.ghost.get("dialect") is None:
            it.path.check(code == 1, "failed detection gives exit code 1")
            it.path.check(z3.And(self.original(it), cio.fs_same(it), z3.BoolVal(not self.on_stdout())), "failed detection writes nothing")
            return
        it.path.check(code != 1, "exit code 1 is only for failures")
        d = cio.DOBJ(it.ghost["dialect"])
        lines = L.input_of_str(W.decode(enc, b))
        T = cio.ROWS(lines, d)
        it.path.check(z3.Not(cio.FAILS(lines, d)), "a reading failure is not swallowed")
        ws = it.ghost.get("writers", [])
        it.path.check(z3.BoolVal(len(ws) == 1), "one writer is used")
        if len(ws) != 1:
            return
        rows = it.getf(ws[0].rows, "v")
        X = TABLE.empty if isinstance(rows, list) and not rows else it.as_seq(rows).t
        n = TABLE.len(T)
        if not self.transpose:
            it.path.assume(TABLE.ext(X, T))
            it.path.check(X == T, "exactly the rows read are written, in order")
        else:
            m = TABLE.len(X)
            r, c, w = it.path.fresh("r", smt.I), it.path.fresh("c", smt.I), it.path.fresh("w", smt.I)
            it.path.assume(z3.And(0 <= c, c < n))
            row = TABLE.at(T, c)
            it.path.check(z3.Implies(n > 0, m >= ROW.len(row)), "no row is cut off")
            i = z3.Int("i!tp")
            it.path.check(z3.Implies(m > 0, z3.Exists([i], z3.And(0 <= i, i < n, m == ROW.len(TABLE.at(T, i))))), "no more rows than the longest row has cells")
            it.path.assume(z3.And(0 <= r, r < m))
            it.path.check(ROW.len(TABLE.at(X, r)) == n, "one cell per input row")
            it.path.check(ROW.at(TABLE.at(X, r), c) == z3.If(r < ROW.len(row), ROW.at(row, r), STR.empty), "every cell appears in its transposed position, missing ones empty")
        text = cio.TEXT["row"](smt.box_str(it.term("excel", "str")), X)
        new = W.encode(tenc, text)
        if self.mode == "stdout":
            out = self.on_stdout()
            it.path.check(z3.BoolVal(len(out) == 1 and len(out[0][0]) == 1 and out[0][1].get("end") == ""), "the contents are printed once, as they are")
            if len(out) == 1 and len(out[0][0]) == 1 and kind_of(out[0][0][0]) == "str":
                it.path.check(it.term(out[0][0][0], "str") == text, "standard output gets the rows in the standard dialect")
            else:
                it.path.check(z3.BoolVal(False), "standard output gets the rows in the standard dialect")
            it.path.check(code == 0, "exit code 0")
            return
        it.path.check(z3.BoolVal(not self.on_stdout()), "nothing is printed")
        if self.mode == "to file":
            o = self.out.t
            it.path.check(z3.And(W.fs_has(it, o), W.fs_get(it, o) == new), "the output file holds the rows in the standard dialect and target encoding")
            it.path.check(code == 0, "exit code 0")
            return
        it.path.check(z3.And(W.fs_has(it, p), W.fs_get(it, p) == new), "the file holds the complete standardized contents")
        it.path.check(code == z3.If(new == b, Z(0), Z(2)), "exit code 0 exactly when the contents equal the original bytes, otherwise 2")
        for t in it.ghost.get("temps", []):
            it.path.check(z3.Not(W.fs_has(it, t.t)), "no temporary file remains")


ASSUMED = dict(cio.ASSUMED)
ASSUMED["clevercsv.wrappers.detect_dialect"] = DetectDialect()
ASSUMED["clevercsv.utils.sha1sum"] = Sha1()
PATHS = [HandlePath(m, t) for m in ("stdout", "to file", "in place") for t in (False, True)]
TRUST = [W.TRUST_FILES, cio.TRUST_IO, "mkstemp gives a new file; move and unlink happen completely or not at all; SHA-1 has no collisions; an output file other than the input",
         "detect_dialect: C19's contract; sha1sum and get_encoding: C21's; zip_longest(*rows, fillvalue): its documented meaning; print writes its argument and end"]
