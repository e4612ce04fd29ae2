"""C13: dictionary reading pairs every cell with its field name."""
import z3
from engine import smt
from engine.contracts import Contract
from engine.models import B
from engine.pysym import PyExc
from engine.smt import STR, ROW, TABLE, OSEQ, U
from engine.vals import *
from specs import cio, cmap
from specs.cio import Z

DR = "clevercsv.dict_read_write.DictReader"
NN = z3.Function("next_nonempty", TABLE.sort, smt.I, smt.I)


def axioms():
    yield from cmap.axioms()
    T = z3.Const("T!nn", TABLE.sort)
    p, j = z3.Ints("p!nn j!nn")
    n = NN(T, p)
    yield z3.ForAll([T, p], z3.Implies(z3.And(0 <= p, p <= TABLE.len(T)), z3.And(p <= n, n <= TABLE.len(T), z3.Implies(n < TABLE.len(T), ROW.len(TABLE.at(T, n)) > 0))), patterns=[n])
    yield z3.ForAll([T, p, j], z3.Implies(z3.And(0 <= p, p <= j, j < n), ROW.len(TABLE.at(T, j)) == 0), patterns=[z3.MultiPattern(n, TABLE.at(T, j))])


def skip_templates(it, st):
    """rows skipped so far are empty"""
    out = []
    e = it.ghost.get("expected")
    for r in it.ghost.get("readers", []):
        if r.table is None or e is None:
            continue
        T = r.table.t

        def f(s, r=r, T=T):
            p = it.term(it.getf(r, "pos"))
            x = it.term(it.getf(e, "n"))
            return z3.And(p >= 1, p - 1 <= NN(T, x), p - 1 >= x)
        out.append(("the row read is the next non-empty one or an empty one before it", f))

        def g(s, r=r, T=T):
            return it.term(it.getf(r, "pos")) == it.term(it.getf(e, "n"))
        out.append(("reader at the expected row", g))
        for cell, o, v in st.cells():
            e0 = st.entry.get(cell)
            if kind_of(e0) == "int" and o is not e and o is not r:
                out.append(("%s.%s>=1" % cell, lambda s, cell=cell: it.term(s.now(cell), "int") >= 1))
            if isinstance(e0, (ListObj, list, Seq)) or e0 is None:
                def rw(s, cell=cell, r=r, T=T):
                    x = s.decided(cell)
                    x = it.getf(x, "v") if isinstance(x, ListObj) else x
                    p, n0 = it.term(it.getf(r, "pos")), it.term(it.getf(e, "n"))
                    q = NN(T, n0)
                    lo = z3.And(p >= n0, p - 1 <= q)
                    if x is None or isinstance(x, list) and not x:
                        return z3.And(lo, p <= q)
                    if isinstance(x, Seq) and x.et is it.ETS["str"]:
                        it.path.assume(ROW.ext(x.t, TABLE.at(T, p - 1)))
                        return z3.And(lo, z3.Or(z3.And(p <= q, ROW.len(x.t) == 0), z3.And(p == q + 1, x.t == TABLE.at(T, p - 1))))
                    return None
                out.append(("%s.%s is the next non-empty row, or empty before it" % cell, rw))
        for cell, o, v in st.cells():
            if cell[1] in ("_fieldnames", "line_num") or st.entry.get(cell) is None:
                def h(s, cell=cell, r=r, T=T):
                    x = s.decided(cell)
                    if x is None:
                        return it.term(it.getf(r, "pos")) == 0
                    if isinstance(x, ListObj):
                        y = it.getf(x, "v")
                        if isinstance(y, Seq) and y.et is it.ETS["str"]:
                            it.path.assume(ROW.ext(y.t, TABLE.at(T, 0)))
                            return z3.And(it.term(it.getf(r, "pos")) >= 1, y.t == TABLE.at(T, 0))
                        if isinstance(y, list) and not y:
                            return z3.And(it.term(it.getf(r, "pos")) >= 1, ROW.len(TABLE.at(T, 0)) == 0)
                    return None
                out.append(("%s.%s is the first row" % cell, h))

                def at0(s, cell=cell, r=r, T=T):
                    x, p, n = s.decided(cell), it.term(it.getf(r, "pos")), it.term(it.getf(e, "n"))
                    if x is None:
                        return z3.And(p == 0, n == z3.If(TABLE.len(T) > 0, Z(1), Z(0)))
                    return p == n if isinstance(x, ListObj) else None
                out.append(("%s.%s unset only at the first row" % cell, at0))
                for c2, o2, v2 in st.cells():
                    if kind_of(st.entry.get(c2)) == "int" and o2 is not e and o2 is not r:
                        def ln(s, cell=cell, c2=c2):
                            x = s.decided(cell)
                            y = it.term(s.now(c2), "int")
                            return y == 0 if x is None else y >= 1 if isinstance(x, ListObj) else None
                        out.append(("%s.%s unset iff %s.%s is 0" % (cell + c2), ln))
    return out


class Read(Contract):
    key = DR + ".__next__"
    must_reach = ("return",)
    templates = [cio.reader_templates, cmap.map_templates, skip_templates]
    budget = 400

    def __init__(self, form):
        self.form = form
        self.label = "%s (%s)" % (self.key, form)

    def axioms(self):
        return list(axioms())

    def setup(self, it):
        cmap.prepare(it)
        self.lines = it.fresh("obj", "lines")
        self.d = it.fresh("obj", "dialect")
        it.path.assume(z3.Not(smt.obj_is_none(self.d.t)))
        it.ghost["dialects_ok"] = True
        self.rk = it.fresh("obj", "restkey") if it.path.choose(2) == 1 else None
        self.rv = it.fresh("obj", "restval") if it.path.choose(2) == 1 else None
        it.ghost["consts"] = [cmap.kt(it, self.rv)]
        self.F = it.path.fresh("F", OSEQ.sort)
        self.peek = it.path.choose(2) == 1
        T = cio.ROWS(cio.L.input_of_obj(self.lines.t) if hasattr(cio.L, "input_of_obj") else self.lines.t, self.d.t)
        return {}

    def body(self, it, args):
        cls = it.resolve(DR)
        kw = {"dialect": self.d}
        if self.form != "header":
            kw["fieldnames"] = it.seq_list(Seq(it.ETS["obj"], self.F), frozen=True)
        if self.rk is not None:
            kw["restkey"] = self.rk
        if self.rv is not None:
            kw["restval"] = self.rv
        r = it.call(cls, [self.lines], kw)
        it.path.check(z3.BoolVal(len(it.ghost["readers"]) == 1), "one reader is made")
        rd = it.ghost["readers"][0]
        it.path.check(z3.BoolVal(rd.src is self.lines and rd.d.eq(self.d.t)), "the reader gets the caller's lines and dialect")
        cio.start(it, rd)
        T = self.T = rd.table.t
        n = TABLE.len(T)
        head = self.form == "header"
        e = it.ghost["expected"] = Obj(it, "ghost", {"n": S("int", z3.If(n > 0, Z(1), Z(0)) if head else Z(0))})
        if self.peek:
            try:
                self.check_fields(it, it.getattr(r, "fieldnames"), T, n, head)
            except PyExc as x:
                # the header row cannot be read
                it.path.check(z3.And(n == 0, rd.fails) if head else z3.BoolVal(False), "reading the field names fails only when the first row cannot be read")
                raise smt.PathEnd()
        done = Obj(it, "ghost", {"n": 0})

        def step():
            x0 = it.term(it.getf(e, "n"))
            try:
                v = it.call(it.builtins["next"], [r], {})
            except PyExc as x:
                q = NN(T, x0)
                it.path.check(q == n, "nothing is returned only when no non-empty row is left")
                stop = isinstance(x.value.cls, ClassVal) and x.value.cls is B["StopIteration"]
                it.path.check(z3.Not(rd.fails) if stop else rd.fails, "a failure of the reader surfaces, the end of the rows stops the iteration")
                raise smt.PathEnd()
            q = NN(T, x0)
            it.path.check(q < n, "a mapping is returned only for a non-empty row")
            row = TABLE.at(T, q)
            it.path.check(it.term(it.getf(rd, "pos")) == q + 1, "each non-empty row is used once, in order")
            self.check_map(it, v, row, T, head)
            it.setf(e, "n", S("int", q + 1))
            if self.peek:
                self.check_fields(it, it.getattr(r, "fieldnames"), T, n, head)
        it.while_loop(lambda: it.fresh("bool", "more").t, step, ("consumer",))
        return None

    def fields(self, T, head):
        return ("str", TABLE.at(T, 0), ROW) if head else ("obj", self.F, OSEQ)

    def check_fields(self, it, v, T, n, head):
        if v is None:
            it.path.check(z3.And(z3.BoolVal(head), n == 0), "there are field names unless the input is empty")
            return
        et, F, th = self.fields(T, head)
        s = it.as_seq(v)
        if s.et is None:
            it.path.check(th.len(F) == 0, "the field names are those given or the first row")
            return
        it.path.assume(th.ext(s.t, F))
        it.path.check(s.t == F if s.et.name == et else z3.BoolVal(False), "the field names are those given or the first row")

    def check_map(self, it, v, row, T, head):
        ok = isinstance(v, Obj) and v.cls is cmap.MAP
        it.path.check(z3.BoolVal(ok), "a mapping is returned")
        if not ok:
            raise smt.PathEnd()
        et, F, th = self.fields(T, head)
        lf, lr = th.len(F), ROW.len(row)
        k = it.path.fresh("key", U)
        last = cmap.LO[et](F, lf, k)
        has, val = z3.Select(it.getf(v, "has").t, k), z3.Select(it.getf(v, "val").t, k)
        rk, rv = cmap.kt(it, self.rk), cmap.kt(it, self.rv)
        surplus = z3.And(lr > lf, k == rk)
        rest = ROW.sub(row, lf, lr)
        it.path.check(has == z3.Or(last >= 0, surplus), "the keys are the field names, and the rest key for surplus cells")
        it.path.check(z3.Implies(z3.And(last >= 0, last < lr, z3.Not(surplus)), val == smt.box_str(ROW.at(row, last))), "each field name is paired with its cell")
        it.path.check(z3.Implies(z3.And(last >= lr, z3.Not(surplus)), val == rv), "missing cells appear as the rest value")
        it.path.check(z3.Implies(surplus, val == cmap.BOXROW["str"](rest)), "surplus cells appear as a list under the rest key")

    def post(self, it, args, kind, v):
        it.path.check(z3.BoolVal(kind == "return"), "a reader can be made")


ASSUMED = dict(cio.ASSUMED)
CONTRACTS = [Read("header"), Read("given")]
TRUSTED = ["the reader's contract is the one discharged in C06; OrderedDict and dict: membership and values by key; field names are hashable"]
