"""C02: what the writer writes, the reader reads back.

The parser follows the grammar of engine/grammar.py (C01's contracts; its step is required to do so only where written text takes it:
`written`, which the lemmas below show to hold at every character), the reader hands it the dialect (C06's), the
writer hands dialect and rows to the csv module (specs/cio.py), and _csv.writer writes the text of engine/csvfmt.py (assumed,
compared with the real module by the search).  The lemmas below are the induction over the written text that joins the two state
machines.  Its relation, at each position of the written text (row, cell k, j characters of the cell written):

  no quotes, j = 0   mode START_RECORD (k = 0) or START_FIELD, nothing collected
  no quotes, j > 0   mode IN_FIELD, collected == cell[:j], no opening quote
  quotes, before     as for j = 0
  quotes, j          mode IN_QUOTED_FIELD, collected == quote + cell[:j], opening quote noted, none closed
  quotes, after      mode IN_FIELD, collected == quote + cell + quote, closing quote noted last
  and always         the cells completed in this row are row[:k]

Each lemma takes one piece of text from one position to the next, one grammar step per character, with the lookahead the grammar has."""
import time
import z3
from engine import csvfmt, grammar, smt
from engine.contracts import Result, without
from engine.smt import Explorer, PathEnd, STR, ROW, I
from specs import c01, c04, c06, cio, cpars

Z = z3.IntVal
MAXCHAR = 0x10FFFF


class Ns:
    pass


def settings(d, q, e):
    """the dialects of the statement; 0 stands for a missing escape character, as in the parser"""
    end = lambda x: z3.Or(x == 10, x == 13)
    return z3.And(d > 0, q > 0, e >= 0, z3.Distinct(d, q, e), *[z3.And(x <= MAXCHAR, z3.Not(end(x))) for x in (d, q, e)])


def written(v, u, w):
    """the grammar's state v, the character u and the next one w may occur together when written text is read"""
    end = lambda x: z3.Or(x == 10, x == 13)
    s = v.state
    after = z3.Or(u == v.d, end(u))
    return z3.And(settings(v.d, v.q, v.e),
                  z3.Implies(z3.Or(s == grammar.REC, s == grammar.FLD), u != 0),
                  z3.Implies(s == grammar.TXT, z3.If(v.start != 0, after, z3.And(u != 0, u != v.q))),
                  z3.Implies(z3.Or(s == grammar.ESC, s == grammar.QESC), z3.And(u == v.e, u != 0)),
                  z3.Implies(z3.And(s == grammar.QTD, u == v.q), z3.Or(w == v.q, w == v.d, end(w))),
                  z3.Implies(s == grammar.QQ, u == v.q),
                  z3.Implies(s == grammar.EOL, z3.Or(u == 10, u == 0)),
                  s != grammar.AESC,
                  z3.Implies(z3.And(u != 0, s != grammar.EOL), v.len < v.limit + z3.If(z3.Or(u == v.d, end(u)), 1, 0)))


class Step(cpars.ProcessChar):
    """parse_process_char on the states and characters of written text"""

    def setup(self, m):
        a = super().setup(m)
        m.path.assume(written(self.pre, self.u.term(), self.v.term()))
        return a


class Sim:
    """a grammar state running over written text"""

    def __init__(self, p, unicode=MAXCHAR):
        self.p, self.path = p, p
        self.ghost_hook = {"flags": False}
        c = lambda n: p.fresh(n, I)
        self.d, self.q, self.e = c("delimiter"), c("quotechar"), c("escapechar")
        p.assume(settings(self.d, self.q, self.e))
        self.strict, self.limit = p.fresh("strict", z3.BoolSort()), c("limit")
        self.row, self.k = p.fresh("row", ROW.sort), c("k")
        p.assume(z3.And(self.k >= 0, self.k < ROW.len(self.row)))
        self.cell = ROW.at(self.row, self.k)
        self.n = STR.len(self.cell)
        i = z3.Int("i!nul")
        p.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), z3.And(STR.at(self.cell, i) > 0, STR.at(self.cell, i) <= MAXCHAR)),
                           patterns=[STR.at(self.cell, i)]))
        p.assume(self.n + 2 <= self.limit)                 # the cell and its quotes are within the limit
        self.alone = z3.And(ROW.len(self.row) == 1, self.n == 0)

    def unquoted(self):
        i = z3.Int("i!unq")
        c = STR.at(self.cell, i)
        self.p.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), z3.Not(z3.Or(*csvfmt.special(c, self.d, self.q)))), patterns=[c]))
        self.p.assume(z3.Not(self.alone))

    def at(self, mode, raw, start, end, cells=None):
        v = self.v = Ns()
        v.state, v.raw, v.len, v.start, v.end = Z(mode), raw, STR.len(raw), Z(1 if start else 0), end
        v.limit, v.strict, v.d, v.q, v.e = self.limit, z3.If(self.strict, Z(1), Z(0)), self.d, self.q, self.e
        v.cells = ROW.sub(self.row, Z(0), self.k) if cells is None else cells
        return self

    def before(self):
        """before the first character of the cell"""
        first = self.p.decide(self.k == 0)
        return self.at(grammar.REC if first else grammar.FLD, STR.empty, False, Z(0))

    def plain(self, j):
        """j > 0 characters of a cell without quotes written"""
        return self.at(grammar.TXT, STR.sub(self.cell, Z(0), j), False, Z(0))

    def inside(self, j):
        return self.at(grammar.QTD, STR.cat(STR.unit(self.q), STR.sub(self.cell, Z(0), j)), True, Z(0))

    def after(self):
        raw = STR.cat(STR.unit(self.q), STR.cat(self.cell, STR.unit(self.q)))
        return self.at(grammar.TXT, raw, True, self.n + 2)

    def feed(self, chars, look):
        """the grammar reads the characters; look follows the last one"""
        for i, u in enumerate(chars):
            self.p.check(written(self.v, u, chars[i + 1] if i + 1 < len(chars) else look), "the parser's step is under contract here")
            w = cpars.grammar_step(self, self.v, u, chars[i + 1] if i + 1 < len(chars) else look)
            if w[0] == "error":
                self.p.check(z3.BoolVal(False), "no error is raised (%s)" % w[1])
                raise PathEnd()
            v = self.v
            _, v.state, v.raw, v.len, start, v.end, v.cells = w
            v.start = z3.If(start, Z(1), Z(0))
        return self

    def look(self):
        x = self.p.fresh("lookahead", I)
        self.p.assume(z3.And(x >= 0, x <= MAXCHAR))
        return x

    def expect(self, got, what):
        """the state is that of `self.at...` called on another object"""
        a, b, p = got, self.v, self.p
        p.check(a.state == b.state, what + ": mode")
        p.assume(STR.ext(a.raw, b.raw))
        p.check(z3.And(a.len == b.len, a.raw == b.raw), what + ": collected text")
        p.check(z3.And((a.start != 0) == (b.start != 0), a.end == b.end), what + ": quotes noted")
        p.assume(ROW.ext(a.cells, b.cells))
        p.check(a.cells == b.cells, what + ": cells completed")

    def char(self):
        """one more character of the cell"""
        j = self.p.fresh("j", I)
        self.p.assume(z3.And(j >= 0, j < self.n, STR.snoc(self.cell, j)))
        return j, STR.at(self.cell, j)

    def emit(self, c):
        return csvfmt.emit(c, self.q, z3.If(self.e == 0, Z(-1), self.e), truth=self.p.decide)


def plain_char(s):
    s.unquoted()
    j, c = s.char()
    s.before() if s.p.decide(j == 0) else s.plain(j)
    now = s.feed(s.emit(c), s.look()).v
    s.plain(j + 1).expect(now, "a character of a cell without quotes")


def open_quote(s):
    s.before()
    now = s.feed([s.q], s.look()).v
    s.inside(Z(0)).expect(now, "the opening quote")


def quoted_char(s):
    j, c = s.char()
    s.inside(j)
    now = s.feed(s.emit(c), s.look()).v
    s.inside(j + 1).expect(now, "a character of a cell with quotes")


def line_end_in_quotes(s):
    """lines are cut after line ends; the end of the line is no character of the cell"""
    j = s.p.fresh("j", I)
    s.p.assume(z3.And(j >= 0, j <= s.n))
    s.inside(j)
    now = s.feed([Z(grammar.NUL)], Z(grammar.NUL)).v
    s.inside(j).expect(now, "the end of a line within a cell")


def terminator(s):
    return [Z(10)] if s.p.choose(2) == 0 else [Z(13), Z(10)]


def close_quote(s):
    s.inside(s.n)
    look = s.d if s.p.choose(2) == 0 else terminator(s)[0]
    now = s.feed([s.q], look).v
    s.p.assume(STR.ext(STR.sub(s.cell, Z(0), s.n), s.cell))
    s.after().expect(now, "the closing quote")


def finished(s):
    """the positions at the end of a cell"""
    if s.p.choose(2) == 0:
        s.after()
        inner = STR.sub(s.v.raw, Z(1), s.n + 1)
        s.p.assume(STR.ext(inner, s.cell))
    else:
        s.unquoted()
        s.before() if s.p.decide(s.n == 0) else s.plain(s.n)
    s.p.assume(ROW.snoc(s.row, s.k))


def next_cell(s):
    finished(s)
    s.p.assume(s.k + 1 < ROW.len(s.row))
    now = s.feed([s.d], s.look()).v
    s.at(grammar.FLD, STR.empty, False, Z(0), ROW.sub(s.row, Z(0), s.k + 1)).expect(now, "the delimiter after a cell")


def row_end(s):
    finished(s)
    s.p.assume(s.k + 1 == ROW.len(s.row))
    now = s.feed(terminator(s) + [Z(grammar.NUL)], Z(grammar.NUL)).v
    s.p.assume(ROW.ext(ROW.sub(s.row, Z(0), s.k + 1), s.row))
    s.at(grammar.REC, STR.empty, False, Z(0), s.row).expect(now, "the end of a row, which is the row written")


def empty_row(s):
    s.at(grammar.REC, STR.empty, False, Z(0), ROW.empty)
    now = s.feed(terminator(s) + [Z(grammar.NUL)], Z(grammar.NUL)).v
    s.at(grammar.REC, STR.empty, False, Z(0), ROW.empty).expect(now, "a row without cells")


def not_midway(s):
    """within a row the grammar is never at the start of a record when a line ends, so that no row ends early"""
    j = s.p.fresh("j", I)
    s.p.assume(z3.And(j >= 0, j <= s.n))
    s.inside(j)
    s.p.check(s.v.state != grammar.REC, "no row ends at a line end within a cell")


class Simulation:
    """a lemma with the case distinctions of the grammar"""
    key = None

    def __init__(self, label, f):
        self.label, self.f = label, f

    def verify(self, *a, **k):
        res = Result("lemma: " + self.label)
        t0 = time.time()
        ex = Explorer(timeout=20000, deadline=t0 + 200)

        def body(path):
            self.f(Sim(path))
            if not path.sat(z3.BoolVal(True)):
                raise PathEnd()
        try:
            ex.run(body)
        except smt.Unsupported as u:
            res.unsupported = str(u)
        res.obligations = [(o.label, o.status, round(o.secs, 3), o.detail, o.where) for o in ex.obligations]
        res.paths, res.complete = ex.paths, len(ex.complete)
        res.solver_s, res.queries = ex.solver_s, ex.queries
        if not ex.complete:
            res.vacuous = "no case of the lemma is possible"
        if res.failed:
            # nothing of the repository occurs in a lemma: the solver's failure says nothing of the code
            res.unsupported = "the solver did not find the proof of: " + "; ".join(o[0] for o in res.failed)
            res.obligations = res.discharged
        res.wall = time.time() - t0
        return res


LEMMAS = [Simulation("written text is read back: " + n, f) for n, f in (
    ("characters of a cell without quotes", plain_char), ("opening quote", open_quote), ("characters of a cell with quotes", quoted_char),
    ("line end within quotes", line_end_in_quotes), ("closing quote", close_quote), ("delimiter", next_cell), ("end of row", row_end),
    ("row without cells", empty_row), ("no early end of row", not_midway))]

ASSUMED = {}
# not about written text: errors, limits, line counts, resources
BESIDE = cpars.LEAKS + ("a NUL character is reported", "a line that is no string", "an unfinished row", "grammar errors are reported", "the only other error",
                        "a row is completed at the end of the input", "the open row is completed", "collecting beyond the limit", "no more characters than",
                        "only the documented errors", "memory is reported as exhausted", "a failed call changes nothing", "the cell is flagged", "return_quoted is",
                        "quoted flags are", "line_num", "a new reader has returned", "parse failures surface", "an exception of the input", "an Error is raised only",
                        "an invalid dialect", "errors of the csv module", "failure is a negative")
PARTS = [cpars.IterNext(), Step(), cpars.SaveField(), cpars.AddChar(), cpars.ParserNew(), cpars.SetBool(), cpars.SetLong(), cpars.SetChar(), c04.ParseString(),
         c06.MakeSimple("simple", ()), c06.MakeSimple("name", ()), c06.Next(), c06.IterNext(), c06.Loop(),
         cio.MakeWriter("simple", over=False), cio.MakeWriter("name", over=False), cio.WriteRow("writerow"), cio.WriteRow("writerows")]
CONTRACTS = LEMMAS + [without(c, *BESIDE) for c in PARTS]
TRUSTED = sorted(set(c06.TRUSTED + c01.TRUSTED)) + [
    "_csv.writer (QUOTE_MINIMAL, doublequote) writes the text of engine/csvfmt.py; the search compares it with the real module on every table it tries",
    "the default csv dialect 'excel' has delimiter ',', quotechar '\"', no escapechar, doublequote, QUOTE_MINIMAL and lineterminator '\\r\\n'",
    "text read with newline='' is cut into lines exactly after '\\n', '\\r\\n' and a '\\r' not followed by '\\n'",
    "induction over the positions of the written text: the lemmas are its cases"]
