R = "clevercsv/"
SEEDS = [
 dict(id="c02-escape-dropped", property="C02", needs="a simple dialect with quote and escape characters and a cell that needs no quoting but holds the escape character",
      breaks="the escape character is not escaped by the writer, so the reader takes it as an escape",
      edits=[(R + "dialect.py", '            escapechar = None if self.escapechar == "" else self.escapechar\n', '            escapechar = (\n                None if self.escapechar == "" or self.quotechar else self.escapechar\n            )\n')],
      demo='''
import io, clevercsv
from clevercsv.dialect import SimpleDialect
d = SimpleDialect(",", '"', "\\\\")
for rows in ([["a\\\\", "b"]], [["x", "a\\\\,b", "c"], ["p", "q", "r\\\\"]]):
    f = io.StringIO(newline="")
    clevercsv.writer(f, dialect=d).writerows(rows)
    got = list(clevercsv.reader(io.StringIO(f.getvalue(), newline=""), dialect=d))
    assert got == rows, (rows, got)
'''),
 dict(id="c10-cells-by-marks", property="C10", needs="a quoted part that is never closed on, so that quote markers stay in the abstraction",
      breaks="quote markers are counted as cells of the row, the score no longer follows the formula",
      edits=[(R + "detect_pattern.py", '        Lk = len(pat_k.split("D"))\n', '        Lk = len(pat_k.replace("D", ""))\n')],
      demo='''
from clevercsv.detect_pattern import make_abstraction, pattern_score
from clevercsv.dialect import SimpleDialect
d = SimpleDialect(",", '"', "")
for s in ('a,b\\nc,d\\n', 'a,b\\nc,"d\\n', 'x"y,z\\n', '"'):
    A = make_abstraction(s, d)
    rows = A.split("R")
    want = 0.0
    for p in set(rows):
        L = len(p.split("D"))
        want += rows.count(p) * (max(1e-3, L - 1) / L)
    want /= len(set(rows))
    got = pattern_score(s, d)
    assert abs(got - want) < 1e-9, (s, A, got, want)
'''),
 dict(id="c15-empty-rows-ignored", property="C15", needs="a table of equally long rows with an empty row among them",
      breaks="a ragged table with empty rows is written instead of refused",
      edits=[(R + "wrappers.py", "    if len(set(map(len, list_table))) > 1:", "    if len(set(map(len, filter(None, list_table)))) > 1:")],
      demo='''
import os, sys
from clevercsv import write_table
p = os.path.join(sys.argv[1], "out.csv")
for table in ([["a", "b"], [], ["c", "d"]], [[], ["x"]]):
    for t in (False, True):
        try:
            write_table(table, p, transpose=t)
        except ValueError:
            pass
        else:
            raise SystemExit("accepted %r" % (table,))
        assert not os.path.exists(p)
write_table([["a", "b"], ["c", "d"]], p)
'''),
 dict(id="c13-rest-key-kept", property="C13", needs="field names given twice or a rest key that is also a field name, with a short row",
      breaks="a missing cell of a repeated field name does not appear as the rest value",
      edits=[(R + "dict_read_write.py", "                d[key] = self.restval\n        return d", "                d.setdefault(key, self.restval)\n        return d")],
      demo='''
import warnings, clevercsv
warnings.simplefilter("ignore")
rows = list(clevercsv.DictReader(["1,2\\n"], fieldnames=["a", "b", "a"], restval="-"))
assert dict(rows[0]) == {"a": "-", "b": "2"}, rows
'''),
 dict(id="c20-escape-one-missing", property="C20", needs="a sample that has the delimiter but not the quote character, with a potential escape character before the delimiter",
      breaks="a sample with a potential escape is accepted as a normal form",
      edits=[(R + "normal_form.py", "    if delim not in data and quotechar not in data:", "    if delim not in data or quotechar not in data:")],
      demo='''
from clevercsv.normal_form import detect_dialect_normal, maybe_has_escapechar
s = "a/,b\\nc/,d\\n"
assert maybe_has_escapechar(s, "UTF-8", ",", '"')
assert detect_dialect_normal(s) is None, detect_dialect_normal(s)
'''),
 dict(id="c06-shared-dialect", property="C06", needs="a simple dialect given together with overrides, and used again",
      breaks="the overrides of a reader change the caller's dialect",
      edits=[(R + "read.py", "            sd = SimpleDialect(\n                dialect.delimiter,\n                dialect.quotechar,\n                dialect.escapechar,\n                strict=dialect.strict,\n            )\n", "            sd = dialect\n")],
      demo='''
import clevercsv
from clevercsv.dialect import SimpleDialect
d = SimpleDialect(",", '"', "")
list(clevercsv.reader(["a;b\\n"], d, delimiter=";"))
assert d == SimpleDialect(",", '"', ""), d
'''),
 dict(id="c16-empty-rows-dropped", property="C16", needs="--transpose and a file with an empty line",
      breaks="the empty column of an empty row is dropped when transposing",
      edits=[(R + "console/commands/standardize.py", '        rows = list(map(list, itertools.zip_longest(*rows, fillvalue="")))', '        rows = list(\n            map(list, itertools.zip_longest(*filter(None, rows), fillvalue=""))\n        )')],
      demo='''
import os, sys
from clevercsv.console import build_application
p, o = os.path.join(sys.argv[1], "in.csv"), os.path.join(sys.argv[1], "out.csv")
with open(p, "w", newline="") as f:
    f.write('"a","b"\\n\\n"c","d"\\n')
import clevercsv
rows = clevercsv.read_table(p)
app = build_application()
app.run(["standardize", "-t", "-o", o, p])
with open(o, newline="") as f:
    got = list(clevercsv.reader(f))
n = max(map(len, rows))
want = [[(r[i] if i < len(r) else "") for r in rows] for i in range(n)]
assert got == want, (rows, got, want)
'''),
 dict(id="c08-close-scores", property="C08", needs="two candidates whose scores differ by less than one part in a million",
      breaks="a dialect with a lower score is taken as tied with the best one",
      edits=[(R + "consistency.py", "        return [d for d, score in scores.items() if score.Q == Qmax]", "        return [\n            d\n            for d, score in scores.items()\n            if score.Q is not None and Qmax - score.Q <= 1e-6 * Qmax\n        ]")],
      demo='''
from clevercsv.consistency import ConsistencyDetector, ConsistencyScore
from clevercsv.dialect import SimpleDialect
a, b = SimpleDialect(",", "", ""), SimpleDialect(";", "", "")
s = {a: ConsistencyScore(1.0, 1.0, 1.0), b: ConsistencyScore(1.0, 1.0, 1.0 - 1e-9)}
assert ConsistencyDetector.get_best_dialects(s) == [a]
'''),
]
