R = "clevercsv/"
SEEDS = [
 dict(id="c01-escaped-delim-in-quotes", property="C01", needs="an escape character before a delimiter inside quotes",
      breaks="the escape character stays in the text before an escaped delimiter inside quotes",
      edits=[("src/cparser.c", "			if (u != self->escapechar && u != self->delimiter &&\n					u != self->quotechar && u != '\\0') {", "			if (u != self->escapechar &&\n					u != self->quotechar && u != '\\0') {")],
      demo='''
from clevercsv.cparser_util import parse_string
from clevercsv.dialect import SimpleDialect
got = list(parse_string('"a\\\\,b",c\\n', SimpleDialect(",", '"', "\\\\")))
assert got == [["a,b", "c"]], got
'''),
 dict(id="c01-escaped-line-end", property="C01", needs="an escaped line end as the last characters of a line, with a quote earlier in the cell",
      breaks="a row is cut in two at an escaped line end",
      edits=[("src/cparser.c", "			if (u == '\\0')\n				break;\n			/* fallthru */", "			if (u == '\\0' && self->field_len < self->field_size / 4)\n				break;\n			/* fallthru */")],
      demo='''
from clevercsv.cparser_util import parse_string
from clevercsv.dialect import SimpleDialect
for n in (1, 10, 1000, 1030, 5000):
    t = "x" * n
    got = list(parse_string(t + "\\\\\\ny,b\\n", SimpleDialect(",", '"', "\\\\")))
    assert got == [[t + "\\ny", "b"]], (n, got)
'''),
 dict(id="c03-tuple-leak", property="C03", needs="many cells read with return_quoted", breaks="a reference to every cell tuple is leaked",
      edits=[("src/cparser.c", "			return -1;\n		}\n		Py_DECREF(tuple);\n	} else {", "			return -1;\n		}\n	} else {")],
      demo='''
import sys
from clevercsv.cparser_util import parse_string
from clevercsv.dialect import SimpleDialect
rows = list(parse_string("abc,def\\n", SimpleDialect(",", "", ""), return_quoted=True))
t = rows[0][0]
del rows
assert sys.getrefcount(t) == 2, sys.getrefcount(t)
'''),
 dict(id="c04-limit-off-by-one", property="C04", needs="a cell of exactly one character more than the limit", breaks="a cell one character over the limit is accepted",
      edits=[("src/cparser.c", "	if (self->field_len >= self->field_limit) {", "	if (self->field_len > self->field_limit) {")],
      demo='''
import clevercsv
from clevercsv.cparser_util import field_size_limit
old = field_size_limit(5)
try:
    list(clevercsv.reader(["abcde,abcde\\n"]))
    try:
        list(clevercsv.reader(["abcde,abcdef\\n"]))
    except clevercsv.Error:
        pass
    else:
        raise SystemExit("six characters accepted")
finally:
    field_size_limit(old)
'''),
 dict(id="c05-limit-before-candidates", property="C05", needs="a sample whose candidate dialects cannot be computed (a lone surrogate)", breaks="the field size limit stays at the sample's length after a failed detection",
      edits=[(R + "consistency.py", "        # TODO: probably some optimization there too\n        dialects = get_dialects(data, delimiters=delimiters)\n\n", ""),
             (R + "consistency.py", "        old_limit = field_size_limit(len(data) + 1)\n\n", "        old_limit = field_size_limit(len(data) + 1)\n\n        # TODO: probably some optimization there too\n        dialects = get_dialects(data, delimiters=delimiters)\n\n")],
      demo='''
import clevercsv
from clevercsv import field_size_limit
old = field_size_limit()
try:
    clevercsv.Detector().detect("a,\\udc80\\n", method="consistency")
except UnicodeError:
    pass
assert field_size_limit() == old, field_size_limit()
'''),
 dict(id="c06-blank-lines-uncounted", property="C06", needs="an empty row before the line number is asked for", breaks="the line number does not count empty rows",
      edits=[(R + "read.py", '        self.line_num += 1\n', '        if row:\n            self.line_num += 1\n')],
      demo='''
import clevercsv
r = clevercsv.reader(["a,b\\n", "\\n", "c,d\\n"])
assert len(list(r)) == 3 and r.line_num == 3, r.line_num
'''),
 dict(id="c07-escape-outside-urls", property="C07", needs="an escape character that occurs before the delimiter only next to a URL", breaks="an escape character is not considered when what it escapes is part of a URL",
      edits=[(R + "potential_dialects.py", "    for u, v in pairwise(data):\n        if u not in", "    for u, v in pairwise(no_url):\n        if u not in")],
      demo='''
from clevercsv.potential_dialects import get_dialects
got = {(d.delimiter, d.quotechar, d.escapechar) for d in get_dialects("x-y,www.a.com/-b,z\\n")}
assert ("-", "", "/") in got, got
'''),
 dict(id="c08-skip-ties", property="C08", needs="a candidate whose pattern score equals the best score so far and whose cells all have a known type", breaks="a tied best candidate is skipped",
      edits=[(R + "consistency.py", "            if P < incumbent_score and self._skip:", "            if P <= incumbent_score and self._skip:")],
      demo='''
from clevercsv.consistency import ConsistencyDetector
import random
rng = random.Random(5)
for i in range(20000):
    t = "".join(rng.choice("ab1,; '\\"\\n") for _ in range(rng.randint(1, 14)))
    a, b = ConsistencyDetector(skip=True).detect(t), ConsistencyDetector(skip=False).detect(t)
    assert a == b, (t, a, b)
'''),
 dict(id="c09-empty-time", property="C09", needs="a cell with a date, a T and nothing behind it", breaks="type detection raises IndexError",
      edits=[(R + "detect_type.py", '            if parts[1].endswith("Z") and self.is_time(parts[1][:-1]):', '            if parts[1][-1] == "Z" and self.is_time(parts[1][:-1]):')],
      demo='''
from clevercsv.detect_type import TypeDetector
for c in ("2020-01-01T", "2020-01-01T10:00", "x"):
    TypeDetector().detect_type(c)
'''),
 dict(id="c10-escaped-quote-delim", property="C10", needs="an escaped quote directly before a delimiter or quote", breaks="the delimiter after an escaped quote counts as text",
      edits=[("src/abstraction.c", "				stack[len++] = 'C';\n				escape_next = 0;\n			} else\n				stack[len++] = 'Q';", "				stack[len++] = 'C';\n			} else\n				stack[len++] = 'Q';")],
      demo='''
from clevercsv.detect_pattern import make_abstraction
from clevercsv.dialect import SimpleDialect
got = make_abstraction('a\\\\",b\\n', SimpleDialect(",", '"', "\\\\"))
assert got == "CDC", got
'''),
 dict(id="c11-semicolon-order", property="C11", needs="two dialects with a semicolon as delimiter", breaks="each of two dialects with a semicolon is smaller than the other",
      edits=[(R + "dialect.py", '        if self.delimiter == ";" and not other.delimiter == ";":', '        if self.delimiter == ";":')],
      demo='''
from clevercsv.dialect import SimpleDialect
a, b = SimpleDialect(";", "", ""), SimpleDialect(";", '"', "")
assert a < b and not b < a
'''),
 dict(id="c12-strict-lost", property="C12", needs="a strict dialect", breaks="strictness is lost in a dictionary",
      edits=[(R + "dialect.py", '            d["delimiter"], d["quotechar"], d["escapechar"], strict=d["strict"]\n', '            d["delimiter"], d["quotechar"], d["escapechar"]\n')],
      demo='''
from clevercsv.dialect import SimpleDialect
for st in (False, True):
    d = SimpleDialect(",", '"', "", strict=st)
    assert SimpleDialect.deserialize(d.serialize()) == d
'''),
 dict(id="c13-two-empty-rows", property="C13", needs="two empty rows after one another", breaks="an empty row is returned as a row of missing cells",
      edits=[(R + "dict_read_write.py", "        while row == []:", "        if row == []:")],
      demo='''
import clevercsv
got = [dict(x) for x in clevercsv.DictReader(["a,b\\n", "1,2\\n", "\\n", "\\n", "3,4\\n"])]
assert got == [{"a": "1", "b": "2"}, {"a": "3", "b": "4"}], got
'''),
 dict(id="c14-falsy-values", property="C14", needs="a false value such as 0 under a field, and a rest value", breaks="false values are replaced by the rest value",
      edits=[(R + "dict_read_write.py", "        return (rowdict.get(key, self.restval) for key in self.fieldnames)", "        return (rowdict.get(key) or self.restval for key in self.fieldnames)")],
      demo='''
import io, clevercsv
f = io.StringIO(newline="")
w = clevercsv.DictWriter(f, ["a", "b"], restval="-")
w.writerow({"a": 0})
assert f.getvalue() == "0,-\\r\\n", f.getvalue()
'''),
 dict(id="c16-blank-rows", property="C16", needs="a row without any text in the middle of the file", breaks="rows whose cells are all empty are dropped",
      edits=[(R + "console/commands/standardize.py", "            for row in read:\n                write.writerow(row)", "            for row in read:\n                if any(row):\n                    write.writerow(row)")],
      demo='''
import os, sys
from clevercsv.console.application import build_application
p, o = os.path.join(sys.argv[1], "a.csv"), os.path.join(sys.argv[1], "o.csv")
open(p, "w").write("a;b;c\\n1;2;3\\n;;\\n4;5;6\\n")
assert build_application().run(["standardize", "-e", "utf-8", "-o", o, p]) == 0
got = open(o, newline="").read()
assert got == "a,b,c\\r\\n1,2,3\\r\\n,,\\r\\n4,5,6\\r\\n", got
'''),
 dict(id="c17-first-encoding", property="C17", needs="two files with different encodings in place", breaks="every file is written in the encoding of the first",
      edits=[(R + "console/commands/standardize.py", "        for path, output, encoding in zip(paths, outputs, encodings):\n", "        for path, output, encoding in zip(paths, outputs, encodings):\n            target_encoding = target_encoding or encoding\n")],
      demo='''
import os, sys
from clevercsv.console.application import build_application
ps = [os.path.join(sys.argv[1], x) for x in ("a.csv", "b.csv")]
open(ps[0], "w", encoding="utf-8").write("a;\\u00e9\\n1;2\\n")
open(ps[1], "w", encoding="latin-1").write("a;\\u00e9\\n1;2\\n")
assert build_application().run(["standardize", "-i", "-e", "utf-8", "-e", "latin-1"] + ps) == 2
assert open(ps[0], "rb").read() == "a,\\u00e9\\r\\n1,2\\r\\n".encode("utf-8")
assert open(ps[1], "rb").read() == "a,\\u00e9\\r\\n1,2\\r\\n".encode("latin-1"), open(ps[1], "rb").read()
'''),
 dict(id="c18-stripped-name", property="C18", needs="a file name that begins or ends with a blank", breaks="the code is for another file name",
      edits=[(R + "console/commands/code.py", "        filename = self.args.path\n", "        filename = self.args.path.strip()\n")],
      demo='''
import os, sys, io, contextlib
from clevercsv.console.application import build_application
os.chdir(sys.argv[1])
for n in ("a.csv", " a.csv", "a.csv "):
    open(n, "w").write("a,b\\n1,2\\n")
for n in ("a.csv", " a.csv", "a.csv "):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        assert build_application().run(["code", "-e", "utf-8", n]) == 0
    assert '"%s"' % n in out.getvalue(), out.getvalue()
'''),
 dict(id="c19-trimmed-sample", property="C19", needs="a file whose dialect shows only in blanks at the end of the sample", breaks="detection does not see the end of the sample",
      edits=[(R + "wrappers.py", "            data = fid.read(num_chars) if num_chars else fid.read()\n            dialect = Detector().detect(data, verbose=verbose)\n            if dialect is None:", "            data = fid.read(num_chars) if num_chars else fid.read()\n            dialect = Detector().detect(data.rstrip(), verbose=verbose)\n            if dialect is None:")],
      demo='''
import os, sys
import clevercsv
from clevercsv.wrappers import stream_table
p = os.path.join(sys.argv[1], "a.csv")
t = "a b\\t\\nc d\\t\\ne f\\t\\n"
open(p, "w").write(t)
d = clevercsv.Detector().detect(t[:4])
want = list(clevercsv.reader(open(p, newline=""), d))
got = list(stream_table(p, encoding="utf-8", num_chars=4))
assert got == want, (got, want)
'''),
 dict(id="c20-nested-at-the-edge", property="C20", needs="quoted cells with doubled quotes at their ends", breaks="cells with inner quotes are accepted as normal form 1",
      edits=[(R + "normal_form.py", "    return quotechar in string[1:-1]", "    return quotechar in string[1:-1].strip(quotechar)")],
      demo='''
from clevercsv.normal_form import is_form_1
from clevercsv.dialect import SimpleDialect
assert not is_form_1(['"""a""","b"', '"c","d"'], SimpleDialect(",", '"', ""))
'''),
 dict(id="c21-first-megabyte", property="C21", needs="a file longer than a megabyte that the detector is not sure of before", breaks="encoding detection stops after a megabyte",
      edits=[(R + "encoding.py", "        while (not final_chunk) and (not detector.done):", "        while not (final_chunk or detector.done or fid.tell() >= 1 << 20):")],
      demo='''
import os, sys
from clevercsv.encoding import get_encoding
p = os.path.join(sys.argv[1], "a.csv")
open(p, "wb").write(b"abc,def\\n" * 150000 + "\\u4f60\\u597d,\\u4e16\\u754c,\\u00e9\\u00e8\\n".encode("utf-8") * 50)
got = get_encoding(p, try_cchardet=False)
assert got.lower() == "utf-8", got
'''),
 dict(id="c22-unsorted", property="C22", needs="tied candidates in different set orders", breaks="the detected dialect depends on the hash seed",
      edits=[(R + "consistency.py", "        for dialect in sorted(dialects):", "        for dialect in dialects:")],
      demo='''
import os, subprocess, sys
code = """
import random
from clevercsv.consistency import ConsistencyDetector
rng = random.Random(3)
for i in range(1500):
    t = "".join(rng.choice("ab,;'~`| -\\\\n") for _ in range(rng.randint(4, 16)))
    print(ConsistencyDetector().detect(t))
"""
outs = {subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(h)), capture_output=True, text=True, check=True).stdout for h in range(6)}
assert len(outs) == 1, len(outs)
'''),
]
