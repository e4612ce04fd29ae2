"""C02 search: writer then reader gives the table back."""
import csv
import io
import os
from common import pick
from engine import csvfmt

RULE = "tables of text cells over the dialect's own characters, line ends, blanks, letters, non-BMP; non-trivial: some cell holds a special character"

DIALECTS = [(",", '"', ""), (",", '"', "\\"), (";", "'", ""), ("\t", '"', "/"), ("|", "`", "!"), (" ", '"', ""), ("é", "ÿ", "€"),
            ("\U0001f600", "\u0394", ""), (":", "~", "\\"), ("a", "b", "c"), ("1", '"', " "), ("'", '"', "\\"), ("\x1f", '"', "\x1e"), ("\x0b", '"', "")]


def back(text, dialect, how, lines):
    import clevercsv
    from clevercsv.cparser_util import parse_string
    if how == 0:
        return list(clevercsv.reader(io.StringIO(text, newline=""), dialect))
    if how == 1:
        return list(parse_string(text, dialect)) if not isinstance(dialect, str) else list(clevercsv.reader(io.StringIO(text, newline=""), dialect))
    return list(clevercsv.reader(lines, dialect))


def assumed(s, rows, d, q, e):
    """the assumed contract of the csv module, on the csv module alone; nothing of the package occurs here"""
    buf = io.StringIO(newline="")
    if d is None:
        csv.writer(buf).writerows(rows)
        d, q, e, lt = ",", '"', "", "\r\n"
    else:
        lt = "\n"
        csv.writer(buf, delimiter=d, quotechar=q, escapechar=e or None, doublequote=True, quoting=csv.QUOTE_MINIMAL, skipinitialspace=False,
                   lineterminator=lt).writerows(rows)
    if buf.getvalue() != csvfmt.text(rows, d, q, e, lt):
        msg = "ASSUMPTION WRONG: csv.writer does not write the text of engine/csvfmt.py for %r" % ((rows, d, q, e),)
        if not any(f.startswith("ASSUMPTION") for f in s.families):
            s.families.append(msg[:400])


def one(s, rows, d, q, e, how=0, kind=0, strict=False):
    import clevercsv
    from clevercsv.dialect import SimpleDialect
    inp = {"rows": rows, "d": d, "q": q, "e": e, "how": how, "kind": kind, "strict": strict}
    s.begin(inp)
    dialect = "excel" if d is None else SimpleDialect(d, q, e, strict=strict)
    buf = io.StringIO(newline="")
    try:
        if kind == 3:
            w = clevercsv.writer(buf) if d is None else clevercsv.writer(buf, dialect=dialect)
            w.writerows(iter(rows))
        elif kind == 2:
            path = os.path.join(s.work, "c02.csv")
            if os.path.exists(path):
                os.unlink(path)
            width = max(map(len, rows), default=0)
            rows = [r + ["x"] * (width - len(r)) for r in rows]
            clevercsv.write_table(rows, path, dialect=dialect, encoding="utf-8")
            got = list(clevercsv.read_table(path, dialect=dialect, encoding="utf-8")) if rows else []
            buf = None
        else:
            w = clevercsv.writer(buf, dialect)
            for r in rows:
                w.writerow(r if kind == 0 else tuple(r))
        if buf is not None:
            text = buf.getvalue()
            got = back(text, dialect, how, io.StringIO(text, newline=""))
    except Exception as x:
        s.fail(inp, "the table back", "%s: %s" % (type(x).__name__, x))
        return
    if got != rows:
        s.fail(inp, repr(rows), repr(got) + " (via %r)" % (buf.getvalue() if buf else "file",))
    assumed(s, rows, d, q, e)
    special = [c for c in (d or ",", q or '"', e) if c] + ["\n", "\r"]
    s.count((rows, d, q, e, how, kind, strict), any(c in x for r in rows for x in r for c in special) or [""] in rows)


def run(s):
    import itertools
    s.rule = RULE
    rng = s.rng
    for d, q, e in [(None, None, None)] + DIALECTS[:3]:
        al = [c for c in (d or ",", q or '"', e, "a", "\n", "\r") if c]
        cells = [""] + al + ["".join(t) for t in itertools.product(al, repeat=2)]
        trip = ["".join(t) for t in itertools.product(al, repeat=3)]
        for c in cells + trip:
            one(s, [[c]], d, q, e)
            one(s, [[c, "b"], ["", c]], d, q, e, strict=True)
        for a, b in itertools.product(cells, repeat=2):
            if not s.frac(0.5):
                break
            one(s, [[a, b], [b]], d, q, e)
        else:
            s.families.append("every two-cell row over cells of at most two characters of %r" % "".join(al))
    for r in ([], [[]], [[""]], [[], ["a"], []], [["", ""], [""]], [["a"], []]):
        one(s, r, None, None, None)
        for kind in (1, 3):
            one(s, r, ",", '"', "\\", kind=kind)
    big = 128 * 1024
    for n in (4095, 4096, 4097, 8192, 65536, big - 2):
        one(s, [["x" * n], ['"' * (n // 2)], ["\n" * n, "z"]], None, None, None)
        one(s, [["\\" * (n // 2), "é" * n]], ",", '"', "\\")
    while s.time_left():
        d, q, e = rng.choice(DIALECTS + [(None, None, None)])
        al = [c for c in (d or ",", q or '"', e) if c] * 2 + ["\n", "\r", "\r\n", " ", "a", "b", "c", "'", '"', "\\", "é", "\U0001f600", "1", "\t", "\x85", "\u2028"]
        if rng.random() < 0.1:
            pool = [chr(rng.randint(33, 0x2fff)) for _ in range(3)]
            if len(set(pool)) == 3:
                d, q, e = pool
                e = e if rng.random() < 0.5 else ""
                al += pool * 2
        rows = [["".join(rng.choice(al) for _ in range(pick(rng, [(0, 3), (1, 4), (3, 4), (8, 2)]))) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(0, 5))]
        if rng.random() < 0.1:
            rows.insert(0, [])
        kind = rng.choice([0, 0, 1, 3, 2 if rng.random() < 0.2 else 0])
        if kind == 2 and any(not r for r in rows):
            kind = 0
        one(s, rows, d, q, e, rng.randint(0, 2), kind, rng.random() < 0.4)


def replay(s, i):
    one(s, i["rows"], i["d"], i["q"], i["e"], i["how"], i["kind"], i.get("strict", False))
