"""C15 search: write_table."""
import csv
import io
import os

RULE = "rectangular and ragged tables of every kind of iterable, transposed or not, onto existing and new files; non-trivial: ragged, transposed or empty"
EX = dict(delimiter=",", quotechar='"', doublequote=True, skipinitialspace=False, lineterminator="\r\n", quoting=csv.QUOTE_MINIMAL)


def expected(rows, fmt):
    b = io.StringIO(newline="")
    csv.writer(b, **fmt).writerows(rows)
    return b.getvalue()


def make(table, kind):
    return {"list": lambda t: [list(r) for r in t], "tuple": lambda t: tuple(tuple(r) for r in t), "gen": lambda t: (list(r) for r in t), "iters": lambda t: [iter(r) for r in t],
            "gengen": lambda t: ((c for c in r) for r in t), "strs": lambda t: t, "map": lambda t: map(list, t)}[kind](table)


def one(s, table, kind, transpose, dialect, exists, enc):
    from clevercsv.wrappers import write_table
    from clevercsv.dialect import SimpleDialect
    inp = {"table": table, "kind": kind, "transpose": transpose, "dialect": dialect, "exists": exists, "enc": enc}
    s.begin(inp)
    path = os.path.join(s.work, "c15.csv")
    if os.path.exists(path):
        os.unlink(path)
    old = b"old,contents\n"
    if exists:
        with open(path, "wb") as fh:
            fh.write(old)
    fmt = dict(EX)
    kw = {"transpose": transpose} if transpose or len(table) % 2 else {}
    if dialect == "tab":
        kw["dialect"] = "excel-tab"
        fmt["delimiter"] = "\t"
    elif dialect:
        kw["dialect"] = SimpleDialect(*dialect)
        fmt.update(delimiter=dialect[0], quotechar=dialect[1], escapechar=dialect[2] or None, lineterminator="\n")
    if enc:
        kw["encoding"] = enc
    err = None
    arg = make(table, kind)
    try:
        r = write_table(arg, path, **kw)
        if r is not None:
            s.fail(inp, "returns None", repr(r))
    except ValueError as x:
        err = x
    except Exception as x:
        s.fail(inp, "the table written or refused with ValueError", "%s: %s" % (type(x).__name__, x))
        return
    got = None
    if os.path.exists(path):
        with open(path, "rb") as fh:
            got = fh.read()
    before = old if exists else None
    if len(table) == 0:
        if err is not None or got != before:
            s.fail(inp, "an empty table creates no file", "%r, %r" % (err, got))
    elif len(set(map(len, table))) > 1:
        if err is None or got != before:
            s.fail(inp, "ValueError and the file as before", "%r, %r" % (err, got))
    else:
        rows = [list(c) for c in zip(*table)] if transpose else table
        text = expected(rows, fmt)
        exp = text.encode(enc or "utf-8") if text else b""
        if err is not None or got != exp:
            s.fail(inp, repr(exp), "%r, %r" % (err, got))
        if kind in ("list", "tuple", "strs") and [list(r) for r in arg] != [list(r) for r in table]:
            s.fail(inp, "the table is unchanged", repr(arg))
    s.count((repr(table), kind, transpose, dialect, exists, enc), transpose or len(set(map(len, table))) != 1)


def run(s):
    import itertools
    s.rule = RULE
    rng = s.rng
    for n in range(0, 4):
        for lens in itertools.product(range(0, 4), repeat=n):
            t = [["r%dc%d" % (i, j) for j in range(k)] for i, k in enumerate(lens)]
            for kind in ("list", "gen"):
                for tr in (False, True):
                    one(s, t, kind, tr, None, (n + len(lens)) % 2 == 0, None)
    for kind in ("tuple", "iters", "gengen", "map"):
        for t in ([], [["a"]], [["a", "b"], ["c"]], [["a", "b"], ["c", "d"]], [[], []], [["a"], []], [[], ["a"]]):
            for tr in (False, True):
                for ex in (False, True):
                    one(s, t, kind, tr, None, ex, None)
    s.families.append("every shape of up to 3 rows of up to 3 cells, every kind of iterable, transposed or not, file existing or not")
    big = [["x%d" % (i * j) for j in range(30)] for i in range(300)]
    for tr in (False, True):
        one(s, big, "list", tr, None, False, None)
        one(s, big[:-1] + [big[-1][:-1]], "list", tr, None, True, None)
        one(s, [big[0] + ["z"]] + big[1:], "gen", tr, None, True, None)
    vals = ["", "a", "b,c", 'd"e', "f\ng", "é", "x\\y", "1;2", "\t", " ", "'"]
    more = [1, 2.5, None, True]
    while s.time_left() and (s.deep or s.frac(0.7)):
        w = rng.randint(0, 5)
        t = [[rng.choice(vals + more) for _ in range(w)] for _ in range(rng.randint(0, 6))]
        if t and rng.random() < 0.35:
            r = rng.choice(t)
            if rng.random() < 0.5 and r:
                r.pop()
            else:
                r.append("+")
        d = rng.choice([None, None, "tab", (";", "'", ""), ("|", '"', "\\"), (" ", "`", "")])
        one(s, t, rng.choice(["list", "tuple", "gen", "iters", "gengen", "map"]), rng.random() < 0.5, d, rng.random() < 0.5, rng.choice([None, "utf-8", "utf-16", "latin-1"]))


def replay(s, i):
    d = i["dialect"]
    one(s, i["table"], i["kind"], i["transpose"], tuple(d) if isinstance(d, (list, tuple)) else d, i["exists"], i["enc"])
