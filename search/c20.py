"""C20 search: normal forms against independent definitions."""
import itertools
import re

RULE = "texts over delimiters, quotes, letters, blanks, line ends and escape characters; non-trivial: a form matches or the text has two rows"
PLAIN = re.compile(r"[a-zA-Z0-9._&\-@+%() /]+\Z")
ONE = re.compile(r"[A-Za-z0-9._&\-]*\Z")
ONEQ = re.compile(r"[A-Za-z0-9._&\- ]*\Z")


def rows_of(data):
    """trailing newlines, then trailing carriage returns go; the rest is cut at the one kind of line end in use"""
    data = re.sub(r"\r*\Z", "", re.sub(r"\n*\Z", "", data))
    for nl in ("\r\n", "\n", "\r"):
        if nl in data:
            return data.split(nl)
    return [data]


def cells_of(row, d, q):
    """cells between delimiters that are outside quotes"""
    out, start, inside = [], 0, False
    for i, c in enumerate(row):
        if c == d and not inside:
            out.append(row[start:i])
            start = i + 1
        elif q and c == q:
            inside = not inside
    return out + [row[start:]]


def quoted(c, q):
    return len(c) >= 2 and c.startswith(q) and c.endswith(q)


def table(rows, d, q):
    cs = [cells_of(r, d, q) for r in rows]
    return cs if cs and all(d in r for r in rows) and len({len(c) for c in cs}) == 1 and len(cs[0]) >= 2 else None


def f1(rows, d, q):
    t = table(rows, d, q)
    return t is not None and all(quoted(c, q) and q not in c[1:-1] for r in t for c in r)


def f2(rows, d, q):
    t = table(rows, d, "")
    return t is not None and all(c == "" or PLAIN.match(c) for r in t for c in r)


def f3(rows, d, q):
    t = table(rows, d, q)

    def ok(c):
        if c == "" or c in ("''", '""'):
            return False
        if quoted(c, "'") or quoted(c, '"'):
            return quoted(c, q)
        return bool(PLAIN.match(c))
    return t is not None and len(rows) > 1 and all(ok(c) for r in t for c in r)


def f4(rows, q):
    if len(rows) < 2:
        return False
    if q == "":
        return all(ONE.match(r) for r in rows)
    return all(quoted(r, q) and ONEQ.match(r[1:-1]) for r in rows)


def f5(rows, d, q):
    if len(rows) < 2 or not all(len(r) > 2 and quoted(r, q) for r in rows):
        return False
    return f2([r[1:-1] for r in rows], d, q)


def normal(data, delims):
    import oracle
    for a, b in zip(data, data[1:]):
        if oracle.is_escape(a) and (b in delims or (b in "'\"" and delims)):
            return None
    rows = rows_of(data)
    for d in delims:
        if f2(rows, d, ""):
            return (d, "", "")
    for d in delims:
        for q in "'\"":
            if f1(rows, d, q) or f3(rows, d, q) or f5(rows, d, q):
                return (d, q, "")
    for q in ("'", '"', ""):
        if f4(rows, q):
            return ("", q, "")
    return None


def one(s, data, delims, kind="list", via="normal"):
    inp = {"data": data, "delims": delims, "kind": kind, "via": via}
    s.begin(inp)
    exp = normal(data, [",", ";", "|", "\t"] if delims is None else delims)
    arg = None if delims is None else {"list": list, "tuple": tuple, "gen": lambda x: (c for c in x), "str": "".join}[kind](delims)
    if via == "normal":
        from clevercsv.normal_form import detect_dialect_normal
        got = detect_dialect_normal(data, delimiters=arg)
    else:
        from clevercsv.detect import Detector
        got = Detector().detect(data, delimiters=arg, method="normal")
    t = None if got is None else (got.delimiter, got.quotechar, got.escapechar)
    if t != exp or (got is not None and got.strict):
        s.fail(inp, repr(exp), repr(t))
    s.count((data, delims, kind), exp is not None or "\n" in data)


def run(s):
    s.rule = RULE
    rng = s.rng
    for al, top in ((["a", ",", "\n"], 9), (["a", ",", '"', "\n"], 7), (["a", ",", '"', "'", "\n", "\r"], 5), (["a", ";", "'", "\n", "\\", "!"], 5), (["'", '"', "a", ",", "|", " ", "\n"], 5)):
        top += 2 if s.deep else 0
        for n in range(0, top):
            for t in itertools.product(al, repeat=n):
                if not s.frac(0.5):
                    break
                one(s, "".join(t), None)
            else:
                s.families.append("every text of %d characters over %r" % (n, "".join(al)))
    forms = ["plain", "quoted", "mix", "rowquoted", "single", "singlequoted"]
    cellp = ["a", "b1", "x.y", "1", "", "A_b", "c d", "3%", "(e)", "f/g", "a-b", "é", "a:b", "$", "a!b", "a\u2003b", "a\n", "٣"]
    while s.time_left():
        delims = rng.choice([None, None, None, [","], [";", ","], ["\t", "|", ","], [" "], [], ["a"], ["'"], ["-", ","], [":"]])
        ds = [",", ";", "|", "\t"] if delims is None else delims
        d = rng.choice(ds) if ds and rng.random() < 0.95 else rng.choice(",;")
        q = rng.choice("'\"")
        f = rng.choice(forms)
        n, m = rng.choice([1, 2, 2, 3, 5, 30]), rng.randint(1 if rng.random() < 0.2 else 2, 4)
        cellp2 = cellp[:11] if rng.random() < 0.9 else cellp
        rows = []
        for _ in range(n):
            cs = [rng.choice(cellp2) for _ in range(1 if f.startswith("single") else m)]
            if f == "quoted" or f == "singlequoted":
                cs = [q + c + q for c in cs]
            elif f == "mix":
                cs = [q + c + q if rng.random() < 0.5 else c for c in cs]
            row = d.join(cs)
            rows.append(q + row + q if f == "rowquoted" else row)
        if rng.random() < 0.5 and rows:
            i = rng.choice([0, len(rows) - 1, rng.randrange(len(rows))])
            r = list(rows[i])
            j = rng.randint(0, len(r))
            op = rng.random()
            bit = rng.choice([d, q, "'", '"', "", "é", "\\", "\\" + d, "!" + d, "@" + q, "x", q + q, d + d, " ", "/" + d, q + d + q, "\u00a7" + d, "\r"])
            if op < 0.6:
                r.insert(j, bit)
            elif r:
                r.pop(min(j, len(r) - 1))
            rows[i] = "".join(r)
        nl = rng.choice(["\n", "\n", "\r\n", "\r"])
        one(s, nl.join(rows) + rng.choice(["", nl, nl * 2, nl + "\n", "\r" + nl, "\n\r"]), None if delims is None else delims, rng.choice(["list", "tuple", "gen", "str"]), rng.choice(["normal", "normal", "detector"]))


def replay(s, i):
    one(s, i["data"], i["delims"], i["kind"], i["via"])
