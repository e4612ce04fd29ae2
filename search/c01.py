"""C01/C04 search: the compiled parser against the grammar."""
import itertools
from common import pick, rtext
from engine.grammar import parse

RULE = ("lines over an alphabet of the dialect's characters, CR, LF, letters, NUL and non-BMP characters; non-trivial: the grammar sees a special "
        "character or an error")


def real(lines, d, q, e, strict, limit=None, rq=True):
    from clevercsv.cparser import Parser, Error
    kw = dict(delimiter=d, quotechar=q, escapechar=e, strict=strict, return_quoted=rq)
    if limit is not None:
        kw["field_limit"] = limit
    rows = []
    p = Parser(iter(lines), **kw)
    try:
        for r in p:
            rows.append(r)
    except Error as x:
        return rows, "error"
    except Exception as x:
        return rows, "%s: %s" % (type(x).__name__, x)
    return rows, None


def one(s, lines, d, q, e, strict, limit=None):
    s.begin((lines, d, q, e, strict, limit))
    exp, err = parse(lines, d, q, e, strict, limit)
    got, gerr = real(lines, d, q, e, strict, limit)
    inp = {"lines": lines, "delimiter": d, "quotechar": q, "escapechar": e, "strict": strict, "limit": limit}
    if got != exp or gerr != ("error" if err else None):
        s.fail(inp, "rows %r, error %r" % (exp, err), "rows %r, error %r" % (got, gerr))
    if s.evaluations % 5 == 0:
        g2, e2 = real(lines, d, q, e, strict, limit, rq=False)
        if g2 != [[c[0] for c in r] for r in exp] or (e2 is None) != (err is None):
            s.fail(inp, "rows (without flags) of %r" % (exp,), repr(g2))
    text = "".join(x for x in lines if isinstance(x, str))
    s.count((lines, d, q, e, strict, limit), bool(err) or any(c and c in text for c in (d, q, e)) or len(lines) > 1)


DIALECTS = [(",", '"', ""), (",", '"', "\\"), (",", "", "\\"), ("", '"', ""), ("", "", ""), (";", "'", "/"), ("\t", '"', ""), (",", '"', '"'),
            ("|", "", ""), ("é", "\U0001f600", "ÿ"), (",", "\u0101", "\\"), (" ", '"', ""), (",", ",", ","), ('"', '"', "\\"), ("\\", '"', "\\")]


def split_lines(rng, text, mode):
    if mode == 0:
        return [text]
    if mode == 1:
        return text.splitlines(True) if not any(c in text for c in "\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029") else text.split("\n")
    out = []
    while text:
        k = rng.randint(0, min(len(text), 4))
        if k == 0:
            out.append("")
            k = 1
        out.append(text[:k])
        text = text[k:]
    return out


def run(s, limits=False):
    s.rule = RULE
    rng = s.rng
    # exhaustive: short texts over the special characters
    maxn = 6 if s.deep else 5
    for d, q, e in DIALECTS[:4]:
        alpha = [c for c in (d, q, e, "a", "\n", "\r") if c]
        for n in range(0, maxn + 1):
            if not s.frac(0.45):
                break
            for t in itertools.product(alpha, repeat=n):
                t = "".join(t)
                for strict in (False, True):
                    one(s, [t], d, q, e, strict)
                if n <= maxn - 1 and "\n" in t:
                    one(s, t.splitlines(True) if "\r" not in t else t.replace("\n", "\n\x00").split("\x00"), d, q, e, False)
        else:
            s.families.append("every text of at most %d characters over %r, as one line, dialect %r" % (maxn, "".join(alpha), (d, q, e)))
    # long cells (buffer growth) and wide characters
    for n in (4095, 4096, 4097, 8191, 8192, 8193, 16385, 65537, 131071, 131072):
        for body in ("x" * n, '"' + "y" * (n - 1) + '"', '"' + '""' * (n - 2) + '"', "a," + "é" * n + ",b", "\\," * n):
            one(s, [body + "\n", "z,w"], ",", '"', "\\", False, 10 ** 9)
    one(s, ["x" * (2 ** 17 + 1)], ",", '"', "", False, 2 ** 17)
    while s.time_left():
        d, q, e = rng.choice(DIALECTS)
        strict = rng.random() < 0.35
        alpha = [c for c in (d, q, e) if c] * 2 + ["a", "b", " ", "\n", "\r", "\r\n", "é", "\U0001f600", "\u0394"]
        if rng.random() < 0.05:
            alpha.append("\0")
        text = "".join(rng.choice(alpha) for _ in range(rng.randint(0, 30)))
        lines = split_lines(rng, text, rng.randint(0, 2))
        if rng.random() < 0.02:
            lines.insert(rng.randint(0, len(lines)), rng.choice([b"x", None, 3]))
        one(s, lines, d, q, e, strict, rng.choice([None, None, None, rng.randint(-1, 6)]))


def replay(s, i):
    one(s, i["lines"], i["delimiter"], i["quotechar"], i["escapechar"], i["strict"], i["limit"])
