"""C04 search: the field size limit."""
import io
import itertools
from c01 import DIALECTS, split_lines
from engine.grammar import parse

RULE = "texts and limits around the cell lengths, through Parser, reader and parse_data; get/set calls of field_size_limit; non-trivial: some cell length within 1 of the limit, or a rejected call"


def via(how, lines, d, q, e, strict, limit, change):
    """(rows, error) with the global limit set to `limit` when the parser is made and to `change` afterwards"""
    import clevercsv
    from clevercsv.cparser import Parser, Error
    from clevercsv.cparser_util import field_size_limit, parse_data, parse_string
    from clevercsv.dialect import SimpleDialect
    old = field_size_limit()
    rows = []
    try:
        if how != "parser":
            field_size_limit(limit)
        sd = SimpleDialect(d, q, e, strict=strict)
        if how == "parser":
            it = Parser(iter(lines), delimiter=d, quotechar=q, escapechar=e, strict=strict, field_limit=limit)
            err = Error
        elif how == "reader":
            r = clevercsv.reader(iter(lines), sd)
            it = iter(r)
            err = clevercsv.Error
        elif how == "data":
            it = parse_data(iter(lines), dialect=sd)
            err = clevercsv.Error
        else:
            it = parse_string("".join(lines), sd)
            err = clevercsv.Error
        if how in ("reader", "parser") and change is not None:
            field_size_limit(change)
        try:
            for row in it:
                rows.append(row)
        except err:
            return rows, True
        return rows, False
    finally:
        field_size_limit(old)


def one(s, how, lines, d, q, e, strict, limit, change=None):
    inp = {"what": "parse", "how": how, "lines": lines, "d": d, "q": q, "e": e, "strict": strict, "limit": limit, "change": change}
    s.begin(inp)
    exp_lines = list(io.StringIO("".join(lines), newline="")) if how == "string" else lines
    exp, err = parse(exp_lines, d, q, e, strict, limit)
    exp = [[c[0] for c in r] for r in exp]
    try:
        got, gerr = via(how, lines, d, q, e, strict, limit, change)
    except Exception as x:
        s.fail(inp, "rows %r, error %r" % (exp, err), "%s: %s" % (type(x).__name__, x))
        return
    if got != exp or gerr != bool(err):
        s.fail(inp, "rows %r, error %r" % (exp, err), "rows %r, error %r" % (got, gerr))
    s.count((how, lines, d, q, e, strict, limit, change), bool(err) or any(abs(len(c) - limit) <= 2 for r in exp for c in r))


class Sub(int):
    pass


BAD = [1.5, "5", None, [], (), b"1", 3j, object(), {}, "", float("inf")]
GOOD = [0, 1, 5, 131072, 2 ** 31, 2 ** 40, True, False, Sub(7)]


def setget(s, script):
    """script: list of (positional values, keyword values)"""
    from clevercsv import field_size_limit as f
    from clevercsv import cparser_util, read
    inp = {"what": "setget", "script": [repr(x) for x in script]}
    s.begin(inp)
    first = f()
    cur = first
    try:
        for args, kw in script:
            vals = list(args) + list(kw.values())
            ok = len(vals) == 0 or (len(vals) == 1 and isinstance(vals[0], int))
            try:
                r = ("ret", f(*args, **kw))
            except TypeError:
                r = ("TypeError", None)
            except Exception as x:
                r = (type(x).__name__, None)
            if ok:
                if r != ("ret", cur):
                    s.fail(inp, "returns the previous value %r" % cur, repr(r))
                if vals:
                    cur = vals[0]
            elif r[0] == "ret":
                s.fail(inp, "rejects %r" % (vals,), repr(r))
            for g in (f, cparser_util.field_size_limit):
                if g() != cur or type(g()) is bool and not isinstance(cur, int):
                    s.fail(inp, "limit %r after %r" % (cur, vals), repr(g()))
    finally:
        f(int(first))
    s.count(("setget", repr([(a, k) for a, k in script]) if all(type(v) is not object for a, k in script for v in a) else len(script)), True)


def run(s):
    s.rule = RULE
    rng = s.rng
    for a in BAD + GOOD:
        for args, kw in (((a,), {}), ((), {"limit": a}), ((a, 5), {}), ((5,), {"new": a}), ((5, 6, a), {})):
            setget(s, [((77,), {}), (args, kw), ((), {}), ((9,), {})])
    s.families.append("every kind of argument of field_size_limit, positional and by keyword")
    for n in range(0, 5):
        for L in range(0, 7):
            for how in ("parser", "reader", "data", "string"):
                for body in ("x" * L, '"' + "x" * L + '"', '"' + '""' * L + '"', "\\," * L, "a," + "x" * L + ",b", '"' + "x" * L, "x" * L + "\\", '"\n' + "x" * L):
                    for end in ("", "\n"):
                        lines = (body + end).splitlines(True)
                        one(s, how, lines, ",", '"', "\\", False, n, rng.choice([None, 0, 100]))
    s.families.append("limits 0..4 against cells of 0..6 characters of each form, each entry point")
    for n in (4095, 4096, 4097, 8192, 131071, 131072, 131073):
        for L in (n - 1, n, n + 1):
            for how in ("parser", "reader", "data", "string"):
                one(s, how, ["x" * L + ",y\n", "z"], ",", '"', "", False, n, 10)
                one(s, how, ['"' + "x" * (L - 2) + '",y\n', "z"], ",", '"', "", False, n)
    # the default limit
    import clevercsv
    from clevercsv.cparser import Parser
    for L in (131072, 131073):
        for how, mk in (("default Parser", lambda t: Parser([t], delimiter=",")), ("default reader", lambda t: clevercsv.reader([t]))):
            s.begin(("default", how, L))
            try:
                got = list(mk("x" * L))
                ok = got == [["x" * L]]
            except Exception:
                ok = None
            if (L == 131072) != (ok is True) or (L > 131072 and ok is not None):
                s.fail({"what": "default", "how": how, "L": L}, "default limit 131072", repr(ok))
    while s.time_left():
        if rng.random() < 0.05:
            setget(s, [((rng.choice(GOOD + BAD),) * rng.choice([0, 1, 1, 1, 2]), {}) for _ in range(rng.randint(1, 6))])
            continue
        d, q, e = rng.choice(DIALECTS)
        alpha = [c for c in (d, q, e) if c] * 2 + ["a", "b", " ", "\n", "\r", "é", "\U0001f600"]
        t = "".join(rng.choice(alpha) for _ in range(rng.randint(0, 30)))
        lines = split_lines(rng, t, rng.randint(0, 2))
        one(s, rng.choice(["parser", "reader", "data", "string"]), lines, d, q, e, rng.random() < 0.3, rng.randint(0, 8), rng.choice([None, None, 0, 50]))


def replay(s, i):
    if i["what"] == "parse":
        one(s, i["how"], i["lines"], i["d"], i["q"], i["e"], i["strict"], i["limit"], i["change"])
    else:
        s.deadline = s.t0
        run(s)
