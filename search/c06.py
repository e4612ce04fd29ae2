"""C06 search: the reader object."""
import csv
import io
from c01 import split_lines
from engine.grammar import parse

RULE = "every documented dialect form with every mix of overrides, and scripts mixing next(), for-loops and iter(); non-trivial: an override, a mixed script or an error"

_n = [0]


def forms(rng, base):
    """[(kind, dialect argument, expected (d, q, e, strict))] for a random base"""
    import _csv
    d, q, e, strict, quoting = base
    out = []
    attrs = dict(delimiter=d, quotechar=q or '"', escapechar=e or None, strict=strict, quoting=csv.QUOTE_NONE if not q else quoting,
                 doublequote=True, skipinitialspace=False, lineterminator="\r\n")
    cls = type("D", (csv.Dialect,), attrs)
    exp = (d, q, e, strict)
    _n[0] += 1
    name = "verif%d" % (_n[0] % 5)
    csv.register_dialect(name, **attrs)
    out.append(("name", name, exp))
    out.append(("class", cls, exp))
    out.append(("instance", cls(), exp))
    out.append(("_csv", csv.get_dialect(name), exp))
    from clevercsv.dialect import SimpleDialect
    out.append(("simple", SimpleDialect(d, q, e, strict), exp))
    plain = {k: v for k, v in attrs.items() if k != "strict" or strict}
    out.append(("class without strict", type("E", (csv.Dialect,), plain), exp))
    return out


def state(kind, dia):
    import csv as c
    if kind == "name":
        dia = c.get_dialect(dia)
    return {k: getattr(dia, k, None) for k in ("delimiter", "quotechar", "escapechar", "strict", "quoting", "doublequote", "lineterminator", "skipinitialspace")}


def run_script(r, script):
    """apply the script; (rows in order, line numbers after each row, error)"""
    import clevercsv
    rows, nums = [], []
    it = None
    try:
        for op in script:
            if op == "next":
                rows.append(next(r))
                nums.append(r.line_num)
            elif op == "iter":
                it = iter(r)
            elif op == "inext":
                it = it if it is not None else iter(r)
                rows.append(next(it))
                nums.append(r.line_num)
            elif op == "for2":
                k = 0
                for row in r:
                    rows.append(row)
                    nums.append(r.line_num)
                    k += 1
                    if k == 2:
                        break
            elif op == "enum":
                for i, row in zip(range(1), r):
                    rows.append(row)
                    nums.append(r.line_num)
            elif op == "all":
                for row in r:
                    rows.append(row)
                    nums.append(r.line_num)
    except StopIteration:
        pass
    except clevercsv.Error:
        return rows, nums, "error"
    return rows, nums, None


def one(s, kind, dia, exp, over, lines, script, desc):
    import clevercsv
    inp = {"kind": kind, "desc": desc, "over": over, "lines": lines, "script": script}
    s.begin(inp)
    before = state(kind, dia) if kind != "default" else None
    eff = list(exp)
    bad = False
    for i, k in enumerate(("delimiter", "quotechar", "escapechar", "strict")):
        if k in over:
            eff[i] = over[k]
            if k != "strict" and not (isinstance(over[k], str) and len(over[k]) <= 1):
                bad = True
            if k == "strict" and over[k] not in (True, False):
                bad = True
    try:
        r = clevercsv.reader(iter(lines), **over) if kind == "default" else clevercsv.reader(iter(lines), dia, **over)
        if r.line_num != 0:
            s.fail(inp, "line_num 0 before the first row", repr(r.line_num))
        if bad:
            next(iter(r))
    except StopIteration:
        r = None
    except Exception as x:
        if not bad:
            s.fail(inp, "a reader", "%s: %s" % (type(x).__name__, x))
        r = "rejected"
    if bad:
        if r != "rejected":
            s.fail(inp, "the invalid override is rejected", "a reader")
        if before is not None and state(kind, dia) != before:
            s.fail(inp, "the caller's dialect is unchanged", repr(state(kind, dia)))
        s.count(("bad", kind, repr(over)), True)
        return
    erows, err = parse(lines, eff[0], eff[1], eff[2], eff[3], 131072)
    erows = [[c[0] for c in x] for x in erows]
    try:
        rows, nums, gerr = run_script(r, script)
    except Exception as x:
        s.fail(inp, "rows %r" % erows, "%s: %s" % (type(x).__name__, x))
        return
    full = script[-1] == "all"
    if full:
        if rows != erows or bool(gerr) != bool(err):
            s.fail(inp, "rows %r error %r" % (erows, err), "rows %r error %r" % (rows, gerr))
    elif rows != erows[:len(rows)] or gerr and not err:
        s.fail(inp, "a prefix of %r, error %r" % (erows, err), "rows %r error %r" % (rows, gerr))
    if nums != list(range(1, len(rows) + 1)):
        s.fail(inp, "line_num counts the rows: %r" % list(range(1, len(rows) + 1)), repr(nums))
    if before is not None and state(kind, dia) != before:
        s.fail(inp, "the caller's dialect is unchanged: %r" % before, repr(state(kind, dia)))
    s.count((kind, exp, repr(over), lines, script), bool(over) or len(script) > 1 or bool(err))


def base(rng):
    d = rng.choice([",", ";", "\t", "|", " ", "é"])
    q = rng.choice(['"', "'", "", "`", "\U0001f600"])
    e = rng.choice(["", "", "\\", "/"])
    return d, q, e, rng.random() < 0.4, rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL, csv.QUOTE_NONNUMERIC])


SCRIPTS = [["all"], ["next", "all"], ["for2", "next", "for2", "all"], ["iter", "all"], ["next", "iter", "next", "inext", "all"], ["enum", "enum", "all"], ["inext", "next", "inext", "for2"],
           ["next", "next", "next"], ["all", "all"], ["all", "next"]]
BAD = [{"delimiter": None}, {"delimiter": ",,"}, {"quotechar": "ab"}, {"quotechar": None}, {"escapechar": "xy"}, {"escapechar": None}, {"strict": "yes"}, {"strict": 2}, {"strict": None},
       {"delimiter": 5}, {"delimiter": "ab", "quotechar": "'"}, {"delimiter": b","}, {"quotechar": 3.5}, {"strict": 0.5}]


def run(s):
    import clevercsv
    s.rule = RULE
    rng = s.rng
    fixed = ["a,b\n", "c;d\n", '"e,f",g\n', "h\\,i\n", "'j,k'\tl\n"]
    for name, exp in (("excel", (",", '"', "", False)), ("excel-tab", ("\t", '"', "", False)), ("unix", (",", '"', "", False))):
        for sc in SCRIPTS:
            one(s, "name", name, exp, {}, fixed, sc, name)
    for sc in SCRIPTS:
        one(s, "default", None, (",", '"', "", False), {}, fixed, sc, "default")
        one(s, "class", clevercsv.excel_tab, ("\t", '"', "", False), {}, fixed, sc, "excel_tab")
    for b in [(",", '"', "", False, csv.QUOTE_MINIMAL), (";", "'", "\\", True, csv.QUOTE_ALL), ("\t", "", "/", False, csv.QUOTE_NONE), (",", "", "", True, csv.QUOTE_NONE)]:
        for kind, dia, exp in forms(rng, b):
            for o in BAD:
                one(s, kind, dia, exp, o, fixed, ["all"], b)
            for k, vals in (("delimiter", ["", ";", "\t"]), ("quotechar", ["", "'", '"']), ("escapechar", ["", "\\", "a"]), ("strict", [True, False])):
                for v in vals:
                    one(s, kind, dia, exp, {k: v}, fixed, ["next", "all"], b)
    s.families.append("every override of four dialects in every documented form, valid and invalid")
    for x in (5, None, [","], {"delimiter": ","}, 1.5, int, object()):
        s.begin(("kind", repr(x)))
        try:
            list(clevercsv.reader(["a,b"], x))
            s.fail({"unknown": repr(x)}, "an unknown dialect kind is rejected", "accepted")
        except Exception as ex:
            if type(ex).__name__ == "Found":
                raise
    try:
        clevercsv.reader(["a"], "no such dialect")
        s.fail({"unknown": "no such dialect"}, "rejected", "accepted")
    except csv.Error:
        pass
    while s.time_left():
        b = base(rng)
        kind, dia, exp = rng.choice(forms(rng, b))
        over = {}
        if rng.random() < 0.5:
            for k, vals in (("delimiter", [",", ";", "|", ""]), ("quotechar", ['"', "'", ""]), ("escapechar", ["\\", "", "/"]), ("strict", [True, False])):
                if rng.random() < 0.5:
                    over[k] = rng.choice(vals)
        if rng.random() < 0.1:
            over.update(rng.choice(BAD))
        alpha = [c for c in list(b[:3]) + [over.get("delimiter"), over.get("quotechar"), over.get("escapechar")] if isinstance(c, str) and len(c) == 1] + ["a", "b", "\n", "\n", "\r\n"]
        if rng.random() < 0.1:
            alpha.append("\0")
        t = "".join(rng.choice(alpha) for _ in range(rng.randint(0, 40)))
        lines = split_lines(rng, t, 1) if rng.random() < 0.8 else list(io.StringIO(t, newline=""))
        sc = rng.choice(SCRIPTS) if rng.random() < 0.6 else [rng.choice(["next", "iter", "inext", "for2", "enum"]) for _ in range(rng.randint(0, 6))] + ["all"]
        one(s, kind, dia, exp, over, lines, sc, b)


def replay(s, i):
    s.deadline = s.t0 + 30
    if "kind" not in i or isinstance(i["desc"], str):
        return run(s)
    for kind, dia, exp in forms(s.rng, i["desc"]):
        if kind == i["kind"]:
            return one(s, kind, dia, exp, i["over"], i["lines"], i["script"], i["desc"])
