"""C13 search: DictReader against the reader's rows."""
import io
import warnings

RULE = "rows of every length (empty ones included) with given or read field names, rest key and rest value, and scripts mixing next(), for and fieldnames; non-trivial: a row shorter or longer than the names, or an empty row"


def ref(rows, names, restkey, restval):
    rows = list(rows)
    if names is None:
        if not rows:
            return [], None
        names = rows.pop(0)
    out = []
    n = len(names)
    for r in rows:
        if r == []:
            continue
        d = {}
        for k, c in zip(names, r):
            d[k] = c
        if len(r) > n:
            d[restkey] = r[n:]
        for k in list(names)[len(r):]:
            d[k] = restval
        out.append(d)
    return out, list(names)


def drive(rd, script):
    out, names = [], "unread"
    try:
        for op in script:
            if op == "next":
                out.append(next(rd))
            elif op == "names":
                x = rd.fieldnames
                names = None if x is None else list(x)
            elif op == "for2":
                k = 0
                for d in rd:
                    out.append(d)
                    k += 1
                    if k == 2:
                        break
            elif op == "iter":
                iter(rd)
            else:
                for d in rd:
                    out.append(d)
    except StopIteration:
        pass
    return out, names


def one(s, rows, names, restkey, restval, script, kw, how):
    import clevercsv
    inp = {"rows": rows, "names": names, "restkey": restkey, "restval": restval, "script": script, "kw": kw, "how": how}
    s.begin(inp)
    d = kw.get("delimiter", ",")
    text = "".join(d.join('"%s"' % c if how % 2 or d in c or c == "" and len(r) == 1 else c for c in r) + "\n" for r in rows)
    exp, enames = ref([list(r) for r in rows], names, restkey, restval)
    if names is None and not rows:
        exp = []
    args = {}
    if names is not None:
        args["fieldnames"] = [list, tuple][how // 2 % 2](names)
    if restkey is not None:
        args["restkey"] = restkey
    if restval is not None:
        args["restval"] = restval
    given = args.get("fieldnames")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            rd = clevercsv.DictReader(io.StringIO(text, newline=""), **args, **kw)
            got, gnames = drive(rd, script)
        except Exception as x:
            s.fail(inp, repr(exp), "%s: %s" % (type(x).__name__, x))
            return
    if script[-1] != "all":
        exp = exp[:len(got)]
    if [dict(g) for g in got] != exp or any(list(g) != list(e) for g, e in zip(got, exp)):
        s.fail(inp, repr(exp), repr(got))
    if gnames != "unread" and gnames != enames:
        s.fail(inp, "field names %r" % (enames,), repr(gnames))
    if given is not None and list(given) != list(names):
        s.fail(inp, "the caller's names unchanged", repr(given))
    s.count((rows, names, restkey, restval, script, tuple(kw.items()), how), any(len(r) != len(enames or []) for r in rows))


SCRIPTS = [["all"], ["next", "all"], ["names", "all"], ["for2", "names", "next", "all"], ["iter", "next", "iter", "all"], ["next", "names", "next"], ["all", "all"], ["all", "names"]]


def run(s):
    import itertools
    s.rule = RULE
    rng = s.rng
    for n in range(0, 4):
        for lens in itertools.product(range(0, 4), repeat=n):
            rows = [["r%dc%d" % (i, j) for j in range(k)] for i, k in enumerate(lens)]
            for names in (None, ["x"], ["x", "y"], []):
                if names is None and rows and rows[0] == []:
                    pass
                for sc in SCRIPTS[:4]:
                    one(s, rows, names, rng.choice([None, "rest"]), rng.choice([None, "", "v"]), sc, {}, rng.randint(0, 3))
    s.families.append("every shape of up to 3 rows of up to 3 cells, names given or read")
    while s.time_left() and (s.deep or s.frac(0.7)):
        w = rng.randint(0, 4)
        cells = ["a", "b", "", "1", "x y", "é", "k", "z,z"]
        rows = [[rng.choice(cells) for _ in range(w if rng.random() < 0.6 else rng.randint(0, 5))] for _ in range(rng.randint(0, 6))]
        names = None if rng.random() < 0.5 else [rng.choice(["a", "b", "c", "d", "e", 5, None, ("t",)]) for _ in range(rng.randint(0, 4))]
        if names is not None and rng.random() < 0.8:
            names = list(dict.fromkeys(names))
        elif rows and rng.random() < 0.8:
            rows[0] = list(dict.fromkeys(rows[0]))
        sc = rng.choice(SCRIPTS) if rng.random() < 0.6 else [rng.choice(["next", "names", "for2", "iter"]) for _ in range(rng.randint(0, 5))] + ["all"]
        kw = {} if rng.random() < 0.6 else {"delimiter": rng.choice([";", "\t", "|"])}
        one(s, rows, names, rng.choice([None, "rest", "a", 5]), rng.choice([None, "", "v", 0, []]), sc, kw, rng.randint(0, 3))


def replay(s, i):
    one(s, i["rows"], i["names"], i["restkey"], i["restval"], i["script"], i["kw"], i["how"])
