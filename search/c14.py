"""C14 search: DictWriter and write_dicts against the csv module."""
import csv
import io
import os

RULE = "mappings with missing and unknown keys, every collection of field names, iterables of every kind; non-trivial: a missing or unknown key, or no mappings"
EX = dict(delimiter=",", quotechar='"', doublequote=True, skipinitialspace=False, lineterminator="\r\n", quoting=csv.QUOTE_MINIMAL)


def line(vals, fmt):
    b = io.StringIO(newline="")
    csv.writer(b, **fmt).writerow(vals)
    return b.getvalue()


def coll(names, how):
    return [list, tuple, dict.fromkeys, lambda x: dict.fromkeys(x).keys()][how](names)


def writer_(s, names, how, restval, extras, dicts, ops, dialect):
    import clevercsv
    from clevercsv.dialect import SimpleDialect
    inp = {"what": "writer", "names": names, "how": how, "restval": restval, "extras": extras, "dicts": dicts, "ops": ops, "dialect": dialect}
    s.begin(inp)
    fmt = dict(EX)
    kw = {}
    if dialect:
        kw["dialect"] = SimpleDialect(*dialect)
        fmt.update(delimiter=dialect[0], quotechar=dialect[1], escapechar=dialect[2] or None, lineterminator="\n")
    if restval is not None:
        kw["restval"] = restval
    if extras is not None:
        kw["extrasaction"] = extras
    rv = "" if restval is None else restval
    ignore = (extras or "raise").lower() == "ignore"
    buf = io.StringIO(newline="")
    w = clevercsv.DictWriter(buf, coll(names, how), **kw)
    order = list(coll(names, how))
    exp = ""
    i = 0
    orig = [dict(d) for d in dicts]
    for op in ops:
        part, err = "", False
        if op == "header":
            part = line(order, fmt)
            f = w.writeheader
        elif op == "row":
            if i >= len(dicts):
                continue
            d = dicts[i]
            i += 1
            if set(d) - set(order) and not ignore:
                err = True
            else:
                part = line([d.get(k, rv) for k in order], fmt)
            f = lambda d=d: w.writerow(d)
        else:
            ds = dicts[i:]
            i = len(dicts)
            for d in ds:
                if set(d) - set(order) and not ignore:
                    err = True
                    break
                part += line([d.get(k, rv) for k in order], fmt)
            f = lambda ds=ds: w.writerows(iter(ds) if op == "iter" else ds)
        exp += part
        try:
            f()
            got_err = None
        except ValueError as x:
            got_err = x
        except Exception as x:
            if type(x).__name__ == "Found":
                raise
            if isinstance(x, clevercsv.Error) and not part:
                return
            s.fail(inp, "%r, refused: %r" % (exp, err), "%s: %s" % (type(x).__name__, x))
            return
        if (got_err is not None) != err:
            s.fail(inp, "refused: %r (%s)" % (err, op), repr(got_err))
        if buf.getvalue() != exp:
            s.fail(inp, repr(exp), repr(buf.getvalue()))
    if [dict(d) for d in dicts] != orig:
        s.fail(inp, "the mappings are unchanged", repr(dicts))
    s.count((names, how, restval, extras, repr(dicts), ops, dialect), any(set(d) != set(order) for d in dicts))


def dicts_(s, dicts, kind, dialect, exists):
    from clevercsv.wrappers import write_dicts
    from clevercsv.dialect import SimpleDialect
    inp = {"what": "dicts", "dicts": dicts, "kind": kind, "dialect": dialect, "exists": exists}
    s.begin(inp)
    path = os.path.join(s.work, "c14.csv")
    if os.path.exists(path):
        os.unlink(path)
    if exists:
        with open(path, "w") as fh:
            fh.write("old contents")
    fmt = dict(EX)
    kw = {}
    if dialect:
        kw["dialect"] = SimpleDialect(*dialect)
        fmt.update(delimiter=dialect[0], quotechar=dialect[1], escapechar=dialect[2] or None, lineterminator="\n")
    items = {"list": list, "tuple": tuple, "iter": iter, "gen": lambda x: (y for y in x), "map": lambda x: map(dict, x), "values": lambda x: {i: y for i, y in enumerate(x)}.values()}[kind](dicts)
    err = None
    try:
        write_dicts(items, path, encoding="utf-8", **kw)
    except ValueError as x:
        err = x
    except Exception as x:
        s.fail(inp, "the file", "%s: %s" % (type(x).__name__, x))
        return
    got = None
    if os.path.exists(path):
        with open(path, newline="", encoding="utf-8") as fh:
            got = fh.read()
    if not dicts:
        exp = "old contents" if exists else None
    else:
        order = list(dicts[0])
        exp = line(order, fmt)
        for d in dicts:
            if set(d) - set(order):
                if err is None:
                    s.fail(inp, "refused", "written")
                break
            exp += line([d.get(k, "") for k in order], fmt)
        else:
            if err is not None:
                s.fail(inp, "written", repr(err))
    if got != exp:
        s.fail(inp, repr(exp), repr(got))
    s.count((repr(dicts), kind, dialect, exists), True)


def run(s):
    s.rule = RULE
    rng = s.rng
    D = [None, (";", "'", ""), ("\t", '"', "\\"), ("|", "'", "")]
    for kind in ("list", "tuple", "iter", "gen", "map", "values"):
        for ds in ([], [{"a": 1, "b": "x"}], [{"a": 1}, {"a": 2}], [{"a": 1}, {}], [{"a": 1, "b": 2}, {"b": 3}], [{"a": 1}, {"a": 2, "c": 3}, {"a": 4}], [{"b": 1, "a": 2}, {"a": 3, "b": 4}, {"a": 5, "b": 6}], [{"a": i} for i in range(40)]):
            for d in D[:2]:
                for ex in (False, True):
                    dicts_(s, ds, kind, d, ex)
    s.families.append("write_dicts over every kind of iterable, with and without an existing file")
    for extras in (None, "raise", "ignore", "RAISE", "Ignore", "IGNORE", "Raise"):
        for how in range(4):
            writer_(s, ["a", "b"], how, None, extras, [{"a": 1, "c": 2}, {"b": 3}], ["header", "row", "row"], None)
            writer_(s, ["a", "b"], how, "-", extras, [{"a": 1}, {"b": 2, "z": 1}, {"b": 3}], ["rows"], None)
    import clevercsv
    for bad in ("no", "", "raises", "ignored"):
        try:
            clevercsv.DictWriter(io.StringIO(), ["a"], extrasaction=bad)
            s.fail({"what": "bad", "v": bad}, "ValueError", "accepted")
        except ValueError:
            pass
    keys = ["a", "b", "c", "d", 5, None, ("t", 1), "x,y", ""]
    vals = ["", "x", 1, 2.5, None, True, "a,b", 'q"q', "n\nl", "é", "'", "\\", [1]]
    while s.time_left() and (s.deep or s.frac(0.7)):
        names = rng.sample(keys, rng.randint(1, 5))
        extra = rng.random() < 0.4
        dicts = [{k: rng.choice(vals) for k in rng.sample(keys if extra and rng.random() < 0.3 else names, rng.randint(0, len(names)))} for _ in range(rng.randint(0, 5))]
        if rng.random() < 0.75:
            writer_(s, names, rng.randint(0, 3), rng.choice([None, "-", 0, "x;y"]), rng.choice([None, "raise", "ignore", "Raise", "IGNORE"]), dicts,
                    [rng.choice(["header", "row", "row", "rows", "iter"]) for _ in range(rng.randint(1, 6))], rng.choice(D))
        else:
            if dicts and not dicts[0]:
                continue
            dicts_(s, dicts, rng.choice(["list", "tuple", "iter", "gen", "map", "values"]), rng.choice(D), rng.random() < 0.3)


def replay(s, i):
    t = i.get("dialect")
    if i["what"] == "writer":
        writer_(s, i["names"], i["how"], i["restval"], i["extras"], i["dicts"], i["ops"], t and tuple(t))
    elif i["what"] == "dicts":
        dicts_(s, i["dicts"], i["kind"], t and tuple(t), i["exists"])
    else:
        run(s)
