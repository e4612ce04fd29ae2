"""C07 search: candidate dialects against their definition."""
import oracle

RULE = "noise and CSV-like samples with every kind of delimiter, quote, escape and URL; optional lists of allowed delimiters; non-trivial: more than one candidate"


def chars_ok(t, data, allowed):
    d, q, e = t
    if any(c and c not in data for c in (d, q, e)):
        return "a character that is not in the sample"
    if allowed is not None and d and d not in allowed:
        return "a delimiter that is not allowed"
    return None


def mk(allowed, how):
    if allowed is None or how == 0 or how == 4 and any(len(a) > 1 for a in allowed):
        return allowed if allowed is None else list(allowed)
    return [list, set, tuple, iter, "".join, lambda x: (c for c in x)][how](allowed)


def one(s, data, allowed, how=0, detect=True):
    from clevercsv.potential_dialects import get_dialects
    from clevercsv.consistency import ConsistencyDetector, detect_dialect_consistency
    from clevercsv.normal_form import detect_dialect_normal
    import clevercsv
    inp = {"data": data, "allowed": allowed, "how": how}
    s.begin(inp)
    exp = oracle.candidates(data, allowed)
    got = [(x.delimiter, x.quotechar, x.escapechar) for x in get_dialects(data, delimiters=None if allowed is None else list(allowed))]
    if len(got) != len(set(got)):
        s.fail(inp, "no duplicates", repr(got))
    if set(got) != exp:
        s.fail(inp, "candidates %r" % sorted(exp), "missing %r, surplus %r" % (sorted(exp - set(got)), sorted(set(got) - exp)))
    if detect and len(exp) <= 60:
        seen = []
        det = ConsistencyDetector()
        orig = det.compute_consistency_scores

        def spy(d, ds):
            ds = list(ds)
            seen.extend(ds)
            return orig(d, ds)
        det.compute_consistency_scores = spy
        res = [("consistency object", det.detect(data, delimiters=None if allowed is None else list(allowed)))]
        res.append(("consistency", detect_dialect_consistency(data, delimiters=mk(allowed, how))))
        res.append(("auto", clevercsv.Detector().detect(data, delimiters=mk(allowed, how))))
        res.append(("normal", detect_dialect_normal(data, delimiters=mk(allowed, how))))
        res.append(("sniff", clevercsv.Sniffer().sniff(data, delimiters=mk(allowed, how))))
        for x in seen:
            why = chars_ok((x.delimiter, x.quotechar, x.escapechar), data, allowed)
            if why or (x.delimiter, x.quotechar, x.escapechar) not in exp:
                s.fail(inp, "only candidates are considered", "%r: %s" % (x, why))
        for name, x in res:
            if x is not None:
                why = chars_ok((x.delimiter, x.quotechar, x.escapechar), data, allowed)
                if why:
                    s.fail(inp, "%s returns a dialect of the sample" % name, "%r: %s" % (x, why))
    s.count((data, allowed, how), len(exp) > 1)


def run(s):
    import sys
    s.rule = RULE
    rng = s.rng
    # every character as a delimiter / quote / escape
    import unicodedata
    for c in map(chr, list(range(0x3000)) + list(range(0xa000, 0xa900)) + list(range(0xd000, 0xd800)) + list(range(0xf000, 0x10400)) + list(range(0x1f000, 0x1f100)) + [0x10ffff, 0xe0001, 0x11145, 0x1e95f]):
        if 0xd800 <= ord(c) < 0xe000:
            continue
        if not s.frac(0.35):
            break
        one(s, "x%sy%s,%s\"z" % (c, c, c), None, detect=False)
    else:
        s.families.append("every character of the common planes as delimiter and before a comma and a quote")
    for data in ("", ",", "\n", '"', "'", "~", "`", "\\,", ",\\", "\\", "\\\\,", '\\"', "a\\,b;\\'", "//,", "@\"", "http://a.bc/x,y;z\n", "a.com;b.org\n", "10.0.0.1:80,x", "ftp://q-q.de/a?b=c&d|e",
                 "localhost:80,1", "a@\t", "é\\\t'", "http://a.bc/,\\,"):
        for allowed in (None, [], [","], [";", ","], ["\\"], ["a"], ["", ","], ["\t"], [",", ","], ["ab"], ['"'], ["U"], ["U", "x", ","]):
            for how in range(6):
                one(s, data, allowed, how)
    while s.time_left():
        data = oracle.sample(rng)
        if rng.random() < 0.1:
            data += rng.choice(["http://x.org/a,b;c|d", "www.a.de", "1.2.3.4", "https://é.com/~x'y"]) + rng.choice(["\n", ",", "'", "\\,"])
        if rng.random() < 0.02 and len(data) > 3:
            data = data * rng.randint(2, 5)
        allowed = None if rng.random() < 0.5 else [rng.choice(",;\t| :-abU'\"\\é") for _ in range(rng.randint(0, 4))]
        one(s, data, allowed, rng.randint(0, 5), detect=len(data) < 120)


def replay(s, i):
    one(s, i["data"], i["allowed"], i["how"])
