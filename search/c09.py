"""C09 search: type detection and type scores."""
import itertools
import oracle

RULE = "cells built from type-like fragments, wrapped in every kind of whitespace, quoted or not; type scores of samples; non-trivial: some type is found"
WS = [chr(c) for c in range(0x110000) if chr(c).isspace()]
FRAG = ["1", "-2", "3.5", "1,000.5", "1.000,5", "1e5", "+.5", ".", ",", "abc", "a b", "x@y.zz", "http://a.bc", "https://a.bc/d?e=f", "ftp://1.2.3.4:80", "localhost", "10.0.0.1", "1.2.3", "12:30", "1:05", "23:59:59",
        "23:59:59+01:00", "2020-01-02", "01/02/2020", "2020年1月2日", "1.1.99", "20200102", "5%", "%", "50.5%%", "$5", "€ 1,000", "£", "$ x", "/usr/bin", "~/a", "./b/", "n/a", "NaN", "NA", "{}", '{"a": 1}', "{a}", "{'a': 1}",
        "{" * 50 + "}" * 50, "bytearray(b'x')", "bytearray(b)", "bytearray(b", "T", "Z", "2020-01-02T12:30", "2020-01-02T12:30Z", "2020-01-02T12:30:00+01:00", "2020-01-02T12:30-0100", "2020-01-02 12:30", "2020-01-02 12:30 1", "é", "日本", "٣", "²", "½", "Ⅷ", "?", "!", "\u060c", "¿", "\0", "\ud800",
        "\U0001f600", "'", '"', "\\", "-", "_", "+", "T+", "1T1", "1 1", "9T", "1-T-", "000", "00.1", "1" * 30, "9" * 5000, "{" + "9" * 5000 + "}", '{"a": ' + "9" * 4400 + "}", "{" + "[" * 3000 + "}", '{"a":' + "[" * 100000 + "}"]


def typ(s, td, cell, quoted, known):
    inp = {"what": "cell", "cell": cell, "quoted": quoted}
    s.begin(inp)
    try:
        t = td.detect_type(cell, is_quoted=quoted)
        k = td.is_known_type(cell, is_quoted=quoted)
    except Exception as x:
        s.fail(inp, "a type name or None", "%s: %s" % (type(x).__name__, x))
        return None
    if t is not None and t not in known:
        s.fail(inp, "one of %r or None" % known, repr(t))
    if k is not (t is not None):
        s.fail(inp, "known exactly when there is a type (%r)" % (t,), repr(k))
    return t


def cell(s, td, c, quoted, known, pads):
    t = typ(s, td, c, quoted, known)
    for a, b in pads:
        u = typ(s, td, a + c + b, quoted, known)
        if u != t:
            s.fail({"what": "pad", "cell": c, "quoted": quoted, "pads": [[a, b]]}, "type %r of %r" % (t, c), "%r with whitespace %r, %r" % (u, a, b))
    s.count((c, quoted, pads), t is not None)


def score(s, text, d, q, e, strict=False):
    from clevercsv.consistency import ConsistencyDetector
    from clevercsv.detect_type import type_score
    from clevercsv.dialect import SimpleDialect
    inp = {"what": "score", "text": text, "d": d, "q": q, "e": e}
    s.begin(inp)
    exp = oracle.type_score(text, d, q, e)
    if exp is None:
        return
    got = []
    try:
        sd = SimpleDialect(d, q, e)
        got.append(type_score(text, sd))
        cd = s.cd
        got.append(cd.compute_type_score(text, sd))
        got.append(cd.compute_type_score(text, sd))
    except Exception as x:
        s.fail(inp, repr(exp), "%s: %s" % (type(x).__name__, x))
    if any(g != exp for g in got):
        s.fail(inp, "score %r" % exp, repr(got))
    if not 0 < got[0] <= 1:
        s.fail(inp, "a score in (0, 1]", repr(got))
    s.count((text, d, q, e), exp > 1e-9)


def run(s):
    from clevercsv.detect_type import TypeDetector
    from clevercsv.consistency import ConsistencyDetector
    s.rule = RULE
    rng = s.rng
    td = TypeDetector()
    s.cd = ConsistencyDetector()
    known = td.list_known_types()
    pads = [(" ", ""), ("", " "), ("\t", "\n"), ("\r\n", "\u3000"), ("\x1c\x85", "\u2028\xa0"), ("\x0b", "\x0c")]
    for f in FRAG:
        for quoted in (False, True):
            cell(s, td, f, quoted, known, pads)
    for w in WS:
        for f in FRAG[:60]:
            if len(f) < 40:
                cell(s, td, f, rng.random() < 0.5, known, [(w, ""), ("", w), (w, w)])
    s.families.append("every Unicode whitespace character around %d type-like cells" % 60)
    al = "1a.,-:T %$/{}@ \n"
    for n in range(0, 4):
        for t in itertools.product(al, repeat=n):
            if not s.frac(0.4):
                break
            cell(s, td, "".join(t), n % 2 == 0, known, [(" ", "\t")])
        else:
            s.families.append("every cell of %d characters over %r" % (n, al))
    for text, d in (("", ","), ("\n", ","), ("\n\n", ","), (",", ","), ("?;?", ","), ("a,b\n?;?,1", ","), ("@@", ","), ("@@\n@@", ""), ("'@@','1'", ",")):
        for q in ("", "'", '"'):
            score(s, text, d, q, "")
    while s.time_left():
        r = rng.random()
        if r < 0.7:
            c = "".join(rng.choice(FRAG[:75]) if rng.random() < 0.7 else chr(rng.choice([rng.randint(32, 126), rng.randint(128, 0x2fff), rng.randint(0x10000, 0x1ffff)])) for _ in range(rng.randint(1, 4)))
            if len(c) > 400:
                continue
            pad = [("".join(rng.choice(WS) for _ in range(rng.randint(0, 3))), "".join(rng.choice(WS) for _ in range(rng.randint(0, 3)))) for _ in range(2)]
            cell(s, td, c, rng.random() < 0.5, known, pad)
        else:
            text = oracle.sample(rng)
            score(s, text, rng.choice(",;\t| ") if rng.random() < 0.9 else "", rng.choice(["", '"', "'"]), rng.choice(["", "\\", "/"]))


def replay(s, i):
    from clevercsv.detect_type import TypeDetector
    from clevercsv.consistency import ConsistencyDetector
    td = TypeDetector()
    s.cd = ConsistencyDetector()
    if i["what"] == "score":
        score(s, i["text"], i["d"], i["q"], i["e"])
    else:
        cell(s, td, i["cell"], i["quoted"], td.list_known_types(), [tuple(p) for p in i.get("pads", [])])
