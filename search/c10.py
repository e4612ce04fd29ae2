"""C10 search: abstraction and pattern score against their definition."""
import itertools
import oracle

RULE = "texts over the dialect's characters, letters and line ends; non-trivial: the text holds a quote, an escape or a delimiter"
DIALECTS = [(",", '"', "\\"), (",", '"', ""), (",", "", ""), ("", '"', ""), ("", "", ""), (";", "'", "/"), ("é", "\U0001f600", "\u0394"), ("\t", "~", "@"), ("a", "b", "c"), (" ", '"', "\\"), (",", '"', '"'), ("C", "D", "R"), ("Q", "R", "D")]


def one(s, text, d, q, e):
    from clevercsv.detect_pattern import make_abstraction, pattern_score
    from clevercsv.dialect import SimpleDialect
    inp = {"text": text, "d": d, "q": q, "e": e}
    s.begin(inp)
    sd = SimpleDialect(d, q, e)
    exp = oracle.abstraction(text, d, q, e)
    try:
        got = make_abstraction(text, sd)
        P = pattern_score(text, sd)
    except Exception as x:
        s.fail(inp, repr(exp), "%s: %s" % (type(x).__name__, x))
        return
    why = oracle.well_formed(got)
    if why:
        s.fail(inp, "a well-formed abstraction", "%s: %s" % (got[:300], why))
    if got != exp:
        s.fail(inp, exp, got)
    want = oracle.pattern_score(exp)
    if abs(P - want) > 1e-9 * max(1, want) or not P > 0:
        s.fail(inp, "score %r" % want, repr(P))
    s.count((text, d, q, e), any(c and c in text for c in (d, q, e)))


def run(s):
    s.rule = RULE
    rng = s.rng
    for d, q, e in DIALECTS[:3] + [(",", '"', '"')]:
        al = [c for c in dict.fromkeys((d, q, e)) if c] + ["x", "\n"]
        for n in range(0, 8 if s.deep else 7):
            for t in itertools.product(al, repeat=n):
                if not s.frac(0.5):
                    break
                one(s, "".join(t), d, q, e)
            else:
                s.families.append("every text of %d characters over %r" % (n, "".join(al)))
    for n in (1, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 65, 200):
        for body in ('"a",' * n, '"a"\n' * n, '"a""b"' * n, '"' * n, '",",' * n, "\\," * n, "\n" * n):
            one(s, body, ",", '"', "\\")
    for n in (4094, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385):
        for body in ("," * n, "a," * n, "\\," * n, "a\n" * n, '"' * n, "x" * n + ",", '"' + "," * n + '"', ",\n" * n):
            one(s, body, ",", '"', "\\")
    while s.time_left():
        d, q, e = rng.choice(DIALECTS)
        al = [c for c in (d, q, e) if c] * 2 + ["x", "y", "\n", "\r", "\r\n", "é"]
        one(s, "".join(rng.choice(al) for _ in range(rng.choice([4, 10, 30, 80]))), d, q, e)


def replay(s, i):
    one(s, i["text"], i["d"], i["q"], i["e"])
