"""C08 search: the consistency measure against its definition."""
import oracle

RULE = "samples with up to 40 candidate dialects, skip on and off; non-trivial: at least two candidates"


def ref(data, allowed=None):
    """(best dialects in order, reference choice)"""
    cand = sorted(oracle.candidates(data, allowed), key=oracle.order)
    Q = {}
    for t in cand:
        T = oracle.type_score(data, *t)
        if T is None:
            return None
        Q[t] = oracle.pattern_score(oracle.abstraction(data, *t)) * T
    m = max(Q.values())
    best = [t for t in cand if Q[t] == m]
    return best, Q


def key(x):
    return None if x is None else (x.delimiter, x.quotechar, x.escapechar)


def one(s, data, allowed=None):
    import clevercsv
    from clevercsv.consistency import ConsistencyDetector, detect_dialect_consistency
    inp = {"data": data, "allowed": allowed}
    s.begin(inp)
    r = ref(data, allowed)
    outs = {}
    for name, f in (("skip", lambda: ConsistencyDetector(skip=True).detect(data, delimiters=allowed)),
                    ("no skip", lambda: ConsistencyDetector(skip=False).detect(data, delimiters=allowed)),
                    ("helper", lambda: detect_dialect_consistency(data, delimiters=allowed, skip=True)),
                    ("helper no skip", lambda: detect_dialect_consistency(data, delimiters=allowed, skip=False)),
                    ("detector", lambda: clevercsv.Detector().detect(data, delimiters=allowed, method="consistency")),
                    ("detector no skip", lambda: clevercsv.Detector().detect(data, delimiters=allowed, method=clevercsv.detect.DetectionMethod.CONSISTENCY, skip=False))):
        try:
            outs[name] = key(f())
        except clevercsv.Error:
            outs[name] = "error"
    if len(set(outs.values())) != 1:
        s.fail(inp, "the same outcome with and without skipping", repr(outs))
    got = outs["skip"]
    if r is None:
        if got != "error":
            s.fail(inp, "an error (the sample does not parse)", repr(got))
        s.count((data, allowed), False)
        return
    best, Q = r
    t = oracle.tie(data, best)
    if got is not None and got not in best:
        s.fail(inp, "one of %r (score %r)" % (best, Q[best[0]]), "%r (score %r)" % (got, Q.get(got, "not a candidate") if got != "error" else "-"))
    if got is None and t is not None:
        s.fail(inp, "%r (best: %r)" % (t, best), "None")
    if got is not None and t is None:
        s.fail(inp, "no choice among the tied %r" % (best,), repr(got))
    s.count((data, allowed), len(Q) > 1)


def run(s):
    import itertools
    s.rule = RULE
    rng = s.rng
    for n in range(0, 6):
        for t in itertools.product(',"\\a\n', repeat=n):
            if not s.frac(0.35):
                break
            one(s, "".join(t))
        else:
            s.families.append("every text of %d characters over comma, quote, backslash, letter, newline" % n)
    for data in ("a b,c d\n1 2,3 4\n", "1-2,3-4\n5-6,7-8\n", "1,5 2,5\n3,5 4,5\n", "a;'b;c'\n'd';e\n", 'x,"a\\"b\\"c"\n', "\0", "a,b\0", 'Jill\\\'s,x\nJack\\\'s,y\n', "~a~,`b`,'c',\"d\"\n", "a~b`c'd\"e\n" * 2):
        one(s, data)
    while s.time_left():
        data = oracle.sample(rng)
        allowed = None if rng.random() < 0.75 else [rng.choice(",;\t| :-a") for _ in range(rng.randint(0, 4))]
        if len(oracle.candidates(data, allowed)) > 40:
            continue
        one(s, data, allowed)


def replay(s, i):
    one(s, i["data"], i["allowed"])
