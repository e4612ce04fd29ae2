"""C05 search: the field size limit after detections that return, find nothing or raise."""
import os
import sys

RULE = "detections through every entry point on ordinary and failing samples, with the n-th call of a helper made to raise; non-trivial: the call raised or the limit was not the default"
FILES = ("potential_dialects.py", "detect_pattern.py", "detect_type.py", "break_ties.py", "normal_form.py", "escape.py", "dialect.py")


class Boom(BaseException):
    pass


class Boom2(Exception):
    pass


def faulty(n, exc, fn):
    """run fn, the n-th call into a helper module raising"""
    count = [0]

    def tracer(frame, event, arg):
        if event == "call" and os.path.basename(frame.f_code.co_filename) in FILES and "clevercsv" in frame.f_code.co_filename \
                and "limit" not in frame.f_code.co_name and not frame.f_code.co_name.startswith("__e"):
            count[0] += 1
            if count[0] == n:
                raise exc("injected")
        return None
    sys.settrace(tracer)
    try:
        fn()
        return count[0], None
    except BaseException as x:
        return count[0], type(x).__name__
    finally:
        sys.settrace(None)


def entry(name, sample, kw, path):
    import clevercsv
    from clevercsv import detect, consistency, normal_form
    if name == "detect":
        return lambda: clevercsv.Detector().detect(sample, **kw)
    if name == "sniff":
        return lambda: clevercsv.Sniffer().sniff(sample, delimiters=kw.get("delimiters"))
    if name == "header":
        return lambda: clevercsv.Detector().has_header(sample)
    if name == "consistency":
        return lambda: consistency.detect_dialect_consistency(sample, delimiters=kw.get("delimiters"), skip=kw.get("skip", True))
    if name == "object":
        return lambda: consistency.ConsistencyDetector(skip=kw.get("skip", True), verbose=kw.get("verbose", False)).detect(sample, delimiters=kw.get("delimiters"))
    if name == "normal":
        return lambda: normal_form.detect_dialect_normal(sample, delimiters=kw.get("delimiters"))
    if name == "file":
        def f():
            with open(path, "wb") as fh:
                fh.write(sample.encode("utf-8") if isinstance(sample, str) else b"")
            clevercsv.detect_dialect(path, encoding="utf-8", **{k: v for k, v in kw.items() if k in ("method", "skip", "verbose")})
        return f
    if name == "table":
        def f():
            with open(path, "wb") as fh:
                fh.write(sample.encode("utf-8") if isinstance(sample, str) else b"")
            g = clevercsv.stream_table(path, encoding="utf-8")
            next(g, None)
            # between two rows the detection is over
            check_now.append(clevercsv.field_size_limit())
            list(g)
        return f


check_now = []
ENTRIES = ["detect", "sniff", "header", "consistency", "object", "normal", "file", "table"]


def one(s, name, sample, kw, limit, fault):
    import clevercsv
    inp = {"entry": name, "sample": sample if isinstance(sample, (str, bytes)) else repr(sample), "kw": {k: v for k, v in kw.items()}, "limit": limit, "fault": fault}
    s.begin(inp)
    clevercsv.field_size_limit(limit)
    path = os.path.join(s.work, "c05.csv")
    out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    del check_now[:]
    try:
        fn = entry(name, sample, kw, path)
        if fault:
            cnt, r = faulty(fault[0], Boom if fault[1] else Boom2, fn)
        else:
            cnt, r = faulty(0, Boom, fn)
    finally:
        sys.stdout.close()
        sys.stdout = out
    got = [clevercsv.field_size_limit()] + (check_now if not fault else [])
    clevercsv.field_size_limit(131072)
    if any(g != limit for g in got):
        s.fail(inp, "the limit is still %r" % limit, "%r (the call ended with %s)" % (got, r or "a result"))
    s.count((name, repr(sample), repr(kw), limit, fault), bool(r) or limit != 131072)
    return cnt


SAMPLES = ["a,b\n1,2\n", "", "\n", "a,b\0c\nd,e", "\ud800,b\nc,d", "a;b;c\n1;2;3\n4;5;6\n", 'x\t"y\n', "a,'b'\n\"c\",d\n", "abc", None, 5, b"a,b\n", ["a,b"], "1,2\n3,4\n5\\,6,7\n",
           "name,val\n\"a \\\"b\\\" c\",1\nd,2\n", "http://a.b/c,d\n", "a|b\n" * 5, "é,ü\nö,ß\n", "a,b" * 50]


class Raising:
    def __iter__(self):
        yield ","
        raise KeyError("delims")


def run(s):
    s.rule = RULE
    rng = s.rng
    kws = [{}, {"method": "consistency"}, {"method": "normal"}, {"skip": False, "method": "consistency"}, {"delimiters": [",", ";"]}, {"delimiters": []},
           {"method": "consistency", "delimiters": [","]}, {"verbose": True, "method": "consistency"}, {"method": "nonsense"}, {"delimiters": 5}]
    for name in ENTRIES:
        for sample in SAMPLES:
            for kw in kws:
                if name in ("header", "table", "normal", "sniff") and "method" in kw:
                    continue
                one(s, name, sample, kw, rng.choice([131072, 131072, 0, 3, 10 ** 6]), None)
            one(s, name, sample, {"delimiters": Raising()}, 131072, None)
            if not s.frac(0.4):
                break
    s.families.append("%d samples (failing ones included) through every entry point" % len(SAMPLES))
    # every injection point of some detections
    for name in ("object", "consistency", "detect", "header"):
        for sample in (SAMPLES[0], SAMPLES[6], SAMPLES[14]):
            cnt = one(s, name, sample, {"method": "consistency"}, 50000, None)
            pts = list(range(1, cnt + 1))
            if cnt > 120:
                pts = pts[:60] + pts[-60:]
            for n in pts:
                if not s.frac(0.8):
                    break
                one(s, name, sample, {"method": "consistency"}, rng.choice([50000, 7]), (n, n % 2 == 0))
    while s.time_left():
        t = "".join(rng.choice(",;\t\"'ab1 \n\n\\") for _ in range(rng.randint(0, 40)))
        if rng.random() < 0.1:
            t = t + "\0"
        name = rng.choice(ENTRIES)
        kw = rng.choice(kws[:8])
        if name in ("header", "table", "normal", "sniff") and "method" in kw:
            kw = {}
        lim = rng.choice([131072, 0, 1, len(t), len(t) + 1, 10 ** 5])
        cnt = one(s, name, t, kw, lim, None)
        if cnt:
            one(s, name, t, kw, lim, (rng.randint(1, cnt), rng.random() < 0.5))


def replay(s, i):
    one(s, i["entry"], i["sample"], i["kw"], i["limit"], i["fault"] and tuple(i["fault"]))
