"""C19 search: the file reading helpers on real files."""
import csv
import io
import os
import cli
import oracle
from cli import put

RULE = "files short and long, with the dialect given or detected on a prefix, every helper; non-trivial: more than one row"


class Spy:
    """records what detection is given, answers with the real detection or a fixed answer"""

    def __init__(self, answer="real"):
        self.calls = []
        self.answer = answer

    def __enter__(self):
        import inspect
        import clevercsv.detect as d
        self.real, spy = d.Detector.detect, self
        real = self.real
        sig = inspect.signature(real)

        def detect(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            spy.calls.append(dict(b.arguments))
            return real(*a, **k) if spy.answer == "real" else spy.answer
        d.Detector.detect = detect
        return self

    def __exit__(self, *a):
        import clevercsv.detect as d
        d.Detector.detect = self.real


def dicts(rows):
    rows = [list(r) for r in rows]
    if not rows:
        return []
    head, out = rows[0], []
    for r in rows[1:]:
        if not r:
            continue
        m = dict(zip(head, r))
        if len(r) > len(head):
            m[None] = r[len(head):]
        for h in head[len(r):]:
            m[h] = None
        out.append(m)
    return out


def triple(d):
    from clevercsv.dialect import SimpleDialect
    if d is None:
        return None
    if isinstance(d, SimpleDialect):
        return (d.delimiter, d.quotechar, d.escapechar)
    if isinstance(d, str):
        d = csv.get_dialect(d)
    return (d.delimiter, "" if d.quoting == csv.QUOTE_NONE else d.quotechar, d.escapechar or "")


def one(s, text, helper, dialect, enc, num, nodetect=False):
    import clevercsv.wrappers as w
    from clevercsv.dialect import SimpleDialect
    from clevercsv.encoding import get_encoding
    from clevercsv.exceptions import NoDetectionResult
    inp = {"text": text, "helper": helper, "dialect": dialect, "enc": enc, "num": num, "nodetect": nodetect}
    s.begin(inp)
    p = os.path.join(s.work, "c19.csv")
    try:
        put(p, text.encode(enc or "utf-8"))
    except UnicodeError:
        return
    try:
        e = enc or get_encoding(p)
        with open(p, newline="", encoding=e) as fh:
            seen = fh.read()
    except Exception:
        return
    d = SimpleDialect(*dialect) if isinstance(dialect, tuple) else dialect
    kw = {}
    if d is not None:
        kw["dialect"] = d
    if enc:
        kw["encoding"] = enc
    if num is not None:
        kw["num_chars"] = num
    sample = seen if num is None else seen[:num]
    with Spy(None if nodetect else "real") as spy:
        try:
            got = list(getattr(w, helper)(p, **kw))
            err = None
        except Exception as x:
            got, err = None, x
    if d is not None:
        if spy.calls:
            s.fail(inp, "no detection with a dialect given", repr(spy.calls)[:300])
        use = triple(d)
    else:
        if len(spy.calls) != 1 or spy.calls[0]["sample"] != sample:
            s.fail(inp, "one detection of the first %r characters" % num, "%d calls, sample lengths %r" % (len(spy.calls), [len(c["sample"]) for c in spy.calls]))
        c = spy.calls[0]
        if c["delimiters"] is not None or str(getattr(c["method"], "value", c["method"])) != "auto":
            s.fail(inp, "detection with the default settings", repr(c)[:300])
        from clevercsv.detect import Detector
        try:
            use = None if nodetect else triple(Detector().detect(sample))
        except Exception:
            if err is None:
                s.fail(inp, "the failure of detection", repr(got))
            return
    if use is None:
        if not isinstance(err, NoDetectionResult):
            s.fail(inp, "NoDetectionResult", "%r %r" % (err, got))
        s.count(repr(inp), True)
        return
    rows = oracle.text_rows(seen, *use, flags=False)
    if rows is None:
        if err is None:
            s.fail(inp, "a parse error", repr(got))
        return
    want = dicts(rows) if "dicts" in helper else rows
    if err is not None or got != want:
        n = 0
        while err is None and n < min(len(got), len(want)) and got[n] == want[n]:
            n += 1
        s.fail(inp, "%d rows %r" % (len(want), want[n:n + 3]), "%r %r" % (err, got and (len(got), got[n:n + 3])))
    s.count(repr(inp), len(rows) > 1)


def detect(s, text, enc, num, method, skip):
    """detect_dialect hands everything on"""
    import clevercsv.wrappers as w
    from clevercsv.detect import Detector
    inp = {"detect": True, "text": text, "enc": enc, "num": num, "method": method, "skip": skip}
    s.begin(inp)
    p = os.path.join(s.work, "c19.csv")
    put(p, text.encode(enc))
    with Spy("tok") as spy:
        got = w.detect_dialect(p, num_chars=num, encoding=enc, method=method, skip=skip)
    sample = text if num is None else text[:num]
    if got != "tok" or len(spy.calls) != 1 or spy.calls[0]["sample"] != sample or str(getattr(spy.calls[0]["method"], "value", spy.calls[0]["method"])) != method or spy.calls[0]["skip"] is not skip or spy.calls[0]["delimiters"] is not None:
        s.fail(inp, "one detection of the first %r characters with the options given" % num, "%r %r" % (got, repr(spy.calls)[:500]))
    s.count(repr(inp), True)


def frame(s, text, enc, num, kw):
    """read_dataframe: what pandas is given"""
    import clevercsv.wrappers as w
    import pandas
    from clevercsv.detect import Detector
    from clevercsv.exceptions import NoDetectionResult
    from clevercsv.encoding import get_encoding
    inp = {"frame": True, "text": text, "enc": enc, "num": num, "kw": kw}
    s.begin(inp)
    p = os.path.join(s.work, "c19.csv")
    put(p, text.encode(enc or "utf-8"))
    e = enc or get_encoding(p)
    try:
        with open(p, newline="", encoding=e) as fh:
            sample = fh.read()
    except UnicodeError:
        return
    sample = sample if num is None else sample[:num]
    calls = []

    def fake(*a, **k):
        calls.append((a, k))
        return "df"
    real = pandas.read_csv
    pandas.read_csv = fake
    try:
        with Spy() as spy:
            k2 = dict(kw)
            if enc:
                k2["encoding"] = enc
            if num is not None:
                k2["num_chars"] = num
            try:
                got, err = w.read_dataframe(p, **k2), None
            except Exception as x:
                got, err = None, x
    finally:
        pandas.read_csv = real
    want = Detector().detect(sample)
    if len(spy.calls) != 1 or spy.calls[0]["sample"] != sample:
        s.fail(inp, "one detection of the first %r characters" % num, repr(spy.calls)[:300])
    if want is None:
        if not isinstance(err, NoDetectionResult):
            s.fail(inp, "NoDetectionResult", repr((err, got)))
        return
    if want.delimiter == "":
        return
    if err is not None or got != "df" or len(calls) != 1:
        s.fail(inp, "one call of read_csv", "%r %r" % (err, calls))
        return
    a, k = calls[0]
    k = dict(k)
    d = k.pop("dialect", None)
    if a != (p,) or triple(d) != triple(want) or k.pop("encoding", None) != e or k != kw:
        s.fail(inp, "read_csv(%r, dialect=%r, encoding=%r, **%r)" % (p, triple(want), e, kw), "%r %r %r" % (a, d and triple(d), k))
    s.count(repr(inp), True)


HELPERS = ["read_table", "stream_table", "read_dicts", "stream_dicts"]


def run(s):
    s.rule = RULE
    rng = s.rng
    long = "id;name;x\n" + "".join("%d;n%d;'q;%d'\n" % (i, i, i) for i in range(1200))
    wide = "é;ü\n" + "ß;ø\n" * 5000
    texts = ["a,b\n1,2\n3,4\n", "a;b\n1;2\n3;4\n5;6", "", "a\n", "a,b\n", "x|y\n\n1|2|3\n4\n", '"a","b"\n"c\nd","e"\n', "a,a\n1,2\n", "\n\n", "a\tb\r\n1\t2\r\n", "a,b\r1,2\r3,4"]
    for t in texts + [long, wide]:
        for h in HELPERS:
            for num in (None, 1, 5, 20, 8191, 8192, 8193):
                if num and num > 100 and len(t) < 100:
                    continue
                one(s, t, h, None, "utf-8", num)
            one(s, t, h, None, None, None)
            one(s, t, h, (";", "'", ""), "utf-8", None)
            one(s, t, h, (",", '"', "\\"), "utf-8", 3)
            one(s, t, h, "excel-tab", "utf-8", None)
            one(s, t, h, None, "utf-16", 7)
            one(s, t, h, None, "utf-8", None, True)
        for num in (None, 1, 4, 10000):
            for method in ("auto", "normal", "consistency"):
                for skip in (True, False):
                    detect(s, t, "utf-8", num, method, skip)
        for num in (None, 5, 30):
            frame(s, t, "utf-8", num, {})
            frame(s, t, None, num, {"header": None, "nrows": 3})
    s.families.append("%d fixed files (two longer than the read buffer), every helper, sample sizes 1 to 8193, dialect given or detected" % (len(texts) + 2))
    while s.time_left():
        t = cli.messy(rng)
        one(s, t, rng.choice(HELPERS), rng.choice([None, None, (",", '"', ""), (";", "'", "\\"), "excel"]), rng.choice(["utf-8", "utf-8", None, "utf-16", "latin-1"]), rng.choice([None, 3, 10, 40, 1000]), rng.random() < 0.05)
        if rng.random() < 0.1:
            frame(s, t, "utf-8", rng.choice([None, 10]), rng.choice([{}, {"header": None}]))


def replay(s, i):
    if "detect" in i:
        detect(s, i["text"], i["enc"], i["num"], i["method"], i["skip"])
    elif "frame" in i:
        frame(s, i["text"], i["enc"], i["num"], i["kw"])
    else:
        d = i["dialect"]
        one(s, i["text"], i["helper"], tuple(d) if isinstance(d, (tuple, list)) else d, i["enc"], i["num"], i["nodetect"])
