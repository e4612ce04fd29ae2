"""C17 search: in-place safety, exit codes, option checks, several files."""
import itertools
import os
import cli
from cli import put, get

RULE = "one to three files, every kind of outcome per file, every combination of options, failures injected in reading, writing and moving; non-trivial: several files or a failure"
KINDS = ["same", "change", "nodetect", "nul", "badenc", "missing"]
TEXT = {"same": "a,b\r\n1,2\r\n3,4\r\n", "change": "a;b\n1;2\n3;4\n", "nodetect": "", "nul": "a,b\n1,\0\n3,4\n", "badenc": "x,y\né\u4f60,2\n3,4\n", "missing": "a,b\n"}


def outcome(p, raw, enc, target, transpose, num):
    """('code', code, new bytes) or ('raise',)"""
    from clevercsv.wrappers import detect_dialect
    from clevercsv.encoding import get_encoding
    try:
        e = enc or get_encoding(p)
        dia = detect_dialect(p, num_chars=num, encoding=e)
        with open(p, newline="", encoding=e) as fh:
            seen = fh.read()
    except Exception:
        return ("raise",)
    if dia is None:
        return ("code", 1, None, None)
    std = cli.standard(seen, dia, transpose)
    if std is None:
        return ("raise",)
    try:
        new = std.encode(target or e or "utf-8") if std else b""
    except UnicodeError:
        return ("raise", std)
    return ("code", 0 if new == raw else 2, new, std)


def one(s, texts, mode, encs, target, transpose, noutputs, num=None):
    inp = {"texts": texts, "mode": mode, "encs": encs, "target": target, "transpose": transpose, "noutputs": noutputs, "num": num}
    s.begin(inp)
    ps = [os.path.join(s.work, "c17_%d.csv" % i) for i in range(len(texts))]
    os_ = [os.path.join(s.work, "c17_%d.out" % i) for i in range(noutputs)]
    for f in ps + os_:
        if os.path.exists(f):
            os.unlink(f)
    before = []
    for i, (p, t) in enumerate(zip(ps, texts)):
        e = (encs[i] if len(encs) == len(texts) else encs[0] if len(encs) == 1 else None) or "utf-8"
        if t is None:
            before.append(None)
            continue
        b = t if isinstance(t, bytes) else t.encode(e, "replace")
        put(p, b)
        before.append(b)
    argv = ["standardize"] + ps
    for e in encs:
        argv += ["-e", e]
    if target:
        argv += ["-E", target]
    if mode == "inplace" or mode == "both":
        argv += ["-i"]
    for o in os_:
        argv += ["-o", o]
    if transpose:
        argv += ["-t"]
    if num:
        argv += ["-n", str(num)]
    inconsistent = ("-i" in argv and os_) or (os_ and len(os_) != len(ps)) or (len(encs) > 1 and len(encs) != len(ps))
    plan = []
    if not inconsistent:
        for i, p in enumerate(ps):
            e = encs[i] if len(encs) == len(ps) else encs[0] if encs else None
            plan.append(outcome(p, before[i], e, target, transpose, num))
    code, out, err, exc = cli.run(argv)
    after = [get(p) for p in ps]
    outs = [get(o) for o in os_]
    if inconsistent:
        if exc is not None or code != 1 or after != before or any(o is not None for o in outs) or out:
            s.fail(inp, "exit code 1 and nothing written", "code %r, %r, files changed: %r, outputs %r, stdout %r" % (code, exc, after != before, outs, out))
        s.count(repr(inp), True)
        return
    want_code, stop, raised, text = 0, False, False, ""
    want_after, want_outs = list(before), [None] * len(os_)
    for i, r in enumerate(plan):
        if r[0] == "raise":
            if mode == "stdout" and len(r) == 2:
                text += r[1]
                continue
            raised = True
            if os_:
                want_outs[i] = "any"
            break
        c, new, std = r[1], r[2], r[3]
        if c == 1:
            if want_code == 0:
                want_code = 1
            want_code = 1
            break
        if mode == "inplace":
            want_after[i] = new if c == 2 else before[i]
            if c and not want_code:
                want_code = c
        elif mode == "file":
            want_outs[i] = new
        else:
            text += std
    if raised:
        if exc is None:
            s.fail(inp, "the failure reported as an exception", "code %r" % (code,))
    elif exc is not None or code != want_code:
        s.fail(inp, "exit code %r" % want_code, "%r %r" % (code, exc))
    if after != want_after:
        s.fail(inp, "files %r" % (want_after,), repr(after))
    for w, g in zip(want_outs, outs):
        if w != "any" and w != g:
            s.fail(inp, "output files %r" % (want_outs,), repr(outs))
    if mode == "stdout" and out != text:
        s.fail(inp, "standard output %r" % text, repr(out))
    s.count(repr(inp), len(texts) > 1 or raised or want_code == 1)


class Boom(OSError):
    pass


def fault(s, text, where, after, transpose=False):
    """in place with a failure injected: the original stays"""
    import clevercsv.console.commands.standardize as m
    inp = {"fault": where, "text": text, "after": after, "transpose": transpose}
    s.begin(inp)
    p = os.path.join(s.work, "c17_f.csv")
    put(p, text.encode())
    saved = {}
    left = [after]

    def tick():
        left[0] -= 1
        if left[0] < 0:
            raise Boom("injected")

    def patch(name, val):
        if not hasattr(m, name):
            return
        saved[name] = getattr(m, name)
        setattr(m, name, val)
    try:
        if where == "detect":
            left[0] = 0
            patch("detect_dialect", lambda *a, **k: tick())
        elif where == "read":
            real = getattr(m, "reader", None)

            def rd(*a, **k):
                for row in real(*a, **k):
                    tick()
                    yield row
                tick()
            patch("reader", rd)
        elif where == "write":
            real = getattr(m, "writer", None)

            class W:
                def __init__(self, *a, **k):
                    self.w = real(*a, **k)

                def writerow(self, r):
                    tick()
                    return self.w.writerow(r)

                def writerows(self, rs):
                    for r in rs:
                        self.writerow(r)
            patch("writer", W)
        elif where == "encoding":
            left[0] = 0
            patch("get_encoding", lambda *a, **k: tick())
        elif where == "sha":
            real = getattr(m, "sha1sum", None)

            def sha(*a, **k):
                tick()
                return real(*a, **k)
            patch("sha1sum", sha)
        code, out, err, exc = cli.run(["standardize", "-i", p] + (["-t"] if transpose else []) + ([] if where == "encoding" else ["-e", "utf-8"]))
    finally:
        for k, v in saved.items():
            setattr(m, k, v)
    if left[0] < 0:
        if exc is None:
            s.fail(inp, "the failure reported", "code %r" % (code,))
        if get(p) != text.encode():
            s.fail(inp, "the file as it was", repr(get(p)))
    import glob
    import tempfile
    for f in glob.glob(os.path.join(tempfile.gettempdir(), "clevercsv_*.csv")):
        if os.path.getmtime(f) >= s.t0 - 1:
            os.unlink(f)
    s.count(repr(inp), left[0] < 0)


def run(s):
    import tempfile
    tempfile.tempdir = s.work
    s.rule = RULE
    rng = s.rng

    def text(k):
        return None if k == "missing" else TEXT[k]
    for n in (1, 2):
        for ks in itertools.product(KINDS, repeat=n):
            for mode in ("inplace", "file", "stdout"):
                for target in (None, "latin-1"):
                    one(s, [text(k) for k in ks], mode, ["utf-8"], target, False, n if mode == "file" else 0)
    s.families.append("one and two files, every kind of outcome, every mode")
    for ks in itertools.product(["same", "change", "nodetect"], repeat=3):
        one(s, [text(k) for k in ks], "inplace", ["utf-8"], None, False, 0)
    for np in (1, 2, 3):
        for no in (0, 1, 2, 3, 4):
            for ne in (0, 1, 2, 3, 4):
                for ip in (False, True):
                    mode = "both" if ip and no else "inplace" if ip else "file" if no else "stdout"
                    one(s, [TEXT["change"], TEXT["same"], "a|b\n1|2\n"][:np], mode, ["utf-8", "latin-1", "utf-16", "ascii"][:ne], None, False, no)
    s.families.append("every count of files, outputs and encodings up to 4, in place or not")
    for t in ("a;b\n1;2\n3;4\n", "a,b\r\n1,2\r\n", "x|y|z\n" * 5):
        for tr in (False, True):
            for where in ("detect", "read", "write", "encoding", "sha"):
                for k in range(0, 6):
                    fault(s, t, where, k, tr)
    s.families.append("a failure after every step of reading, writing, hashing, detecting")
    close = ["a,b\r\n1,2\r\n", "a,b\r\n1,2", "a,b\n1,2\n", "a,b\r\n1,2\r\n\r\n", '"a",b\r\n1,2\r\n', "a,b\r\n1,\"2\"\r\n", "a ,b\r\n1,2\r\n", "a\r\n\"\"\r\nb\r\n", 'a,"b,c"\r\n1,2\r\n', "1,2\r\n3,4\r\n" * 9000]
    for t in close:
        for tr in (False, True):
            for target in (None, "utf-16", "utf-8-sig"):
                one(s, [t], "inplace", ["utf-8"], target, tr, 0)
    while s.time_left():
        n = rng.choice([1, 1, 2, 3])
        mode = rng.choice(["inplace", "inplace", "file", "stdout"])
        one(s, [rng.choice([cli.messy(rng), cli.messy(rng), text(rng.choice(KINDS))]) for _ in range(n)], mode, rng.choice([["utf-8"], ["utf-8"] * n, []]),
            rng.choice([None, None, "latin-1", "utf-16"]), rng.random() < 0.3, n if mode == "file" else 0, rng.choice([None, None, 4, 30]))


def replay(s, i):
    import tempfile
    tempfile.tempdir = s.work
    if "fault" in i:
        fault(s, i["text"], i["fault"], i["after"], i["transpose"])
    else:
        one(s, i["texts"], i["mode"], i["encs"], i["target"], i["transpose"], i["noutputs"], i["num"])
