"""C16 search: the contents standardize writes."""
import os
import cli
from cli import put, get

RULE = "files with messy, ragged and quoted tables through standardize to standard output, to a file and in place; non-trivial: detected and at least two cells"


def one(s, text, mode, transpose, enc, target, num):
    from clevercsv.wrappers import detect_dialect
    inp = {"text": text, "mode": mode, "transpose": transpose, "enc": enc, "target": target, "num": num}
    s.begin(inp)
    try:
        raw = text.encode(enc or "utf-8")
    except UnicodeError:
        return
    p, o = os.path.join(s.work, "c16.csv"), os.path.join(s.work, "c16.out")
    for f in (p, o):
        if os.path.exists(f):
            os.unlink(f)
    put(p, raw)
    from clevercsv.encoding import get_encoding
    e = enc or get_encoding(p)
    try:
        dia = detect_dialect(p, num_chars=num, encoding=e)
        with open(p, newline="", encoding=e) as fh:
            seen = fh.read()
    except Exception:
        return
    if dia is None:
        return
    std = cli.standard(seen, dia, transpose)
    if std is None:
        return
    argv = ["standardize", p]
    if enc:
        argv += ["-e", enc]
    if num:
        argv += ["-n", str(num)]
    if transpose:
        argv += ["-t"]
    if target:
        argv += ["-E", target]
    if mode == "file":
        argv += ["-o", o]
    if mode == "inplace":
        argv += ["-i"]
    try:
        want = std.encode(target or e or "utf-8")
    except UnicodeError:
        return
    if not std:
        want = b""
    code, out, err, exc = cli.run(argv)
    if exc is not None:
        s.fail(inp, "the standardized contents", "%s: %s" % (type(exc).__name__, exc))
        return
    if mode == "stdout":
        if out != std:
            s.fail(inp, repr(std), repr(out))
        if get(p) != raw:
            s.fail(inp, "the input as it was", repr(get(p)))
    else:
        got = get(o if mode == "file" else p)
        if got != want:
            s.fail(inp, repr(want), repr(got))
        if mode == "file" and get(p) != raw:
            s.fail(inp, "the input as it was", repr(get(p)))
    s.count((text, mode, transpose, enc, target, num), len(std) > 4)


def run(s):
    s.rule = RULE
    rng = s.rng
    texts = ["a,b,c\r\n1,2,3\r\n", "a;b\n1;2;3\n4\n", "x\ty\n\n1\t2\n", "'a','b'\n'c','d,e'\n", '"a"|"b"\n"c"|"d""e"\n', "a,b\n1,2\n3,4", "a\n", "", "\n\n", "one\ntwo\nthree\n", "a,b\r1,2\r", '"a\nb",c\nd,"e\r\nf"\n',
             "a,b,c\n1\n2,3\n", "a\n1,2,3\n", ",\n,\n", ";;\na;b;c\n", "a,b\n" * 300, "é,ü\nß,ø\n", "id|name\n" + "1|x\n" * 40 + "2|y|z\n"]
    for t in texts:
        for mode in ("stdout", "file", "inplace"):
            for tr in (False, True):
                one(s, t, mode, tr, "utf-8", None, None)
        one(s, t, "file", False, None, None, None)
        one(s, t, "inplace", True, "utf-8", "utf-16", None)
        one(s, t, "file", False, "utf-8", "latin-1", 5)
    s.families.append("%d fixed texts, every mode, transposed or not" % len(texts))
    while s.time_left():
        one(s, cli.messy(rng), rng.choice(["stdout", "file", "inplace"]), rng.random() < 0.5, rng.choice(["utf-8", "utf-8", "utf-16", "latin-1", None]),
            rng.choice([None, None, "utf-8", "latin-1", "utf-16"]), rng.choice([None, None, None, 5, 20]))


def replay(s, i):
    one(s, i["text"], i["mode"], i["transpose"], i["enc"], i["target"], i["num"])
