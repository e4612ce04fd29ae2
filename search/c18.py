"""C18 search: generated code is executed and what it opens and reads is compared."""
import io
import os
import types
import cli
from cli import put

RULE = "file names, encodings and dialect characters over awkward characters (quotes, backslashes, newlines, braces, controls, surrogates); non-trivial: any non-alphanumeric"
CH = ["a", "Z", "0", '"', "'", "\\", "\n", "\r", "\t", "\0", "{", "}", "%", "$", "é", "\u2028", "\x85", "\x1b", "\U0001f600", " ", "\ufeff", "#", "\\n", '"""', "\xad", "\udc80", "\x7f", "N{DASH}", "x41", "u0041"]


def execute(code, inp, s, pandas):
    """what the generated code opens and reads"""
    seen = {}

    class F:
        def __init__(self, *a, **k):
            seen["open"] = (a, k)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            seen["closed"] = True

    def reader(fp, *a, **k):
        seen["reader"] = (isinstance(fp, F) and "closed" not in seen, a, k)
        return iter([["r1"], ["r2"]])

    def frame(*a, **k):
        seen["frame"] = (a, k)
        return "df"
    mod = types.SimpleNamespace(reader=reader, read_dataframe=frame)
    import builtins
    real = builtins.__import__

    def imp(name, *a, **k):
        if name == "clevercsv":
            return mod
        return real(name, *a, **k)
    b = dict(vars(builtins), open=F, __import__=imp)
    env = {"__builtins__": b}
    try:
        exec(compile(code, "<generated>", "exec"), env)
    except Exception as x:
        s.fail(inp, "code that runs", "%s: %s in %r" % (type(x).__name__, x, code))
    return seen, env


def judge(s, inp, code, f, d, q, e, enc, pandas):
    seen, env = execute(code, inp, s, pandas)
    want = {"delimiter": d, "quotechar": q, "escapechar": e}
    if pandas:
        if "frame" not in seen or seen["frame"] != ((f,), want) or "open" in seen or "reader" in seen:
            s.fail(inp, "read_dataframe(%r, **%r)" % (f, want), repr(seen))
        return
    if "open" not in seen or "reader" not in seen:
        s.fail(inp, "the file opened and read", repr(seen))
        return
    a, k = seen["open"]
    names = ["file", "mode", "buffering", "encoding", "errors", "newline"]
    got = dict(zip(names, a))
    got.update(k)
    if got != {"file": f, "mode": "r", "newline": "", "encoding": enc} and got != {"file": f, "newline": "", "encoding": enc}:
        s.fail(inp, "open(%r, 'r', newline='', encoding=%r)" % (f, enc), repr(seen["open"]))
    ok, ra, rk = seen["reader"]
    if not ok or ra or rk != want:
        s.fail(inp, "reader(fp, **%r)" % want, repr(seen["reader"]))
    if env.get("rows") != [["r1"], ["r2"]]:
        s.fail(inp, "every row kept", repr(env.get("rows")))


def one(s, f, d, q, e, enc, pandas):
    from clevercsv.console.commands._utils import generate_code
    from clevercsv.dialect import SimpleDialect
    inp = {"f": f, "d": d, "q": q, "e": e, "enc": enc, "pandas": pandas}
    s.begin(inp)
    try:
        code = "\n".join(generate_code(f, SimpleDialect(d, q, e), enc, use_pandas=pandas))
    except Exception as x:
        s.fail(inp, "code", "%s: %s" % (type(x).__name__, x))
        return
    judge(s, inp, code, f, d, q, e, enc, pandas)
    s.count((f, d, q, e, enc, pandas), not (f + d + q + e).isalnum())


def command(s, name, text, enc, num, pandas):
    """the whole command on a real file"""
    from clevercsv.wrappers import detect_dialect
    from clevercsv.encoding import get_encoding
    inp = {"command": name, "text": text, "enc": enc, "num": num, "pandas": pandas}
    s.begin(inp)
    os.chdir(s.work)
    p = name
    try:
        put(p, text.encode(enc or "utf-8"))
    except (OSError, ValueError, UnicodeError):
        return
    try:
        e = enc or get_encoding(p)
        dia = detect_dialect(p, num_chars=num, encoding=e)
    except Exception:
        os.unlink(p)
        return
    code, out, err, exc = cli.run(["code", p] + (["-e", enc] if enc else []) + (["-n", str(num)] if num else []) + (["-p"] if pandas else []))
    if exc is not None or code != (1 if dia is None else 0):
        s.fail(inp, "exit code %d" % (1 if dia is None else 0), "%r %r" % (code, exc))
    elif dia is not None:
        judge(s, inp, out, p, dia.delimiter, dia.quotechar, dia.escapechar, e, pandas)
    elif out:
        s.fail(inp, "no code printed", out)
    os.unlink(p)
    s.count(repr(inp), not name.replace(".", "").isalnum())


def run(s):
    s.rule = RULE
    rng = s.rng
    for c in CH + [chr(i) for i in range(0x250)] + ["\ud800", "\udfff", "\uffff", "\U0010ffff"]:
        for pandas in (False, True):
            for f in (c, "a" + c, c + "b", c + c, "x" + c + '"' + c):
                one(s, f, ",", '"', "", "utf-8", pandas)
            if len(c) == 1:
                one(s, "f.csv", c, '"', "\\", "utf-8", pandas)
                one(s, "f.csv", ",", c, "", None, pandas)
                one(s, "f.csv", "", "", c, "utf-8", pandas)
            one(s, "f.csv", ",", '"', "", c, pandas)
    s.families.append("every character up to U+0250 and %d awkward pieces in the name, each dialect character and the encoding" % len(CH))
    for n in ("a.csv", "it's.csv", 'say"hi".csv', "b\\n.csv", "new\nline.csv", "{x}.csv", "%s.csv", "é.csv", "#c.csv", "tab\t.csv", "\x01.csv", "\u2028.csv", " .csv", " lead.csv", "trail.csv ", "\u3000wide.csv\u3000", "UPPER.CSV", "./dot.csv", "a..csv", "~.csv", "$HOME.csv", "file:x.csv", "a'''b\"\"\".csv"):
        for t in ("a,b\n1,2\n", "a;b\n'c;d';e\n'x';1\n", "", "a\tb\n1\t2\n", 'x|"y\\"z"|w\n"1\\""|2|3\n', "a\n", "é,ü\nß,ø\n"):
            for enc in ("utf-8", None, "latin-1"):
                for pandas in (False, True):
                    command(s, n, t, enc, None, pandas)
    while s.time_left():
        if rng.random() < 0.9:
            one(s, "".join(rng.choice(CH) for _ in range(rng.randint(0, 12))), rng.choice([c for c in CH if len(c) == 1] + [""]), rng.choice([c for c in CH if len(c) == 1] + [""]),
                rng.choice([c for c in CH if len(c) == 1] + [""]), rng.choice([None, "utf-8", "latin-1", "utf-16", 'x"y', "a\\"]), rng.random() < 0.5)
        else:
            command(s, "f%d.csv" % rng.randint(0, 9), cli.messy(rng), rng.choice([None, "utf-8"]), rng.choice([None, None, 8, 40]), rng.random() < 0.5)


def replay(s, i):
    if "command" in i:
        command(s, i["command"], i["text"], i["enc"], i["num"], i["pandas"])
    else:
        one(s, i["f"], i["d"], i["q"], i["e"], i["enc"], i["pandas"])
