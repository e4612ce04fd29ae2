"""C03 search: the extensions under AddressSanitizer/UBSan, under every single allocation failure, with leak accounting."""
import ctypes
import gc
import os
import sys
import tracemalloc
from c01 import DIALECTS, split_lines

RULE = ("Parser objects and abstraction calls on ordinary, boundary-length, malformed and re-entrant arguments, each also with every allocation made to fail; "
        "non-trivial: at least one allocation happens in the module")
LONG = [4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385]


class Lib:
    def __init__(self, mod):
        self.ok = True
        lib = ctypes.CDLL(mod.__file__)
        try:
            self.v = {n: ctypes.c_long.in_dll(lib, "verif_" + n) for n in ("count", "fail_at", "live", "hit")}
            self.fill = ctypes.c_int.in_dll(lib, "verif_fill")
        except ValueError:
            self.ok = False

    def get(self, n):
        return self.v[n].value if self.ok else 0

    def set(self, n, x):
        if self.ok:
            self.v[n].value = x


class Bomb:
    """an iterable of lines that misbehaves at one point"""

    def __init__(self, lines, at, what):
        self.lines, self.at, self.what, self.n, self.p = list(lines), at, what, 0, None

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        if self.n == self.at:
            if self.what == "raise":
                raise KeyError("bomb")
            if self.what == "bytes":
                return b"abc"
            if self.what == "none":
                return None
            if self.what == "gc":
                gc.collect()
            if self.what == "reenter" and self.p is not None:
                try:
                    next(self.p)
                except StopIteration:
                    pass
            if self.what == "reenter2" and self.p is not None:
                list(zip(range(2), self.p))
            if self.what == "reinit" and self.p is not None:
                iter(self.p).__iter__()
        if self.n > len(self.lines):
            raise StopIteration
        return self.lines[self.n - 1]


class Str(str):
    pass


class BadBool:
    def __bool__(self):
        raise KeyError("bool")


class BadIter:
    def __iter__(self):
        raise KeyError("iter")


class NoIter:
    def __iter__(self):
        return 5


ODD = [None, 5, 0, -1, 2 ** 31, 2 ** 63 - 1, -2 ** 63, 2 ** 63, 2 ** 70, 1.5, "", "a", "ab", "\0", "\ud800", "\U0010ffff", b"", b"x", [], ["a"], ["a,b\n", "c"], (), {}, True, False, BadBool(), BadIter(), NoIter(), Str("x"),
       Str("xy"), object(), int, iter([]), 3j, "é", ["\ud800,\udfff\n"], [Str("a,b\n")], [None], [["a"]], "a,b"]


def consume(p, upto):
    rows = []
    for r in p:
        rows.append(r)
        if upto is not None and len(rows) >= upto:
            break
    return rows


def op_parse(spec):
    """spec: (lines, kind, at, dialect kwargs, upto)"""
    from clevercsv.cparser import Parser
    lines, what, at, kw, upto = spec
    src = Bomb(lines, at, what) if what else lines
    p = Parser(src, **kw)
    if what:
        src.p = p
    try:
        r = consume(p, upto)
        if upto is not None:
            p.doublequote
        else:
            for _ in range(2):
                try:
                    next(p)
                except StopIteration:
                    pass
        return r
    finally:
        if what:
            src.p = None


def op_odd(spec):
    from clevercsv.cparser import Parser
    args, kw = spec
    p = Parser(*args, **kw)
    return consume(p, 3)


def op_abs(spec):
    from clevercsv import cabstraction as c
    f, args = spec
    return getattr(c, f)(*args)


def op_pipe(spec):
    from clevercsv.detect_pattern import make_abstraction
    from clevercsv.dialect import SimpleDialect
    t, d, q, e = spec
    return make_abstraction(t, SimpleDialect(d, q, e))


OPS = {"parse": op_parse, "odd": op_odd, "abs": op_abs, "pipe": op_pipe}


def attempt(op, spec):
    try:
        return ("ok", OPS[op](spec))
    except RecursionError:
        return ("raise", "RecursionError")
    except Exception as x:
        return ("raise", type(x).__name__)


def watched(spec):
    out = []

    def go(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                go(y)
        elif isinstance(x, dict):
            for y in x.values():
                go(y)
        elif x is not None and not isinstance(x, (bool, int)):
            out.append(x)
    go(spec)
    return out


def leak(s, op, spec, inp, libs, what):
    objs = watched(spec)
    n = 4
    a = attempt(op, spec)
    del a
    gc.collect()

    def measure(n):
        l0 = [x.get("live") for x in libs]
        r0 = [sys.getrefcount(o) for o in objs]
        m0 = tracemalloc.get_traced_memory()[0]
        for _ in range(n):
            attempt(op, spec)
            for x in libs:
                x.set("count", 0)
        gc.collect()
        m1 = tracemalloc.get_traced_memory()[0]
        r1 = [sys.getrefcount(o) for o in objs]
        l1 = [x.get("live") for x in libs]
        return m1 - m0, [b - a for a, b in zip(l0, l1)], [b - a for a, b in zip(r0, r1)]

    def bad(m, n):
        # a released-too-often reference shows as a falling count, a leak as growth on every call
        return m[0] >= 16 * n or any(d >= n for d in m[1]) or any(abs(d) >= n for d in m[2])
    if bad(measure(n), n):
        m = measure(200)
        if bad(m, 200):
            s.fail(inp, "no growth over 200 repetitions (%s)" % what, "memory %+d bytes, buffers %r, references %r" % m)


def one(s, op, spec, faults=True, leaks=True):
    inp = {"op": op, "spec": spec}
    s.begin(inp)
    libs = s.libs
    for x in libs:
        x.set("fail_at", 0)
        x.set("count", 0)
    if libs[0].ok:
        for x in libs:
            x.fill.value = 0xA5
    base = attempt(op, spec)
    total = sum(x.get("count") for x in libs)
    if base[0] == "raise" and base[1] in ("SystemError", "UnboundLocalError"):
        s.fail(inp, "a result or a Python exception raised by the module", base[1])
    if libs[0].ok and s.evaluations % 3 == 0:
        for f in (0, 0xFF):
            for x in libs:
                x.fill.value = f
            r = attempt(op, spec)
            if r != base:
                s.fail(inp, "the same result whatever fresh memory contains: %r" % (base,), repr(r))
    leaks = leaks and not s.asan
    if leaks:
        leak(s, op, spec, inp, libs, "no failure injected")
    s.count((op, repr(spec)), total > 0)
    if not faults or not libs[0].ok:
        return
    for lib in libs:
        for x in libs:
            x.set("fail_at", 0)
            x.set("count", 0)
        attempt(op, spec)
        cnt = lib.get("count")
        ns = range(1, cnt + 1) if cnt <= 40 else list(range(1, 25)) + sorted(s.rng.sample(range(25, cnt + 1), 12))
        for n in ns:
            lib.set("fail_at", n)
            lib.set("count", 0)
            lib.set("hit", 0)
            inp2 = {"op": op, "spec": spec, "fail_at": n, "module": libs.index(lib)}
            s.begin(inp2)
            r = attempt(op, spec)
            if lib.get("hit"):
                if r[0] == "ok" and r != base:
                    s.fail(inp2, "an exception (allocation %d failed) or %r" % (n, base), repr(r))
                if r[0] == "raise" and r[1] == "SystemError":
                    s.fail(inp2, "the failure of allocation %d reported as an exception" % n, "SystemError (error without an exception set or bad internal call)")
            if leaks and (n in (1, 2, 3) or s.rng.random() < 0.3):
                leak(s, op, spec, inp2, libs, "allocation %d fails" % n)
            lib.set("fail_at", 0)
            s.count((op, repr(spec), n), bool(lib.get("hit")))


def kwargs(rng):
    d, q, e = rng.choice(DIALECTS)
    kw = dict(delimiter=d, quotechar=q, escapechar=e, strict=rng.random() < 0.4)
    if rng.random() < 0.6:
        kw["return_quoted"] = rng.random() < 0.7
    if rng.random() < 0.2:
        kw["field_limit"] = rng.choice([0, 1, 2, 5, 4096, 10 ** 9, -1])
    return kw


def setup(s):
    from clevercsv import cparser, cabstraction
    s.asan = "asan" in os.environ.get("LD_PRELOAD", "")
    if not s.asan:
        tracemalloc.start()
    gc.collect()
    gc.freeze()
    s.libs = [Lib(cparser), Lib(cabstraction)]


def run(s):
    s.rule = RULE
    setup(s)
    rng = s.rng
    for f in (True, False):
        # buffer boundaries
        for n in LONG:
            one(s, "parse", (["x" * n + "\n"], None, 0, dict(delimiter=",", return_quoted=f), None))
            one(s, "abs", ("base_abstraction", ("ab," * n, ",", '"', "\\")))
            one(s, "abs", ("base_abstraction", ("," * n, ",", '"', "\\")))
        for n in (4095, 4096, 8192, 16384, 65536):
            one(s, "parse", (['"' + "é" * n + '"', "\U0001f600" * n], None, 0, dict(delimiter=",", quotechar='"', return_quoted=f), None))
    for n in range(0, 40):
        one(s, "abs", ("c_merge_with_quotechar", ("QCQ" * n,)))
        one(s, "abs", ("c_merge_with_quotechar", ("QQ" * n + "Q",)))
        one(s, "abs", ("c_merge_with_quotechar", ("QDQ" * n + "QC",)))
    # odd arguments
    for a in ODD:
        if not s.frac(0.6):
            break
        one(s, "odd", ((a,), {}))
        one(s, "abs", ("c_merge_with_quotechar", (a,)))
        for i in range(4):
            args = ["a,b", ",", '"', "\\"]
            args[i] = a
            one(s, "abs", ("base_abstraction", tuple(args)))
        for k in ("delimiter", "quotechar", "escapechar", "field_limit", "strict", "return_quoted", "nonsense"):
            one(s, "odd", ((["a,b\n", '"c"d,e'],), {k: a}))
    else:
        s.families.append("every odd value for every argument of Parser, base_abstraction and c_merge_with_quotechar")
    for args in ((), (1, 2), (["a"], ",")):
        one(s, "odd", (args, {}))
        one(s, "abs", ("base_abstraction", args))
        one(s, "abs", ("c_merge_with_quotechar", args))
    texts = ['a,b\n"c,d",e\n', '"ab""c"\n', '"open', "a\\", '"a\\', '"a" b,c\n', "a\rb\n", "a\0b\n", "\n\n", "", '"a\nb",c\nd', "a\\\n", '"\\']
    for t in texts:
        if not s.frac(0.8):
            break
        for what in ("raise", "bytes", "none", "gc", "reenter", "reenter2", "reinit"):
            for at in (1, 2, 3):
                for rq in (False, True):
                    one(s, "parse", (t.splitlines(True), what, at, dict(delimiter=",", quotechar='"', escapechar="\\", return_quoted=rq), None), faults=at == 2, leaks=at < 3)
        for strict in (False, True):
            for upto in (None, 1):
                one(s, "parse", (t.splitlines(True), None, 0, dict(delimiter=",", quotechar='"', escapechar="\\", strict=strict, return_quoted=upto is None), upto))
        one(s, "pipe", (t, ",", '"', "\\"))
    else:
        s.families.append("misbehaving and re-entrant line iterators on %d texts" % len(texts))
    while s.time_left():
        kw = kwargs(rng)
        d, q, e = kw["delimiter"], kw["quotechar"], kw["escapechar"]
        alpha = [c for c in (d, q, e) if c] * 2 + ["a", "b", "\n", "\r", "é", "\U0001f600", "\ud800"]
        t = "".join(rng.choice(alpha) for _ in range(rng.choice([5, 20, 60, 300])))
        r = rng.random()
        if r < 0.5:
            what = rng.choice([None, None, None, "raise", "bytes", "none", "gc", "reenter", "reenter2"])
            one(s, "parse", (split_lines(rng, t, rng.randint(0, 2)), what, rng.randint(1, 4), kw, rng.choice([None, None, 1, 2])),
                faults=rng.random() < 0.5, leaks=rng.random() < 0.3)
        elif r < 0.7:
            one(s, "abs", ("base_abstraction", (t * rng.choice([1, 1, 30]), d, q, e)), leaks=rng.random() < 0.2)
        elif r < 0.9:
            one(s, "abs", ("c_merge_with_quotechar", ("".join(rng.choice("CDQQRx") for _ in range(rng.choice([3, 10, 40, 200]))),)), leaks=rng.random() < 0.2)
        else:
            one(s, "pipe", (t, d, q, e))


def replay(s, i):
    setup(s)
    if isinstance(i, list):
        i = i[0]
    if i.get("fail_at"):
        s.rng.sample = lambda pop, k: [x for x in pop if x == i["fail_at"]] or list(pop)[:1]
    one(s, i["op"], i["spec"])
