"""Verifier for functions over marker strings.

The source of a function is executed symbolically; every string depending on the input is a transducer
from that input (engine/fst.py), every condition on it splits the input language exactly, and loops are
either unrolled until no input of the language is left in them (a proof of their bound) or cut with an
invariant F(x) = F(x0) whose three obligations (preserved, established at the exit, shorter in every
turn) are decided by automata.  There is no bound on the strings."""
import ast
import os
import re
from . import fst
from .smt import Unsupported
from .contracts import Result
import time


class Restart(Exception):
    pass


class NewSymbols(Exception):
    pass


class Raises(Exception):
    pass


class Dead(Exception):
    pass


class Ret(Exception):
    pass


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Tr:
    """a string depending on the input"""

    def __init__(self, f):
        self.f = f


class CharAt:
    def __init__(self, tr, where):
        self.tr, self.where = tr, where


class Len:
    def __init__(self, tr, k=0):
        self.tr, self.k = tr, k


class Splits:
    def __init__(self, tr, sep):
        self.tr, self.sep = tr, sep


class Lang:
    """a truth value: the input lies in this language"""

    def __init__(self, d):
        self.d = d


class Arg:
    """something opaque, known by name"""

    def __init__(self, name):
        self.name = name


class Fn:
    def __init__(self, mod, node):
        self.mod, self.node = mod, node


class Native:
    def __init__(self, name):
        self.name = name


class Regex:
    def __init__(self, pat):
        self.pat = pat


class Meth:
    def __init__(self, o, name):
        self.o, self.name = o, name


class Module:
    cache = {}

    def __init__(self, repo, name):
        self.repo, self.name = repo, name
        path = os.path.join(repo, "clevercsv", name + ".py")
        if not os.path.exists(path):
            raise Unsupported("module %s" % name)
        with open(path) as fh:
            self.tree = ast.parse(fh.read())
        self.names = {}
        for n in self.tree.body:
            if isinstance(n, (ast.FunctionDef,)):
                self.names[n.name] = ("def", n)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.names[n.targets[0].id] = ("expr", n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                self.names[n.target.id] = ("expr", n.value)
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.names[a.asname or a.name] = ("from", (n.level, n.module, a.name))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.names[a.asname or a.name.split(".")[0]] = ("import", a.name)


def local_rule(sigma, behind, lit, ahead, new):
    """re.sub of (?<=behind)lit(?=ahead); behind/ahead: predicates on a character or None (start, end)"""
    sts = {}
    order = []

    def ident(x):
        if x not in sts:
            sts[x] = len(order)
            order.append(x)
        return sts[x]
    ident((None, None))
    trans, final = [], {}
    i = 0
    while i < len(order):
        prev, promise = order[i]
        row = []
        ok = lambda c: promise is None or ahead(c) == promise
        for c in sigma:
            if not ok(c):
                continue
            if lit == "":
                row.append((c, (new if behind(prev) and ahead(c) else "") + c, ident((c, None))))
            elif c == lit and behind(prev):
                row.append((c, new, ident((c, True))))
                row.append((c, c, ident((c, False))))
            else:
                row.append((c, c, ident((c, None))))
        trans.append(row)
        if ok(None):
            final[i] = new if lit == "" and behind(prev) and ahead(None) else ""
        i += 1
    return fst.FST(sigma, [(0, "")], trans, final)


class Machine:
    """one path"""

    UNROLL = 4

    def __init__(self, ex, prefix):
        self.ex, self.prefix, self.trace = ex, prefix, []
        self.D = ex.domain
        self.visits = {}
        self.depth = 0

    # -------------------------------------------------------- conditions
    def sym(self, *ws):
        for w in ws:
            if set(w) - set(self.ex.sigma):
                raise NewSymbols("".join(sorted(set(w) - set(self.ex.sigma))))

    def decide(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (str, int, tuple, list)):
            return bool(v)
        if isinstance(v, Tr):
            v = Lang(v.f.preimage(fst.having(self.ex.sigma, "", "is").complement()))
        elif isinstance(v, Len):
            v = self.compare(v, ast.NotEq(), 0)
        if not isinstance(v, Lang):
            raise Unsupported("truth of %s" % type(v).__name__)
        yes, no = self.D.meet(v.d), self.D.meet(v.d.complement())
        y, n = yes.witness() is not None, no.witness() is not None
        if not y and not n:
            raise Dead()
        k = len(self.trace)
        if y and n:
            if k < len(self.prefix):
                r = self.prefix[k]
            else:
                self.ex.work.append(self.trace + [False])
                r = True
            self.trace.append(r)
        else:
            r = y
        self.D = yes if r else no
        return r

    def lang(self, v):
        """as a language, without deciding"""
        if isinstance(v, bool):
            e = fst.everything(self.ex.sigma)
            return e if v else e.complement()
        return v.d if isinstance(v, Lang) else None

    def pre(self, tr, d):
        return Lang(tr.f.preimage(d))

    def tr(self, f):
        f = f.trim()
        if len(f.trans) > 60:
            f = f.only(self.D)
        return Tr(f)

    # -------------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (tuple, list)) and len(v) == len(t.elts):
            for x, y in zip(t.elts, v):
                self.assign(x, y, env)
        else:
            raise Unsupported("assignment to %s" % type(t).__name__)

    def stmt(self, s, env):
        self.ex.steps += 1
        if time.time() > self.ex.deadline:
            raise Unsupported("time budget used up")
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, env)
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            if not isinstance(s.target, ast.Name):
                raise Unsupported("augmented assignment")
            env[s.target.id] = self.binop(s.op, self.ev(ast.Name(id=s.target.id, ctx=ast.Load()), env), self.ev(s.value, env))
        elif isinstance(s, ast.If):
            self.block(s.body if self.decide(self.ev(s.test, env)) else s.orelse, env)
        elif isinstance(s, ast.Return):
            x = Ret()
            x.v = None if s.value is None else self.ev(s.value, env)
            raise x
        elif isinstance(s, ast.Break):
            raise Brk()
        elif isinstance(s, ast.Continue):
            raise Cont()
        elif isinstance(s, ast.While):
            self.loop(s, env)
        elif isinstance(s, ast.For):
            seq = self.ev(s.iter, env)
            if not isinstance(seq, (tuple, list, str)):
                raise Unsupported("for over %s" % type(seq).__name__)
            for x in seq:
                self.assign(s.target, x, env)
                try:
                    self.block(s.body, env)
                except Brk:
                    break
                except Cont:
                    continue
            else:
                self.block(s.orelse, env)
        elif isinstance(s, ast.Assert):
            if not self.decide(self.ev(s.test, env)):
                raise Raises("AssertionError")
        elif isinstance(s, ast.Raise):
            raise Raises("raise")
        elif isinstance(s, ast.FunctionDef):
            env[s.name] = Fn(env, s)
        else:
            raise Unsupported(type(s).__name__)

    def loop(self, s, env):
        key = (s.lineno, s.col_offset)
        if key in self.ex.cut:
            return self.cut(s, env)
        n = 0
        while self.decide(self.ev(s.test, env)):
            n += 1
            if n > self.UNROLL:
                self.ex.cut.add(key)
                raise Restart()
            try:
                self.block(s.body, env)
            except Brk:
                return
            except Cont:
                pass
        self.block(s.orelse, env)

    def cut(self, s, env):
        """invariant: the function F of the variable does not change, F being the identity at the exit"""
        names = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        live = sorted(n for n in names if n in env)
        if len(live) != 1 or not isinstance(env[live[0]], Tr) or s.orelse:
            raise Unsupported("loop over several variables")
        v = live[0]
        sg = self.ex.sigma
        for r in range(1, 3):
            pass
        cands = [("without its trailing %s" % "".join(c), fst.strip_end(sg, c)) for c in self.ex.sets()] + \
                [("without its leading %s" % "".join(c), fst.strip_start(sg, c)) for c in self.ex.sets()] + \
                [("with runs of %s as one" % c, fst.squeeze(sg, c, 1, c)) for c in sg]
        reach = env[v].f.only(self.D).image(sg)
        sub = Explorer(self.ex.repo, sg, reach, self.ex.deadline, self.ex.natives)
        sub.cut = set(self.ex.cut)
        outcomes = []

        def body(m):
            e2 = dict(env)
            e2[v] = Tr(fst.identity(sg))
            for k, x in env.items():
                if isinstance(x, (Tr, CharAt, Len, Splits, Lang)) and k != v:
                    e2[k] = Arg("outer " + k)
            if not m.decide(m.ev(s.test, e2)):
                return ("exit", m.D, e2[v])
            try:
                m.block(s.body, e2)
            except Brk:
                return ("exit", m.D, e2[v])
            except Cont:
                pass
            except (Ret, Raises):
                raise Unsupported("leaving a cut loop")
            return ("again", m.D, e2[v])
        outcomes = sub.run(body)
        for name, F in cands:
            ok = True
            for kind, D, x in outcomes:
                if not isinstance(x, Tr):
                    ok = False
                elif kind == "exit":
                    ok = fst.differ(x.f.only(D), F.only(D)) is None
                else:
                    ok = fst.differ(x.f.then(F).only(D), F.only(D)) is None and fst.shrinks(x.f.only(D))
                if not ok:
                    break
            if ok:
                self.ex.obl("line %d: the loop gives the string %s (kept by every turn, reached at the exit)" % (s.lineno, name))
                self.ex.obl("line %d: the string is shorter after every turn" % s.lineno)
                env[v] = self.tr(env[v].f.then(F))
                for t in names - {v}:
                    env.pop(t, None)
                return
        raise Unsupported("no invariant found for the loop at line %d" % s.lineno)

    # -------------------------------------------------------- expressions
    def lookup(self, name, env):
        while True:
            if name in env:
                return env[name]
            if "<outer>" in env:
                env = env["<outer>"]
            else:
                break
        m = env["<module>"]
        return self.global_(m, name)

    def global_(self, m, name):
        if name not in m.names:
            if name in ("len", "str", "range", "tuple", "list", "reversed", "bool"):
                return Native(name)
            raise Unsupported("name %s" % name)
        kind, x = m.names[name]
        if kind == "def":
            return Fn(m, x)
        if kind == "import":
            return Native(x)
        if kind == "from":
            level, mod, nm = x
            if level == 1 or (mod or "").startswith("clevercsv."):
                mod = mod.split(".")[-1]
                if (mod, nm) in self.ex.natives:
                    return Native((mod, nm))
                return self.global_(Module(self.ex.repo, mod), nm)
            return Native("%s.%s" % (mod, nm))
        return self.ev(x, {"<module>": m})

    def ev(self, e, env):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            return self.lookup(e.id, env)
        if isinstance(e, (ast.Tuple, ast.List)):
            return tuple(self.ev(x, env) for x in e.elts)
        if isinstance(e, ast.Dict):
            return {self.ev(k, env): self.ev(v, env) for k, v in zip(e.keys, e.values)}
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                v = self.ev(x, env)
                t = self.decide(v)
                if isinstance(e.op, ast.And) and not t:
                    return False if isinstance(v, (Lang, bool)) else v
                if isinstance(e.op, ast.Or) and t:
                    return True if isinstance(v, (Lang, bool)) else v
            return t if isinstance(v, (Lang, bool)) else v
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.Not):
                if isinstance(v, Lang):
                    return Lang(v.d.complement())
                return not self.decide(v)
            if isinstance(e.op, ast.USub) and isinstance(v, int):
                return -v
            raise Unsupported("unary operator")
        if isinstance(e, ast.IfExp):
            return self.ev(e.body if self.decide(self.ev(e.test, env)) else e.orelse, env)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            self.assign(e.target, v, env)
            return v
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))
        if isinstance(e, ast.JoinedStr):
            v = ""
            for p in e.values:
                if isinstance(p, ast.FormattedValue):
                    if p.format_spec is not None or p.conversion not in (-1, 115):
                        raise Unsupported("format")
                    p = self.ev(p.value, env)
                else:
                    p = p.value
                v = self.binop(ast.Add(), v, p)
            return v
        if isinstance(e, ast.Compare):
            left = self.ev(e.left, env)
            out = True
            for op, r in zip(e.ops, e.comparators):
                right = self.ev(r, env)
                out = self.compare(left, op, right)
                if len(e.ops) > 1 and not self.decide(out):
                    return False
                left = right
            return out
        if isinstance(e, ast.Attribute):
            o = self.ev(e.value, env)
            if isinstance(o, Arg):
                return Arg(o.name + "." + e.attr)
            if isinstance(o, Native) and isinstance(o.name, str):
                return Native(o.name + "." + e.attr)
            return Meth(o, e.attr)
        if isinstance(e, ast.Subscript):
            return self.subscript(self.ev(e.value, env), e.slice, env)
        if isinstance(e, ast.Call):
            f = self.ev(e.func, env)
            if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
                raise Unsupported("star arguments")
            return self.call(f, [self.ev(a, env) for a in e.args], {k.arg: self.ev(k.value, env) for k in e.keywords})
        if isinstance(e, ast.Lambda):
            return Fn(env, e)
        raise Unsupported(type(e).__name__)

    def subscript(self, o, sl, env):
        if isinstance(sl, ast.Slice):
            lo, hi, st = (None if x is None else self.ev(x, env) for x in (sl.lower, sl.upper, sl.step))
            if isinstance(o, (str, tuple, list)) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                return o[lo:hi:st]
            if isinstance(hi, Len) and hi.tr is o:
                hi = hi.k if hi.k < 0 else None
            if isinstance(o, Tr) and st in (None, 1):
                sg = self.ex.sigma
                if lo in (None, 0) and isinstance(hi, int) and hi < 0 and hi >= -6:
                    return self.tr(o.f.then(fst.drop_end(sg, -hi)))
                if isinstance(lo, int) and 0 <= lo <= 6 and hi is None:
                    return self.tr(o.f.then(fst.drop_start(sg, lo)))
                if lo in (None, 0) and hi is None:
                    return o
                if isinstance(lo, int) and lo < 0 and hi is None:
                    return CharAt(o, ("end", -lo))
                if lo in (None, 0) and isinstance(hi, int) and hi >= 0:
                    return CharAt(o, ("start", hi))
            raise Unsupported("slice")
        i = self.ev(sl, env)
        if isinstance(o, (str, tuple, list, dict)) and isinstance(i, (int, str)):
            try:
                return o[i]
            except (IndexError, KeyError):
                raise Raises("index")
        if isinstance(o, Tr) and isinstance(i, int) and i in (0, -1):
            if self.decide(self.compare(o, ast.Eq(), "")):
                raise Raises("IndexError")
            return CharAt(o, ("end", 1) if i < 0 else ("start", 1))
        raise Unsupported("subscript")

    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            if isinstance(a, (str, int, tuple)) and isinstance(b, type(a)):
                return a + b
            if isinstance(a, str) and isinstance(b, Tr):
                self.sym(a)
                return self.tr(b.f.then(fst.prepend(self.ex.sigma, a)))
            if isinstance(a, Tr) and isinstance(b, str):
                self.sym(b)
                return self.tr(a.f.then(fst.append(self.ex.sigma, b)))
        if isinstance(op, ast.Mult) and isinstance(a, (str, int)) and isinstance(b, (str, int)):
            return a * b
        if isinstance(op, (ast.Sub, ast.Add)) and isinstance(a, Len) and isinstance(b, int):
            return Len(a.tr, a.k + (b if isinstance(op, ast.Add) else -b))
        if isinstance(op, ast.Sub) and isinstance(a, int) and isinstance(b, int):
            return a - b
        raise Unsupported("operator %s" % type(op).__name__)

    FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def compare(self, a, op, b):
        sg = self.ex.sigma
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b is None or a is None:
                r = a is None and b is None
                return r if isinstance(op, ast.Is) else not r
            raise Unsupported("is")
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(a, str) and isinstance(b, Tr):
                self.sym(a)
                d = b.f.preimage(fst.having(sg, a, "in"))
            elif isinstance(a, CharAt) and isinstance(b, (str, tuple)) and all(isinstance(x, str) for x in b):
                if isinstance(b, str) and a.where[1] != 1:
                    raise Unsupported("membership of a slice")
                d = fst.everything(sg).complement()
                for x in b:
                    d = d.join(self.lang(self.compare(a, ast.Eq(), x)))
            elif isinstance(a, str) and isinstance(b, (str, tuple, list, dict)):
                return (a in b) == isinstance(op, ast.In)
            else:
                raise Unsupported("membership")
            return Lang(d if isinstance(op, ast.In) else d.complement())
        if isinstance(b, (Tr, CharAt, Len)) and not isinstance(a, (Tr, CharAt, Len)):
            if type(op) not in self.FLIP:
                raise Unsupported("comparison")
            a, b, op = b, a, self.FLIP[type(op)]()
        eq = isinstance(op, (ast.Eq, ast.NotEq))
        neg = (lambda d: Lang(d.complement() if isinstance(op, ast.NotEq) else d))
        if isinstance(a, Tr) and isinstance(b, str) and eq:
            self.sym(b)
            return neg(a.f.preimage(fst.having(sg, b, "is")))
        if isinstance(a, CharAt) and isinstance(b, str) and eq:
            self.sym(b)
            w, n = a.where
            d = fst.having(sg, b, w) if len(b) == n else fst.having(sg, b, "is") if len(b) < n else fst.everything(sg).complement()
            return neg(a.tr.f.preimage(d))
        if isinstance(a, Tr) and isinstance(b, Tr) and eq:
            # equal on a regular set only when the difference is: decided when they are the same or never
            if a is b:
                return isinstance(op, ast.Eq)
            raise Unsupported("comparison of two strings")
        if isinstance(a, Len) and isinstance(b, Len) and a.tr is b.tr:
            a, b = a.k, b.k
        if isinstance(a, Len) and isinstance(b, int):
            return Lang(a.tr.f.preimage(self.length(op, b - a.k)))
        if isinstance(a, (int, str, tuple)) and isinstance(b, (int, str, tuple)):
            import operator as O
            f = {ast.Eq: O.eq, ast.NotEq: O.ne, ast.Lt: O.lt, ast.LtE: O.le, ast.Gt: O.gt, ast.GtE: O.ge}[type(op)]
            return f(a, b)
        raise Unsupported("comparison")

    def length(self, op, k):
        """strings whose length compares with k"""
        import operator as O
        if k > 12:
            raise Unsupported("length")
        f = {ast.Eq: O.eq, ast.NotEq: O.ne, ast.Lt: O.lt, ast.LtE: O.le, ast.Gt: O.gt, ast.GtE: O.ge}[type(op)]
        n = max(k, 0) + 1
        return fst.DFA(self.ex.sigma, [{c: min(i + 1, n) for c in self.ex.sigma} for i in range(n + 1)], 0, {i for i in range(n + 1) if f(i, k)})

    # -------------------------------------------------------- calls
    def call(self, f, args, kw):
        sg = self.ex.sigma
        if isinstance(f, Fn):
            a = f.node.args
            if a.vararg or a.kwarg:
                raise Unsupported("variable arguments")
            self.depth += 1
            if self.depth > 12:
                raise Unsupported("recursion")
            names = [x.arg for x in a.posonlyargs + a.args]
            env = {"<module>": f.mod} if isinstance(f.mod, Module) else {"<outer>": f.mod}
            menv = env
            for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
                env[n] = self.ev(d, menv)
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    env[x.arg] = self.ev(d, menv)
            if len(args) > len(names):
                raise Unsupported("arguments")
            for n, v in list(zip(names, args)) + list(kw.items()):
                env[n] = v
            if getattr(f.node, "decorator_list", None):
                raise Unsupported("decorator")
            if isinstance(f.node, ast.Lambda):
                r = self.ev(f.node.body, env)
            else:
                self.ex.inlined.add(f.node.name)
                try:
                    self.block(f.node.body, env)
                    r = None
                except Ret as x:
                    r = x.v
            self.depth -= 1
            return r
        if isinstance(f, Native):
            if f.name in self.ex.natives:
                return self.ex.natives[f.name](self, args, kw)
            if f.name == "len" and len(args) == 1:
                return len(args[0]) if isinstance(args[0], (str, tuple, list)) else Len(args[0]) if isinstance(args[0], Tr) else self.no("len")
            if f.name == "range" and all(isinstance(x, int) for x in args):
                return tuple(range(*args))
            if f.name in ("tuple", "list", "reversed") and len(args) == 1 and isinstance(args[0], (tuple, list, str)):
                return tuple(reversed(args[0])) if f.name == "reversed" else tuple(args[0])
            if f.name == "str" and len(args) == 1 and isinstance(args[0], (Tr, str)):
                return args[0]
            if f.name == "re.compile" and len(args) == 1 and isinstance(args[0], str) and not kw:
                return Regex(args[0])
            if f.name == "re.sub" and len(args) == 3 and not kw:
                return self.resub(args[0].pat if isinstance(args[0], Regex) else args[0], args[1], args[2])
            if f.name in ("re.search", "re.match") and len(args) == 2 and not kw:
                return self.call(Meth(Regex(args[0]), f.name[3:]), args[1:], kw)
            raise Unsupported("call of %s" % (f.name,))
        if isinstance(f, Meth):
            o, n = f.o, f.name
            if isinstance(o, Regex):
                if n == "sub" and len(args) == 2 and not kw:
                    return self.resub(o.pat, args[0], args[1])
                if n in ("search", "match") and len(args) == 1 and isinstance(args[0], Tr) and re.fullmatch("[A-Za-z]+", o.pat):
                    self.sym(o.pat)
                    return self.pre(args[0], fst.having(sg, o.pat, "in" if n == "search" else "start"))
                raise Unsupported("regular expression method %s" % n)
            if isinstance(o, str):
                if n == "join" and len(args) == 1 and isinstance(args[0], Splits):
                    self.sym(o)
                    return self.tr(args[0].tr.f.then(fst.replace(sg, args[0].sep, o)))
                if all(isinstance(x, (str, int, tuple)) for x in args) and not kw:
                    return getattr(o, n)(*args)
            if isinstance(o, dict) and n == "items" and not args:
                return tuple(o.items())
            if isinstance(o, dict) and n in ("get",) and all(isinstance(x, str) for x in args):
                return o.get(*args)
            if isinstance(o, Tr) and not kw:
                return self.method(o, n, args)
        raise Unsupported("call")

    def no(self, what):
        raise Unsupported(what)

    def method(self, o, n, args):
        sg = self.ex.sigma
        strs = all(isinstance(x, str) for x in args)
        if strs:
            self.sym(*args)
        if n == "replace" and len(args) == 2 and strs and args[0]:
            return self.tr(o.f.then(fst.replace(sg, args[0], args[1])))
        if n in ("startswith", "endswith") and len(args) == 1:
            ws = (args[0],) if isinstance(args[0], str) else args[0]
            if not isinstance(ws, tuple) or not all(isinstance(w, str) for w in ws):
                raise Unsupported(n)
            self.sym(*ws)
            d = fst.everything(sg).complement()
            for w in ws:
                d = d.join(fst.having(sg, w, "start" if n == "startswith" else "end"))
            return self.pre(o, d)
        if n in ("strip", "rstrip", "lstrip") and len(args) == 1 and strs:
            f = o.f
            if n != "lstrip":
                f = f.then(fst.strip_end(sg, args[0]))
            if n != "rstrip":
                f = f.then(fst.strip_start(sg, args[0]))
            return self.tr(f)
        if n in ("removesuffix", "removeprefix") and len(args) == 1 and strs:
            end = n == "removesuffix"
            if self.decide(self.pre(o, fst.having(sg, args[0], "end" if end else "start"))) and args[0]:
                return self.tr(o.f.then((fst.drop_end if end else fst.drop_start)(sg, len(args[0]))))
            return o
        if n == "split" and len(args) == 1 and strs and args[0]:
            return Splits(o, args[0])
        if n == "__contains__" and len(args) == 1 and strs:
            return self.pre(o, fst.having(sg, args[0], "in"))
        if n == "join" and len(args) == 1:
            raise Unsupported("join")
        raise Unsupported("str.%s" % n)

    def resub(self, pat, new, o):
        if not isinstance(pat, str) or not isinstance(new, str) or "\\" in new:
            raise Unsupported("re.sub")
        if isinstance(o, str):
            return re.sub(pat, new, o)
        if not isinstance(o, Tr):
            raise Unsupported("re.sub")
        P = re._parser
        p = list(P.parse(pat))
        self.sym(new)
        sg = self.ex.sigma

        def charset(items):
            """predicate of a one-character item, or None"""
            if len(items) != 1:
                return None
            op, av = items[0]
            if op is re._constants.LITERAL:
                self.sym(chr(av))
                return {chr(av)}
            if op is re._constants.IN:
                out, neg = set(), False
                for o2, a2 in av:
                    if o2 is re._constants.NEGATE:
                        neg = True
                    elif o2 is re._constants.LITERAL:
                        self.sym(chr(a2))
                        out.add(chr(a2))
                    else:
                        return None
                return set(sg) - out if neg else out
            return None
        K = re._constants
        if p and all(op is K.LITERAL for op, _ in p):
            w = "".join(chr(a) for _, a in p)
            self.sym(w)
            return self.tr(o.f.then(fst.replace(sg, w, new)))
        # a run of one character (written X+, X{m,}, XX+, XX*, ...)
        q = list(p)
        tail = None
        if q and q[-1][0] is K.AT and q[-1][1] in (K.AT_END, K.AT_END_STRING):
            tail = q.pop()
        m, unb, ch = 0, False, set()
        for op, av in q:
            if op is K.LITERAL:
                m += 1
                ch.add(chr(av))
            elif op is K.MAX_REPEAT and len(av[2]) == 1 and list(av[2])[0][0] is K.LITERAL and av[1] is K.MAXREPEAT:
                m += av[0]
                unb = True
                ch.add(chr(list(av[2])[0][1]))
            else:
                m = None
                break
        if len(p) == 1 and p[0][0] is K.MAX_REPEAT and p[0][1][1] is not K.MAXREPEAT and 0 < p[0][1][0] and p[0][1][1] <= 40 and len(p[0][1][2]) == 1 and list(p[0][1][2])[0][0] is K.LITERAL:
            x = chr(list(p[0][1][2])[0][1])
            self.sym(x)
            return self.tr(o.f.then(fst.chunks(sg, x, p[0][1][0], p[0][1][1], new)))
        if m and unb and len(ch) == 1:
            x = ch.pop()
            self.sym(x)
            if tail is None:
                return self.tr(o.f.then(fst.squeeze(sg, x, m, new)))
            if m == 1 and new == "":
                return self.tr(o.f.then(fst.strip_end(sg, x)))
        # one position or one character between given neighbours
        behind = ahead = None
        lit = ""
        for op, av in p:
            if op in (K.ASSERT, K.ASSERT_NOT):
                cs = charset(list(av[1]))
                if cs is None:
                    break
                f = (lambda c, cs=cs: c in cs) if op is K.ASSERT else (lambda c, cs=cs: c not in cs)
                if av[0] < 0 and behind is None and not lit:
                    behind = f
                elif av[0] > 0 and ahead is None:
                    ahead = f
                else:
                    break
            elif op is K.LITERAL and not lit and ahead is None:
                lit = chr(av)
                self.sym(lit)
            elif op is K.AT and av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING) and behind is None and not lit:
                behind = lambda c: c is None
            elif op is K.AT and av in (K.AT_END, K.AT_END_STRING) and ahead is None:
                ahead = lambda c: c is None
            else:
                break
        else:
            return self.tr(o.f.then(local_rule(sg, behind or (lambda c: True), lit, ahead or (lambda c: True), new)))
        raise Unsupported("pattern %r" % pat)


class Explorer:
    def __init__(self, repo, sigma, domain, deadline, natives):
        self.repo, self.sigma, self.domain, self.deadline, self.natives = repo, sigma, domain, deadline, natives
        self.cut, self.inlined = set(), set()
        self.steps = self.paths = 0
        self.obls = []

    def obl(self, label):
        if label not in self.obls:
            self.obls.append(label)

    def sets(self):
        import itertools
        return [c for r in (1, 2) for c in itertools.combinations(self.sigma, r)]

    def run(self, body):
        while True:
            try:
                return self._run(body)
            except Restart:
                self.obls = []

    def _run(self, body):
        self.work, out = [[]], []
        while self.work:
            m = Machine(self, self.work.pop())
            self.paths += 1
            if self.paths > 3000:
                raise Unsupported("too many paths")
            try:
                r = body(m)
            except Dead:
                continue
            except OverflowError as x:
                raise Unsupported(str(x))
            if r is not None:
                out.append(r)
        return out
