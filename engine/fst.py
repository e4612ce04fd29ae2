"""Decision procedures for string functions: finite automata and finite-state transducers.

A transducer denotes a (partial) function on strings of any length; composition, restriction to a
regular language, images, preimages, equality of functions and inclusion of languages are all decided
exactly, so an obligation stated with them holds for every string or comes with a witness."""
from collections import deque


# ------------------------------------------------------------------ languages
class DFA:
    """complete deterministic automaton; delta[state][symbol]"""

    def __init__(self, sigma, delta, init, final):
        self.sigma, self.delta, self.init, self.final = tuple(sigma), delta, init, set(final)

    def accepts(self, w):
        s = self.init
        for c in w:
            s = self.delta[s][c]
        return s in self.final

    def complement(self):
        return DFA(self.sigma, self.delta, self.init, set(range(len(self.delta))) - self.final)

    def meet(self, o):
        return product(self, o, lambda a, b: a and b)

    def join(self, o):
        return product(self, o, lambda a, b: a or b)

    def witness(self):
        """a shortest word, or None"""
        seen = {self.init: ""}
        todo = deque([self.init])
        while todo:
            s = todo.popleft()
            if s in self.final:
                return seen[s]
            for c in self.sigma:
                t = self.delta[s][c]
                if t not in seen:
                    seen[t] = seen[s] + c
                    todo.append(t)
        return None

    def minimal(self):
        reach, todo = {self.init: 0}, deque([self.init])
        order = [self.init]
        while todo:
            s = todo.popleft()
            for c in self.sigma:
                t = self.delta[s][c]
                if t not in reach:
                    reach[t] = len(order)
                    order.append(t)
                    todo.append(t)
        block = {s: int(s in self.final) for s in order}
        n = len(set(block.values()))
        while True:
            sig = {s: (block[s],) + tuple(block[self.delta[s][c]] for c in self.sigma) for s in order}
            ids = {}
            for s in order:
                ids.setdefault(sig[s], len(ids))
            block = {s: ids[sig[s]] for s in order}
            if len(ids) == n:
                break
            n = len(ids)
        delta = [None] * n
        for s in order:
            delta[block[s]] = {c: block[self.delta[s][c]] for c in self.sigma}
        return DFA(self.sigma, delta, block[self.init], {block[s] for s in order if s in self.final})


def product(a, b, f):
    ids, delta, todo = {(a.init, b.init): 0}, [], deque([(a.init, b.init)])
    pairs = [(a.init, b.init)]
    while todo:
        p, q = todo.popleft()
        row = {}
        for c in a.sigma:
            t = (a.delta[p][c], b.delta[q][c])
            if t not in ids:
                ids[t] = len(pairs)
                pairs.append(t)
                todo.append(t)
            row[c] = ids[t]
        delta.append(row)
    return DFA(a.sigma, delta, 0, {i for i, (p, q) in enumerate(pairs) if f(p in a.final, q in b.final)}).minimal()


def determinize(sigma, starts, step, final, limit=20000):
    """step(state) -> [(symbol or "", state)]"""
    def close(ss):
        ss, todo = set(ss), list(ss)
        while todo:
            for c, t in step(todo.pop()):
                if c == "" and t not in ss:
                    ss.add(t)
                    todo.append(t)
        return frozenset(ss)
    s0 = close(starts)
    ids, order, delta = {s0: 0}, [s0], []
    i = 0
    while i < len(order):
        row, by = {}, {}
        for s in order[i]:
            for c, t in step(s):
                if c:
                    by.setdefault(c, set()).add(t)
        for c in sigma:
            t = close(by.get(c, ()))
            if t not in ids:
                if len(order) > limit:
                    raise OverflowError("automaton too large")
                ids[t] = len(order)
                order.append(t)
            row[c] = ids[t]
        delta.append(row)
        i += 1
    return DFA(sigma, delta, 0, {i for i, ss in enumerate(order) if any(final(s) for s in ss)}).minimal()


def everything(sigma):
    return DFA(sigma, [{c: 0 for c in sigma}], 0, {0})


def having(sigma, w, where):
    """strings that contain / start with / end with / are the word w"""
    n = len(w)

    def step(s):
        if s == "any":
            return [(c, "any") for c in sigma] + [("", 0)]
        out = []
        if s < n:
            out.append((w[s], s + 1))
        elif where in ("in", "start"):
            out += [(c, n) for c in sigma]
        return out
    return determinize(sigma, ["any"] if where in ("in", "end") else [0], step, lambda s: s == n)


# ------------------------------------------------------------------ functions
class FST:
    """init: [(state, out)], trans[state]: [(symbol, out, state)], final: {state: out}"""

    def __init__(self, sigma, init, trans, final):
        self.sigma, self.init, self.trans, self.final = tuple(sigma), list(init), trans, dict(final)

    def run(self, state, w):
        cur = [(state, "")]
        for c in w:
            cur = [(t, o + u) for s, o in cur for a, u, t in self.trans[s] if a == c]
        return cur

    def __call__(self, w):
        res = {o0 + o + self.final[s] for s0, o0 in self.init for s, o in self.run(s0, w) if s in self.final}
        if len(res) > 1:
            raise ValueError("not a function")
        return res.pop() if res else None

    def trim(self):
        fwd, todo = {s for s, _ in self.init}, [s for s, _ in self.init]
        while todo:
            for _, _, t in self.trans[todo.pop()]:
                if t not in fwd:
                    fwd.add(t)
                    todo.append(t)
        back = {}
        for s in fwd:
            for _, _, t in self.trans[s]:
                back.setdefault(t, set()).add(s)
        ok = {s for s in self.final if s in fwd}
        todo = list(ok)
        while todo:
            for p in back.get(todo.pop(), ()):
                if p not in ok:
                    ok.add(p)
                    todo.append(p)
        # merge states with the same behaviour
        block = {s: self.final.get(s) for s in ok}
        n = len(set(block.values()))
        while True:
            sig = {s: (block[s], frozenset((a, u, block[t]) for a, u, t in self.trans[s] if t in ok)) for s in ok}
            ids = {}
            for s in sorted(ok):
                ids.setdefault(sig[s], len(ids))
            block = {s: ids[sig[s]] for s in ok}
            if len(ids) == n:
                break
            n = len(ids)
        trans, final = [[] for _ in range(n)], {}
        for s in ok:
            trans[block[s]] = sorted({(a, u, block[t]) for a, u, t in self.trans[s] if t in ok})
            if s in self.final:
                final[block[s]] = self.final[s]
        return FST(self.sigma, sorted({(block[s], o) for s, o in self.init if s in ok}), trans, final)

    def then(self, g):
        """g after this"""
        ids, order, trans, final = {}, [], [], {}

        def ident(x):
            if x not in ids:
                ids[x] = len(order)
                order.append(x)
            return ids[x]
        init = []
        for p, w in self.init:
            for q, v in g.init:
                init += [(ident((p, q2)), v + u) for q2, u in g.run(q, w)]
        i = 0
        while i < len(order):
            p, q = order[i]
            trans.append([(a, u, ident((p2, q2))) for a, w, p2 in self.trans[p] for q2, u in g.run(q, w)])
            if p in self.final:
                for q2, u in g.run(q, self.final[p]):
                    if q2 in g.final:
                        final[i] = u + g.final[q2]
            i += 1
            if i > 40000:
                raise OverflowError("transducer too large")
        return FST(self.sigma, init, trans, final).trim()

    def only(self, d):
        """restricted to the inputs of a language"""
        return identity(self.sigma).within(d).then(self) if self.sigma == d.sigma else None

    def within(self, d):
        """restricted to the outputs of a language"""
        n = len(d.delta)
        return self.then(FST(d.sigma, [(d.init, "")], [[(c, c, d.delta[s][c]) for c in d.sigma] for s in range(n)], {s: "" for s in d.final}))

    def domain(self):
        return determinize(self.sigma, [s for s, _ in self.init], lambda s: [(a, t) for a, _, t in self.trans[s]], lambda s: s in self.final)

    def preimage(self, d):
        return self.within(d).domain()

    def image(self, sigma):
        END = ("end",)

        def step(s):
            if s == END:
                return []
            if s[0] == "w":                    # emitting w, then on to t
                _, w, t = s
                return [(w[0], ("w", w[1:], t))] if w else [("", t)]
            out = [("", ("w", u, ("s", t))) for _, u, t in self.trans[s[1]]]
            if s[1] in self.final:
                out.append(("", ("w", self.final[s[1]], END)))
            return out
        return determinize(sigma, [("w", o, ("s", s)) for s, o in self.init], step, lambda s: s == END)


def identity(sigma):
    return FST(sigma, [(0, "")], [[(c, c, 0) for c in sigma]], {0: ""})


def replace(sigma, old, new):
    """str.replace with a constant, non-empty pattern"""
    n = len(old)
    trans = []
    for k in range(n):
        row = []
        for c in sigma:
            e = old[:k] + c
            if e == old:
                row.append((c, new, 0))
                continue
            j = next(j for j in range(min(len(e), n), -1, -1) if e.endswith(old[:j]))
            row.append((c, e[:len(e) - j], j))
        trans.append(row)
    return FST(sigma, [(0, "")], trans, {k: old[:k] for k in range(n)})


def chunks(sigma, x, m, k, new):
    """greedy replacement of x{m,k}"""
    trans, final = [], {}
    for j in range(k):
        held = x * j if j < m else new
        trans.append([(c, new if j + 1 == k else "", (j + 1) % k) if c == x else (c, held + c, 0) for c in sigma])
        final[j] = held
    return FST(sigma, [(0, "")], trans, final)


def squeeze(sigma, x, m, new):
    """every maximal run of at least m (m > 0) characters x replaced by new"""
    trans, final = [], {}
    for k in range(m + 1):
        held = x * k if k < m else new
        trans.append([(c, "", min(k + 1, m)) if c == x else (c, held + c, 0) for c in sigma])
        final[k] = held
    return FST(sigma, [(0, "")], trans, final)


def strip_end(sigma, chars):
    """without the longest suffix of these characters"""
    # 0: other character or start, 1: a character of the set that stays, 2: of the trailing run
    rows = [[], [], []]
    for c in sigma:
        if c in chars:
            rows[0] += [(c, c, 1), (c, "", 2)]
            rows[1] += [(c, c, 1)]
            rows[2] += [(c, "", 2)]
        else:
            rows[0] += [(c, c, 0)]
            rows[1] += [(c, c, 0)]
    return FST(sigma, [(0, "")], rows, {0: "", 2: ""})


def strip_start(sigma, chars):
    return FST(sigma, [(0, "")], [[(c, "", 0) if c in chars else (c, c, 1) for c in sigma], [(c, c, 1) for c in sigma]], {0: "", 1: ""})


def drop_start(sigma, k):
    return FST(sigma, [(0, "")], [[(c, "" if i < k else c, min(i + 1, k)) for c in sigma] for i in range(k + 1)], {i: "" for i in range(k + 1)})


def drop_end(sigma, k):
    """s[:-k]: held characters are emitted k later"""
    ids, order = {"": 0}, [""]
    trans = []
    i = 0
    while i < len(order):
        row = []
        for c in sigma:
            w = order[i] + c
            out = ""
            if len(w) > k:
                out, w = w[0], w[1:]
            if w not in ids:
                ids[w] = len(order)
                order.append(w)
            row.append((c, out, ids[w]))
        trans.append(row)
        i += 1
    return FST(sigma, [(0, "")], trans, {i: "" for i in range(len(order))})


def prepend(sigma, w):
    return FST(sigma, [(0, w)], [[(c, c, 0) for c in sigma]], {0: ""})


def append(sigma, w):
    return FST(sigma, [(0, "")], [[(c, c, 0) for c in sigma]], {0: w})


def constant(sigma, w):
    return FST(sigma, [(0, "")], [[(c, "", 0) for c in sigma]], {0: w})


def _residue(a, b):
    """(a', b') after the common prefix, None when they differ"""
    n = min(len(a), len(b))
    return (a[n:], b[n:]) if a[:n] == b[:n] else None


def differ(f, g):
    """an input on which two functions with the same domain differ, or None"""
    f, g = f.trim(), g.trim()
    # co-accessible pairs
    start = [((p, q), w, v) for p, w in f.init for q, v in g.init]
    succ, seen, todo = {}, set(), [s[0] for s in start]
    seen.update(todo)
    while todo:
        pq = todo.pop()
        out = []
        by = {}
        for a, v, q in g.trans[pq[1]]:
            by.setdefault(a, []).append((v, q))
        for a, w, p in f.trans[pq[0]]:
            for v, q in by.get(a, ()):
                out.append((a, w, v, (p, q)))
                if (p, q) not in seen:
                    seen.add((p, q))
                    todo.append((p, q))
        succ[pq] = out
    back = {}
    for s, out in succ.items():
        for _, _, _, t in out:
            back.setdefault(t, set()).add(s)
    live = {s for s in succ if s[0] in f.final and s[1] in g.final}
    todo = list(live)
    while todo:
        for p in back.get(todo.pop(), ()):
            if p not in live:
                live.add(p)
                todo.append(p)
    # a shortest way from every pair to acceptance
    tail = {s: "" for s in live if s[0] in f.final and s[1] in g.final}
    todo = deque(tail)
    rev = {}
    for s in live:
        for a, _, _, t in succ[s]:
            if t in live:
                rev.setdefault(t, []).append((a, s))
    while todo:
        t = todo.popleft()
        for a, s in rev.get(t, ()):
            if s not in tail:
                tail[s] = a + tail[t]
                todo.append(s)

    def check(w):
        return w if f(w) != g(w) else None
    delay = {}
    todo = deque()
    for s, w, v in start:
        if s in live:
            todo.append((s, w, v, ""))
    suspects = []
    while todo:
        s, w, v, path = todo.popleft()
        r = _residue(w, v)
        if r is None:
            suspects.append(path + tail[s])
            continue
        if s in delay:
            if delay[s][0] != r:
                suspects += [path + tail[s], delay[s][1] + tail[s]]
            continue
        delay[s] = (r, path)
        if s[0] in f.final and s[1] in g.final and r[0] + f.final[s[0]] != r[1] + g.final[s[1]]:
            suspects.append(path)
        for a, w2, v2, t in succ[s]:
            if t in live:
                todo.append((t, r[0] + w2, r[1] + v2, path + a))
    if not suspects:
        return None
    for w in sorted(set(suspects), key=lambda x: (len(x), x)):
        if check(w) is not None:
            return w
    raise ValueError("two functions differ, but no witness was found")


def shrinks(f):
    """every accepted input is longer than its output"""
    f = f.trim()
    # longest output surplus: no accepting run may have |out| - |in| >= 0
    n = len(f.trans)
    d = [None] * n
    for s, o in f.init:
        d[s] = max(d[s] if d[s] is not None else -10**9, len(o))
    for _ in range(n + 1):
        ch = False
        for s in range(n):
            if d[s] is None:
                continue
            for _, u, t in f.trans[s]:
                x = d[s] + len(u) - 1
                if d[t] is None or x > d[t]:
                    d[t] = x
                    ch = True
        if not ch:
            break
    else:
        return False
    return all(d[s] is None or d[s] + len(o) < 0 for s, o in f.final.items())
