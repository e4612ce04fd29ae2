"""Independent reference definitions used as oracles by the searches (written from the documentation)."""
import collections
import io
import re
import unicodedata
from engine.grammar import parse


def text_rows(text, d, q, e, strict=False, flags=True):
    """rows of (cell, quoted) of a text, or None on a parse error"""
    rows, err = parse(list(io.StringIO(text, newline="")), d, q, e, strict, None)
    if err:
        return None
    return rows if flags else [[c[0] for c in r] for r in rows]


# ------------------------------------------------------------------ candidate dialects
BLOCK_CAT = {"Lu", "Ll", "Lt", "Lm", "Lo", "Nd", "Nl", "No", "Ps", "Pe", "Co"}
BLOCK_CHAR = {".", "/", '"', "'", "\n", "\r"}
QUOTES = {"'", '"', "~", "`"}
NOT_ESCAPE = set("!?\"'.,;:%*&#")
URL = (r"((https?|ftp):\/\/(?!\-))?(((?:[\p{L}\p{N}-]+\.)+([a-z]{2,}|local)(\.[a-z]{2,3})?)|localhost(\:\d{1,5})?|"
       r"(\d{1,3}\.\d{1,3}\.\d{1,3}\.\d{1,3}(\:\d{1,5})?))(\/[\p{L}\p{N}_\/()~?=&%\-\#\.:]*)?(\.[a-z]+)?")
_url = []


def no_urls(data):
    import regex
    if not _url:
        _url.append(regex.compile(URL))
    return _url[0].sub("", data)


def is_escape(c):
    return unicodedata.category(c) == "Po" and c not in NOT_ESCAPE


def candidates(data, allowed=None):
    """the set of (delimiter, quotechar, escapechar)"""
    clean = set(no_urls(data))
    if allowed is None:
        ds = {c for c in clean if c == "\t" or (c not in BLOCK_CHAR and unicodedata.category(c) not in BLOCK_CAT)}
    else:
        ds = {c for c in clean if c in set(allowed)}
    ds = ds | {""}
    qs = (clean & QUOTES) | {""}
    before = collections.defaultdict(set)
    for a, b in zip(data, data[1:]):
        if is_escape(a):
            before[b].add(a)
    return {(d, q, e) for d in ds for q in qs for e in {""} | (before[d] if d else set()) | (before[q] if q else set())}


# ------------------------------------------------------------------ abstraction
def abstraction(text, d, q, e):
    out = []
    esc = False
    for c in text:
        if c in "\r\n":
            if not out or out[-1] != "R":
                out.append("R")
            continue
        if c in (d, q) and c:
            out.append("C" if esc else ("D" if c == d else "Q"))
            esc = False
        elif c == e and e:
            if esc:
                if not out or out[-1] != "C":
                    out.append("C")
                esc = False
            else:
                esc = True
        else:
            esc = False
            if not out or out[-1] != "C":
                out.append("C")
    # quoted blocks: a quote up to the next quote that is not doubled
    i, n = 0, len(out)
    while i < n:
        if out[i] != "Q":
            i += 1
            continue
        j = i + 1
        close = None
        while j < n:
            if out[j] == "Q":
                if j + 1 < n and out[j + 1] == "Q":
                    j += 2
                    continue
                close = j
                break
            j += 1
        if close is None:
            break
        for k in range(i, close + 1):
            out[k] = "C"
        i = close + 1
    A = "".join(out)
    # every delimiter and every row has its cells
    B = []
    for i, c in enumerate(A):
        prev = A[i - 1] if i else None
        if c == "D" and prev in ("D", "R", None) or c == "R" and prev == "D":
            B.append("C")
        B.append(c)
    if A.endswith("D"):
        B.append("C")
    A = re.sub("C+", "C", "".join(B))
    return A.rstrip("R")


def well_formed(A):
    """None or what is wrong"""
    if not re.fullmatch("[CDRQ]*", A):
        return "other markers"
    if "CC" in A:
        return "adjacent cell markers"
    if A.endswith("R"):
        return "trailing row marker"
    if re.search(r"D(D|R|$)|(^|R)D", A):
        return "a delimiter without its cell"
    if "RR" in A:
        return "adjacent row markers"
    if "Q" in A and not re.fullmatch("[CDR]*Q([CDR]|QQ)*", A):
        return "a quote marker although the quote is closed"
    return None


def pattern_score(A, eps=1e-3):
    pats = collections.Counter(A.split("R"))
    P = 0.0
    for k, n in pats.items():
        L = k.count("D") + 1
        P += n * (max(eps, L - 1) / L)
    return P / len(pats)


def type_score(text, d, q, e, eps=1e-10):
    from clevercsv.detect_type import TypeDetector
    rows = text_rows(text, d, q, e)
    if rows is None:
        return None
    td = TypeDetector()
    total = known = 0
    for r in rows:
        for c, quoted in r:
            total += 1
            known += td.detect_type(c, is_quoted=quoted) is not None
    return max(eps, known / total) if total else eps


def order(x):
    """documented order of dialects: comma first, semicolon next, then by components"""
    return (0 if x[0] == "," else 1 if x[0] == ";" else 2,) + tuple(x)


def sample(rng, kind=None):
    """a text for dialect detection"""
    kind = kind if kind is not None else rng.randint(0, 9)
    if kind <= 2:          # noise over special characters
        al = rng.choice([",;\t|\"'ab1 \n\n\\", ",\"\\a1\n", ";'/a\n ", ",: -a1\n", "|~`x\n!@", "a,\"\n\r", ",;ab\n\u060c\u066b", "-, 1\n", "'\\,\n x"])
        return "".join(rng.choice(al) for _ in range(rng.randint(0, 40)))
    d = rng.choice([",", ";", "\t", "|", " ", ":", "-", "^", "é", "*", "\u2022"])
    q = rng.choice(['"', "'", "", "~", "`"])
    e = rng.choice(["", "", "\\", "@", "/"])
    cells = ["1", "2.5", "abc", "a b", "", "2020-01-02", "12:30", "x@y.zz", "http://a.bc/d,e", "1,5", "-3", "it" + q + "s", "a" + d + "b", "$5", "n/a", "50%", "10.0.0.1", "é", "{}", "/usr/bin", "a" + e + d + "b"]
    rows = []
    w = rng.randint(1, 5)
    for _ in range(rng.randint(1, 7)):
        r = []
        for _ in range(w if rng.random() < 0.85 else rng.randint(1, 6)):
            c = rng.choice(cells)
            m = rng.random()
            if q and m < 0.4:
                c = q + (c.replace(q, q + q) if rng.random() < 0.7 else c.replace(q, e + q)) + q
            elif e and m < 0.6:
                c = c.replace(d, e + d).replace(q, e + q) if q else c.replace(d, e + d)
            r.append(c)
        rows.append(d.join(r))
    nl = rng.choice(["\n", "\n", "\r\n", "\r"])
    return nl.join(rows) + rng.choice(["", nl])


# ------------------------------------------------------------------ ties
def tie(text, ds):
    """reference tie breaking over tuples (d, q, e) in the given order; None when it cannot be broken"""
    P = {x: text_rows(text, *x, flags=False) for x in ds}

    def two(A, B):
        same = [A[i] == B[i] for i in range(3)]
        if same[0] and same[2]:
            if "" in (A[1], B[1]):
                no, yes = (A, B) if A[1] == "" else (B, A)
                return no if P[no] == P[yes] else yes
            return None
        if same[1] and same[2]:
            if {A[0], B[0]} == {",", " "}:
                return A if A[0] == "," else B
            if A[0] == "-":
                return B
            if B[0] == "-":
                return A
            return None
        if same[0] and same[1]:
            no, esc = (A, B) if A[2] == "" else (B, A)
            if [len(r) for r in P[no]] != [len(r) for r in P[esc]]:
                return None
            for rn, re_ in zip(P[no], P[esc]):
                for u, v in zip(rn, re_):
                    if u != v:
                        k = sum(1 for a, b in zip(u, u[1:]) if a == esc[2] and b == esc[1])
                        return esc if k > 0 and k % 2 == 0 else no
            return None
        if same[0]:
            if ("", "") in (A[1:], B[1:]):
                no, yes = (A, B) if A[1:] == ("", "") else (B, A)
                if [len(r) for r in P[no]] != [len(r) for r in P[yes]]:
                    return None
                for rn, ry in zip(P[no], P[yes]):
                    for u, v in zip(rn, ry):
                        if u != v and yes[2] + yes[1] not in u:
                            return None
                return yes
        return None

    def reduce(ds):
        if len({x[0] for x in ds}) != 1:
            return None
        new, seen = set(), set()
        for a, b in zip(ds, ds[1:]):
            if P[a] == P[b]:
                r = two(a, b)
                if r is not None:
                    new.add(r)
                seen |= {a, b}
        return [x for x in ds if x in new or x not in seen]

    def three(A, B, C):
        if not A[0] == B[0] == C[0]:
            return None
        ds = [A, B, C]
        if A[2] == B[2] == C[2]:
            if len({len(P[x]) for x in ds}) > 1:
                return None
            no = next((x for x in ds if x[1] == ""), None)
            if no is None:
                return None
            rem = [x for x in ds if P[x] != P[no]]
            if len(rem) <= 1:
                new = reduce(ds)
                return new[0] if new is not None and len(new) == 1 else None
            return None
        wq = [x for x in ds if x[1] != ""]
        return two(*wq) if len(wq) == 2 else None
    n = len(ds)
    if n == 1:
        return ds[0]
    if n == 2:
        return two(*ds)
    if n == 3:
        return three(*ds)
    if n == 4:
        if len({x[0] for x in ds}) != 1:
            return None
        r = reduce(ds)
        if r is None:
            return None
        return {1: lambda: r[0], 2: lambda: two(*r), 3: lambda: three(*r)}.get(len(r), lambda: None)()
    return None
