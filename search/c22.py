"""C22 search: the same detection under other hash seeds, histories, cache sizes and orders."""
import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import cli

RULE = "samples with ties, detected in processes with different hash seeds, after other detections, with other cache sizes and delimiter orders; non-trivial: several candidates tie"
HERE = os.path.dirname(os.path.abspath(__file__))
TIES = ["a'b'c\n", "it's,a\nhe's,b\n", "a,b c,d\ne,f g,h\n", "1-2-3,4\n5-6-7,8\n", "'a',\"b\"\n'c',\"d\"\n", "~a~`b`'c'\n", "x\ny\nz z\n", "a b,c d\n", "\"a\\\"b\",c\n\"d\\\"e\",f\n", "a;b,c\nd;e,f\n", "a^b~c\nd^e~f\n",
        "`~'\"\n", "a\\'b,c\n", "a@,b\nc@,d\n", "1 2,3 4;5 6\n7 8,9 0;1 2\n", "it's\\, x\n", "q~w~e`r`t\n" * 3, "--,--\n", "a|b-c\nd|e-f\n", "'", "\"", "''", "a'\n'b", "%a%b\n%c%d\n", "x§,y\nz§,w\n", "\\\\,\\'\n"]


def worker():
    """child: detections asked for on standard input"""
    from clevercsv.consistency import ConsistencyDetector
    from clevercsv.detect import Detector
    from clevercsv.potential_dialects import get_dialects
    old = {}
    pristine = "pristine" in sys.argv
    for line in iter(sys.stdin.readline, ""):
        if pristine:            # every job in a process that has detected nothing before
            pid = os.fork()
            if pid:
                os.waitpid(pid, 0)
                continue
        job = json.loads(line)
        text, how, ds = job["text"], job["how"], job["delims"]
        if how.get("set") and ds is not None:
            ds = frozenset(ds) if how["set"] == "frozenset" else set(ds)
        try:
            if how["det"] == "normal":
                from clevercsv.normal_form import detect_dialect_normal
                r = detect_dialect_normal(text, delimiters=ds)
            elif how["det"] == "auto":
                k = ("auto",)
                o = old.setdefault(k, Detector()) if how["old"] else Detector()
                r = o.detect(text, delimiters=ds)
            else:
                k = (how["det"], how["cap"])
                o = old.setdefault(k, ConsistencyDetector(cache_capacity=how["cap"])) if how["old"] else ConsistencyDetector(cache_capacity=how["cap"])
                r = o.detect(text, delimiters=ds)
            out = None if r is None else [r.delimiter, r.quotechar, r.escapechar, bool(r.strict)]
        except Exception as x:
            out = ["raised", type(x).__name__]
        print(json.dumps(out), flush=True)
        if pristine:
            os._exit(0)


class Pool:
    def __init__(self, n):
        self.kids = []
        for i in range(n):
            env = dict(os.environ, PYTHONHASHSEED=str([0, 1, 2, 3, 77, 12345][i % 6]))
            self.kids.append(subprocess.Popen([sys.executable, __file__] + (["pristine"] if i % 3 == 2 else []), stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True))

    def ask(self, jobs):
        """one job per child, in parallel"""
        for k, j in zip(self.kids, jobs):
            k.stdin.write(json.dumps(j) + "\n")
            k.stdin.flush()
        return [json.loads(k.stdout.readline()) for k, _ in zip(self.kids, jobs)]

    def close(self):
        for k in self.kids:
            k.stdin.close()
            k.wait()


POOL = []


def pool():
    if not POOL:
        POOL.append(Pool(6))
    return POOL[0]


def one(s, text, delims, hows, warm=()):
    inp = {"text": text, "delims": delims, "hows": hows, "warm": list(warm)}
    s.begin(inp)
    P = pool()
    for w in warm:
        for how in hows:
            P.ask([{"text": w, "how": dict(h, old=True), "delims": None} for h in hows])
            break
    jobs = []
    for i, h in enumerate(hows):
        ds = delims
        if ds is not None and i % 2:
            ds = ds[::-1] if h["det"] != "auto" else ds
        jobs.append({"text": text, "how": h, "delims": ds})
    got = P.ask(jobs)
    ref = got[0]
    for h, g in zip(hows, got):
        if g != ref:
            s.fail(inp, "%r (as with %r)" % (ref, hows[0]), "%r with %r" % (g, h))
            break
    s.count((text, delims), ref is None or True)


def sets(det):
    return [{"det": det, "cap": 100000, "old": o, "set": k} for k, o in (("set", False), ("frozenset", False), ("set", True), ("frozenset", True), ("set", False), ("set", True))]


def hows(rng, det):
    return [{"det": det, "cap": c, "old": o} for c, o in ((100000, False), (0, False), (1, True), (None, True), (2, False), (100000, True))]


def run(s):
    s.rule = RULE
    rng = s.rng
    try:
        for t in TIES:
            for det in ("cons", "auto"):
                one(s, t, None, hows(rng, det))
                one(s, t, None, hows(rng, det), TIES[:2])
            for ds in ([",", " ", "-"], ["~", "'", ";", ","], []):
                one(s, t, ds, hows(rng, "cons"))
        for t in ["-1 ", " -\n", "a;b,c\n1;2,3\n", "x|y z\n", "1\t2 3\n"] + TIES:
            for ds in ([",", " ", "-", ";", "|", "\t"], [" ", "-"]):
                for det in ("normal", "auto", "cons"):
                    one(s, t, ds, sets(det))
        s.families.append("%d samples with ties, 6 hash seeds, cache sizes 0, 1, 2, default and none, fresh and used detectors" % len(TIES))
        al = ["a", "1", " ", ",", ";", "-", "'", '"', "~", "`", "\\", "\n", "\n", "x", "2", "^", "/", "@"]
        while s.time_left():
            sub = rng.sample(al, rng.randint(3, 8)) + ["\n"]
            t = "".join(rng.choice(sub) for _ in range(rng.randint(1, 30))) if rng.random() < 0.8 else cli.messy(rng)
            if rng.random() < 0.15:
                one(s, t, rng.sample([",", ";", "-", " ", "|", "\t", "~"], rng.randint(2, 5)), sets(rng.choice(["normal", "auto"])))
                continue
            one(s, t, rng.choice([None, None, None, [",", ";", "-"], [" ", ",", "~"]]), hows(rng, rng.choice(["cons", "auto"])), [rng.choice(TIES)] if rng.random() < 0.2 else ())
    finally:
        if POOL:
            POOL.pop().close()


def replay(s, i):
    try:
        for _ in range(2):
            one(s, i["text"], i["delims"], i["hows"], i["warm"])
    finally:
        if POOL:
            POOL.pop().close()


if __name__ == "__main__":
    worker()
