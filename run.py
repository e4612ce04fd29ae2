#!/opt/veriftools/pyvenv/bin/python
"""Check of one property: discharge its proof obligations on /repo's current source and search for
failing inputs on the real code.  usage: run.py C05 [--tier quick|thorough] | run.py replay FILE"""
import argparse
import importlib
import json
import multiprocessing
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ the real code, built in a scratch directory
def build_scratch(asan=False, fault=False):
    """copy of /repo's package with freshly compiled extensions; removed by the caller"""
    d = tempfile.mkdtemp(prefix="verif_")
    os.chmod(d, 0o755)
    shutil.copytree(os.path.join(REPO, "clevercsv"), os.path.join(d, "clevercsv"),
                    ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    inc = subprocess.run([VENV, "-c", "import sysconfig; print(sysconfig.get_paths()['include']); print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                         capture_output=True, text=True).stdout.split("\n")
    errs = []
    flags = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-omit-frame-pointer", "-fno-sanitize-recover=undefined"] if asan else ["-O2"]
    if fault:
        flags = flags + ["-include", os.path.join(HERE, "search", "fault.h")]
    for src, mod in (("cparser.c", "cparser"), ("abstraction.c", "cabstraction")):
        out = os.path.join(d, "clevercsv", mod + inc[1])
        r = subprocess.run(["gcc", "-shared", "-fPIC", "-w"] + flags + ["-I", inc[0], os.path.join(REPO, "src", src), "-o", out],
                           capture_output=True, text=True)
        if r.returncode:
            errs.append(r.stderr[-2000:])
    os.makedirs(os.path.join(d, "work"))
    os.chmod(os.path.join(d, "work"), 0o777)
    return d, errs


def start_search(pid, scratch, seed, budget, deep, extra=None, asan=False, replay=None):
    out = os.path.join(scratch, "work", "result_%d.json" % time.monotonic_ns())
    env = {"PATH": "/usr/bin:/bin", "HOME": os.path.join(scratch, "work"), "TMPDIR": os.path.join(scratch, "work"),
           "PYTHONPATH": scratch, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "LC_ALL": "C.UTF-8", "VERIF_REPO": REPO}
    if asan:
        lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
        env["LD_PRELOAD"] = lib
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77"
        env["PYTHONMALLOC"] = "malloc"
    cmd = [VENV, "-X", "faulthandler", os.path.join(HERE, "search", "main.py"), pid, scratch, str(seed), str(budget), "deep" if deep else "quick", out]
    if replay:
        cmd.append(replay)
    err = open(out + ".err", "w")
    p = subprocess.Popen(cmd, env=env, cwd=os.path.join(scratch, "work"), stdout=err, stderr=err, start_new_session=True)
    p.out, p.errfile, p.limit = out, out + ".err", time.time() + budget * 2 + 60
    return p


def finish_search(p):
    try:
        p.wait(max(1, p.limit - time.time()))
    except subprocess.TimeoutExpired:
        pass
    hang = p.poll() is None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    try:
        with open(p.out) as fh:
            r = json.load(fh)
    except (OSError, ValueError):
        r = {"evaluations": 0, "distinct": 0, "samples": [], "failures": [], "rule": ""}
    with open(p.errfile, errors="replace") as fh:
        r["stderr"] = fh.read()[-3000:]
    r["rc"], r["hang"] = p.returncode, hang
    last = p.out + ".last"
    if not r.get("finished") and os.path.exists(last):
        with open(last) as fh:
            r["last"] = fh.read()
    return r


# ------------------------------------------------------------------ proofs
def _prove_one(job):
    pid, i, tier, q = job
    import engine.contracts as C
    mod = importlib.import_module("specs." + pid.lower())
    con = mod.CONTRACTS[i]
    dump = tier == "thorough"
    try:
        if hasattr(con, "verify"):
            r = con.verify(dump=dump)
        else:
            r = C.verify(con, mod.ASSUMED, dump=dump)
        d = {k: getattr(r, k) for k in ("label", "obligations", "paths", "complete", "restarts", "solver_s", "queries", "wall", "unsupported",
                                        "error", "inlined", "used", "vacuous")}
        d["backend"] = getattr(r, "backend", "z3")
        d["bounded"] = getattr(con, "bounded", None)
        d["trace"] = getattr(r, "trace", "")
        d["dumps"] = r.dumps if dump else []
        d["counterexample"] = getattr(r, "counterexample", None)
    except BaseException as e:
        d = {"label": con.label or con.key, "obligations": [], "paths": 0, "complete": 0, "restarts": 0, "solver_s": 0, "queries": 0, "wall": 0,
             "unsupported": None, "error": "%s: %s" % (type(e).__name__, e), "inlined": [], "used": [], "vacuous": None, "dumps": [], "bounded": None}
    q.put((i, d))


def prove_all(pid, tier, limit):
    mod = importlib.import_module("specs." + pid.lower())
    ctx = multiprocessing.get_context("fork")
    n = len(mod.CONTRACTS)
    q = ctx.Queue()
    pending = list(range(n))
    running, results = {}, {}
    t0 = time.time()
    import queue as Q
    width = 7
    while pending or running:
        while pending and len(running) < width:
            i = pending.pop(0)
            p = ctx.Process(target=_prove_one, args=((pid, i, tier, q),))
            p.start()
            running[i] = p
        try:
            i, d = q.get(timeout=0.2)
            results[i] = d
        except Q.Empty:
            pass
        for i, p in list(running.items()):
            if i in results:
                p.join()
                del running[i]
            elif not p.is_alive():
                try:
                    while True:
                        k, d = q.get(timeout=0.5)
                        results[k] = d
                except Q.Empty:
                    pass
                if i not in results:
                    results[i] = None
                del running[i]
        if time.time() - t0 > limit:
            for p in running.values():
                p.kill()
            for i in list(running) + pending:
                results.setdefault(i, None)
            break
    out = []
    for i in range(n):
        d = results.get(i)
        if d is None:
            c = mod.CONTRACTS[i]
            d = {"label": c.label or c.key, "obligations": [], "paths": 0, "complete": 0, "restarts": 0, "solver_s": 0, "queries": 0, "wall": 0,
                 "unsupported": "time or memory budget used up", "error": None, "inlined": [], "used": [], "vacuous": None, "dumps": [], "bounded": None}
        out.append(d)
    return mod, out


def cross_check(results, limit=240):
    """second opinion of cvc5 on the discharged obligations (thorough tier)"""
    t0 = time.time()
    n = agree = disagree = unknown = 0
    for d in results:
        for smt2 in d.pop("dumps", []):
            if time.time() - t0 > limit:
                return {"asked": n, "cvc5_unsat": agree, "cvc5_sat": disagree, "cvc5_unknown": unknown}
            n += 1
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
                fh.write("(set-logic ALL)\n" + smt2)
            try:
                r = subprocess.run(["cvc5", "--tlimit=4000", fh.name], capture_output=True, text=True, timeout=20)
                a = r.stdout.strip().split("\n")[0]
            except subprocess.TimeoutExpired:
                a = "unknown"
            os.unlink(fh.name)
            agree += a == "unsat"
            disagree += a == "sat"
            unknown += a not in ("sat", "unsat")
    return {"asked": n, "cvc5_unsat": agree, "cvc5_sat": disagree, "cvc5_unknown": unknown}


# ------------------------------------------------------------------ main
def known(pid):
    try:
        with open(os.path.join(HERE, "known_findings.json")) as fh:
            return [k for k in json.load(fh)["findings"] if k["property"] == pid and k["status"] == "known"]
    except OSError:
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("file", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-search", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    if a.property == "replay":
        return replay(a.file)
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    with open(os.path.join(HERE, "search", "config.json")) as fh:
        cfg = json.load(fh).get(pid, {})
    budget = cfg.get("quick", 25) if tier == "quick" else cfg.get("thorough", 300)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    scratches = []
    searches = []
    errs = []
    try:
        if not a.no_search:
            sc, errs = build_scratch(fault=bool(cfg.get("fault")))
            scratches.append(sc)
            searches.append((start_search(pid, sc, seed, budget, tier != "quick"), sc, False))
            if cfg.get("asan"):
                sa, e2 = build_scratch(asan=True, fault=bool(cfg.get("fault")))
                scratches.append(sa)
                searches.append((start_search(pid, sa, seed + 7, budget, tier != "quick", asan=True), sa, True))
        results, mod = [], None
        if not a.no_proof and os.path.exists(os.path.join(HERE, "specs", pid.lower() + ".py")):
            mod, results = prove_all(pid, tier, cfg.get("prove_limit", 420) if tier == "quick" else 1500)
        sres = [finish_search(p) for p, _, _ in searches]
        failed = []
        for d in results:
            for o in d["obligations"]:
                if o[1] != "proved":
                    failed.append((d["label"], o))
            if d["vacuous"]:
                failed.append((d["label"], ("reachability: " + d["vacuous"], "failed", 0, d["vacuous"], "")))
        failures = [f for r in sres for f in r["failures"]]
        for r, (p, sc, asan) in zip(sres, searches):
            crash = crash_of(r, asan)
            if crash:
                failures.append(crash)
        for d in results:
            # the verifier's counterexample, replayed against the real code
            if failed and not failures and not a.no_search and d.get("counterexample") is not None:
                path = os.path.join(scratches[0], "work", "counterexample.json")
                with open(path, "w") as fh:
                    json.dump({"input": d["counterexample"]}, fh)
                r = finish_search(start_search(pid, scratches[0], seed, 30, False, replay=path))
                failures += r["failures"]
        if failed and not failures and not a.no_search:
            sc = scratches[0]
            p = start_search(pid, sc, seed + 1000, cfg.get("deepen", 45), True)
            r = finish_search(p)
            sres.append(r)
            failures += r["failures"]
            c = crash_of(r, False)
            if c:
                failures.append(c)
        return report(pid, tier, seed, t0, cfg, mod, results, sres, failed, failures, errs)
    finally:
        for p, _, _ in searches:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        for s in scratches:
            shutil.rmtree(s, ignore_errors=True)


def crash_of(r, asan):
    """the process running the real code died: a crash of the code under test"""
    if r.get("finished"):
        return None
    txt = r["stderr"]
    if r["rc"] in (-11, -6, -8, -7, 77) or "AddressSanitizer" in txt or "runtime error:" in txt:
        return {"input": r.get("last", "?"), "expected": "no crash", "got": "the process died (code %s): %s" % (r["rc"], txt[-1500:]), "finding": "crash"}
    if r["hang"]:
        return {"input": r.get("last", "?"), "expected": "termination", "got": "no answer within the time limit", "finding": "hang"} if r.get("last") else None
    return None


def report(pid, tier, seed, t0, cfg, mod, results, sres, failed, failures, errs):
    lines, viol = [], 0
    kn = known(pid)
    real = []
    for f in failures:
        hit = next((k for k in kn if k.get("match") == f.get("finding")), None)
        if hit:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, hit["what"]))
        else:
            real.append(f)
    for k in kn:
        s = "KNOWN-FINDING: property=%s %s" % (pid, k["what"])
        if s not in lines:
            lines.append(s)
    undecided = [d for d in results if d["unsupported"] or d["error"]]
    obl = sum(len(d["obligations"]) for d in results if not d["bounded"])
    dis = sum(1 for d in results if not d["bounded"] for o in d["obligations"] if o[1] == "proved")
    evals = sum(r.get("evaluations", 0) for r in sres)
    dist = sum(r.get("distinct", 0) for r in sres)
    samples = [x for r in sres for x in r.get("samples", [])][:5]
    cov = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": "/opt/veriftools/pyvenv/bin/python run.py %s --tier %s" % (pid, tier),
        "trusted_base": list(getattr(mod, "TRUSTED", [])) + ["engine/*.py (the verifier: translation of the source, axioms of engine/smt.py)", "z3"],
        "functions_under_contract": [
            {"function": d["label"], "obligations": len(d["obligations"]), "discharged": sum(o[1] == "proved" for o in d["obligations"]),
             "paths": d["paths"], "back_end": d.get("backend", "z3"), "solver_queries": d["queries"], "solver_s": round(d["solver_s"], 2), "wall_s": round(d["wall"], 2),
             "verified_inline": d["inlined"], "contracts_used": d["used"],
             "bounded": d["bounded"], "undecided": d["unsupported"] or d["error"]} for d in results],
        "obligation_labels": sorted({"%s: %s" % (d["label"], o[0]) for d in results for o in d["obligations"]}),
        "solver_s": round(sum(d["solver_s"] for d in results), 2),
        "evaluations": evals, "distinct_nontrivial": dist,
        "rule": "; ".join(sorted({r.get("rule", "") for r in sres if r.get("rule")})), "samples": samples,
        "bounded_conformance_search": "the same property checked on the real code on generated inputs; bounded, not counted as proof",
        "exhausted_families": sorted({x for r in sres for x in r.get("families", [])}),
    }
    if tier == "thorough":
        cov["cvc5_cross_check"] = cross_check(results)
    if undecided:
        cov["undecided_functions"] = [{"function": d["label"], "reason": d["unsupported"] or d["error"]} for d in undecided]
        for d in undecided:
            log("note: %s is outside the verifier's reach on this tree (%s); only the bounded search covers it" % (d["label"], (d["unsupported"] or d["error"])[:200]))
    for r in sres:
        if not r.get("finished") and not failures:
            log("note: the search ended early (rc %s): %s" % (r["rc"], r["stderr"][-600:]))
    if errs:
        log("note: the extensions did not compile: " + errs[0][-500:])
    ev = os.path.join(HERE, "evidence")
    status = 0
    if real:
        f = real[0]
        path = os.path.join(ev, "replay-%s.json" % pid)
        with open(path, "w") as fh:
            json.dump({"property": pid, "kind": "input", "input": f["input"], "expected": f.get("expected"), "got": f.get("got"), "finding": f.get("finding"),
                       "failed_obligations": [{"function": l, "obligation": o[0], "verifier": o[3]} for l, o in failed],
                       "replay_cmd": "/opt/veriftools/pyvenv/bin/python run.py replay " + path}, fh, indent=1, default=str)
        log("failing input: %s\n  expected: %s\n  got: %s" % (str(f["input"])[:600], str(f.get("expected"))[:600], str(f.get("got"))[:600]))
        for l, o in failed[:5]:
            log("failed obligation: %s: %s" % (l, o[0]))
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        status, viol = 1, len(real)
    elif failed:
        path = os.path.join(ev, "replay-%s.json" % pid)
        with open(path, "w") as fh:
            json.dump({"property": pid, "kind": "obligation", "failed_obligations":
                       [{"function": l, "obligation": o[0], "where": o[4], "verifier": o[3]} for l, o in failed]}, fh, indent=1)
        for l, o in failed[:8]:
            log("failed obligation: %s: %s [%s]" % (l, o[0], o[3][:300]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        status, viol = 1, len(failed)
    with open(os.path.join(ev, pid + ".json"), "w") as fh:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "proof"), "coverage": cov,
                   "assumptions": list(getattr(mod, "TRUSTED", [])) + list(getattr(mod, "ASSUMPTIONS", [])),
                   "wall_s": round(time.time() - t0, 2), "violations": viol}, fh, indent=1, default=str)
    log("%s: %d of %d obligations discharged over %d functions (%d outside the verifier's reach), %d inputs run on the real code, %.1f s" % (
        pid, dis, obl, len(results), len(undecided), evals, time.time() - t0))
    for l in lines:
        log(l)
    return status


def replay(path):
    with open(path) as fh:
        d = json.load(fh)
    if d["kind"] != "input":
        log("no failing input; failed obligations:")
        for o in d["failed_obligations"]:
            log("  %(function)s: %(obligation)s\n     %(verifier)s" % o)
        return main_for(d["property"])
    sc, _ = build_scratch()
    try:
        p = start_search(d["property"], sc, 1, 60, False, replay=os.path.abspath(path))
        r = finish_search(p)
        for f in r["failures"]:
            log("still fails: expected %s, got %s" % (f.get("expected"), f.get("got")))
        if r["failures"]:
            log("VIOLATION property=%s replay=%s" % (d["property"], path))
            return 1
        log("the input no longer fails")
        return 0
    finally:
        shutil.rmtree(sc, ignore_errors=True)


def main_for(pid):
    sys.argv = [sys.argv[0], pid]
    return main()


if __name__ == "__main__":
    sys.exit(main())
