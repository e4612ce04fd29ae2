"""Helper (run by hand): make a planted bug from a textual change and a demo, and test it.
mkseed.py SPEC.py [ids...]  -- SPEC defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python text)]"""
import importlib.util, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("seeds", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
want = sys.argv[2:]
base = json.load(open("/opt/vp/BASELINE.json"))
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for s in m.SEEDS:
    if want and s["id"] not in want:
        continue
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain --untracked-files=no").stdout == ""
    try:
        for f, old, new in s["edits"]:
            p = os.path.join("/repo", f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip())
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/sh\nD=$(mktemp -d)\ntrap \'rm -r "$D"\' EXIT\nTMPDIR="$D" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py" "$D"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/seedout.json")
        bad = sh("sh %s/demo.sh" % d, cwd="/repo")
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    good = sh("sh %s/demo.sh" % d, cwd="/repo")
    print("%-28s build %d  tests %s  demo bad %d good %d %s" % (s["id"], b.returncode, t.stdout.strip().split("\n")[-1], bad.returncode, good.returncode, "" if good.returncode == 0 else good.stderr[-300:]))
