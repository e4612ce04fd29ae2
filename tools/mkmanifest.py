"""Writes /verif/MANIFEST.json and the levels in search/config.json (run by hand)."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = "/opt/veriftools/pyvenv/bin/python"
cfgp = os.path.join(HERE, "search", "config.json")
cfg = json.load(open(cfgp))
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    spec = os.path.join(HERE, "specs", pid.lower() + ".py")
    c = cfg.setdefault(pid, {})
    if os.path.exists(spec):
        mod = importlib.import_module("specs." + pid.lower())
        level = getattr(mod, "LEVEL", "proof")
        note = getattr(mod, "NOTE", None) or "Contracts on the real functions, every obligation discharged by z3 on every run from /repo's current source; trusted: " + "; ".join(mod.TRUSTED)
        tech = "contract-based deductive verification of the real source (own verification-condition generator, z3), with a bounded search on the real code that looks for inputs"
    else:
        level = "exploration"
        tech = "bounded conformance check of the real code against its contract (stand-in for a deductive proof)"
        note = "Bounded: the contract is evaluated on the real code for generated and enumerated inputs; nothing is proved."
    c["level"] = level
    checks.append({"property": pid, "quick_cmd": "%s run.py %s --tier quick" % (PY, pid), "thorough_cmd": "%s run.py %s --tier thorough" % (PY, pid),
                   "technique": tech, "level": level, "level_note": note})
json.dump(cfg, open(cfgp, "w"), indent=0, sort_keys=True)
json.dump({"version": 1, "setup_cmd": "%s tools/setup.py" % PY, "checks": checks, "not_applicable": [],
           "notes": "Each check builds a scratch copy of /repo's working tree for the search and reads the source of /repo for the proofs."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
