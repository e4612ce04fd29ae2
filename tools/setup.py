"""setup_cmd: checks that the tools the framework needs are here (nothing has to be built)."""
import importlib, shutil, sys
for m in ("z3", "pycparser"):
    importlib.import_module(m)
for t in ("gcc", "/opt/venv/bin/python"):
    if not shutil.which(t):
        sys.exit("missing: " + t)
print("ready")
