"""C03: memory safety, reference counts and error reporting of every function of both extension modules."""
from engine.capi import TRUST_CAPI, TRUST_CFRONT
from specs import cabs, cpars

ASSUMED = {}
CONTRACTS = sorted(cabs.CONTRACTS + [c for c in cpars.CONTRACTS if not isinstance(c, cpars.IterNext)], key=lambda c: 0 if "merge" in (c.func or "") or "iternext" in c.func else 1)
TRUSTED = [TRUST_CAPI, TRUST_CFRONT, "the type and module tables (Parser_Type, cparser_methods, cabstraction_methods, ...) name the functions under contract and their sizes",
           "the garbage collector does not run inside the C functions (CPython 3.12 runs it between bytecodes)"]
