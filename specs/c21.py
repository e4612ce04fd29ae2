"""C21: file digests and encoding detection see every byte in order."""
import z3
from engine import world as W
from engine.contracts import Contract
from engine.smt import STR
from engine.vals import *


class Sha1(Contract):
    key = "clevercsv.utils.sha1sum"
    templates = [W.file_templates]

    def setup(self, it):
        return {"filename": it.fresh("str", "filename")}

    def post(self, it, args, kind, v):
        if kind == "raise":
            it.path.check(z3.BoolVal(W.from_outside(it, v)), "only failures of the environment surface")
            return
        p = args["filename"].t
        c0 = z3.Select(z3.Const("fs0", FSMAP), p)
        it.path.check(it.eq(v, S("str", W.SHA1(c0))), "the result is the SHA-1 of the whole file")


class OptionalDep:
    """assumed contract of _optional.import_optional_dependency: a module or None"""

    def apply(self, it, f, args):
        if args["name"] != "cchardet":
            from engine.smt import Unsupported
            raise Unsupported("optional dependency %r" % (args["name"],))
        if it.path.choose(2) == 0:
            return None
        return ExtVal("cchardet")


class GetEncoding(Contract):
    key = "clevercsv.encoding.get_encoding"
    templates = [W.file_templates]

    def setup(self, it):
        return {"filename": it.fresh("str", "filename"), "try_cchardet": it.fresh("bool", "try_cchardet")}

    def post(self, it, args, kind, v):
        if kind == "raise":
            it.path.check(z3.BoolVal(W.from_outside(it, v)), "only failures of the environment surface")
            return
        p = args["filename"].t
        c0 = z3.Select(z3.Const("fs0", FSMAP), p)
        dets = it.ghost.get("detectors", [])
        it.path.check(len(dets) == 1 or z3.BoolVal(False), "one detector is used")
        d = dets[0]
        fed = d.f["fed"].t
        ln = STR.len(fed)
        it.path.check(z3.And(ln <= STR.len(c0), fed == STR.sub(c0, z3.IntVal(0), ln)), "the bytes fed are a prefix of the file, in order")
        it.path.check(z3.Or(it.truth(d.f["done"]), fed == c0), "feeding stops only at the end of the file or when the detector is certain")
        it.path.check(z3.BoolVal(d.f["closed"] is True), "the detector is closed")
        ok = isinstance(v, S) and v.kind == "obj"
        it.path.check(v.t == W.DETECTED(it.term(d.f["lib"]), fed) if ok else z3.BoolVal(False), "the detector's answer is returned unchanged")


ASSUMED = {"clevercsv._optional.import_optional_dependency": OptionalDep()}
CONTRACTS = [Sha1(), GetEncoding()]
TRUSTED = [W.TRUST_FILES, "hashlib.sha1, chardet/cchardet.UniversalDetector: contracts of engine/world.py (the answer is a function of the bytes fed before close)",
           "clevercsv._optional.import_optional_dependency returns the module or None"]
