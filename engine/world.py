"""Trusted contracts of the outside world: files, hashing, encoding detectors."""
import z3
from . import smt
from .smt import STR, U, Unsupported
from .vals import *
from .models import Model, B, EXT, any_exception
from .pysym import PyExc

file_bytes = z3.Function("file_bytes", STR.sort, STR.sort)          # contents of a file at entry
file_exists = z3.Function("file_exists", STR.sort, smt.B)
decode = z3.Function("decode", U, STR.sort, STR.sort)
encode = z3.Function("encode", U, STR.sort, STR.sort)
enc_of = z3.Function("enc_of", STR.sort, U)
enc_none = z3.Const("enc_none", U)
SHA1 = z3.Function("sha1_hex", STR.sort, STR.sort)


def enc_term(it, e):
    if e is None:
        return enc_none
    if isinstance(e, S) and e.kind == "obj":
        return e.t
    return enc_of(it.term(e, "str"))


def fs(it):
    """the file system: contents and existence by path"""
    o = it.ghost.get("fs")
    if o is None:
        o = Obj(it, "fs", {"map": S("fsmap", z3.Const("fs0", FSMAP)), "ex": S("fsex", z3.Const("ex0", FSEX))})
        it.ghost["fs"] = o
    return o


def fs_get(it, path):
    return z3.Select(it.getf(fs(it), "map").t, path)


def fs_has(it, path):
    return z3.Select(it.getf(fs(it), "ex").t, path)


def fs_put(it, path, content):
    o = fs(it)
    it.setf(o, "map", S("fsmap", z3.Store(it.getf(o, "map").t, path, content)))
    it.setf(o, "ex", S("fsex", z3.Store(it.getf(o, "ex").t, path, z3.BoolVal(True))))


def fs_del(it, path):
    o = fs(it)
    it.setf(o, "ex", S("fsex", z3.Store(it.getf(o, "ex").t, path, z3.BoolVal(False))))


def may_fail(it, name="OSError", what=""):
    if it.ghost.get("nofail"):
        return
    if it.path.choose(2, what) == 1:
        it.path.note("%s fails" % what)
        it.ghost["env_failed"] = B[name]
        raise it.exc(name)


def from_outside(it, v, *also):
    """an exception of the environment (a file, an encoding, the csv module), not one of the code's own making"""
    c = v.cls
    if not isinstance(c, ClassVal) or c in also or it.ghost.get("env_failed") is c:
        return True
    return c.py is None or issubclass(c.py, (OSError, UnicodeError)) or c.name.split(".")[-1] == "Error"


def path_term(it, p):
    if kind_of(p) == "str":
        return it.term(p, "str")
    if isinstance(p, S) and p.kind == "obj":
        f = z3.Function("path_of_obj", U, STR.sort)
        return f(p.t)
    raise Unsupported("file name %r" % (p,))


def do_open(it, a, kw):
    names = ["file", "mode", "buffering", "encoding", "errors", "newline"]
    d = dict(zip(names, a))
    d.update(kw)
    mode = d.get("mode", "r")
    if not isinstance(mode, str):
        raise Unsupported("open with a computed mode")
    p = path_term(it, d["file"])
    may_fail(it, what="open")
    enc = d.get("encoding")
    if "b" in mode:
        kind = "bytes"
    else:
        kind = "str"
    f = {"path": p, "mode": mode, "kind": kind, "enc": enc_term(it, enc), "newline": d.get("newline"), "pos": S("int", z3.IntVal(0)),
         "errors": d.get("errors"), "closed": False}
    if "r" in mode:
        if not it.path.decide(fs_has(it, p)):
            raise it.exc("FileNotFoundError")
        c = fs_get(it, p)
        if kind == "str":
            c = decode(f["enc"], c)
            if d.get("newline") != "":
                c = z3.Function("translate_newlines", STR.sort, STR.sort)(c)
            if d.get("errors") is not None:
                c = z3.Function("lossy", STR.sort, STR.sort)(c)
        f["content"] = S(kind, c)
    elif mode.startswith("w"):
        fs_put(it, p, STR.empty)
        f["content"] = S(kind, STR.empty)
    elif mode.startswith("x"):
        if it.path.decide(fs_has(it, p)):
            raise it.exc("OSError")
        fs_put(it, p, STR.empty)
        f["content"] = S(kind, STR.empty)
    elif mode.startswith("a"):
        raise Unsupported("append mode")
    o = Obj(it, FILE, f)
    h = it.ghost.get("opened")
    if h:
        h(it, o, d)
    it.ghost.setdefault("files", []).append(o)
    return o


def f_read(it, o, a, kw):
    if o.f["mode"][0] != "r":
        raise it.exc("OSError", "not readable")
    if it.getf(o, "closed") is not False:
        raise it.exc("ValueError", "closed file")
    may_fail(it, "OSError" if o.f["kind"] == "bytes" else "UnicodeDecodeError", "read")
    c, pos = o.f["content"].t, it.term(it.getf(o, "pos"))
    ln = STR.len(c)
    n = a[0] if a else kw.get("size", -1)
    if n is None:
        n = -1
    nt = it.term(n, "int")
    end = z3.If(nt < 0, ln, z3.If(pos + nt <= ln, pos + nt, ln))
    end = z3.If(pos > ln, pos, end)
    r = STR.sub(c, pos, end)
    it.path.assume(z3.Implies(z3.And(pos >= 0, pos <= ln), z3.And(end >= pos, end <= ln, STR.len(r) == end - pos)))
    # sub(c,0,pos) ++ sub(c,pos,end) == sub(c,0,end)
    it.path.assume(z3.Implies(z3.And(pos >= 0, pos <= end, end <= ln),
                              STR.cat(STR.sub(c, z3.IntVal(0), pos), r) == STR.sub(c, z3.IntVal(0), end)))
    it.setf(o, "pos", S("int", end))
    h = it.ghost.get("on_read")
    if h:
        h(it, o, n, r)
    return S(o.f["kind"], r)


def f_seek(it, o, a, kw):
    n = a[0]
    if not (isinstance(n, int) and n == 0 and (len(a) == 1 or a[1] == 0)):
        raise Unsupported("seek")
    it.setf(o, "pos", S("int", z3.IntVal(0)))
    return 0


def f_write(it, o, a, kw):
    if o.f["mode"][0] not in "wx":
        raise it.exc("OSError", "not writable")
    may_fail(it, what="write")
    c = it.getf(o, "content")
    it.setf(o, "content", S(c.kind, STR.cat(c.t, it.term(a[0], c.kind))))
    return S("int", STR.len(it.term(a[0], c.kind)))


def flush(it, o):
    if o.f["mode"][0] in "wx":
        c = it.getf(o, "content").t
        if o.f["kind"] == "str":
            c = encode(o.f["enc"], c)
        fs_put(it, o.f["path"], c)


def f_close(it, o, a, kw):
    if it.getf(o, "closed") is False:
        it.setf(o, "closed", True)
        if o.f["mode"][0] in "wx":
            flush(it, o)
    return None


def f_flush(it, o, a, kw):
    """everything written so far reaches the disk"""
    may_fail(it, what="flush")
    flush(it, o)
    it.setf(o, "flushed", it.getf(o, "content") if o.f["mode"][0] in "wx" else None)


def f_exit(it, o, a, kw):
    f_close(it, o, [], {})
    return None


FILE = Model("file", {
    "read": f_read, "seek": f_seek, "write": f_write, "close": f_close, "flush": f_flush, "__enter__": lambda it, o, a, k: o, "__exit__": f_exit,
})

TRUST_FILES = ("files: open/read/seek/write/close contracts of engine/world.py (a read returns the next min(n, rest) units, any operation "
               "may raise; text reading decodes the bytes, newline='' disables translation)")


# ------------------------------------------------------------------ hashing
def h_update(it, o, a, kw):
    it.setf(o, "fed", S("bytes", STR.cat(it.getf(o, "fed").t, it.term(a[0], "bytes"))))


HASHER = Model("sha1", {"update": h_update, "hexdigest": lambda it, o, a, k: S("str", SHA1(it.getf(o, "fed").t))},
               {"digest_size": lambda it, o: 20, "block_size": lambda it, o: 64, "name": lambda it, o: "sha1"})


def new_sha1(it, a, kw):
    t = it.term(a[0], "bytes") if a else STR.empty
    return Obj(it, HASHER, {"fed": S("bytes", t)})


def other_hash(it, a, kw):
    return Obj(it, Model("hash", {"update": h_update, "hexdigest": lambda it2, o, a2, k: it2.fresh("str", "digest")}), {"fed": S("bytes", STR.empty)})


def hashlib_new(it, a, kw):
    if a and a[0] == "sha1":
        return new_sha1(it, a[1:], {})
    return other_hash(it, a, kw)


def file_digest(it, a, kw):
    o = a[0]
    h = hashlib_new(it, [a[1]] if isinstance(a[1], str) else ["sha1" if getattr(a[1], "name", "") == "hashlib.sha1" else "?"], {})
    rest = f_read(it, o, [], {})
    h_update(it, h, [rest], {})
    return h


# ------------------------------------------------------------------ encoding detectors
DETECTED = z3.Function("detected_encoding", STR.sort, STR.sort, U)   # library name, bytes fed


def det_feed(it, o, a, kw):
    if it.getf(o, "closed") is not False:
        it.path.check(z3.BoolVal(False), "the detector is not fed after close", it.where)
    may_fail(it, "ValueError", "feed")
    it.setf(o, "fed", S("bytes", STR.cat(it.getf(o, "fed").t, it.term(a[0], "bytes"))))
    it.setf(o, "done", it.fresh("bool", "done"))


def det_close(it, o, a, kw):
    it.setf(o, "closed", True)
    return det_result(it, o)


def det_result(it, o):
    if it.getf(o, "closed") is not True:
        return Obj(it, DETRES, {"t": it.fresh("obj", "early")})
    return Obj(it, DETRES, {"t": S("obj", DETECTED(it.term(o.f["lib"]), it.getf(o, "fed").t))})


def _enc(it, o, a, k):
    if a[0] != "encoding":
        return it.fresh("obj", "detres")
    return o.f["t"]


DETRES = Model("detection result", {"get": _enc}, getitem=lambda it, o, k: _enc(it, o, [k], {}))
DETECTOR = Model("detector", {"feed": det_feed, "close": det_close, "reset": lambda it, o, a, k: it.setf(o, "fed", S("bytes", STR.empty))},
                 {"result": det_result, "done": lambda it, o: it.getf(o, "done")})


def new_detector(lib):
    def f(it, a, kw):
        o = Obj(it, DETECTOR, {"fed": S("bytes", STR.empty), "done": it.fresh("bool", "done"), "closed": False, "lib": lib})
        it.ghost.setdefault("detectors", []).append(o)
        return o
    return f


# ------------------------------------------------------------------ temporary files, moving and deleting
def mkstemp(it, a, kw):
    """a new empty file under a name that did not exist"""
    may_fail(it, what="mkstemp")
    n = it.fresh("str", "tmpname")
    it.path.assume(z3.Not(fs_has(it, n.t)))
    it.path.assume(STR.len(n.t) > 0)
    for q in it.ghost.get("protected", []):
        it.path.assume(n.t != q)
    fs_put(it, n.t, STR.empty)
    fd = it.fresh("int", "fd")
    it.ghost.setdefault("fds", []).append((fd, n))
    it.ghost.setdefault("temps", []).append(n)
    return (fd, n)


def fdopen(it, a, kw):
    for fd, n in it.ghost.get("fds", []):
        if a and a[0] is fd:
            return do_open(it, [n] + list(a[1:]), kw)
    raise Unsupported("fdopen of an unknown descriptor")


def unlink(it, a, kw):
    p = path_term(it, a[0])
    may_fail(it, what="unlink")
    if not it.path.decide(fs_has(it, p)):
        raise it.exc("FileNotFoundError")
    fs_del(it, p)


def move(it, a, kw):
    """the destination gets the contents of the source, or nothing happens"""
    s, d = path_term(it, a[0]), path_term(it, a[1])
    may_fail(it, what="move")
    on_disk(it, s)
    if not it.path.decide(fs_has(it, s)):
        raise it.exc("FileNotFoundError")
    c = fs_get(it, s)
    fs_del(it, s)
    fs_put(it, d, c)
    return a[1]


def on_disk(it, p):
    """files that are still being written and whose text need not be on disk yet"""
    for f in it.ghost.get("files", []):
        if f.f["mode"][0] in "wx" and it.getf(f, "closed") is False and it.path.decide(f.f["path"] == p):
            if f.f.get("flushed") is not None and f.f["flushed"] is it.getf(f, "content"):
                continue
            raise Unsupported("use of a file that is being written")


def copyfile(it, a, kw):
    """the destination is written in place: a failure midway leaves a part of it"""
    s, d = path_term(it, a[0]), path_term(it, a[1])
    on_disk(it, s)
    may_fail(it, what="copy")
    if not it.path.decide(fs_has(it, s)):
        raise it.exc("FileNotFoundError")
    if it.path.choose(2, "copy midway") == 1:
        fs_put(it, d, it.fresh("bytes", "partial").t)
        it.ghost["env_failed"] = B["OSError"]
        raise it.exc("OSError")
    fs_put(it, d, fs_get(it, s))
    return a[1]


def getsize(it, a, kw):
    p = path_term(it, a[0])
    on_disk(it, p)
    may_fail(it, what="stat")
    if not it.path.decide(fs_has(it, p)):
        raise it.exc("FileNotFoundError")
    return S("int", STR.len(fs_get(it, p)))


EXTERNALS = {
    "os.path.getsize": getsize,
    "tempfile.mkstemp": mkstemp, "os.fdopen": fdopen, "os.unlink": unlink, "os.remove": unlink, "shutil.move": move, "os.replace": move, "os.rename": move,
    "shutil.copyfile": copyfile, "shutil.copy": copyfile,
    "os.path.exists": lambda it, a, kw: S("bool", fs_has(it, path_term(it, a[0]))),
    "os.path.isfile": lambda it, a, kw: S("bool", fs_has(it, path_term(it, a[0]))),
    "open": do_open, "io.open": do_open,
    "hashlib.sha1": new_sha1, "hashlib.new": hashlib_new, "hashlib.file_digest": file_digest, "hashlib.md5": other_hash, "hashlib.sha256": other_hash,
    "chardet.UniversalDetector": new_detector("chardet"), "cchardet.UniversalDetector": new_detector("cchardet"),
}
EXT.update(EXTERNALS)


# ------------------------------------------------------------------ invariant candidates about files
def file_templates(it, st):
    """a consumer (hash, detector) has got exactly the bytes read so far"""
    out = []
    files = [o for o in it.ghost.get("files", []) if o.f["mode"][0] == "r"]
    sinks, byts = [], []
    for cell, o, v in st.cells():
        if cell[1] == "fed":
            sinks.append(o)
        elif kind_of(st.entry.get(cell)) in ("bytes", "str"):
            byts.append(cell)
    Z = z3.IntVal(0)
    for f in files:
        c = f.f["content"].t

        def pos(f=f):
            return it.term(f.f["pos"])

        def inb(s, f=f, c=c, pos=pos):
            return z3.And(pos() >= 0, pos() <= STR.len(c))
        out.append(("file%d pos in range" % f.id, inb))
        for o in sinks:
            def fed(s, o=o, c=c, pos=pos):
                x = o.f["fed"].t
                return x == STR.sub(c, Z, pos())
            out.append(("fed%d = read%d" % (o.id, f.id), fed))
            for b in byts:
                def fedb(s, o=o, c=c, pos=pos, b=b):
                    x = s.now(b)
                    if kind_of(x) not in ("bytes", "str"):
                        return None
                    x = it.term(x)
                    a = STR.sub(c, Z, pos() - STR.len(x))
                    it.path.assume(z3.Implies(z3.And(STR.len(x) <= pos(), pos() <= STR.len(c), x == STR.sub(c, pos() - STR.len(x), pos())),
                                              STR.cat(a, x) == STR.sub(c, Z, pos())))
                    return z3.And(o.f["fed"].t == a, STR.len(x) <= pos(), STR.cat(o.f["fed"].t, x) == STR.sub(c, Z, pos()))
                out.append(("fed%d ++ %s.%s = read" % (o.id, b[0], b[1]), fedb))
        for b in byts:
            def stop(s, b=b, c=c, pos=pos):
                x = s.now(b)
                if kind_of(x) not in ("bytes", "str"):
                    return None
                return z3.Implies(STR.len(it.term(x)) == 0, pos() == STR.len(c))
            out.append(("%s.%s empty only at the end of file%d" % (b[0], b[1], f.id), stop))
        for cell, o, v in st.cells():
            if kind_of(st.entry.get(cell)) == "bool":
                for sign in (True, False):
                    def fin(s, cell=cell, c=c, pos=pos, sign=sign):
                        x = s.now(cell)
                        if kind_of(x) != "bool":
                            return None
                        x = it.term(x, "bool")
                        return z3.Implies(x if sign else z3.Not(x), pos() == STR.len(c))
                    out.append(("flag %s.%s %s only at the end of file%d" % (cell[0], cell[1], sign, f.id), fin))
    return out
