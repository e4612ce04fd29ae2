"""Purity: the outcome of a function depends on its arguments only.

In purity mode the interpreter reports every place where an outcome could come to depend on something
else: the order of a set, hashes and object identities, the world outside (time, randomness, the
environment), and state that lives longer than the call.  State that is older than the call (objects of the
caller, modules, classes, default arguments) may be read, or written, but no cell of it both read before it is
written and written: then a call can leave no trace for a later one.

functools.lru_cache is transparent: a pure function gives the same with and without it."""
import z3
from .contracts import Contract
from .smt import Obligation, Unsupported
from .vals import *

OUTSIDE = ("time.", "random.", "os.", "uuid.", "secrets.", "datetime.", "threading.", "locale.", "getpass.", "socket.", "tempfile.", "gc.", "weakref.", "id", "sys.")
MUTATORS = ("remove", "insert", "sort", "clear", "update", "pop", "setdefault", "discard", "reverse", "popitem", "move_to_end", "appendleft", "popleft")
ORDER, WORLD, STATE = "the order of a set is not used", "nothing outside the arguments is used", "no state is kept for later calls"


class Watch:
    def __init__(self, con, start):
        self.con, self.start, self.quiet = con, start, 0
        self.fresh = set()      # cells of old objects written on this path
        self.ordered = False

    def old(self, obj):
        return obj.id <= self.start or obj.static

    def age(self, it):
        """all there is now is older than the call"""
        self.start = it.heap_n

    def cell(self, it, obj, key):
        n = obj.label or (obj.cls if isinstance(obj.cls, str) else getattr(obj.cls, "name", "?"))
        return "%s#%s.%s" % (n, "static" if obj.static else obj.id, key)

    def ignore(self, it, obj):
        return it.loading or not self.old(obj) or obj.cls in ("cell", "counter", "iterator")

    def wrote(self, it, obj, key):
        if self.ignore(it, obj):
            return
        self.fresh.add((obj.id, key))
        self.con.W.add(self.cell(it, obj, key))

    def read(self, it, obj, key):
        if self.ignore(it, obj) or (obj.id, key) in self.fresh:
            return
        self.con.R.add(self.cell(it, obj, key))

    def wrote_class(self, it, cls, name):
        if not it.loading:
            it.path.check(z3.BoolVal(False), STATE + " (class attribute %s.%s)" % (cls.name, name))

    def order(self, it):
        if not self.quiet and not it.loading:
            self.ordered = True

    def mutates(self, it, obj, name):
        """a method the verifier does not know that changes its object"""
        if name in MUTATORS and isinstance(obj, Obj) and not self.ignore(it, obj):
            self.wrote(it, obj, "v")

    def outside(self, it, name):
        if name.startswith(OUTSIDE):
            it.path.check(z3.BoolVal(False), WORLD + " (%s)" % name)

    def hashed(self, it):
        if not any(getattr(f, "label", "").endswith("__hash__") for f in it.frames) and not it.loading:
            it.path.check(z3.BoolVal(False), WORLD + " (hash)")


class Pure(Contract):
    """a function with another contract, here shown to be pure.  exact: what to conclude when the order of a set is used:
    the postcondition of the other contract has to determine the result"""

    def __init__(self, base, exact=False):
        self.base, self.exact = base, exact
        self.key, self.label = base.key, "%s: depends on its arguments only" % (base.label or base.key)
        self.externals, self.generic = base.externals, base.generic
        self.timeout, self.budget = base.timeout, base.budget
        self.templates = base.templates
        self.must_reach = ()
        self.R, self.W = set(), set()
        if getattr(base, "max_paths", None):
            self.max_paths = base.max_paths
        self.bounded = getattr(base, "bounded", None)

    @property
    def assumed(self):
        return getattr(self.base, "assumed", None)

    def axioms(self):
        return self.base.axioms() if hasattr(self.base, "axioms") else []

    def setup(self, it):
        it.con = self.base
        a = self.base.setup(it)
        it.mono = self.watch = Watch(self, it.heap_n)
        return a

    def body(self, it, args):
        return self.base.body(it, args)

    def post(self, it, args, kind, v):
        w, it.mono = self.watch, None
        if w.ordered:
            if not self.exact:
                it.path.check(z3.BoolVal(False), ORDER)
            self.base.post(it, args, kind, v)
        else:
            it.path.check(z3.BoolVal(True), ORDER + ", nor anything outside the arguments")

    def finish(self, ex):
        both = sorted(self.R & self.W)
        ex.obligations.append(Obligation(STATE, "failed" if both else "proved", 0.0, "read and written: " + ", ".join(both) if both else "", ""))
