"""Value domain and per-path state of the abstract interpreter.

The analysed program is never executed: its syntax tree is interpreted over the
domain below (constants, Herbrand terms, heap objects), with trace partitioning on
undecided conditions.  Nothing of /repo is imported.
"""
from __future__ import annotations


class Undecided(Exception):
    """The analysis cannot decide (unsupported construct, budget...)."""


class PathCut(Exception):
    """The current trace partition is abandoned (harness assumption, cutoff)."""


class Violated(Exception):
    def __init__(self, info):
        super().__init__(info["message"])
        self.info = info


class PyExc(Exception):
    """An exception of the analysed program."""

    def __init__(self, value, where=None):
        super().__init__(value)
        self.value = value
        self.where = where or ()


class BreakLoop(Exception):
    pass


class ContinueLoop(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class State:
    """Everything that belongs to the trace partition being analysed."""

    def __init__(self):
        self.script = []
        self.decisions = []
        self.facts = {}
        self.subst = {}
        self.bounds = {}
        self.narrow = {}
        self.lens = {}
        self.trace = []
        self.undo = {}
        self.steps = 0
        self.depth = 0
        self.log = []
        self.stack = []
        self.idn = {}
        self.keep = []
        self.fresh = 0
        self.memo = {}
        self.fnlog = []
        # sampled paths only
        self.last = {}
        self.stick = 1.0
        self.switch = ()
        self.choices = 0
        self.assuming = False
        self.lengths = 0
        self.longat = 1
        self.longdone = False


P = State()


class Stats:
    def __init__(self):
        self.functions = {}
        self.calls = set()
        self.paths = 0
        self.obligations = 0
        self.forks = 0
        self.cutoff_literals = set()
        self.cuts = 0
        self.steps = 0
        self.rules = {}


STATS = Stats()


class Config:
    K = 2  # cutoff: lengths 0..K of every unbounded sequence are partitions
    LONG = None  # sampled exploration of long sequences: (length, random source)
    EXTRA = ()  # further lengths, around integer literals the code compares lengths with
    MAXSTEPS = 400_000
    MAXPATHS = 60_000
    loading = False
    ready = False
    universe = []


CFG = Config()


class Obj:
    __slots__ = ("frz",)
    slots: tuple = ()

    def __init__(self):
        self.frz = False
        if CFG.loading:
            CFG.universe.append(self)

    def save(self):
        out = []
        for s in self.slots:
            v = getattr(self, s)
            if isinstance(v, list):
                v = [list(x) if isinstance(x, list) else x for x in v]
            elif isinstance(v, dict):
                v = dict(v)
            out.append(v)
        return out

    def restore(self, saved):
        for s, v in zip(self.slots, saved):
            setattr(self, s, v)


def touch(o):
    if o.frz and id(o) not in P.undo:
        P.undo[id(o)] = (o, o.save())


def rollback():
    for o, saved in P.undo.values():
        o.restore(saved)
    P.undo = {}


class Sym:
    __slots__ = ("t", "ty")

    def __init__(self, t, ty=None):
        self.t = t
        if isinstance(ty, str):
            ty = frozenset([ty])
        self.ty = ty

    def __eq__(self, other):
        return isinstance(other, Sym) and self.t == other.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return show(self.t)


class PList(Obj):
    __slots__ = ("items", "base", "unb")
    slots = ("items", "base")

    def __init__(self, items=(), base=None, unb=False):
        super().__init__()
        self.items = list(items)
        self.base = base
        self.unb = unb


class PDict(Obj):
    __slots__ = ("items", "base")
    slots = ("items", "base")

    def __init__(self, items=(), base=None):
        super().__init__()
        self.items = [list(x) for x in items]
        self.base = base


class PSet(Obj):
    __slots__ = ("items", "base", "immutable")
    slots = ("items", "base")

    def __init__(self, items=(), base=None):
        super().__init__()
        self.items = list(items)
        self.base = base
        self.immutable = False


class PClass(Obj):
    __slots__ = ("name", "qualname", "bases", "ns", "mro", "builtin", "module", "node", "members")
    slots = ("ns",)

    def __init__(self, name, bases, ns, module="builtins", builtin=False, qualname=None):
        super().__init__()
        self.name = name
        self.qualname = qualname or name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.builtin = builtin
        self.node = None
        self.members = None
        self.mro = c3(self)

    def lookup(self, attr):
        for c in self.mro:
            if attr in c.ns:
                return c.ns[attr]
        return None

    def __repr__(self):
        return f"<class {self.qualname}>"


def c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            raise Undecided(f"inconsistent MRO for {cls.name}")
        out.append(c)
        for s in seqs:
            if s[0] is c:
                del s[0]


class Inst(Obj):
    __slots__ = ("cls", "attrs", "payload")
    slots = ("attrs", "payload", "cls")

    def __init__(self, cls):
        super().__init__()
        self.cls = cls
        self.attrs = {}
        self.payload = None

    def __repr__(self):
        return f"<{self.cls.name} object>"


class Env(Obj):
    __slots__ = ("vars", "parent", "fn", "globals_", "locals_", "module", "glob", "nonl")
    slots = ("vars",)

    def __init__(self, parent, fn, module, locals_=frozenset(), glob=frozenset(), nonl=frozenset()):
        super().__init__()
        self.vars = {}
        self.parent = parent
        self.fn = fn
        self.module = module
        self.locals_ = locals_
        self.glob = glob
        self.nonl = nonl


class PModule(Obj):
    __slots__ = ("name", "ns", "path")
    slots = ("ns",)

    def __init__(self, name, path=None):
        super().__init__()
        self.name = name
        self.ns = {}
        self.path = path

    def __repr__(self):
        return f"<module {self.name}>"


class PFunc(Obj):
    __slots__ = ("node", "env", "defaults", "kwdefaults", "name", "qualname", "module", "defcls", "attrs", "file")
    slots = ("defcls", "attrs")

    def __init__(self, node, env, defaults, kwdefaults, name, qualname, module, file):
        super().__init__()
        self.node = node
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name
        self.qualname = qualname
        self.module = module
        self.defcls = None
        self.attrs = {}
        self.file = file

    def __repr__(self):
        return f"<function {self.qualname}>"


class PBuiltin:
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class PBound:
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn = fn
        self.self = self_


class PPartial:
    __slots__ = ("fn", "args", "kwargs")

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class PProp:
    __slots__ = ("fget", "fset", "fdel", "cached")

    def __init__(self, fget=None, fset=None, fdel=None, cached=False):
        self.fget, self.fset, self.fdel, self.cached = fget, fset, fdel, cached


class PStatic:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class PClassM:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class PSuper:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class PIter:
    """A lazily evaluated iterator (host generator)."""

    __slots__ = ("it", "term")

    def __init__(self, it, term=None):
        self.it = it
        self.term = term


class Fin:
    """One of finitely many constants: a choice (whose remaining values are kept by the path) and what each gives."""

    __slots__ = ("key", "table")

    def __init__(self, key, table):
        self.key = key
        self.table = table


class PView(PIter):
    """The pairs of a dictionary whose keys are not all known: enumerated only when looked at one by one."""

    __slots__ = ("src", "pairs")

    def __init__(self, src, pairs):
        self.src = src
        self.pairs = pairs
        self.term = None

    @property
    def it(self):
        return iter(self.pairs())


class PRange:
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class PSlice:
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class PUnion:
    __slots__ = ("types",)

    def __init__(self, types):
        self.types = types


class Inert:
    """typing constructs: subscriptable, or-able, no runtime meaning."""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"typing.{self.name}"


class Ext:
    """Something outside the analysed source."""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(("Ext", self.name))

    def __repr__(self):
        return f"<external {self.name}>"


class Frz:
    """A frozen (canonical, hashable) description of a value."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Frz) and o.v == self.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return show(self.v)


class NotImpl:
    def __repr__(self):
        return "NotImplemented"


NOTIMPL = NotImpl()
ELLIPSIS = Ellipsis


def show(t, depth=0):
    if isinstance(t, Frz):
        t = t.v
    if isinstance(t, tuple):
        if depth > 7:
            return "..."
        if t and t[0] == "c" and len(t) == 3:
            return repr(t[2])
        if t and t[0] == "s" and len(t) == 2:
            return show(t[1], depth)
        if t and isinstance(t[0], str):
            return t[0] + "(" + ", ".join(show(x, depth + 1) for x in t[1:]) + ")"
        return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
    return str(t) if isinstance(t, str) else repr(t)
