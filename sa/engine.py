"""Loading of the analysed source, exploration of trace partitions, harness intrinsics."""
from __future__ import annotations

import os
import time

from . import builtins_ as _b  # noqa: F401  (fills the builtin tables)
from . import core, facts
from . import interp as I
from .core import *  # noqa: F401,F403
from .core import CFG, P, STATS
from .facts import choose, decide, kterm, sampled_length, tyset, typeof
from .interp import (BT, HOSTMODS, T, call, compare, eq, freeze, getattr_, ident, iterate, raise_py, resolve, setattr_,
                     subst_t, to_list, truth)

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SA_REPO", "/repo")


# ------------------------------------------------------------------ intrinsics


def fn(ns, name):
    def deco(f):
        ns[name] = PBuiltin("sa." + name, f)
        return f
    return deco


def tys(v):
    if v is None:
        return None
    if isinstance(v, str):
        return frozenset(v.split("|"))
    return frozenset(to_list(v))


def tstr(v):
    v = resolve(v)
    if isinstance(v, str):
        return v
    return freeze(v)


def describe(v):
    """Readable description of a value for messages."""
    v = resolve(v)
    try:
        if isinstance(v, Inst) and v.cls.name == "Value":
            x = v.attrs.get("_value")
            return f"Value({describe(x)})"
        return show(freeze(v))
    except Undecided:
        return repr(v)


def outcome(f, args, kwargs):
    """(kind, value, events) of a call of the analysed code."""
    start = len(P.trace)
    depth = len(P.stack)
    try:
        v = call(f, args, kwargs)
        return ("ok", v, Frz(tuple(P.trace[start:])))
    except PyExc as e:
        del P.stack[depth:]
        return ("raise", e.value, Frz(tuple(P.trace[start:])))


def clone(v, memo):
    """Deep copy of heap objects; functions, classes and identity nodes are shared."""
    v = resolve(v)
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, tuple):
        return tuple(clone(x, memo) for x in v)
    if isinstance(v, PList):
        r = memo[id(v)] = PList([], v.base, v.unb)
        r.items = [clone(x, memo) for x in v.items]
        return r
    if isinstance(v, PDict):
        r = memo[id(v)] = PDict([], v.base)
        r.items = [[clone(a, memo), clone(b, memo)] for a, b in v.items]
        return r
    if isinstance(v, PSet):
        r = memo[id(v)] = PSet([], v.base)
        r.immutable = v.immutable
        r.items = [clone(x, memo) for x in v.items]
        return r
    if isinstance(v, Inst):
        if v.cls.members is not None or v.cls.lookup("__identity__") is not None:
            return v
        r = Inst(v.cls)
        memo[id(v)] = r
        r.attrs = {k: clone(x, memo) for k, x in v.attrs.items()}
        r.payload = clone(v.payload, memo) if v.payload is not None else None
        return r
    return v


def same(a, b):
    """Equality of two abstract values in this partition."""
    a, b = resolve(a), resolve(b)
    if isinstance(a, Sym) and isinstance(b, Sym) and tyset(a) == tyset(b) == frozenset(["bool"]):
        return truth(a) == truth(b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, bool) and isinstance(y, Sym) and tyset(y) == frozenset(["bool"]):
            return truth(y) == x
    fa, fb = norm(freeze(a)), norm(freeze(b))
    if fa == fb:
        return True
    # boolean terms inside structures: split on them, then compare again
    while True:
        d = first_diff_cond(fa, fb)
        if d is None:
            return False
        decide(d)
        fa, fb = norm(freeze(a)), norm(freeze(b))
        if fa == fb:
            return True


norm = I.norm


def first_diff_cond(a, b):
    """An undecided boolean condition at the first difference of two frozen values."""
    if a == b:
        return None
    for x, y in ((a, b), (b, a)):
        if is_cond(x) and (is_cond(y) or y in (("k", True, "bool"), ("k", False, "bool"))):
            if facts.known(x) is None:
                return x
    # string concatenations: a part that may be empty, constants that are undecided
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            d = first_diff_cond(x, y)
            if d is not None:
                return d
    return None


def is_cond(t):
    return isinstance(t, tuple) and len(t) > 1 and isinstance(t[0], str) and t[0] in I.CONDS


class Viol(Violated):
    pass


def violation(message, details=()):
    raise Violated({"message": message, "details": list(details), "path": list(P.log), "calls": list(P.fnlog),
                    "trace": [show(e) for e in P.trace][-40:]})


def ancestors(c):
    return [k for k in c.mro]


def sa_module():
    ns = {}
    d = lambda n: fn(ns, n)

    @d("sym")
    def _(a, k):
        return Sym(("v", a[0]) if isinstance(a[0], str) else freeze(a[0]), tys(a[1] if len(a) > 1 else k.get("ty")))

    @d("term")
    def _(a, k):
        return Sym((a[1],) + tuple(T(resolve(x)) for x in a[2:]), tys(a[0]))

    @d("elements")
    def _(a, k):
        """Declare the element type of an opaque sequence."""
        I.ELEMTY[a[0].t] = tys(a[1])

    @d("choose")
    def _(a, k):
        return choose(a[0], a[1] if len(a) > 1 else "")

    @d("one_of")
    def _(a, k):
        xs = to_list(a[0])
        i = choose(len(xs), "", a[1] if len(a) > 1 and isinstance(a[1], str) else "case")
        P.log.append(f"{a[1] if len(a) > 1 else 'case'} := {describe(xs[i])}")
        return xs[i]

    @d("any_of")
    def _(a, k):
        """any_of(constants, label): one of them, decided no further than the code looks at it."""
        xs = to_list(a[0])
        P.fresh += 1
        key = ("any_of", f"{a[1]}", P.fresh)
        P.memo[key] = tuple(xs)
        return Fin(key, {x: x for x in xs})

    @d("decide")
    def _(a, k):
        return truth(a[0])

    @d("cut")
    def _(a, k):
        raise PathCut()

    @d("assume")
    def _(a, k):
        P.assuming = True
        ok = truth(a[0])
        P.assuming = False
        if not ok:
            raise PathCut()

    @d("undecided")
    def _(a, k):
        raise Undecided(a[0])

    @d("note")
    def _(a, k):
        P.log.append(" ".join(str(describe(x)) for x in a))

    @d("record")
    def _(a, k):
        return outcome(a[0], list(a[1:]), k)

    @d("same")
    def _(a, k):
        return same(a[0], a[1])

    @d("freeze")
    def _(a, k):
        return Frz(freeze(resolve(a[0])))

    @d("describe")
    def _(a, k):
        return describe(a[0])

    @d("check")
    def _(a, k):
        STATS.obligations += 1
        if not skip(k) and not truth(a[0]):
            violation(a[1] if isinstance(a[1], str) else describe(a[1]), [x if isinstance(x, str) else describe(x) for x in a[2:]])

    @d("expect")
    def _(a, k):
        """expect(message, implementation outcome, reference outcome)"""
        msg, imp, ref = a[0], a[1], a[2]
        events = k.get("events", True)
        STATS.obligations += 1
        if skip(k):
            return
        det = [f"implementation: {imp[0]} {describe_exc(imp)}", f"reference: {ref[0]} {describe_exc(ref)}"]
        if imp[0] != ref[0]:
            violation(msg, det)
        if imp[0] == "raise":
            if imp[1].cls is not ref[1].cls:
                violation(msg, det)
            ca, cb = exc_ctx(imp[1]), exc_ctx(ref[1])
            if cb is not None and freeze(ca) != freeze(cb):
                violation(msg + " (context of the error)", det + [f"{describe(ca)} instead of {describe(cb)}"])
            # what the parser said of a broken construct, the name that is not defined
            if ref[1].cls.name == "WizardParseError" and ref[1].attrs.get("args") == ("syntax error",) \
                    and freeze(imp[1].attrs.get("args", ())) != freeze(("syntax error",)):
                violation(msg + " (text of the error)", det)
            if ref[1].cls.name == "WizardNameError":
                name = ref[1].attrs.get("_name")
                if name not in ("", None) and not same(imp[1].attrs.get("_name"), name):
                    violation(msg + " (name in the error)", det)
        elif not same(imp[1], ref[1]):
            violation(msg, det)
        if events and norm(imp[2].v) != norm(ref[2].v):
            violation(msg + " (observable effects)", det + [
                "implementation effects: " + "; ".join(show(e) for e in norm(imp[2].v)),
                "reference effects: " + "; ".join(show(e) for e in norm(ref[2].v))])

    @d("no_events")
    def _(a, k):
        return Frz(())

    @d("emit")
    def _(a, k):
        P.trace.append((a[0],) + tuple(freeze(resolve(x)) for x in a[1:]))

    @d("emit_value")
    def _(a, k):
        P.trace.append((a[0],) + ((freeze(a[1]),) if len(a) > 1 else ()))
        n = sum(1 for e in P.trace if e[:2] == P.trace[-1][:2])
        return Sym((a[0], T(a[1]), n), tys(a[2]) if len(a) > 2 else None)

    @d("events")
    def _(a, k):
        return tuple(Frz(e) for e in P.trace[(a[0] if a else 0):])

    @d("mark")
    def _(a, k):
        return len(P.trace)

    @d("event_names")
    def _(a, k):
        return tuple(e[0] for e in P.trace[(a[0] if a else 0):])

    @d("drop_events")
    def _(a, k):
        del P.trace[a[0]:]

    @d("clone")
    def _(a, k):
        return clone(a[0], {})

    @d("path_of")
    def _(a, k):
        v = resolve(a[0])
        if isinstance(v, Inst):
            return getattr_(v, "_p")
        return v

    @d("path_fn")
    def _(a, k):
        name, p = a[0], resolve(a[1])
        if isinstance(p, str):
            import pathlib

            q = pathlib.PurePosixPath(p)
            r = getattr(q, name)
            return str(r) if not isinstance(r, tuple) else "/".join(r)
        return Sym(("path." + name, T(p)), "str")

    @d("opaque_dict")
    def _(a, k):
        return PDict([], base=("v", a[0]))

    @d("opaque_list")
    def _(a, k):
        t = ("v", a[0])
        if len(a) > 1:
            I.ELEMTY[t] = tys(a[1])
        return PList([], base=t)

    @d("unbounded")
    def _(a, k):
        """Mark a list as standing for a sequence of any length (cutoff applies)."""
        a[0].unb = True
        return a[0]

    @d("length")
    def _(a, k):
        """A length of an unbounded sequence: length(what, least=0)."""
        ls = [x for x in I.lens() if x >= (a[1] if len(a) > 1 else 0)]
        n = sampled_length(ls) if CFG.LONG else ls[choose(len(ls))]
        P.log.append(f"{a[0]} = {n}")
        return n

    @d("K")
    def _(a, k):
        return max(CFG.K, CFG.LONG[0] + 1 if CFG.LONG and not P.longdone else 0)

    @d("long")
    def _(a, k):
        """The length a sequence is given on a sampled path, 0 elsewhere."""
        if not CFG.LONG or P.longdone or CFG.LONG[1].random() < 0.3:
            return 0
        P.longdone = True
        return CFG.LONG[0] + 1

    @d("is_sym")
    def _(a, k):
        return isinstance(resolve(a[0]), Sym)

    @d("new")
    def _(a, k):
        """An instance of a class, its constructor is not run."""
        o = I.new_inst(a[0])
        for n, v in k.items():
            o.attrs[n] = v
        return o

    @d("node")
    def _(a, k):
        o = I.new_inst(a[0])
        o.attrs["label__"] = a[1]
        o.attrs["children"] = None
        o.attrs["parentCtx"] = None
        o.attrs["exception"] = None
        o.attrs["invokingState"] = 0
        kids = to_list(a[2]) if len(a) > 2 and a[2] is not None else None
        if kids is not None:
            l = PList(kids)
            l.unb = bool(k.get("unb"))
            o.attrs["children"] = l
            for x in kids:
                if isinstance(x, Inst):
                    x.attrs["parentCtx"] = o
        if k.get("text") is not None:
            o.attrs["text__"] = k["text"]
        o.attrs["start"] = Sym(("start", a[1]), None)
        o.attrs["stop"] = Sym(("stop", a[1]), None)
        o.attrs["parser"] = None
        return o

    @d("memo")
    def _(a, k):
        """memo(key, make): one object per path and key."""
        key = freeze(resolve(a[0]))
        if key not in P.memo:
            P.memo[key] = call(a[1], list(a[2:]))
        return P.memo[key]

    @d("put")
    def _(a, k):
        P.memo[freeze(resolve(a[0]))] = a[1]

    @d("get")
    def _(a, k):
        return P.memo.get(freeze(resolve(a[0])), a[1] if len(a) > 1 else None)

    @d("own_names")
    def _(a, k):
        return tuple(n for n in a[0].ns if not n.startswith("__"))

    @d("all_names")
    def _(a, k):
        out = []
        for c in a[0].mro:
            if not c.builtin:
                out.extend(n for n in c.ns if n not in out)
        return tuple(out)

    @d("is_class")
    def _(a, k):
        return isinstance(a[0], PClass)

    @d("is_function")
    def _(a, k):
        return isinstance(a[0], (PFunc, PBound))

    @d("classes")
    def _(a, k):
        """Classes of the analysed package that derive from a class."""
        return tuple(c for c in CFG.universe if isinstance(c, PClass) and a[0] in c.mro and not (c.module or "").startswith("_"))

    @d("module_of")
    def _(a, k):
        return a[0].module

    @d("attrs")
    def _(a, k):
        return PDict([[n, v] for n, v in a[0].attrs.items()])

    @d("calls_of")
    def _(a, k):
        return tuple(q for _, q in P.fnlog)

    @d("raw_bool")
    def _(a, k):
        """A bool (or condition) for a value's truth, without splitting."""
        return I.cond_value(I.truth_cond(a[0]))

    @d("hook_opaque")
    def _(a, k):
        suffix, f = a[0], a[1]

        def hook(pf, args, kwargs):
            if len(args) > 1 and isinstance(args[1], Inst) and args[1].cls.lookup("opaque__"):
                return True, call(f, args, kwargs)
            if "ctx" in kwargs and isinstance(kwargs["ctx"], Inst) and kwargs["ctx"].cls.lookup("opaque__"):
                return True, call(f, args, kwargs)
            return False, None

        I.HOOKS[suffix] = hook

    @d("hook")
    def _(a, k):
        """Replace a function of the analysed source by a spec function (when it is enabled)."""
        suffix, f = a[0], a[1]

        def hook(pf, args, kwargs):
            if P.memo.get(("hook", suffix)):
                return True, call(f, args, kwargs)
            return False, None

        I.HOOKS[suffix] = hook

    @d("enable_hook")
    def _(a, k):
        P.memo[("hook", a[0])] = True

    @d("set_lookup")
    def _(a, k):
        f = a[0]
        I.LOOKUP[:] = [lambda base, key, val: call(f, [Frz(base), key, val])]

    @d("ref")
    def _(a, k):
        """A term, kept as such whatever the facts of the path; equal terms are shared."""
        t = tuple(T(x) if i else x for i, x in enumerate(a)) if len(a) > 1 else ("v", a[0])
        known = P.memo.setdefault(("refs",), [])
        memo = {}
        n = norm(t, memo)
        for r in known:
            if norm(r, memo) == n:
                return Frz(r)
        known.append(t)
        return Frz(t)

    @d("short")
    def _(a, k):
        known = P.memo.setdefault(("refs",), [])
        t = freeze(a[0])
        if t not in known:
            known.append(t)
        return (t[0] if isinstance(t[0], str) and t[0] != "v" else str(t[1])) + "#" + str(known.index(t))

    @d("kind")
    def _(a, k):
        """kind(term value, names): a choice remembered for the term."""
        t = a[0].v
        key = ("kind", t)
        if key not in P.memo:
            ns = to_list(a[1])
            i = choose(len(ns))
            P.log.append(f"kind({show(t)}) = {ns[i]}")
            P.memo[key] = ns[i]
        return P.memo[key]

    @d("typed")
    def _(a, k):
        """The symbol of a term with a builtin type."""
        return Sym(a[0].v, tys(a[1]))

    @d("attr_map")
    def _(a, k):
        return Frz(tuple(sorted((n, freeze(v)) for n, v in a[0].attrs.items() if not any(v is x for x in a[1:]))))

    @d("kind_of")
    def _(a, k):
        """Builtin type name of a value."""
        return I.class_of(a[0]).name

    @d("option")
    def _(a, k):
        return OPTIONS.get(a[0], a[1] if len(a) > 1 else None)

    @d("grammar")
    def _(a, k):
        from . import atn

        r = getattr(atn, "q_" + a[0])(*[x if isinstance(x, CONST_) else to_list(x) for x in a[1:]])
        return lift(r)

    return ns


def skip(k):
    cats = OPTIONS.get("cats")
    return k.get("cat", "main") not in cats if cats else False


CONST_ = (str, int, bool, type(None))


def lift(v):
    if isinstance(v, (list,)):
        return PList([lift(x) for x in v])
    if isinstance(v, tuple):
        return tuple(lift(x) for x in v)
    if isinstance(v, dict):
        return PDict([[lift(k), lift(x)] for k, x in v.items()])
    if isinstance(v, (set, frozenset)):
        s = PSet()
        s.items = [lift(x) for x in sorted(v)]
        return s
    return v


OPTIONS: dict = {}


def describe_exc(o):
    if o[0] == "raise":
        e = o[1]
        a = e.attrs.get("args", ())
        return f"{e.cls.name}({', '.join(describe(x) for x in a)})"
    return describe(o[1])


def exc_ctx(e):
    return e.attrs.get("_ctx", e.attrs.get("context"))


HOSTMODS["sa"] = sa_module
HOSTMODS["_sa"] = sa_module


# --------------------------------------------------------------------- loading

MODULES_TO_LOAD = [
    "wizard", "wizard.antlr4.wizardLexer", "wizard.antlr4.wizardParser", "wizard.errors", "wizard.severity",
    "wizard.manager", "wizard.value", "wizard.state", "wizard.tweaks", "wizard.expr", "wizard.functions",
    "wizard.contexts", "wizard.contexts.utils", "wizard.contexts.contexts", "wizard.contexts.keywords",
    "wizard.contexts.factory", "wizard.keywords", "wizard.runner", "wizard.utils", "wizard.utils.mappings",
    "wizard.utils.error_strategy", "wizard.interpreter", "wizard.scriptrunner",
]


def setup(specs):
    I.SRCROOT[0] = os.path.join(REPO, "src")
    pre = os.path.join(HERE, "prelude")
    for f in sorted(os.listdir(pre)):
        if f.endswith(".py"):
            with open(os.path.join(pre, f), encoding="utf-8") as fp:
                I.SOURCES[f[:-3]] = fp.read()
    sp = os.path.join(HERE, "specs")
    for f in sorted(os.listdir(sp)):
        if f.endswith(".py"):
            with open(os.path.join(sp, f), encoding="utf-8") as fp:
                I.SOURCES["spec_" + f[:-3]] = fp.read()
    reset([])
    for m in MODULES_TO_LOAD:
        load(m, optional=m not in ("wizard",))
    for s in specs:
        load("spec_" + s)
    for o in CFG.universe:
        o.frz = True
    CFG.ready = True


def load(m, optional=False):
    try:
        r = I.import_module(m)
    except PyExc as e:
        if optional and e.value.cls.name in ("ModuleNotFoundError",):
            return None
        raise Undecided(f"module {m} cannot be loaded: {describe_exc(('raise', e.value))} at {list(e.where)[-3:]}")
    return r


# ----------------------------------------------------------------- exploration


def reset(script):
    core.rollback()
    P.__init__()
    P.script = script
    P.memo = {}
    P.fnlog = []
    I.EXC.clear()


class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.cuts = 0
        self.violations = []
        self.undecided = []
        self.obligations = 0
        self.samples = []


def partition(res, func):
    """One partition of a rule; says whether it was left."""
    dead = False
    try:
        call(func, [])
        res.paths += 1
    except PathCut:
        res.cuts += 1
        dead = True
    except Violated as v:
        res.paths += 1
        res.violations.append(v.info)
    except Undecided as u:
        res.undecided.append({"message": str(u), "path": list(P.log), "calls": list(P.fnlog)[-8:]})
    except PyExc as e:
        at = e.where[-1] if e.where else None
        if at is not None and at[0] and at[0].startswith(REPO + "/"):
            # raised by the code itself, in a call the rule expects to return
            res.paths += 1
            try:
                violation("the code raises an exception where it has to go on", [describe_exc(("raise", e.value)),
                                                                                 " -> ".join(str(w[1]) for w in list(e.where)[-6:])])
            except Violated as v:
                res.violations.append(v.info)
        else:
            res.undecided.append({"message": "the rule itself raised " + describe_exc(("raise", e.value)),
                              "path": list(P.log), "calls": [(f, q) for f, q, *_ in e.where][-8:]})
    except (RecursionError, AttributeError, TypeError, KeyError, ValueError, IndexError) as e:
        if os.environ.get("SA_DEBUG"):
            raise
        res.undecided.append({"message": f"analyser error {type(e).__name__}: {e}", "path": list(P.log),
                              "calls": list(P.fnlog)[-8:]})
    return dead


def explore(name, func, maxpaths=None, maxtime=None, stop_after=3):
    """Depth-first enumeration of the trace partitions of one rule."""
    res = Result(name)
    script = []
    ob0 = STATS.obligations
    t0 = time.time()
    limit = maxpaths or CFG.MAXPATHS
    while True:
        reset(list(script))
        dead = partition(res, func)
        if not dead and len(res.samples) < 3:
            res.samples.append(" & ".join(P.log[:24]) or "(single partition)")
        STATS.steps += P.steps
        ds = P.decisions
        while ds and ds[-1][0] + 1 >= ds[-1][1]:
            ds.pop()
        if not ds:
            break
        script = [c for c, _ in ds[:-1]] + [ds[-1][0] + 1]
        if len(res.violations) >= stop_after or len(res.undecided) >= 5:
            break
        if res.paths + res.cuts >= limit:
            res.undecided.append({"message": f"more than {limit} partitions", "path": [], "calls": []})
            break
        if maxtime and time.time() - t0 > maxtime:
            res.undecided.append({"message": f"more than {maxtime}s", "path": [], "calls": []})
            break
    reset([])
    res.obligations = STATS.obligations - ob0
    return res


def sample(name, func, n, seed, maxtime, maxpaths=2000):
    """Partitions with sequences longer than a number the code compares lengths with.

    They are too many to enumerate: choices are drawn, mostly the same one at
    similar points. What is reported is a violation of the rule like any other;
    finding none decides nothing.
    """
    import random

    res = Result(name)
    rng = random.Random(seed)
    t0 = time.time()
    CFG.LONG = (n, rng, CFG.K)
    try:
        while not res.violations and res.paths + res.cuts + len(res.undecided) < maxpaths and time.time() - t0 < maxtime:
            reset([])
            P.stick = rng.choice((1.0, 1.0, 0.97, 0.8))
            P.switch = {rng.randrange(2, 16) for _ in range(rng.randrange(4))} | {rng.randrange(n, n + 16) for _ in range(rng.randrange(2))}
            P.longat = rng.choice((1, 1, 1, 2, 2, 3, 4))
            partition(res, func)
    finally:
        CFG.LONG = None
        reset([])
    for v in res.violations:
        if len(v["path"]) > 40:
            v["path"] = v["path"][:20] + ["..."] + v["path"][-20:]
        v["trace"] = v["trace"][-10:]
    return res
