"""Abstract interpreter for the Python subset of the analysed package (and more)."""
from __future__ import annotations

import ast
import operator
import os

from . import core
from .core import *  # noqa: F401,F403
from .core import CFG, P, STATS
from .facts import *  # noqa: F401,F403
from .facts import choose, sampled_length, cmp_int, decide, is_int_sym, kterm, lin, lin_add, lin_scale, neg, restrict, tyset, typeof

CONST = (int, str, bool, float, bytes, type(None), complex)

BUILTINS: dict = {}
BT: dict = {}  # builtin classes by name
MODULES: dict = {}
HOOKS: dict = {}  # function qualname suffix -> host hook


def bclass(name, *bases):
    c = PClass(name, [BT[b] for b in bases] if bases else ([BT["object"]] if name != "object" else []), {}, builtin=True)
    BT[name] = c
    BUILTINS[name] = c
    return c


for _n in ["object"]:
    bclass(_n)
for _n in ["int", "float", "complex", "str", "bytes", "list", "tuple", "dict", "set", "frozenset", "NoneType",
           "function", "type", "range", "slice", "module", "generator", "property", "staticmethod", "classmethod",
           "super", "BaseException", "enumerate", "zip", "map", "filter", "reversed", "ellipsis", "NotImplementedType",
           "typing", "UnionType", "Enum", "bytearray"]:
    bclass(_n)
bclass("bool", "int")
for _l in """Exception:BaseException KeyboardInterrupt:BaseException SystemExit:BaseException GeneratorExit:BaseException
ArithmeticError:Exception ZeroDivisionError:ArithmeticError OverflowError:ArithmeticError
FloatingPointError:ArithmeticError AssertionError:Exception AttributeError:Exception
EOFError:Exception ImportError:Exception ModuleNotFoundError:ImportError LookupError:Exception IndexError:LookupError
KeyError:LookupError MemoryError:Exception NameError:Exception UnboundLocalError:NameError OSError:Exception
FileNotFoundError:OSError PermissionError:OSError RuntimeError:Exception NotImplementedError:RuntimeError
RecursionError:RuntimeError StopIteration:Exception TypeError:Exception ValueError:Exception
UnicodeError:ValueError UnicodeDecodeError:UnicodeError UnicodeEncodeError:UnicodeError
Warning:Exception UserWarning:Warning DeprecationWarning:Warning RuntimeWarning:Warning""".split():
    _a, _b = _l.split(":")
    bclass(_a, _b)
BUILTINS["IOError"] = BT["OSError"]
del BUILTINS["NoneType"], BUILTINS["Enum"], BUILTINS["function"], BUILTINS["module"]


def raise_py(name, *args):
    e = Inst(BT[name])
    e.attrs["args"] = tuple(args)
    raise PyExc(e, tuple(P.stack))


# ---------------------------------------------------------------------- types


def class_of(v):
    """The class of a value (forks for symbols of several types)."""
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, Sym):
        return BT[typeof(v)]
    if isinstance(v, Fin):
        v = fin_pick(v)
    return class_of_nosym(v)


def class_of_nosym(v):
    if v is None:
        return BT["NoneType"]
    if isinstance(v, CONST):
        return BT[type(v).__name__]
    if isinstance(v, tuple):
        return BT["tuple"]
    if isinstance(v, PList):
        return BT["list"]
    if isinstance(v, PDict):
        return BT["dict"]
    if isinstance(v, PSet):
        return BT["frozenset" if v.immutable else "set"]
    if isinstance(v, PClass):
        return BT["type"]
    if isinstance(v, (PFunc, PBuiltin, PBound, PPartial)):
        return BT["function"]
    if isinstance(v, PRange):
        return BT["range"]
    if isinstance(v, PSlice):
        return BT["slice"]
    if isinstance(v, PModule):
        return BT["module"]
    if isinstance(v, PIter):
        return BT["generator"]
    if isinstance(v, PProp):
        return BT["property"]
    if isinstance(v, PStatic):
        return BT["staticmethod"]
    if isinstance(v, PClassM):
        return BT["classmethod"]
    if isinstance(v, Inert):
        return BT["typing"]
    if isinstance(v, PUnion):
        return BT["UnionType"]
    if v is NOTIMPL:
        return BT["NotImplementedType"]
    if v is Ellipsis:
        return BT["ellipsis"]
    if isinstance(v, (Ext, Frz, PSuper)):
        return BT["object"]
    raise Undecided(f"class of {v!r}")


ABCS = {
    "Iterable": ("list", "tuple", "dict", "set", "frozenset", "str", "bytes", "range", "generator"),
    "Iterator": ("generator",),
    "Collection": ("list", "tuple", "dict", "set", "frozenset", "str", "bytes", "range"),
    "Container": ("list", "tuple", "dict", "set", "frozenset", "str", "bytes", "range"),
    "Sized": ("list", "tuple", "dict", "set", "frozenset", "str", "bytes", "range"),
    "Sequence": ("list", "tuple", "str", "bytes", "range"),
    "MutableSequence": ("list",),
    "Mapping": ("dict",),
    "MutableMapping": ("dict",),
    "Set": ("set", "frozenset"),
    "MutableSet": ("set",),
    "Callable": ("function", "type"),
    "Hashable": ("int", "str", "float", "bool", "bytes", "tuple", "NoneType", "function", "type"),
    "Number": ("int", "float", "bool", "complex"),
    "Real": ("int", "float", "bool"),
    "Integral": ("int", "bool"),
}


def subclass(c, k):
    """issubclass(c, k)."""
    if isinstance(k, tuple):
        return any(subclass(c, x) for x in k)
    if isinstance(k, PUnion):
        return any(subclass(c, x) for x in k.types)
    if k is None:
        return c is BT["NoneType"]
    if isinstance(k, Inert):
        if k.name in ABCS:
            names = ABCS[k.name]
            return any(m.builtin and m.name in names for m in c.mro) or any(
                ("abc:" + k.name) in m.ns for m in c.mro
            )
        if k.name == "Any":
            return True
        raise_py("TypeError", "issubclass() with typing construct")
    if isinstance(k, Ext):
        return any(m.ns.get("__ext__") == k.name for m in c.mro)
    if not isinstance(k, PClass):
        raise_py("TypeError", "isinstance() arg 2 must be a type, a tuple of types, or a union")
    if k in c.mro:
        return True
    if "__abc_accepts__" in k.ns:
        return any(m.builtin and m.name in k.ns["__abc_accepts__"] for m in c.mro)
    return False


BASIC = ("int", "float", "str", "bool", "bytes", "complex", "list", "tuple", "dict", "set", "NoneType", "function")


def isinst(v, k):
    if isinstance(v, PSuper):
        v = v.obj
    if isinstance(v, Sym):
        s = tyset(v)
        if s is None:
            names = [n for n in BASIC if subclass(BT[n], k)]
            if subclass(BT["object"], k):
                return True
            nm = k
            return decide(("isinst", v.t, tuple(names), clsname(nm)))
        names = [n for n in s if subclass(BT[n], k)]
        return restrict(v, names)
    if subclass(class_of(v), k):
        return True
    return isinstance(v, Inst) and v.cls.lookup("opaque__") is not None and node_form(v, k)


def node_form(v, k):
    """An opaque expression may be of any form of expressions: one partition per form the code asks for."""
    base = v.cls.mro[1]
    key = ("node form", id(v))
    if key not in P.memo:
        n = P.memo["forms asked"] = P.memo.get("forms asked", 0) + 1
        P.memo[key] = [v, None, set(), n]
    forms = P.memo[key]
    for c in k if isinstance(k, tuple) else (k,):
        if not isinstance(c, PClass) or c is base or not subclass(c, base):
            continue
        if forms[1] is not None:
            if subclass(forms[1], c):
                return True
        elif c not in forms[2]:
            if decide(("form", v.attrs.get("label__"), forms[3], c.qualname)):
                forms[1] = c
                return True
            forms[2].add(c)
    return False


OPAQUE_ATTRS = ("getText", "accept", "exception", "start", "stop", "parentCtx", "label__", "kinds__", "value__", "sets__", "__class__", "__dict__")


def clsname(k):
    if isinstance(k, tuple):
        return "|".join(clsname(x) for x in k)
    if isinstance(k, PUnion):
        return clsname(tuple(k.types))
    return getattr(k, "qualname", None) or repr(k)


# ---------------------------------------------------------------------- terms


def T(v):
    """The term denoting a value inside other terms."""
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, CONST):
        return kterm(v)
    if isinstance(v, Fin):
        return T(fin_pick(v))
    return freeze(v)


def ident(o):
    k = id(o)
    if k not in P.idn:
        P.idn[k] = len(P.idn)
        P.keep.append(o)
    return P.idn[k]


CONDHEADS = frozenset(("eq", "lt", "flt", "fle", "ile", "ieq", "truthy", "startswith", "endswith", "has", "in", "not"))


def subst_t(t, memo=None):
    if not isinstance(t, tuple):
        return t
    if memo is None:
        memo = {}
    r = memo.get(id(t))
    if r is None:
        r = memo[id(t)] = subst_tuple(t, memo)
    return r


def subst_tuple(t, memo):
    if P.subst and t in P.subst:
        return kterm(P.subst[t])
    if P.facts and t and isinstance(t[0], str) and t[0] in CONDHEADS:
        try:
            from .facts import known

            k = known(t)
        except Exception:
            k = None
        if k is not None:
            return kterm(k)
    parts = [subst_t(x, memo) if isinstance(x, tuple) else x for x in t]
    for x, y in zip(parts, t):
        if x is not y:
            return tuple(parts)
    return t


def freeze(v, seen=None):
    if isinstance(v, Fin):
        v = fin_pick(v)
    if isinstance(v, bool):
        return ("k", v, "bool")
    if isinstance(v, CONST):
        return kterm(v)
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, Frz):
        return v.v
    if isinstance(v, PClass):
        return ("class", v.qualname)
    if isinstance(v, PModule):
        return ("module", v.name)
    if isinstance(v, PBuiltin):
        return ("builtin", v.name)
    if isinstance(v, Ext):
        return ("ext", v.name)
    if isinstance(v, Inert):
        return ("typing", v.name)
    if v is NOTIMPL or v is Ellipsis:
        return (repr(v),)
    if seen is None:
        seen = {}
    if isinstance(v, tuple):
        return ("tuple",) + tuple(freeze(x, seen) for x in v)
    if isinstance(v, PFunc):
        return ("func", v.qualname, ident(v) if v.env is not None and v.env.parent is not None else 0)
    if isinstance(v, PBound):
        return ("bound", freeze(v.fn, seen), freeze(v.self, seen))
    if isinstance(v, PPartial):
        return ("partial", freeze(v.fn, seen), freeze(v.args, seen), freeze(v.kwargs, seen))
    if isinstance(v, (PUnion,)):
        return ("union",) + tuple(freeze(x) for x in v.types)
    if isinstance(v, PRange):
        return ("range", T(v.a), T(v.b), T(v.c))
    if isinstance(v, PSlice):
        return ("slice", freeze(v.a), freeze(v.b), freeze(v.c))
    if isinstance(v, PIter):
        return ("iter", ident(v))
    if isinstance(v, (PProp, PStatic, PClassM, PSuper)):
        return (type(v).__name__, ident(v))
    if id(v) in seen:
        return ("ref", seen[id(v)])
    if isinstance(v, Inst):
        if v.cls.members is not None:
            return ("enum", v.cls.name, v.attrs.get("_name_"))
        if v.cls.lookup("__identity__") is not None:
            lb = v.attrs.get("label__")
            return ("node", v.cls.name, lb if isinstance(lb, str) else ident(v))
    seen[id(v)] = len(seen)
    try:
        if isinstance(v, Inst):
            return ("obj", v.cls.qualname, tuple(sorted(((k, freeze(x, seen)) for k, x in v.attrs.items()), key=lambda x: x[0])),
                    None if v.payload is None else freeze(v.payload, seen))
        if isinstance(v, PList):
            return ("list", v.base, tuple(freeze(x, seen) for x in v.items))
        if isinstance(v, PDict):
            return ("dict", v.base, tuple(sorted(((freeze(a, seen), freeze(b, seen)) for a, b in v.items), key=repr)))
        if isinstance(v, PSet):
            return ("set", v.base, tuple(sorted((freeze(x, seen) for x in v.items), key=repr)))
        if isinstance(v, Env):
            return ("env", ident(v))
    finally:
        del seen[id(v)]
    raise Undecided(f"freeze {type(v)}")


def norm(t, memo=None):
    """A term under the facts of the path."""
    return resort(subst_t(t, memo), None if memo is None else memo.setdefault("resort", {}))


def resort(t, memo=None):
    if isinstance(t, tuple) and P.subst:
        if memo is None:
            memo = {}
        r = memo.get(id(t))
        if r is not None:
            return r[1]
        if len(t) == 3 and t[0] in ("dict", "set") and isinstance(t[2], tuple):
            r = (t[0], t[1], tuple(sorted((resort(x, memo) for x in t[2]), key=repr)))
        else:
            r = tuple(resort(x, memo) for x in t)
        memo[id(t)] = (t, r)
        return r
    return t


def resolve(v):
    if isinstance(v, Sym) and v.t in P.subst:
        return P.subst[v.t]
    if isinstance(v, Fin):
        return fin_pick(v)
    return v


# a choice among constants, decided no further than the code looks at it


def fin_values(v):
    out = []
    for x in P.memo[v.key]:
        y = v.table[x]
        if not any(y is z or type(y) is type(z) and y == z for z in out):
            out.append(y)
    return out


def fin_pick(v):
    vals = fin_values(v)
    y = vals[choose(len(vals))]
    if len(vals) > 1:
        P.memo[v.key] = tuple(x for x in P.memo[v.key] if type(v.table[x]) is type(y) and v.table[x] == y)
        P.log.append(f"{v.key[1]} in {list(P.memo[v.key])[:12]}")
    return y


def fin_op(f, a, b=None):
    """A host operation on a choice and constants, None when it is not that."""
    x = a if isinstance(a, Fin) else b
    if not all(isinstance(y, CONST) or isinstance(y, Fin) and y.key == x.key for y in (a, b)):
        return None
    try:
        return Fin(x.key, {d: f(*[y.table[d] if isinstance(y, Fin) else y for y in (a, b)]) for d in P.memo[x.key]})
    except Exception:
        return None


HOST_BIN = {"+": operator.add, "-": operator.sub, "*": operator.mul, "|": operator.or_, "&": operator.and_, "^": operator.xor, "<<": operator.lshift,
            ">>": operator.rshift, "//": operator.floordiv, "%": operator.mod, "==": operator.eq, "!=": operator.ne, "<": operator.lt,
            "<=": operator.le, ">": operator.gt, ">=": operator.ge}


def fresh(kind, ty=None):
    P.fresh += 1
    return Sym((kind, P.fresh), ty)


# ----------------------------------------------------------------- truth, eq


def cond_value(t):
    """A boolean value for a condition term."""
    if isinstance(t, bool):
        return t
    from .facts import known

    k = known(t)
    if k is not None:
        return k
    return Sym(t, "bool")


def truth_cond(v):
    """bool, or a condition term, for the truth of a value."""
    v = resolve(v)
    if isinstance(v, Sym):
        s = tyset(v)
        if s is not None and len(s) > 1:
            typeof(v)
            s = tyset(v)
        if s is None:
            return ("truthy", v.t)
        n = next(iter(s))
        if n == "bool":
            t = v.t
            if t[0] in CONDS:
                return t
            return ("truthy", t)
        if n == "int":
            return neg(cmp_int("==", v, 0))
        if n == "float":
            return ("not", ("eq", *sorted([v.t, kterm(0.0)], key=repr)))
        if n == "str":
            return str_truth(v.t)
        if n in ("bytes", "list", "tuple", "dict", "set"):
            return ("truthy", v.t)
        return True
    if isinstance(v, CONST):
        return bool(v)
    if isinstance(v, tuple):
        return len(v) > 0
    if isinstance(v, PList):
        if v.items:
            return True
        return ("truthy", v.base) if v.base is not None else False
    if isinstance(v, PDict):
        if v.items:
            return True
        return ("truthy", v.base) if v.base is not None else False
    if isinstance(v, PSet):
        if v.items:
            return True
        return ("truthy", v.base) if v.base is not None else False
    if isinstance(v, PRange):
        return truth_cond(length(v))
    if isinstance(v, Inst):
        f = v.cls.lookup("__bool__")
        if f is not None:
            return truth_cond(call(bind(f, v), []))
        f = v.cls.lookup("__len__")
        if f is not None:
            return truth_cond(call(bind(f, v), []))
        if v.payload is not None:
            return truth_cond(v.payload)
        return True
    return True


CONDS = ("eq", "lt", "flt", "fle", "ile", "ieq", "not", "truthy", "startswith", "endswith", "has", "in", "isinst", "cond",
         "isin", "pred")


def str_truth(t):
    if t[0] == "call" and t[1] in ("strip", "lstrip", "rstrip") and len(t) == 3:
        # stripping whitespace: empty for the empty string and for whitespace alone, whichever the side
        return ("truthy", ("call", "strip", t[2])) if t[2][0] == "k" or decide(("truthy", t[2])) else False
    return ("truthy", t)


def truth(v):
    if isinstance(v, Fin):
        v = fin_op(lambda x, _: bool(x), v)
    t = truth_cond(v)
    return t if isinstance(t, bool) else decide(t)


def numeric(n):
    return n in ("int", "float", "bool")


def eq(a, b):
    """Condition (bool or term-valued Sym) for a == b."""
    a, b = resolve(a), resolve(b)
    if isinstance(a, CONST) and isinstance(b, CONST):
        return a == b
    if isinstance(a, Inst) or isinstance(b, Inst):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Inst):
                f = x.cls.lookup("__eq__")
                if f is not None:
                    r = call(bind(f, x), [y])
                    if r is not NOTIMPL:
                        return r
                elif x.payload is not None:
                    py = y.payload if isinstance(y, Inst) and y.payload is not None else y
                    if not isinstance(py, Inst):
                        return eq(x.payload, py)
        return a is b
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, Sym) and isinstance(b, Sym) and a.t == b.t:
            if tyset(a) is None or not (tyset(a) & {"float"}):
                return True
        if not isinstance(a, (Sym,) + CONST) or not isinstance(b, (Sym,) + CONST):
            x, s = (a, b) if isinstance(b, Sym) else (b, a)
            ts = tyset(s)
            if ts is not None and class_of_nosym(x).name not in ts:
                return False
            return cond_value(("eq", *sorted([T(a), T(b)], key=repr)))
        ta = tyset(a) if isinstance(a, Sym) else frozenset([class_of(a).name])
        tb = tyset(b) if isinstance(b, Sym) else frozenset([class_of(b).name])
        if ta is not None and tb is not None:
            if not (ta & tb) and not (any(map(numeric, ta)) and any(map(numeric, tb))):
                return False
            if len(ta) > 1:
                typeof(a)
                return eq(a, b)
            if len(tb) > 1:
                typeof(b)
                return eq(a, b)
            if lin(a) is not None and lin(b) is not None:
                return cond_value(cmp_int("==", a, b))
            for x, y, tx in ((a, b, ta), (b, a, tb)):
                if tx == frozenset(["bool"]) and isinstance(x, Sym) and isinstance(y, int) and not isinstance(y, bool):
                    return eq(x, bool(y)) if y in (0, 1) else False
            if ta == tb == frozenset(["bool"]) and (isinstance(a, bool) or isinstance(b, bool)):
                k, s = (a, b) if isinstance(a, bool) else (b, a)
                t = s.t if s.t[0] in CONDS else ("truthy", s.t)
                return cond_value(t if k else neg(t))
            if ta == tb == frozenset(["str"]):
                for x, y in ((a, b), (b, a)):
                    if y == "" and isinstance(x, Sym):
                        return cond_value(neg(str_truth(x.t)))
                    if isinstance(y, str) and isinstance(x, Sym) and x.t[0] == "slice" and x.t[2:] == (
                        kterm(None), kterm(len(y)), kterm(None)):
                        return cond_value(("startswith", x.t[1], kterm(y)))
                r = str_parts_eq(a, b)
                if r is not None:
                    return r
        return cond_value(("eq", *sorted([T(a), T(b)], key=repr)))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return all_eq(zip(a, b))
    if isinstance(a, PList) and isinstance(b, PList):
        if a.base != b.base:
            return cond_value(("eq", *sorted([T(a), T(b)], key=repr)))
        if len(a.items) != len(b.items):
            return False
        return all_eq(zip(a.items, b.items))
    if isinstance(a, PDict) and isinstance(b, PDict):
        if a is b:
            return True
        if a.base != b.base:
            return cond_value(("eq", *sorted([T(a), T(b)], key=repr)))
        if len(a.items) != len(b.items):
            return False
        for k, v in a.items:
            r = dict_find(b, k)
            if r is None or not truth(eq(v, r[1])):
                return False
        return True
    if isinstance(a, PSet) and isinstance(b, PSet):
        if a.base != b.base:
            return cond_value(("eq", *sorted([T(a), T(b)], key=repr)))
        return len(a.items) == len(b.items) and all(set_has(b, x) for x in a.items)
    if isinstance(a, PRange) and isinstance(b, PRange):
        return all_eq([(a.a, b.a), (a.b, b.b), (a.c, b.c)])
    if isinstance(a, PBound) and isinstance(b, PBound):
        return a.fn is b.fn and a.self is b.self
    if isinstance(a, Frz) and isinstance(b, Frz):
        return norm(a.v) == norm(b.v)
    if isinstance(a, (Ext, Frz)) and isinstance(b, (Ext, Frz)):
        return a == b
    return a is b


def str_parts_eq(a, b):
    """Equality of strings with known first or last characters; None if nothing can be said."""
    if not any(isinstance(x, Sym) and x.t[0] == "cat" for x in (a, b)):
        return None
    pa, pb = cat_parts(a), cat_parts(b)
    changed = False
    for end in (0, -1):
        while pa and pb:
            x, y = pa[end], pb[end]
            if x == y:
                del pa[end], pb[end]
                changed = True
                continue
            if x[0] != "k" or y[0] != "k":
                break
            n = min(len(x[1]), len(y[1]))
            u, v = (x[1][:n], y[1][:n]) if end == 0 else (x[1][-n:], y[1][-n:])
            if u != v:
                return False
            changed = True
            pa[end] = kterm(x[1][n:] if end == 0 else x[1][:-n])
            pb[end] = kterm(y[1][n:] if end == 0 else y[1][:-n])
            for ps in (pa, pb):
                if ps[end][1] == "":
                    del ps[end]
    if not changed:
        return None
    for x, y in ((pa, pb), (pb, pa)):
        if not x and any(t[0] == "k" and t[1] for t in y):
            return False
    return eq(concat([Sym(t, "str") if t[0] != "k" else t[1] for t in pa]), concat([Sym(t, "str") if t[0] != "k" else t[1] for t in pb]))


def cat_parts(x):
    if isinstance(x, str):
        return [kterm(x)] if x else []
    return list(x.t[1:]) if x.t[0] == "cat" else [x.t]


def lacks(x, c):
    """Is the character known not to occur in the string?"""
    from .facts import known

    for t in cat_parts(resolve(x)) if isinstance(resolve(x), (str, Sym)) else [None]:
        if t is None:
            return False
        if t[0] == "k":
            if c in t[1]:
                return False
        elif t in P.subst:
            if c in P.subst[t]:
                return False
        elif known(("in", kterm(c), t)) is not False:
            return False
    return True


def all_eq(pairs):
    for x, y in pairs:
        if x is y and not isinstance(x, Sym):
            continue
        if not truth(eq(x, y)):
            return False
    return True


def is_(a, b):
    a, b = resolve(a), resolve(b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and (y is None or isinstance(y, (bool, PClass, Inst, PList, PDict))):
                s = tyset(x)
                if y is None:
                    if s is None:
                        return cond_value(("isinst", x.t, ("NoneType",), "NoneType"))
                    return restrict(x, ["NoneType"])
                if isinstance(y, bool):
                    if s is None:
                        return cond_value(("eq", *sorted([x.t, kterm(y)], key=repr)))
                    if not restrict(x, ["bool"]):
                        return False
                    return eq(x, y)
                return False
        return isinstance(a, Sym) and isinstance(b, Sym) and a.t == b.t
    if isinstance(a, CONST) and isinstance(b, CONST):
        return type(a) is type(b) and a == b
    if isinstance(a, (Ext, Inert)) and isinstance(b, (Ext, Inert)):
        return repr(a) == repr(b)
    if isinstance(a, PBound) or isinstance(b, PBound):
        return False
    return a is b


CMPNAME = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}
REFL = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}


def compare(op, a, b):
    if isinstance(a, Fin) or isinstance(b, Fin):
        r = None
        if op in HOST_BIN:
            r = fin_op(HOST_BIN[op], a, b)
        elif op in ("in", "not in") and isinstance(a, Fin):
            c = resolve(b)
            xs = c if isinstance(c, tuple) else c.items if isinstance(c, (PList, PSet)) and c.base is None else None
            if xs is not None and all(isinstance(x, CONST) for x in xs):
                xs = list(xs)
                r = fin_op(lambda x, _: (x in xs) == (op == "in"), a)
        if r is not None:
            return r
    a, b = resolve(a), resolve(b)
    if op == "==":
        return eq(a, b)
    if op == "!=":
        if isinstance(a, Inst):
            f = a.cls.lookup("__ne__")
            if f is not None:
                r = call(bind(f, a), [b])
                if r is not NOTIMPL:
                    return r
        if isinstance(b, Inst) and not isinstance(a, Inst):
            f = b.cls.lookup("__ne__")
            if f is not None:
                r = call(bind(f, b), [a])
                if r is not NOTIMPL:
                    return r
        return not_(eq(a, b))
    if op == "is":
        return is_(a, b)
    if op == "is not":
        return not_(is_(a, b))
    if op == "in":
        return contains(b, a)
    if op == "not in":
        return not_(contains(b, a))
    if isinstance(a, Inst) or isinstance(b, Inst):
        for x, y, o in ((a, b, op), (b, a, REFL[op])):
            if isinstance(x, Inst):
                f = x.cls.lookup(CMPNAME[o])
                if f is not None:
                    r = call(bind(f, x), [y])
                    if r is not NOTIMPL:
                        return r
        pa = a.payload if isinstance(a, Inst) else a
        pb = b.payload if isinstance(b, Inst) else b
        if isinstance(a, Inst) and pa is None or isinstance(b, Inst) and pb is None:
            raise_py("TypeError", f"'{op}' not supported between instances")
        return compare(op, pa, pb)
    if isinstance(a, CONST) and isinstance(b, CONST):
        try:
            return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()
        except TypeError as e:
            raise_py("TypeError", str(e))
    if op in (">", ">="):
        return compare(REFL[op], b, a)
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, (Sym,) + CONST) and isinstance(b, (Sym,) + CONST):
            na = typeof(a) if isinstance(a, Sym) and tyset(a) is not None else (class_of(a).name if not isinstance(a, Sym) else None)
            nb = typeof(b) if isinstance(b, Sym) and tyset(b) is not None else (class_of(b).name if not isinstance(b, Sym) else None)
            if na is not None and nb is not None:
                if not (numeric(na) and numeric(nb)) and not (na == nb and na in ("str", "bytes")):
                    raise_py("TypeError", f"'{op}' not supported between instances of {na} and {nb}")
                # a boolean is 0 or 1 next to an integer
                if na == "bool" and isinstance(a, Sym) and lin(b) is not None:
                    return compare(op, 1 if truth(a) else 0, b)
                if nb == "bool" and isinstance(b, Sym) and lin(a) is not None:
                    return compare(op, a, 1 if truth(b) else 0)
                if lin(a) is not None and lin(b) is not None:
                    return cond_value(cmp_int(op, a, b))
                if na == nb == "str" and T(a) == T(b):
                    return op == "<="
                if "float" not in (na, nb) or (na == nb == "str"):
                    # total orders: a <= b  <=>  not (b < a)
                    if op == "<=":
                        return cond_value(("not", ("lt", T(b), T(a))))
                    return cond_value(("lt", T(a), T(b)))
            return cond_value(("flt" if op == "<" else "fle", T(a), T(b)))
        raise_py("TypeError", f"'{op}' not supported")
    if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, PList) and isinstance(b, PList):
        xs = list(a) if isinstance(a, tuple) else a.items
        ys = list(b) if isinstance(b, tuple) else b.items
        for x, y in zip(xs, ys):
            if not truth(eq(x, y)):
                return compare(op, x, y)
        return {"<": len(xs) < len(ys), "<=": len(xs) <= len(ys)}[op]
    if isinstance(a, PSet) and isinstance(b, PSet):
        sub = all(set_has(b, x) for x in a.items)
        return sub and (op == "<=" or len(a.items) < len(b.items))
    raise_py("TypeError", f"'{op}' not supported between instances of '{class_of(a).name}' and '{class_of(b).name}'")


def not_(v):
    if isinstance(v, Fin):
        return fin_op(lambda x, _: not x, v)
    v = resolve(v)
    if isinstance(v, bool):
        return not v
    if isinstance(v, Sym) and tyset(v) == frozenset(["bool"]):
        t = v.t if v.t[0] in CONDS else ("truthy", v.t)
        return cond_value(neg(t))
    return not truth(v)


def contains(c, x):
    c, x = resolve(c), resolve(x)
    if isinstance(c, Inst):
        f = c.cls.lookup("__contains__")
        if f is not None:
            r = call(bind(f, c), [x])
            return r if isinstance(r, (bool, Sym)) else truth(r)
        if c.payload is not None:
            return contains(c.payload, x)
        f = c.cls.lookup("__iter__")
        if f is None:
            raise_py("TypeError", f"argument of type '{c.cls.name}' is not iterable")
    if isinstance(c, PDict):
        return dict_find(c, x) is not None
    if isinstance(c, PSet):
        return set_has(c, x)
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, (str, Sym)) and (isinstance(c, str) or tyset(c) == frozenset(["str"])):
        return cond_value(("in", T(x), T(c)))
    if isinstance(c, Sym):
        return cond_value(("in", T(x), c.t))
    if isinstance(c, PRange):
        if lin(x) is None:
            return False
        if truth(compare(">", c.c, 0)):
            if not truth(compare("<=", c.a, x)) or not truth(compare("<", x, c.b)):
                return False
        elif not truth(compare(">=", c.a, x)) or not truth(compare(">", x, c.b)):
            return False
        if c.c in (1, -1):
            return True
        return cond_value(("pred", "stride", T(c), T(x)))
    for y in iterate(c):
        if y is x and not isinstance(x, Sym):
            return True
        if truth(eq(y, x)):
            return True
    return False


# -------------------------------------------------------------- dict and sets


def hashable(v):
    v = resolve(v)
    if isinstance(v, (PList, PDict)) or isinstance(v, PSet) and not v.immutable:
        raise_py("TypeError", f"unhashable type: '{class_of(v).name}'")
    if isinstance(v, Inst):
        if v.payload is not None and isinstance(v.payload, (PList, PDict)) and v.cls.lookup("__hash__") is None:
            raise_py("TypeError", f"unhashable type: '{v.cls.name}'")
        for c in v.cls.mro:
            if "__hash__" in c.ns:
                if c.ns["__hash__"] is None:
                    raise_py("TypeError", f"unhashable type: '{v.cls.name}'")
                break
            if "__eq__" in c.ns and not c.builtin:
                raise_py("TypeError", f"unhashable type: '{v.cls.name}'")
    if isinstance(v, tuple):
        for x in v:
            hashable(x)


def hash_src(v):
    """The value whose builtin hash is the hash of v."""
    v = resolve(v)
    if isinstance(v, Inst):
        f = v.cls.lookup("__hash__")
        if f is not None and isinstance(f, PFunc):
            h = call(bind(f, v), [])
            if isinstance(h, Sym) and h.t[0] == "hash":
                return ("h", h.t[1])
            return ("h", T(h))
        return ("id", ident(v))
    if isinstance(v, Sym):
        return ("h", v.t)
    if isinstance(v, CONST):
        return ("h", kterm(v))
    if isinstance(v, tuple):
        return ("t", tuple(hash_src(x) for x in v))
    return ("id", ident(v))


def same_hash(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "id":
        return a == b
    if a[0] == "t":
        return len(a[1]) == len(b[1]) and all(same_hash(x, y) for x, y in zip(a[1], b[1]))
    x, y = subst_t(a[1]), subst_t(b[1])
    if x == y:
        return True
    if x[0] == "k" and y[0] == "k":
        return x[1] == y[1]
    return decide(("eq", *sorted([x, y], key=repr)))


def key_match(a, b):
    a, b = resolve(a), resolve(b)
    if a is b and not isinstance(a, float):
        return True
    if isinstance(a, CONST) and isinstance(b, CONST):
        return a == b
    if isinstance(a, Inst) or isinstance(b, Inst):
        if isinstance(a, Inst) and a.cls.members is not None or isinstance(b, Inst) and b.cls.members is not None:
            if a is not b and not (isinstance(a, Inst) and isinstance(b, Inst) and a.cls is not b.cls):
                if not (isinstance(a, Inst) and a.payload is not None or isinstance(b, Inst) and b.payload is not None):
                    return False
        if not same_hash(hash_src(a), hash_src(b)):
            return False
    return truth(eq(a, b))


def dict_find(d, k):
    hashable(k)
    for it in d.items:
        if key_match(it[0], k):
            return it
    if d.base is not None:
        t = ("has", d.base, T(k))
        if decide(t):
            val = Sym(("lookup", d.base, T(k)), None)
            v = LOOKUP[0](d.base, k, Frz(val.t)) if LOOKUP else val
            return [k, v]
    return None


LOOKUP: list = []


def dict_set(d, k, v):
    touch(d)
    hashable(k)
    if isinstance(d, PInstDict):
        touch(d.owner)
        d.owner.attrs[k] = v
        return
    for it in d.items:
        if key_match(it[0], k):
            it[1] = v
            return
    d.items.append([k, v])


def dict_del(d, k):
    touch(d)
    if isinstance(d, PInstDict):
        touch(d.owner)
        if k not in d.owner.attrs:
            raise_py("KeyError", k)
        del d.owner.attrs[k]
        return
    for i, it in enumerate(d.items):
        if key_match(it[0], k):
            del d.items[i]
            if d.base is not None:
                d.base = ("without", d.base, T(k))
            return
    if d.base is not None and decide(("has", d.base, T(k))):
        d.base = ("without", d.base, T(k))
        return
    raise_py("KeyError", k)


def dict_keys(d):
    if d.base is not None:
        return seq_of(("keys", d.base), None) + [k for k, _ in d.items]
    return [k for k, _ in d.items]


def dict_update(d, o):
    touch(d)
    o = resolve(o)
    if isinstance(o, Inst) and o.payload is not None:
        o = o.payload
    if isinstance(o, PView):
        o = o.src
    if isinstance(o, PDict):
        if o.base is not None:
            if d.base is None and not d.items:
                d.base = o.base
            else:
                d.base = ("merge", T(d), o.base)
                d.items = []
        for k, v in list(o.items):
            dict_set(d, k, v)
        return
    if isinstance(o, Inst) and o.cls.lookup("keys") is not None:
        for k in list(iterate(call(getattr_(o, "keys"), []))):
            dict_set(d, k, subscript(o, k))
        return
    for kv in iterate(o):
        k, v = list(iterate(kv))
        dict_set(d, k, v)


def set_has(s, x):
    hashable(x)
    for y in s.items:
        if key_match(y, x):
            return True
    if s.base is not None:
        return decide(("has", s.base, T(x)))
    return False


def set_add(s, x):
    touch(s)
    if not set_has_items(s, x):
        s.items.append(x)


def set_has_items(s, x):
    hashable(x)
    return any(key_match(y, x) for y in s.items)


def set_remove(s, x, strict):
    touch(s)
    for i, y in enumerate(s.items):
        if key_match(y, x):
            del s.items[i]
            if s.base is not None:
                s.base = ("without", s.base, T(x))
            return
    if s.base is not None and decide(("has", s.base, T(x))):
        s.base = ("without", s.base, T(x))
        return
    if strict:
        raise_py("KeyError", x)


# ------------------------------------------------------------------ sequences


def lens():
    """Lengths considered for a sequence of unbounded length."""
    return sorted(set(range(CFG.K + 1)) | set(CFG.EXTRA))


def seq_len(t):
    if t not in P.lens:
        ls = lens()
        n = sampled_length(ls) if CFG.LONG else ls[choose(len(ls))]
        P.log.append(f"len({show(t)}) = {n}")
        P.lens[t] = n
    return P.lens[t]


def seq_of(t, ty):
    return [Sym(("elem", t, i), ty) for i in range(seq_len(t))]


def length(v):
    v = resolve(v)
    if isinstance(v, (str, bytes, tuple)):
        return len(v)
    if isinstance(v, PList):
        if v.base is not None:
            return len(v.items) + seq_len(v.base)
        return len(v.items)
    if isinstance(v, PDict):
        return len(dict_keys(v))
    if isinstance(v, PSet):
        return len(v.items) + (seq_len(("keys", v.base)) if v.base is not None else 0)
    if isinstance(v, Inst):
        f = v.cls.lookup("__len__")
        if f is not None:
            return call(bind(f, v), [])
        if v.payload is not None:
            return length(v.payload)
    if isinstance(v, Sym):
        s = tyset(v)
        if s is not None and len(s) > 1:
            typeof(v)
            s = tyset(v)
        if s == frozenset(["str"]) or s == frozenset(["bytes"]):
            return Sym(("len", v.t), "int")
        if s is None or s & {"list", "tuple", "dict", "set"}:
            return seq_len(v.t)
        raise_py("TypeError", "object has no len()")
    if isinstance(v, PRange):
        if all(isinstance(x, int) for x in (v.a, v.b, v.c)):
            return len(range(v.a, v.b, v.c))
        return len(list(iterate(v)))
    raise_py("TypeError", f"object of type '{class_of(v).name}' has no len()")


def iterate(v):
    """A host iterator over the elements."""
    v = resolve(v)
    if isinstance(v, PList):
        return iter_list(v)
    if isinstance(v, (tuple, str)):
        return iter(v)
    if isinstance(v, bytes):
        return iter(v)
    if isinstance(v, PDict):
        return iter(dict_keys(v))
    if isinstance(v, PSet):
        return iter((seq_of(("keys", v.base), None) if v.base is not None else []) + list(v.items))
    if isinstance(v, PIter):
        return iter(v.it)
    if isinstance(v, PRange):
        return iter_range(v)
    if isinstance(v, Sym):
        s = tyset(v)
        if s is not None and len(s) > 1:
            typeof(v)
            s = tyset(v)
        if s is not None and not (s & {"str", "list", "tuple", "dict", "set", "bytes"}):
            raise_py("TypeError", f"'{next(iter(s))}' object is not iterable")
        if s == frozenset(["str"]):
            n = seq_len(v.t)
            from .facts import assume, known

            k = known(("truthy", v.t))
            if k is not None and k != (n > 0):
                raise PathCut()
            assume(("truthy", v.t), n > 0)
            return iter([Sym(("elem", v.t, i), "str") for i in range(n)])
        return iter(seq_of(v.t, ELEMTY.get(v.t)))
    if isinstance(v, Inst):
        f = v.cls.lookup("__iter__")
        if f is not None:
            return iterate(call(bind(f, v), []))
        if v.cls.lookup("__next__") is not None:
            return iter_next(v)
        if v.payload is not None:
            return iterate(v.payload)
        if v.cls.lookup("__getitem__") is not None:
            return iter_getitem(v)
        raise_py("TypeError", f"'{v.cls.name}' object is not iterable")
    if isinstance(v, PClass):
        if v.members is not None:
            return iter(list(v.members))
        raise_py("TypeError", "type is not iterable")
    if isinstance(v, Ext):
        if CFG.loading:
            return iter([])
        raise Undecided(f"iteration over {v!r}")
    raise_py("TypeError", f"'{class_of(v).name}' object is not iterable")


ELEMTY: dict = {}


def iter_list(v):
    if v.base is not None:
        for x in seq_of(v.base, ELEMTY.get(v.base)):
            yield x
    i = 0
    while i < len(v.items):
        yield v.items[i]
        i += 1


def iter_next(v):
    while True:
        try:
            x = call(getattr_(v, "__next__"), [])
        except PyExc as e:
            if subclass(e.value.cls, BT["StopIteration"]):
                return
            raise
        yield x


def iter_getitem(v):
    i = 0
    while True:
        try:
            x = subscript(v, i)
        except PyExc as e:
            if subclass(e.value.cls, BT["IndexError"]):
                return
            raise
        yield x
        i += 1
        if i > 200:
            raise Undecided("unbounded __getitem__ iteration")


def iter_range(r):
    if all(isinstance(x, int) for x in (r.a, r.b, r.c)):
        if len(range(r.a, r.b, r.c)) > 20000:
            raise Undecided("very long concrete range")
        yield from range(r.a, r.b, r.c)
        return
    up = truth(compare(">", r.c, 0))
    x = r.a
    n = 0
    while True:
        c = compare("<", x, r.b) if up else compare(">", x, r.b)
        if not truth(c):
            return
        n += 1
        if n > max(CFG.K, CFG.LONG[0] + 8 if CFG.LONG else 0):
            STATS.cuts += 1
            raise PathCut()
        yield x
        x = binop("+", x, r.c)


def to_list(v):
    return list(iterate(v))


# ------------------------------------------------------------------ operators

OPNAMES = {
    "+": ("__add__", "__radd__"), "-": ("__sub__", "__rsub__"), "*": ("__mul__", "__rmul__"),
    "/": ("__truediv__", "__rtruediv__"), "//": ("__floordiv__", "__rfloordiv__"), "%": ("__mod__", "__rmod__"),
    "**": ("__pow__", "__rpow__"), "|": ("__or__", "__ror__"), "&": ("__and__", "__rand__"),
    "^": ("__xor__", "__rxor__"), "<<": ("__lshift__", "__rlshift__"), ">>": ("__rshift__", "__rrshift__"),
    "@": ("__matmul__", "__rmatmul__"),
}


def binop(op, a, b):
    if (isinstance(a, Fin) or isinstance(b, Fin)) and op in HOST_BIN:
        r = fin_op(HOST_BIN[op], a, b)
        if r is not None:
            return r
    a, b = resolve(a), resolve(b)
    if isinstance(a, Inst) or isinstance(b, Inst):
        n, r = OPNAMES[op]
        if isinstance(a, Inst):
            f = a.cls.lookup(n)
            if f is not None:
                v = call(bind(f, a), [b])
                if v is not NOTIMPL:
                    return v
        if isinstance(b, Inst):
            f = b.cls.lookup(r)
            if f is not None:
                v = call(bind(f, b), [a])
                if v is not NOTIMPL:
                    return v
        pa = a.payload if isinstance(a, Inst) else a
        pb = b.payload if isinstance(b, Inst) else b
        if pa is None and isinstance(a, Inst) or pb is None and isinstance(b, Inst):
            raise_py("TypeError", f"unsupported operand type(s) for {op}")
        return binop(op, pa, pb)
    if isinstance(a, (PClass, PUnion, Inert)) or isinstance(b, (PClass, PUnion, Inert)):
        if op == "|":
            ts = []
            for x in (a, b):
                ts.extend(x.types if isinstance(x, PUnion) else [x])
            return PUnion(tuple(ts))
    if isinstance(a, CONST) and isinstance(b, CONST):
        return host_op(op, a, b)
    if isinstance(a, PList) and isinstance(b, PList) and op == "+":
        if b.base is not None:
            raise Undecided("concatenation with an opaque list")
        return PList(a.items + b.items, a.base, a.unb or b.unb)
    if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
        return a + b
    if op == "*" and isinstance(b, (PList, tuple)):
        a, b = b, a
    if op == "*" and isinstance(a, (PList, tuple)):
        if isinstance(b, int):
            return a * b if isinstance(a, tuple) else PList(a.items * b)
        if isinstance(b, Sym):
            raise Undecided("sequence repetition by an unknown count")
        raise_py("TypeError", "can't multiply sequence by non-int")
    if isinstance(a, PSet) and isinstance(b, PSet) and op in "|&-^":
        return set_op(op, a, b)
    if isinstance(a, PDict) and isinstance(b, PDict) and op == "|":
        d = PDict()
        dict_update(d, a)
        dict_update(d, b)
        return d
    if op == "%" and (isinstance(a, str) or isinstance(a, Sym) and tyset(a) == frozenset(["str"])):
        return percent(a, b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        if not isinstance(a, (Sym,) + CONST) or not isinstance(b, (Sym,) + CONST):
            s, o = (a, b) if isinstance(a, Sym) else (b, a)
            if tyset(s) is None or tyset(s) & {"list", "tuple", "dict", "set"}:
                return Sym(("op", op, T(a), T(b)), None)
            raise_py("TypeError", f"unsupported operand type(s) for {op}")
        return sym_op(op, a, b)
    if isinstance(a, Ext) or isinstance(b, Ext):
        return Sym(("op", op, T(a), T(b)), None)
    raise_py("TypeError", f"unsupported operand type(s) for {op}: '{class_of(a).name}' and '{class_of(b).name}'")


def host_op(op, a, b):
    import operator as o

    f = {"+": o.add, "-": o.sub, "*": o.mul, "/": o.truediv, "//": o.floordiv, "%": o.mod, "**": o.pow, "|": o.or_,
         "&": o.and_, "^": o.xor, "<<": o.lshift, ">>": o.rshift}.get(op)
    if f is None:
        raise_py("TypeError", "unsupported operand")
    if op in ("**", "<<") and isinstance(b, int) and abs(b) > 10000 or op == "*" and isinstance(a, int) and isinstance(b, (str, bytes)) and a > 100000:
        raise Undecided("very large constant")
    try:
        return f(a, b)
    except (TypeError, ZeroDivisionError, OverflowError, ValueError) as e:
        raise_py(type(e).__name__, str(e))


def set_op(op, a, b):
    if a.base is not None or b.base is not None:
        raise Undecided("operation on opaque sets")
    s = PSet()
    s.immutable = a.immutable
    if op in "|":
        for x in a.items + b.items:
            set_add(s, x)
    elif op == "&":
        for x in a.items:
            if set_has(b, x):
                set_add(s, x)
    elif op == "-":
        for x in a.items:
            if not set_has(b, x):
                set_add(s, x)
    else:
        return set_op("|", set_op("-", a, b), set_op("-", b, a))
    return s


def sym_op(op, a, b):
    for x in (a, b):
        if isinstance(x, Sym) and tyset(x) is None:
            return Sym(("op", op, T(a), T(b)), None)
    na = typeof(a) if isinstance(a, Sym) else class_of(a).name
    nb = typeof(b) if isinstance(b, Sym) else class_of(b).name
    if na == nb == "bool" and op in "|&^":
        if op == "&":
            return b if truth(a) else False
        if op == "|":
            return True if truth(a) else b
        return not_(b) if truth(a) else b
    if numeric(na) and numeric(nb):
        ints = na != "float" and nb != "float"
        ty = "int" if ints else "float"
        if op in ("+", "-", "*"):
            la, lb = lin(a), lin(b)
            if la is not None and lb is not None:
                if op == "+":
                    return lin_add(la, lb)
                if op == "-":
                    return lin_add(la, lb, -1)
                if not la[1]:
                    return lin_scale(lb, la[0])
                if not lb[1]:
                    return lin_scale(la, lb[0])
            if op in "+*" :
                x, y = sorted([T(a), T(b)], key=repr)
                return Sym(("op", op, x, y), ty)
            return Sym(("op", op, T(a), T(b)), ty)
        if op in ("/", "//", "%"):
            if not truth(b):
                raise_py("ZeroDivisionError", "division by zero")
            if op == "/":
                ty = "float"
                if ints and decide(("pred", "overflow-div", T(a), T(b)), (False, True)):
                    raise_py("OverflowError", "integer division result too large for a float")
            return Sym(("op", op, T(a), T(b)), ty)
        if op == "**":
            if ints:
                if isinstance(b, int) and b >= 0 or not isinstance(b, int) and truth(compare(">=", b, 0)):
                    return Sym(("op", op, T(a), T(b)), "int")
                if not truth(a):
                    raise_py("ZeroDivisionError", "0.0 cannot be raised to a negative power")
                return Sym(("op", op, T(a), T(b)), "float")
            t = (T(a), T(b))
            if decide(("pred", "pow-zero-division", *t), (False, True)):
                raise_py("ZeroDivisionError", "0.0 cannot be raised to a negative power")
            if decide(("pred", "pow-overflow", *t), (False, True)):
                raise_py("OverflowError", "numerical result out of range")
            if decide(("pred", "pow-complex", *t), (False, True)):
                return Sym(("op", op, *t), "complex")
            return Sym(("op", op, *t), "float")
        if ints and op in ("|", "&", "^", "<<", ">>"):
            return Sym(("op", op, T(a), T(b)), ty)
        raise_py("TypeError", f"unsupported operand type(s) for {op}")
    if na == nb == "str" and op == "+":
        return concat([a, b])
    if na == nb == "bytes" and op == "+":
        return Sym(("op", "+", T(a), T(b)), "bytes")
    if op == "*" and {na, nb} in ({"str", "int"}, {"str", "bool"}):
        return Sym(("op", "*", T(a), T(b)), "str")
    if op == "%" and na == "str":
        return percent(a, b)
    raise_py("TypeError", f"unsupported operand type(s) for {op}: '{na}' and '{nb}'")


def concat(parts):
    """Canonical string concatenation."""
    out = []
    for p in parts:
        p = resolve(p)
        if isinstance(p, Sym) and p.t[0] == "cat":
            ps = list(p.t[1:])
        elif isinstance(p, str):
            ps = [kterm(p)] if p else []
        else:
            ps = [p.t]
        for q in ps:
            if out and q[0] == "k" and out[-1][0] == "k":
                out[-1] = kterm(out[-1][1] + q[1])
            else:
                out.append(q)
    if not out:
        return ""
    if len(out) == 1:
        return out[0][1] if out[0][0] == "k" else Sym(out[0], "str")
    return Sym(("cat",) + tuple(out), "str")


def percent(a, b):
    if isinstance(a, str):
        import re

        args = list(b) if isinstance(b, tuple) else [b]
        parts = re.split(r"(%[sdr%])", a)
        out = []
        for p in parts:
            if p == "%%":
                out.append("%")
            elif p in ("%s", "%d", "%r"):
                if not args:
                    raise_py("TypeError", "not enough arguments for format string")
                x = args.pop(0)
                out.append(to_repr(x) if p == "%r" else to_str(x))
            elif "%" in p:
                return fresh("fmt", "str")
            else:
                out.append(p)
        return concat(out)
    return Sym(("op", "%", T(a), T(b)), "str")


def unary(op, v):
    if isinstance(v, Fin) and op != "not":
        r = fin_op(lambda x, _: -x if op == "-" else +x if op == "+" else ~x, v)
        if r is not None:
            return r
    v = resolve(v)
    if op == "not":
        return not_(v)
    if isinstance(v, Inst):
        f = v.cls.lookup({"-": "__neg__", "+": "__pos__", "~": "__invert__"}[op])
        if f is None:
            raise_py("TypeError", f"bad operand type for unary {op}: '{v.cls.name}'")
        return call(bind(f, v), [])
    if isinstance(v, (int, float)):
        return -v if op == "-" else (+v if op == "+" else ~v)
    if isinstance(v, Sym):
        s = tyset(v)
        if s is None:
            return Sym(("op", op, v.t), None)
        n = typeof(v)
        if not numeric(n):
            raise_py("TypeError", f"bad operand type for unary {op}: '{n}'")
        if n == "int":
            return lin_scale(lin(v), -1) if op == "-" else (v if op == "+" else Sym(("op", "~", v.t), "int"))
        if n == "bool":
            return Sym(("op", op, v.t), "int")
        return v if op == "+" else Sym(("op", op, v.t), "float")
    raise_py("TypeError", f"bad operand type for unary {op}: '{class_of(v).name}'")


# ------------------------------------------------------------------- strings


def to_str(v):
    v = resolve(v)
    if isinstance(v, str):
        return v
    if isinstance(v, CONST):
        return str(v)
    if isinstance(v, Sym):
        if tyset(v) == frozenset(["str"]):
            return v
        return Sym(("str", v.t), "str")
    if isinstance(v, Inst):
        f = v.cls.lookup("__str__") or None
        if f is None:
            f = v.cls.lookup("__repr__")
        if f is not None:
            return call(bind(f, v), [])
        if v.cls.members is not None:
            return f"{v.cls.name}.{v.attrs['_name_']}"
        if subclass(v.cls, BT["BaseException"]):
            a = v.attrs.get("args", ())
            if len(a) == 1:
                return to_str(a[0])
            if not a:
                return ""
        return Sym(("str", ("obj", v.cls.name, ident(v))), "str")
    return Sym(("str", freeze(v)), "str")


def to_repr(v):
    v = resolve(v)
    if isinstance(v, CONST):
        return repr(v)
    if isinstance(v, Inst):
        f = v.cls.lookup("__repr__")
        if f is not None:
            return call(bind(f, v), [])
        if v.cls.members is not None:
            return f"<{v.cls.name}.{v.attrs['_name_']}>"
        return Sym(("repr", ("obj", v.cls.name, ident(v))), "str")
    return Sym(("repr", T(v)), "str")


STR_STR = ("lower", "upper", "casefold", "strip", "lstrip", "rstrip", "title", "capitalize", "swapcase", "replace",
           "removeprefix", "removesuffix", "zfill", "center", "ljust", "rjust", "expandtabs", "translate")
STR_BOOL = ("isdigit", "isalpha", "isalnum", "isspace", "isnumeric", "isupper", "islower", "isidentifier", "isdecimal",
            "istitle", "isascii", "isprintable")
STR_INT = ("find", "rfind", "count", "index", "rindex")
STR_LIST = ("split", "rsplit", "splitlines")
STR_ALL = STR_STR + STR_BOOL + STR_INT + STR_LIST + ("startswith", "endswith", "join", "format", "encode", "partition",
                                                    "rpartition", "maketrans", "format_map", "__len__", "__eq__", "__lt__",
                                                    "__le__", "__gt__", "__ge__", "__ne__", "__contains__", "__add__", "__mul__",
                                                    "__getitem__", "__iter__", "__hash__", "__str__", "__mod__")


def strip_defaults(name, args):
    args = list(args)
    if name in ("find", "rfind", "index", "rindex", "count", "startswith", "endswith"):
        while len(args) > 1 and args[-1] is None:
            args.pop()
        if len(args) == 2 and args[1] == 0:
            args.pop()
        if len(args) == 3 and args[1] is None:
            args[1] = 0
    elif name in ("strip", "lstrip", "rstrip", "split") and args and args[-1] is None and len(args) == 1:
        args = []
    return args


def str_method(s, name, args, kwargs):
    s = resolve(s)
    args = [resolve(a) for a in args]
    if name in ("startswith", "endswith") and args and isinstance(args[0], tuple):
        for p in args[0]:
            if truth(str_method(s, name, [p] + args[1:], {})):
                return True
        return False
    if name == "join":
        parts = []
        for i, x in enumerate(iterate(args[0])):
            x = resolve(x)
            if isinstance(x, Sym):
                if not restrict(x, ["str"]):
                    raise_py("TypeError", "sequence item: expected str instance")
            elif not isinstance(x, str):
                raise_py("TypeError", "sequence item: expected str instance")
            if i:
                parts.append(s)
            parts.append(x)
        return concat(parts)
    if name == "format" and isinstance(s, str):
        return str_format(s, args, kwargs)
    if name == "format":
        return fresh("fmt", "str")
    if name == "__len__":
        return length(s)
    if name in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
        o = {"__eq__": "==", "__ne__": "!=", "__lt__": "<", "__le__": "<=", "__gt__": ">", "__ge__": ">="}[name]
        x = args[0]
        if not (isinstance(x, str) or isinstance(x, Sym)):
            return NOTIMPL
        return compare(o, s, x)
    if name == "__contains__":
        return contains(s, args[0])
    if name == "__add__":
        return binop("+", s, args[0])
    if name == "__getitem__":
        return subscript(s, args[0])
    if name == "__iter__":
        return PIter(iterate(s))
    if name == "__hash__":
        return Sym(("hash", T(s)), "int")
    if name == "__str__":
        return s
    args = strip_defaults(name, args)
    if isinstance(s, str) and all(isinstance(a, CONST) for a in args) and all(isinstance(a, CONST) for a in kwargs.values()):
        try:
            r = getattr(s, name)(*args, **kwargs)
        except (TypeError, ValueError, UnicodeError, LookupError) as e:
            raise_py(type(e).__name__, str(e))
        return PList(r) if isinstance(r, list) else r
    for a in args:
        ok = isinstance(a, Sym) and (tyset(a) is None or tyset(a) & {"str", "int", "NoneType", "bool"}) or isinstance(a, CONST) or isinstance(a, PDict)
        if not ok:
            raise_py("TypeError", f"{name}: bad argument")
    if name in ("startswith", "endswith", "find", "rfind", "index", "rindex", "count", "removeprefix", "removesuffix", "replace"):
        for a in args[: 2 if name == "replace" else 1]:
            if isinstance(a, Sym):
                if not restrict(a, ["str"]):
                    raise_py("TypeError", f"{name}: must be str")
            elif not isinstance(a, str):
                raise_py("TypeError", f"{name}: must be str")
    ts = tuple(T(a) for a in args) + tuple((k, T(v)) for k, v in sorted(kwargs.items()))
    if name in ("lower", "casefold") and not ts:
        if isinstance(s, Sym) and s.t[0] == name:
            return s
        return Sym((name, T(s)), "str")
    if name == "upper" and not ts:
        return Sym((name, T(s)), "str")
    if name in ("startswith", "endswith") and len(args) == 1:
        if args[0] == "":
            return True
        k = suffix_const(T(s)) if name == "endswith" else None
        if k and isinstance(args[0], str) and k.isascii() and args[0].isascii():
            # the known last characters decide
            n = min(len(k), len(args[0]))
            if k[-n:] != args[0][-n:]:
                return False
            if n == len(args[0]):
                return True
        return cond_value((name, T(s), ts[0]))
    if name in ("startswith", "endswith"):
        return cond_value(("pred", name, T(s)) + ts)
    if name == "replace" and len(args) == 2 and not kwargs and all(isinstance(a, str) for a in args) and len(args[0]) == 1 and isinstance(s, Sym):
        base, pairs = (s.t[1], s.t[2]) if s.t[0] == "charmap" else (s.t, ())
        # characters replaced one after the other, none of them made or replaced by another: in any order
        if all(args[0] != a and args[0] not in b and a not in args[1] for a, b in pairs) and (args[0] not in args[1]):
            return Sym(("charmap", base, tuple(sorted(pairs + ((args[0], args[1]),)))), "str")
    if name == "translate" and len(args) == 1 and isinstance(args[0], PDict) and args[0].base is None and isinstance(s, Sym) and s.t[0] != "charmap":
        pairs = [(chr(a) if isinstance(a, int) else a, b if b is not None else "") for a, b in args[0].items]
        if all(isinstance(a, str) and len(a) == 1 and isinstance(b, str) for a, b in pairs):
            if not any(x in b for x, _ in pairs for _, b in pairs):
                return Sym(("charmap", s.t, tuple(sorted(pairs))), "str")
    if name == "removeprefix":
        if truth(str_method(s, "startswith", [args[0]], {})):
            return subscript(s, PSlice(length(args[0]), None, None))
        return s
    if name in STR_STR:
        return Sym(("call", name, T(s)) + ts, "str")
    if name == "isspace" and not ts:
        if not truth(s):
            return False
        return cond_value(("not", ("truthy", ("call", "strip", T(s)))))
    if name in STR_BOOL:
        return cond_value(("pred", name, T(s)) + ts)
    if name in STR_INT:
        if name in ("index", "rindex"):
            if not decide(("in", ts[0], T(s))):
                raise_py("ValueError", "substring not found")
            name = {"index": "find", "rindex": "rfind"}[name]
        return Sym(("call", name, T(s)) + ts, "int")
    if name in STR_LIST:
        r = Sym(("call", name, T(s)) + ts, "list")
        ELEMTY[r.t] = "str"
        return r
    if name == "encode":
        enc = norm_codec(args[0] if args else kwargs.get("encoding", "utf-8"))
        err = args[1] if len(args) > 1 else kwargs.get("errors", "strict")
        if isinstance(s, str) and isinstance(enc, str) and isinstance(err, str):
            try:
                return s.encode(enc, err)
            except (UnicodeError, LookupError) as e:
                raise_py(type(e).__name__, str(e))
        if err == "strict" and enc not in ("utf-8", "utf-16", "utf-32") and decide(("pred", "unencodable", T(s), T(enc))):
            raise_py("UnicodeEncodeError", "cannot encode")
        return Sym(("encode", T(s), T(enc), T(err)), "bytes")
    if name in ("partition", "rpartition"):
        return tuple(Sym(("call", name, T(s), *ts, i), "str") for i in range(3))
    if name == "maketrans" and len(args) == 1 and isinstance(args[0], PDict) and args[0].base is None:
        return PDict([[ord(a) if isinstance(a, str) and len(a) == 1 else a, b] for a, b in args[0].items])
    if name == "maketrans":
        return Sym(("maketrans",) + ts, None)
    raise Undecided(f"str.{name}")


def suffix_const(t):
    """The constant ASCII characters a string is known to end with."""
    if t[0] == "k" and isinstance(t[1], str):
        return t[1]
    if t[0] == "cat" and t[-1][0] == "k":
        return t[-1][1]
    if t[0] in ("lower", "casefold", "upper"):
        k = suffix_const(t[1])
        if k and k.isascii():
            return getattr(k, t[0])()
    return ""


def norm_codec(e):
    if isinstance(e, str):
        e = e.lower().replace("_", "-")
        return {"latin1": "latin-1", "iso-8859-1": "latin-1", "utf8": "utf-8"}.get(e, e)
    return e


def str_format(s, args, kwargs):
    import string

    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "":
            field = str(auto)
            auto += 1
        import re

        m = re.match(r"^(\w+)((?:\.\w+|\[\w+\])*)$", field)
        if not m:
            return fresh("fmt", "str")
        base = m.group(1)
        try:
            v = args[int(base)] if base.isdigit() else kwargs[base]
        except (IndexError, KeyError):
            raise_py("IndexError" if base.isdigit() else "KeyError", base)
        for a in re.findall(r"\.(\w+)|\[(\w+)\]", m.group(2)):
            v = getattr_(v, a[0]) if a[0] else subscript(v, int(a[1]) if a[1].isdigit() else a[1])
        if conv == "r":
            v = to_repr(v)
        if spec:
            out.append(Sym(("fmt", T(v), kterm(spec)), "str"))
        else:
            out.append(to_str(v))
    return concat(out)


# ----------------------------------------------------------------- subscripts


def lit_card(v, *others):
    """Record integer literals the analysed code compares positions with."""
    for o in others:
        if isinstance(o, int) and not isinstance(o, bool) and abs(o) > 1:
            STATS.cutoff_literals.add(abs(o))


def norm_index(items, i):
    n = len(items)
    if i < -n or i >= n:
        raise_py("IndexError", "list index out of range")
    return i


def subscript(o, k):
    o, k = resolve(o), resolve(k)
    if isinstance(o, (PClass, Inert, PUnion)):
        if isinstance(o, PClass) and o.members is not None:
            for m in o.members:
                if m.attrs["_name_"] == k:
                    return m
            raise_py("KeyError", k)
        return o
    if isinstance(o, Inst):
        f = o.cls.lookup("__getitem__")
        if f is not None:
            return call(bind(f, o), [k])
        if o.payload is not None:
            return subscript(o.payload, k)
        raise_py("TypeError", f"'{o.cls.name}' object is not subscriptable")
    if isinstance(o, PDict):
        r = dict_find(o, k)
        if r is None:
            if o.base is not None and False:
                pass
            raise_py("KeyError", k)
        return r[1]
    if isinstance(o, Sym):
        return sym_subscript(o, k)
    if isinstance(o, str) and (isinstance(k, Sym) or isinstance(k, PSlice) and any(isinstance(x, Sym) for x in (k.a, k.b, k.c))):
        return sym_subscript(o, k)
    if isinstance(o, (PList, tuple, str, bytes)):
        if isinstance(o, PList) and o.base is not None:
            items = seq_of(o.base, ELEMTY.get(o.base)) + o.items
        else:
            items = o.items if isinstance(o, PList) else o
        if isinstance(k, PSlice):
            ks = []
            for x in (k.a, k.b, k.c):
                x = resolve(x)
                if isinstance(x, Sym):
                    raise Undecided("slice with unknown bounds of a sequence")
                if x is not None and not isinstance(x, int):
                    raise_py("TypeError", "slice indices must be integers or None")
                ks.append(x)
            if ks[2] == 0:
                raise_py("ValueError", "slice step cannot be zero")
            r = items[slice(*ks)]
            return PList(r, unb=o.unb) if isinstance(o, PList) else r
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, int):
            return items[norm_index(items, k)]
        if isinstance(k, Sym):
            if not restrict(k, ["int", "bool"]):
                raise_py("TypeError", "list indices must be integers or slices")
            if typeof(k) == "bool":
                k = 1 if truth(k) else 0
                return items[norm_index(items, k)]
            n = len(items)
            if truth(compare("<", k, -n)) or not truth(compare("<", k, n)):
                raise_py("IndexError", "list index out of range")
            for i in range(-n, n - 1):
                if truth(eq(k, i)):
                    return items[i]
            return items[n - 1]
        raise_py("TypeError", "list indices must be integers or slices")
    if isinstance(o, PRange):
        return subscript(PList(to_list(o)), k)
    if isinstance(o, Ext):
        return Sym(("item", T(o), T(k)), None)
    raise_py("TypeError", f"'{class_of(o).name}' object is not subscriptable")


def from_end(o, x, stop=False):
    """A bound len(o) - c as -c (when the length is at least c), len(o) as no bound."""
    if not isinstance(x, Sym) or lin(x) is None or not isinstance(o, Sym):
        return x
    n = length(o)
    if not isinstance(n, (int, Sym)) or lin(n) is None:
        return x
    d = lin_add(lin(x), lin(n), -1)
    if not isinstance(d, int):
        return x
    if d >= 0:
        return None if stop else x
    least = sum(len(t[1]) for t in cat_parts(o) if t[0] == "k") if o.t[0] == "cat" else 1
    return d if -d <= max(1, least) else x


def sym_subscript(o, k):
    ty = tyset(o) if isinstance(o, Sym) else frozenset(["str"])
    if ty is not None and len(ty) > 1:
        typeof(o)
        ty = tyset(o)
    if ty is None:
        if isinstance(k, PSlice):
            return Sym(("slice", T(o), T(k.a), T(k.b), T(k.c)), None)
        return Sym(("item", T(o), T(k)), None)
    if not (ty & {"str", "list", "tuple", "dict", "bytes"}):
        raise_py("TypeError", f"'{next(iter(ty))}' object is not subscriptable")
    if isinstance(k, PSlice):
        xs = []
        for x in (k.a, k.b, k.c):
            x = resolve(x)
            if isinstance(x, Sym):
                if not restrict(x, ["int", "bool", "NoneType"]):
                    raise_py("TypeError", "slice indices must be integers or None")
            elif x is not None and not isinstance(x, int):
                raise_py("TypeError", "slice indices must be integers or None")
            xs.append(x)
        if xs[2] is not None and truth(eq(xs[2], 0)):
            raise_py("ValueError", "slice step cannot be zero")
        if xs[2] is None or xs[2] == 1:
            xs = [from_end(o, xs[0]), from_end(o, xs[1], True), None]
        if xs[0] == 0:
            xs[0] = None
        if xs == [None, None, None]:
            return o
        if isinstance(o, Sym) and o.t[0] == "cat" and xs[2] is None:
            # known first or last characters
            ps = cat_parts(o)
            n, m = xs[0], xs[1]
            if isinstance(n, int) and n > 0 and ps[0][0] == "k" and len(ps[0][1]) >= n and (m is None or isinstance(m, int) and m < 0):
                rest = [kterm(ps[0][1][n:])] if len(ps[0][1]) > n else []
                ps, n = rest + ps[1:], None
            if n is None and isinstance(m, int) and m < 0 and ps and ps[-1][0] == "k" and len(ps[-1][1]) >= -m:
                rest = [kterm(ps[-1][1][:m])] if len(ps[-1][1]) > -m else []
                ps, m = ps[:-1] + rest, None
            if n is None and m is None:
                return concat([t[1] if t[0] == "k" else Sym(t, "str") for t in ps])
        return Sym(("slice", T(o), T(xs[0]), T(xs[1]), T(xs[2])), "str" if ty == frozenset(["str"]) else ty)
    if ty & {"list", "tuple"}:
        return subscript(PList(to_list(o)), k)
    if isinstance(k, Sym):
        if not restrict(k, ["int", "bool"]):
            raise_py("TypeError", "string indices must be integers")
    elif not isinstance(k, int):
        raise_py("TypeError", "string indices must be integers")
    if isinstance(k, Sym) and typeof(k) == "bool":
        k = 1 if truth(k) else 0
    n = length(o)
    if truth(compare("<", k, unary("-", n))) or not truth(compare("<", k, n)):
        raise_py("IndexError", "string index out of range")
    return Sym(("item", T(o), T(k)), "str")


def store_sub(o, k, v):
    o, k = resolve(o), resolve(k)
    if isinstance(o, Inst):
        f = o.cls.lookup("__setitem__")
        if f is not None:
            return call(bind(f, o), [k, v])
        if o.payload is not None:
            return store_sub(o.payload, k, v)
    if isinstance(o, PDict):
        return dict_set(o, k, v)
    if isinstance(o, PList):
        touch(o)
        if isinstance(k, PSlice):
            if o.base is not None and (k.a, k.b, k.c) == (None, None, None):
                o.base = None
                o.items = to_list(v)
                return
            items = list(o.items)
            items[slice(k.a, k.b, k.c)] = to_list(v)
            o.items = items
            return
        if isinstance(k, int):
            norm_index(o.items, k)
            o.items[k] = v
            return
        if isinstance(k, Sym):
            for i in range(len(o.items)):
                if truth(eq(k, i)):
                    o.items[i] = v
                    return
            raise_py("IndexError", "list assignment index out of range")
    raise_py("TypeError", f"'{class_of(o).name}' object does not support item assignment")


def del_sub(o, k):
    o, k = resolve(o), resolve(k)
    if isinstance(o, Inst):
        f = o.cls.lookup("__delitem__")
        if f is not None:
            return call(bind(f, o), [k])
        if o.payload is not None:
            return del_sub(o.payload, k)
    if isinstance(o, PDict):
        return dict_del(o, k)
    if isinstance(o, PList):
        touch(o)
        if isinstance(k, PSlice):
            items = list(o.items)
            del items[slice(k.a, k.b, k.c)]
            o.items = items
            if (k.a, k.b, k.c) == (None, None, None):
                o.base = None
            return
        norm_index(o.items, k)
        del o.items[k]
        return
    raise_py("TypeError", f"'{class_of(o).name}' object doesn't support item deletion")


# ------------------------------------------------------------------ attributes


def bind(f, obj):
    if isinstance(f, (PFunc, PBuiltin)):
        return PBound(f, obj)
    if isinstance(f, PStatic):
        return f.fn
    if isinstance(f, PClassM):
        return PBound(f.fn, obj.cls if isinstance(obj, Inst) else obj)
    return f


def getattr_(o, name):
    o = resolve(o)
    if isinstance(o, Inst):
        if ("node form", id(o)) in P.memo and P.memo[("node form", id(o))][1] is not None and name not in OPAQUE_ATTRS:
            # the parts of an opaque expression are unknown
            raise PathCut()
        c = o.cls.lookup(name)
        if isinstance(c, PProp):
            if c.cached:
                if name in o.attrs:
                    return o.attrs[name]
                v = call(c.fget, [o])
                touch(o)
                o.attrs[name] = v
                return v
            return call(c.fget, [o])
        if isinstance(c, Inst) and c.cls.lookup("__get__") is not None and name not in o.attrs:
            return call(getattr_(c, "__get__"), [o, o.cls])
        if name in o.attrs:
            return o.attrs[name]
        if c is not None or any(name in k.ns for k in o.cls.mro):
            return bind(c, o)
        r = inst_builtin_attr(o, name)
        if r is not None:
            return r
        f = o.cls.lookup("__getattr__")
        if f is not None:
            return call(bind(f, o), [name])
        raise_attr(o.cls.name, name)
    if isinstance(o, PClass):
        return class_attr(o, name)
    if isinstance(o, PModule):
        if name in o.ns:
            return o.ns[name]
        m = load_module(o.name + "." + name, optional=True)
        if m is not None:
            return m
        if o.name.split(".")[0] in STUBROOTS:
            return Ext(o.name + "." + name)
        raise_attr("module " + o.name, name)
    if isinstance(o, PSuper):
        return super_attr(o, name)
    if isinstance(o, PFunc):
        if name in o.attrs:
            return o.attrs[name]
        if name == "__name__":
            return o.name
        if name == "__qualname__":
            return o.qualname
        if name == "__module__":
            return o.module.name
        if name == "__doc__":
            return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
        if name == "__dict__":
            return PDict([(k, v) for k, v in o.attrs.items()])
        if name == "__get__":
            return PBuiltin("__get__", lambda a, k: bind(o, a[0]) if a[0] is not None else o)
        if name == "__defaults__":
            return tuple(o.defaults) or None
        raise_attr("function", name)
    if isinstance(o, PBound):
        if name == "__self__":
            return o.self
        if name == "__func__":
            return o.fn
        return getattr_(o.fn, name)
    if isinstance(o, PPartial):
        return {"func": o.fn, "args": tuple(o.args), "keywords": PDict(list(o.kwargs.items()))}[name]
    if isinstance(o, PBuiltin):
        if name in ("__name__", "__qualname__"):
            return o.name.split(".")[-1]
        if o.name == "itertools.chain" and name == "from_iterable":
            return PBuiltin("chain.from_iterable", lambda a, k: PIter(y for x in iterate(a[0]) for y in iterate(x)))
        if o.name == "dict" or name == "fromkeys":
            pass
        raise_attr("builtin", name)
    if isinstance(o, PProp):
        if name == "setter":
            return PBuiltin("setter", lambda a, k: PProp(o.fget, a[0], o.fdel))
        if name == "getter":
            return PBuiltin("getter", lambda a, k: PProp(a[0], o.fset, o.fdel))
        if name == "deleter":
            return PBuiltin("deleter", lambda a, k: PProp(o.fget, o.fset, a[0]))
        if name == "fget":
            return o.fget
    if isinstance(o, Ext):
        return Ext(o.name + "." + name)
    if isinstance(o, Inert):
        return Inert(o.name + "." + name)
    if isinstance(o, Frz):
        raise Undecided("attribute of a frozen value")
    from .builtins_ import builtin_attr

    r = builtin_attr(o, name)
    if r is None:
        if isinstance(o, Sym) and tyset(o) is None:
            return Sym(("attr", o.t, name), None)
        raise_attr(class_of(o).name, name)
    return r


def raise_attr(cn, name):
    raise_py("AttributeError", f"'{cn}' object has no attribute '{name}'")


def inst_builtin_attr(o, name):
    from .builtins_ import builtin_attr, object_attr

    if name == "__class__":
        return o.cls
    if name == "__dict__":
        return InstDict(o)
    if o.payload is not None:
        r = builtin_attr(o.payload, name)
        if r is not None:
            return r
    if o.cls.members is not None or BT["Enum"] in o.cls.mro:
        if name == "name":
            return o.attrs["_name_"]
        if name == "value":
            return o.attrs["_value_"]
    if BT["BaseException"] in o.cls.mro:
        if name == "args":
            return o.attrs.get("args", ())
        if name in ("__cause__", "__context__", "__traceback__"):
            return None
        if name == "with_traceback":
            return PBuiltin(name, lambda a, k: o)
        if name == "add_note":
            return PBuiltin(name, lambda a, k: None)
    return object_attr(o, name)


class PInstDict(PDict):
    """The __dict__ of an object: a view, writing to it changes the object."""

    __slots__ = ("owner",)

    def __init__(self, owner):
        self.owner = None
        super().__init__()
        self.owner = owner

    @property
    def items(self):
        return [[k, v] for k, v in self.owner.attrs.items()]

    @items.setter
    def items(self, items):
        if self.owner is not None:
            touch(self.owner)
            self.owner.attrs.clear()
            self.owner.attrs.update((k, v) for k, v in items)


def InstDict(o):
    return PInstDict(o)


def class_attr(c, name):
    for k in c.mro:
        if name in k.ns:
            v = k.ns[name]
            if isinstance(v, PStatic):
                return v.fn
            if isinstance(v, PClassM):
                return PBound(v.fn, c)
            return v
    if name == "__name__":
        return c.name
    if name == "__qualname__":
        return c.qualname
    if name == "__module__":
        return c.module
    if name == "__mro__":
        return tuple(c.mro)
    if name == "__bases__":
        return tuple(c.bases) or (BT["object"],)
    if name == "__dict__":
        return PDict(list(c.ns.items()))
    if name == "__doc__":
        return None
    if name == "mro":
        return PBuiltin("mro", lambda a, k: PList(c.mro))
    if name == "__subclasses__":
        return PBuiltin("__subclasses__", lambda a, k: PList([x for x in CFG.universe if isinstance(x, PClass) and c in x.bases]))
    if name == "__members__" and c.members is not None:
        return PDict([(m.attrs["_name_"], m) for m in c.members])
    from .builtins_ import builtin_class_attr

    r = builtin_class_attr(c, name)
    if r is not None:
        return r
    raise_py("AttributeError", f"type object '{c.name}' has no attribute '{name}'")


def super_attr(o, name):
    obj = o.obj
    cls = obj.cls if isinstance(obj, Inst) else obj
    mro = cls.mro
    i = mro.index(o.cls) + 1 if o.cls in mro else 0
    for c in mro[i:]:
        if name in c.ns:
            v = c.ns[name]
            if isinstance(v, PProp):
                return call(v.fget, [obj])
            return bind(v, obj)
    if isinstance(obj, Inst):
        from .builtins_ import super_builtin

        r = super_builtin(obj, name)
        if r is not None:
            return r
        r = inst_builtin_attr(obj, name)
        if r is not None:
            return r
    elif name in ("__init_subclass__", "__class_getitem__", "__new__"):
        if name == "__new__":
            return PBuiltin("__new__", lambda a, k: new_inst(a[0]))
        return PBuiltin(name, lambda a, k: None)
    raise_py("AttributeError", f"'super' object has no attribute '{name}'")


def setattr_(o, name, v):
    o = resolve(o)
    if isinstance(o, Inst):
        c = o.cls.lookup(name)
        if isinstance(c, PProp) and not c.cached:
            if c.fset is None:
                raise_py("AttributeError", f"property '{name}' of '{o.cls.name}' object has no setter")
            call(c.fset, [o, v])
            return
        f = o.cls.lookup("__setattr__")
        if isinstance(f, PFunc):
            call(bind(f, o), [name, v])
            return
        touch(o)
        o.attrs[name] = v
        return
    if isinstance(o, PClass):
        touch(o)
        o.ns[name] = v
        return
    if isinstance(o, PModule):
        touch(o)
        o.ns[name] = v
        return
    if isinstance(o, PFunc):
        touch(o)
        o.attrs[name] = v
        return
    if isinstance(o, PSuper):
        return setattr_(o.obj, name, v)
    if isinstance(o, Ext):
        P.trace.append(("setattr", o.name, name, freeze(v)))
        return
    raise_py("AttributeError", f"'{class_of(o).name}' object has no attribute '{name}'")


def delattr_(o, name):
    if isinstance(o, Inst):
        c = o.cls.lookup(name)
        if isinstance(c, PProp) and c.fdel is not None:
            return call(c.fdel, [o])
        if name in o.attrs:
            touch(o)
            del o.attrs[name]
            return
    raise_attr(class_of(o).name, name)


# ---------------------------------------------------------------------- calls


def call(f, args, kwargs=None):
    kwargs = kwargs or {}
    f = resolve(f)
    if isinstance(f, PBound):
        if isinstance(f.fn, (PFunc, PBuiltin)):
            return call(f.fn, [f.self] + list(args), kwargs)
        return call(f.fn, [f.self] + list(args), kwargs)
    if isinstance(f, PFunc):
        return call_func(f, list(args), kwargs)
    if isinstance(f, PBuiltin):
        try:
            return f.fn(list(args), kwargs)
        except IndexError as e:
            tb = e.__traceback__.tb_next
            if len(args) < 3 and tb is not None and tb.tb_next is None and "list index" in str(e):
                raise_py("TypeError", f"{f.name}: missing argument")
            raise
        except ValueError as e:
            if "values to unpack (expected" in str(e) and (str(e).endswith(f", got {len(args)})") or "too many" in str(e)):
                raise_py("TypeError", f"{f.name}: wrong number of arguments")
            raise
    if isinstance(f, PPartial):
        return call(f.fn, list(f.args) + list(args), {**f.kwargs, **kwargs})
    if isinstance(f, PClass):
        return instantiate(f, list(args), kwargs)
    if isinstance(f, Inst):
        m = f.cls.lookup("__call__")
        if m is None:
            raise_py("TypeError", f"'{f.cls.name}' object is not callable")
        return call(bind(m, f), args, kwargs)
    if isinstance(f, (PStatic, PClassM)):
        return call(f.fn, args, kwargs)
    if isinstance(f, Ext):
        t = ("ext", f.name) + tuple(freeze(a) for a in args) + tuple((k, freeze(v)) for k, v in sorted(kwargs.items()))
        if not CFG.loading:
            P.trace.append(("ext-call",) + t[1:])
            return Sym(t, None)
        return Ext(f.name + "()")
    if isinstance(f, Sym):
        s = tyset(f)
        if s is not None and "function" not in s:
            raise_py("TypeError", "object is not callable")
        from .builtins_ import opaque_call

        return opaque_call(f, args, kwargs)
    if isinstance(f, Inert):
        return Inert(f.name)
    raise_py("TypeError", f"'{class_of(f).name}' object is not callable")


def bind_args(f, args, kwargs):
    a = f.node.args
    out = {}
    pos = [x.arg for x in a.posonlyargs + a.args]
    npos = len(pos)
    kwargs = dict(kwargs)
    if len(args) > npos and a.vararg is None:
        raise_py("TypeError", f"{f.name}() takes {npos} positional arguments but {len(args)} were given")
    for n, v in zip(pos, args):
        out[n] = v
    if a.vararg is not None:
        out[a.vararg.arg] = tuple(args[npos:])
    posonly = {x.arg for x in a.posonlyargs}
    kwonly = [x.arg for x in a.kwonlyargs]
    extra = []
    for k, v in kwargs.items():
        if k in pos and k not in posonly or k in kwonly:
            if k in out:
                raise_py("TypeError", f"{f.name}() got multiple values for argument '{k}'")
            out[k] = v
        elif a.kwarg is not None:
            extra.append((k, v))
        else:
            raise_py("TypeError", f"{f.name}() got an unexpected keyword argument '{k}'")
    if a.kwarg is not None:
        out[a.kwarg.arg] = PDict(extra)
    nd = len(f.defaults)
    for i, n in enumerate(pos):
        if n not in out:
            j = i - (npos - nd)
            if j < 0:
                raise_py("TypeError", f"{f.name}() missing required positional argument: '{n}'")
            out[n] = f.defaults[j]
    for n in kwonly:
        if n not in out:
            if n not in f.kwdefaults:
                raise_py("TypeError", f"{f.name}() missing required keyword-only argument: '{n}'")
            out[n] = f.kwdefaults[n]
    return out


_INFO: dict = {}


class FnInfo:
    __slots__ = ("locals_", "glob", "nonl", "gen")


def assigned(nodes, out, glob, nonl):
    stack = list(nodes)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            stack.extend(n.decorator_list)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only walrus targets leak
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    out.add(w.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add(al.asname or al.name.split(".")[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        elif isinstance(n, ast.AnnAssign):
            stack.append(n.target)
            if n.value is not None:
                stack.append(n.value)
            continue
        stack.extend(ast.iter_child_nodes(n))


def has_yield(nodes):
    stack = list(nodes)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def fninfo(node):
    r = _INFO.get(id(node))
    if r is None:
        r = FnInfo()
        loc, glob, nonl = set(), set(), set()
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            loc.add(x.arg)
        if a.vararg:
            loc.add(a.vararg.arg)
        if a.kwarg:
            loc.add(a.kwarg.arg)
        if isinstance(node, ast.Lambda):
            assigned([node.body], loc, glob, nonl)
            r.gen = False
        else:
            assigned(node.body, loc, glob, nonl)
            r.gen = has_yield(node.body)
        r.locals_ = frozenset(loc - glob - nonl)
        r.glob, r.nonl = frozenset(glob), frozenset(nonl)
        _INFO[id(node)] = r
        _KEEP.append(node)
    return r


_KEEP: list = []


def call_func(f, args, kwargs):
    for suffix, hook in HOOKS.items():
        if f.qualname.endswith(suffix):
            handled, v = hook(f, args, kwargs)
            if handled:
                return v
    info = fninfo(f.node)
    env = Env(f.env, f, f.module, info.locals_, info.glob, info.nonl)
    env.vars.update(bind_args(f, args, kwargs))
    if f.file and not f.file.startswith("<"):
        key = (f.file, f.qualname)
        STATS.functions[key] = STATS.functions.get(key, 0) + 1
        if len(P.fnlog) < 400:
            P.fnlog.append(key)
        if P.stack:
            STATS.calls.add((P.stack[-1][1], f.qualname))
    P.depth += 1
    if P.depth > 90:
        P.depth -= 1
        raise_py("RecursionError", "maximum recursion depth exceeded")
    P.stack.append((f.file, f.qualname, getattr(f.node, "lineno", 0)))
    try:
        if isinstance(f.node, ast.Lambda):
            return ev(f.node.body, env)
        if info.gen:
            return PIter(gen_body(f.node.body, env))
        try:
            run_block(f.node.body, env)
        except ReturnEx as r:
            return r.value
        return None
    finally:
        P.stack.pop()
        P.depth -= 1


def gen_body(body, env):
    try:
        yield from gen_block(body, env)
    except ReturnEx:
        return


def new_inst(c):
    i = Inst(c)
    for m in c.mro:
        if m.builtin:
            if m.name == "list":
                i.payload = PList()
                break
            if m.name == "dict":
                i.payload = PDict()
                break
            if m.name in ("set", "frozenset"):
                i.payload = PSet()
                break
            if m.name in ("str", "int", "float", "tuple"):
                i.payload = {"str": "", "int": 0, "float": 0.0, "tuple": ()}[m.name]
                break
    return i


def instantiate(c, args, kwargs):
    if c.builtin:
        from .builtins_ import builtin_new

        return builtin_new(c, args, kwargs)
    if c.members is not None:
        for m in c.members:
            if truth(eq(m.attrs["_value_"], args[0])):
                return m
        raise_py("ValueError", f"not a valid {c.name}")
    n = c.lookup("__new__")
    if isinstance(n, (PFunc, PStatic, PClassM)):
        fn = n.fn if not isinstance(n, PFunc) else n
        o = call(fn, [c] + args, kwargs)
        if not (isinstance(o, Inst) and c in o.cls.mro):
            return o
    else:
        o = new_inst(c)
    if BT["BaseException"] in c.mro:
        o.attrs["args"] = tuple(args)
    elif o.payload is not None and not isinstance(o.payload, (PList, PDict, PSet)):
        if args:
            o.payload = call(class_of(o.payload), [args[0]])
    init = c.lookup("__init__")
    if init is not None:
        r = call(bind(init, o), args, kwargs)
    else:
        from .builtins_ import super_builtin

        f = super_builtin(o, "__init__")
        call(f, args, kwargs)
    return o


# ------------------------------------------------------------------- names


def lookup(env, name):
    e = env
    if name in env.glob:
        return module_name(env, name)
    while e is not None:
        if name in e.vars:
            return e.vars[name]
        if name in e.locals_ and e is env:
            raise_py("UnboundLocalError", f"cannot access local variable '{name}'")
        e = e.parent
    return module_name(env, name)


def module_name(env, name):
    ns = env.module.ns
    if name in ns:
        return ns[name]
    if name in BUILTINS:
        return BUILTINS[name]
    if name in ("__name__",):
        return env.module.name
    raise_py("NameError", f"name '{name}' is not defined")


def assign_name(env, name, v):
    if name in env.glob:
        touch(env.module)
        env.module.ns[name] = v
        return
    if name in env.nonl:
        e = env.parent
        while e is not None:
            if name in e.vars or name in e.locals_:
                touch(e)
                e.vars[name] = v
                return
            e = e.parent
        raise Undecided("nonlocal")
    if env.fn is None and env.parent is None:  # module level
        touch(env.module)
        env.module.ns[name] = v
        return
    touch(env)
    env.vars[name] = v


# --------------------------------------------------------------- expressions


def ev(n, env):
    P.steps += 1
    if P.steps > CFG.MAXSTEPS * (20 if CFG.LONG else 1):
        raise Undecided("step budget exhausted")
    f = EV.get(type(n))
    if f is None:
        raise Undecided(f"expression {type(n).__name__}")
    return f(n, env)


EV: dict = {}


def on(t):
    def deco(f):
        EV[t] = f
        return f

    return deco


@on(ast.Constant)
def _(n, env):
    return n.value


@on(ast.Name)
def _(n, env):
    v = lookup(env, n.id)
    return v if isinstance(v, Fin) else resolve(v)


@on(ast.Attribute)
def _(n, env):
    return getattr_(ev(n.value, env), mangle(n.attr, env))


def mangle(a, env):
    if a.startswith("__") and not a.endswith("__"):
        e = env
        while e is not None:
            if e.fn is not None and e.fn.defcls is not None:
                return "_" + e.fn.defcls.name.lstrip("_") + a
            if "__classname__" in e.vars:
                return "_" + e.vars["__classname__"].lstrip("_") + a
            e = e.parent
    return a


@on(ast.Subscript)
def _(n, env):
    o = ev(n.value, env)
    k = ev(n.slice, env)
    if isinstance(o, PList) and o.unb or isinstance(o, PIter):
        for c in ast.walk(n.slice):
            if isinstance(c, ast.Constant) and not in_spec(env):
                lit_card(None, c.value)
    elif isinstance(o, (PList, tuple)) and isinstance(k, PSlice) and in_repo(env):
        least = len(o) if isinstance(o, tuple) else len(o.items)
        for x in (k.a, k.b):
            x = resolve(x)
            if isinstance(x, int) and abs(x) > max(least, 2):
                lit_card(None, x)
    return subscript(o, k)


def in_repo(env):
    f = env.module.path
    return f is not None and f.startswith(SRCROOT[0] + "/")


def big(x):
    """Larger than any number that comes from the lengths considered."""
    return isinstance(x, int) and not isinstance(x, bool) and abs(x) > 3 * max(lens()) + 6


def in_spec(env):
    f = env.module.path
    return f is None or f.startswith("<")


@on(ast.Slice)
def _(n, env):
    return PSlice(*(ev(x, env) if x is not None else None for x in (n.lower, n.upper, n.step)))


@on(ast.Tuple)
def _(n, env):
    return tuple(elts(n.elts, env))


def elts(es, env):
    out = []
    for e in es:
        if isinstance(e, ast.Starred):
            v = ev(e.value, env)
            if isinstance(v, Inert):
                out.append(v)
            else:
                out.extend(iterate(v))
        else:
            out.append(ev(e, env))
    return out


@on(ast.List)
def _(n, env):
    return PList(elts(n.elts, env))


@on(ast.Set)
def _(n, env):
    s = PSet()
    for x in elts(n.elts, env):
        set_add(s, x)
    return s


@on(ast.Dict)
def _(n, env):
    d = PDict()
    for k, v in zip(n.keys, n.values):
        if k is None:
            dict_update(d, ev(v, env))
        else:
            kk = ev(k, env)
            dict_set(d, kk, ev(v, env))
    return d


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}


@on(ast.BinOp)
def _(n, env):
    a = ev(n.left, env)
    b = ev(n.right, env)
    return binop(BINOPS[type(n.op)], a, b)


@on(ast.UnaryOp)
def _(n, env):
    return unary({ast.Not: "not", ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(n.op)], ev(n.operand, env))


@on(ast.BoolOp)
def _(n, env):
    isand = isinstance(n.op, ast.And)
    for v in n.values[:-1]:
        x = ev(v, env)
        if truth(x) != isand:
            return narrow_bool(x, not isand)
    return ev(n.values[-1], env)


def narrow_bool(x, v):
    if isinstance(x, Sym) and tyset(x) == frozenset(["bool"]):
        return v
    return x


CMPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
        ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


@on(ast.Compare)
def _(n, env):
    a = ev(n.left, env)
    r = True
    lits = not in_spec(env)
    for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
        b = ev(c, env)
        if lits and type(a) is int and type(b) is int:
            for x in (n.left, c):
                for k in ast.walk(x):
                    if isinstance(k, ast.Constant) and type(k.value) is int:
                        lit_card(None, k.value)
            if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and not CFG.LONG and big(a) != big(b):
                lit_card(None, a if big(a) else b)
        r = compare(CMPS[type(op)], a, b)
        if i < len(n.ops) - 1:
            if not truth(r):
                return False
        a = b
    return r


@on(ast.IfExp)
def _(n, env):
    return ev(n.body if truth(ev(n.test, env)) else n.orelse, env)


@on(ast.NamedExpr)
def _(n, env):
    v = ev(n.value, env)
    e = env
    while e.fn is None and e.parent is not None and "__comp__" in e.vars:
        e = e.parent
    assign_name(e, n.target.id, v)
    return v


@on(ast.JoinedStr)
def _(n, env):
    parts = []
    for p in n.values:
        if isinstance(p, ast.Constant):
            parts.append(p.value)
        else:
            v = ev(p.value, env)
            if p.conversion == 114:
                v = to_repr(v)
            if p.format_spec is not None:
                parts.append(Sym(("fmt", T(v), T(ev(p.format_spec, env))), "str"))
            else:
                parts.append(to_str(v))
    return concat(parts)


@on(ast.Lambda)
def _(n, env):
    f = PFunc(n, fenv(env), [ev(d, env) for d in n.args.defaults],
              {a.arg: ev(d, env) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None},
              "<lambda>", qual(env, "<lambda>"), env.module, env.module.path)
    return f


def fenv(env):
    """The enclosing scope of a function (class scopes are skipped)."""
    e = env
    while e is not None and "__classname__" in e.vars:
        e = e.parent
    return e if e is not None and (e.fn is not None or e.parent is not None or e.vars) else None


def qual(env, name):
    e = env
    parts = [name]
    while e is not None:
        if "__classname__" in e.vars:
            parts.append(e.vars["__classname__"])
        elif e.fn is not None:
            parts.append(e.fn.qualname + ".<locals>")
            break
        e = e.parent
    return ".".join(reversed(parts))


def comp_iter(gens, env, leaf):
    """Lazy nested iteration of comprehension clauses."""
    inner = Env(env, None, env.module)
    inner.vars["__comp__"] = True

    def go(i):
        if i == len(gens):
            yield leaf(inner)
            return
        g = gens[i]
        src = first if i == 0 else ev(g.iter, inner)
        for x in iterate(src):
            bind_target(g.target, x, inner)
            if all(truth(ev(c, inner)) for c in g.ifs):
                yield from go(i + 1)

    first = ev(gens[0].iter, env)
    return go(0)


def copies_key(k, iter_, value, env):
    """`d[k]` for k in d, a dictionary whose keys are not all known: that dictionary, else None."""
    if not (isinstance(k, ast.Name) and isinstance(value, ast.Subscript) and isinstance(value.slice, ast.Name) and value.slice.id == k.id):
        return None
    src = iter_
    if isinstance(src, ast.Call) and isinstance(src.func, ast.Attribute) and src.func.attr == "keys" and not src.args:
        src = src.func.value
    if ast.dump(src) != ast.dump(value.value) or not isinstance(src, (ast.Name, ast.Attribute)):
        return None
    d = ev(src, env)
    return d if isinstance(d, PDict) and d.base is not None else None


def same_pairs(g, key, value, env):
    """`k, v` for k, v in the pairs of a dictionary whose keys are not all known: that dictionary, else None."""
    t = g.target
    if not g.ifs and isinstance(t, ast.Name) and isinstance(key, ast.Name) and key.id == t.id:
        d = copies_key(t, g.iter, value, env)
        return PView(d, lambda: iter([(x, subscript(d, x)) for x in dict_keys(d)])) if d is not None else None
    if g.ifs or not (isinstance(t, ast.Tuple) and len(t.elts) == 2 and all(isinstance(x, ast.Name) for x in t.elts + [key, value])):
        return None
    if t.elts[0].id == t.elts[1].id or key.id != t.elts[0].id or value.id != t.elts[1].id:
        return None
    if not (isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Attribute) and g.iter.func.attr == "items"):
        return None
    v = ev(g.iter, env)
    return v if isinstance(v, PView) else PView(None, lambda: iterate(v))


@on(ast.GeneratorExp)
def _(n, env):
    if len(n.generators) == 1 and isinstance(n.elt, ast.Tuple) and len(n.elt.elts) == 2:
        v = same_pairs(n.generators[0], n.elt.elts[0], n.elt.elts[1], env)
        if v is not None:
            return v if v.src is not None else PIter(v.it)
    return PIter(comp_iter(n.generators, env, lambda e: ev(n.elt, e)))


@on(ast.ListComp)
def _(n, env):
    return PList(list(comp_iter(n.generators, env, lambda e: ev(n.elt, e))))


@on(ast.SetComp)
def _(n, env):
    s = PSet()
    for x in comp_iter(n.generators, env, lambda e: ev(n.elt, e)):
        set_add(s, x)
    return s


@on(ast.DictComp)
def _(n, env):
    d = PDict()
    if len(n.generators) == 1:
        view = same_pairs(n.generators[0], n.key, n.value, env)
        if view is not None:
            if view.src is not None:
                dict_update(d, view.src)
            else:
                for kv in view.it:
                    k, v = list(iterate(kv))
                    dict_set(d, k, v)
            return d
    for k, v in comp_iter(n.generators, env, lambda e: (ev(n.key, e), ev(n.value, e))):
        dict_set(d, k, v)
    return d


@on(ast.Starred)
def _(n, env):
    return tuple(iterate(ev(n.value, env)))


@on(ast.Call)
def _(n, env):
    if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
        return zero_super(env)
    f = ev(n.func, env)
    args = []
    for a in n.args:
        if isinstance(a, ast.Starred):
            args.extend(iterate(ev(a.value, env)))
        else:
            args.append(ev(a, env))
    kwargs = {}
    for k in n.keywords:
        if k.arg is None:
            d = ev(k.value, env)
            if isinstance(d, Inst) and d.payload is not None:
                d = d.payload
            if not isinstance(d, PDict) or d.base is not None:
                raise Undecided("** of a non-dict")
            for kk, vv in d.items:
                kwargs[kk] = vv
        else:
            kwargs[k.arg] = ev(k.value, env)
    if isinstance(f, PBuiltin) and f.name in ENVFNS:
        return ENVFNS[f.name](env, args, kwargs)
    if not CFG.LONG and isinstance(n.func, (ast.Name, ast.Attribute)) and (n.func.id if isinstance(n.func, ast.Name) else n.func.attr) in ("range", "islice") \
            and in_repo(env):
        for x in args:
            x = resolve(x)
            if big(x):
                lit_card(None, x)
    return call(f, args, kwargs)


ENVFNS: dict = {}


def zero_super(env):
    e = env
    while e is not None:
        if e.fn is not None and e.fn.defcls is not None:
            a = e.fn.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            if not names:
                return PSuper(e.fn.defcls, e.vars[a.vararg.arg][0])
            return PSuper(e.fn.defcls, e.vars[names[0]])
        e = e.parent
    raise_py("RuntimeError", "super(): no arguments")


@on(ast.Yield)
def _(n, env):
    raise Undecided("yield used as an expression")


# ---------------------------------------------------------------- statements


def bind_target(t, v, env):
    if isinstance(t, ast.Name):
        assign_name(env, t.id, v)
    elif isinstance(t, ast.Attribute):
        setattr_(ev(t.value, env), mangle(t.attr, env), v)
    elif isinstance(t, ast.Subscript):
        store_sub(ev(t.value, env), ev(t.slice, env), v)
    elif isinstance(t, (ast.Tuple, ast.List)):
        vs = list(iterate(v))
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            after = len(t.elts) - i - 1
            if len(vs) < len(t.elts) - 1:
                raise_py("ValueError", "not enough values to unpack")
            for e, x in zip(t.elts[:i], vs[:i]):
                bind_target(e, x, env)
            bind_target(t.elts[i].value, PList(vs[i:len(vs) - after]), env)
            for e, x in zip(t.elts[i + 1:], vs[len(vs) - after:]):
                bind_target(e, x, env)
            return
        if len(vs) != len(t.elts):
            raise_py("ValueError", "wrong number of values to unpack")
        for e, x in zip(t.elts, vs):
            bind_target(e, x, env)
    else:
        raise Undecided(f"target {type(t).__name__}")


def run_block(body, env):
    for s in body:
        run(s, env)


ST: dict = {}


def st(t):
    def deco(f):
        ST[t] = f
        return f

    return deco


def run(s, env):
    P.steps += 1
    if P.steps > CFG.MAXSTEPS * (20 if CFG.LONG else 1):
        raise Undecided("step budget exhausted")
    f = ST.get(type(s))
    if f is None:
        raise Undecided(f"statement {type(s).__name__}")
    f(s, env)


@st(ast.Expr)
def _(s, env):
    ev(s.value, env)


@st(ast.Pass)
def _(s, env):
    pass


@st(ast.Assign)
def _(s, env):
    v = ev(s.value, env)
    for t in s.targets:
        bind_target(t, v, env)


@st(ast.AnnAssign)
def _(s, env):
    if s.value is not None:
        bind_target(s.target, ev(s.value, env), env)
    elif "__classname__" in env.vars and isinstance(s.target, ast.Name):
        env.vars.setdefault("__annots__", PList()).items.append(s.target.id)
    if s.value is not None and "__classname__" in env.vars and isinstance(s.target, ast.Name):
        env.vars.setdefault("__annots__", PList()).items.append(s.target.id)


@st(ast.AugAssign)
def _(s, env):
    op = BINOPS[type(s.op)]
    t = s.target
    if isinstance(t, ast.Name):
        old = lookup(env, t.id)
        assign_name(env, t.id, aug(op, old, ev(s.value, env)))
    elif isinstance(t, ast.Attribute):
        o = ev(t.value, env)
        a = mangle(t.attr, env)
        old = getattr_(o, a)
        setattr_(o, a, aug(op, old, ev(s.value, env)))
    else:
        o = ev(t.value, env)
        k = ev(t.slice, env)
        store_sub(o, k, aug(op, subscript(o, k), ev(s.value, env)))


def aug(op, old, v):
    old = resolve(old)
    if isinstance(old, Inst):
        f = old.cls.lookup("__i" + OPNAMES[op][0][2:])
        if f is not None:
            r = call(bind(f, old), [v])
            if r is not NOTIMPL:
                return r
        if isinstance(old.payload, PList) and op == "+":
            aug(op, old.payload, v)
            return old
    if isinstance(old, PList) and op == "+":
        touch(old)
        old.items = old.items + to_list(v)
        return old
    if isinstance(old, PList) and op == "*":
        touch(old)
        old.items = binop("*", old, v).items
        return old
    if isinstance(old, PSet) and isinstance(v, PSet) and not old.immutable:
        r = set_op(op, old, v)
        touch(old)
        old.items = r.items
        return old
    if isinstance(old, PDict) and op == "|":
        dict_update(old, v)
        return old
    return binop(op, old, v)


@st(ast.If)
def _(s, env):
    run_block(s.body if truth(ev(s.test, env)) else s.orelse, env)


@st(ast.For)
def _(s, env):
    if len(s.body) == 1 and not s.orelse and isinstance(s.body[0], ast.Assign) and len(s.body[0].targets) == 1 and isinstance(s.target, ast.Name):
        a = s.body[0]
        if isinstance(a.targets[0], ast.Subscript) and isinstance(a.targets[0].slice, ast.Name) and a.targets[0].slice.id == s.target.id:
            old = copies_key(s.target, s.iter, a.value, env)
            new = ev(a.targets[0].value, env) if old is not None and isinstance(a.targets[0].value, (ast.Name, ast.Attribute)) else None
            if isinstance(new, PDict) and new is not old:
                dict_update(new, old)
                return
    it = ev(s.iter, env)
    if isinstance(it, PView) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Assign) and len(s.body[0].targets) == 1:
        # new[k] = v for every pair: new.update(old)
        a, t = s.body[0], s.target
        if isinstance(t, ast.Tuple) and len(t.elts) == 2 and all(isinstance(x, ast.Name) for x in t.elts) and t.elts[0].id != t.elts[1].id \
                and isinstance(a.targets[0], ast.Subscript) and isinstance(a.targets[0].slice, ast.Name) and a.targets[0].slice.id == t.elts[0].id \
                and isinstance(a.value, ast.Name) and a.value.id == t.elts[1].id and isinstance(a.targets[0].value, (ast.Name, ast.Attribute)):
            d = ev(a.targets[0].value, env)
            if isinstance(d, PDict):
                dict_update(d, it.src)
                return
    for x in iterate(it):
        bind_target(s.target, x, env)
        try:
            run_block(s.body, env)
        except BreakLoop:
            return
        except ContinueLoop:
            pass
    run_block(s.orelse, env)


@st(ast.While)
def _(s, env):
    n = 0
    while True:
        d = len(P.decisions)
        if not truth(ev(s.test, env)):
            break
        if len(P.decisions) > d:
            n += 1
            if n > max(CFG.K, 2, CFG.LONG[0] + 8 if CFG.LONG else 0) + 1:
                STATS.cuts += 1
                raise PathCut()
        try:
            run_block(s.body, env)
        except BreakLoop:
            return
        except ContinueLoop:
            pass
    run_block(s.orelse, env)


@st(ast.Break)
def _(s, env):
    raise BreakLoop()


@st(ast.Continue)
def _(s, env):
    raise ContinueLoop()


@st(ast.Return)
def _(s, env):
    raise ReturnEx(ev(s.value, env) if s.value is not None else None)


@st(ast.Raise)
def _(s, env):
    if s.exc is None:
        cur = current_exc(env)
        if cur is None:
            raise_py("RuntimeError", "No active exception to reraise")
        raise PyExc(cur, tuple(P.stack))
    e = ev(s.exc, env)
    if isinstance(e, PClass):
        e = instantiate(e, [], {})
    if isinstance(e, Sym):
        # an opaque exception object
        x = Inst(BT["Exception"])
        x.attrs["args"] = ()
        x.attrs["sym__"] = e
        raise PyExc(x, tuple(P.stack))
    if not isinstance(e, Inst) or BT["BaseException"] not in e.cls.mro:
        raise_py("TypeError", "exceptions must derive from BaseException")
    if s.cause is not None:
        c = ev(s.cause, env)
        touch(e)
        e.attrs["__cause__"] = c
    raise PyExc(e, tuple(P.stack))


def current_exc(env):
    e = env
    while e is not None:
        if "__exc__" in e.vars:
            return e.vars["__exc__"]
        e = e.parent
    return EXC[-1] if EXC else None


EXC: list = []




def _try(s, env):
    def inner():
        try:
            run_block(s.body, env)
        except PyExc as pe:
            for h in s.handlers:
                if h.type is None or exc_match(pe.value, ev(h.type, env)):
                    EXC.append(pe.value)
                    try:
                        if h.name:
                            assign_name(env, h.name, pe.value)
                        run_block(h.body, env)
                    finally:
                        EXC.pop()
                        if h.name and h.name in env.vars:
                            touch(env)
                            del env.vars[h.name]
                    return
            raise
        else:
            run_block(s.orelse, env)

    if not s.finalbody:
        inner()
        return
    try:
        inner()
    except (PyExc, ReturnEx, BreakLoop, ContinueLoop):
        run_block(s.finalbody, env)
        raise
    run_block(s.finalbody, env)


ST[ast.Try] = _try


def exc_match(v, k):
    if isinstance(k, tuple):
        return any(exc_match(v, x) for x in k)
    if isinstance(k, Ext):
        return False
    return subclass(v.cls, k)


@st(ast.Assert)
def _(s, env):
    if not truth(ev(s.test, env)):
        raise_py("AssertionError", *( [ev(s.msg, env)] if s.msg is not None else []))


@st(ast.Delete)
def _(s, env):
    for t in s.targets:
        if isinstance(t, ast.Name):
            touch(env)
            if t.id in env.vars:
                del env.vars[t.id]
            elif t.id in env.module.ns:
                touch(env.module)
                del env.module.ns[t.id]
        elif isinstance(t, ast.Attribute):
            delattr_(ev(t.value, env), mangle(t.attr, env))
        elif isinstance(t, ast.Subscript):
            del_sub(ev(t.value, env), ev(t.slice, env))
        else:
            raise Undecided("del target")


@st(ast.Global)
def _(s, env):
    pass


@st(ast.Nonlocal)
def _(s, env):
    pass


@st(ast.With)
def _(s, env):
    def go(items):
        if not items:
            run_block(s.body, env)
            return
        it = items[0]
        cm = ev(it.context_expr, env)
        from .builtins_ import cm_enter, cm_exit

        v = cm_enter(cm)
        if it.optional_vars is not None:
            bind_target(it.optional_vars, v, env)
        try:
            go(items[1:])
        except PyExc as pe:
            if cm_exit(cm, pe.value):
                return
            raise
        except (ReturnEx, BreakLoop, ContinueLoop):
            cm_exit(cm, None)
            raise
        cm_exit(cm, None)

    go(s.items)


@st(ast.Import)
def _(s, env):
    for al in s.names:
        m = import_module(al.name)
        if al.asname:
            assign_name(env, al.asname, m)
        else:
            root = al.name.split(".")[0]
            assign_name(env, root, import_module(root))


@st(ast.ImportFrom)
def _(s, env):
    if s.module == "__future__":
        return
    if s.level:
        base = env.module.name.split(".")
        is_pkg = env.module.path and env.module.path.endswith("__init__.py")
        up = s.level - (1 if is_pkg else 0)
        base = base[: len(base) - up] if up else base
        name = ".".join(base + ([s.module] if s.module else []))
    else:
        name = s.module
    m = import_module(name)
    for al in s.names:
        if al.name == "*":
            ns = m.ns
            names = [k for k in ns if not k.startswith("_")]
            if "__all__" in ns:
                names = to_list(ns["__all__"])
            for k in names:
                assign_name(env, k, ns[k])
            continue
        assign_name(env, al.asname or al.name, from_import(m, al.name))


def from_import(m, name):
    if isinstance(m, Ext):
        return Ext(m.name + "." + name)
    if name in m.ns:
        return m.ns[name]
    sub = load_module(m.name + "." + name, optional=True)
    if sub is not None:
        return sub
    if m.name.split(".")[0] in STUBROOTS or m.path is None:
        return Ext(m.name + "." + name)
    raise_py("ImportError", f"cannot import name '{name}' from '{m.name}'")


@st(ast.FunctionDef)
def _(s, env):
    f = PFunc(s, fenv(env), [ev(d, env) for d in s.args.defaults],
              {a.arg: ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None},
              s.name, qual(env, s.name), env.module, env.module.path)
    v = f
    for d in reversed(s.decorator_list):
        dv = ev(d, env)
        v = decorate(dv, v, s, env)
    assign_name(env, s.name, v)


def decorate(dv, v, s, env):
    if isinstance(dv, (Inert,)):
        return v
    if isinstance(dv, Ext):
        return v
    return call(dv, [v])


@st(ast.ClassDef)
def _(s, env):
    bases = []
    for b in s.bases:
        x = ev(b, env)
        if isinstance(x, Inert):
            if x.name in ("NamedTuple", "TypedDict"):
                raise Undecided(x.name)
            continue
        if isinstance(x, Ext):
            c = PClass(x.name.split(".")[-1], [BT["object"]], {"__ext__": x.name}, builtin=False)
            x = EXTCLS.setdefault(x.name, c)
        if isinstance(x, PClass) and x not in bases:
            bases.append(x)
        elif not isinstance(x, PClass):
            raise Undecided(f"base class {x!r}")
    bases = [b for b in bases if b is not BT["object"]] or [BT["object"]]
    cenv = Env(env if (env.fn is not None or env.parent is not None) else env, None, env.module)
    cenv.vars["__classname__"] = s.name
    run_block(s.body, cenv)
    ns = {k: v for k, v in cenv.vars.items() if k not in ("__classname__",)}
    annots = ns.pop("__annots__", None)
    c = PClass(s.name, bases, ns, module=env.module.name, qualname=qual(env, s.name))
    c.node = s
    c.ns["__annots__"] = annots if annots is not None else PList()
    for v in list(ns.values()):
        for g in ((v.fget, v.fset, v.fdel) if isinstance(v, PProp) else ((v.fn,) if isinstance(v, (PStatic, PClassM)) else (v,))):
            if isinstance(g, PFunc) and g.defcls is None and g.env is fenv(cenv):
                g.defcls = c
            elif isinstance(g, PFunc) and g.defcls is None and "__wrapped__" in g.attrs:
                w = g.attrs["__wrapped__"]
                if isinstance(w, PFunc) and w.defcls is None:
                    w.defcls = c
    own_decorated(s, cenv, c)
    if BT["Enum"] in c.mro:
        make_enum(c, ns)
    v = c
    for d in reversed(s.decorator_list):
        dv = ev(d, env)
        if isinstance(dv, (Inert, Ext)):
            continue
        v = call(dv, [v])
    for b in c.mro[1:]:
        if "__init_subclass__" in b.ns:
            f = b.ns["__init_subclass__"]
            fn = f.fn if isinstance(f, (PClassM, PStatic)) else f
            if isinstance(fn, PFunc):
                call(fn, [c], {k.arg: ev(k.value, env) for k in s.keywords if k.arg and k.arg != "metaclass"})
            break
    assign_name(env, s.name, v)


EXTCLS: dict = {}


def own_decorated(s, cenv, c):
    """Functions created in the class body but wrapped by decorators."""
    for f in CREATED:
        pass


CREATED: list = []


def make_enum(c, ns):
    members = []
    last = 0
    for k, v in list(ns.items()):
        if k.startswith("_") or isinstance(v, (PFunc, PProp, PStatic, PClassM, PBuiltin)):
            continue
        if isinstance(v, Inst) and v.cls.name == "auto":
            last += 1
            v = last
        elif isinstance(v, int) and not isinstance(v, bool):
            last = v
        dup = None
        for m in members:
            if isinstance(v, CONST) and m.attrs["_value_"] == v and type(m.attrs["_value_"]) is type(v):
                dup = m
        if dup is not None:
            c.ns[k] = dup
            continue
        m = new_inst(c)
        m.attrs["_name_"] = k
        m.attrs["_value_"] = v
        if m.payload is not None:
            m.payload = v
        c.ns[k] = m
        members.append(m)
    c.members = members
    if not members:
        c.members = None


# match ------------------------------------------------------------------


@st(ast.Match)
def _(s, env):
    v = ev(s.subject, env)
    for c in s.cases:
        b = {}
        if match(c.pattern, v, env, b):
            for k, x in b.items():
                assign_name(env, k, x)
            if c.guard is None or truth(ev(c.guard, env)):
                run_block(c.body, env)
                return


def match(p, v, env, b):
    if isinstance(p, ast.MatchValue):
        return truth(eq(v, ev(p.value, env)))
    if isinstance(p, ast.MatchSingleton):
        return truth(is_(v, p.value))
    if isinstance(p, ast.MatchAs):
        if p.pattern is not None and not match(p.pattern, v, env, b):
            return False
        if p.name:
            b[p.name] = v
        return True
    if isinstance(p, ast.MatchOr):
        return any(match(x, v, env, b) for x in p.patterns)
    if isinstance(p, ast.MatchClass):
        k = ev(p.cls, env)
        if not isinst(v, k):
            return False
        if p.patterns:
            if isinstance(k, PClass) and k.builtin and len(p.patterns) == 1:
                if not match(p.patterns[0], v, env, b):
                    return False
            else:
                names = to_list(getattr_(k, "__match_args__"))
                for n, q in zip(names, p.patterns):
                    if not match(q, getattr_(v, n), env, b):
                        return False
        for n, q in zip(p.kwd_attrs, p.kwd_patterns):
            try:
                x = getattr_(v, n)
            except PyExc as e:
                if subclass(e.value.cls, BT["AttributeError"]):
                    return False
                raise
            if not match(q, x, env, b):
                return False
        return True
    if isinstance(p, ast.MatchSequence):
        v = resolve(v)
        if not isinst(v, Inert("Sequence")) or isinst(v, (BT["str"], BT["bytes"])):
            return False
        xs = to_list(v)
        star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
        if not star:
            return len(xs) == len(p.patterns) and all(match(q, x, env, b) for q, x in zip(p.patterns, xs))
        i = star[0]
        after = len(p.patterns) - i - 1
        if len(xs) < len(p.patterns) - 1:
            return False
        if not all(match(q, x, env, b) for q, x in zip(p.patterns[:i], xs[:i])):
            return False
        if p.patterns[i].name:
            b[p.patterns[i].name] = PList(xs[i:len(xs) - after])
        return all(match(q, x, env, b) for q, x in zip(p.patterns[i + 1:], xs[len(xs) - after:]))
    if isinstance(p, ast.MatchMapping):
        if not isinst(v, Inert("Mapping")):
            return False
        for k, q in zip(p.keys, p.patterns):
            kk = ev(k, env)
            if not truth(contains(v, kk)) or not match(q, subscript(v, kk), env, b):
                return False
        return True
    raise Undecided(f"pattern {type(p).__name__}")


# generator functions -------------------------------------------------------


def gen_block(body, env):
    for s in body:
        yield from gen_stmt(s, env)


def gen_stmt(s, env):
    if not has_yield([s]):
        run(s, env)
        return
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield):
        yield ev(s.value.value, env) if s.value.value is not None else None
    elif isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom):
        yield from iterate(ev(s.value.value, env))
    elif isinstance(s, ast.If):
        yield from gen_block(s.body if truth(ev(s.test, env)) else s.orelse, env)
    elif isinstance(s, ast.For):
        for x in iterate(ev(s.iter, env)):
            bind_target(s.target, x, env)
            try:
                yield from gen_block(s.body, env)
            except BreakLoop:
                return
            except ContinueLoop:
                pass
        yield from gen_block(s.orelse, env)
    elif isinstance(s, ast.While):
        n = 0
        while True:
            d = len(P.decisions)
            if not truth(ev(s.test, env)):
                break
            if len(P.decisions) > d:
                n += 1
                if n > max(CFG.K, 2, CFG.LONG[0] + 8 if CFG.LONG else 0) + 1:
                    STATS.cuts += 1
                    raise PathCut()
            try:
                yield from gen_block(s.body, env)
            except BreakLoop:
                return
            except ContinueLoop:
                pass
        yield from gen_block(s.orelse, env)
    elif isinstance(s, ast.Try) and not s.finalbody:
        try:
            yield from gen_block(s.body, env)
        except PyExc as pe:
            for h in s.handlers:
                if h.type is None or exc_match(pe.value, ev(h.type, env)):
                    if h.name:
                        assign_name(env, h.name, pe.value)
                    yield from gen_block(h.body, env)
                    return
            raise
    elif isinstance(s, ast.With):
        for it in s.items:
            v = ev(it.context_expr, env)
            if it.optional_vars is not None:
                bind_target(it.optional_vars, v, env)
        yield from gen_block(s.body, env)
    else:
        raise Undecided(f"yield inside {type(s).__name__}")


# ------------------------------------------------------------------- modules

STUBROOTS: set = set()
SOURCES: dict = {}  # stub sources: module name -> text
SRCROOT = [None]
_ASTCACHE: dict = {}


def parse_file(path):
    with open(path, encoding="utf-8") as fp:
        text = fp.read()
    return ast.parse(text, path)


def find_source(name):
    if SRCROOT[0] is None:
        return None
    p = os.path.join(SRCROOT[0], *name.split("."))
    for q in (os.path.join(p, "__init__.py"), p + ".py"):
        if os.path.isfile(q):
            return q
    return None


def load_module(name, optional=False):
    if name in MODULES:
        return MODULES[name]
    path = find_source(name)
    if path is None and name not in SOURCES:
        if optional:
            return None
        return None
    if "." in name:
        parent = load_module(name.rsplit(".", 1)[0])
    else:
        parent = None
    if name in MODULES:
        return MODULES[name]
    was = CFG.loading
    CFG.loading = True
    n0 = len(CFG.universe)
    try:
        m = PModule(name, path if path is not None else f"<{name}>")
        m.ns["__name__"] = name
        MODULES[name] = m
        tree = parse_file(path) if path is not None else ast.parse(SOURCES[name], f"<{name}>")
        env = Env(None, None, m)
        run_block(tree.body, env)
        if parent is not None and isinstance(parent, PModule):
            parent.ns[name.rsplit(".", 1)[1]] = m
    finally:
        CFG.loading = was
        if not was and CFG.ready:
            for o in CFG.universe[n0:]:
                o.frz = True
    return m


def import_module(name):
    m = load_module(name)
    if m is None:
        root = name.split(".")[0]
        if find_source(root) is not None:
            raise_py("ModuleNotFoundError", f"No module named '{name}'")
        if name in HOSTMODS:
            m = PModule(name)
            m.ns.update(HOSTMODS[name]())
            MODULES[name] = m
            return m
        STUBROOTS.add(root)
        m = PModule(name)
        MODULES[name] = m
        if "." in name:
            p = import_module(name.rsplit(".", 1)[0])
            if isinstance(p, PModule):
                p.ns.setdefault(name.rsplit(".", 1)[1], m)
    return m


HOSTMODS: dict = {}
