"""Abstract semantics of the builtins and of the parts of the standard library in use."""
from __future__ import annotations

import ast
import functools

from . import interp as I
from .core import *  # noqa: F401,F403
from .core import CFG, P, STATS
from .facts import choose, decide, is_int_sym, kterm, lin, lin_add, lin_scale, restrict, tyset, typeof
from .interp import (BT, BUILTINS, CONST, ENVFNS, HOSTMODS, T, binop, bind, call, class_of, class_attr, compare,
                     concat, contains, cond_value, dict_del, dict_find, dict_keys, dict_set, dict_update, eq, fresh,
                     freeze, getattr_, ident, is_, isinst, iterate, key_match, length, load_module, lookup, new_inst,
                     not_, norm_codec, raise_py, resolve, seq_len, set_add, set_has, set_op, set_remove, setattr_,
                     str_method, STR_ALL, lacks, subclass, subscript, store_sub, del_sub, to_list, to_repr, to_str, truth, unary)


def B(name, fn):
    return PBuiltin(name, fn)


def arg(args, kwargs, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kwargs.get(name, default)


# ------------------------------------------------------------------ attributes


def builtin_attr(o, name):
    o = resolve(o)
    if isinstance(o, Sym):
        s = tyset(o)
        if s is None:
            return None
        if len(s) > 1:
            typeof(o)
            s = tyset(o)
        n = next(iter(s))
        if name == "__class__":
            return BT[n]
        if n == "str":
            if name in STR_ALL:
                return B("str." + name, lambda a, k: str_method(o, name, a, k))
            return None
        if n == "bytes":
            return bytes_attr(o, name)
        if n in ("int", "float", "bool"):
            return num_attr(o, name)
        if n in ("list", "tuple"):
            return list_attr(PList([], base=o.t), name)
        if n == "dict":
            return dict_attr(PDict([], base=o.t), name)
        if n == "NoneType":
            return None
        return None
    if name == "__class__":
        return class_of(o)
    if isinstance(o, str):
        if name in STR_ALL:
            return B("str." + name, lambda a, k: str_method(o, name, a, k))
        return None
    if isinstance(o, bytes):
        return bytes_attr(o, name)
    if isinstance(o, (int, float, complex)):
        return num_attr(o, name)
    if isinstance(o, PList):
        return list_attr(o, name)
    if isinstance(o, PDict):
        return dict_attr(o, name)
    if isinstance(o, PSet):
        return set_attr(o, name)
    if isinstance(o, tuple):
        return tuple_attr(o, name)
    if isinstance(o, PRange):
        return {"start": o.a, "stop": o.b, "step": o.c}.get(name)
    if isinstance(o, PSlice):
        if name in ("start", "stop", "step"):
            return B_CONST({"start": o.a, "stop": o.b, "step": o.c}[name])
        return None
    if isinstance(o, PIter):
        if name == "__next__":
            return B("__next__", lambda a, k: b_next([o], {}))
        if name == "__iter__":
            return B("__iter__", lambda a, k: o)
        return None
    if isinstance(o, PUnion) and name == "__args__":
        return tuple(o.types)
    if o is None and name == "__bool__":
        return B("bool", lambda a, k: False)
    return common_attr(o, name)


def B_CONST(v):
    return v


CMPS = {"__eq__": "==", "__ne__": "!=", "__lt__": "<", "__le__": "<=", "__gt__": ">", "__ge__": ">="}


def common_attr(o, name):
    if name in CMPS:
        return B(name, lambda a, k: compare(CMPS[name], o, a[0]))
    if name == "__hash__":
        return B(name, lambda a, k: b_hash([o], {}))
    if name == "__str__":
        return B(name, lambda a, k: to_str(o))
    if name == "__repr__":
        return B(name, lambda a, k: to_repr(o))
    if name == "__bool__":
        return B(name, lambda a, k: truth(o))
    if name == "__format__":
        return B(name, lambda a, k: to_str(o))
    return None


def num_attr(o, name):
    ops = {"__add__": "+", "__sub__": "-", "__mul__": "*", "__truediv__": "/", "__floordiv__": "//", "__mod__": "%",
           "__pow__": "**", "__and__": "&", "__or__": "|", "__xor__": "^"}
    if name in ops:
        return B(name, lambda a, k: binop(ops[name], o, a[0]))
    if name == "__neg__":
        return B(name, lambda a, k: unary("-", o))
    if name == "__int__":
        return B(name, lambda a, k: b_int([o], {}))
    if name == "__float__":
        return B(name, lambda a, k: b_float([o], {}))
    if name == "is_integer":
        return B(name, lambda a, k: o.is_integer() if isinstance(o, (int, float)) else cond_value(("pred", "isinteger", T(o))))
    if name in ("real", "numerator"):
        return o
    if name in ("imag",):
        return 0
    if name == "bit_length":
        return B(name, lambda a, k: o.bit_length() if isinstance(o, int) else Sym(("call", "bit_length", T(o)), "int"))
    return common_attr(o, name)


def bytes_attr(o, name):
    if name == "decode":
        def dec(a, k):
            enc = norm_codec(resolve(arg(a, k, 0, "encoding", "utf-8")))
            err = resolve(arg(a, k, 1, "errors", "strict"))
            return b_decode(o, enc, err)
        return B("bytes.decode", dec)
    if isinstance(o, bytes) and hasattr(o, name):
        def f(a, k):
            if all(isinstance(x, CONST) for x in a):
                try:
                    r = getattr(o, name)(*a, **k)
                except (TypeError, ValueError) as e:
                    raise_py(type(e).__name__, str(e))
                return PList(r) if isinstance(r, list) else r
            return Sym(("call", "bytes." + name, T(o)) + tuple(T(x) for x in a), None)
        return B("bytes." + name, f)
    if name in ("startswith", "endswith"):
        return B("bytes." + name, lambda a, k: cond_value((name, T(o), T(a[0]))))
    if name in ("strip", "replace", "lower", "lstrip", "rstrip"):
        return B("bytes." + name, lambda a, k: Sym(("call", "bytes." + name, T(o)) + tuple(T(x) for x in a), "bytes"))
    return common_attr(o, name)


def b_decode(o, enc, err):
    if isinstance(enc, Sym) and not restrict(enc, ["str"]) or enc is None:
        raise_py("TypeError", "decode() argument 'encoding' must be str")
    if isinstance(o, bytes) and isinstance(enc, str) and isinstance(err, str):
        try:
            return o.decode(enc, err)
        except (UnicodeError, LookupError) as e:
            raise_py(type(e).__name__, str(e))
    if enc == "unicode-escape" and isinstance(o, Sym) and o.t[0] == "encode":
        # escapes written by the encoder are the only ones if the text has no backslash
        e, r = o.t[2][1], o.t[3][1]
        if (e in ("latin-1", "ascii") and r == "backslashreplace" or e in ("raw-unicode-escape", "unicode-escape")) and lacks(Sym(o.t[1], "str"), "\\"):
            return Sym(o.t[1], "str")
    if err == "strict" and decide(("pred", "undecodable", T(o), T(enc))):
        raise_py("UnicodeDecodeError", "cannot decode")
    return Sym(("decode", T(o), T(enc), T(err)), "str")


def list_attr(o, name):
    def m(fn):
        return B("list." + name, fn)

    def full():
        if o.base is not None:
            return I.seq_of(o.base, I.ELEMTY.get(o.base)) + list(o.items)
        return o.items

    if name == "append":
        def f(a, k):
            touch(o)
            o.items = o.items + [a[0]]
        return m(f)
    if name == "extend":
        def f(a, k):
            src = resolve(a[0])
            if isinstance(src, Inst) and isinstance(src.payload, PList) and src.cls.lookup("__iter__") is None:
                src = src.payload
            touch(o)
            if isinstance(src, PList) and src.base is not None and o.base is None and not o.items:
                o.base = src.base
                o.items = list(src.items)
                return
            if isinstance(src, PList) and src.base is not None and src is not o:
                raise I.Undecided("extend with an opaque list")
            o.items = o.items + to_list(src)
        return m(f)
    if name == "insert":
        def f(a, k):
            i = resolve(a[0])
            if o.base is not None or isinstance(i, Sym):
                raise I.Undecided("insert in an opaque list")
            touch(o)
            xs = list(o.items)
            xs.insert(i, a[1])
            o.items = xs
        return m(f)
    if name == "clear":
        def f(a, k):
            touch(o)
            o.items = []
            o.base = None
        return m(f)
    if name == "pop":
        def f(a, k):
            i = a[0] if a else -1
            if o.base is not None and not o.items:
                raise I.Undecided("pop of an opaque list")
            v = subscript(o, i)
            touch(o)
            xs = list(o.items)
            if isinstance(resolve(i), Sym):
                raise I.Undecided("pop at unknown index")
            del xs[i]
            o.items = xs
            return v
        return m(f)
    if name == "remove":
        def f(a, k):
            if o.base is not None:
                raise I.Undecided("remove from an opaque list")
            for i, x in enumerate(o.items):
                if x is a[0] and not isinstance(x, Sym) or truth(eq(x, a[0])):
                    touch(o)
                    xs = list(o.items)
                    del xs[i]
                    o.items = xs
                    return None
            raise_py("ValueError", "list.remove(x): x not in list")
        return m(f)
    if name == "index":
        def f(a, k):
            for i, x in enumerate(full()):
                if x is a[0] and not isinstance(x, Sym) or truth(eq(x, a[0])):
                    return i
            raise_py("ValueError", "x is not in list")
        return m(f)
    if name == "count":
        def f(a, k):
            return sum(1 for x in full() if x is a[0] and not isinstance(x, Sym) or truth(eq(x, a[0])))
        return m(f)
    if name == "copy":
        return m(lambda a, k: PList(o.items, o.base, o.unb))
    if name == "sort":
        def f(a, k):
            r = b_sorted([o], k)
            touch(o)
            o.items = r.items
            o.base = None
        return m(f)
    if name == "reverse":
        def f(a, k):
            touch(o)
            o.items = list(full())[::-1]
            o.base = None
        return m(f)
    if name == "__len__":
        return m(lambda a, k: length(o))
    if name == "__iter__":
        return m(lambda a, k: PIter(iterate(o)))
    if name == "__getitem__":
        return m(lambda a, k: subscript(o, a[0]))
    if name == "__setitem__":
        return m(lambda a, k: store_sub(o, a[0], a[1]))
    if name == "__delitem__":
        return m(lambda a, k: del_sub(o, a[0]))
    if name == "__contains__":
        return m(lambda a, k: contains(o, a[0]))
    if name == "__add__":
        return m(lambda a, k: binop("+", o, a[0]))
    if name == "__reversed__":
        return m(lambda a, k: PIter(iter(list(full())[::-1])))
    if name == "__init__":
        def f(a, k):
            touch(o)
            o.items = to_list(a[0]) if a else []
            o.base = None
        return m(f)
    return common_attr(o, name) if name != "__hash__" else None


def tuple_attr(o, name):
    if name in ("index", "count", "__len__", "__iter__", "__getitem__", "__contains__"):
        return list_attr(PList(o), name)
    if name == "__add__":
        return B(name, lambda a, k: binop("+", o, a[0]))
    return common_attr(o, name)


def dict_attr(o, name):
    def m(fn):
        return B("dict." + name, fn)

    def pairs():
        if o.base is not None:
            return [(k, subscript(o, k)) for k in dict_keys(o)]
        return [(k, v) for k, v in o.items]

    if name == "get":
        def f(a, k):
            r = dict_find(o, a[0])
            return r[1] if r is not None else arg(a, k, 1, "default")
        return m(f)
    if name == "keys":
        return m(lambda a, k: PList(dict_keys(o)))
    if name == "values":
        return m(lambda a, k: PList([v for _, v in pairs()]))
    if name == "items":
        return m(lambda a, k: PList([(x, v) for x, v in pairs()]) if o.base is None else PView(o, pairs))
    if name == "update":
        def f(a, k):
            if a:
                dict_update(o, a[0])
            for x, v in k.items():
                dict_set(o, x, v)
        return m(f)
    if name == "pop":
        def f(a, k):
            r = dict_find(o, a[0])
            if r is None:
                if len(a) > 1:
                    return a[1]
                raise_py("KeyError", a[0])
            v = r[1]
            dict_del(o, a[0])
            return v
        return m(f)
    if name == "popitem":
        def f(a, k):
            if not o.items:
                raise_py("KeyError", "popitem(): dictionary is empty")
            touch(o)
            k_, v = o.items[-1]
            o.items = o.items[:-1]
            return (k_, v)
        return m(f)
    if name == "setdefault":
        def f(a, k):
            r = dict_find(o, a[0])
            if r is not None:
                return r[1]
            v = a[1] if len(a) > 1 else None
            dict_set(o, a[0], v)
            return v
        return m(f)
    if name == "clear":
        def f(a, k):
            touch(o)
            o.items = []
            o.base = None
        return m(f)
    if name == "copy":
        return m(lambda a, k: PDict(o.items, o.base))
    if name == "__len__":
        return m(lambda a, k: length(o))
    if name == "__iter__":
        return m(lambda a, k: PIter(iter(dict_keys(o))))
    if name == "__getitem__":
        return m(lambda a, k: subscript(o, a[0]))
    if name == "__setitem__":
        return m(lambda a, k: dict_set(o, a[0], a[1]))
    if name == "__delitem__":
        return m(lambda a, k: dict_del(o, a[0]))
    if name == "__contains__":
        return m(lambda a, k: contains(o, a[0]))
    if name == "__init__":
        def f(a, k):
            if a:
                dict_update(o, a[0])
        return m(f)
    return common_attr(o, name) if name != "__hash__" else None


def set_attr(o, name):
    def m(fn):
        return B("set." + name, fn)

    def as_set(x):
        x = resolve(x)
        if isinstance(x, PSet):
            return x
        s = PSet()
        for y in iterate(x):
            set_add(s, y)
        return s

    if name == "add":
        return m(lambda a, k: set_add(o, a[0]))
    if name == "discard":
        return m(lambda a, k: set_remove(o, a[0], False))
    if name == "remove":
        return m(lambda a, k: set_remove(o, a[0], True))
    if name == "clear":
        def f(a, k):
            touch(o)
            o.items = []
            o.base = None
        return m(f)
    if name in ("update", "|="):
        def f(a, k):
            for x in a:
                for y in to_list(x):
                    set_add(o, y)
        return m(f)
    if name in ("difference_update", "intersection_update", "symmetric_difference_update"):
        op = {"difference_update": "-", "intersection_update": "&", "symmetric_difference_update": "^"}[name]

        def f(a, k):
            for x in a:
                r = set_op(op, o, as_set(x))
                touch(o)
                o.items = r.items
        return m(f)
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        op = {"union": "|", "intersection": "&", "difference": "-", "symmetric_difference": "^"}[name]

        def f(a, k):
            r = PSet(o.items, o.base)
            for x in a:
                r = set_op(op, r, as_set(x))
            return r
        return m(f)
    if name == "copy":
        return m(lambda a, k: PSet(o.items, o.base))
    if name == "pop":
        def f(a, k):
            if not o.items:
                raise_py("KeyError", "pop from an empty set")
            touch(o)
            x = o.items[0]
            o.items = o.items[1:]
            return x
        return m(f)
    if name == "issubset":
        return m(lambda a, k: all(set_has(as_set(a[0]), x) for x in o.items))
    if name == "issuperset":
        return m(lambda a, k: all(set_has(o, x) for x in to_list(a[0])))
    if name == "isdisjoint":
        return m(lambda a, k: not any(set_has(o, x) for x in to_list(a[0])))
    if name == "__len__":
        return m(lambda a, k: length(o))
    if name == "__iter__":
        return m(lambda a, k: PIter(iterate(o)))
    if name == "__contains__":
        return m(lambda a, k: contains(o, a[0]))
    return common_attr(o, name) if name != "__hash__" else None


def object_attr(o, name):
    """Attributes every instance inherits from object (and Exception)."""
    if name == "__eq__":
        return B(name, lambda a, k: True if a[0] is o else I.NOTIMPL)
    if name == "__ne__":
        return B(name, lambda a, k: not_(eq(o, a[0])))
    if name == "__hash__":
        return B(name, lambda a, k: Sym(("hash", ("id", ident(o))), "int"))
    if name == "__repr__":
        return B(name, lambda a, k: to_repr(o) if o.cls.lookup("__repr__") is None else Sym(("repr", ("obj", o.cls.name, ident(o))), "str"))
    if name == "__str__":
        return B(name, lambda a, k: default_str(o))
    if name == "__format__":
        return B(name, lambda a, k: to_str(o))
    if name == "__init__":
        return B(name, lambda a, k: None)
    if name == "__setattr__":
        def f(a, k):
            touch(o)
            o.attrs[a[0]] = a[1]
        return B(name, f)
    if name == "__getattribute__":
        return B(name, lambda a, k: getattr_(o, a[0]))
    if name == "__delattr__":
        return B(name, lambda a, k: I.delattr_(o, a[0]))
    if name == "__module__":
        return o.cls.module
    if name == "__doc__":
        return None
    if name == "__sizeof__":
        return B(name, lambda a, k: 0)
    if name in ("__reduce__", "__reduce_ex__", "__copy__", "__deepcopy__"):
        return None
    return None


def default_str(o):
    if o.cls.members is not None:
        return f"{o.cls.name}.{o.attrs['_name_']}"
    if BT["BaseException"] in o.cls.mro:
        a = o.attrs.get("args", ())
        if len(a) == 1:
            return to_str(a[0])
        if not a:
            return ""
        return Sym(("str", freeze(tuple(a))), "str")
    f = o.cls.lookup("__repr__")
    if f is not None:
        return call(bind(f, o), [])
    return Sym(("repr", ("obj", o.cls.name, ident(o))), "str")


PROTO = {"str": "", "int": 0, "float": 0.0, "bool": False, "bytes": b"", "tuple": ()}


def builtin_class_attr(c, name):
    if name == "__init__":
        def f(a, k):
            o = a[0]
            if isinstance(o, Inst):
                return super_init(o, a[1:], k)
        return B("object.__init__", f)
    if name == "__new__":
        return B("object.__new__", lambda a, k: new_inst(a[0]))
    if name == "__subclasshook__":
        return None
    if name == "__call__":
        return B("__call__", lambda a, k: call(c, a, k))
    if name == "__or__":
        return B("__or__", lambda a, k: PUnion((c, a[0])))
    for k in c.mro:
        if not k.builtin:
            continue
        if k.name == "dict" and name == "fromkeys":
            def f(a, kw):
                d = PDict()
                for x in iterate(a[0]):
                    dict_set(d, x, a[1] if len(a) > 1 else None)
                return d
            return B("dict.fromkeys", f)
        if k.name == "str" and name == "maketrans":
            return B("maketrans", lambda a, kw: str_method("", "maketrans", a, kw))
        if k.name == "int" and name == "from_bytes":
            return B("from_bytes", lambda a, kw: Sym(("from_bytes",) + tuple(T(x) for x in a), "int"))
        if k.name in PROTO or k.name in ("list", "dict", "set", "frozenset"):
            proto = PROTO[k.name] if k.name in PROTO else {"list": PList, "dict": PDict, "set": PSet, "frozenset": PSet}[k.name]()
            if builtin_attr(proto, name) is not None:
                def unbound(a, kw, kn=k.name):
                    o = resolve(a[0])
                    if isinstance(o, Inst) and o.payload is not None:
                        o = o.payload
                    if not isinst(o, BT[kn]):
                        raise_py("TypeError", f"descriptor '{name}' for '{kn}' objects doesn't apply")
                    return call(builtin_attr(o, name), a[1:], kw)
                return B(f"{k.name}.{name}", unbound)
    if name in ("__eq__", "__ne__", "__hash__", "__str__", "__repr__", "__setattr__", "__getattribute__", "__format__"):
        def unbound2(a, kw):
            o = resolve(a[0])
            r = object_attr(o, name) if isinstance(o, Inst) else builtin_attr(o, name)
            return call(r, a[1:], kw)
        return B("object." + name, unbound2)
    return None


def super_init(o, args, kwargs):
    if BT["BaseException"] in o.cls.mro:
        touch(o)
        o.attrs["args"] = tuple(args)
        return None
    if isinstance(o.payload, PList):
        touch(o.payload)
        o.payload.items = []
        o.payload.base = None
        if args:
            call(list_attr(o.payload, "extend"), [args[0]])
        return None
    if isinstance(o.payload, PDict):
        if args:
            dict_update(o.payload, args[0])
        for k, v in kwargs.items():
            dict_set(o.payload, k, v)
        return None
    if isinstance(o.payload, PSet):
        if args:
            for x in iterate(args[0]):
                set_add(o.payload, x)
        return None
    if o.payload is None and (args or kwargs):
        n = o.cls.lookup("__new__")
        if n is None:
            raise_py("TypeError", f"{o.cls.name}() takes no arguments")
    return None


def super_builtin(obj, name):
    if name == "__init__":
        return B("super.__init__", lambda a, k: super_init(obj, a, k))
    if name == "__new__":
        return B("super.__new__", lambda a, k: new_inst(a[0]))
    if obj.payload is not None:
        r = builtin_attr(obj.payload, name)
        if r is not None:
            return r
    if name == "__class__":
        return None
    if name == "__init_subclass__":
        return B(name, lambda a, k: None)
    if name in ("__eq__",):
        return B(name, lambda a, k: True if a[0] is obj else I.NOTIMPL)
    if name == "__str__":
        return B(name, lambda a, k: default_str(obj) if BT["BaseException"] in obj.cls.mro or obj.cls.members is not None
                 else Sym(("repr", ("obj", obj.cls.name, ident(obj))), "str"))
    if name == "__getattr__":
        return None
    return None


# ------------------------------------------------------------------ constructors


def b_int(args, kwargs):
    if not args:
        return 0
    v = resolve(args[0])
    if len(args) > 1 or "base" in kwargs:
        base = arg(args, kwargs, 1, "base")
        if isinstance(v, str) and isinstance(base, int):
            try:
                return int(v, base)
            except ValueError as e:
                raise_py("ValueError", str(e))
        if base == 10:
            return b_int([v], {})
        if not decide(("pred", "isint", T(v), T(base))):
            raise_py("ValueError", "invalid literal for int()")
        return Sym(("int", T(v), T(base)), "int")
    if isinstance(v, Inst):
        f = v.cls.lookup("__int__") or v.cls.lookup("__index__")
        if f is not None:
            return call(bind(f, v), [])
        if v.payload is not None:
            return b_int([v.payload], {})
        raise_py("TypeError", "int() argument must be a string, a bytes-like object or a real number")
    if isinstance(v, (bool, int, float, str, bytes)):
        try:
            return int(v)
        except (ValueError, OverflowError) as e:
            raise_py(type(e).__name__, str(e))
    if isinstance(v, Sym):
        if tyset(v) is None:
            return Sym(("int", v.t), "int")
        n = typeof(v)
        if n == "int":
            return v
        if n == "bool":
            return 1 if truth(v) else 0
        if n == "float":
            if decide(("pred", "nan", v.t)):
                raise_py("ValueError", "cannot convert float NaN to integer")
            if decide(("pred", "inf", v.t)):
                raise_py("OverflowError", "cannot convert float infinity to integer")
            return Sym(("int", v.t), "int")
        if n == "str":
            if not decide(("pred", "isint", v.t)):
                raise_py("ValueError", "invalid literal for int() with base 10")
            return Sym(("int", v.t), "int")
    raise_py("TypeError", f"int() argument must be a string, a bytes-like object or a real number, not '{class_of(v).name}'")


def b_float(args, kwargs):
    if not args:
        return 0.0
    v = resolve(args[0])
    if isinstance(v, Inst):
        f = v.cls.lookup("__float__")
        if f is not None:
            return call(bind(f, v), [])
        if v.payload is not None:
            return b_float([v.payload], {})
        raise_py("TypeError", "float() argument must be a string or a real number")
    if isinstance(v, (bool, int, float, str)):
        try:
            return float(v)
        except (ValueError, OverflowError) as e:
            raise_py(type(e).__name__, str(e))
    if isinstance(v, Sym):
        if tyset(v) is None:
            return Sym(("float", v.t), "float")
        n = typeof(v)
        if n == "float":
            return v
        if n == "bool":
            return 1.0 if truth(v) else 0.0
        if n == "int":
            if decide(("pred", "huge", v.t)):
                raise_py("OverflowError", "int too large to convert to float")
            return Sym(("float", v.t), "float")
        if n == "str":
            if not decide(("pred", "isfloat", v.t)):
                raise_py("ValueError", "could not convert string to float")
            return Sym(("float", v.t), "float")
    raise_py("TypeError", f"float() argument must be a string or a real number, not '{class_of(v).name}'")


def b_bool(args, kwargs):
    if not args:
        return False
    return truth(args[0])


def b_str(args, kwargs):
    if not args:
        return ""
    if len(args) > 1 or "encoding" in kwargs:
        return b_decode(resolve(args[0]), norm_codec(resolve(arg(args, kwargs, 1, "encoding", "utf-8"))),
                        resolve(arg(args, kwargs, 2, "errors", "strict")))
    return to_str(args[0])


def opaque_base(v):
    """The opaque base of a list-like value, if the whole content can be carried over."""
    v = resolve(v)
    if isinstance(v, Inst) and isinstance(v.payload, PList) and v.cls.lookup("__iter__") is None:
        v = v.payload
    if isinstance(v, PList) and v.base is not None:
        return v
    return None


def b_list(args, kwargs):
    if not args:
        return PList()
    o = opaque_base(args[0])
    if o is not None:
        return PList(o.items, o.base, o.unb)
    v = resolve(args[0])
    return PList(to_list(v), unb=isinstance(v, PList) and v.unb)


def b_dict(args, kwargs):
    d = PDict()
    if args:
        dict_update(d, args[0])
    for k, v in kwargs.items():
        dict_set(d, k, v)
    return d


def b_set(args, kwargs, imm=False):
    s = PSet()
    if args:
        for x in to_list(args[0]):
            set_add(s, x)
    s.immutable = imm
    return s


def b_type(args, kwargs):
    if len(args) == 1:
        return class_of(resolve(args[0]))
    if len(args) != 3:
        raise_py("TypeError", "type() takes 1 or 3 arguments")
    name, bases, ns = args
    c = PClass(name, [b for b in to_list(bases) if isinstance(b, PClass)] or [BT["object"]],
               {k: v for k, v in ns.items}, module="<dynamic>")
    return c


def b_range(args, kwargs):
    args = [resolve(a) for a in args]
    for i, a in enumerate(args):
        if isinstance(a, Sym):
            if not restrict(a, ["int", "bool"]):
                raise_py("TypeError", "object cannot be interpreted as an integer")
            if typeof(a) == "bool":
                args[i] = 1 if truth(a) else 0
        elif isinstance(a, bool):
            args[i] = int(a)
        elif not isinstance(a, int):
            raise_py("TypeError", f"'{class_of(a).name}' object cannot be interpreted as an integer")
    if len(args) == 1:
        r = PRange(0, args[0], 1)
    elif len(args) == 2:
        r = PRange(args[0], args[1], 1)
    else:
        r = PRange(*args)
    if truth(eq(r.c, 0)):
        raise_py("ValueError", "range() arg 3 must not be zero")
    return r


def b_slice(args, kwargs):
    if len(args) == 1:
        return PSlice(None, args[0], None)
    if len(args) == 2:
        return PSlice(args[0], args[1], None)
    return PSlice(*args)


def builtin_new(c, args, kwargs):
    f = NEW.get(c.name)
    if f is not None:
        return f(args, kwargs)
    if BT["BaseException"] in c.mro:
        e = Inst(c)
        e.attrs["args"] = tuple(args)
        return e
    if c.name == "object":
        if args:
            raise_py("TypeError", "object() takes no arguments")
        return Inst(c)
    raise I.Undecided(f"constructor of {c.name}")


def b_enumerate(args, kwargs):
    start = arg(args, kwargs, 1, "start", 0)

    def g():
        i = start
        for x in src:
            yield (i, x)
            i = binop("+", i, 1)

    src = iterate(args[0])
    return PIter(g())


def b_zip(args, kwargs):
    its = [iterate(a) for a in args]
    strict = kwargs.get("strict", False)

    def g():
        if not its:
            return
        while True:
            out = []
            for i, it in enumerate(its):
                try:
                    out.append(next(it))
                except StopIteration:
                    if strict:
                        if i:
                            raise_py("ValueError", "zip() argument is shorter")
                        for jt in its[1:]:
                            for _ in jt:
                                raise_py("ValueError", "zip() argument is longer")
                    return
            yield tuple(out)

    return PIter(g())


def b_map(args, kwargs):
    f = args[0]
    its = [iterate(a) for a in args[1:]]

    def g():
        while True:
            out = []
            for it in its:
                try:
                    out.append(next(it))
                except StopIteration:
                    return
            yield call(f, out)

    return PIter(g())


def b_filter(args, kwargs):
    f = args[0]
    src = iterate(args[1])
    return PIter(x for x in src if (truth(x) if f is None else truth(call(f, [x]))))


def b_reversed(args, kwargs):
    v = resolve(args[0])
    if isinstance(v, Inst) and v.cls.lookup("__reversed__") is not None:
        return call(bind(v.cls.lookup("__reversed__"), v), [])
    return PIter(iter(to_list(v)[::-1]))


NEW = {
    "int": b_int, "float": b_float, "bool": b_bool, "str": b_str, "list": b_list, "dict": b_dict, "set": b_set,
    "tuple": lambda a, k: tuple(to_list(a[0])) if a else (),
    "frozenset": lambda a, k: b_set(a, k, True),
    "type": b_type, "range": b_range, "slice": b_slice, "enumerate": b_enumerate, "zip": b_zip, "map": b_map,
    "filter": b_filter, "reversed": b_reversed,
    "property": lambda a, k: PProp(*[arg(a, k, i, n) for i, n in enumerate(("fget", "fset", "fdel"))]),
    "staticmethod": lambda a, k: PStatic(a[0]),
    "classmethod": lambda a, k: PClassM(a[0]),
    "super": lambda a, k: PSuper(a[0], a[1]),
    "NoneType": lambda a, k: None,
    "bytes": lambda a, k: b"" if not a else (a[0] if isinstance(a[0], bytes) else (
        call(builtin_attr(a[0], "encode"), a[1:2]) if isinst(a[0], BT["str"]) else Sym(("bytes", T(a[0])), "bytes"))),
    "complex": lambda a, k: Sym(("complex",) + tuple(T(x) for x in a), "complex"),
    "bytearray": lambda a, k: Sym(("bytearray",) + tuple(T(x) for x in a), "bytes"),
}


# ------------------------------------------------------------------- functions


def b_len(a, k):
    if len(a) != 1:
        raise_py("TypeError", "len() takes exactly one argument")
    return length(a[0])


def b_hash(a, k):
    v = resolve(a[0])
    I.hashable(v)
    if isinstance(v, Inst):
        f = v.cls.lookup("__hash__")
        if f is not None and f is not None:
            return call(bind(f, v), [])
        return Sym(("hash", ("id", ident(v))), "int")
    if isinstance(v, (PClass, PFunc, PBuiltin)):
        return Sym(("hash", freeze(v)), "int")
    return Sym(("hash", freeze(v)), "int")


def name_of(n):
    n = resolve(n)
    if isinstance(n, str):
        return n
    return n


def dyn_names(o):
    """All attribute names of an object that the analysed source defines."""
    names = []
    c = o.cls if isinstance(o, Inst) else o if isinstance(o, PClass) else None
    if isinstance(o, Inst):
        names += list(o.attrs)
    if c is not None:
        for k in c.mro:
            names += list(k.ns)
    if isinstance(o, PModule):
        names += list(o.ns)
    return sorted(set(names))


def dyn_name(o, n):
    """A concrete attribute name, or None (it is none of the known names)."""
    n = resolve(n)
    if isinstance(n, str):
        return n
    if isinstance(n, Sym):
        if n.t[0] == "cat":
            return dyn_cat(o, n)
        for x in dyn_names(o):
            if truth(eq(n, x)):
                return x
        return None
    raise_py("TypeError", "attribute name must be string")


def dyn_cat(o, n):
    """prefix + unknown + suffix: compare the unknown part with each possible middle."""
    parts = n.t[1:]
    unk = [i for i, p in enumerate(parts) if p[0] != "k"]
    if len(unk) != 1:
        raise I.Undecided("attribute name made of several unknown parts")
    i = unk[0]
    pre = parts[0][1] if i > 0 else ""
    suf = parts[-1][1] if i < len(parts) - 1 else ""
    u = Sym(parts[i], "str")
    for x in dyn_names(o):
        if x.startswith(pre) and x.endswith(suf) and len(x) >= len(pre) + len(suf):
            mid = x[len(pre):len(x) - len(suf)] if suf else x[len(pre):]
            if truth(eq(u, mid)):
                return x
    return None


def b_getattr(a, k):
    o = resolve(a[0])
    n = dyn_name(o, a[1])
    try:
        if n is None:
            raise_py("AttributeError", "no such attribute")
        return getattr_(o, n)
    except PyExc as e:
        if len(a) > 2 and subclass(e.value.cls, BT["AttributeError"]):
            return a[2]
        raise


def b_hasattr(a, k):
    o = resolve(a[0])
    n = dyn_name(o, a[1])
    if n is None:
        return False
    try:
        getattr_(o, n)
        return True
    except PyExc as e:
        if subclass(e.value.cls, BT["AttributeError"]):
            return False
        raise


def b_callable(a, k):
    v = resolve(a[0])
    if isinstance(v, Inst):
        return v.cls.lookup("__call__") is not None
    if isinstance(v, Sym):
        return decide(("isinst", v.t, ("function",), "callable")) if tyset(v) is None else restrict(v, ["function"])
    return isinstance(v, (PFunc, PBuiltin, PBound, PPartial, PClass, Ext))


def b_next(a, k):
    it = resolve(a[0])
    if isinstance(it, Inst):
        try:
            return call(getattr_(it, "__next__"), [])
        except PyExc as e:
            if len(a) > 1 and subclass(e.value.cls, BT["StopIteration"]):
                return a[1]
            raise
    if not isinstance(it, PIter):
        raise_py("TypeError", "object is not an iterator")
    try:
        return next(it.it)
    except StopIteration:
        if len(a) > 1:
            return a[1]
        raise_py("StopIteration")


def b_iter(a, k):
    if len(a) == 2:
        def g():
            n = 0
            while True:
                x = call(a[0], [])
                if truth(eq(x, a[1])):
                    return
                n += 1
                if n > 200:
                    raise I.Undecided("iter(callable, sentinel)")
                yield x
        return PIter(g())
    v = resolve(a[0])
    if isinstance(v, PIter):
        return v
    if isinstance(v, Inst) and v.cls.lookup("__iter__") is not None:
        return call(bind(v.cls.lookup("__iter__"), v), [])
    return PIter(iterate(v))


def lt(a, b):
    return truth(compare("<", a, b))


def b_sorted(a, k):
    key = k.get("key")
    rev = truth(k.get("reverse", False))
    xs = to_list(a[0])
    ks = [(call(key, [x]) if key is not None else x, x) for x in xs]
    if rev:
        ks = ks[::-1]
    out = []
    for kx in ks:  # stable insertion sort
        i = len(out)
        while i > 0 and lt(kx[0], out[i - 1][0]):
            i -= 1
        out.insert(i, kx)
    if rev:
        out = out[::-1]
    return PList([x for _, x in out])


def b_minmax(which):
    def f(a, k):
        xs = to_list(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if "default" in k:
                return k["default"]
            raise_py("ValueError", f"{which}() iterable argument is empty")
        key = k.get("key")
        best = xs[0]
        bk = call(key, [best]) if key is not None else best
        for x in xs[1:]:
            kx = call(key, [x]) if key is not None else x
            if lt(kx, bk) if which == "min" else lt(bk, kx):
                best, bk = x, kx
        return best
    return f


def b_sum(a, k):
    r = arg(a, k, 1, "start", 0)
    for x in iterate(a[0]):
        r = binop("+", r, b_as_num(x))
    return r


def b_as_num(x):
    x = resolve(x)
    if isinstance(x, Sym) and tyset(x) == frozenset(["bool"]):
        return 1 if truth(x) else 0
    return x


def b_any(a, k):
    for x in iterate(a[0]):
        if truth(x):
            return True
    return False


def b_all(a, k):
    for x in iterate(a[0]):
        if not truth(x):
            return False
    return True


def b_print(a, k):
    P.trace.append(("print",) + tuple(freeze(x) for x in a))


def b_abs(a, k):
    v = resolve(a[0])
    if isinstance(v, (int, float)):
        return abs(v)
    if lt(v, 0):
        return unary("-", v)
    return v


def b_dir(a, k):
    o = a[0]
    names = [n for n in dyn_names(o) if not (n.startswith("__") and n in ("__annots__", "__classname__", "__ext__"))]
    for n in ("__class__", "__doc__", "__eq__", "__hash__", "__init__", "__repr__", "__str__"):
        if n not in names:
            names.append(n)
    return PList(sorted(names))


def b_isinstance(a, k):
    v, kk = a
    if isinstance(kk, tuple):
        kk = flat(kk)
        # python evaluates the alternatives together
    return isinst(v, kk)


def flat(k):
    out = []
    for x in k:
        out.extend(flat(x) if isinstance(x, tuple) else [x])
    return tuple(out)


def b_issubclass(a, k):
    if not isinstance(a[0], PClass):
        raise_py("TypeError", "issubclass() arg 1 must be a class")
    return subclass(a[0], flat(a[1]) if isinstance(a[1], tuple) else a[1])


def b_open(a, k):
    return call(load_module("_sa_io").ns["File"], a, k)


def b_vars(a, k):
    if not a:
        raise I.Undecided("vars()")
    return I.InstDict(a[0]) if isinstance(a[0], Inst) else getattr_(a[0], "__dict__")


def b_round(a, k):
    v = resolve(a[0])
    if isinstance(v, CONST) and all(isinstance(x, CONST) for x in a):
        return round(*a)
    return Sym(("round",) + tuple(T(x) for x in a), "int" if len(a) == 1 else None)


def b_pow(a, k):
    if len(a) == 2:
        return binop("**", a[0], a[1])
    return Sym(("pow",) + tuple(T(x) for x in a), "int")


def b_format(a, k):
    if len(a) == 1 or a[1] == "":
        return to_str(a[0])
    return Sym(("fmt", T(a[0]), T(a[1])), "str")


def b_ord(a, k):
    v = resolve(a[0])
    return ord(v) if isinstance(v, str) and len(v) == 1 else Sym(("ord", T(v)), "int")


FUNCS = {
    "len": b_len, "isinstance": b_isinstance, "issubclass": b_issubclass, "hash": b_hash, "getattr": b_getattr,
    "hasattr": b_hasattr, "callable": b_callable, "next": b_next, "iter": b_iter, "sorted": b_sorted,
    "min": b_minmax("min"), "max": b_minmax("max"), "sum": b_sum, "any": b_any, "all": b_all, "print": b_print,
    "abs": b_abs, "dir": b_dir, "open": b_open, "vars": b_vars, "round": b_round, "pow": b_pow, "format": b_format,
    "ord": b_ord,
    "repr": lambda a, k: to_repr(a[0]),
    "id": lambda a, k: Sym(("idof", ident(a[0])), "int"),
    "setattr": lambda a, k: setattr_(a[0], dyn_name(a[0], a[1]) or a[1], a[2]),
    "delattr": lambda a, k: I.delattr_(a[0], a[1]),
    "chr": lambda a, k: chr(a[0]) if isinstance(a[0], int) else Sym(("chr", T(a[0])), "str"),
    "divmod": lambda a, k: (binop("//", a[0], a[1]), binop("%", a[0], a[1])),
    "bin": lambda a, k: Sym(("bin", T(a[0])), "str"),
    "hex": lambda a, k: Sym(("hex", T(a[0])), "str"),
    "ascii": lambda a, k: Sym(("ascii", T(a[0])), "str"),
}
for _n, _f in FUNCS.items():
    BUILTINS[_n] = PBuiltin(_n, _f)
BUILTINS["NotImplemented"] = I.NOTIMPL
BUILTINS["Ellipsis"] = Ellipsis
BUILTINS["__debug__"] = True
for _n in ("enumerate", "zip", "map", "filter", "reversed", "range", "slice", "property", "staticmethod", "classmethod", "super"):
    BUILTINS[_n] = BT[_n]

BUILTINS["globals"] = PBuiltin("globals", lambda a, k: None)
BUILTINS["locals"] = PBuiltin("locals", lambda a, k: None)
ENVFNS["globals"] = lambda env, a, k: PDict(list(env.module.ns.items()))
ENVFNS["locals"] = lambda env, a, k: PDict(list(env.vars.items()))


# ------------------------------------------------------------ opaque functions


def opaque_call(f, args, kwargs):
    t = f.t
    if t[0] == "attr":  # method of an opaque value
        P.trace.append(("method", t[1], t[2]) + tuple(freeze(a) for a in args))
        return Sym(("callm", t[1], t[2]) + tuple(freeze(a) for a in args), None)
    P.trace.append(("call", t) + tuple(freeze(a) for a in args) + tuple((k, freeze(v)) for k, v in sorted(kwargs.items())))
    n = sum(1 for e in P.trace if e[0] == "call" and e[1] == t)
    return Sym(("ret", t, n), None)


# ------------------------------------------------------------- with statements


def cm_enter(cm):
    cm = resolve(cm)
    if isinstance(cm, Inst):
        f = cm.cls.lookup("__enter__")
        if f is None:
            raise_py("TypeError", f"'{cm.cls.name}' object does not support the context manager protocol")
        return call(bind(f, cm), [])
    if isinstance(cm, HostCM):
        return cm.enter()
    if isinstance(cm, (Sym, Ext)):
        return Sym(("enter", T(cm)), None)
    raise_py("TypeError", "object does not support the context manager protocol")


def cm_exit(cm, exc):
    """True if the exception is swallowed."""
    cm = resolve(cm)
    if isinstance(cm, Inst):
        f = cm.cls.lookup("__exit__")
        r = call(bind(f, cm), [exc.cls, exc, None] if exc is not None else [None, None, None])
        return exc is not None and truth(r)
    if isinstance(cm, HostCM):
        return cm.exit(exc)
    return False


class HostCM:
    def enter(self):
        return None

    def exit(self, exc):
        return False


class Suppress(HostCM):
    def __init__(self, classes):
        self.classes = classes

    def exit(self, exc):
        return exc is not None and any(I.exc_match(exc, c) for c in self.classes)


class NullCM(HostCM):
    def __init__(self, v):
        self.v = v

    def enter(self):
        return self.v


class GenCM(HostCM):
    def __init__(self, gen):
        self.gen = iter(gen.it)

    def enter(self):
        try:
            return next(self.gen)
        except StopIteration:
            raise_py("RuntimeError", "generator didn't yield")

    def exit(self, exc):
        if exc is None:
            for _ in self.gen:
                raise_py("RuntimeError", "generator didn't stop")
            return False
        try:
            self.gen.throw(PyExc(exc, tuple(P.stack)))
        except StopIteration:
            return True
        except PyExc as e:
            if e.value is exc:
                return False
            raise
        raise_py("RuntimeError", "generator didn't stop after throw()")


# ----------------------------------------------------------- standard library


def mod(name):
    def deco(f):
        HOSTMODS[name] = f
        return f
    return deco


def fns(**kw):
    return {k.rstrip("_") if k.endswith("__") is False and k in ("print_",) else k: PBuiltin(k, v) for k, v in kw.items()}


@mod("typing")
def _():
    ns = {}
    for n in ("Any Generic TypeVar TypeVarTuple ParamSpec Optional Union Callable Iterable Iterator Sequence Mapping "
              "MutableMapping MutableSequence Collection List Dict Set Tuple Type TextIO BinaryIO IO Self TypeAlias "
              "Literal Final ClassVar NoReturn Never Annotated Protocol Concatenate Unpack LiteralString AnyStr "
              "Hashable Sized Container Reversible Generator FrozenSet NamedTuple TypedDict Required NotRequired "
              "TypeGuard SupportsInt SupportsIndex SupportsFloat DefaultDict OrderedDict Counter Deque Text "
              "ContextManager Awaitable Coroutine AsyncIterator TypeIs").split():
        ns[n] = Inert(n)
    ns["TYPE_CHECKING"] = False
    ns["cast"] = B("cast", lambda a, k: a[1])
    for n in ("overload", "final", "no_type_check", "runtime_checkable", "override"):
        ns[n] = B(n, lambda a, k: a[0])
    ns["get_type_hints"] = B("get_type_hints", lambda a, k: PDict())
    ns["assert_never"] = B("assert_never", lambda a, k: raise_py("AssertionError", "unreachable"))
    ns["assert_type"] = B("assert_type", lambda a, k: a[0])
    ns["NewType"] = B("NewType", lambda a, k: B("newtype", lambda x, kk: x[0]))
    ns["get_args"] = B("get_args", lambda a, k: tuple(a[0].types) if isinstance(a[0], PUnion) else ())
    return ns


HOSTMODS["typing_extensions"] = HOSTMODS["typing"]
HOSTMODS["_typeshed"] = HOSTMODS["typing"]


@mod("types")
def _():
    return {"NoneType": BT["NoneType"], "UnionType": BT["UnionType"], "FunctionType": BT["function"],
            "MappingProxyType": B("MappingProxyType", lambda a, k: a[0]),
            "SimpleNamespace": simple_ns(), "TracebackType": Inert("TracebackType"), "ModuleType": BT["module"]}


def simple_ns():
    def f(a, k):
        o = Inst(c)
        o.attrs.update(k)
        return o
    c = PClass("SimpleNamespace", [BT["object"]], {}, module="types")
    return B("SimpleNamespace", f)


@mod("abc")
def _():
    return {"abstractmethod": B("abstractmethod", lambda a, k: a[0]), "ABC": BT["object"], "ABCMeta": Inert("ABCMeta"),
            "abstractproperty": B("abstractproperty", lambda a, k: PProp(a[0]))}


@mod("enum")
def _():
    auto = PClass("auto", [BT["object"]], {}, module="enum")
    enum = BT["Enum"]
    return {"Enum": enum, "auto": auto, "IntEnum": PClass("IntEnum", [BT["int"], enum], {}, module="enum"),
            "StrEnum": PClass("StrEnum", [BT["str"], enum], {}, module="enum"),
            "unique": B("unique", lambda a, k: a[0]), "Flag": enum, "EnumMeta": Inert("EnumMeta")}


@mod("operator")
def _():
    ns = {}
    for n, op in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
        ns[n] = ns[f"__{n}__"] = B("operator." + n, lambda a, k, op=op: compare(op, a[0], a[1]))
    for n, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"), ("mod", "%"),
                  ("pow", "**"), ("or_", "|"), ("and_", "&"), ("xor", "^")):
        ns[n] = B("operator." + n, lambda a, k, op=op: binop(op, a[0], a[1]))
    for n, op in (("iadd", "+"), ("isub", "-"), ("imul", "*"), ("ior", "|")):
        ns[n] = B("operator." + n, lambda a, k, op=op: I.aug(op, a[0], a[1]))
    ns["not_"] = B("operator.not_", lambda a, k: not_(a[0]))
    ns["truth"] = B("operator.truth", lambda a, k: truth(a[0]))
    ns["neg"] = B("operator.neg", lambda a, k: unary("-", a[0]))
    ns["pos"] = B("operator.pos", lambda a, k: unary("+", a[0]))
    ns["is_"] = B("operator.is_", lambda a, k: is_(a[0], a[1]))
    ns["is_not"] = B("operator.is_not", lambda a, k: not_(is_(a[0], a[1])))
    ns["contains"] = B("operator.contains", lambda a, k: contains(a[0], a[1]))
    ns["getitem"] = B("operator.getitem", lambda a, k: subscript(a[0], a[1]))
    ns["setitem"] = B("operator.setitem", lambda a, k: store_sub(a[0], a[1], a[2]))
    ns["delitem"] = B("operator.delitem", lambda a, k: del_sub(a[0], a[1]))
    ns["index"] = B("operator.index", lambda a, k: b_int(a, k))
    ns["itemgetter"] = B("itemgetter", lambda a, k: B("itemgetter()", lambda b, kk: subscript(b[0], a[0]) if len(a) == 1
                                                      else tuple(subscript(b[0], x) for x in a)))

    def dotted(o, n):
        for p in n.split("."):
            o = getattr_(o, p)
        return o

    ns["attrgetter"] = B("attrgetter", lambda a, k: B("attrgetter()", lambda b, kk: dotted(b[0], a[0]) if len(a) == 1
                                                      else tuple(dotted(b[0], x) for x in a)))
    ns["methodcaller"] = B("methodcaller", lambda a, k: B("methodcaller()", lambda b, kk: call(getattr_(b[0], a[0]), a[1:], k)))
    return ns


@mod("functools")
def _():
    def wraps(a, k):
        w = a[0]

        def deco(b, kk):
            f = b[0]
            if isinstance(f, PFunc):
                touch(f)
                f.attrs["__wrapped__"] = w
                for n in ("__name__", "__qualname__", "__doc__"):
                    try:
                        f.attrs[n] = getattr_(w, n)
                    except PyExc:
                        pass
            return f
        return B("wraps()", deco)

    def reduce(a, k):
        it = iterate(a[1])
        if len(a) > 2:
            r = a[2]
        else:
            try:
                r = next(it)
            except StopIteration:
                raise_py("TypeError", "reduce() of empty iterable with no initial value")
        for x in it:
            r = call(a[0], [r, x])
        return r

    def lru(a, k):
        if a and isinstance(a[0], PFunc):
            return memo(a[0])
        return B("lru_cache()", lambda b, kk: memo(b[0]))

    def memo(f):
        def g(a, k):
            return call(f, a, k)
        return f

    def total_ordering(a, k):
        c = a[0]
        return c

    def cmp_to_key(a, k):
        c = PClass("K", [BT["object"]], {}, module="functools")
        c.ns["__lt__"] = B("K.__lt__", lambda b, kk: lt(call(a[0], [b[0].attrs["obj"], b[1].attrs["obj"]]), 0))

        def mk(b, kk):
            o = Inst(c)
            o.attrs["obj"] = b[0]
            return o
        return B("cmp_to_key()", mk)

    return {"wraps": B("wraps", wraps), "partial": B("partial", lambda a, k: PPartial(a[0], list(a[1:]), dict(k))),
            "reduce": B("reduce", reduce), "cached_property": B("cached_property", lambda a, k: PProp(a[0], cached=True)),
            "lru_cache": B("lru_cache", lru), "cache": B("cache", lru), "update_wrapper": B("update_wrapper", lambda a, k: a[0]),
            "cmp_to_key": B("cmp_to_key", cmp_to_key),
            "partialmethod": Inert("partialmethod"), "total_ordering": B("total_ordering", total_ordering)}


@mod("itertools")
def _():
    def islice(a, k):
        it = iterate(a[0])
        lo, hi, st = (0, a[1], 1) if len(a) == 2 else (a[1] or 0, a[2], (a[3] if len(a) > 3 and a[3] is not None else 1))
        if any(isinstance(resolve(x), Sym) for x in (lo, hi, st)):
            raise I.Undecided("islice with unknown bounds")

        def g():
            i = 0
            nxt = lo
            if hi is not None and nxt >= hi:
                return
            for x in it:
                if i == nxt:
                    yield x
                    nxt += st
                i += 1
                if hi is not None and nxt >= hi:
                    return
        return PIter(g())

    def takewhile(a, k):
        def g():
            for x in it:
                if not truth(call(a[0], [x])):
                    return
                yield x
        it = iterate(a[1])
        return PIter(g())

    def dropwhile(a, k):
        def g():
            drop = True
            for x in it:
                if drop and truth(call(a[0], [x])):
                    continue
                drop = False
                yield x
        it = iterate(a[1])
        return PIter(g())

    def product(a, k):
        import itertools
        return PIter(itertools.product(*[to_list(x) for x in a], repeat=k.get("repeat", 1)))

    def zip_longest(a, k):
        import itertools
        return PIter(itertools.zip_longest(*[to_list(x) for x in a], fillvalue=k.get("fillvalue")))

    def repeat(a, k):
        n = a[1] if len(a) > 1 else None

        def g():
            i = 0
            while n is None or lt(i, n):
                yield a[0]
                i += 1
        return PIter(g())

    def count(a, k):
        def g():
            i = arg(a, k, 0, "start", 0)
            while True:
                yield i
                i = binop("+", i, arg(a, k, 1, "step", 1))
        return PIter(g())

    def accumulate(a, k):
        def g():
            r = None
            first = True
            for x in it:
                r = x if first else (call(a[1], [r, x]) if len(a) > 1 else binop("+", r, x))
                first = False
                yield r
        it = iterate(a[0])
        return PIter(g())

    def groupby(a, k):
        raise I.Undecided("groupby")

    return {"chain": B("itertools.chain", lambda a, k: PIter(y for x in a for y in iterate(x))),
            "islice": B("islice", islice), "takewhile": B("takewhile", takewhile), "dropwhile": B("dropwhile", dropwhile),
            "product": B("product", product), "zip_longest": B("zip_longest", zip_longest), "repeat": B("repeat", repeat),
            "count": B("count", count), "accumulate": B("accumulate", accumulate), "groupby": B("groupby", groupby),
            "starmap": B("starmap", lambda a, k: PIter(call(a[0], to_list(x)) for x in iterate(a[1]))),
            "filterfalse": B("filterfalse", lambda a, k: PIter(x for x in iterate(a[1]) if not truth(call(a[0], [x])))),
            "pairwise": B("pairwise", lambda a, k: (lambda xs: PIter(iter(list(zip(xs, xs[1:])))))(to_list(a[0])))}


def copy_obj(o):
    o = resolve(o)
    if isinstance(o, Inst):
        if o.cls.members is not None:
            return o
        f = o.cls.lookup("__copy__")
        if f is not None:
            return call(bind(f, o), [])
        n = Inst(o.cls)
        n.attrs = dict(o.attrs)
        n.payload = copy_obj(o.payload) if isinstance(o.payload, (PList, PDict, PSet)) else o.payload
        return n
    if isinstance(o, PList):
        return PList(o.items, o.base, o.unb)
    if isinstance(o, PDict):
        return PDict(o.items, o.base)
    if isinstance(o, PSet):
        s = PSet(o.items, o.base)
        s.immutable = o.immutable
        return s
    return o


def deep_copy(o, memo):
    o = resolve(o)
    if id(o) in memo:
        return memo[id(o)]
    if isinstance(o, Inst):
        if o.cls.members is not None:
            return o
        f = o.cls.lookup("__deepcopy__")
        if f is not None:
            return call(bind(f, o), [PDict()])
        n = Inst(o.cls)
        memo[id(o)] = n
        n.attrs = {k: deep_copy(v, memo) for k, v in o.attrs.items()}
        n.payload = deep_copy(o.payload, memo)
        return n
    if isinstance(o, PList):
        n = PList([], o.base, o.unb)
        memo[id(o)] = n
        n.items = [deep_copy(x, memo) for x in o.items]
        return n
    if isinstance(o, PDict):
        n = PDict([], o.base)
        memo[id(o)] = n
        n.items = [[deep_copy(a, memo), deep_copy(b, memo)] for a, b in o.items]
        return n
    if isinstance(o, PSet):
        return PSet([deep_copy(x, memo) for x in o.items], o.base)
    if isinstance(o, tuple):
        return tuple(deep_copy(x, memo) for x in o)
    return o


@mod("copy")
def _():
    def replace(a, k):
        o = copy_obj(a[0])
        for n, v in k.items():
            setattr_(o, n, v)
        return o
    return {"copy": B("copy.copy", lambda a, k: copy_obj(a[0])), "deepcopy": B("copy.deepcopy", lambda a, k: deep_copy(a[0], {})),
            "replace": B("copy.replace", replace)}


@mod("inspect")
def _():
    empty = PClass("_empty", [BT["object"]], {}, module="inspect")
    kinds = ["POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "VAR_POSITIONAL", "KEYWORD_ONLY", "VAR_KEYWORD"]
    kind = PClass("_ParameterKind", [BT["Enum"]], {k: i for i, k in enumerate(kinds)}, module="inspect")
    I.make_enum(kind, dict(kind.ns))
    param = PClass("Parameter", [BT["object"]], {"empty": empty, **{k: kind.ns[k] for k in kinds}}, module="inspect")
    sig = PClass("Signature", [BT["object"]], {"empty": empty}, module="inspect")

    def signature(a, k):
        f = a[0]
        skip = 0
        while isinstance(f, PBound):
            skip += 1
            f = f.fn
        if isinstance(f, PFunc) and "__wrapped__" in f.attrs:
            f = f.attrs["__wrapped__"]
        if isinstance(f, PClass):
            f = f.lookup("__init__")
            skip = 1
        if not isinstance(f, PFunc):
            raise I.Undecided("signature of a builtin")
        ar = f.node.args
        ps = []
        pos = [(x, "POSITIONAL_ONLY") for x in ar.posonlyargs] + [(x, "POSITIONAL_OR_KEYWORD") for x in ar.args]
        nd = len(f.defaults)
        for i, (x, kd) in enumerate(pos):
            j = i - (len(pos) - nd)
            ps.append((x.arg, kd, f.defaults[j] if j >= 0 else empty))
        ps = ps[skip:]
        if ar.vararg:
            ps.append((ar.vararg.arg, "VAR_POSITIONAL", empty))
        for x in ar.kwonlyargs:
            ps.append((x.arg, "KEYWORD_ONLY", f.kwdefaults.get(x.arg, empty)))
        if ar.kwarg:
            ps.append((ar.kwarg.arg, "VAR_KEYWORD", empty))
        d = PDict()
        for n, kd, df in ps:
            p = Inst(param)
            p.attrs.update(name=n, kind=kind.ns[kd], default=df, annotation=empty)
            d.items.append([n, p])
        s = Inst(sig)
        s.attrs["parameters"] = d
        return s

    def isclass(a, k):
        return isinstance(a[0], PClass)

    def getmembers(a, k):
        r = []
        for n in b_dir([a[0]], {}).items:
            try:
                v = getattr_(a[0], n)
            except PyExc:
                continue
            if len(a) < 2 or truth(call(a[1], [v])):
                r.append((n, v))
        return PList(r)

    return {"signature": B("inspect.signature", signature), "Parameter": param, "Signature": sig, "_empty": empty,
            "isclass": B("isclass", isclass), "getmembers": B("getmembers", getmembers),
            "ismethod": B("ismethod", lambda a, k: isinstance(a[0], PBound)),
            "isfunction": B("isfunction", lambda a, k: isinstance(a[0], PFunc)),
            "isroutine": B("isroutine", lambda a, k: isinstance(a[0], (PFunc, PBound, PBuiltin))),
            "cleandoc": B("cleandoc", lambda a, k: a[0])}


@mod("re")
def _():
    import re

    pat = PClass("Pattern", [BT["object"]], {}, module="re")
    mat = PClass("Match", [BT["object"]], {}, module="re")

    def comp(p, flags=0):
        if isinstance(p, Inst):
            return p
        o = Inst(pat)
        o.attrs["pattern"] = p
        o.attrs["flags"] = flags
        return o

    def term(name, o, a):
        return ("re." + name, T(o.attrs["pattern"]), T(o.attrs["flags"])) + tuple(T(x) for x in a)

    def needs(p):
        """Characters every match of the pattern contains."""
        if not isinstance(p, str):
            return []
        return [chr(v) for op, v in re._parser.parse(p) if str(op) == "LITERAL"]

    def meth(name):
        def f(a, k):
            o, a = a[0], [resolve(x) for x in a[1:]]
            p = o.attrs["pattern"]
            if isinstance(p, str) and all(isinstance(x, CONST) for x in a):
                r = getattr(re.compile(p, o.attrs["flags"]), name)(*a, **k)
                if isinstance(r, re.Match):
                    m = Inst(mat)
                    m.attrs.update(groups__=(r.group(0),) + r.groups(), names__=PDict(list(r.groupdict().items())), span__=r.span())
                    return m
                return PList(r) if isinstance(r, list) else r
            if name == "sub" and len(a) > 1 and isinstance(a[1], (str, Sym)) and any(lacks(a[1], c) for c in needs(p)):
                return a[1]
            if name == "sub":
                return Sym(term(name, o, a), "str")
            if name in ("match", "search", "fullmatch"):
                if not decide(("pred",) + term(name, o, a)):
                    return None
                m = Inst(mat)
                m.attrs["term__"] = Sym(term(name, o, a), None)
                return m
            if name in ("split", "findall"):
                return Sym(term(name, o, a), "list")
            raise I.Undecided("re." + name)
        return B("Pattern." + name, f)

    for n in ("sub", "match", "search", "fullmatch", "split", "findall", "finditer"):
        pat.ns[n] = meth(n)

    def group(a, k):
        m, i = a[0], (a[1] if len(a) > 1 else 0)
        if "groups__" in m.attrs:
            if isinstance(i, str):
                return subscript(m.attrs["names__"], i)
            return m.attrs["groups__"][i]
        return Sym(("group", m.attrs["term__"].t, T(i)), "str")

    mat.ns["group"] = B("Match.group", group)
    mat.ns["__getitem__"] = B("Match.group", group)
    mat.ns["groups"] = B("Match.groups", lambda a, k: a[0].attrs["groups__"][1:])
    ns = {"compile": B("re.compile", lambda a, k: comp(a[0], arg(a, k, 1, "flags", 0))), "Pattern": pat, "Match": mat,
          "escape": B("re.escape", lambda a, k: re.escape(a[0]) if isinstance(a[0], str) else Sym(("re.escape", T(a[0])), "str")),
          "error": BT["ValueError"]}
    for n in ("sub", "match", "search", "fullmatch", "split", "findall"):
        def top(a, k, n=n):
            k = dict(k)
            flags = k.pop("flags", 0)
            return call(pat.ns[n], [comp(a[0], flags)] + list(a[1:]), k)
        ns[n] = B("re." + n, top)
    for n in ("IGNORECASE", "I", "MULTILINE", "M", "DOTALL", "S", "VERBOSE", "X", "ASCII", "UNICODE", "U", "A"):
        ns[n] = int(getattr(re, n))
    return ns


@mod("codecs")
def _():
    def enc(a, k):
        return call(builtin_attr(a[0], "encode"), a[1:], k)

    return {"decode": B("codecs.decode", lambda a, k: b_decode(resolve(a[0]), norm_codec(resolve(arg(a, k, 1, "encoding", "utf-8"))),
                                                               resolve(arg(a, k, 2, "errors", "strict")))),
            "encode": B("codecs.encode", enc), "BOM_UTF8": b"\xef\xbb\xbf"}


@mod("contextlib")
def _():
    return {"suppress": B("suppress", lambda a, k: Suppress(a)),
            "contextmanager": B("contextmanager", lambda a, k: B("cm", lambda b, kk: GenCM(call(a[0], b, kk)))),
            "nullcontext": B("nullcontext", lambda a, k: NullCM(a[0] if a else None)),
            "closing": B("closing", lambda a, k: NullCM(a[0])),
            "AbstractContextManager": Inert("AbstractContextManager"), "ExitStack": Inert("ExitStack")}


@mod("dataclasses")
def _():
    fld = PClass("Field", [BT["object"]], {}, module="dataclasses")
    missing = PClass("_MISSING", [BT["object"]], {}, module="dataclasses")

    def field(a, k):
        f = Inst(fld)
        f.attrs.update(default=k.get("default", missing), factory=k.get("default_factory", missing),
                       init=k.get("init", True), compare=k.get("compare", True))
        return f

    def fields_of(c):
        out = {}
        for k in reversed(c.mro):
            an = k.ns.get("__annots__")
            if "__dcfields__" in k.ns or k is c:
                for n in (an.items if isinstance(an, PList) else []):
                    out[n] = k.ns.get("__dcdefaults__", {}).get(n, missing)
        return out

    def dataclass(a, k):
        if not a:
            return B("dataclass()", lambda b, kk: dataclass(b, k))
        c = a[0]
        an = c.ns.get("__annots__")
        names = list(dict.fromkeys(an.items)) if isinstance(an, PList) else []
        defaults = {}
        for n in names:
            if n in c.ns:
                v = c.ns[n]
                defaults[n] = v
                if isinstance(v, Inst) and v.cls is fld:
                    del c.ns[n]
                    if v.attrs["default"] is not missing:
                        c.ns[n] = v.attrs["default"]
        c.ns["__dcfields__"] = True
        c.ns["__dcdefaults__"] = defaults
        c.ns["__annots__"] = PList(names)
        fs = fields_of(c)

        def init(b, kk):
            o, b = b[0], list(b[1:])
            kk = dict(kk)
            for n, d in fs.items():
                isf = isinstance(d, Inst) and d.cls is fld
                if isf and d.attrs["init"] is False:
                    v = call(d.attrs["factory"], []) if d.attrs["factory"] is not missing else d.attrs["default"]
                elif b:
                    v = b.pop(0)
                elif n in kk:
                    v = kk.pop(n)
                elif isf and d.attrs["factory"] is not missing:
                    v = call(d.attrs["factory"], [])
                elif isf and d.attrs["default"] is not missing:
                    v = d.attrs["default"]
                elif d is not missing and not isf:
                    v = d
                else:
                    raise_py("TypeError", f"__init__() missing required argument: '{n}'")
                touch(o)
                o.attrs[n] = v
            if b or kk:
                raise_py("TypeError", "__init__() got unexpected arguments")
            p = o.cls.lookup("__post_init__")
            if p is not None:
                call(bind(p, o), [])

        def dceq(b, kk):
            if not (isinstance(b[1], Inst) and b[1].cls is b[0].cls):
                return I.NOTIMPL
            return all(truth(eq(b[0].attrs[n], b[1].attrs[n])) for n in fs)

        if k.get("init", True) and "__init__" not in c.ns:
            c.ns["__init__"] = B("dataclass.__init__", init)
        if k.get("eq", True) and "__eq__" not in c.ns:
            c.ns["__eq__"] = B("dataclass.__eq__", dceq)
            if "__hash__" not in c.ns:
                c.ns["__hash__"] = None if not k.get("frozen") else B("dataclass.__hash__", lambda b, kk: b_hash([tuple(b[0].attrs[n] for n in fs)], {}))
        c.ns.setdefault("__match_args__", tuple(fs))
        return c

    def replace(a, k):
        o = copy_obj(a[0])
        for n, v in k.items():
            o.attrs[n] = v
        return o

    return {"dataclass": B("dataclass", dataclass), "field": B("field", field), "replace": B("replace", replace),
            "astuple": B("astuple", lambda a, k: tuple(a[0].attrs.values())), "MISSING": missing}


@mod("collections")
def _():
    def defaultdict(a, k):
        o = Inst(dd)
        o.payload = PDict()
        o.attrs["default_factory"] = a[0] if a else None
        if len(a) > 1:
            dict_update(o.payload, a[1])
        return o

    def missing(a, k):
        o, key = a
        r = dict_find(o.payload, key)
        if r is not None:
            return r[1]
        if o.attrs["default_factory"] is None:
            raise_py("KeyError", key)
        v = call(o.attrs["default_factory"], [])
        dict_set(o.payload, key, v)
        return v

    dd = PClass("defaultdict", [BT["dict"]], {}, module="collections")
    dd.ns["__getitem__"] = B("defaultdict.__getitem__", missing)
    return {"OrderedDict": BT["dict"], "defaultdict": B("defaultdict", defaultdict), "deque": BT["list"],
            "abc": load_module("collections.abc"), "ChainMap": Inert("ChainMap"), "Counter": Inert("Counter"),
            "namedtuple": Inert("namedtuple")}


@mod("warnings")
def _():
    return {"warn": B("warnings.warn", lambda a, k: None)}


@mod("logging")
def _():
    lg = PClass("Logger", [BT["object"]], {}, module="logging")
    for n in ("debug", "info", "warning", "error", "exception", "log", "critical"):
        lg.ns[n] = B("Logger." + n, lambda a, k: None)
    return {"getLogger": B("getLogger", lambda a, k: Inst(lg)), "Logger": lg, "debug": B("debug", lambda a, k: None),
            "info": B("info", lambda a, k: None), "warning": B("warning", lambda a, k: None)}


@mod("sys")
def _():
    return {"version_info": (3, 12, 3), "stdout": Ext("sys.stdout"), "stderr": Ext("sys.stderr"), "maxsize": 2**63 - 1,
            "platform": "linux", "version": "3.12"}


@mod("io")
def _():
    io = load_module("_sa_io")
    c = io.ns
    return {"TextIOBase": c["TextIOBase"], "IOBase": c["IOBase"], "StringIO": c["StringIO"], "BytesIO": c["BytesIO"],
            "TextIOWrapper": c["TextIOBase"], "BufferedIOBase": c["IOBase"], "RawIOBase": c["IOBase"], "open": BUILTINS["open"]}


@mod("os")
def _():
    return {"path": os_path(), "PathLike": Inert("PathLike"), "fspath": B("os.fspath", lambda a, k: to_str(a[0])), "sep": "/",
            "linesep": "\n"}


def os_path():
    m = PModule("os.path")

    def conc(name, fn):
        def f(a, k):
            a = [to_str(x) for x in a]
            if all(isinstance(x, str) for x in a):
                return fn(*a)
            return Sym(("path." + name,) + tuple(T(x) for x in a), "str")
        return B("os.path." + name, f)

    import posixpath as pp

    m.ns.update(basename=conc("basename", pp.basename), dirname=conc("dirname", pp.dirname), join=conc("join", pp.join),
                splitext=B("splitext", lambda a, k: pp.splitext(a[0]) if isinstance(a[0], str) else
                           (Sym(("path.root", T(a[0])), "str"), Sym(("path.ext", T(a[0])), "str"))),
                exists=B("exists", lambda a, k: cond_value(("pred", "exists", T(to_str(a[0]))))))
    return m


HOSTMODS["os.path"] = lambda: os_path().ns


@mod("math")
def _():
    import math

    def f1(name):
        def f(a, k):
            v = resolve(a[0])
            if isinstance(v, (int, float)):
                try:
                    return getattr(math, name)(v)
                except (ValueError, OverflowError) as e:
                    raise_py(type(e).__name__, str(e))
            return Sym(("math." + name, T(v)), "int" if name in ("floor", "ceil", "trunc") else None)
        return B("math." + name, f)

    ns = {n: f1(n) for n in ("floor", "ceil", "sqrt", "trunc", "log", "exp")}
    ns["isnan"] = B("isnan", lambda a, k: cond_value(("pred", "nan", T(a[0]))))
    ns["isinf"] = B("isinf", lambda a, k: cond_value(("pred", "inf", T(a[0]))))
    ns["inf"], ns["nan"], ns["pi"] = math.inf, math.nan, math.pi
    return ns


@mod("chardet")
def _():
    def detect(a, k):
        d = T(a[0])
        return PDict([["encoding", Sym(("chardet", d), frozenset(["str", "NoneType"]))],
                      ["confidence", Sym(("chardet-confidence", d), "float")], ["language", ""]])
    return {"detect": B("chardet.detect", detect)}


@mod("string")
def _():
    import string
    return {n: getattr(string, n) for n in ("ascii_letters", "ascii_lowercase", "ascii_uppercase", "digits", "punctuation", "whitespace", "hexdigits")}


@mod("weakref")
def _():
    return {"ref": B("ref", lambda a, k: B("ref()", lambda b, kk: a[0])), "WeakKeyDictionary": BT["dict"], "WeakValueDictionary": BT["dict"]}
