"""Functions registered for scripts."""
import sa
from spec_h import *
from spec_expr import view_value, ref_value, function, expected
from wizard.functions import wrap_function, optional, make_basic_functions, make_manager_functions
from wizard.manager import ManagerModInterface


# ------------------------------------------------------------------ wrap_function

def opaque_method(raw, result):
    def method(*args):
        sa.emit("method", tuple([view_value(a) if raw else plain(a) for a in args]))
        if result == "none":
            return None
        if raw:
            return Value(sa.sym("result", "int"))
        return sa.sym("result", result)
    return method


def plain(x):
    """A Python value handed to a function, as the script value it stands for."""
    return ref_value(x)


GOOD = {str: ("str",), int: ("int",), object: ("float",), float: ("float",), bool: ("bool",)}
WKINDS = ALL


def check_wrap():
    n = sa.length("number of declared arguments")
    varargs = sa.choose(2, "variadic")
    if varargs:
        sa.assume(n >= 1)
    raw = sa.choose(2, "raw arguments")
    required = sa.choose(n + 1, "number of required arguments")
    shift = sa.choose(4, "types of the arguments")
    types = [((str, int, object)[(i + shift) % 3] if shift < 3 else (float, bool)[i % 2]) for i in range(n)]
    decl = [t if i < required else optional(t) for i, t in enumerate(types)]
    result = sa.one_of(["none", "int", "str"], "result") if not raw else sa.one_of(["none", "int"], "result")
    m = sa.choose(n + 3, "number of arguments given")
    labels = ["a" + str(i) for i in range(m)]
    odd = sa.choose(m + 1, "argument of any type")
    kinds = [WKINDS if i == odd or n == 0 else GOOD[types[min(i, n - 1)]] for i in range(m)]
    method = opaque_method(raw, result)

    def implementation():
        fn = wrap_function("f", method, *decl, varargs=bool(varargs), rawargs=bool(raw))
        r = fn(state0(), [any_value(a, k) for a, k in zip(labels, kinds)])
        return (type(r), view_value(r))

    def reference():
        vs = [any_value(a, k) for a, k in zip(labels, kinds)]
        if m < required or (m > n and not varargs):
            raise TypeError
        for i, v in enumerate(vs):
            if not isinstance(v.value, types[min(i, n - 1)]):
                raise TypeError
        r = method(*[v if raw else v.value for v in vs])
        if r is None:
            return (Value, ref_value(Void()))
        return (Value, ref_value(r.value if raw else r))

    sa.expect("a wrapped function", sa.record(implementation), sa.record(reference))


# ---------------------------------------------------------------- basic functions

BASIC = ("str", "int", "float", "len", "startswith", "endswith", "lower", "find", "rfind")


def tables():
    """(name in the table, documented function)"""
    out = [(n, n) for n in BASIC] + [("string." + n, n) for n in BASIC]
    return out + [(t + ".str", "str") for t in ("integer", "float", "bool")]


def check_basic_table():
    fns = make_basic_functions()
    for name, _ in tables():
        sa.check(name in fns, "a documented function is not available", name)


def call_basic(names, labels, kinds):
    """Calls a basic function under any of its names with values of the given kinds."""
    name, doc = sa.one_of([(n, d) for n, d in tables() if d in names], "function")
    fns = make_basic_functions()
    sa.assume(name in fns)

    def implementation():
        r = fns[name](state0(), [any_value(a, k) for a, k in zip(labels, kinds)])
        return (type(r), view_value(r))

    return doc, sa.record(implementation)


def outcome_of(compute):
    return sa.record(lambda: (Value, ref_value(compute())))


def check_conversions():
    m = sa.choose(3, "number of arguments")
    labels = ["a" + str(i) for i in range(m)]
    doc, impl = call_basic(("str", "int", "float", "len", "lower"), labels, [ALL, ("int",)])

    def compute():
        if m != 1:
            raise TypeError
        x = any_value("a0", ALL).value
        if doc == "str":
            return str(x)
        if doc == "len":
            return len(x) if isinstance(x, str) else 0
        if doc == "lower":
            return x.lower() if isinstance(x, str) else x
        if isinstance(x, (SubPackage, SubPackages, Void)):
            return 0 if doc == "int" else 0.0
        return int(x) if doc == "int" else float(x)

    sa.expect("function of one value", impl, outcome_of(compute))


def check_strings():
    m = sa.choose(sa.K() + 3, "number of arguments")
    labels = ["a" + str(i) for i in range(m)]
    kinds = [("str", "int", "SubPackage", "SubPackages", "Void")] + [("str", "int", "SubPackage") if i == 0 else ("str", "Void") for i in range(m)]
    doc, impl = call_basic(("startswith", "endswith"), labels, kinds)

    def compute():
        vs = [any_value(a, k).value for a, k in zip(labels, kinds)]
        if m < 1:
            raise TypeError
        if not isinstance(vs[0], str):
            return False
        for x in vs[1:]:
            if isinstance(x, str):
                if vs[0].startswith(x) if doc == "startswith" else vs[0].endswith(x):
                    return True
        return False

    sa.expect("startswith/endswith", impl, outcome_of(compute))


def check_find():
    m = sa.choose(6, "number of arguments")
    labels = ["a" + str(i) for i in range(m)]
    kinds = [("str", "int", "SubPackage"), ("str", "bool", "SubPackages"), ("int", "str", "float"), ("int", "str", "Void"), ("int",)]
    doc, impl = call_basic(("find", "rfind"), labels, kinds)

    def compute():
        vs = [any_value(a, k).value for a, k in zip(labels, kinds)]
        if m < 2 or m > 4:
            raise TypeError
        if not isinstance(vs[0], str) or not isinstance(vs[1], str):
            return -1
        for x in vs[2:]:
            if not isinstance(x, int):
                return -1
        start = vs[2] if m > 2 else 0
        end = vs[3] if m > 3 else None
        if end is not None and end == -1:
            end = None
        if doc == "find":
            return vs[0].find(vs[1], start, end)
        return vs[0].rfind(vs[1], start, end)

    sa.expect("find/rfind", impl, outcome_of(compute))


# -------------------------------------------------------------- manager functions

def manager_call(name, args):
    sa.emit("manager", name, tuple([plain(a) for a in args]))
    return sa.typed(sa.ref("manager", name), "int")


class Manager(ManagerModInterface):
    def compareGameVersion(self, *args):
        return manager_call("compareGameVersion", args)

    def compareSEVersion(self, *args):
        return manager_call("compareSEVersion", args)

    def compareGEVersion(self, *args):
        return manager_call("compareGEVersion", args)

    def compareWBVersion(self, *args):
        return manager_call("compareWBVersion", args)

    def dataFileExists(self, *args):
        return manager_call("dataFileExists", args)

    def getPluginLoadOrder(self, *args):
        return manager_call("getPluginLoadOrder", args)

    def getPluginStatus(self, *args):
        return manager_call("getPluginStatus", args)

    def getFilename(self, *args):
        return manager_call("getFilename", args)

    def getFolder(self, *args):
        return manager_call("getFolder", args)


MANAGER = (("CompareGameVersion", "compareGameVersion", 1, 1), ("CompareSEVersion", "compareSEVersion", 1, 1),
           ("CompareGEVersion", "compareGEVersion", 1, 1), ("CompareWBVersion", "compareWBVersion", 1, 1),
           ("GetPluginLoadOrder", "getPluginLoadOrder", 1, 2), ("GetPluginStatus", "getPluginStatus", 1, 1),
           ("GetEspmStatus", "getPluginStatus", 1, 1), ("GetFilename", "getFilename", 1, 1), ("GetFolder", "getFolder", 1, 1),
           ("DataFileExists", "dataFileExists", 1, None))


def check_manager():
    name, method, least, most = sa.one_of(MANAGER, "function")
    fns = make_manager_functions(Manager(), Sev())
    sa.check(name in fns, "a manager function is not available", name)
    m = sa.choose(sa.K() + 3, "number of arguments")
    kinds = [("str", "int"), ("str", "int")] + [("str",)] * m

    def implementation():
        r = fns[name](state0(), [any_value("a" + str(i), kinds[i]) for i in range(m)])
        return (type(r), view_value(r))

    def compute():
        vs = [any_value("a" + str(i), kinds[i]).value for i in range(m)]
        if m < least or (most is not None and m > most):
            raise TypeError
        for i, v in enumerate(vs):
            if not isinstance(v, int if name == "GetPluginLoadOrder" and i == 1 else str):
                raise TypeError
        return manager_call(method, vs)

    sa.expect("manager function " + name, sa.record(implementation), outcome_of(compute))
