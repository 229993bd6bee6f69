"""Values and names as Python sees them."""
import sa
from spec_h import *

TYPES = {"bool": VariableType.BOOL, "int": VariableType.INTEGER, "float": VariableType.FLOAT, "str": VariableType.STRING,
         "Void": VariableType.VOID, "SubPackage": VariableType.SUBPACKAGE, "SubPackages": VariableType.LIST_SUBPACKAGES}
NAMES = {"bool": "bool", "int": "integer", "float": "float", "str": "string", "Void": "void", "SubPackage": "SubPackage",
         "SubPackages": "SubPackage[]"}


def kind_of(x):
    if isinstance(x, Void):
        return "Void"
    if isinstance(x, SubPackages):
        return "SubPackages"
    if isinstance(x, SubPackage):
        return "SubPackage"
    for t in (bool, int, float, str):
        if isinstance(x, t):
            return t.__name__
    raise AssertionError("no kind")


def check_wraps():
    x = any_value("x").value
    k = kind_of(x)
    v = Value(x)
    sa.check(v.value is x or v.value == x, "a value does not hold what it was made from", k)
    sa.check(v.type is TYPES[k], "a value has another type", v.type)
    sa.check(VariableType.from_pytype(type(x)) is TYPES[k], "a Python type has another type in scripts", k)
    sa.check(str(v.type) == NAMES[k], "a type has another name", str(v.type))
    sa.check(v.is_void() == (k == "Void"), "is_void()", k)
    n = Value(None)
    sa.check(n.is_void() and isinstance(n.value, Void) and n.type is VariableType.VOID, "None is not void", n)
    sa.expect("truth of a value", sa.record(lambda: sa.decide(bool(v))), sa.record(lambda: sa.decide(bool(x))))
    for t in (list, dict, type(None), bytes):
        sa.expect("a Python type without a meaning in scripts", sa.record(lambda: VariableType.from_pytype(t)), sa.record(refuse))


def refuse():
    raise ValueError


def check_equal():
    a, b = any_value("a"), any_value("b")
    ka, kb = kind_of(a.value), kind_of(b.value)

    def reference():
        if ka == kb == "Void":
            return True
        return ka == kb and sa.decide(a.value == b.value)

    expected = sa.record(reference)
    sa.expect("values are equal", sa.record(lambda: sa.decide(a == b)), expected)
    sa.expect("a value and a plain Python value are equal", sa.record(lambda: sa.decide(a == b.value)), expected)
    sa.expect("values are different", sa.record(lambda: not sa.decide(a != b)), expected)


def check_iterate():
    v = any_value("x")
    k = kind_of(v.value)

    def reference():
        if k == "SubPackage":
            return [(VariableType.STRING, f) for f in v.value.files]
        if k == "SubPackages":
            return [(VariableType.STRING, s.name) for s in v.value]
        raise TypeError

    sa.expect("iterating over a value", sa.record(lambda: [(x.type, x.value) for x in v]), sa.record(reference))

    def plus():
        if k not in ("bool", "int", "float"):
            raise TypeError
        return v.value

    sa.expect("unary plus", sa.record(lambda: (+v).value), sa.record(plus))
