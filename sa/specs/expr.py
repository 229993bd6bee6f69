"""Expressions: operators, variables, literals, calls."""
import sa
from spec_h import *
from spec_flow import ref_op, ERRORS, make_error, ref_error, tells_the_same
from wizard.runner import WizardRunnerExpressionVisitor


def ref_type(x):
    if isinstance(x, Void):
        return VariableType.VOID
    if isinstance(x, bool):
        return VariableType.BOOL
    if isinstance(x, int):
        return VariableType.INTEGER
    if isinstance(x, float):
        return VariableType.FLOAT
    if isinstance(x, str):
        return VariableType.STRING
    if isinstance(x, SubPackages):
        return VariableType.LIST_SUBPACKAGES
    if isinstance(x, SubPackage):
        return VariableType.SUBPACKAGE
    raise ValueError


def view_value(v):
    """A value as scripts see it."""
    return (v.type, sa.kind_of(v.value) if v.type != VariableType.VOID else "", v.value if v.type != VariableType.VOID else "void")


def ref_value(x):
    t = ref_type(x)
    return (t, sa.kind_of(x) if t != VariableType.VOID else "", x if t != VariableType.VOID else "void")


def evaluate(node, f, typ=None):
    """The evaluation of an expression in any state: outcome with its value and the state it leaves."""
    state = state0()
    return sa.record(lambda: (view_value(visit(f, node, state, typ)), content(state)))


def visit(f, node, state, typ):
    if typ is None:
        return f.evisitor.visitExpr(node, state)
    return f.evisitor.visitExpr(node, state, typ)


def expected(node, compute):
    """Outcome of the reference: compute(state) gives the Python value; its errors become those of the node."""
    state = state0()

    def run():
        try:
            r = ref_value(compute(state))
        except WizardError:
            raise
        except TypeError:
            raise WizardTypeError(node, "")
        except IndexError:
            raise WizardIndexError(node, 0)
        except ValueError:
            raise WizardValueError(node, "")
        except ArithmeticError:
            raise WizardValueError(node, "")
        return (r, content(state))

    return sa.record(run)


def val(leafnode, state):
    return ref_eval(leafnode, state).value


# ---------------------------------------------------------------------- arithmetic

ARITH = ((WP.TimesDivideModuloContext, "*"), (WP.TimesDivideModuloContext, "/"), (WP.TimesDivideModuloContext, "%"),
         (WP.PlusMinusContext, "+"), (WP.PlusMinusContext, "-"), (WP.ExponentiationContext, "^"))


def check_arithmetic():
    f = factory()
    cls, op = sa.one_of(ARITH, "operator")
    a, b = leaf("a", SCALARS), leaf("b", SCALARS)
    node = sa.node(cls, "expr", [a, lit(op), b])

    def compute(st):
        x = val(a, st)
        y = val(b, st)
        return ref_op(op, x, y)

    sa.expect("operator " + op, evaluate(node, f), expected(node, compute))


def check_negative():
    f = factory()
    a = leaf("a")
    node = sa.node(WP.NegativeContext, "expr", [lit("-"), a])

    def compute(st):
        x = val(a, st)
        if isinstance(x, bool) or not isinstance(x, (int, float)):
            raise TypeError
        return -x

    sa.expect("unary minus", evaluate(node, f), expected(node, compute))


def check_paren():
    f = factory()
    a = leaf("a")
    node = sa.node(WP.ParenExprContext, "expr", [lit("("), a, lit(")")])
    sa.expect("parentheses", evaluate(node, f), expected(node, lambda st: val(a, st)))


ORDER = ((WP.LesserContext, "Lesser"), (WP.LesserContext, "LesserOrEqual"), (WP.GreaterContext, "Greater"), (WP.GreaterContext, "GreaterOrEqual"))


def check_types():
    """Which pairs of types each operator accepts."""
    f = factory()
    cls, op = sa.one_of(ARITH + ORDER, "operator")
    a, b = leaf("a"), leaf("b")
    node = sa.node(cls, "expr", [a, lit(op) if (cls, op) in ARITH else lit_sym(op), b])
    state = state0()

    def implementation():
        try:
            f.evisitor.visitExpr(node, state)
        except WizardTypeError as e:
            if e.context is not node:
                raise
            return ("type error at the expression",)
        except WizardValueError as e:
            return ("accepted",)
        return ("accepted",)

    st = state0()

    def reference():
        x = val(a, st)
        y = val(b, st)
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return ("accepted",)
        if isinstance(x, str) and isinstance(y, str) and (op == "+" or (cls, op) in ORDER):
            return ("accepted",)
        return ("type error at the expression",)

    sa.expect("operand types of " + op, sa.record(implementation), sa.record(reference))


def lit_sym(name):
    return tok(token_type(name), name)


# --------------------------------------------------------------- logic, comparisons

LOGIC = ((WP.AndContext, "and"), (WP.AndContext, "&"), (WP.OrContext, "or"), (WP.OrContext, "|"), (WP.NotContext, "not"), (WP.NotContext, "!"))


def check_logic():
    f = factory()
    cls, op = sa.one_of(LOGIC, "operator")
    a, b = leaf("a"), leaf("b")
    node = sa.node(cls, "expr", [lit(op), a] if cls is WP.NotContext else [a, lit(op), b])

    def compute(st):
        x = val(a, st)
        if cls is WP.NotContext:
            return not x
        y = val(b, st)
        p = bool(x)
        q = bool(y)
        if cls is WP.AndContext:
            return True if p and q else False
        return True if p or q else False

    sa.expect("operator " + op, evaluate(node, f), expected(node, compute))


COMPARE = ((WP.EqualContext, "Equal", "=="), (WP.EqualContext, "NotEqual", "!="), (WP.LesserContext, "Lesser", "<"),
           (WP.LesserContext, "LesserOrEqual", "<="), (WP.GreaterContext, "Greater", ">"), (WP.GreaterContext, "GreaterOrEqual", ">="))


def relation(op, x, y):
    if op == "==":
        return x == y
    if op == "!=":
        return x != y
    if not (isinstance(x, (int, float)) and isinstance(y, (int, float))) and not (isinstance(x, str) and isinstance(y, str)):
        raise TypeError
    if op == "<":
        return x < y
    if op == "<=":
        return x <= y
    if op == ">":
        return x > y
    return x >= y


def check_compare():
    f = factory()
    cls, token, op = sa.one_of(COMPARE, "comparison")
    ci = sa.choose(2, "':' form")
    a, b = leaf("a"), leaf("b")
    node = sa.node(cls, "expr", [a, lit_sym(token)] + ([lit(":")] if ci else []) + [b])

    def compute(st):
        x = val(a, st)
        y = val(b, st)
        if ci:
            if not isinstance(x, str) or not isinstance(y, str):
                raise TypeError
            x = x.lower()
            y = y.lower()
        return True if relation(op, x, y) else False

    sa.expect("comparison " + op, evaluate(node, f), expected(node, compute))


def check_in():
    f = factory()
    ci = sa.choose(2, "':' form")
    a, b = leaf("a"), leaf("b")
    node = sa.node(WP.InContext, "expr", [a, lit("in")] + ([lit(":")] if ci else []) + [b])

    def compute(st):
        c = val(b, st)
        x = val(a, st)
        if isinstance(c, SubPackages):
            names = [s.name for s in c]
        elif isinstance(c, SubPackage):
            names = c.files
        else:
            raise TypeError
        if isinstance(x, SubPackage):
            x = x.name
        elif not isinstance(x, str):
            raise TypeError
        for n in names:
            if (n.lower() == x.lower()) if ci else (n == x):
                return True
        return False

    sa.expect("membership", evaluate(node, f), expected(node, compute))


# ----------------------------------------------------------------- index and slice

def check_index():
    f = factory()
    a, b = leaf("a"), leaf("b")
    node = sa.node(WP.IndexContext, "expr", [a, lit("["), b, lit("]")])

    def compute(st):
        c = val(a, st)
        i = val(b, st)
        if isinstance(c, SubPackage):
            c = c.name
        if not isinstance(c, (str, SubPackages)) or not isinstance(i, int):
            raise TypeError
        if not isinstance(c, str):
            n = len(c)
            for k in range(n):
                if i == k or i == k - n:
                    return c[k]
            raise IndexError
        return c[i]

    impl = evaluate(node, f)
    sa.expect("index", impl, expected(node, compute))
    if impl[0] == "raise" and isinstance(impl[1], WizardIndexError):
        sa.check(sa.same(impl[1].index, val(b, after(a))), "the index error does not carry the index", impl[1].index)


def after(*leaves):
    """The state after evaluating some opaque expressions (effects are not recorded)."""
    m = sa.mark()
    st = state0()
    for x in leaves:
        ref_eval(x, st)
    sa.drop_events(m)
    return st


SHAPES = [(s, e, c2, p) for s in (0, 1) for e in (0, 1) for c2 in (0, 1) for p in ((0, 1) if c2 else (0,))]
IDX = ("int", "float", "str", "Void")


def check_slice():
    f = factory()
    s, e, c2, p = sa.one_of(SHAPES, "shape: start, end, second colon, step")
    a = leaf("a", ("str", "int", "SubPackage", "SubPackages"))
    parts = []
    kids = [a, lit("[")]
    if s:
        kids.append(leaf("start", IDX))
    kids.append(lit(":"))
    if e:
        kids.append(leaf("end", IDX))
    if c2:
        kids.append(lit(":"))
        if p:
            kids.append(leaf("step", IDX))
    kids.append(lit("]"))
    node = sa.node(WP.SliceContext, "expr", kids)

    def compute(st):
        c = val(a, st)
        x = val(leaf("start", IDX), st) if s else None
        y = val(leaf("end", IDX), st) if e else None
        z = val(leaf("step", IDX), st) if p else None
        if not isinstance(c, str):
            raise TypeError
        for v in (x, y, z):
            if v is not None and not isinstance(v, int):
                raise TypeError
        return c[slice(x, y, z)]

    sa.expect("slice", evaluate(node, f), expected(node, compute))


# ----------------------------------------------------------------------- variables

def value_node(label, kid):
    return sa.node(WP.ValueContext, label, [kid])


def check_variable():
    sev = severity(Issue.USAGE_OF_NOTSET_VARIABLES)
    f = factory(sev)
    name = sa.sym("name", "str")
    node = value_node("expr", ident(name))
    level = sev_level(sev, Issue.USAGE_OF_NOTSET_VARIABLES)

    def compute(st):
        if name in st.variables:
            return st.variables[name].value
        if level == Severity.ERROR:
            raise WizardNameError(node, name)
        if level == Severity.WARNING:
            sa.emit("warning", "")
        return 0

    impl = evaluate(node, f)
    sa.expect("variable", impl, expected(node, compute))
    if impl[0] == "raise":
        sa.check(sa.same(impl[1].name, name), "the error does not name the variable", impl[1].name)


def sev_level(sev, issue):
    """The severity chosen by severity(issue), found by observing a probe error."""
    m = sa.mark()
    try:
        sev.raise_or_warn(issue, WizardNameError(None, "probe"), "probe")
    except WizardNameError:
        sa.drop_events(m)
        return Severity.ERROR
    r = Severity.WARNING if len(sa.events(m)) else Severity.ALLOW
    sa.drop_events(m)
    return r


INCDEC = ((WP.PreIncrementContext, "Increment", 1, True), (WP.PostIncrementContext, "Increment", 1, False),
          (WP.PreDecrementContext, "Decrement", -1, True), (WP.PostDecrementContext, "Decrement", -1, False))


def check_incdec():
    f = factory()
    cls, t, d, pre = sa.one_of(INCDEC, "form")
    name = sa.sym("name", "str")
    node = sa.node(cls, "expr", [lit_sym(t), ident(name)] if pre else [ident(name), lit_sym(t)])
    state, st = state0(), state0()

    def implementation():
        try:
            v = f.evisitor.visitExpr(node, state)
        except WizardError as e:
            return ("error", type(e), e.context, content(state))
        return (view_value(v), content(state))

    def reference():
        if name not in st.variables:
            return ("error", WizardNameError, node, content(st))
        x = st.variables[name].value
        if not isinstance(x, (int, float)):
            return ("error", WizardTypeError, node, content(st))
        st.set(name, Value(x + d))
        return (ref_value(x + d), content(st))

    sa.expect("increment/decrement", sa.record(implementation), sa.record(reference))


# ------------------------------------------------------------------------ literals

def check_literals():
    sps = opaque_subpackages("available")
    f = factory(subpackages=sps)
    kind = sa.one_of(["True", "False", "SubPackages", "integer", "decimal", "double", "single"], "literal")
    text = sa.sym("text", "str")
    other = sa.sym("text2", "str")
    if kind == "integer":
        node = value_node("expr", sa.node(WP.IntegerContext, "int", [tok(WP.Number, text)]))
    elif kind == "decimal":
        node = value_node("expr", sa.node(WP.DecimalContext, "dec", [tok(WP.Number, text), lit("."), tok(WP.Number, other)]))
    elif kind == "double":
        sa.assume("\\" not in text)
        node = value_node("expr", sa.node(WP.StringContext, "str", [tok(WP.DoubleQuotedString, '"' + text + '"')]))
    elif kind == "single":
        sa.assume("\\" not in text)
        node = value_node("expr", sa.node(WP.StringContext, "str", [tok(WP.SingleQuotedString, "'" + text + "'")]))
    else:
        node = value_node("expr", sa.node(WP.ConstantContext, "const", [lit(kind)]))

    def compute(st):
        if kind == "True":
            return True
        if kind == "False":
            return False
        if kind == "SubPackages":
            return sps
        if kind == "integer":
            return int(text)
        if kind == "decimal":
            return float(text + "." + other)
        return text

    sa.expect("literal " + kind, evaluate(node, f), expected(node, compute))


# --------------------------------------------------------------------------- calls

def function(label):
    """A registered function the rule says nothing about."""
    def call(state, values):
        sa.emit("call", label, vars_content(state), tuple([view_value(v) for v in values]))
        e = sa.get("error")
        if e is not None:
            raise e
        state.set(TRACEVAR, Value(sa.typed(sa.ref("called", label, vars_content(state)), "str")))
        return value_of(sa.ref("result", label, vars_content(state)))
    return call


CALLKINDS = ("int", "SubPackage", "Void")


def check_call():
    n = sa.length("number of functions")
    names = [sa.sym("f" + str(i), "str") for i in range(n)]
    for i in range(n):
        for j in range(i):
            sa.assume(names[i] != names[j])
    f = factory(functions={names[i]: function("f" + str(i)) for i in range(n)})
    name = sa.sym("name", "str") if not sa.choose(2, "special name") else sa.one_of(["Exec", "EndExec"], "name")
    sa.assume(name != "Opaque")
    args = [leaf("a" + str(i), CALLKINDS) for i in range(sa.length("number of arguments"))]
    node = sa.node(WP.FunctionCallContext, "expr", [ident(name), lit("("), arglist(args), lit(")")])

    def compute(st):
        if name == "Exec" or name == "EndExec":
            raise WizardNameError(node, "")
        for i in range(n):
            if name == names[i]:
                values = [ref_eval(a, st) for a in args]
                return function("f" + str(i))(st, values).value
        raise WizardNameError(node, name)

    impl = evaluate(node, f)
    sa.expect("function call", impl, expected(node, compute))


def constructs():
    """Names of the constructs of the grammar and of the evaluators of the visitors."""
    out = []
    for c in sa.classes(ParserRuleContext):
        if c.__name__.endswith("Context") and c.__name__[:-7] and c.__name__[:-7] not in out:
            out.append(c.__name__[:-7])
    for v in (WizardExpressionVisitor, WizardRunnerExpressionVisitor):
        for m in sa.all_names(v):
            if m.startswith("visit") and m[5:] not in out:
                out.append(m[5:])
    return out


SCRIPT_FUNCTIONS = ("EditINI", "DisableINILine")


class RVisitor(WizardRunnerExpressionVisitor):
    pass


def check_call_internal():
    runner = sa.choose(2, "visitor of the runner")
    ev = (RVisitor if runner else Visitor)(SubPackages(), {}, Sev())
    name = sa.one_of([n for n in constructs() if n != "Opaque"], "name")
    if runner and name in SCRIPT_FUNCTIONS:
        sa.cut()
    args = [leaf("a" + str(i), ("int",)) for i in range(sa.choose(3, "number of arguments"))]
    node = sa.node(WP.FunctionCallContext, "expr", [ident(name), lit("("), arglist(args), lit(")")])
    state = state0()
    impl = sa.record(lambda: view_value(ev.visitExpr(node, state)))
    sa.expect("an evaluator of a language construct is called as a function", impl, expected(node, lambda st: bad_name(node, name)))


def bad_name(node, name):
    raise WizardNameError(node, name)


TYPENAMES = {"bool": "bool", "int": "integer", "float": "float", "str": "string", "Void": "void", "SubPackage": "SubPackage", "SubPackages": "SubPackage[]"}


def ref_typename(x):
    t = ref_type(x)
    for k, n in ((VariableType.BOOL, "bool"), (VariableType.INTEGER, "integer"), (VariableType.FLOAT, "float"), (VariableType.STRING, "string"),
                 (VariableType.VOID, "void"), (VariableType.SUBPACKAGE, "SubPackage"), (VariableType.LIST_SUBPACKAGES, "SubPackage[]")):
        if t == k:
            return n
    raise AssertionError(t)


def check_dot_call():
    m = "startswith" if sa.choose(2, "fixed name") else sa.sym("m", "str")
    owner = sa.one_of(["bool", "integer", "float", "string", "SubPackage", "SubPackage[]", "void"] if sa.is_sym(m) else [""], "type the method is registered for")
    f = factory(functions={owner + "." + m if owner else m: function("method")})
    name = sa.sym("name", "str")
    recv = leaf("recv")
    args = [leaf("a" + str(i), CALLKINDS) for i in range(sa.length("number of arguments"))]
    node = sa.node(WP.DotFunctionCallContext, "expr", [recv, lit("."), ident(name), lit("("), arglist(args), lit(")")])

    def compute(st):
        r = ref_eval(recv, st)
        q = ref_typename(r.value)
        if owner and q == owner and name == m:
            values = [r] + [ref_eval(a, st) for a in args]
            return function("method")(st, values).value
        raise WizardNameError(node, q + "." + name)

    impl = evaluate(node, f)
    sa.expect("method call", impl, expected(node, compute))
    if impl[0] == "raise" and isinstance(impl[1], WizardNameError):
        q = ref_typename(val(recv, after()))
        sa.check(sa.same(impl[1].name, q + "." + name), "the error does not give the qualified name", impl[1].name)


# ------------------------------------------------------------------ expected types

TYPES = (int, str, bool, float, SubPackages)


def check_expected_type():
    f = factory()
    name = sa.sym("name", "str")
    typ = sa.one_of(TYPES, "required type")
    node = value_node("expr", ident(name))
    sa.assume(name in state0().variables)

    def compute(st):
        x = st.variables[name].value
        if not isinstance(x, typ):
            raise WizardTypeError(node, "")
        return x

    sa.expect("value of a required type", evaluate(node, f, typ), expected(node, compute))


# -------------------------------------------------------------------------- errors

def check_wrap_expr():
    other = sa.node(ParserRuleContext, "other")
    cls = sa.one_of(ERRORS, "error raised by the function")
    e = make_error(cls, other)
    sa.put("error", e)
    f = factory(functions={"f": function("f"), "integer.m": function("m")})
    method = sa.choose(2, "method call")
    if method:
        call = sa.node(WP.DotFunctionCallContext, "call", [fixed("r", 1), lit("."), ident("m"), lit("("), arglist([leaf("x", ("int",))]), lit(")")])
    else:
        call = sa.node(WP.FunctionCallContext, "call", [ident("f"), lit("("), arglist([leaf("x", ("int",))]), lit(")")])
    depth = sa.choose(3, "nesting")
    node = call
    if depth > 0:
        node = sa.node(WP.PlusMinusContext, "sum", [fixed("l", 1), lit("+"), node])
    if depth > 1:
        node = sa.node(WP.ParenExprContext, "paren", [lit("("), node, lit(")")])

    def compute(st):
        if depth > 0:
            ref_eval(fixed("l", 1), st)
        values = [ref_eval(fixed("r", 1), st)] if method else []
        values.append(ref_eval(leaf("x", ("int",)), st))
        try:
            function("m" if method else "f")(st, values)
        except Exception as x:
            pass
        raise ref_error(cls, e, call)

    impl = evaluate(node, f)
    sa.expect("an error raised by a function", impl, expected(node, compute))
    tells_the_same(impl[1], e)


# ------------------------------------------------------------------ broken expressions

def forms(kids):
    """Expression forms over (up to three) sub-expressions, with the order of their evaluation."""
    a, b, c = kids
    return [
        ([a, b], sa.node(WP.PlusMinusContext, "sum", [a, lit("+"), b])),
        ([a, b], sa.node(WP.TimesDivideModuloContext, "prod", [a, lit("*"), b])),
        ([a, b], sa.node(WP.ExponentiationContext, "pow", [a, lit("^"), b])),
        ([a, b], sa.node(WP.AndContext, "and", [a, lit("and"), b])),
        ([a, b], sa.node(WP.OrContext, "or", [a, lit("or"), b])),
        ([a, b], sa.node(WP.EqualContext, "eq", [a, lit_sym("Equal"), b])),
        ([a, b], sa.node(WP.LesserContext, "lt", [a, lit_sym("Lesser"), b])),
        ([a, b], sa.node(WP.GreaterContext, "gt", [a, lit_sym("Greater"), b])),
        ([b, a], sa.node(WP.InContext, "in", [a, lit("in"), b])),
        ([a], sa.node(WP.NotContext, "not", [lit("not"), a])),
        ([a], sa.node(WP.NegativeContext, "neg", [lit("-"), a])),
        ([a], sa.node(WP.ParenExprContext, "paren", [lit("("), a, lit(")")])),
        ([a, b], sa.node(WP.IndexContext, "index", [a, lit("["), b, lit("]")])),
        ([a, b, c], sa.node(WP.SliceContext, "slice", [a, lit("["), b, lit(":"), c, lit("]")])),
        ([a, b, c], sa.node(WP.SliceContext, "slice", [a, lit("["), lit(":"), b, lit(":"), c, lit("]")])),
        ([a, b, c], sa.node(WP.FunctionCallContext, "call", [ident("f"), lit("("), arglist([a, b, c]), lit(")")])),
        ([a, b, c], sa.node(WP.DotFunctionCallContext, "method", [a, lit("."), ident("m"), lit("("), arglist([b, c]), lit(")")])),
    ]


def check_broken_expr():
    f = factory(functions={"f": function("f"), "integer.m": function("m")})
    kids = [leaf("a", ("int",)), leaf("b", ("int",)), leaf("c", ("int",))]
    order, node = sa.one_of(forms(kids), "expression")
    bad = sa.one_of([node] + order, "broken part")
    bad.exception = BROKEN

    def compute(st):
        if bad is not node:
            for k in order:
                ref_eval(k, st)
        raise WizardParseError(bad, BROKEN)

    sa.expect("a broken expression", evaluate(node, f), expected(node, compute))


# ------------------------------------------------------------------- evaluating again

def check_repeat():
    """The value of an expression does not depend on what was evaluated before with the same visitor."""
    shared = factory(functions={"f": function("f"), "integer.m": function("m")})
    fresh = factory(functions={"f": function("f"), "integer.m": function("m")})
    kids = [leaf(n, (k,)) for n, k in zip("abc", sa.one_of((("int", "int", "int"), ("str", "int", "int"), ("str", "str", "str"), ("str", "SubPackage", "int")), "kinds"))]
    name = sa.sym("name", "str")
    sa.assume(name != TRACEVAR)
    others = [([], value_node("variable", ident(name)))]
    order, node = sa.one_of(forms(kids) + others, "expression")
    first = state0("before")
    sa.record(lambda: visit(shared, node, first, None))
    st, rst = state0("now"), state0("now")
    impl = sa.record(lambda: (view_value(visit(shared, node, st, None)), content(st)))
    sa.expect("evaluating an expression again", impl, sa.record(lambda: (view_value(visit(fresh, node, rst, None)), content(rst))))


def check_place():
    """The value of an expression does not depend on the expressions and the statement it is part of."""
    shared = factory(functions={"f": function("f"), "integer.m": function("m")})
    fresh = factory(functions={"f": function("f"), "integer.m": function("m")})
    kids = [leaf(n, (k,)) for n, k in zip("abc", sa.one_of((("int", "int", "int"), ("str", "SubPackage", "int")), "kinds"))]
    name = sa.sym("name", "str")
    sa.assume(name != TRACEVAR)
    order, node = sa.one_of(forms(kids) + [([], value_node("variable", ident(name)))], "expression")
    rst = state0("now")
    ref = sa.record(lambda: (view_value(visit(fresh, node, rst, None)), content(rst)))
    x = node
    for i in range(sa.length("enclosing expressions")):
        k = sa.one_of(["parentheses", "not", "left of +", "right of or", "index", "argument"] if i == 0 else [k, "parentheses"], "enclosing expression " + str(i))
        n, o = "outer" + str(i), leaf("other" + str(i))
        if k == "parentheses":
            x = sa.node(WP.ParenExprContext, n, [lit("("), x, lit(")")])
        elif k == "not":
            x = sa.node(WP.NotContext, n, [lit("not"), x])
        elif k == "left of +":
            x = sa.node(WP.PlusMinusContext, n, [x, lit("+"), o])
        elif k == "right of or":
            x = sa.node(WP.OrContext, n, [o, lit("or"), x])
        elif k == "index":
            x = sa.node(WP.IndexContext, n, [o, lit("["), x, lit("]")])
        else:
            x = sa.node(WP.FunctionCallContext, n, [ident("f"), lit("("), arglist([o, x]), lit(")")])
    where = sa.one_of(["nowhere", "assignment", "condition", "header", "case", "note"], "statement") if x is node else "nowhere"
    if where == "assignment":
        sa.node(WP.StmtContext, "stmt", [sa.node(WP.AssignmentContext, "assign", [ident("y"), lit_sym("Assign"), x])])
    elif where == "condition":
        sa.node(WP.WhileStmtContext, "while", [lit("While"), x, sa.node(WP.BodyContext, "block", []), lit("EndWhile")])
    elif where == "header":
        sa.node(WP.ForStmtContext, "for", [lit("For"), ident("i"), sa.node(WP.ForInHeaderContext, "in", [lit("in"), x]), sa.node(WP.BodyContext, "block", []), lit("EndFor")])
    elif where == "case":
        sa.node(WP.CaseStmtContext, "case", [lit("Case"), x, sa.node(WP.BodyContext, "block", [])])
    elif where == "note":
        sa.node(WP.KeywordStmtContext, "keyword", [tok(WP.Keyword, "Note"), arglist([x])])
    st = state0("now")
    impl = sa.record(lambda: (view_value(visit(shared, node, st, None)), content(st)))
    sa.expect("an expression inside of others", impl, ref)


def check_compare_grammar():
    """The ':' of the case-insensitive forms stands right after the operator."""
    for op in ("Equal", "NotEqual", "Lesser", "LesserOrEqual", "Greater", "GreaterOrEqual"):
        for colon in ((), (":",)):
            sa.check(sa.grammar("accepts", "expr", ("constant", op) + colon + ("expr",)), "the grammar does not have the form of the operator", op, colon)


def check_in_grammar():
    for colon in ((), (":",)):
        sa.check(sa.grammar("accepts", "expr", ("constant", "in") + colon + ("expr",)), "the grammar does not have the form of the operator", "in" + ("" if not colon else ":"))
