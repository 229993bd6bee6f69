"""Control flow of the interpreter: If, loops, bodies, Break, Continue, Exec, ends."""
import sa
from spec_h import *
from wizard.interpreter import WizardInterpreter
from wizard.manager import SelectOption
from wizard.contexts.keywords import WizardKeywordContext
from antlr4.error.Errors import ParseCancellationException


# ----------------------------------------------------------------------------- If

def make_if(n_elif, has_else):
    kids = [lit("If"), leaf("cond"), body_node("then")]
    for i in range(n_elif):
        kids.append(sa.node(WP.ElifStmtContext, "elif" + str(i), [lit("Elif"), leaf("econd" + str(i)), body_node("ethen" + str(i))]))
    if has_else:
        kids.append(sa.node(WP.ElseStmtContext, "else", [lit("Else"), body_node("otherwise")]))
    kids.append(lit("EndIf"))
    return sa.node(WP.IfStmtContext, "if", kids, unb=True)


def check_if():
    f = factory()
    p = parent(f)
    n = sa.length("number of Elif")
    has_else = sa.choose(2, "Else present")
    node = make_if(n, has_else)
    if n == 0:
        earlier_step(f, lambda q: f.make_if_context(node, q))
    ctx = resumed(f, f.make_if_context(node, p))
    st = sa.clone(ctx.state)

    def reference():
        conds = [leaf("cond")] + [leaf("econd" + str(i)) for i in range(n)]
        bodies = ["then"] + ["ethen" + str(i) for i in range(n)]
        for c, b in zip(conds, bodies):
            if ref_eval(c, st):
                return (C.WizardBodyContext, b, content(st), pview(p, st))
        if has_else:
            return (C.WizardBodyContext, "otherwise", content(st), pview(p, st))
        return pview(p, st)

    def implementation():
        r = run_step(ctx)
        if isinstance(r, C.WizardBodyContext):
            return (type(r), r.context.label__, content(r.state), cview(r.parent))
        return cview(r)

    sa.expect("If/Elif/Else selects the wrong block", sa.record(implementation), sa.record(reference))


# -------------------------------------------------------------------------- loops

def turn(f, ctx, i):
    """One step of a loop: (view, next loop context)."""
    out = []

    def implementation():
        r = run_step(ctx)
        if isinstance(r, C.WizardBodyContext):
            out.append(f.copy_parent(r, state0("turn" + str(i))))
            return ("turn", r.context.label__, content(r.state), type(r.parent), r.parent.context, content(r.parent.state), r.parent.parent)
        return ("end", cview(r))

    return sa.record(implementation), out


def drive(f, ctx, p, values, name, label, message):
    """The turns of a For loop over the given values."""
    st = sa.clone(ctx.state)
    cls, node = type(ctx), ctx.context
    for i in range(len(values) + 1):
        impl, nxt = turn(f, ctx, i)

        def reference():
            if i == len(values):
                return ("end", pview(p, st))
            st.set(name, values[i])
            return ("turn", label, content(st), cls, node, content(st), ctx.parent)

        sa.expect(message + ", turn " + str(i), impl, sa.record(reference))
        if i == len(values):
            return
        ctx = nxt[0]
        st = state0("turn" + str(i))


def check_for_range():
    f = factory()
    p = parent(f)
    name = sa.sym("name", "str")
    kinds = ("int", "str", "float", "Void")
    has_by = sa.choose(2, "by present")
    hk = [lit("from"), leaf("start", kinds, None, ("int",)), lit("to"), leaf("end", kinds, None, ("int",))]
    if has_by:
        hk += [lit("by"), leaf("step", kinds, None, ("int",))]
    node = sa.node(WP.ForStmtContext, "for", [
        lit("For"), ident(name), sa.node(WP.ForRangeHeaderContext, "header", hk), body_node("block"), lit("EndFor")])
    earlier_step(f, lambda q: f.make_for_loop_context(node, q))
    st = sa.clone(p.state)

    def reference():
        a = ref_eval(leaf("start", kinds, None, ("int",)), st, int).value
        b = ref_eval(leaf("end", kinds, None, ("int",)), st, int).value
        c = ref_eval(leaf("step", kinds, None, ("int",)), st, int).value if has_by else 1
        if c == 0:
            raise WizardValueError(None, "")
        out = []
        x = a
        while (x <= b) if c > 0 else (x >= b):
            out.append(Value(x))
            x = x + c
        return out

    ref = sa.record(reference)
    made = []

    def construct():
        c = located(lambda: f.make_for_loop_context(node, p))
        made.append(c)
        return content(c.state)

    impl = sa.record(construct)
    if ref[0] == "raise" or impl[0] == "raise":
        sa.expect("For from/to/by", impl, ref)
        return
    sa.expect("For from/to/by: header", impl, ("ok", content(st), ref[2]))
    drive(f, made[0], p, ref[1], name, "block", "For from/to/by visits the wrong values")


def check_for_in():
    f = factory()
    p = parent(f)
    name = sa.sym("name", "str")
    node = sa.node(WP.ForStmtContext, "for", [
        lit("For"), ident(name), sa.node(WP.ForInHeaderContext, "header", [lit("in"), leaf("c", earlier=("str", "SubPackages"))]), body_node("block"), lit("EndFor")])
    earlier_step(f, lambda q: f.make_for_loop_context(node, q))
    st = sa.clone(p.state)

    def reference():
        v = ref_eval(leaf("c"), st).value
        if isinstance(v, SubPackage):
            return [Value(x) for x in v.files]
        if isinstance(v, SubPackages):
            return [Value(x) for x in v]
        if isinstance(v, str):
            return [Value(x) for x in v]
        raise WizardTypeError(None, "")

    ref = sa.record(reference)
    made = []

    def construct():
        c = located(lambda: f.make_for_loop_context(node, p))
        made.append(c)
        return content(c.state)

    impl = sa.record(construct)
    if ref[0] == "raise" or impl[0] == "raise":
        sa.expect("For in", impl, ref)
        return
    sa.expect("For in: header", impl, ("ok", content(st), ref[2]))
    drive(f, made[0], p, ref[1], name, "block", "For in visits the wrong values")


def check_while():
    f = factory()
    p = parent(f)
    node = sa.node(WP.WhileStmtContext, "while", [lit("While"), leaf("cond"), body_node("block"), lit("EndWhile")])
    earlier_step(f, lambda q: f.make_while_loop_context(node, q))
    ctx = f.make_while_loop_context(node, p)
    st = sa.clone(ctx.state)
    for i in range(sa.K() + 1):
        impl, nxt = turn(f, ctx, i)
        more = []

        def reference():
            if ref_eval(leaf("cond"), st):
                more.append(1)
                return ("turn", "block", content(st), type(ctx), node, content(st), ctx.parent)
            return ("end", pview(p, st))

        sa.expect("While, turn " + str(i), impl, sa.record(reference))
        if not more:
            return
        ctx = nxt[0]
        st = state0("turn" + str(i))


# ------------------------------------------------------------- break and continue

def select_at(f, up, label):
    """A select in its first case, in a case it reached from the one before, in its Default, or before its cases."""
    cls = sa.one_of([WP.SelectOneContext, WP.SelectManyContext], "kind of select")
    where = sa.one_of([None, "first", "fall through", "default"], "case of " + label)
    case = lambda x: sa.node(WP.CaseStmtContext, label + ".case" + x, [lit("Case"), fixed(label + ".label" + x, x), body_node(label + ".block" + x)])
    cases = sa.node(WP.SelectCaseListContext, "cases:" + label, [
        case("A"), case("B"), sa.node(WP.DefaultStmtContext, label + ".default", [lit("Default"), body_node(label + ".otherwise")])])
    node = sa.node(cls, label, [lit("SelectOne"), leaf("header"), cases])
    m = sa.mark()
    c = f.make_select_cases_context([SelectOption("C" if where == "default" else "A", "", None)], node, up)
    for i in range({None: 0, "first": 1, "fall through": 2, "default": 3}[where]):
        r = c.exec()
        c = r.parent if isinstance(r, C.WizardCaseContext) else r
    sa.drop_events(m)
    return c


class OwnConstruct(C.WizardInterpreterContext, C.WizardBreakableContext, C.WizardContinuableContext):
    """A construct of the user of the library that can be left and continued."""

    def break_(self):
        return self._factory.copy_parent(self)

    def continue_(self):
        return self


def chain(f, depth, root):
    """Enclosing constructs, outermost first; every class of construct at every level."""
    out = [root]
    for i in range(depth):
        up = out[-1]
        k = sa.one_of(["block", "for", "while", "select", "case", "own"], "enclosing construct " + str(i))
        n = "level" + str(i)
        if k == "block":
            c = C.WizardBodyContext(f, body_node(n), up, state0(n))
        elif k == "own":
            c = OwnConstruct(f, sa.node(ParserRuleContext, n), up, state0(n))
        elif k == "case":
            c = C.WizardCaseContext(f, sa.node(WP.DefaultStmtContext, n, [lit("Default"), body_node(n + ".body")]), up, state0(n))
        elif k == "while":
            c = C.WizardWhileLoopContext(f, sa.node(WP.WhileStmtContext, n, [lit("While"), leaf("c"), body_node(n), lit("EndWhile")]), up, state0(n))
        elif k == "for":
            c = f.make_for_loop_context(sa.node(WP.ForStmtContext, n, [
                lit("For"), ident("i"), sa.node(WP.ForRangeHeaderContext, "h", [lit("from"), fixed("a", 0), lit("to"), fixed("b", 1)]),
                body_node(n), lit("EndFor")]), up)
            # in its first or in its last turn
            b = c.exec()
            if sa.choose(2, "last turn of loop " + str(i)):
                b = f.copy_parent(b).exec()
            c = b.parent
        else:
            c = select_at(f, up, n)
        c.kind__ = k
        out.append(c)
    return out


def top_level(f, label="script"):
    n = sa.node(WP.ParseWizardContext, label, [body_node(label + ".body"), lit_eof()])
    return C.WizardTopLevelContext(f, n, None, state0(label))


def lit_eof():
    return tok(Token.EOF, "<EOF>")


def check_break():
    f = factory()
    cs = chain(f, sa.length("enclosing constructs"), parent(f))
    node = sa.node(WP.BreakContext, "break", [lit("Break")])
    ctx = C.WizardBreakContext(f, node, cs[-1], state0("at break"))
    st = ctx.state

    def reference():
        for c in reversed(cs[1:]):
            if c.kind__ in ("for", "while", "own"):
                return pview(c.parent, st)
            if c.kind__ == "select":
                return (type(c), c.context, content(st), c.parent)
        raise WizardParseError(node, "")

    def implementation():
        r = run_step(ctx)
        if isinstance(r, C.WizardSelectCasesContext) and "select" in [c.kind__ for c in cs[1:]] and innermost(cs, ("for", "while", "own", "select")) == "select":
            return (type(r), r.context, content(r.state), r.parent)
        return cview(r)

    sa.expect("Break continues at the wrong place", sa.record(implementation), sa.record(reference))


def innermost(cs, kinds):
    for c in reversed(cs[1:]):
        if c.kind__ in kinds:
            return c.kind__
    return None


def check_continue():
    f = factory()
    cs = chain(f, sa.length("enclosing constructs"), parent(f))
    node = sa.node(WP.ContinueContext, "continue", [lit("Continue")])
    ctx = C.WizardContinueContext(f, node, cs[-1], state0("at continue"))
    st = ctx.state

    def reference():
        for c in reversed(cs[1:]):
            if c.kind__ in ("for", "while", "own"):
                return pview(c, st)
        raise WizardParseError(node, "")

    sa.expect("Continue continues at the wrong place", sa.record(lambda: cview(run_step(ctx))), sa.record(reference))


# -------------------------------------------------------------------------- blocks

def assignment(i=""):
    n = sa.node(WP.AssignmentContext, "assign" + str(i), [ident("x"), lit_sym("Assign"), leaf("value" + str(i))])
    return sa.node(WP.StmtContext, "stmt" + str(i), [n])


def lit_sym(name):
    return tok(token_type(name), name)


def check_body():
    f = factory()
    p = parent(f)
    n = sa.length("number of statements")
    forms = [sa.one_of(["expression", "statement"], "statement " + str(i)) for i in range(n)]
    kids = [leaf("e" + str(i)) if k == "expression" else assignment(i) for i, k in enumerate(forms)]
    node = body_node("block", kids if n or sa.choose(2, "children is an empty list") else None)
    if node.children is not None:
        sa.unbounded(node.children)
    ctx = f.make_body_context(node, p)
    st = sa.clone(ctx.state)
    for i in range(n + 1):
        nxt = []

        def implementation():
            r = run_step(ctx)
            if i == n:
                return cview(r)
            if forms[i] == "expression":
                nxt.append(r)
                return (type(r), r.context, content(r.state), r.parent)
            nxt.append(f.copy_parent(r, state0("after" + str(i))))
            return (type(r), r.context, content(r.state), type(r.parent), r.parent.context, r.parent.parent)

        def reference():
            if i == n:
                return pview(p, st)
            if forms[i] == "expression":
                ref_eval(kids[i], st)
                return (C.WizardBodyContext, node, content(st), ctx.parent)
            return (C.WizardAssignmentContext, kids[i].children[0], content(st), C.WizardBodyContext, node, ctx.parent)

        sa.expect("statement " + str(i) + " of a block", sa.record(implementation), sa.record(reference))
        if i < n:
            ctx = nxt[0]
            if forms[i] == "statement":
                st = state0("after" + str(i))


def cf(cls, label, kid):
    return sa.node(WP.StmtContext, "stmt", [sa.node(cls, label, [kid])])


def statement_forms():
    """Statement forms of the grammar: name, child of the block, class and node of the construct started."""
    out = []
    a = sa.node(WP.AssignmentContext, "assign", [ident("x"), lit_sym("Assign"), leaf("v")])
    out.append((WP.AssignmentContext, sa.node(WP.StmtContext, "s", [a]), C.WizardAssignmentContext, a))
    ca = sa.node(WP.CompoundAssignmentContext, "cassign", [ident("x"), lit_sym("CompoundAdd"), leaf("v")])
    out.append((WP.CompoundAssignmentContext, sa.node(WP.StmtContext, "s", [ca]), C.WizardCompoundAssignmentContext, ca))
    ks = sa.node(WP.KeywordStmtContext, "keyword", [tok(WP.Keyword, "SelectAll"), arglist([])])
    out.append((WP.KeywordStmtContext, sa.node(WP.StmtContext, "s", [ks]), KC.WizardSelectAllContext, ks))
    i = make_if(0, False)
    out.append((WP.IfContext, cf(WP.IfContext, "cf", i), C.WizardIfContext, i))
    w = sa.node(WP.WhileStmtContext, "while", [lit("While"), leaf("c"), body_node("block"), lit("EndWhile")])
    out.append((WP.WhileContext, cf(WP.WhileContext, "cf", w), C.WizardWhileLoopContext, w))
    fo = sa.node(WP.ForStmtContext, "for", [
        lit("For"), ident("i"), sa.node(WP.ForRangeHeaderContext, "h", [lit("from"), fixed("a", 0), lit("to"), fixed("b", 1)]),
        body_node("b"), lit("EndFor")])
    out.append((WP.ForContext, cf(WP.ForContext, "cf", fo), C.WizardForLoopContext, fo))
    for sel, cls in ((WP.SelectOneContext, C.WizardSelectOneContext), (WP.SelectManyContext, C.WizardSelectManyContext)):
        s = sa.node(sel, "sel", [
            lit("SelectOne" if sel is WP.SelectOneContext else "SelectMany"), fixed("d", "text"), lit(","),
            sa.node(WP.OptionTupleContext, "opt", [fixed("o1", "A"), lit(","), fixed("o2", "B"), lit(","), fixed("o3", "C")]),
            sa.node(WP.SelectCaseListContext, "cases", None)])
        ss = sa.node(WP.SelectStmtContext, "select", [s, lit("EndSelect")])
        out.append((WP.SelectContext, cf(WP.SelectContext, "cf", ss), cls, s))
    for wp, cls, t in ((WP.BreakContext, C.WizardBreakContext, "Break"), (WP.ContinueContext, C.WizardContinueContext, "Continue"),
                       (WP.ReturnContext, C.WizardReturnContext, "Return")):
        n = sa.node(wp, "cf" + t, [lit(t)])
        out.append((wp, sa.node(WP.StmtContext, "s", [n]), cls, n))
    ca = sa.node(WP.CancelStmtContext, "cancel", [lit("Cancel"), fixed("m", "message")])
    out.append((WP.CancelContext, cf(WP.CancelContext, "cf", ca), C.WizardCancelContext, ca))
    ex = sa.node(WP.FunctionCallContext, "exec", [ident("Exec"), lit("("), arglist([leaf("script")]), lit(")")])
    out.append((WP.FunctionCallContext, ex, C.WizardExecContext, ex))
    return out


def check_dispatch():
    f = factory()
    p = parent(f)
    forms = statement_forms()
    _, child, cls, target = sa.one_of(forms, "statement form")
    sa.note("statement form", target)
    node = body_node("block", [child])
    ctx = f.make_body_context(node, p)

    def implementation():
        mark = sa.mark()
        r = run_step(ctx)
        sa.drop_events(mark)
        end = run_step(r.parent)
        return (type(r), r.context, type(r.parent), r.parent.context, r.parent.parent, type(end), end.context)

    def reference():
        return (cls, target, C.WizardBodyContext, node, p, type(p), p.context)

    sa.expect("a statement starts the wrong construct", sa.record(implementation), sa.record(reference))


def check_call_statement():
    """A call of any name but Exec is an expression like any other."""
    f = factory()
    p = parent(f)
    name = sa.sym("name", "str")
    call = sa.node(WP.FunctionCallContext, "call", [ident(name), lit("("), arglist([leaf("a")] if sa.choose(2, "an argument") else []), lit(")")])
    node = body_node("block", [call])
    earlier_step(f, lambda q: f.make_body_context(node, q))
    ctx = f.make_body_context(node, p)
    st = sa.clone(ctx.state)

    def implementation():
        r = run_step(ctx)
        if isinstance(r, C.WizardBodyContext):
            return (type(r), r.context, content(r.state), r.parent)
        return (type(r), r.context)

    def reference():
        if name == "Exec":
            return (C.WizardExecContext, call)
        f.evisitor.visitExpr(call, st)
        return (C.WizardBodyContext, node, content(st), p)

    sa.expect("a call as a statement", sa.record(implementation), sa.record(reference))


def check_dispatch_complete():
    known = [c for c, _, _, _ in statement_forms()]
    for alt in sa.grammar("rule_refs", "stmt"):
        if alt != "controlFlowStmt":
            sa.check(alt in [sa.grammar("rule_of", c.__name__) for c in known], "a statement form of the grammar has no meaning", alt)
    for c in sa.classes(WP.ControlFlowStmtContext):
        if c is not WP.ControlFlowStmtContext:
            sa.check(c in known, "a control-flow form of the grammar has no meaning", c)
    sa.check(sa.same(tuple(sorted(sa.grammar("rule_refs", "body"))), ("expr", "stmt")), "a block may contain something that is not dispatched")
    f = factory()
    ctx = f.make_body_context(body_node("block"), parent(f))
    sa.check(ctx.context.label__ == "block", "block")


# ------------------------------------------------------------------ assignments

def check_assignment():
    f = factory()
    p = parent(f)
    name = sa.sym("name", "str")
    e = leaf("e", sets=sa.one_of([None, name, sa.sym("other name", "str")], "variable changed by the right side"))
    node = sa.node(WP.AssignmentContext, "assign", [ident(name), lit_sym("Assign"), e])
    earlier_step(f, lambda q: f.make_assignment_context(node, q))
    ctx = resumed(f, f.make_assignment_context(node, p))
    st = sa.clone(ctx.state)

    def reference():
        v = ref_eval(e, st)
        st.set(name, v)
        return pview(p, st)

    sa.expect("assignment", sa.record(lambda: cview(run_step(ctx))), sa.record(reference))


NUM = (int, float)


def ref_op(op, a, b):
    """Reference arithmetic of the language on Python values; TypeError if it is not defined."""
    if op == "+":
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if not isinstance(a, NUM) or not isinstance(b, NUM):
            raise TypeError
        return a + b
    if not isinstance(a, NUM) or not isinstance(b, NUM):
        raise TypeError
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        return a / b
    if op == "%":
        return a % b
    if op == "^":
        return a ** b
    raise AssertionError(op)


COMPOUND = (("CompoundAdd", "+"), ("CompoundSub", "-"), ("CompoundMul", "*"), ("CompoundDiv", "/"), ("CompoundMod", "%"), ("CompoundExp", "^"))


def check_compound():
    f = factory()
    p = parent(f)
    name = sa.sym("name", "str")
    sa.assume(name != TRACEVAR)
    t, op = sa.one_of(COMPOUND, "operator")
    e = leaf("e", sets=sa.one_of([None, name], "variable changed by the right side"), earlier=("int",))
    node = sa.node(WP.CompoundAssignmentContext, "cassign", [ident(name), lit_sym(t), e])
    earlier_step(f, lambda q: f.make_compound_assignment_context(node, q))
    ctx = f.make_compound_assignment_context(node, p)
    if op == COMPOUND[0][1]:
        ctx = resumed(f, ctx)
    st = sa.clone(ctx.state)

    def reference():
        v = ref_eval(e, st).value
        if name not in st.variables:
            raise WizardNameError(node, name)
        try:
            r = Value(ref_op(op, st.variables[name].value, v))
        except TypeError:
            raise WizardTypeError(node, "")
        except ArithmeticError:
            raise WizardValueError(node, "")
        except ValueError:
            raise WizardValueError(node, "")
        st.set(name, r)
        return pview(p, st)

    sa.expect("compound assignment", sa.record(lambda: cview(run_step(ctx))), sa.record(reference))


# --------------------------------------------------------------------- Exec, ends

def parse_hook(script, wrap_excs=True):
    sa.emit("parse", script)
    if sa.get("parse fails"):
        raise WizardParseError(None, "syntax")
    return sa.node(WP.ParseWizardContext, "sub", [body_node("sub.body"), lit_eof()])


sa.hook("make_parse_wizard_context", parse_hook)


def check_exec():
    sa.enable_hook("make_parse_wizard_context")
    sa.put("parse fails", sa.choose(2, "the script cannot be parsed") == 1)
    f = factory()
    p = parent(f)
    n = sa.length("number of arguments")
    args = [leaf("a" + str(i)) for i in range(n)]
    node = sa.node(WP.FunctionCallContext, "exec", [ident("Exec"), lit("("), arglist(args), lit(")")])
    earlier_step(f, lambda q: f.make_exec_context(node, q))
    ctx = resumed(f, f.make_exec_context(node, p))
    st = sa.clone(ctx.state)

    def implementation():
        r = run_step(ctx)
        b = run_step(r)
        end = run_step(b)
        return (content(r.state), type(b), b.context.label__, content(b.state), cview(end))

    def reference():
        if n != 1:
            raise WizardTypeError(node, "")
        script = ref_eval(args[0], st, str).value
        sa.emit("parse", script)
        if sa.get("parse fails"):
            raise WizardParseError(node, "syntax")
        return (content(st), C.WizardBodyContext, "sub.body", content(st), pview(p, st))

    sa.expect("Exec", sa.record(implementation), sa.record(reference), events=(n == 1))


def check_top_level():
    f = factory()
    t = top_level(f)

    def implementation():
        b = run_step(t)
        e = run_step(b)
        return (t.is_top_level(), type(b), b.context.label__, content(b.state), type(e), content(e.state), e.is_complete(), e.is_cancel(), e.is_return(), e.message())

    def reference():
        s = content(t.state)
        return (True, C.WizardBodyContext, "script.body", s, C.WizardTerminationContext, s, True, False, False, None)

    sa.expect("running an empty script", sa.record(implementation), sa.record(reference))


class OwnReturn(C.WizardReturnContext):
    pass


class OwnCancel(C.WizardCancelContext):
    pass


def check_termination():
    f = factory()
    p = parent(f)
    cs = chain(f, 1, p)
    plain = C.WizardReturnContext(f, sa.node(WP.ReturnContext, "return", [lit("Return")]), p, state0("at return"))
    cancel = C.WizardCancelContext(f, sa.node(WP.CancelStmtContext, "cancel", [lit("Cancel"), fixed("m", "text")]), p, state0("at cancel"))
    own = OwnReturn(f, plain.context, p, state0("at return"))
    owncancel = OwnCancel(f, cancel.context, p, state0("at cancel"))
    kind, c = sa.one_of([("return", plain), ("cancel", cancel), ("return", own), ("cancel", owncancel), ("complete", cs[1])], "what ends the script")
    st = c.state

    def implementation():
        t = f.make_termination_context(c) if kind == "complete" else run_step(c)
        return (type(t), t.is_return(), t.is_cancel(), t.is_complete(), t.message(), content(t.state))

    def reference():
        return (C.WizardTerminationContext, kind == "return", kind == "cancel", kind == "complete", "text" if kind == "cancel" else None,
                content(st))

    sa.expect("termination", sa.record(implementation), sa.record(reference))


def check_cancel():
    f = factory()
    p = parent(f)
    has = sa.choose(2, "message present")
    node = sa.node(WP.CancelStmtContext, "cancel", [lit("Cancel")] + ([leaf("m")] if has else []))
    earlier_step(f, lambda q: f.make_cancel_context(node, q))
    st = sa.clone(p.state)

    def implementation():
        c = located(lambda: f.make_cancel_context(node, p))
        t = run_step(c)
        return (c.message(), t.message(), type(t), t.is_cancel(), t.is_return(), t.is_complete(), content(t.state))

    def reference():
        m = ref_eval(leaf("m"), st, str).value if has else None
        return (m, m, C.WizardTerminationContext, True, False, False, content(st))

    sa.expect("Cancel", sa.record(implementation), sa.record(reference))


def check_body_end():
    """The end of a block: termination for the block of the script, the enclosing construct otherwise."""
    f = factory()
    inner = sa.choose(2, "script run by Exec")
    p = parent(f)
    if inner:
        n = sa.node(WP.ParseWizardContext, "sub", [body_node("sub.body"), lit_eof()])
        t = C.WizardTopLevelContext(f, n, p, state0("sub"))
    else:
        t = top_level(f)
        if sa.choose(2, "a copy of the script's context"):
            t = f.copy_context(t)
    b = run_step(t)
    st = sa.clone(b.state)

    def implementation():
        r = run_step(b)
        if isinstance(r, C.WizardTerminationContext):
            return ("end of the script", r.is_complete(), content(r.state))
        return cview(r)

    def reference():
        if inner:
            return pview(p, st)
        return ("end of the script", True, content(st))

    sa.expect("end of a script", sa.record(implementation), sa.record(reference))


# ------------------------------------------------------------------------- errors

class Failing(C.WizardInterpreterContext):
    def exec_(self):
        sa.emit("exec", self.context)
        raise sa.get("error")


ERRORS = (TypeError, IndexError, ValueError, ZeroDivisionError, OverflowError, UnicodeError, WizardNameError, WizardTypeError, WizardParseError)
STEP_ERRORS = ERRORS + (ParseCancellationException,)


def make_error(cls, other):
    if issubclass(cls, WizardNameError):
        return cls(other, "name")
    if issubclass(cls, WizardError):
        return cls(other, "text")
    return cls(*[sa.sym("part " + str(i) + " of the error", "str") for i in range(sa.choose(3, "arguments of the error"))])


def tells_the_same(made, e):
    """The error that reaches the caller says what the original one said."""
    if isinstance(e, WizardError):
        sa.check(made is e, "a Wizard error is replaced by another one", type(e))
        return
    sa.check(made.__cause__ is e, "the cause of the error is lost", type(e))
    if len(e.args) == 1:
        text = e.args[0]
        sa.expect("the text of the error", sa.record(lambda: made.message), sa.record(
            lambda: "Index " + text + " out of range." if isinstance(e, IndexError) else text))
        if isinstance(e, IndexError):
            sa.expect("the index of the error", sa.record(lambda: made.index), sa.record(lambda: text))


def ref_error(cls, e, here):
    """The error that must reach the caller."""
    if issubclass(cls, WizardError):
        return e
    if issubclass(cls, TypeError):
        return WizardTypeError(here, "")
    if issubclass(cls, IndexError):
        return WizardIndexError(here, "")
    if issubclass(cls, ParseCancellationException):
        return WizardParseError(here, "")
    return WizardValueError(here, "")


def check_wrap_exec():
    f = factory()
    p = parent(f)
    node = sa.node(ParserRuleContext, "node")
    other = sa.node(ParserRuleContext, "other")
    cls = sa.one_of(STEP_ERRORS, "error raised by the step")
    e = make_error(cls, other)
    sa.put("error", e)
    ctx = Failing(f, node, p, state0())

    def reference():
        sa.emit("exec", node)
        raise ref_error(cls, e, node)

    impl = sa.record(ctx.exec)
    sa.expect("an error raised by a step", impl, sa.record(reference))
    tells_the_same(impl[1], e)


def check_broken_statement():
    f = factory()
    p = parent(f)
    forms = [(t, m) for t, m in (
        (make_if(1, True), f.make_if_context),
        (sa.node(WP.WhileStmtContext, "while", [lit("While"), leaf("c"), body_node("b"), lit("EndWhile")]), f.make_while_loop_context),
        (sa.node(WP.AssignmentContext, "assign", [ident("x"), lit_sym("Assign"), leaf("v")]), f.make_assignment_context),
        (sa.node(WP.CompoundAssignmentContext, "cassign", [ident("x"), lit_sym("CompoundAdd"), leaf("v")]), f.make_compound_assignment_context),
        (sa.node(WP.FunctionCallContext, "exec", [ident("Exec"), lit("("), arglist([leaf("s")]), lit(")")]), f.make_exec_context),
        (body_node("block", [leaf("e")]), f.make_body_context),
        (sa.node(WP.KeywordStmtContext, "keyword", [tok(WP.Keyword, "SelectAll"), arglist([])]), f.make_keyword_context),
        (sa.node(WP.KeywordStmtContext, "keyword", [tok(WP.Keyword, "SelectPlugin"), arglist([leaf("p")])]), f.make_keyword_context),
        (sa.node(WP.ParseWizardContext, "script", [body_node("b"), lit_eof()]), lambda n, q: C.WizardTopLevelContext(f, n, None, state0())),
        (sa.node(WP.DefaultStmtContext, "default", [lit("Default"), body_node("b")]), f.make_case_context),
        (sa.node(WP.BreakContext, "break", [lit("Break")]), f.make_break_context),
        (sa.node(WP.ReturnContext, "return", [lit("Return")]), f.make_return_context),
    )]
    node, make = sa.one_of(forms, "statement")
    sa.note("statement", node)
    node.exception = BROKEN
    made = []

    def implementation():
        made.append(make(node, p))
        return None

    impl = sa.record(implementation)
    sa.expect("a broken statement is reported before it is executed", impl, ("ok", None, sa.no_events()))

    def reference():
        raise WizardParseError(node, BROKEN)

    sa.expect("a broken statement is executed", sa.record(lambda: run_step(made[0])), sa.record(reference))


def check_broken_expression_statement():
    """A broken expression in a block (with or without anything the parser could read in it)."""
    f = factory()
    p = parent(f)
    bad = sa.one_of([leaf("broken"), sa.node(WP.ExprContext, "broken", None), sa.node(WP.ExprContext, "broken", [lit("("), leaf("inner")]),
                     sa.node(WP.FunctionCallContext, "broken", [ident("Exec"), lit("("), arglist([leaf("s")]), lit(")")])], "broken expression")
    bad.exception = BROKEN
    ctx = f.make_body_context(body_node("block", [leaf("before"), bad, leaf("after")]), p)
    st = sa.clone(ctx.state)

    def implementation():
        b = run_step(ctx)
        c = run_step(b)
        if isinstance(c, C.WizardExecContext):
            c = run_step(c)
        return ("executed", cview(c))

    def reference():
        ref_eval(leaf("before"), st)
        raise WizardParseError(bad, BROKEN)

    sa.expect("a broken expression statement is executed", sa.record(implementation), sa.record(reference))


def check_broken_for_header():
    f = factory()
    p = parent(f)
    where = sa.one_of(["statement", "range header", "in header", "no header"], "broken part")
    rh = sa.node(WP.ForRangeHeaderContext, "header", [lit("from"), leaf("a"), lit("to"), leaf("b")])
    ih = sa.node(WP.ForInHeaderContext, "header", [lit("in"), leaf("c")])
    h = ih if where == "in header" or where == "statement" and sa.choose(2, "in header") else rh
    node = sa.node(WP.ForStmtContext, "for", [lit("For"), ident("x")] + ([] if where == "no header" else [h]) + [body_node("b"), lit("EndFor")])
    if where == "statement":
        node.exception = BROKEN
    elif where != "no header":
        h.exception = BROKEN

    def reference():
        raise WizardParseError(node, None if where == "no header" else BROKEN)

    impl = sa.record(lambda: located(lambda: f.make_for_loop_context(node, p)))
    sa.expect("a broken For header", impl, sa.record(reference))


def check_broken_select():
    f = factory()
    p = parent(f)
    cls = sa.one_of([WP.SelectOneContext, WP.SelectManyContext], "kind of select")
    n = sa.length("number of options", 1)
    opts = [sa.node(WP.OptionTupleContext, "opt" + str(i), [fixed("n" + str(i), "A"), lit(","), fixed("d" + str(i), "B"), lit(","), fixed("i" + str(i), "C")])
            for i in range(n)]
    kids = [lit("SelectOne"), leaf("d", ("str",))]
    for o in opts:
        kids += [lit(","), o]
    kids.append(sa.node(WP.SelectCaseListContext, "cases", None))
    node = sa.node(cls, "select", kids, unb=True)
    ss = sa.node(WP.SelectStmtContext, "stmt", [node, lit("EndSelect")])
    st = sa.clone(p.state)
    bad = sa.one_of([node] + opts, "broken part")
    bad.exception = BROKEN

    def reference():
        if bad is not node:
            ref_eval(leaf("d", ("str",)), st, str)
            for o in opts:
                if o is bad:
                    break
                for k in o.children:
                    if isinstance(k, OpaqueContext):
                        ref_eval(k, st)
        raise WizardParseError(bad, BROKEN)

    sa.expect("a broken Select option", sa.record(lambda: located(lambda: f.make_select_context(ss, p))), sa.record(reference))


# --------------------------------------------------------------------- exec_until

class StepA(C.WizardInterpreterContext):
    def exec_(self):
        sa.emit("step", self.number)
        return next_context(self.factory, self.number + 1, self)


class StepB(StepA):
    pass


class StepC(StepA):
    pass


class StepD(StepB):
    """Of the given type too: a subclass of a target."""


class OwnTermination(C.WizardTerminationContext):
    """The termination context of a factory with contexts of its own."""


def next_context(f, i, up):
    """The i-th executed point, of any class; the sequence is the same for both sides."""
    return sa.memo(("point", i), make_point, f, i, up)


def make_point(f, i, up):
    cls = sa.one_of([StepA, StepB, StepC, StepD, C.WizardTerminationContext, OwnTermination, "error"] if i <= sa.K() else [C.WizardTerminationContext], "point " + str(i))
    if cls == "error":
        c = Failing(f, sa.node(ParserRuleContext, "point" + str(i)), up, state0())
        sa.put("error", WizardNameError(c.context, "x"))
    else:
        c = cls(f, sa.node(ParserRuleContext, "point" + str(i)), up, state0())
    c.number = i
    return c


def check_exec_until():
    f = factory()
    p = parent(f)
    it = WizardInterpreter(f)
    first = next_context(f, 0, p)
    targets = sa.one_of([(), [StepB], [StepB, StepC], (StepC,)], "targets")

    def implementation():
        r = it.exec_until(first, targets)
        return (r.number, type(r))

    def reference():
        c = first
        while True:
            if isinstance(c, C.WizardTerminationContext):
                break
            hit = False
            for t in targets:
                if isinstance(c, t):
                    hit = True
            if hit:
                break
            if isinstance(c, Failing):
                sa.emit("exec", c.context)
                raise sa.get("error")
            sa.emit("step", c.number)
            c = next_context(f, c.number + 1, c)
        return (c.number, type(c))

    sa.expect("exec_until", sa.record(implementation), sa.record(reference))
