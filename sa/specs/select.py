"""SelectOne and SelectMany: options, defaults, selection, cases."""
import sa
from spec_h import *
from wizard.manager import SelectOption


def option_strings(i, wrong):
    return [leaf("n" + str(i), ("int",) if wrong == 0 else ("str",)), leaf("d" + str(i), ("Void",) if wrong == 1 else ("str",)),
            leaf("i" + str(i), ("SubPackage",) if wrong == 2 else ("str",))]


def make_select(cls, opts, cases=None, desc=None):
    kids = [lit("SelectOne" if cls is WP.SelectOneContext else "SelectMany"), desc or leaf("desc", ("str",))]
    for i, o in enumerate(opts):
        kids += [lit(","), sa.node(WP.OptionTupleContext, "opt" + str(i), [o[0], lit(","), o[1], lit(","), o[2]])]
    if sa.get("trailing comma"):
        kids.append(lit(","))
    kids.append(cases if cases is not None else sa.node(WP.SelectCaseListContext, "cases", None))
    node = sa.node(cls, "select", kids, unb=True)
    return node, sa.node(WP.SelectStmtContext, "stmt", [node, lit("EndSelect")])


def ref_options(desc, opts, st):
    """Reference: (description, [(name, description, image)], names of marked options)."""
    d = ref_eval(desc, st, str).value
    out, marked = [], []
    for o in opts:
        n, t, i = [ref_eval(x, st, str).value for x in o]
        if n.startswith("|"):
            n = n[1:]
            marked.append(len(out))
        out.append((n, t, None if i.strip() == "" else i))
    return d, out, marked


def option_view(o):
    return (type(o), o.name, o.description, o.image)


def options_rule(cls, least):
    n = sa.length("number of options", least)
    wrong = sa.choose(3 * n + 2, "part that is not a string (the first value: none)")
    opts = [option_strings(i, wrong - 2 - 3 * i) for i in range(n)]
    desc = leaf("desc", ("int",) if wrong == 1 else ("str",))
    many = cls is WP.SelectManyContext
    sev = severity(None if many else Issue.MULTIPLE_DEFAULTS_IN_SELECT_ON)
    sa.put("trailing comma", sa.choose(2, "trailing comma") == 1)
    f = factory(sev)
    p = parent(f)
    node, stmt = make_select(cls, opts, None, desc)
    if wrong == 0 and n <= 1:
        earlier_step(f, lambda q: f.make_select_context(stmt, q))
    st = sa.clone(p.state)

    def implementation():
        c = located(lambda: f.make_select_context(stmt, p))
        d = list(c.defaults) if many else [c.default]
        return (type(c), c.context, c.description, [option_view(o) for o in c.options], [option_view(o) for o in d], content(c.state))

    def reference():
        d, out, marked = ref_options(desc, opts, st)
        views = [(SelectOption,) + x for x in out]
        if many:
            return (C.WizardSelectManyContext, node, d, views, [views[i] for i in marked], content(st))
        if len(marked) > 1:
            sev.raise_or_warn(Issue.MULTIPLE_DEFAULTS_IN_SELECT_ON, WizardTypeError(node, ""), "")
        return (C.WizardSelectOneContext, node, d, views, [views[marked[0]] if marked else views[0]], content(st))

    sa.expect("options of " + cls.__name__, sa.record(implementation), sa.record(reference))
    sa.check(sa.freeze(p.state) == sa.freeze(state0()), "reading the options changed the state of the parent", cls, cat="rewind")


def check_options_one():
    options_rule(WP.SelectOneContext, 1)


def check_options_many():
    options_rule(WP.SelectManyContext, 0)


# ------------------------------------------------------------------------- cases

def case_list(labels, has_default):
    kids = [sa.node(WP.CaseStmtContext, "case" + str(i), [lit("Case"), l, body_node("block" + str(i))]) for i, l in enumerate(labels)]
    if has_default:
        kids.append(sa.node(WP.DefaultStmtContext, "default", [lit("Default"), body_node("otherwise")]))
    return sa.node(WP.SelectCaseListContext, "cases", kids if kids else None, unb=True)


class Machine:
    """Reference of the cases of a select."""

    def __init__(self, many, names, labels, has_default):
        self.many, self.names, self.labels, self.has_default = many, names, labels, has_default
        self.index, self.found, self.through, self.done = 0, False, False, False

    def advance(self, st):
        """The next executed block (label of its node, of its body), None at the end of the select."""
        while True:
            if self.done or (self.found and not self.many and not self.through):
                return None
            if self.index < len(self.labels):
                i = self.index
                self.index = i + 1
                label = ref_eval(self.labels[i], st, str).value
                if self.through or any([label == n for n in self.names]):
                    self.found = True
                    self.through = True
                    return ("case" + str(i), "block" + str(i))
            elif self.has_default and (self.through or not self.found):
                self.done = True
                return ("default", "otherwise")
            else:
                return None

    def broke(self):
        self.through = False


def next_block(ctx, node, n):
    """Executes the select up to the next block or its end: (outcome view, block context)."""
    out = []

    def run():
        c = run_step(ctx)
        steps = 0
        while isinstance(c, C.WizardSelectCasesContext) and c.context is node:
            c = run_step(c)
            steps += 1
            if steps > 2 * n + 4:
                return ("the select does not progress",)
        if isinstance(c, C.WizardCaseContext):
            b = run_step(c)
            out.append(b)
            return ("block", type(c), c.context.label__, type(b), b.context.label__, content(b.state))
        return ("end", cview(c))

    return sa.record(run), out


def drive(f, ctx, p, node, machine, st, n):
    for turn in range(n + 2):
        impl, out = next_block(ctx, node, n)
        more = []

        def reference():
            b = machine.advance(st)
            if b is None:
                return ("end", pview(p, st))
            more.append(b)
            cls = C.WizardBodyContext
            return ("block", C.WizardCaseContext, b[0], cls, b[1], content(st))

        sa.expect("cases of a select, turn " + str(turn), impl, sa.record(reference))
        if not more:
            return
        b = out[0]
        st = state0("turn" + str(turn))
        if sa.choose(2, "the block ends with Break"):
            machine.broke()
            inner = b
            if sa.choose(2, "Break inside an If"):
                inner = C.WizardBodyContext(f, body_node("then"), b, state0("inner"))
            c = C.WizardBreakContext(f, sa.node(WP.BreakContext, "break", [lit("Break")]), inner, st)
        else:
            c = C.WizardBodyContext(f, body_node("rest of the block"), b.parent, st)
        ctx = run_step(c)


def check_cases():
    f = factory()
    p = parent(f)
    n = sa.length("number of cases")
    has_default = sa.choose(2, "Default present")
    many = sa.choose(2, "SelectMany")
    labels = [leaf("label" + str(i), ("str", "int") if i == 0 else ("str",)) for i in range(n)]
    opts = [SelectOption(sa.sym("option" + str(i), "str"), "", None) for i in range(sa.length("number of selected options") if many else 1)]
    cls = WP.SelectManyContext if many else WP.SelectOneContext
    node, _ = make_select(cls, [], case_list(labels, has_default))
    earlier_step(f, lambda q: f.make_select_cases_context(opts, node, q))
    st = state0("start")
    up = f.copy_context(p, st)
    ctx = f.make_select_cases_context(opts, node, up)
    drive(f, ctx, p, node, Machine(many, [o.name for o in opts], labels, has_default), sa.clone(st), n)


# --------------------------------------------------------------------- selection

def check_select():
    f = factory()
    p = parent(f)
    many = sa.choose(2, "SelectMany")
    cls = WP.SelectManyContext if many else WP.SelectOneContext
    fixed_ = lambda i, s: [fixed("n" + str(i), s), fixed("d" + str(i), "d"), fixed("i" + str(i), "")]
    opts = [fixed_(0, "A"), fixed_(1, "|B"), fixed_(2, "C")]
    labels = [fixed("l0", "A"), fixed("l1", "B"), fixed("l2", "C"), leaf("l3", ("str",))]
    node, stmt = make_select(cls, opts, case_list(labels, 1))
    earlier_step(f, lambda q: f.make_select_context(stmt, q))
    ctx = f.make_select_context(stmt, p)
    st = sa.clone(ctx.state)
    how = sa.one_of(["default", "selected", "selected twice"], "selection")
    if how == "default":
        used, names = ctx, ["B"]
    else:
        if how == "selected twice":
            first = ctx.select([ctx.options[0]] if many else ctx.options[0])
            sa.check(first is not ctx, "select() gives the same select", cat="main")
        before = sa.freeze(ctx)
        if many:
            chosen = [SelectOption(sa.sym("chosen" + str(i), "str"), "", None) for i in range(sa.length("number of chosen options"))]
            used = ctx.select(chosen)
            names = [o.name for o in chosen]
            # the selection is the one given, whatever happens to the list afterwards
            kept = sa.freeze(used)
            chosen.append(SelectOption("A", "", None))
            sa.check(sa.freeze(used) == kept, "changing the list of chosen options afterwards changes the select", cls, cat="rewind")
        else:
            o = SelectOption(sa.sym("chosen", "str"), "", None)
            used = ctx.select(o)
            names = [o.name]
        sa.check(sa.freeze(ctx) == before, "selecting changed the select it was called on", cls)
        sa.check(used is not ctx, "select() gives the same select")
    src = sa.record(lambda: (type(used), used.context, used.description, [option_view(o) for o in used.options], content(used.state)))
    sa.expect("the select after selecting", src, sa.record(lambda: (
        type(ctx), node, ctx.description, [option_view(o) for o in ctx.options], content(st))))
    c = sa.record(lambda: run_step(used))
    sa.check(c[0] == "ok", "executing a select fails", c[1])
    if not isinstance(c[1], C.WizardSelectCasesContext):
        sa.check(False, "executing a select does not start its cases", c[1])
    impl, out = next_block(c[1], node, 4)
    machine = Machine(many, names, labels, 1)

    def reference():
        b = machine.advance(st)
        if b is None:
            return ("end", pview(p, st))
        return ("block", C.WizardCaseContext, b[0], C.WizardBodyContext, b[1], content(st))

    sa.expect("the first executed case", impl, sa.record(reference))
    # the original select still has its own selection
    again = sa.record(lambda: run_step(ctx))
    sa.check(again[0] == "ok", "executing the original select fails")
    impl2, _ = next_block(again[1], node, 4)
    m2 = Machine(many, ["B"], labels, 1)
    st2 = sa.clone(ctx.state)

    def reference2():
        b = m2.advance(st2)
        return ("block", C.WizardCaseContext, b[0], C.WizardBodyContext, b[1], content(st2))

    sa.expect("the original select after a selection", impl2, sa.record(reference2))
