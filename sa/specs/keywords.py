"""Keyword statements: dispatch to the handlers, arguments, RequireVersions, Note."""
import sa
from spec_h import *
from wizard.contexts.keywords import WizardKeywordContext
from wizard.runner import WizardRunnerKeywordVisitor, WizardRunnerState

# keyword -> (handler, least and most number of arguments, aliases)
DOC = (
    ("DeSelectAll", "visitDeSelectAll", 0, 0, ()),
    ("DeSelectAllPlugins", "visitDeSelectAllPlugins", 0, 0, ("DeSelectAllEspms",)),
    ("DeSelectPlugin", "visitDeSelectPlugin", 1, 1, ("DeSelectEspm",)),
    ("DeSelectSubPackage", "visitDeSelectSubPackage", 1, 1, ()),
    ("Note", "visitNote", 1, 1, ()),
    ("RenamePlugin", "visitRenamePlugin", 2, 2, ("RenameEspm",)),
    ("RequireVersions", "visitRequireVersions", 1, 4, ()),
    ("ResetAllPluginNames", "visitResetAllPluginNames", 0, 0, ("ResetAllEspmNames",)),
    ("ResetPluginName", "visitResetPluginName", 1, 1, ("ResetEspmName",)),
    ("SelectAll", "visitSelectAll", 0, 0, ()),
    ("SelectAllPlugins", "visitSelectAllPlugins", 0, 0, ("SelectAllEspms",)),
    ("SelectPlugin", "visitSelectPlugin", 1, 1, ("SelectEspm",)),
    ("SelectSubPackage", "visitSelectSubPackage", 1, 1, ()),
)
SPELLINGS = [(s, d[1], d[2], d[3]) for d in DOC for s in (d[0],) + d[4]]


def handled(name, where, state, args):
    """A handler the rule says nothing about: what it is given is observed, it changes the state."""
    before = content(state)
    sa.emit("handler", name, where, args, before)
    state.set(TRACEVAR, Value(sa.typed(sa.ref("handled", name, before), "str")))


class Handlers(WizardKeywordVisitor):
    def visitDeSelectAll(self, context, state):
        handled("visitDeSelectAll", context.context, state, ())

    def visitDeSelectAllPlugins(self, context, state):
        handled("visitDeSelectAllPlugins", context.context, state, ())

    def visitDeSelectPlugin(self, context, state, name):
        handled("visitDeSelectPlugin", context.context, state, (name,))

    def visitDeSelectSubPackage(self, context, state, name):
        handled("visitDeSelectSubPackage", context.context, state, (name,))

    def visitNote(self, context, state, text):
        handled("visitNote", context.context, state, (text,))

    def visitRenamePlugin(self, context, state, original_name, new_name):
        handled("visitRenamePlugin", context.context, state, (original_name, new_name))

    def visitRequireVersions(self, state, game_version, script_extender_version, graphics_extender_version, wrye_bash_version):
        handled("visitRequireVersions", None, state, (game_version, script_extender_version, graphics_extender_version, wrye_bash_version))

    def visitResetAllPluginNames(self, context, state):
        handled("visitResetAllPluginNames", context.context, state, ())

    def visitResetPluginName(self, context, state, name):
        handled("visitResetPluginName", context.context, state, (name,))

    def visitSelectAll(self, context, state):
        handled("visitSelectAll", context.context, state, ())

    def visitSelectAllPlugins(self, context, state):
        handled("visitSelectAllPlugins", context.context, state, ())

    def visitSelectPlugin(self, context, state, name):
        handled("visitSelectPlugin", context.context, state, (name,))

    def visitSelectSubPackage(self, context, state, name):
        handled("visitSelectSubPackage", context.context, state, (name,))


def make_keyword(spelling, args):
    return sa.node(WP.KeywordStmtContext, "keyword", [tok(WP.Keyword, spelling), arglist(args)])


def keyword_factory(sev=None):
    sev = sev or Sev()
    return factory(sev, None, Handlers(sev)), sev


def ref_handler(name, node, args, st, most):
    """What the handler must be given."""
    vs = [a.value for a in args]
    if name == "visitRequireVersions":
        vs = [vs[0]] + [v or None for v in vs[1:]]
        vs = vs + [None] * (most - len(vs))
        handled(name, None, st, tuple(vs))
    else:
        handled(name, node, st, tuple(vs))


def check_dispatch():
    f, sev = keyword_factory()
    p = parent(f)
    spelling, name, least, most = sa.one_of(SPELLINGS, "keyword")
    args = [leaf("a" + str(i), ("str",)) for i in range(most)]
    node = make_keyword(spelling, args)
    earlier_step(f, lambda q: f.make_keyword_context(node, q))
    # the arguments of RequireVersions are evaluated when the statement is reached
    other = state0("resumed") if name != "visitRequireVersions" and sa.choose(2, "a copy with another state") else None
    st = sa.clone(other or p.state)

    def implementation():
        c = located(lambda: f.make_keyword_context(node, p))
        if other:
            c = f.copy_context(c, other)
        sa.check(isinstance(c, WizardKeywordContext), "a keyword is not a keyword context", spelling)
        sa.check(c.context is node, "a keyword context is not about its statement", spelling)
        return cview(run_step(c))

    def reference():
        vs = [ref_eval(a, st) for a in args]
        ref_handler(name, node, vs, st, most)
        return pview(p, st)

    sa.expect("keyword " + spelling, sa.record(implementation), sa.record(reference))


def check_complete():
    words = sa.grammar("token_words", "Keyword")
    known = [s[0] for s in SPELLINGS]
    for s in known:
        sa.check(s in words, "a documented keyword is not a keyword of the grammar", s)
    f, sev = keyword_factory()
    p = parent(f)
    for w in words:
        if w not in known:
            node = make_keyword(w, [])
            r = sa.record(lambda: run_step(f.make_keyword_context(node, p)))
            sa.check(r[0] != "raise" or not isinstance(r[1], WizardNameError), "a keyword of the grammar has no handler", w)


ARG_KINDS = ("str", "int", "SubPackage")


def check_args():
    f, sev = keyword_factory()
    p = parent(f)
    i = sa.choose(len(DOC), "keyword")
    d = DOC[i]
    spelling, name, least, most = d[0], d[1], d[2], d[3]
    sa.note("keyword", spelling)
    m = sa.choose(most + 3, "number of arguments")
    typed = name in ("visitRequireVersions", "visitNote")
    args = [leaf("a" + str(i), ("str",) if typed else ARG_KINDS) for i in range(m)]
    node = make_keyword(spelling, args)
    earlier_step(f, lambda q: f.make_keyword_context(node, q))
    st = sa.clone(p.state)

    def implementation():
        return cview(run_step(located(lambda: f.make_keyword_context(node, p))))

    def reference():
        vs = [ref_eval(a, st) for a in args]
        ref_handler(name, node, vs, st, most)
        return pview(p, st)

    impl = sa.record(implementation)
    if m < least or m > most:
        sa.check(impl[0] == "raise" and type(impl[1]) is WizardTypeError and impl[1].context is node,
                 "a wrong number of arguments is not a type error of the keyword", spelling, impl)
        sa.check("handler" not in sa.event_names(), "a handler is called with a wrong number of arguments", spelling)
    else:
        sa.expect("arguments of " + spelling, impl, sa.record(reference))


# --------------------------------------------------------------- RequireVersions

def check_require():
    f, sev = keyword_factory()
    p = parent(f)
    m = sa.choose(4, "number of arguments") + 1
    args = [leaf("a" + str(i), ("str",)) for i in range(m)]
    node = make_keyword("RequireVersions", args)
    earlier_step(f, lambda q: f.make_keyword_context(node, q))
    made = []

    def construct():
        c = located(lambda: f.make_keyword_context(node, p))
        made.append(c)
        return (c.context, content(c.state))

    st = sa.clone(p.state)
    vs = []

    def ref_construct():
        for a in args:
            vs.append(ref_eval(a, st).value)
        return (node, content(st))

    sa.expect("versions are evaluated when the statement is reached", sa.record(construct), sa.record(ref_construct))
    c = made[0]
    want = [vs[0]] + [v or None for v in vs[1:]]
    want = want + [None] * (4 - len(want))

    def inspect():
        return (c.game_version, c.script_extender_version, c.graphics_extender_version, c.wrye_bash_version)

    sa.expect("versions of RequireVersions", sa.record(inspect), sa.record(lambda: tuple(want)))
    after = sa.clone(st)
    for i in range(2):
        st = sa.clone(after)

        def reference():
            handled("visitRequireVersions", None, st, tuple(want))
            return pview(p, st)

        sa.expect("execution " + str(i + 1) + " of RequireVersions", sa.record(lambda: cview(run_step(c))), sa.record(reference))
    sa.expect("versions of RequireVersions after its execution", sa.record(inspect), sa.record(lambda: tuple(want)))


# -------------------------------------------------------------------------- Note

def check_note():
    sev = severity(Issue.USAGE_OF_ANYTHING_IN_NOTE)
    f = factory(sev, None, WizardRunnerKeywordVisitor(SubPackages(), sev))
    st0 = WizardRunnerState()
    st0.set("a", Value(sa.sym("variable", "str")))
    n = sa.length("number of notes")
    notes = [sa.sym("note" + str(i), "str") for i in range(n)]
    for x in notes:
        f.kvisitor.visitNote(None, st0, x)
    p = parent(f, st0)
    a = leaf("text")
    node = make_keyword("Note", [a])
    earlier("the statement", lambda: f.make_keyword_context(node, parent(f, WizardRunnerState())).exec())
    st = st0.copy()
    sa.check(list(st0.notes) == notes, "notes are not presented in the order they are written")

    def implementation():
        r = run_step(located(lambda: f.make_keyword_context(node, p)))
        return (list(r.state.notes), vars_content(r.state), type(r), r.context)

    def reference():
        v = ref_eval(a, st)
        if not isinstance(v.value, str):
            sev.raise_or_warn(Issue.USAGE_OF_ANYTHING_IN_NOTE, WizardTypeError(node, ""), "")
        return (notes + [str(v.value)], vars_content(st), type(p), p.context)

    sa.expect("Note", sa.record(implementation), sa.record(reference))
    sa.check(list(st0.notes) == notes, "a Note changes the notes of an earlier state", cat="rewind")
