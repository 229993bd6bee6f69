"""State of a run: selections, renames, tweaks, notes, names, severities, errors."""
import sa
from spec_h import *
from spec_expr import view_value, ref_value
from wizard.runner import WizardRunnerKeywordVisitor, WizardRunnerExpressionVisitor, WizardRunnerState
from wizard.tweaks import WizardINISetting, WizardINISettingEdit, WizardINITweaks
from wizard.manager import SelectOption


def same_name(a, b):
    return a.casefold() == b.casefold()


def has_name(names, x):
    for n in names:
        if same_name(n, x):
            return True
    return False


def all_names(packages):
    return [x for p in packages for x in p[1]]


def distinct_names(packages):
    out = []
    for x in all_names(packages):
        if not has_name(out, x):
            out.append(x)
    return out


class Model:
    """Reference of the selections: names in the order they were selected."""

    def __init__(self, packages):
        self.packages = packages     # [(name, [names of plugins])]
        self.sub, self.plugins = [], []

    def add_sub(self, name):
        if not has_name(self.sub, name):
            self.sub.append(name)

    def add_plugin(self, name):
        if not has_name(self.plugins, name):
            self.plugins.append(name)

    def available_plugins(self):
        return distinct_names(self.packages)

    def plugins_of(self, name):
        for p in self.packages:
            if same_name(p[0], name):
                return p[1]
        return []


def by_name(names):
    """Names in case-insensitive alphabetical order."""
    return [spelling(x.name) for x in sorted([Plugin(n) for n in names])]


def spelling(name):
    """Names as they are presented; with plugins in several spellings, which one is presented is not specified."""
    if not sa.get("spellings"):
        return name
    for n in sa.get("names"):
        if same_name(n, name):
            return n.casefold()
    return name.casefold()


def selection(state):
    return ([spelling(x.name) for x in state.subpackages], [spelling(x.name) for x in state.plugins])


def ref_selection(m):
    return (by_name(m.sub), by_name(m.plugins))


def distinct(names):
    for i in range(len(names)):
        for j in range(i):
            sa.assume(not same_name(names[i], names[j]))


class World:
    """Available packages and a state with any selection."""

    def __init__(self, sev, sizes, selected=True, kept=False, before=True):
        self.kept = kept
        packages = []
        subs = []
        for i, k in enumerate(sizes):
            label = "sp" + str(i)
            files = ["readme.txt"]
            plugins = []
            for j in range(k):
                x = sa.sym("plugin" + str(i) + "." + str(j), "str") + (".esp", ".ESM", ".esl")[j % 3]
                plugins.append(sa.path_fn("name", x))
                files.append(x)
            sp = subpackage(label, None, files)
            subs.append(sp)
            packages.append((sp.name, plugins))
        distinct([p[0] for p in packages])
        sa.put("names", distinct_names(packages))
        sa.put("spellings", len(all_names(packages)) != len(distinct_names(packages)))
        self.sev = sev
        self.model = Model(packages)
        self.subpackages = SubPackages(subs)
        self.kv = WizardRunnerKeywordVisitor(self.subpackages, sev)
        self.state = WizardRunnerState()
        self.node = sa.node(WP.KeywordStmtContext, "keyword")
        self.context = ParentContext(factory(sev), self.node, None, self.state)
        if before:
            self.before()
        if selected:
            self.select_any()

    def before(self):
        """Whatever else the script did before."""
        s = self.state
        s.set(sa.sym("variable", "str"), Value(sa.sym("variable value", "int")))
        self.kv.visitRenamePlugin(self.context, s, sa.sym("renamed", "str"), sa.sym("its new name", "str"))
        self.kv.visitNote(self.context, s, sa.sym("note", "str"))
        ev = WizardRunnerExpressionVisitor(self.subpackages, {}, self.sev)
        ev.visitEditINI(s, *[sa.sym(x, "str") for x in ("file", "section", "setting", "value", "comment")])
        ev.visitDisableINILine(s, *[sa.sym(x, "str") for x in ("file", "section", "setting")])

    def select_any(self):
        m = self.model
        for p in m.packages:
            if sa.choose(2, "selected " + sa.describe(p[0])):
                self.kv.visitSelectSubPackage(self.context, self.state, p[0])
                m.add_sub(p[0])
        if self.kept and m.sub and m.available_plugins() and sa.choose(2, "plugins as their sub-packages selected them"):
            for p in m.packages:
                if has_name(m.sub, p[0]):
                    for x in p[1]:
                        m.add_plugin(x)
            return
        self.kv.visitDeSelectAllPlugins(self.context, self.state)
        for x in m.available_plugins():
            if sa.choose(2, "selected " + sa.describe(x)):
                self.kv.visitSelectPlugin(self.context, self.state, x)
                m.add_plugin(x)

    def rest(self):
        s = self.state
        return sa.freeze((vars_content(s), dict(s.renames), list(s.notes), list(s.tweaks.disabled), list(s.tweaks.modified),
                          [x.name for x in self.kv.subpackages], [[y.name for y in x.plugins()] for x in self.kv.subpackages],
                          [x.name for x in self.kv.plugins]))


def operation(message, w, run, ref, later=False):
    """Apply a handler to the state and its reference to the model."""
    rest = w.rest()
    other = w.state.copy()
    if not later:
        earlier(message, lambda: run(other))

    def implementation():
        run(w.state)
        return selection(w.state)

    def reference():
        ref()
        return ref_selection(w.model)

    impl = sa.record(implementation)
    sa.expect(message, impl, sa.record(reference))
    sa.check(w.rest() == rest, message + ": something else is changed")


def sizes():
    """Number of plugins of each available sub-package."""
    n = sa.long()
    if n:
        return sa.one_of(((1,) * n, (0,) * n, (n,)), "plugins of the sub-packages")
    return sa.one_of(((), (0,), (2,), (1, 1), (2, 1)) + (((1, 0, 1),) if sa.K() > 2 else ()), "plugins of the sub-packages")


# ------------------------------------------------------------------ sub-packages

def check_select_subpackage():
    w = World(Sev(), sizes(), True, True)
    m = w.model
    name = sa.sym("name", "str")
    sa.assume(has_name([p[0] for p in m.packages], name))

    def ref():
        for p in m.packages:
            if same_name(p[0], name):
                m.add_sub(p[0])
                for x in p[1]:
                    m.add_plugin(x)

    operation("SelectSubPackage", w, lambda s: w.kv.visitSelectSubPackage(w.context, s, name), ref)


def check_deselect_subpackage():
    w = World(Sev(), sizes(), True, True)
    m = w.model
    name = sa.sym("name", "str")

    def ref():
        m.sub = [x for x in m.sub if not same_name(x, name)]

    operation("DeSelectSubPackage", w, lambda s: w.kv.visitDeSelectSubPackage(w.context, s, name), ref)


# ----------------------------------------------------------------------- plugins

def check_select_plugin():
    w = World(Sev(), sizes(), True, True)
    m = w.model
    name = sa.sym("name", "str")
    sa.assume(has_name(m.available_plugins(), name))

    def ref():
        for x in m.available_plugins():
            if same_name(x, name):
                m.add_plugin(x)

    operation("SelectPlugin", w, lambda s: w.kv.visitSelectPlugin(w.context, s, name), ref)


def check_deselect_plugin():
    w = World(Sev(), sizes(), True, True)
    m = w.model
    name = sa.sym("name", "str")

    def ref():
        m.plugins = [x for x in m.plugins if not same_name(x, name)]

    operation("DeSelectPlugin", w, lambda s: w.kv.visitDeSelectPlugin(w.context, s, name), ref)


def check_available_plugins():
    w = World(Sev(), sizes(), False)
    m = w.model
    names = [x.name for x in w.kv.plugins]
    want = m.available_plugins()
    sa.check(len(names) == len(want), "the number of available plugins", names)
    for i in range(len(want)):
        sa.check(has_name(names, want[i]), "a plugin is not available", want[i])
    for sp, p in zip(w.subpackages, m.packages):
        got = w.kv.plugins_for(sp)
        sa.check(isinstance(got, list) and [x.name for x in got] == p[1], "the plugins of a sub-package", p[0])
    sa.check([x.name for x in w.kv.subpackages] == [p[0] for p in m.packages], "the available sub-packages", names)


# --------------------------------------------------------------- the whole selection

def change_later(w):
    """A change of the selection after the rule: nothing that is available changes."""
    m = w.model
    if not m.packages:
        return
    if sa.choose(2, "later change"):
        def select():
            m.add_sub(m.packages[0][0])
            for x in m.packages[0][1]:
                m.add_plugin(x)
        operation("SelectSubPackage afterwards", w, lambda s: w.kv.visitSelectSubPackage(w.context, s, m.packages[0][0]), select, True)
    else:
        def deselect():
            m.sub = m.sub[:0]
            m.plugins = m.plugins[:0]
        operation("DeSelectAll afterwards", w, lambda s: w.kv.visitDeSelectAll(w.context, s), deselect, True)


def check_select_all():
    w = World(Sev(), sizes())
    m = w.model

    def ref():
        m.sub = [p[0] for p in m.packages]
        m.plugins = m.available_plugins()

    operation("SelectAll", w, lambda s: w.kv.visitSelectAll(w.context, s), ref)
    change_later(w)


def check_select_all_plugins():
    w = World(Sev(), sizes())
    m = w.model

    def ref():
        m.plugins = []
        for p in m.packages:
            if has_name(m.sub, p[0]):
                for x in p[1]:
                    m.add_plugin(x)

    operation("SelectAllPlugins", w, lambda s: w.kv.visitSelectAllPlugins(w.context, s), ref)
    change_later(w)


def check_deselect_all():
    w = World(Sev(), sizes())
    m = w.model
    everything = sa.choose(2, "DeSelectAll")

    def ref():
        m.plugins = []
        if everything:
            m.sub = []

    operation("DeSelectAll" if everything else "DeSelectAllPlugins", w,
              lambda s: (w.kv.visitDeSelectAll if everything else w.kv.visitDeSelectAllPlugins)(w.context, s), ref)
    change_later(w)


def check_missing():
    package = sa.choose(2, "a sub-package")
    issue = Issue.SELECT_MISSING_SUBPACKAGE if package else Issue.SELECT_MISSING_PLUGIN
    sev = severity(issue)
    w = World(sev, sa.one_of(((), (1,), (1, 1)), "plugins of the sub-packages"))
    m = w.model
    name = sa.sym("name", "str")
    sa.assume(not has_name([p[0] for p in m.packages] if package else m.available_plugins(), name))

    def ref():
        cls = WizardMissingPackageError if package else WizardMissingPluginError
        sev.raise_or_warn(issue, cls(w.node, name), "")

    rest = w.rest()
    before = selection(w.state)
    run = w.kv.visitSelectSubPackage if package else w.kv.visitSelectPlugin
    other = w.state.copy()
    earlier("the same", lambda: run(w.context, other, name))
    impl = sa.record(lambda: run(w.context, w.state, name))
    sa.expect("selecting something that does not exist", impl, sa.record(ref))
    if impl[0] == "raise":
        sa.check(impl[1].subpackage == name, "the error does not name what is missing", impl)
    sa.check(selection(w.state) == before and w.rest() == rest, "selecting something that does not exist changes the state")


# ----------------------------------------------------------------------- renames

def check_renames():
    w = World(Sev(), (1,), False, before=False)
    n = sa.length("number of renames before")
    olds = [sa.sym("old" + str(i), "str") for i in range(n)]
    ref = []

    def rename(old, new):
        for r in ref:
            if same_name(r[0], old):
                r[1] = new
                return
        ref.append([old, new])

    for i, x in enumerate(olds):
        w.kv.visitRenamePlugin(w.context, w.state, x, sa.sym("new" + str(i), "str"))
        rename(x, sa.sym("new" + str(i), "str"))
    name = sa.sym("name", "str")
    kind = sa.one_of(["nothing", "RenamePlugin", "ResetPluginName", "ResetAllPluginNames"], "statement")

    def rest():
        return sa.freeze((vars_content(w.state), selection(w.state), list(w.state.notes)))

    before = rest()

    def run(st):
        if kind == "RenamePlugin":
            w.kv.visitRenamePlugin(w.context, st, name, sa.sym("new", "str"))
        elif kind == "ResetPluginName":
            w.kv.visitResetPluginName(w.context, st, name)
        elif kind == "ResetAllPluginNames":
            w.kv.visitResetAllPluginNames(w.context, st)

    other = w.state.copy()
    earlier("the same", lambda: run(other))

    def implementation():
        st = w.state
        run(st)
        return (len(st.renames), [st.renames.get(Plugin(x), None) for x in olds + [name]])

    def reference():
        out = list(ref)
        if kind == "RenamePlugin":
            rename(name, sa.sym("new", "str"))
            out = list(ref)
        elif kind == "ResetPluginName":
            out = [r for r in ref if not same_name(r[0], name)]
        elif kind == "ResetAllPluginNames":
            out = []
        return (len(out), [lookup(out, x) for x in olds + [name]])

    sa.expect("renames after " + kind, sa.record(implementation), sa.record(reference))
    sa.check(rest() == before, "a rename changes something else", kind)


def lookup(pairs, x):
    for r in pairs:
        if same_name(r[0], x):
            return r[1]
    return None


# -------------------------------------------------------------------------- INI

class RunnerVisitor(WizardRunnerExpressionVisitor):
    __identity__ = True

    def visitOpaque(self, ctx, state):
        return opaque_visit(self, ctx, state)


def tweaks_view(state):
    t = state.tweaks
    return ([(x.filename, x.section, x.setting) for x in t.disabled],
            [(x.filename, x.section, x.setting, ref_value(x.value), x.comment) for x in t.modified])


def call_ini(ev, state, name, args):
    node = sa.node(WP.FunctionCallContext, "call", [ident(name), lit("("), arglist(args), lit(")")])
    return ev.visitExpr(node, state)


def check_ini():
    sev = Sev()
    ev = RunnerVisitor(SubPackages(), {}, sev)
    st = WizardRunnerState()
    dis, mod = [], []
    for i in range(sa.length("disabled before")):
        xs = [sa.sym("d" + str(i) + x, "str") for x in "abc"]
        call_ini(ev, st, "DisableINILine", [fixed("d" + str(i) + x, y) for x, y in zip("abc", xs)])
        dis.append(tuple(xs))
    for i in range(sa.length("modified before")):
        xs = [sa.sym("m" + str(i) + x, "str") for x in "abcde"]
        call_ini(ev, st, "EditINI", [fixed("m" + str(i) + x, y) for x, y in zip("abcde", xs)])
        mod.append((xs[0], xs[1], xs[2], ref_value(xs[3]), xs[4]))
    sa.check(tweaks_view(st) == (dis, mod), "recorded tweaks", "before the call")
    edit = sa.choose(2, "EditINI")
    m = sa.choose(7, "number of arguments")
    args = [leaf("a" + str(i), ("str",) if i != 3 else ALL) for i in range(m)]
    before = (list(st.subpackages), list(st.plugins), dict(st.renames), list(st.notes))

    def implementation():
        v = call_ini(ev, st, "EditINI" if edit else "DisableINILine", args)
        return (view_value(v), tweaks_view(st), vars_content(st), before == (list(st.subpackages), list(st.plugins), dict(st.renames), list(st.notes)))

    other = WizardInterpreterState(dict(st.variables))

    def reference():
        vs = [ref_eval(a, other).value for a in args]
        if edit:
            mod.append((vs[0], vs[1], vs[2], ref_value(vs[3]), vs[4] if len(vs) > 4 else ""))
        else:
            dis.append((vs[0], vs[1], vs[2]))
        return (ref_value(Void()), (dis, mod), vars_content(other), True)

    impl = sa.record(implementation)
    if (4 <= m <= 5) if edit else m == 3:
        sa.expect("an INI function", impl, sa.record(reference))
    else:
        sa.check(impl[0] == "raise" and type(impl[1]) is WizardTypeError, "a wrong number of arguments is accepted", impl)
        sa.check(tweaks_view(st) == (dis, mod), "a tweak is recorded by a call with a wrong number of arguments", m)


# ------------------------------------------------------------------------ states

class OtherState(WizardRunnerState):
    """A state of another kind."""


def check_state_copy():
    sev = Sev()
    plain = sa.choose(2, "interpreter state")
    if plain:
        st = WizardInterpreterState(sa.opaque_dict("vars"))
        sa.check(vars_content(st) == sa.freeze(sa.opaque_dict("vars")), "a state does not have the variables it was given")
        w = None
    else:
        w = World(sev, (1, 1), False, before=False)
        st = sa.one_of([w.state, OtherState()], "state")
        kv = w.kv
        ev = RunnerVisitor(w.subpackages, {}, sev)
        st.set("v", Value(sa.sym("value", "int")))
        parts = ("selection", "note", "rename", "edit", "disable")
        present = sa.one_of([parts, ()] + [(x,) for x in parts] + [tuple([y for y in parts if y != x]) for x in parts], "content of the state")
        if "selection" in present:
            kv.visitSelectSubPackage(w.context, st, w.model.packages[0][0])
        if "note" in present:
            kv.visitNote(w.context, st, sa.sym("note", "str"))
        if "rename" in present:
            kv.visitRenamePlugin(w.context, st, "a.esp", sa.sym("new", "str"))
        if "edit" in present:
            call_ini(ev, st, "EditINI", [fixed(x, x) for x in "abcde"])
        if "disable" in present:
            call_ini(ev, st, "DisableINILine", [fixed(x, x) for x in "abc"])
        sa.check(len(st.subpackages) == len(st.plugins) == ("selection" in present) and len(st.notes) == ("note" in present)
                 and len(st.renames) == ("rename" in present) and len(st.tweaks.modified) == ("edit" in present)
                 and len(st.tweaks.disabled) == ("disable" in present), "the state does not have what was put in it", present)
    first = content(st)
    r = sa.record(st.copy)
    sa.check(r[0] == "ok", "a state cannot be copied", r)
    cp = r[1]
    sa.check(cp is not st, "a copy is the state itself")
    sa.check(type(cp) is type(st), "a copy is of another kind", type(st))
    sa.check(content(cp) == first, "a copy differs from the state", content(cp), first)
    sa.check(content(st) == first, "copying changes the state", content(st), first)
    changed, other = (cp, st) if sa.choose(2, "the copy is changed") else (st, cp)
    changes = ["set", "set again"] if plain else ["set", "set again", "select", "deselect", "deselect plugins", "select plugin", "select all", "clear",
                                                  "note", "rename", "rename again", "reset", "reset all", "edit", "disable"]
    c = sa.one_of(changes, "change")
    names = [p[0] for p in w.model.packages] if w else []

    def change():
        if c == "set":
            changed.set("fresh", Value(sa.sym("other", "str")))
        elif c == "set again":
            changed.set("v", Value(sa.sym("other", "str")))
        elif c == "select":
            kv.visitSelectSubPackage(w.context, changed, names[1])
        elif c == "deselect":
            kv.visitDeSelectSubPackage(w.context, changed, names[0])
        elif c == "deselect plugins":
            kv.visitDeSelectAllPlugins(w.context, changed)
        elif c == "select plugin":
            kv.visitSelectPlugin(w.context, changed, w.model.packages[1][1][0])
        elif c == "select all":
            kv.visitSelectAll(w.context, changed)
        elif c == "clear":
            kv.visitDeSelectAll(w.context, changed)
        elif c == "note":
            kv.visitNote(w.context, changed, "text")
        elif c == "rename":
            kv.visitRenamePlugin(w.context, changed, "b.esp", "text")
        elif c == "rename again":
            kv.visitRenamePlugin(w.context, changed, "a.esp", "text")
        elif c == "reset":
            kv.visitResetPluginName(w.context, changed, "a.esp")
        elif c == "reset all":
            kv.visitResetAllPluginNames(w.context, changed)
        elif c == "edit":
            call_ini(ev, changed, "EditINI", [fixed(x, x) for x in "vwxyz"])
        elif c == "disable":
            call_ini(ev, changed, "DisableINILine", [fixed(x, x) for x in "vwx"])

    r = sa.record(change)
    sa.check(r[0] == "ok", "a copy cannot be changed", r)
    sa.check(content(other) == first, "a state and its copy are not independent", c)


def check_views():
    n = sa.length("number of sub-packages")
    subs = [subpackage("sp" + str(i), None, [sa.sym("plugin" + str(i), "str") + ".esp"]) for i in range(n)]
    names = [s.name for s in subs]
    plugins = [sa.path_fn("name", s.files[0]) for s in subs]
    distinct(names)
    distinct(plugins)
    sev = Sev()
    kv = WizardRunnerKeywordVisitor(SubPackages(subs), sev)
    st = WizardRunnerState()
    ctx = ParentContext(factory(sev), sa.node(WP.KeywordStmtContext, "keyword"), None, st)
    for i in range(n):
        kv.visitSelectSubPackage(ctx, st, names[i])
        kv.visitNote(ctx, st, sa.sym("note" + str(i), "str"))
    before = content(st)
    sa.check(list(st.notes) == [sa.sym("note" + str(i), "str") for i in range(n)], "notes are not in the order they were written")
    for what, xs, want in (("sub-packages", st.subpackages, names), ("plugins", st.plugins, plugins)):
        xs = [x.name for x in xs]
        sa.check(len(xs) == len(want), "the number of presented " + what, xs)
        for x in want:
            sa.check(x in xs, "one of the selected " + what + " is not presented", x)
        for i in range(1, len(xs)):
            sa.check(not xs[i].casefold() < xs[i - 1].casefold(), "the " + what + " are not sorted", xs[i - 1], xs[i])
    sa.check(content(st) == before, "looking at a state changes it")


# ------------------------------------------------------------------------- names

RELATIONS = (("==", lambda a, b: a == b), ("!=", lambda a, b: a != b), ("<", lambda a, b: a < b), ("<=", lambda a, b: a <= b),
             (">", lambda a, b: a > b), (">=", lambda a, b: a >= b))


def named(kind, name):
    if kind == "str":
        return name
    if kind == "Plugin":
        return Plugin(name)
    if kind == "SubPackage":
        return OpaqueSubPackage(name)
    return {"int": 3, "None": None, "list": [name]}[kind]


def check_names():
    a, b = sa.sym("a", "str"), sa.sym("b", "str")
    ka = sa.one_of(["Plugin", "SubPackage"], "left")
    kb = sa.one_of(["Plugin", "SubPackage", "str", "int", "None", "list"], "right")
    op, rel = sa.one_of(RELATIONS, "relation")
    x, y = named(ka, a), named(kb, b)
    sa.check(x.name == a and str(x) == a, "a name is not kept as it was given", x.name)
    sa.check(Plugin(x).name == a, "a name taken from another object is not kept", Plugin(x).name)

    def reference():
        if kb in ("int", "None", "list"):
            raise TypeError
        return rel(a.casefold(), b.casefold())

    sa.expect("names: " + op, sa.record(lambda: sa.decide(rel(x, y))), sa.record(lambda: sa.decide(reference())))
    sa.check(sa.freeze(hash(x)) == sa.freeze(hash(named("Plugin", a.casefold()))), "equal names have different hashes", ka)


def check_plugins():
    name = sa.sym("name", "str")

    def is_plugin(x):
        for e in (".esp", ".esm", ".esl"):
            if x.lower().endswith(e):
                return True
        return False

    sa.expect("plugin detection", sa.record(lambda: sa.decide(SubPackage.is_plugin(name))), sa.record(lambda: is_plugin(name)))
    sp = subpackage("sp")
    n = sa.length("number of files")
    files = [sa.sym("file" + str(i), "str") for i in range(n)]
    sp = subpackage("other", None, files)

    def reference():
        return [(Plugin, sa.path_fn("name", x)) for x in files if is_plugin(x)]

    sa.expect("plugins of a sub-package", sa.record(lambda: [(type(x), x.name) for x in sp.plugins()]), sa.record(reference))


# --------------------------------------------------------------------- severities

class NamedSev(SeverityContext):
    __identity__ = True

    def warning(self, text):
        sa.emit("warning", self.label, text)


def check_severity():
    a, b = NamedSev(), NamedSev()
    a.label, b.label = "a", "b"
    default = {"a": Severity.WARNING, "b": Severity.WARNING}
    table = {"a": [], "b": []}
    issues = [Issue.MULTIPLE_DEFAULTS_IN_SELECT_ON, Issue.USAGE_OF_NOTSET_VARIABLES, Issue.SELECT_MISSING_PLUGIN]
    levels = [Severity.ALLOW, Severity.WARNING, Severity.ERROR]
    for i in range(sa.length("number of settings")):
        c = sa.one_of([a, b], "context")
        what = sa.one_of(["issue", "default"] + issues[:2], "setting")
        if what == "issue":
            m = sa.mark()
            sa.record(lambda: c.raise_or_warn(issues[1], WizardNameError(None, "x"), sa.sym("text", "str")))
            sa.drop_events(m)
            continue
        level = sa.one_of(levels, "severity")
        if what == "default":
            c.set_default_severity(level)
            default[c.label] = level
        else:
            c.set_severity(what, level)
            table[c.label].append((what, level))
    issue = sa.one_of(issues, "issue")
    c = sa.one_of([a, b], "context of the issue")
    exc = WizardNameError(None, "x")

    def reference():
        level = default[c.label]
        for i, s in table[c.label]:
            if i is issue:
                level = s
        if level is Severity.ERROR:
            raise exc
        if level is Severity.WARNING:
            sa.emit("warning", c.label, sa.sym("text", "str"))

    impl = sa.record(lambda: c.raise_or_warn(issue, exc, sa.sym("text", "str")))
    sa.expect("severity of an issue", impl, sa.record(reference))
    if impl[0] == "raise":
        sa.check(impl[1] is exc, "another error is raised", impl)


# -------------------------------------------------------------------------- tweaks

def any_tweaks():
    ev = RunnerVisitor(SubPackages(), {}, Sev())
    st = WizardRunnerState()
    n = sa.length("number of tweaks")
    out = []
    for i in range(n):
        x = sa.sym("file" + str(i), "str")
        s = sa.sym("section" + str(i), "str")
        t = sa.sym("setting" + str(i), "str")
        if sa.choose(2, "disabled"):
            call_ini(ev, st, "DisableINILine", [fixed("f" + str(i), x), fixed("s" + str(i), s), fixed("t" + str(i), t)])
            out.append((x, WizardINISetting, s, t))
        else:
            call_ini(ev, st, "EditINI", [fixed("f" + str(i), x), fixed("s" + str(i), s), fixed("t" + str(i), t), fixed("v" + str(i), i)])
            out.append((x, WizardINISettingEdit, s, t))
    return st, out


def same_file(a, b):
    return a.lower() == b.lower()


def check_tweaks_files():
    st, tweaks = any_tweaks()
    before = content(st)
    r = sa.record(st.tweaks.files)
    sa.check(r[0] == "ok", "the files of tweaks", r)
    files = list(r[1])
    for i, x in enumerate(files):
        sa.check(x in [t[0] for t in tweaks], "a file without tweak", x)
        if i:
            sa.check(not x < files[i - 1], "the files are not sorted", files)
        for y in files[:i]:
            sa.check(not same_file(x, y), "a file is listed twice", files)
    for t in tweaks:
        sa.check(any([same_file(t[0], x) for x in files]), "a file with a tweak is not listed", t[0])
    sa.check(content(st) == before, "listing the files changes the tweaks")


def check_tweaks_views():
    st, tweaks = any_tweaks()
    file = sa.sym("file", "str")
    before = content(st)

    def implementation():
        return ([(x.filename, type(x), x.section, x.setting) for x in st.tweaks.tweaks(file)], sa.decide(st.tweaks))

    def reference():
        out = [t for t in tweaks if t[1] is WizardINISettingEdit and same_file(t[0], file)]
        out = out + [t for t in tweaks if t[1] is WizardINISetting and same_file(t[0], file)]
        return (out, len(tweaks) > 0)

    sa.expect("tweaks of a file", sa.record(implementation), sa.record(reference))
    sa.check(content(st) == before, "listing the tweaks changes them")


# -------------------------------------------------------------- options and errors

def check_option_eq():
    kinds = ["image", "no image"]
    parts = []
    for x in "ab":
        image = sa.one_of([None, sa.sym(x + "i", "str")], "image")
        parts.append((sa.sym(x + "n", "str"), sa.sym(x + "d", "str"), image))
    a = SelectOption(parts[0][0], parts[0][1], parts[0][2])
    sa.check((a.name, a.description, a.image) == parts[0], "the parts of an option are not those given", parts[0])
    sa.check(SelectOption("n", "d").image is None, "an option without image has one")
    other = sa.one_of(["option", "string", "nothing", "parts"], "compared with")
    b = {"option": SelectOption(parts[1][0], parts[1][1], parts[1][2]), "string": parts[0][0], "nothing": None, "parts": parts[0]}[other]

    def equal():
        if other != "option":
            return False
        for x, y in zip(parts[0], parts[1]):
            if (x is None) != (y is None) or (x is not None and not x == y):
                return False
        return True

    sa.expect("equality of options", sa.record(lambda: sa.decide(a == b)), sa.record(equal))
    sa.expect("inequality of options", sa.record(lambda: sa.decide(a != b)), sa.record(lambda: not equal()))


def check_errors():
    from wizard.errors import WizardUnsupportedOperation
    made = (
        (WizardError, "name", lambda c: WizardError(c, "x"), None),
        (WizardParseError, "", lambda c: WizardParseError(c, "x"), None),
        (WizardTypeError, "", lambda c: WizardTypeError(c, "x"), None),
        (WizardValueError, "", lambda c: WizardValueError(c, "x"), None),
        (WizardUnsupportedOperation, "", lambda c: WizardUnsupportedOperation(c, "x"), None),
        (WizardIndexError, "index", lambda c: WizardIndexError(c, sa.sym("index", "int")), lambda e: e.index == sa.sym("index", "int")),
        (WizardNameError, "name", lambda c: WizardNameError(c, sa.sym("name", "str")), lambda e: e.name == sa.sym("name", "str")),
        (WizardMissingPackageError, "name", lambda c: WizardMissingPackageError(c, sa.sym("name", "str")), lambda e: e.subpackage == sa.sym("name", "str")),
        (WizardMissingPluginError, "name", lambda c: WizardMissingPluginError(c, sa.sym("name", "str")), lambda e: e.subpackage == sa.sym("name", "str")),
    )
    i = sa.choose(len(made), "error")
    cls, _, make, about = made[i]
    sa.note("error", cls)
    located = sa.choose(2, "located")
    ctx = sa.node(WP.ExprContext, "expr") if located else None
    if located:
        ctx.start = tok(WP.Identifier, "x").symbol
        ctx.stop = tok(WP.Identifier, "y").symbol
        for t, what in ((ctx.start, "start"), (ctx.stop, "stop")):
            t.start, t.stop, t.tokenIndex = sa.sym(what + " first", "int"), sa.sym(what + " last", "int"), sa.sym(what + " index", "int")
        ctx.start.line, ctx.start.column = sa.sym("start line", "int"), sa.sym("start column", "int")
        ctx.stop.line, ctx.stop.column = sa.sym("stop line", "int"), sa.sym("stop column", "int")
    e = make(ctx)
    sa.check(isinstance(e, WizardError) and isinstance(e, Exception), "not a Wizard error", cls)
    sa.check(e.context is ctx, "the location of an error is lost", cls)
    sa.check(e.line == (sa.sym("start line", "int") if located else -1), "the line of an error", cls, e.line)
    sa.check(e.column == (sa.sym("start column", "int") if located else -1), "the column of an error", cls, e.column)
    if about is not None:
        sa.check(about(e), "an error does not give what it is about", cls)
