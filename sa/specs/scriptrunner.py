"""WizardScriptRunner.run() over opaque execution points and opaque callbacks."""
import sa
from spec_h import *
from wizard.manager import SelectOption
from spec_loading import parsing
from wizard.runner import WizardRunnerState
from wizard.scriptrunner import WizardScriptRunner, WizardScriptRunnerStatus


# ------------------------------------------------------------------ what happens

def universe(kinds, step=("ok",), one=("answer",), many=("answer",), ends=("stop",), error=("return",), steps=4, length=None, lists=False, own=False):
    """What may happen in a run: kinds of points, outcomes of a step and of each callback."""
    sa.put("kinds", kinds)
    sa.put("lists", lists)
    sa.put("own", own)
    sa.put("outcomes", {"step": step, "select": one, "cancel": ends, "complete": ends, "error": error})
    sa.put("budget", steps)
    sa.put("length", sa.K() if length is None else length)


DEFAULT = {"step": "ok", "select": "answer", "cancel": "stop", "complete": "stop", "error": "return"}


def happens(what):
    """The outcome of the next thing that happens; both sides see the same."""
    i = sa.get("count")
    sa.put("count", i + 1)
    if i >= sa.get("budget"):
        return (DEFAULT[what], i)
    return sa.memo(("happens", i, what), decide_outcome, what, i)


def decide_outcome(what, i):
    o = sa.one_of(sa.get("outcomes")[what], what + " " + str(i))
    if o == "rewind":
        return (o, i, sa.choose(sa.get("length") + 1, "rewind to point"))
    return (o, i)


class Interrupted(Exception):
    """An ordinary error of a callback or step."""


def point(i):
    return sa.memo(("point", i), make_point, i)


def make_point(i):
    f = sa.get("factory")
    kind = sa.one_of(sa.get("kinds"), "point " + str(i)) if i < sa.get("length") else "complete"
    node = sa.node(ParserRuleContext, "point" + str(i))
    top = sa.get("top")
    st = state0("state" + str(i))
    if kind in ("cancel", "return", "complete"):
        if kind == "complete":
            own = sa.get("own") and sa.choose(2, "the factory has contexts of its own")
            t = (OwnTermination if own else C.WizardTerminationContext)(f, node, top, st)
        else:
            after = Point(f, node, top, state0("after" + str(i)))
            after.number, after.kind = i, "step"
            if kind == "cancel":
                c = C.WizardCancelContext(f, sa.node(WP.CancelStmtContext, "cancel", [lit("Cancel")]), after, state0("at" + str(i)))
            else:
                c = C.WizardReturnContext(f, sa.node(WP.ReturnContext, "return", [lit("Return")]), after, state0("at" + str(i)))
            t = C.WizardTerminationContext(f, node, c, st)
        t.number, t.kind = i, kind
        return t
    p = {"step": Point, "one": SelectOnePoint, "many": SelectManyPoint}[kind](f, node, top, st)
    p.number, p.kind = i, kind
    return p


def text_of(what, i):
    """A text the rule says nothing about, the same each time it is asked for."""
    return sa.memo((what, i), sa.sym, what + " " + str(i), "str")


def some_options(what, i, least):
    return sa.memo(("some " + what, i), make_options, what, i, least)


def make_options(what, i, least):
    n = least + sa.choose(3 - least, "number of " + what) if sa.get("lists") else 1
    return [SelectOption(text_of(what + " name " + str(k), i), text_of(what + " text", i), text_of(what + " image", i)) for k in range(n)]


def execute(number, selected, state):
    """A step the rule says nothing about."""
    sa.emit("exec", number, selected, vars_content(state))
    o = happens("step")
    if o[0] == "error":
        raise Interrupted("step")
    if o[0] == "abort":
        sa.get("runner").abort()
    if o[0] == "rewind":
        sa.get("runner").rewind(point(o[2]))
    return point(number + 1)


class OwnTermination(C.WizardTerminationContext):
    """The termination context of a factory with contexts of its own."""


class Point(C.WizardInterpreterContext):
    def exec_(self):
        return execute(self.number, None, self.state)

    def exec(self):
        return self.exec_()


class SelectPoint:
    selected = None

    @property
    def description(self):
        return text_of("description", self.number)

    @property
    def options(self):
        return list(some_options("options", self.number, 1))

    def select(self, option):
        c = sa.clone(self)
        c.selected = option_names(option)
        return c

    def exec_(self):
        return execute(self.number, self.selected, self.state)

    def exec(self):
        return self.exec_()


class SelectOnePoint(SelectPoint, C.WizardSelectOneContext):
    def __init__(self, factory, context, parent, state):
        C.WizardInterpreterContext.__init__(self, factory, context, parent, state)

    @property
    def default(self):
        return some_options("default", self.number, 1)[0]


class SelectManyPoint(SelectPoint, C.WizardSelectManyContext):
    def __init__(self, factory, context, parent, state):
        C.WizardInterpreterContext.__init__(self, factory, context, parent, state)

    @property
    def defaults(self):
        return list(some_options("default", self.number, 0))


def names(options):
    return [(type(x), x.name, x.description, x.image) for x in options]


def option_names(option):
    if isinstance(option, SelectOption):
        return ("one", option.name)
    return ("many", tuple([o.name for o in option]))


def answer(o, many):
    """The answer of the user."""
    x = SelectOption(text_of("chosen", o[1]), "text", None)
    if not many:
        return x
    return [] if o[0] == "none" else [x, SelectOption(text_of("also", o[1]), "text", None)]


class Runner(WizardScriptRunner):
    __identity__ = True

    def make_top_level_context(self, script, state=None):
        m = sa.mark()
        t = super().make_top_level_context(script, state)
        sa.drop_events(m)
        sa.emit("script", script, content(t.state))
        return point(0)

    def react(self, what, o):
        if o[0] == "raise":
            raise Interrupted(what)
        if o[0] == "abort":
            self.abort()
        if o[0] == "rewind":
            self.rewind(point(o[2]))

    def selectOne(self, description, options, default):
        sa.emit("selectOne", self.context().number, description, names(options), names([default])[0])
        o = happens("select")
        self.react("selectOne", o)
        return answer(o, False)

    def selectMany(self, description, options, default=[]):
        sa.emit("selectMany", self.context().number, description, names(options), names(default))
        o = happens("select")
        self.react("selectMany", o)
        return answer(o, True)

    def cancel(self):
        sa.emit("cancel", self.context().number)
        o = happens("cancel")
        self.react("cancel", o)
        return o[0] == "stop"

    def complete(self):
        sa.emit("complete", self.context().number)
        o = happens("complete")
        self.react("complete", o)
        return o[0] == "stop"

    def error(self, exc):
        sa.emit("error", self.context().number, type(exc), exc.args)
        o = happens("error")
        if o[0] == "raise":
            raise exc
        self.react("error", o)

    def warning(self, text):
        sa.emit("warning", "")


# ----------------------------------------------------------------------- reference

class Abort(Exception):
    pass


class Rewind(Exception):
    def __init__(self, number):
        super().__init__(number)
        self.number = number


def flow(what, o):
    if o[0] in ("raise", "error"):
        raise Interrupted(what)
    if o[0] == "abort":
        raise Abort()
    if o[0] == "rewind":
        raise Rewind(o[2])


def ref_step(number, selected, state):
    sa.emit("exec", number, selected, vars_content(state))
    flow("step", happens("step"))


def ref_point(here):
    """Executes a point: (status or None, next position)."""
    number, after = here
    p = point(number)
    if after or p.kind == "step":
        ref_step(number, None, state0("at" + str(number)) if after else p.state)
        return (None, (number + 1, False))
    if p.kind in ("one", "many"):
        many = p.kind == "many"
        d = names(some_options("default", number, 0 if many else 1))
        sa.emit("selectMany" if many else "selectOne", number, text_of("description", number), names(some_options("options", number, 1)), d if many else d[0])
        o = happens("select")
        flow("selectMany" if many else "selectOne", o)
        ref_step(number, option_names(answer(o, many)), p.state)
        return (None, (number + 1, False))
    what = "cancel" if p.kind == "cancel" else "complete"
    sa.emit(what, number)
    o = happens(what)
    flow(what, o)
    if p.kind == "complete":
        return (WizardScriptRunnerStatus.COMPLETE, here)
    if o[0] == "stop":
        return (WizardScriptRunnerStatus.CANCEL if p.kind == "cancel" else WizardScriptRunnerStatus.RETURN, here)
    return (None, (number, True))


def ref_state(here):
    return content(state0("at" + str(here[0])) if here[1] else point(here[0]).state)


def ref_run(script):
    sa.emit("script", script, content(WizardRunnerState()))
    here = (0, False)
    aborted = False
    while True:
        try:
            try:
                if aborted:
                    aborted = False
                    sa.emit("cancel", here[0])
                    o = happens("cancel")
                    flow("cancel", o)
                    if o[0] == "stop":
                        return (WizardScriptRunnerStatus.CANCEL, ref_state(here))
                status, here = ref_point(here)
                if status is not None:
                    return (status, ref_state(here))
            except Interrupted as e:
                sa.emit("error", here[0], type(e), e.args)
                o = happens("error")
                flow("error", ("ok", 0) if o[0] == "raise" else o)
                if o[0] == "raise":
                    raise Escaped(e)
                return (WizardScriptRunnerStatus.ERROR, ref_state(here))
        except Escaped as e:
            raise e.error
        except Rewind as r:
            here = (r.number, False)
        except Abort:
            aborted = True


class Escaped(Exception):
    def __init__(self, error):
        super().__init__()
        self.error = error


def compare_runs(what, times=1):
    parsing()
    runner = Runner()
    sa.put("runner", runner)
    f = factory()
    sa.put("factory", f)
    sa.put("top", ParentContext(f, sa.node(ParserRuleContext, "top"), None, state0("top")))

    def implementation():
        sa.put("count", 0)
        out = []
        for i in range(times):
            status, state = runner.run("script")
            out.append((status, content(state)))
        return out

    def reference():
        sa.put("count", 0)
        return [ref_run("script") for i in range(times)]

    sa.expect(what, sa.record(implementation), sa.record(reference))


def check_run_end():
    universe(("step", "cancel", "return", "complete"), step=("ok", "error"), ends=("stop", "raise"), error=("return", "raise"), length=sa.K() + 1, own=True)
    compare_runs("run()")


def check_run_select():
    universe(("one", "many", "step"), step=("ok",), one=("answer", "none", "raise"), lists=True)
    compare_runs("run() with selects")


def check_run_flow():
    universe(("one", "many", "step", "cancel", "return") if sa.K() > 2 else ("one", "step", "cancel"), step=("ok", "error", "abort", "rewind"),
             one=("answer", "abort", "rewind"), ends=("stop", "go on", "abort", "rewind"), error=("return", "abort", "rewind"), steps=sa.K() + 2)
    compare_runs("run() with abort() and rewind()")


def check_run_refuse():
    universe(("step", "cancel", "return"), step=("ok", "error"), ends=("stop", "go on"), error=("return",), length=sa.K() + 1)
    compare_runs("run() continued after the end")


def check_run_again():
    """A runner runs each script as a new one does."""
    universe(("one", "step", "cancel"), step=("ok", "error", "abort"), one=("answer", "abort"), ends=("stop", "go on"), steps=sa.K() + 2, length=2)
    compare_runs("run() called again", 2)
