"""Loading of scripts and the default factories."""
import sa
from wizard.manager import ManagerModInterface
import io
from pathlib import Path
from antlr4 import InputStream
from antlr4.error.ErrorListener import ConsoleErrorListener
from antlr4.error.Errors import InputMismatchException, NoViableAltException, ParseCancellationException
from spec_h import *
from spec_expr import view_value, ref_value, value_node
from spec_functions import tables, Manager, MANAGER
from wizard.antlr4.wizardLexer import wizardLexer
from wizard.functions import make_basic_functions
from wizard.interpreter import WizardInterpreter
from wizard.runner import WizardRunnerState, WizardRunnerExpressionVisitor
from wizard.scriptrunner import WizardScriptRunner
from wizard.utils import make_parse_wizard_context, make_top_level_context, make_basic_context_factory, make_runner_context_factory
from wizard.utils.error_strategy import WizardErrorStrategy


# ------------------------------------------------------------------------- loading

class Stream(io.TextIOBase):
    """A stream: its whole content at the first reading."""

    def __init__(self, content, before=None):
        self.content = content
        self.before__ = before
        self.closed__ = False

    def read(self, *args):
        c = self.content
        self.content = ""
        return c

    # what is before the position of the stream is not part of the script
    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, offset, whence=0):
        if offset == 0 and whence == 0 and self.before__ is not None:
            self.content = self.before__ + self.content
        return offset

    def getvalue(self):
        return self.content if self.before__ is None else self.before__ + self.content

    def close(self):
        self.closed__ = True


class ByteStream(Stream):
    pass


def sources():
    """(script, the text that must be parsed)"""
    kind = sa.one_of(("input stream", "text", "path", "text stream", "byte stream"), "script")
    if kind == "input stream":
        s = InputStream(sa.sym("text", "str"))
        return s, s.strdata
    if kind == "text":
        return sa.sym("text", "str"), sa.sym("text", "str")
    if kind == "text stream":
        return Stream(sa.sym("text", "str"), sa.sym("text before the position", "str")), sa.sym("text", "str")
    if kind == "path":
        p = Path(sa.sym("path", "str"))
        with open(p, "rb") as fp:
            return p, decoded(fp.read())
    data = sa.sym("data", "bytes")
    return ByteStream(data), decoded(data)


def decoded(data):
    def decode():
        import chardet
        return data.decode(chardet.detect(data)["encoding"] or "utf-8")

    r = sa.record(decode)
    sa.assume(r[0] == "ok")
    return r[1]


OUTCOMES = ("tree", "WizardParseError", "WizardIndexError", "mismatch", "no alternative", "cancelled", "TypeError", "IndexError",
            "ValueError", "ArithmeticError", "KeyError")


def outcome(tree):
    """What parsing gives."""
    o = sa.get("outcome")
    node = sa.memo(("where",), sa.node, ParserRuleContext, "where")
    if o == "WizardParseError":
        raise WizardParseError(node, "syntax")
    if o == "WizardIndexError":
        raise WizardIndexError(node, 3)
    if o in ("mismatch", "no alternative", "cancelled"):
        e = InputMismatchException(None) if o == "mismatch" else NoViableAltException(None) if o == "no alternative" else None
        if e is None:
            raise ParseCancellationException("cancelled")
        e.ctx = node
        raise ParseCancellationException(e)
    for t in (TypeError, IndexError, ValueError, ArithmeticError, KeyError):
        if o == t.__name__:
            raise t("message")
    return tree


def as_wizard(run):
    """The Wizard error of each error of the parser."""
    try:
        return run()
    except WizardError:
        raise
    except ParseCancellationException as ex:
        raise WizardParseError(ex.args[0].ctx if isinstance(ex.args[0], InputMismatchException) else None, ex)
    except TypeError as ex:
        raise WizardTypeError(None, ex)
    except IndexError as ex:
        raise WizardIndexError(None, *ex.args)
    except (ValueError, ArithmeticError) as ex:
        raise WizardValueError(None, str(ex))


def parse_hook(parser):
    sa.check(type(parser) is WP, "the script is parsed by another parser", parser)
    lexer = parser.getTokenStream().tokenSource
    sa.check(type(lexer) is wizardLexer, "the script is read by another lexer", lexer)
    for r in (lexer, parser):
        for x in r._listeners:
            sa.check(not isinstance(x, ConsoleErrorListener), "syntax errors are printed on the console by", type(r))
    strategy = parser._errHandler
    sa.check(isinstance(strategy, WizardErrorStrategy), "the script is parsed without the recovering strategy", strategy)
    for s in sa.get("strategies"):
        sa.check(s is not strategy, "two scripts are parsed with the same error strategy, which keeps state of the first")
    sa.get("strategies").append(strategy)
    sa.emit("parse", lexer._input.strdata, lexer._input.index)
    return outcome(sa.node(WP.ParseWizardContext, "script"))


sa.hook("wizardParser.parseWizard", parse_hook)


def parsing(o="tree"):
    sa.enable_hook("wizardParser.parseWizard")
    sa.put("strategies", [])
    sa.put("outcome", o)


def check_loading():
    parsing(sa.one_of(OUTCOMES, "parsing gives"))
    wrap = sa.choose(2, "Wizard errors") == 1
    script, text = sources()

    def reference():
        sa.emit("parse", text, 0)
        if not wrap:
            return outcome("script")
        return as_wizard(lambda: outcome("script"))

    if wrap:
        impl = sa.record(lambda: make_parse_wizard_context(script).label__)
    else:
        impl = sa.record(lambda: make_parse_wizard_context(script, wrap_excs=False).label__)
    sa.expect("loading a script", impl, sa.record(reference))


def check_top_level_errors():
    """Failures of the parser reach the caller of make_top_level_context as it asked."""
    o = sa.one_of(OUTCOMES, "parsing gives")
    parsing(o)
    how = sa.one_of(("function", "with Wizard errors", "without Wizard errors", "interpreter", "runner"), "made by")
    f = factory()
    runner = Run() if how == "runner" else None

    def make():
        if how == "function":
            return make_top_level_context("script", f, state0())
        if how == "interpreter":
            return WizardInterpreter(f).make_top_level_context("script", state0())
        if how == "runner":
            return runner.make_top_level_context("script")
        return make_top_level_context("script", f, state0(), wrap_excs=how == "with Wizard errors")

    def reference():
        sa.emit("parse", "script", 0)
        if how == "without Wizard errors":
            return outcome("script")
        return as_wizard(lambda: outcome("script"))

    sa.expect("errors of loading a script to execute", sa.record(lambda: make().context.label__), sa.record(reference))


def check_loading_twice():
    """A script is loaded the same whatever was loaded before."""
    parsing(sa.one_of(("tree", "WizardParseError", "cancelled"), "first parsing gives"))
    sa.record(lambda: make_parse_wizard_context("first"))
    sa.put("outcome", "tree")
    script, text = sources()

    def reference():
        sa.emit("parse", text, 0)
        return "script"

    sa.expect("loading a second script", sa.record(lambda: make_parse_wizard_context(script).label__), sa.record(reference))


# ----------------------------------------------------------------- top-level context

def other_call(self, *args):
    sa.emit("another manager", args)
    return 0


class OtherManager(ManagerModInterface):
    pass


class OtherRun(WizardScriptRunner):
    def requiresVersions(self, *args):
        sa.emit("another user interface", tuple(args))

    def warning(self, text):
        sa.emit("warning of another context", "")


class Run(WizardScriptRunner):
    def requiresVersions(self, *args):
        sa.emit("requires", tuple(args))

    def warning(self, text):
        sa.emit("warning", "")


for _n in ("compareGameVersion", "compareSEVersion", "compareGEVersion", "compareWBVersion", "dataFileExists", "getPluginLoadOrder",
           "getPluginStatus", "getFilename", "getFolder"):
    setattr(Run, _n, getattr(Manager, _n))
    setattr(OtherManager, _n, other_call)
    setattr(OtherRun, _n, other_call)


def runner_state():
    st = WizardRunnerState()
    st.set("v", Value(sa.sym("v", "int")))
    st.notes.append(sa.sym("note", "str"))
    return st


def check_top_level_state():
    parsing()
    how = sa.one_of(("function", "interpreter", "runner"), "made by")
    given = sa.one_of(("none", "no state", "a state"), "state")
    f = factory()
    runner = Run() if how == "runner" else None
    empty = WizardRunnerState if how == "runner" else WizardInterpreterState
    st = runner_state() if how == "runner" else state0()
    args = () if given == "none" else (None,) if given == "no state" else (st,)
    before = content(st)

    def make():
        if how == "function":
            return make_top_level_context("script", f, *args)
        if how == "interpreter":
            return WizardInterpreter(f).make_top_level_context("script", *args)
        return runner.make_top_level_context("script", *args)

    def implementation():
        out = []
        for i in range(2):
            t = make()
            out.append((type(t), t.context.label__, t.is_top_level(), content(t.state)))
            if how != "runner":
                sa.check(t.factory is f, "the top-level context has another factory", t)
            t.state.set("changed", Value(1)) if given != "a state" else None
        return out

    def reference():
        out = []
        for i in range(2):
            sa.emit("parse", "script", 0)
            out.append((C.WizardTopLevelContext, "script", True, before if given == "a state" else content(empty())))
        return out

    sa.expect("the top-level context", sa.record(implementation), sa.record(reference))


# ------------------------------------------------------------------------ factories

def packages(part):
    n = sa.length("number of sub-packages") if part in ("sub-packages", "keyword sub-packages") else 0
    return SubPackages([subpackage("p" + str(i), None, [sa.sym("file" + str(i), "str")]) for i in range(n)])


PARTS = ("sub-packages", "severity", "expression severity", "keyword severity", "functions", "manager functions", "keyword sub-packages")


def parts_of(part, f, sps, runner, warns):
    """Every part of a factory uses the given sub-packages, severity context and manager."""
    st = WizardRunnerState() if runner else WizardInterpreterState()
    ev, kv = f.evisitor, f.kvisitor
    sa.check(isinstance(ev, WizardRunnerExpressionVisitor) if runner else isinstance(ev, WizardExpressionVisitor), "kind of the expression visitor", ev)
    if part == "sub-packages":
        node = sa.node(WP.ConstantContext, "constant", [lit("SubPackages")])
        r = sa.record(lambda: [x for x in ev.visitExpr(value_node("constant", node), st).value])
        sa.expect("the sub-packages of expressions", r, sa.record(lambda: [x for x in sps]))
    elif part == "severity":
        issue = sa.one_of((Issue.USAGE_OF_NOTSET_VARIABLES, Issue.SELECT_MISSING_PLUGIN), "issue")
        warns.set_severity(issue, sa.one_of((Severity.ALLOW, Severity.WARNING, Severity.ERROR), "severity"))

        def raise_(s):
            return sa.record(lambda: s.raise_or_warn(issue, WizardNameError(None, "x"), "text"))

        sa.expect("severity of the factory", raise_(f.severity), raise_(warns))
    elif part == "expression severity":
        level(warns, Issue.USAGE_OF_NOTSET_VARIABLES,
              lambda: ev.visitExpr(value_node("variable", ident("missing")), st).value, 0, WizardNameError)
    elif part in ("keyword severity", "keyword sub-packages"):
        if not runner:
            return
        if part == "keyword severity":
            level(warns, Issue.SELECT_MISSING_PLUGIN,
                  lambda: kv.visitSelectPlugin(keyword_context(f), st, "missing"), None, WizardMissingPluginError)
        else:
            sa.expect("the sub-packages of keywords", sa.record(lambda: [x for x in kv.subpackages]), sa.record(lambda: [x for x in sps]))
    elif part == "functions":
        name = sa.one_of([n for n, _ in tables()], "function")
        args = ["1"] if name.split(".")[-1] in ("str", "int", "float", "len", "lower") else ["1", "2"]
        args[0] = OWNERS.get(name.split(".")[0], args[0]) if "." in name else args[0]
        want = make_basic_functions()[name](st, [Value(a) for a in args])
        sa.expect("built-in function " + name, sa.record(lambda: view_value(call(ev, name, args, st))), sa.record(lambda: view_value(want)), events=False)
    else:
        name, method, least, most = sa.one_of(MANAGER, "function")
        if not runner:
            sa.check(sa.record(lambda: call(ev, name, ["x"], st))[0] == "raise", "a manager function without a manager", name)
            return

        rst = sa.clone(st)

        def reference():
            ref_eval(fixed("arg0", "x"), rst)
            sa.emit("manager", method, (ref_value("x"),))
            return ref_value(sa.typed(sa.ref("manager", method), "int"))

        sa.expect("manager function " + name, sa.record(lambda: view_value(call(ev, name, ["x"], st))), sa.record(reference))


def level(sev, issue, run, result, error):
    want = sa.one_of((Severity.ALLOW, Severity.WARNING, Severity.ERROR), "severity")
    sev.set_severity(issue, want)

    def reference():
        if want == Severity.ERROR:
            raise error(None, "")
        if want == Severity.WARNING:
            sa.emit("warning", "")
        return result

    sa.expect("the severity set by the user", sa.record(run), sa.record(reference))


def keyword_context(f):
    return parent(f)


OWNERS = {"string": "1", "integer": 1, "float": 1.0, "bool": True}


def call(ev, name, args, st):
    node = sa.node(WP.FunctionCallContext, "call", [ident(name), lit("("), arglist([fixed("arg" + str(i), a) for i, a in enumerate(args)]), lit(")")])
    if "." in name:
        owner, method = name.split(".")
        node = sa.node(WP.DotFunctionCallContext, "call", [fixed("owner", args[0]), lit("."), ident(method), lit("("),
                       arglist([fixed("arg" + str(i), a) for i, a in enumerate(args[1:])]), lit(")")])
        return ev.visitExpr(node, st)
    return ev.visitExpr(node, st)


class OtherSev(SeverityContext):
    def warning(self, text):
        sa.emit("warning of another context", "")


def other_factory():
    """Making another factory, for other packages, severities and managers, makes no difference."""
    sps, sev = SubPackages([subpackage("other", None, ["other.esp"])]), OtherSev()
    sev.set_default_severity(Severity.ALLOW)
    sev.set_severity(Issue.SELECT_MISSING_PLUGIN, Severity.ALLOW)
    m = sa.mark()
    kind = sa.one_of(("basic", "runner", "script runner"), "other factory")
    if kind == "basic":
        make_basic_context_factory(sps, sev)
    elif kind == "runner":
        make_runner_context_factory(sps, OtherManager(), sev)
    else:
        OtherRun(sps)
    sa.drop_events(m)


def among_others(make):
    when = sa.one_of(("none", "before", "after"), "other factories")
    if when == "before":
        other_factory()
    f = make()
    if when == "after":
        other_factory()
    return f


def check_factories():
    runner = sa.choose(2, "for the runner") == 1
    part = sa.one_of(PARTS, "part")
    sps, sev = packages(part), Sev()
    f = among_others(lambda: make_runner_context_factory(sps, Manager(), sev) if runner else make_basic_context_factory(sps, sev))
    parts_of(part, f, sps, runner, sev)


def check_runner_init():
    parsing()
    given = sa.choose(2, "with sub-packages") == 1
    part = sa.one_of(PARTS, "part")
    sps = packages(part) if given else SubPackages()
    r = among_others(lambda: Run(sps) if given else Run())
    parts_of(part, r.make_top_level_context("script").factory, sps, True, r)


def check_requires_versions():
    """RequireVersions reaches the user interface of the runner, with the versions as given."""
    parsing()
    r = Run()
    f = r.make_top_level_context("script").factory
    st = WizardRunnerState()
    args = [sa.one_of((None, sa.sym("v" + str(i), "str")), "version " + str(i)) if i else sa.sym("v0", "str") for i in range(4)]
    before = content(st)

    def implementation():
        f.kvisitor.visitRequireVersions(st, *args)
        return content(st)

    def reference():
        sa.emit("requires", tuple(args))
        return before

    sa.expect("RequireVersions of the script runner", sa.record(implementation), sa.record(reference))
