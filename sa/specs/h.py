"""Harness shared by the rules: opaque expressions, parse-tree shapes, states, views."""
import sa
from antlr4 import TerminalNode, ParserRuleContext
from antlr4.Token import Token
from wizard.antlr4.wizardParser import wizardParser as WP
from wizard.errors import *
from wizard.errors import (WizardError, WizardParseError, WizardTypeError, WizardIndexError, WizardNameError,
                           WizardValueError, WizardMissingPackageError, WizardMissingPluginError)
from wizard.expr import WizardExpressionVisitor
from wizard.keywords import WizardKeywordVisitor
from wizard.severity import SeverityContext, Severity, Issue
from wizard.state import WizardInterpreterState
from wizard.value import Value, VariableType, SubPackage, SubPackages, Void, Plugin, CaseFoldNamedObject
from wizard.contexts import contexts as C
from wizard.contexts import keywords as KC
from wizard.contexts.factory import WizardInterpreterContextFactory

SCALARS = ("bool", "int", "float", "str")
ALL = ("bool", "int", "float", "str", "Void", "SubPackage", "SubPackages")
SETS = ("bool", "int", "float", "str", "Void")


# ---------------------------------------------------------------- tokens and nodes

def tok(ttype, text, label=None):
    t = sa.new(Token, type=ttype, text=text, line=sa.sym("line"), column=sa.sym("column"), index=0)
    n = sa.new(TerminalNode, symbol=t, parentCtx=None, label__=label or ("tok:" + str(ttype)))
    return n


def token_type(name):
    """The type of a token, given its text in the grammar or its symbolic name."""
    q = "'" + name + "'"
    if q in WP.literalNames:
        return WP.literalNames.index(q)
    if name in WP.symbolicNames:
        return WP.symbolicNames.index(name)
    raise AssertionError("no token " + name)


def lit(name):
    """The terminal node of a literal of the grammar."""
    return tok(token_type(name), name)


class OpaqueContext(WP.ExprContext):
    """An expression the rule says nothing about."""
    opaque__ = True
    kinds__ = ALL
    earlier__ = ("str",)
    value__ = None
    sets__ = None

    def accept(self, visitor):
        return opaque_visit(visitor, self, None)

    def getChildCount(self):
        return sa.memo(("children of", self), lambda: sa.one_of((1, 2, 3, 4), "number of children of " + self.label__))


def leaf(label, kinds=ALL, sets=None, earlier=None):
    """An expression the rule says nothing about; sets: the name of a variable of the script it changes, if any.
    earlier: the kinds of its value when the statement was executed before."""
    n = sa.node(OpaqueContext, label, text=sa.sym("text of " + label, "str"))
    n.kinds__ = kinds
    n.earlier__ = earlier or (("str",) if "str" in kinds else kinds[:1])
    n.sets__ = sets
    return n


def fixed(label, value):
    """An opaque expression with a given value."""
    n = leaf(label)
    n.value__ = Value(value)
    return n


def ident(name, label=None):
    return tok(WP.Identifier, name, label)


# ------------------------------------------------------------------------- values

class ManagerPackage(SubPackage):
    """Sub-packages of a manager derive from SubPackage, directly or not."""


class OpaqueSubPackage(ManagerPackage):
    __identity__ = True

    @property
    def files(self):
        return sa.get(("files", self.label__))


def subpackage(label, name=None, files=None):
    def make():
        sp = OpaqueSubPackage(sa.sym("name:" + label, "str") if name is None else name)
        sp.label__ = label
        sa.put(("files", label), sa.opaque_list("files:" + label, "str") if files is None else files)
        return sp
    return sa.memo(("subpackage", label), make)


def value_of(term, kinds=ALL, label=None):
    """The value a symbol stands for: one partition per kind."""
    k = sa.kind(term, kinds)
    if k in SCALARS:
        return Value(sa.typed(term, k))
    if k == "Void":
        return Value(sa.memo(("void", term), Void))
    if k == "SubPackage":
        return Value(subpackage(sa.short(term)))
    if k == "SubPackages":
        return Value(sa.memo(("subpackages", term), opaque_subpackages, sa.short(term)))
    raise AssertionError(k)


def opaque_subpackages(label):
    n = sa.length("number of sub-packages of " + label)
    return SubPackages([subpackage(label + "#" + str(i)) for i in range(n)])


def any_value(label, kinds=ALL):
    return value_of(sa.ref(label), kinds)


sa.set_lookup(lambda base, key, val: value_of(val, ("int",) if sa.get("earlier") else ALL))


# ------------------------------------------------------------------------- states

TRACEVAR = "$"


def content(state):
    """Everything observable of an interpreter state."""
    out = [type(state), dict(state.variables)]
    for n in ("subpackages", "plugins", "renames", "notes"):
        if hasattr(state, n):
            v = getattr(state, n)
            out.append(dict(v) if n == "renames" else list(v))
    if hasattr(state, "tweaks"):
        out.append([(t.filename, t.section, t.setting) for t in state.tweaks.disabled])
        out.append([(t.filename, t.section, t.setting, t.value, t.comment) for t in state.tweaks.modified])
    return sa.freeze(tuple(out))


def vars_content(state):
    return sa.freeze(dict(state.variables))


def opaque_visit(visitor, ctx, state, typ=None):
    if ctx.exception:
        raise WizardParseError(ctx, ctx.exception)
    before = vars_content(state)
    sa.emit("eval", ctx.label__, before)
    state.set(TRACEVAR, Value(sa.typed(sa.ref("after", ctx.label__, before), "str")))
    if ctx.sets__ is not None:
        state.set(ctx.sets__, value_of(sa.ref("set", ctx.label__, before), SETS))
    if ctx.value__ is not None:
        return ctx.value__
    v = value_of(sa.ref("val", ctx.label__, before), ctx.earlier__ if sa.get("earlier") else ctx.kinds__)
    if typ is not None and not isinstance(v.value, typ):
        raise WizardTypeError(ctx, "expected type")
    return v


sa.hook_opaque("WizardExpressionVisitor.visitExpr", opaque_visit)


def ref_eval(ctx, state, typ=None):
    """Reference evaluation of an opaque expression."""
    return opaque_visit(None, ctx, state, typ)


def state0(label="vars"):
    return WizardInterpreterState(sa.opaque_dict(label))


# --------------------------------------------------------------- severity, factory

class Sev(SeverityContext):
    __identity__ = True

    def __init__(self):
        super().__init__()
        self.label__ = "severity"

    def warning(self, text):
        sa.emit("warning", "")


class KVisitor(WizardKeywordVisitor):
    pass


class Visitor(WizardExpressionVisitor):
    __identity__ = True

    def visitOpaque(self, ctx, state):
        return opaque_visit(self, ctx, state)


class Factory(WizardInterpreterContextFactory):
    __identity__ = True


def severity(issue=None):
    s = Sev()
    if issue is not None:
        s.set_severity(issue, sa.one_of([Severity.ALLOW, Severity.WARNING, Severity.ERROR], "severity"))
    return s


def factory(sev=None, functions=None, kvisitor=None, subpackages=None):
    sev = sev or Sev()
    ev = Visitor(subpackages if subpackages is not None else SubPackages(), functions if functions is not None else {}, sev)
    ev.label__ = "visitor"
    f = Factory(ev, kvisitor or KVisitor(sev), sev)
    f.label__ = "factory"
    return f


class ParentContext(C.WizardInterpreterContext):
    """A context the rule says nothing about."""

    def __init__(self, factory, context, parent, state=None):
        super().__init__(factory, context, self if parent is None else parent, state)

    def exec_(self):
        raise AssertionError("the parent is not executed by its child")


def parent(f, state=None, label="parent", cls=ParentContext):
    top = ParentContext(f, sa.node(ParserRuleContext, label + ".top"), None, state0(label + ".topvars"))
    p = cls(f, sa.node(ParserRuleContext, label), top, state if state is not None else state0())
    p.tag = sa.sym("tag:" + label)
    return p


def pview(ctx, state):
    """What a copy of ctx with another state must look like."""
    return ("copy", type(ctx), ctx.context, content(state), sa.attr_map(ctx, ctx.state, ctx.parent),
            ctx.is_top_level() or ctx.parent)


def cview(ctx):
    return pview(ctx, ctx.state)


def view(ctx):
    """A context created by a step: its class, node, state and parent."""
    return (type(ctx), ctx.context, content(ctx.state))


def step(ctx):
    """One execution step; the executed context and its ancestors must not change."""
    before = sa.freeze(ctx)
    r = sa.record(ctx.exec)
    sa.check(sa.freeze(ctx) == before, "executing a context changed it or one of its ancestors", type(ctx), cat="rewind")
    if sa.option("cats"):
        sa.expect("executing again from the same point", sa.record(ctx.exec), r, cat="rewind")
    return r


def run_step(ctx):
    r = step(ctx)
    if r[0] == "raise":
        raise r[1]
    return r[1]


def earlier(what, run):
    """The same on another state (of a point that was rewound, of another turn) makes no difference."""
    if sa.choose(2, what + " on another state before"):
        m = sa.mark()
        sa.put("earlier", True)
        sa.record(run)
        sa.put("earlier", False)
        sa.drop_events(m)


def earlier_step(f, make):
    """The same statement was reached and executed before, with another state."""
    earlier("the statement", lambda: make(parent(f, state0("before"))).exec())


def resumed(f, ctx):
    """A point as the script reaches it, or a copy of it with another state (copy_context())."""
    return f.copy_context(ctx, state0("resumed")) if sa.choose(2, "a copy with another state") else ctx


def located(make):
    """Errors of a constructor as they reach the caller of the step (the location is that of the enclosing block)."""
    try:
        return make()
    except WizardError:
        raise
    except TypeError:
        raise WizardTypeError(None, "")
    except IndexError:
        raise WizardIndexError(None, 0)
    except (ValueError, ArithmeticError):
        raise WizardValueError(None, "")


def body_node(label, kids=None):
    return sa.node(WP.BodyContext, label, kids)


def arglist(kids):
    """argList of the grammar: expressions separated by commas (none at all: no children)."""
    out = []
    for k in kids:
        if out:
            out.append(lit(","))
        out.append(k)
    return sa.node(WP.ArgListContext, "args", out if out else None, unb=True)


BROKEN = "syntax error"
