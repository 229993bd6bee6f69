"""The text of the errors of a script."""
import sa
from spec_h import *
from wizard.errors import WizardUnsupportedOperation
from antlr4.error.Errors import FailedPredicateException, InputMismatchException, NoViableAltException, RecognitionException


class Tokens:
    def getText(self, start=None, stop=None):
        return sa.memo(("text", start, stop), text_between, start, stop)


def text_between(start, stop):
    if start is None or stop is None:
        return sa.sym("other text", "str")
    return sa.sym("text from " + start.label__ + " to " + stop.label__, "str")


class Recognizer:
    literalNames = ["<INVALID>", "'x'"]
    symbolicNames = ["<INVALID>", "X"]
    ruleNames = ["first", "second", "third"]

    def __init__(self, stream):
        self._stream = stream
        self._ctx = sa.node(WP.ExprContext, "current")
        self._ctx.getRuleIndex = lambda: 1

    def getTokenStream(self):
        return self._stream


class Expected:
    def toString(self, literal, symbolic):
        sa.check(literal is Recognizer.literalNames and symbolic is Recognizer.symbolicNames, "the expected tokens are named by other tables")
        return sa.sym("expected tokens", "str")


class Mismatch(InputMismatchException):
    def getExpectedTokens(self):
        return Expected()


class OtherRecognition(RecognitionException):
    pass


def token(label, kind, text):
    t = sa.new(Token, type=kind, text=text, line=1, column=1)
    t.label__ = label
    t.tokenIndex = 3
    return t


def located():
    if not sa.choose(2, "located"):
        return None, "Line -1, Column -1: "
    ctx = sa.node(WP.ExprContext, "expr")
    ctx.start = tok(WP.Identifier, "x").symbol
    ctx.stop = tok(WP.Identifier, "y").symbol
    ctx.start.line, ctx.start.column = sa.sym("start line", "int"), sa.sym("start column", "int")
    ctx.stop.line, ctx.stop.column = sa.sym("stop line", "int"), sa.sym("stop column", "int")
    return ctx, "Line " + str(ctx.start.line) + ", Column " + str(ctx.start.column) + ": "


def check_text():
    """Errors made from a text, or from what they are about."""
    ctx, where = located()
    text, name, index = sa.sym("text", "str"), sa.sym("name", "str"), sa.sym("index", "int")
    made = (
        (lambda: WizardError(ctx, text), text),
        (lambda: WizardParseError(ctx, text), text),
        (lambda: WizardTypeError(ctx, text), text),
        (lambda: WizardValueError(ctx, text), text),
        (lambda: WizardParseError(ctx, ValueError(text)), text),
        (lambda: WizardTypeError(ctx, TypeError(text)), text),
        (lambda: WizardParseError(ctx), ""),
        (lambda: WizardUnsupportedOperation(ctx, name), "'" + name + "' operation is not implemented."),
        (lambda: WizardIndexError(ctx, index), "Index " + str(index) + " out of range."),
        (lambda: WizardNameError(ctx, name), "The name '" + name + "' is not defined."),
        (lambda: WizardMissingPackageError(ctx, name), "Trying to activate missing '" + name + "' sub-package."),
        (lambda: WizardMissingPluginError(ctx, name), "Trying to activate missing '" + name + "' plugin."),
    )
    make, message = made[sa.choose(len(made), "error")]
    e = make()
    sa.expect("message of an error", sa.record(lambda: e.message), sa.record(lambda: message))
    sa.expect("text of an error", sa.record(lambda: str(e)), sa.record(lambda: where + message))


def shown(t):
    if t is None:
        return "<no token>"
    s = t.text
    if s is None:
        s = "<EOF>" if t.type == -1 else "<" + str(t.type) + ">"
    return quoted(s)


def quoted(s):
    return "'" + s.replace("\t", "\\t").replace("\r", "\\r").replace("\n", "\\n") + "'"


def check_recognition():
    """Errors made from what the parser found."""
    ctx, where = located()
    stream = Tokens() if sa.choose(2, "stream") else None
    r = Recognizer(stream)
    start = token("start", sa.one_of((-1, 5), "type of the first token"), "start")
    end = token("end", 7, "end")
    found = sa.one_of(("text", "end", "special", "none"), "token found")
    off = {"text": lambda: token("found", 5, sa.sym("token text", "str")), "end": lambda: token("found", -1, None),
           "special": lambda: token("found", 9, None), "none": lambda: None}[found]()
    what = sa.one_of(("no viable alternative", "mismatch", "failed predicate", "other"), "kind of error")
    if what == "no viable alternative":
        e = NoViableAltException(r, stream, start, end)
        e.startToken, e.offendingToken = start, end
        if stream is None:
            expected = "no viable alternative at input '<unknown input>'"
        elif start.type == -1:
            expected = "no viable alternative at input '<EOF>'"
        else:
            expected = "no viable alternative at input " + quoted(stream.getText(start, end))
    elif what == "mismatch":
        e = Mismatch(r)
        e.offendingToken = off
        expected = "mismatched input " + shown(off) + " expecting " + sa.sym("expected tokens", "str")
    elif what == "failed predicate":
        e = FailedPredicateException(r, "p", sa.sym("predicate", "str"))
        e.message = sa.sym("predicate", "str")
        expected = "rule second " + sa.sym("predicate", "str")
    else:
        e = OtherRecognition()
        expected = "unknown recognition error type: OtherRecognition"
    e.recognizer = r
    error = WizardParseError(ctx, e)
    sa.expect("message of a syntax error", sa.record(lambda: error.message), sa.record(lambda: expected))
    sa.expect("text of a syntax error", sa.record(lambda: str(error)), sa.record(lambda: where + expected))
