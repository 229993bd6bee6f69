"""Stub of the antlr4 runtime (interpreted abstractly, never imported)."""
from antlr4.Token import Token, CommonToken
from antlr4.IntervalSet import IntervalSet
from antlr4.error.Errors import RecognitionException, InputMismatchException, NoViableAltException, FailedPredicateException, ParseCancellationException
from antlr4.error.ErrorListener import ConsoleErrorListener, ErrorListener


class ParseTree:
    pass


class TerminalNode(ParseTree):
    __identity__ = True

    def __init__(self, symbol):
        self.symbol = symbol
        self.parentCtx = None

    def getText(self):
        return self.symbol.text

    def getSymbol(self):
        return self.symbol

    def getChildCount(self):
        return 0

    def getPayload(self):
        return self.symbol

    def __str__(self):
        return self.symbol.text

    def accept(self, visitor):
        return visitor.visitTerminal(self)


TerminalNodeImpl = TerminalNode


class ErrorNode(TerminalNode):
    pass


ErrorNodeImpl = ErrorNode


class RuleContext(ParseTree):
    def __init__(self, parent=None, invokingState=-1):
        self.parentCtx = parent
        self.invokingState = invokingState


class ParserRuleContext(RuleContext):
    __identity__ = True
    children = None
    exception = None
    start = None
    stop = None
    text__ = None

    def __init__(self, parent=None, invokingStateNumber=None):
        super().__init__(parent, invokingStateNumber)
        self.children = None
        self.start = None
        self.stop = None
        self.exception = None

    def copyFrom(self, ctx):
        self.parentCtx = ctx.parentCtx
        self.invokingState = ctx.invokingState
        self.children = None
        self.start = ctx.start
        self.stop = ctx.stop

    def addChild(self, child):
        if self.children is None:
            self.children = []
        self.children.append(child)
        return child

    def removeLastChild(self):
        if self.children is not None:
            del self.children[len(self.children) - 1]

    def getChild(self, i, ttype=None):
        if self.children is None:
            return None
        if ttype is None:
            return self.children[i] if len(self.children) > i else None
        for child in self.getChildren():
            if not isinstance(child, ttype):
                continue
            if i == 0:
                return child
            i -= 1
        return None

    def getChildren(self, predicate=None):
        if self.children is not None:
            for child in self.children:
                if predicate is not None and not predicate(child):
                    continue
                yield child

    def getChildCount(self):
        return 0 if self.children is None else len(self.children)

    def getToken(self, ttype, i):
        for child in self.getChildren():
            if not isinstance(child, TerminalNode):
                continue
            if child.symbol.type != ttype:
                continue
            if i == 0:
                return child
            i -= 1
        return None

    def getTokens(self, ttype):
        if self.children is None:
            return []
        out = []
        for child in self.children:
            if isinstance(child, TerminalNode) and child.symbol.type == ttype:
                out.append(child)
        return out

    def getTypedRuleContext(self, ctxType, i):
        return self.getChild(i, ctxType)

    def getTypedRuleContexts(self, ctxType):
        out = []
        for child in self.getChildren():
            if isinstance(child, ctxType):
                out.append(child)
        return out

    def getText(self):
        if self.text__ is not None:
            return self.text__
        return "".join([child.getText() for child in self.getChildren()])

    def getRuleIndex(self):
        return -1

    def getRuleContext(self):
        return self

    def getPayload(self):
        return self

    def accept(self, visitor):
        return visitor.visitChildren(self)


InterpreterRuleContext = ParserRuleContext


class Recognizer:
    def __init__(self):
        self._listeners = [ConsoleErrorListener.INSTANCE]
        self._interp = None
        self.state = -1

    def checkVersion(self, toolVersion):
        pass

    def addErrorListener(self, listener):
        self._listeners.append(listener)

    def removeErrorListener(self, listener):
        self._listeners.remove(listener)

    def removeErrorListeners(self):
        self._listeners = []

    def getTokenStream(self):
        return self._input


class Lexer(Recognizer):
    DEFAULT_MODE = 0
    MORE = -2
    SKIP = -3
    DEFAULT_TOKEN_CHANNEL = 0
    HIDDEN = 1

    def __init__(self, input, output=None):
        super().__init__()
        self._input = input
        self._output = output


class Parser(Recognizer):
    def __init__(self, input, output=None):
        super().__init__()
        self._input = input
        self._output = output
        self._errHandler = None
        self._ctx = None

    def getTokenStream(self):
        return self._input

    def setTokenStream(self, input):
        self._input = input


class TokenStream:
    pass


class CommonTokenStream(TokenStream):
    def __init__(self, lexer, channel=0):
        self.tokenSource = lexer
        self.index = 0


BufferedTokenStream = CommonTokenStream


class InputStream:
    def __init__(self, data):
        self.name = "<empty>"
        self.strdata = data
        self.index = 0


class FileStream(InputStream):
    def __init__(self, fileName, encoding="ascii", errors="strict"):
        with open(fileName, "rb") as fp:
            super().__init__(fp.read().decode(encoding, errors))
        self.fileName = fileName


class StdinStream(InputStream):
    pass


class ParseTreeListener:
    pass


class ParseTreeVisitor:
    def visit(self, tree):
        return tree.accept(self)

    def visitTerminal(self, node):
        return self.defaultResult()

    def visitErrorNode(self, node):
        return self.defaultResult()

    def defaultResult(self):
        return None

    def aggregateResult(self, aggregate, nextResult):
        return nextResult

    def shouldVisitNextChild(self, node, currentResult):
        return True

    def visitChildren(self, node):
        result = self.defaultResult()
        for i in range(node.getChildCount()):
            if not self.shouldVisitNextChild(node, result):
                return result
            c = node.getChild(i)
            result = self.aggregateResult(result, c.accept(self))
        return result


class ParseTreeWalker:
    pass


class ATN:
    INVALID_ALT_NUMBER = 0

    def __init__(self):
        self.decisionToState = []


class ATNDeserializer:
    def deserialize(self, data):
        return ATN()


class DFA:
    def __init__(self, *args):
        pass


class PredictionContextCache:
    pass


class LexerATNSimulator:
    def __init__(self, *args):
        pass


class ParserATNSimulator:
    def __init__(self, *args):
        pass


class PredictionMode:
    SLL = 0
    LL = 1
