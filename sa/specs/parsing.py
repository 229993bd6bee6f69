"""The generated parser against the grammar tables it carries: one rule at a time, calls to other rules taken as read."""
import sa
from spec_h import *
from antlr4 import ParseTreeVisitor
from antlr4.error.Errors import InputMismatchException, NoViableAltException, RecognitionException
from wizard.antlr4.wizardVisitor import wizardVisitor

RULES = sa.grammar("rules")

# the form of an expression: its tokens and operands -> class of its node
PRIMARY = {
    ("LeftParenthesis", "expr", "RightParenthesis"): "ParenExpr",
    ("Identifier", "LeftParenthesis", "argList", "RightParenthesis"): "FunctionCall",
    ("Increment", "Identifier"): "PreIncrement",
    ("Identifier", "Increment"): "PostIncrement",
    ("Decrement", "Identifier"): "PreDecrement",
    ("Identifier", "Decrement"): "PostDecrement",
    ("Minus", "expr"): "Negative",
    ("!", "expr"): "Not",
    ("not", "expr"): "Not",
    ("constant",): "Value",
    ("decimal",): "Value",
    ("integer",): "Value",
    ("string",): "Value",
    ("Identifier",): "Value",
}
BINARY = {
    ("Raise",): "Exponentiation",
    ("Times",): "TimesDivideModulo", ("Divide",): "TimesDivideModulo", ("Modulo",): "TimesDivideModulo",
    ("Plus",): "PlusMinus", ("Minus",): "PlusMinus",
    ("Greater",): "Greater", ("GreaterOrEqual",): "Greater",
    ("Lesser",): "Lesser", ("LesserOrEqual",): "Lesser",
    ("Equal",): "Equal", ("NotEqual",): "Equal",
    ("or",): "Or", ("|",): "Or",
    ("and",): "And", ("&",): "And",
    ("In",): "In",
    ("Dot",): "DotFunctionCall",
    ("LeftBracket",): "Index",
}
CONTROL = {
    ("Break",): "Break", ("cancelStmt",): "Cancel", ("Continue",): "Continue", ("forStmt",): "For", ("ifStmt",): "If",
    ("Return",): "Return", ("selectStmt",): "Select", ("whileStmt",): "While",
}


def class_of_rule(rule):
    return getattr(WP, rule[0].upper() + rule[1:] + "Context")


def symbol_name(sym):
    """Name of a token (symbolic, or its text) or of a rule."""
    if sym[1] is not None:
        return sym[0]
    if sym[0] == -1:
        return "EOF"
    n = WP.symbolicNames[sym[0]]
    return n if n != "<INVALID>" else WP.literalNames[sym[0]]


WRONG = (-7, None)


class Script:
    """The tokens ahead: those of a sentence of one rule, then whatever may follow it."""

    def __init__(self, rule, prec, word, wrong):
        self.rule = rule
        self.prec = prec
        self.word = word
        self.wrong = wrong
        self.position = 0

    def type_at(self, p):
        return sa.memo(("type of token", p), self.choose_type, p)

    def choose_type(self, p):
        if p >= len(self.word):
            return sa.any_of(sa.grammar("follow", self.rule), "token after the sentence")
        sym = self.word[p]
        if sym == WRONG:
            return sa.any_of(self.wrong, "wrong token")
        if sym[1] is None:
            return sym[0]
        types, empty = sa.grammar("first", sym[0])
        types = list(types)
        if empty:
            # nothing at all, and what comes next
            if sa.one_of((True, False), "part " + str(p) + " is empty"):
                return self.type_at(p + 1)
        return sa.any_of(types, "first token of part " + str(p))

    def LA(self, i):
        if i == 1:
            return self.type_at(self.position)
        return sa.memo(("type of token", self.position, i), sa.sym, "token type", "int")

    def LT(self, i):
        return sa.memo(("token", self.position + i), make_token, self.position + i)


def make_token(i):
    t = sa.new(Token, text="token", line=1, column=i)
    t.label__ = "token " + str(i)
    return t


class Strategy:
    def __init__(self, parser):
        self.parser = parser

    def sync(self, p):
        p.at_state("waits")

    def reportMatch(self, p):
        pass

    def recoverInline(self, p):
        raise InputMismatchException(p)

    def reportError(self, p, e):
        p.errors.append(e)

    def recover(self, p, e):
        pass


class Prediction:
    def __init__(self, parser):
        self.parser = parser

    def adaptivePredict(self, stream, decision, ctx):
        p = self.parser
        s = p._input
        sa.check(stream is s and ctx is p._ctx, "the parser predicts for something else", p.rule)
        p.at_state("predicts")
        rest = [x for x in s.word[s.position:] if x != WRONG]
        alts = sa.grammar("alternatives", p.rule, p.prec, s.word[:s.position], rest, decision, p.whole)
        sa.check(alts is not None, "the parser predicts at another decision than the one it is at", p.rule, decision, s.word[:s.position])
        if not alts:
            raise NoViableAltException(p)
        return sa.one_of(alts, "alternative of decision " + str(decision))


class Parser(WP):
    __identity__ = True

    def at_state(self, what):
        s = self._input
        sa.check(sa.grammar("at", self.rule, self.prec, s.word[:s.position], self.state), "the parser " + what + " in a state it is not in",
                 self.rule, self.state, s.word[:s.position])

    def leaves(self, sym):
        s = self._input
        sa.check(sa.grammar("leaves_with", self.rule, self.prec, s.word[:s.position], self.state, sym),
                 "the parser reads a part in a state that does not have it", self.rule, self.state, sym)

    def enterRule(self, ctx, state, index):
        self.entered.append(index)
        sa.check(index == RULES.index(self.rule) and state == sa.grammar("start", self.rule), "the parser enters another rule", self.rule, index, state)
        sa.check(ctx.invokingState == self.state, "a node is invoked from another state", self.rule)
        self.state = state
        self._ctx = ctx
        ctx.start = self._input.LT(1)
        ctx.parentCtx.addChild(ctx)

    def enterRecursionRule(self, ctx, state, index, precedence):
        self.entered.append(index)
        sa.check(index == RULES.index(self.rule) and state == sa.grammar("start", self.rule), "the parser enters another rule", self.rule, index, state)
        sa.check(precedence == self.prec, "the rule is entered with another precedence", precedence)
        self.precedence = precedence
        self.state = state
        self._ctx = ctx
        ctx.start = self._input.LT(1)

    def pushNewRecursionContext(self, ctx, state, index):
        sa.check(index == RULES.index(self.rule) and state == sa.grammar("start", self.rule), "the parser continues another rule", self.rule, index, state)
        previous = self._ctx
        previous.parentCtx = ctx
        previous.invokingState = state
        previous.stop = self._input.LT(-1)
        self._ctx = ctx
        ctx.start = previous.start
        ctx.addChild(previous)

    def unrollRecursionContexts(self, parent):
        self.exited = self.exited + 1
        self._ctx.stop = self._input.LT(-1)
        ctx = self._ctx
        self._ctx = parent
        ctx.parentCtx = parent
        parent.addChild(ctx)

    def exitRule(self):
        self.exited = self.exited + 1
        self._ctx.stop = self._input.LT(-1)
        self.state = self._ctx.invokingState
        self._ctx = self._ctx.parentCtx

    def enterOuterAlt(self, ctx, n):
        if self._ctx is not ctx:
            self._ctx.parentCtx.removeLastChild()
            self._ctx.parentCtx.addChild(ctx)
        self._ctx = ctx

    def triggerExitRuleEvent(self):
        pass

    def precpred(self, ctx, n):
        sa.check(ctx is self._ctx, "the precedence of something else")
        return n >= self.precedence

    def match(self, kind):
        if self._input.LA(1) != kind:
            raise InputMismatchException(self)
        return self.consume()

    def consume(self):
        s = self._input
        if s.position >= len(s.word) or s.word[s.position][1] is not None:
            self.wrong("reads a token where the grammar has none")
            raise InputMismatchException(self)
        self.leaves(s.word[s.position])
        t = s.LT(1)
        kind = s.LA(1)
        s.position += 1
        n = tok(kind, "token", "part " + str(s.position))
        n.parentCtx = self._ctx
        self._ctx.addChild(n)
        self.parts.append(n)
        return t

    def wrong(self, what):
        sa.check(not self.whole, "the parser " + what, self.rule, self._input.word[:self._input.position], self._input.word[self._input.position:])

    def read(self, rule, prec):
        s = self._input
        if s.position >= len(s.word) or s.word[s.position] != (rule, prec):
            self.wrong("reads a " + rule + " where the grammar has none")
            raise InputMismatchException(self)
        self.leaves((rule, prec))
        s.position += 1
        n = sa.node(class_of_rule(rule), "part " + str(s.position))
        n.parentCtx = self._ctx
        self._ctx.addChild(n)
        self.parts.append(n)
        return n


def reader(p, rule):
    if rule == "expr":
        return lambda prec=0: p.read("expr", prec)
    return lambda: p.read(rule, 0)


def parse(rule, prec, word, wrong=()):
    p = sa.new(Parser)
    p.rule = rule
    p.prec = prec
    p.whole = not wrong
    p.entered = []
    p.exited = 0
    p.errors = []
    p.parts = []
    p._parseListeners = None
    p._input = Script(rule, prec, word, wrong)
    p._errHandler = Strategy(p)
    p._interp = Prediction(p)
    p._predicates = None
    p.state = 5
    outer = sa.node(WP.ParseWizardContext, "outer")
    p._ctx = outer
    real = getattr(p, rule)
    for r in RULES:
        setattr(p, r, reader(p, r))
    ctx = real(prec) if rule == "expr" else real()
    sa.check(len(p.entered) == 1 and p.exited == 1, "a rule is entered and left once", rule)
    sa.check(p._ctx is outer and ctx.parentCtx is outer and (rule == "expr" or p.state == 5), "the parser leaves a rule somewhere else", rule)
    sa.check([c for c in outer.getChildren()] == [ctx], "a node is not part of its parent, once", rule)
    return p, ctx


def flat(ctx, parts):
    """The parts of a node in the order they are written."""
    out = []
    for c in ctx.getChildren():
        if any(c is x for x in parts):
            out.append(c)
        else:
            sa.check(c.parentCtx is ctx, "a node has another parent", c)
            out += flat(c, parts)
    return out


def accessors(ctx, names):
    """The node gives its parts under their names, all and only those."""
    kids = [c for c in ctx.getChildren()]
    for name, t in names:
        f = getattr(ctx, name, None)
        if f is None:
            continue
        mine = [c for c in kids if is_part(c, t)]
        got = f()
        if isinstance(got, list):
            sa.check(len(got) == len(mine) and all(a is b for a, b in zip(got, mine)), "a node does not have the parts of that name", ctx, name)
            for i, c in enumerate(mine):
                sa.check(f(i) is c, "a node does not have the part of that name and number", ctx, name, i)
        elif got is None:
            sa.check(not mine, "a node does not have the part of that name", ctx, name)
        else:
            sa.check(len(mine) == 1 and got is mine[0], "a node has another part of that name", ctx, name)


def is_part(c, t):
    if isinstance(t, int):
        return isinstance(c, TerminalNode) and c.symbol.type == t
    return isinstance(c, t)


def all_names():
    out = [("EOF", -1)]
    for i, n in enumerate(WP.symbolicNames):
        if n != "<INVALID>":
            out.append((n, i))
    for r in RULES:
        out.append((r, class_of_rule(r)))
    return out


def named_parts(ctx):
    """Every part of a node that has a name is reached under it."""
    for c in ctx.getChildren():
        if isinstance(c, TerminalNode):
            t = c.symbol.type
            n = "EOF" if t == -1 else WP.symbolicNames[t]
            if n == "<INVALID>":
                continue
        else:
            n = RULES[c.getRuleIndex()]
        sa.check(getattr(ctx, n, None) is not None, "a node has a part it does not give", ctx, n)


class Visitor(wizardVisitor):
    def __init__(self):
        self.others = []

    def visitChildren(self, ctx):
        self.others.append(ctx)
        return "children"


def dispatch(ctx, label):
    v = Visitor()
    sa.check(ctx.accept(v) == "children" and v.others == [ctx], "a node is not visited as its children by default", label)
    v = Visitor()
    setattr(v, "visit" + label, lambda c: ("own", c))
    sa.check(ctx.accept(v) == ("own", ctx) and not v.others, "a node is visited as another form", label)


def expected_class(rule, parts):
    """Class of the node of a sentence: one per rule, or per form for expressions and control flow."""
    names = tuple([symbol_name(s) for s in parts])
    if rule == "controlFlowStmt":
        return CONTROL[tuple([n.strip("'") for n in names])] + "Context"
    return class_of_rule(rule).__name__


def expression_classes(word):
    """Class names of the nodes of an expression, outermost first."""
    names = [symbol_name(s).strip("'") for s in word]
    out = []
    for k in sorted(PRIMARY, key=len, reverse=True):
        if tuple(names[:len(k)]) == k:
            out.append(PRIMARY[k] + "Context")
            names = names[len(k):]
            break
    while names:
        if names[0] == "LeftBracket" and "Colon" in names[:names.index("RightBracket")]:
            out.append("SliceContext")
        else:
            out.append(BINARY[(names[0],)] + "Context")
        close = {"Dot": "RightParenthesis", "LeftBracket": "RightBracket"}.get(names[0])
        if close is not None:
            names = names[names.index(close) + 1:]
        else:
            op = names[0]
            names = names[names.index("expr") + 1:]
            if op == "In" and names[:1] == ["Colon"]:
                names = names[1:]
    return out[::-1]


def tree(rule, prec, words):
    word = sa.one_of(words, "sentence of " + rule)
    p, ctx = parse(rule, prec, word)
    sa.check(not p.errors and ctx.exception is None, "the parser refuses a sentence of the grammar", rule, word, p._input.position)
    sa.check(p._input.position == len(word), "the parser does not read the whole sentence", rule, word, p._input.position)
    parts = flat(ctx, p.parts)
    sa.check(len(parts) == len(p.parts) and all(a is b for a, b in zip(parts, p.parts)), "the parts of a node are not in the order written", rule, word)
    classes = expression_classes(word) if rule == "expr" else [expected_class(rule, word)]
    node = ctx
    for i, name in enumerate(classes):
        sa.check(type(node).__name__ == name, "a form is read as another one", rule, word, type(node).__name__, name)
        sa.check(node.getRuleIndex() == RULES.index(rule), "a node belongs to another rule", rule)
        named_parts(node)
        accessors(node, all_names())
        dispatch(node, name[:-len("Context")])
        if i + 1 < len(classes):
            sa.check(node.getChildCount() > 0, "an operator has no left operand", rule, word)
            node = node.getChild(0)


def check_rules():
    rule = sa.one_of([r for r in RULES if r != "expr"], "rule")
    tree(rule, 0, sa.grammar("sentences", rule, 0, sa.option("turns", 3)))


def check_expressions():
    prec = sa.one_of(sa.grammar("precedences"), "precedence")
    tree("expr", prec, sa.grammar("sentences", "expr", prec, 2))


def check_chains():
    """Two operators after one another, on a variable."""
    words = [w for w in sa.grammar("chains", 2 if sa.option("tier") == "thorough" else 1) if len(w) > 1]
    tree("expr", 0, words)


def check_refusal():
    """A token that cannot come next is never read."""
    rule = sa.one_of(RULES, "rule")
    prec = sa.one_of(sa.grammar("precedences"), "precedence") if rule == "expr" else 0
    words = sa.grammar("prefixes", rule, prec)
    word = sa.one_of(words, "beginning of a " + rule)
    expected, end = sa.grammar("expected", rule, prec, word)
    bad = [t for t in range(1, sa.grammar("token_count")) if t not in expected]
    p, ctx = parse(rule, prec, word + (WRONG,), bad)
    sa.check(p._input.position <= len(word), "the parser reads a token the grammar does not have there", rule, word)
    sa.check(ctx.exception is not None and p.errors or end and p._input.position == len(word), "the parser goes on without a part of the rule", rule, word)


def check_tables():
    """Names, numbers and precedences used by the parser are those of the tables."""
    for i, n in enumerate(WP.symbolicNames):
        if n != "<INVALID>":
            sa.check(getattr(WP, n) == i, "a token has another number", n)
    for i, n in enumerate(WP.ruleNames):
        sa.check(getattr(WP, "RULE_" + n) == i, "a rule has another number", n)
    sa.check(WP.EOF == -1, "the end has another number")
