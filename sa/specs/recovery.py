"""Recovery from syntax errors."""
import sa
from spec_h import *
from wizard.utils.error_strategy import WizardErrorStrategy
from antlr4.error.Errors import InputMismatchException

# rule -> tokens at which the parser resumes after an error in it; the closing token of the rule
TABLE = {
    "ifStmt": (("Elif", "Else", "EndIf"), "EndIf"),
    "elifStmt": (("Elif", "Else", "EndIf"), None),
    "elseStmt": (("EndIf",), None),
    "forStmt": (("EndFor",), "EndFor"),
    "whileStmt": (("EndWhile",), "EndWhile"),
    "selectStmt": (("EndSelect",), "EndSelect"),
    "caseStmt": (("Break",), None),
    "defaultStmt": (("Break",), None),
}
TOKENS = ("Elif", "Else", "EndIf", "EndFor", "EndWhile", "EndSelect", "Break")
OTHER = ("Identifier", "If", "Case", "Continue", "Return")


def rule_classes():
    """The classes of the contexts of the parser, and their rules."""
    out = []
    for r in sa.grammar("rules"):
        out.append((r, getattr(WP, r[0].upper() + r[1:] + "Context")))
    return out


def check_block_tokens():
    """The table of the property is the one of the grammar."""
    for rule, (tokens, close) in TABLE.items():
        ends = sa.grammar("ends_with", rule)
        if close is not None:
            sa.check(ends == (close,), "the grammar ends the block with another token", rule, ends)
        after, end = sa.grammar("after", rule, "body")
        for t in after:
            sa.check(t in tokens, "the grammar has another token after the body of", rule, t)
        for t in tokens:
            if t != "Break" and close is not None and rule != "selectStmt":
                sa.check(t in after, "the grammar does not have the token after the body of", rule, t)
    after, end = sa.grammar("after", "ifStmt", "elifStmt")
    for t in ("Elif", "Else", "EndIf"):
        sa.check(t in after, "the grammar does not allow the token after an Elif", t)
    sa.check(sa.grammar("after", "ifStmt", "elseStmt") == (("EndIf",), False), "the grammar allows more than EndIf after an Else")


class Tokens:
    def __init__(self, kinds):
        self.kinds = kinds
        self.index = 0

    def at(self, i):
        p = self.index + i
        return self.kinds[p] if p < len(self.kinds) else -1

    def LA(self, i):
        return self.at(i - 1) if i > 0 else self.at(i)

    def LT(self, i):
        return sa.memo(("token", self.index + i - 1), make_token, self.LA(i), self.index + i - 1)

    def get(self, i):
        return sa.memo(("token", i), make_token, self.kinds[i] if i < len(self.kinds) else -1, i)

    def consume(self):
        if self.index >= len(self.kinds):
            sa.check(False, "the end of the script is consumed")
        self.index += 1


def make_token(kind, i):
    t = sa.new(Token, type=kind, text="token", line=1, column=i)
    t.label__ = "token " + str(i)
    t.tokenIndex = i
    return t


class TestParser(WP):
    __identity__ = True

    def consume(self):
        t = self._input.LT(1)
        self._input.consume()
        return t

    def getCurrentToken(self):
        return self._input.LT(1)

    def getInputStream(self):
        return self._input

    def match(self, ttype):
        if self._input.LA(1) != ttype:
            raise InputMismatchException(self)
        return self.consume()


def broken(chain, kinds):
    """A parser at an error inside the rules of the chain (innermost first)."""
    p = sa.new(TestParser)
    ctx = sa.node(WP.ParseWizardContext, "script")
    ctx.invokingState = -1
    classes = dict(rule_classes())
    for i, rule in enumerate(reversed(chain)):
        c = sa.node(classes[rule], rule + str(i))
        c.parentCtx = ctx
        c.invokingState = sa.memo(("invoked", i), sa.choose, 1, "invoked") if i == 0 else 7
        ctx = c
    p._ctx = ctx
    p._input = Tokens(kinds)
    p.state = 42
    p._errHandler = WizardErrorStrategy()
    return p


def reference(chain, names):
    """(number of tokens consumed, default recovery)"""
    resume = set()
    for rule in chain:
        if rule in TABLE:
            for t in TABLE[rule][0]:
                resume.add(t)
    n = 0
    if resume:
        while n < len(names) and names[n] not in resume:
            n += 1
    if n == 0:
        return 0, True
    if chain and chain[0] in TABLE and TABLE[chain[0]][1] is not None and n < len(names) and names[n] == TABLE[chain[0]][1]:
        n += 1
    return n, False


def recovery(chain, names):
    p = broken(chain, [token_type(n) for n in names])
    e = sa.new(InputMismatchException)
    e.label__ = "error"
    ctx = p._ctx
    before = sa.mark()
    t = p._errHandler.recover(p, e)
    n, default = reference(chain, names)
    events = sa.event_names()[before:]
    sa.check(p._input.index == n, "the parser resumes at another token", chain, names, p._input.index, n)
    sa.check(("default-recover" in events) == default, "the default recovery is used exactly when nothing is skipped", chain, names, events)
    sa.check(ctx.exception is e, "the broken construct is not marked", chain)
    sa.check(p._ctx is ctx and p.state == 42, "recovering changes the position in the grammar", chain)
    c = ctx.parentCtx
    while c is not None:
        sa.check(c.exception is None, "recovering marks an enclosing construct", chain)
        c = c.parentCtx


def rules():
    return [r for r in sa.grammar("rules") if r != "parseWizard"]


def check_recovery_set():
    """Where the parser resumes, for every chain of enclosing rules."""
    n = sa.length("number of enclosing rules")
    chain = []
    for i in range(n):
        chain.append(sa.one_of(list(TABLE) + ["body"] if i else rules(), "rule " + str(i)))
    recovery(chain, ["Identifier", sa.one_of(TOKENS + OTHER, "token")])


def check_recover():
    """Where the parser resumes, for any tokens after the error."""
    rule = sa.one_of(rules(), "rule")
    n = sa.choose(sa.K() + 2, "number of tokens")
    words = [t for t in TABLE.get(rule, ((), None))[0]] + ["EndFor", "Identifier"]
    names = [sa.one_of(words, "token " + str(i)) for i in range(n)]
    recovery([rule, "body"] + sa.one_of([[], ["forStmt"]], "enclosing block"), names)
