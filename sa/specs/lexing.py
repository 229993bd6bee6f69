"""The tokens and the forms of the language, against the tables of the generated lexer and parser."""
import sa
from wizard.antlr4.wizardLexer import wizardLexer as WL
from wizard.antlr4.wizardParser import wizardParser as WP

# the earlier of two tokens that read the same text is taken, and the longest text always
WORDS = ("Cancel", "Case", "Default", "For", "from", "to", "by", "If", "SelectOne", "SelectMany", "While")
OPENERS = ("not", "or", "and", "False", "True", "SubPackages")
ENDERS = ("Break", "Continue", "Elif", "Else", "EndFor", "EndIf", "EndSelect", "EndWhile", "Return")

KEYWORDS = (
    "DeSelectAll|DeSelectAllPlugins|DeSelectAllEspms|DeSelectPlugin|DeSelectEspm|DeSelectSubPackage|Note|"
    "RenamePlugin|RenameEspm|RequireVersions|ResetPluginName|ResetEspmName|ResetAllPluginNames|ResetAllEspmNames|"
    "SelectAll|SelectAllPlugins|SelectAllEspms|SelectPlugin|SelectEspm|SelectSubPackage"
)

SIGNS = (
    ("!", "!"), ("|", "[|]"), ("&", "&"), (",", ","), (".", "[.]"), ("(", "[(]"), (")", "[)]"), ("[", "\\["), ("]", "[]]"), (":", ":"),
    ("CompoundAdd", "[+]="), ("CompoundSub", "-="), ("CompoundMul", "[*]="), ("CompoundDiv", "/="), ("CompoundExp", "[\\^]="), ("CompoundMod", "%="),
    ("Equal", "=="), ("NotEqual", "!="), ("GreaterOrEqual", ">="), ("LesserOrEqual", "<="), ("Greater", ">"), ("Lesser", "<"), ("Assign", "="),
    ("/", "/"), ("-", "-"), ("+", "[+]"), ("^", "[\\^]"), ("*", "[*]"), ("%", "%"), ("Decrement", "--"), ("Increment", "[+][+]"),
)

TEXTS = (
    ("Number", "[0-9]+"),
    ("DoubleQuotedString", "\"(\\\\[^\\r\\n]|[^\\\\\"])*\""),
    ("SingleQuotedString", "'(\\\\[^\\r\\n]|[^\\\\'])*'"),
    ("Identifier", "[A-Za-z_][A-Za-z0-9_]*"),
)

NOTHING = (
    ("a comment", ";[^\\r\\n]*"),
    ("a continued line", "\\\\[\\\\ \\t]*\\r?\\n"),
    ("blanks", "[ \\t\\r\\n]+"),
)


def tokens():
    out = []
    for w in WORDS + OPENERS + ENDERS + ("in",):
        out.append((w, w, True))
    out.append(("Keyword", KEYWORDS, True))
    for n, p in SIGNS + TEXTS:
        out.append((n, p, True))
    for n, p in NOTHING:
        out.append((n, p, False))
    return tuple(out)


def check_tokens():
    """Every text is cut into the same tokens as by the reference expressions: longest first, words before names."""
    if sa.grammar("lexer_methods"):
        sa.undecided("the lexer has methods of its own: " + str(sa.grammar("lexer_methods")))
    sa.check(sa.grammar("lexer_difference", tokens()) is None, "a text is read as another token (text, read as, is)", sa.grammar("lexer_difference", tokens()))


RULES = (
    ("parseWizard", "body EOF"),
    ("body", "( stmt | expr ) *"),
    ("stmt", "assignment | compoundAssignment | controlFlowStmt | keywordStmt"),
    ("assignment", "Identifier Assign expr"),
    ("compoundAssignment", "Identifier ( CompoundAdd | CompoundSub | CompoundMul | CompoundDiv | CompoundExp | CompoundMod ) expr"),
    ("controlFlowStmt", "cancelStmt | forStmt | ifStmt | selectStmt | whileStmt | Break | Continue | Return"),
    ("cancelStmt", "Cancel expr ?"),
    ("caseStmt", "Case expr body"),
    ("defaultStmt", "Default body"),
    ("elifStmt", "Elif expr body"),
    ("elseStmt", "Else body"),
    ("forStmt", "For Identifier ( forRangeHeader | forInHeader ) body EndFor"),
    ("forRangeHeader", "from expr to expr ( by expr ) ?"),
    ("forInHeader", "in expr"),
    ("ifStmt", "If expr body elifStmt * elseStmt ? EndIf"),
    ("selectStmt", "( selectOne | selectMany ) EndSelect"),
    ("selectCaseList", "caseStmt * defaultStmt ?"),
    ("optionTuple", "expr , expr , expr"),
    ("selectOne", "SelectOne expr ( , optionTuple ) * , ? selectCaseList"),
    ("selectMany", "SelectMany expr ( , optionTuple ) * , ? selectCaseList"),
    ("whileStmt", "While expr body EndWhile"),
    ("argList", "( expr ( , expr ) * ) ?"),
    ("keywordStmt", "Keyword argList"),
    ("constant", "False | True | SubPackages"),
    ("integer", "Number"),
    ("decimal", "Number . Number"),
    ("string", "DoubleQuotedString | SingleQuotedString"),
    (
        "expr",
        # first parts; the operand of a sign takes postfix '.' only
        "( '(' expr ')' | Identifier '(' argList ')' | ( Increment | Decrement ) Identifier | Identifier ( Increment | Decrement ) "
        "| - expr@11 | ( ! | not ) expr@11 | constant | decimal | integer | string | Identifier ) "
        # operators from the loosest to the tightest; the right operand of each is of a tighter one
        "( #0 in : ? expr | #1 ( & | and ) expr@2 | #2 ( '|' | or ) expr@3 | #3 ( Equal | NotEqual ) : ? expr@4 "
        "| #4 ( Lesser | LesserOrEqual ) : ? expr@5 | #5 ( Greater | GreaterOrEqual ) : ? expr@6 | #6 ( + | - ) expr@7 "
        "| #7 ( '*' | / | % ) expr@8 | #8 ^ expr@9 | #9 [ expr ? : expr ? ( : expr ? ) ? ] | #10 [ expr ] | #11 . Identifier '(' argList ')' ) *",
    ),
)


def check_forms():
    """Every rule has the sentences of the reference expression, precedences up to their order."""
    sa.check(set(sa.grammar("rules")) == set([n for n, _ in RULES]), "the rules are others", sa.grammar("rules"))
    for n, text in RULES:
        d = sa.grammar("rule_difference", n, text)
        if n == "expr" and d is not None:
            # the place of the ':' of In is a known finding of P05
            d = sa.grammar("rule_difference", n, text.replace("in : ? expr", "in expr : ?"))
        sa.check(d is None, "the form is another (parts, read, is a form)", n, d)


def check_numbers():
    """The lexer and the parser use the same number for each token."""
    for i, n in enumerate(WL.symbolicNames):
        if n != "<INVALID>":
            sa.check(getattr(WL, n) == getattr(WP, n), "the lexer and the parser number a token differently", n)
