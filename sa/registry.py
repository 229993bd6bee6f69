"""The properties: text, anchors, and the rules that decide them."""

EXPLANATION = (
    "Static analysis of the current source of /repo: the syntax trees of the package are abstractly interpreted "
    "(constants, Herbrand terms, heap objects; one trace partition per undecided condition, value kind and sequence "
    "length), nothing of /repo is imported or executed and no solver is used. On every partition the effects of the "
    "analysed functions (results, errors and their location, state, calls) are compared with the reference semantics "
    "of the rule. Sequences of any length are handled by a cutoff: lengths 0..K are partitions, K is raised around "
    "every integer literal the analysed code compares a length or index with."
)

ASSUMPTIONS = [
    "the models of the Python built-ins and of the standard library in sa/builtins_.py and sa/prelude are faithful",
    "the antlr4 runtime delivers trees of the shapes given by the grammar in wizardParser.serializedATN",
    "code that treats the elements of a sequence one by one, and compares lengths with literals only, behaves for every "
    "length as for the lengths 0..K",
]

PROPERTIES = {}


def P(pid, title, statement, over, quant, why, files, mech, rules, about, level_note=None, na=None, observe=None):
    PROPERTIES[pid] = dict(
        id=pid, title=title, statement=" ".join(statement.split()), over=over, quant=" ".join(quant.split()), why=" ".join(why.split()),
        files=files, mech=mech, rules=rules, about=" ".join(about.split()), level_note=level_note, na=na, observe=observe or [])


EXPR = "src/wizard/expr.py"
VALUE = "src/wizard/value.py"
CTX = "src/wizard/contexts/contexts.py"
KCTX = "src/wizard/contexts/keywords.py"
FAC = "src/wizard/contexts/factory.py"
CUTIL = "src/wizard/contexts/utils.py"
KW = "src/wizard/keywords.py"
FUN = "src/wizard/functions.py"
MAN = "src/wizard/manager.py"
RUN = "src/wizard/runner.py"
STATE = "src/wizard/state.py"
SEV = "src/wizard/severity.py"
TW = "src/wizard/tweaks.py"
ERR = "src/wizard/errors.py"
INT = "src/wizard/interpreter.py"
SCR = "src/wizard/scriptrunner.py"
UT = "src/wizard/utils/__init__.py"
MAP = "src/wizard/utils/mappings.py"
STRAT = "src/wizard/utils/error_strategy.py"
PARSER = "src/wizard/antlr4/wizardParser.py"
LEXER = "src/wizard/antlr4/wizardLexer.py"

# ------------------------------------------------------------------ expressions

P("P01", "Arithmetic operators compute the documented operation",
  """The operators + - * / % ^ and unary minus, and nothing else, yield the sum, concatenation, difference, product, quotient,
  remainder, power and negation of their two operand values, in the order they are written. Each operand is evaluated exactly once,
  the left one first, and the effects of evaluating the left one are seen by the right one.""",
  ["inputs", "programs"], "Every operator of the grammar, every pair of operand values of every type, every nesting of operands.",
  """The tests evaluate a handful of literal expressions; they never combine an operator with operands that have effects, nor every
  operator with every pair of types.""",
  [EXPR, VALUE], [{"name": "operator choice by token", "where": f"{EXPR}: visitTimesDivideModulo, visitPlusMinus, visitExponentiation, visitNegative"},
                  {"name": "operations", "where": f"{VALUE}: Value.__add__ .. __mod__"}],
  [("expr", "check_arithmetic"), ("expr", "check_negative"), ("expr", "check_paren")],
  "binary and unary arithmetic visitors against the reference operators")

P("P02", "Operands of the wrong type are rejected, never coerced",
  """An arithmetic or ordering operator given operands of types it is not defined for fails with a Wizard type error located at the
  expression, and no operator converts between strings and numbers silently. Numbers (including booleans) mix freely with numbers and
  strings only with strings.""",
  ["inputs"], "Every operator with every ordered pair of the seven value types.",
  "The tests try single invalid combinations; the matrix of operators by pairs of types is not enumerated.",
  [VALUE, EXPR], [{"name": "type checks of the operators", "where": f"{VALUE}: Value operators"}, {"name": "TypeError to WizardTypeError", "where": f"{EXPR}: visitExpr"}],
  [("expr", "check_types")], "acceptance matrix operator x type x type")

P("P03", "Logical operators are total, give booleans, evaluate both sides once",
  """And/&, Or/| and Not/! accept operands of any type, use their truth value and always yield a boolean equal to the conjunction,
  disjunction or negation. Both operands are evaluated exactly once, left then right, whatever the left one is.""",
  ["inputs", "programs"], "Every operand type and value, operands with effects.",
  "Tests use boolean literals and a few strings; evaluation of operands with effects and non-boolean results are not observed.",
  [EXPR, VALUE], [{"name": "visitors", "where": f"{EXPR}: visitAnd, visitOr, visitNot"}, {"name": "operators", "where": f"{VALUE}: __and__, __or__, logical_not"}],
  [("expr", "check_logic")], "logical visitors against the truth tables")

P("P04", "Comparisons have the meaning of their operator",
  """==, !=, <, <=, >, >= compare the two operand values with exactly that relation and give a boolean; equality is defined between
  values of all types, a sub-package compared with neither a sub-package nor a string excepted, which is a type error. The ':' form compares the lower-cased strings with the same relation and is rejected with a type error for anything
  but two strings.""",
  ["inputs"], "Every comparison operator with and without ':', every pair of operand values.",
  "Each operator is tested on one or two pairs; boundaries (equal operands) and the ':' form of each operator are sampled.",
  [EXPR, VALUE], [{"name": "operator choice", "where": f"{EXPR}: visitEqual, visitLesser, visitGreater, doCmp"}, {"name": "relations", "where": f"{VALUE}: equals, not_equals, __lt__ .. __ge__"}],
  [("expr", "check_compare"), ("expr", "check_compare_grammar", {"grammar": True})], "comparison visitors against the relations")

P("P05", "'in' decides membership in packages and package lists",
  """'x in c' is true exactly when the string x, or the name of the sub-package x, equals the name of an element of the list of
  sub-packages c or a file of the sub-package c, with letter case ignored when ':' follows 'in'. Any other operand type is a type error, and
  both operands are evaluated exactly once.""",
  ["inputs"], "Containers of any size, any position of the item, any letter case.",
  "Tests use one fixed container and a few items.",
  [EXPR, VALUE], [{"name": "membership", "where": f"{VALUE}: Value.contains"}, {"name": "visitor", "where": f"{EXPR}: visitIn"}],
  [("expr", "check_in"), ("expr", "check_in_grammar", {"grammar": True})], "membership visitor against the reference relation over containers of any length")

P("P06", "Indexing gives the element at that position or an index error",
  """Indexing a string, the name of a sub-package or a list of sub-packages with an integer gives the element at that position, negative
  positions counting from the end. A position out of range is a Wizard index error carrying that position, and any other operand
  type is a type error.""",
  ["inputs"], "Every container and every integer.",
  "Tests index fixed strings with in-range positions.",
  [EXPR, VALUE], [{"name": "indexing", "where": f"{VALUE}: Value.__getitem__"}, {"name": "visitor", "where": f"{EXPR}: visitIndex"}],
  [("expr", "check_index")], "index visitor")

P("P07", "Slices use the bounds where they are written",
  """A slice takes its start, end and step from the expression written at that position, an absent part meaning the default, and applies
  them to a string as documented. Every part present is evaluated exactly once in the order written, a part that is not an integer or a
  sliced value that is not a string is a type error.""",
  ["inputs", "programs"], "Each of the shapes with and without start, end, second colon and step, any values.",
  "Tests sample some shapes with literal bounds.",
  [EXPR, VALUE], [{"name": "location of the bounds among the children", "where": f"{EXPR}: visitSlice"}, {"name": "slicing", "where": f"{VALUE}: Value.slice"}],
  [("expr", "check_slice")], "slice visitor over every shape the grammar allows")

P("P08", "Reading a variable gives its value, or 0 under the severity",
  """Reading a variable that is set gives exactly the value it was last set to and changes nothing. Reading one that is not set is handled
  by the severity of that issue: error, warning or silence, and unless it is an error the value is the integer 0 and the variable stays unset.""",
  ["inputs", "configurations"], "Every variable name, every content of the state, every severity.",
  "Tests set one variable and read one unset variable.",
  [EXPR, SEV], [{"name": "variable lookup", "where": f"{EXPR}: visitValue"}, {"name": "severity", "where": f"{SEV}: raise_or_warn"}],
  [("expr", "check_variable")], "variable reads over opaque states and all severities")

P("P09", "Increment and decrement change the variable by one and give the new value",
  """++x, x++, --x and x-- set the variable to its value plus or minus one and yield the value it then has, touching no other variable.
  A variable that is not set is a name error and a value that is not a number is a type error, in which case nothing is changed.""",
  ["inputs"], "All four forms, every variable name, every value.",
  "Tests check some forms on an integer.",
  [EXPR], [{"name": "increment", "where": f"{EXPR}: _visitIncDec"}],
  [("expr", "check_incdec")], "the four visitors over opaque states")

P("P10", "Literals denote the value they spell",
  """The constants True and False, the list of sub-packages, integer, decimal and (escape-free) string literals evaluate to the value they
  spell, with the type boolean, list of sub-packages, integer, float and string respectively. No literal evaluation changes or reads the
  variables of the script.""",
  ["inputs"], "Every spelling the lexer accepts for each literal; strings without a backslash.",
  "Tests use a few literals of each kind.",
  [EXPR, LEXER], [{"name": "literal visitors", "where": f"{EXPR}: visitConstant, visitInteger, visitDecimal, visitString"}],
  [("expr", "check_literals")], "literal visitors over opaque spellings")

P("P11", "Function calls reach the function of that name, and only those",
  """A call evaluates its arguments exactly once from left to right, then calls the registered function of exactly that name once with
  those values and the current state, and gives its result. A name that is not a function is a name error, as are Exec inside an
  expression and EndExec; the evaluators of the language constructs are not callable from a script.""",
  ["inputs", "programs"], "Every name, every number of arguments, every table of functions.",
  "Tests call a few functions; no test tries the names of internal evaluators or arguments with effects.",
  [EXPR], [{"name": "resolution", "where": f"{EXPR}: visitFunctionCall"}],
  [("expr", "check_call"), ("expr", "check_call_internal")], "call visitor over opaque function tables; every construct name of the grammar as a function name")

P("P12", "Method calls dispatch on the type of the receiver",
  """x.f(args) evaluates x once and then the arguments from left to right, and calls the function registered for the type of x and the
  name f with x as first argument. If there is none for that type the call is a name error for that qualified name and no argument
  is evaluated.""",
  ["inputs", "programs"], "Every receiver type, every name, every number of arguments.",
  "Tests call methods of strings only.",
  [EXPR], [{"name": "resolution", "where": f"{EXPR}: visitDotFunctionCall"}],
  [("expr", "check_dot_call")], "dot-call visitor over opaque tables")

P("P13", "An expression of an expected type has that type or is a type error",
  """Where the interpreter requires a value of a type (loop bounds, select headers, case labels, Exec and Cancel arguments) an
  expression of another type is a type error located at that expression. A value of the required type is passed on unchanged.""",
  ["inputs"], "Every value of every type, for each required type.",
  "Tests have one wrong type per construct.",
  [EXPR], [{"name": "expected type", "where": f"{EXPR}: visitExpr"}],
  [("expr", "check_expected_type")], "visitExpr with every required type on values of any kind")

P("P14", "Errors raised while evaluating become located Wizard errors",
  """A type, index, value or arithmetic error raised by Python code behind an expression or statement reaches the caller as the Wizard type,
  index or value error, located at the innermost expression or statement being evaluated, with the original as its cause and its text (whatever arguments the original was made with). Wizard errors pass
  unchanged with their own location.""",
  ["inputs", "programs"], "Every kind of exception raised at any depth by functions, methods, keywords and statements.",
  "Tests check the class for a few expressions and never the location for functions and keywords.",
  [EXPR, CUTIL, CTX], [{"name": "conversion in expressions", "where": f"{EXPR}: visitExpr"}, {"name": "conversion in statements", "where": f"{CUTIL}: wrap_exceptions"}],
  [("expr", "check_wrap_expr"), ("flow", "check_wrap_exec")], "exceptions of every class raised by an opaque callee")

P("P15", "A broken part of a script is reported only when execution reaches it",
  """A statement or expression the parser could not read raises a parse error located at it when, and only when, it is about to be executed or
  evaluated; what comes before it has its normal effects, and the error tells what the parser found. This holds for conditions, loop headers, select options, cases and arguments.""",
  ["inputs", "programs"], "Every kind of node being broken, in every executed position.",
  "Tests contain a few broken scripts.",
  [EXPR, CTX], [{"name": "check of the node", "where": f"{EXPR}: visitExpr, {CTX}: exec, WizardForLoopContext, parse_select_options"}],
  [("flow", "check_broken_statement"), ("flow", "check_broken_expression_statement"), ("flow", "check_broken_for_header"), ("flow", "check_broken_select"), ("expr", "check_broken_expr")],
  "nodes flagged as broken, in each position of each construct")

# ------------------------------------------------------------------- statements

P("P16", "Assignment stores the value under exactly that name",
  """x = e evaluates e exactly once and then sets x to its value in the state that following statements see, after any effect of
  evaluating e. No other variable changes, and nothing is stored when evaluating e fails.""",
  ["inputs", "programs"], "Every name, every expression including those that change variables, every state.",
  "Tests assign literals.",
  [CTX, STATE], [{"name": "assignment", "where": f"{CTX}: WizardAssignmentContext"}],
  [("flow", "check_assignment")], "assignment step over opaque expression, state and parent")

P("P17", "Compound assignment applies its operator to the current value",
  """x op= e evaluates e once and sets x to (x op e) for += -= *= /= %= ^=, reading x after e was evaluated. An unset x is a name error, a
  type mismatch a type error, and then nothing is stored.""",
  ["inputs", "programs"], "All six operators, every pair of values, expressions that change x.",
  "Tests cover the operators on integers.",
  [CTX, VALUE], [{"name": "compound assignment", "where": f"{CTX}: WizardCompoundAssignmentContext"}],
  [("flow", "check_compound")], "compound-assignment step over all operators and kinds")

P("P18", "Statements of a block run once each, in order, in the current state",
  """The statements of a block are executed exactly once each, in the order written, each starting from the state the previous one left;
  after the last one the enclosing construct continues with the resulting state. An expression statement is evaluated exactly once for
  its effects.""",
  ["inputs", "programs"], "Blocks of any length with any statements, in any enclosing construct.",
  "Tests run scripts of a few lines.",
  [CTX], [{"name": "child index", "where": f"{CTX}: WizardBodyContext"}],
  [("flow", "check_body")], "body step driven through all children, lengths by cutoff")

P("P19", "Every statement of the grammar is dispatched to its meaning",
  """Each statement form of the grammar (assignment, compound assignment, If, For, While, Select, Break, Continue, Cancel, Return, keyword,
  Exec call, other expression) starts the construct of that form on that very part of the script, and no form falls through to a generic error.""",
  ["programs"], "Every statement alternative of the grammar.",
  "Tests do not enumerate the alternatives; a new or swapped branch would be seen only by a script using it.",
  [CTX, FAC, PARSER], [{"name": "dispatch", "where": f"{CTX}: WizardBodyContext.exec_, _make_control_flow_context"}, {"name": "constructors", "where": FAC}],
  [("flow", "check_dispatch"), ("flow", "check_call_statement"), ("flow", "check_dispatch_complete")], "each alternative of the rules body/stmt/controlFlowStmt in the grammar of the parser")

P("P20", "If executes the first block whose condition holds",
  """If/Elif/Else evaluates the conditions in order until one is true and executes exactly the block of that condition, the Else block if none
  is and there is one, and otherwise nothing. Conditions after the first true one are not evaluated, and the chosen block sees the effects of
  the evaluated conditions.""",
  ["inputs", "programs"], "Any number of Elif, with or without Else, conditions of any type with effects.",
  "Tests have one or two Elif with literal conditions.",
  [CTX], [{"name": "block choice", "where": f"{CTX}: WizardIfContext"}],
  [("flow", "check_if")], "If step over any number of Elif")

P("P21", "For visits every value once, in order, bounds inclusive",
  """A For over a range executes its block once for start, start+step, ... up to and including the end (in both directions, the step being 1 by
  default), and a For over a value once per file, sub-package or character, in order, with the variable set to it at each turn. The bounds are
  evaluated once, before the first turn, and a step of zero or a value that cannot be iterated is a Wizard error.""",
  ["inputs", "programs"], "Every start, end and step, every container length, bodies that change the variable or the bounds.",
  "Tests run a few fixed ranges.",
  [CTX], [{"name": "values of the loop", "where": f"{CTX}: WizardForLoopContext"}],
  [("flow", "check_for_range"), ("flow", "check_for_in")], "For loop driven through all its turns")

P("P22", "While runs its block as long as the condition holds",
  """While evaluates its condition once before each turn in the state left by the previous turn, executes the block if it is true and otherwise
  continues after the loop with the effects of evaluating it.""",
  ["inputs", "programs", "histories"], "Any number of turns, conditions with effects.",
  "Tests run one loop with a counter.",
  [CTX], [{"name": "loop", "where": f"{CTX}: WizardWhileLoopContext"}],
  [("flow", "check_while")], "While step and its return from the body")

P("P23", "Break leaves the innermost enclosing loop or select case",
  """Break ends the innermost enclosing For, While or Select case, across any number of enclosing If blocks, and execution continues after it
  with the variables as they are at the Break. Outside of any of them, Break is a parse error located at the statement.""",
  ["programs"], "Every chain of enclosing constructs.",
  "Tests nest one construct.",
  [CTX], [{"name": "search of the breakable construct", "where": f"{CTX}: WizardBreakContext, break_"}],
  [("flow", "check_break", {"K": 3})], "Break step over chains of enclosing constructs of every class")

P("P24", "Continue starts the next turn of the innermost enclosing loop",
  """Continue ends the current turn of the innermost enclosing For or While, across If blocks and Select cases, and the next turn starts with the
  variables as they are at the Continue. Outside of any loop, Continue is a parse error located at the statement.""",
  ["programs"], "Every chain of enclosing constructs.",
  "Tests nest one construct.",
  [CTX], [{"name": "search of the loop", "where": f"{CTX}: WizardContinueContext, continue_"}],
  [("flow", "check_continue", {"K": 3})], "Continue step over chains of enclosing constructs of every class")

P("P25", "Select offers exactly the options written, with their defaults",
  """A Select evaluates its description and the three strings of each option once, in order, and offers exactly these options: name without
  the leading '|', description, and image unless it is blank. The defaults are the options marked '|', for SelectOne the first option if none
  is marked and only the first marked one, under the severity, if several are.""",
  ["inputs", "programs", "configurations"], "Any number of options, any marks, SelectOne and SelectMany, all severities.",
  "Tests have a few selects with fixed options.",
  [CTX, MAN], [{"name": "options", "where": f"{CTX}: parse_select_options, WizardSelectOneContext, WizardSelectManyContext"}],
  [("select", "check_options_one"), ("select", "check_options_many")], "constructor of the select contexts over opaque option strings")

P("P26", "Selecting options changes the selection of a copy only",
  """Selecting options gives a select whose cases run for exactly the given options, the original one keeping its own selection; without any
  selection the defaults are used. The cases then start from the state after the header was evaluated.""",
  ["inputs", "histories"], "Every select, every list of options, repeated selections from the same select.",
  "Tests select once and go on.",
  [CTX], [{"name": "selection", "where": f"{CTX}: WizardSelectContext._select, exec_"}],
  [("select", "check_select")], "select/exec over opaque options; the original is compared before and after")

P("P27", "Cases run for selected options, fall through to Break, then Default",
  """After a selection the cases are visited in order and a case runs exactly when its label equals the name of a selected option or the previous
  executed case did not end with Break; Default runs, at most once and last, when no case ran or by falling through. SelectOne stops after
  the first matched case that ended with Break, SelectMany goes on with the next cases.""",
  ["inputs", "programs", "histories"], "Any number of cases and selected options, any labels, every pattern of Break.",
  "Tests have a few cases; the product of matching, Break pattern, kind of select and Default is not covered.",
  [CTX], [{"name": "case state", "where": f"{CTX}: WizardSelectCasesContext"}],
  [("select", "check_cases")], "case machine driven to its end, any labels, Break or not after each case")

P("P28", "Exec runs the given script in place with the current variables",
  """Exec(s) evaluates s exactly once and runs the text as a script in place of the statement: it starts from the current variables including the
  effects of evaluating s, and the statement after the Exec sees its results. A wrong number of arguments or a type other than string is a type
  error, and a script that cannot be parsed is reported at the Exec call.""",
  ["inputs", "programs"], "Every argument, every script text, any nesting of constructs around and inside.",
  "Tests run one Exec.",
  [CTX, UT], [{"name": "exec context", "where": f"{CTX}: WizardExecContext, WizardTopLevelContext"}],
  [("flow", "check_exec"), ("flow", "check_top_level")], "Exec step with the parser replaced by an opaque tree")

P("P29", "A script ends as complete, cancelled with its message, or returned",
  """Execution ends in a termination that is exactly one of complete, cancel and return: return after Return, cancel after Cancel, with the message
  given as a string or none, and complete at the end of the script. Statements after Cancel or Return are not executed.""",
  ["programs"], "Every way to reach the end, at every nesting depth, with and without message.",
  "Tests have one script per kind.",
  [CTX, FAC], [{"name": "termination", "where": f"{CTX}: WizardTerminationContext, WizardCancelContext, WizardReturnContext"}],
  [("flow", "check_termination"), ("flow", "check_cancel"), ("flow", "check_body_end")], "termination contexts over every class of parent")

P("P30", "Executing from a context never changes it (rewind)",
  """Executing, selecting, breaking or continuing from a point of the execution does not change that point nor any earlier one: executing again
  from it gives the same result. Every state seen by a later point is independent of the earlier ones.""",
  ["histories"], "Every construct, every state, any number of executions from the same point.",
  "One test rewinds one script to one select.",
  [CTX, FAC, STATE, KCTX], [{"name": "copies", "where": f"{FAC}: copy_context, copy_parent; {STATE}: copy"}],
  [("flow", "check_if", {"cats": ["rewind"]}),
   ("flow", "check_for_range", {"cats": ["rewind"]}),
   ("flow", "check_for_in", {"cats": ["rewind"]}),
   ("flow", "check_while", {"cats": ["rewind"]}),
   ("flow", "check_break", {"cats": ["rewind"]}),
   ("flow", "check_continue", {"cats": ["rewind"]}),
   ("flow", "check_body", {"cats": ["rewind"]}),
   ("flow", "check_assignment", {"cats": ["rewind"]}),
   ("flow", "check_compound", {"cats": ["rewind"]}),
   ("flow", "check_exec", {"cats": ["rewind"]}),
   ("flow", "check_top_level", {"cats": ["rewind"]}),
   ("flow", "check_termination", {"cats": ["rewind"]}),
   ("flow", "check_cancel", {"cats": ["rewind"]}),
   ("flow", "check_body_end", {"cats": ["rewind"]}),
   ("select", "check_cases", {"cats": ["rewind"]}),
   ("select", "check_select", {"cats": ["rewind"]}),
   ("keywords", "check_args", {"cats": ["rewind"]}),
   ("keywords", "check_note", {"cats": ["rewind"]}),
   ("keywords", "check_require", {"cats": ["rewind"]})], "every step of the flow, select and keyword rules: the executed context and its ancestors are compared before and after, and it is executed again")

P("P31", "exec_until stops at the first target or at the end",
  """exec_until executes step by step and gives the first point reached, the starting point included, that is one of the target kinds or the end of
  the script, never executing that point. Errors of a step are passed on.""",
  ["histories"], "Every sequence of executed constructs, every set of targets.",
  "Tests use one target kind.",
  [INT], [{"name": "loop", "where": f"{INT}: exec_until"}],
  [("flow", "check_exec_until")], "exec_until over opaque steps")

# ---------------------------------------------------------- functions, keywords

P("P32", "Registered functions check number and type of arguments",
  """A function wrapped for scripts is called exactly when the number of arguments is within what it declares and each argument has the
  declared type, with the arguments given, in order and unchanged, optional ones at the end being left out; otherwise the call is a type
  error and the function is not called. Extra arguments of a variadic function have the type of the last declared one, and a
  function without result gives Void.""",
  ["inputs", "configurations"], "Every declaration (required, optional, variadic, raw) and every list of argument values.",
  "Tests call some built-in functions; declarations and argument lists are not varied.",
  [FUN], [{"name": "wrapper", "where": f"{FUN}: wrap_function"}],
  [("functions", "check_wrap")], "wrap_function over declarations and argument lists")

P("P33", "Built-in functions have their documented results on every type",
  """str, int, float, len, startswith, endswith, lower, find and rfind accept values of any type and give the documented result, with the
  documented neutral result for values they do not apply to. They are available under these names, as methods of strings, and str as a method
  of integers, floats and booleans.""",
  ["inputs"], "Every function, every type of each argument, every optional argument present or not.",
  "Tests use one or two calls per function, mostly with strings.",
  [FUN], [{"name": "functions", "where": f"{FUN}: WizardFunctions"}, {"name": "table", "where": f"{FUN}: make_basic_functions"}],
  [("functions", "check_basic_table"), ("functions", "check_conversions"), ("functions", "check_strings"), ("functions", "check_find")], "the table of basic functions called with values of every kind")

P("P34", "Manager functions call the manager's method of that meaning",
  """Each game or file function of a script calls exactly the method of the mod manager that the name stands for, once, with the given arguments
  in order, and gives its result; an omitted fallback is left to the manager.""",
  ["inputs"], "Every manager function, every argument list.",
  "Tests stub the manager for a few of them.",
  [FUN, MAN], [{"name": "table", "where": f"{FUN}: make_manager_functions"}],
  [("functions", "check_manager")], "the table of manager functions with an opaque manager")

P("P35", "EditINI and DisableINILine record exactly the requested tweak",
  """EditINI and DisableINILine add one tweak with the given file, section, setting, value and comment at the end of the modified or disabled
  settings of the current state, leave all others as they are, and give Void.""",
  ["inputs", "histories"], "All arguments, any tweaks recorded before.",
  "Tests record one or two tweaks.",
  [RUN, TW, EXPR], [{"name": "INI functions", "where": f"{RUN}: visitEditINI, visitDisableINILine"}],
  [("runner", "check_ini")], "calls by name through the runner's expression visitor over opaque tweaks")

P("P36", "Every keyword of the language reaches its own handler",
  """Each keyword the lexer recognises, the Espm aliases included, runs the handler of that keyword and of no other, with its arguments in order,
  on the current state; the enclosing construct continues with the state the handler leaves.""",
  ["programs"], "Every keyword spelling of the lexer.",
  "Tests use part of the keywords and aliases.",
  [KCTX, KW, LEXER], [{"name": "dispatch", "where": f"{KCTX}: make_keyword_context"}],
  [("keywords", "check_dispatch"), ("keywords", "check_complete")], "every spelling of the Keyword token decoded from the lexer tables")

P("P37", "Keywords take the declared number of arguments, evaluated once",
  """A keyword evaluates its arguments once, from left to right, before its handler sees them, and the handler sees the effects of evaluating them.
  Too few or too many arguments are a type error and the handler is not called; omitted optional arguments are none.""",
  ["inputs", "programs"], "Every keyword, every number of arguments, arguments with effects.",
  "Tests call keywords with the right number of literals.",
  [KCTX], [{"name": "arguments", "where": f"{KCTX}: _get_args, exec_"}],
  [("keywords", "check_args")], "keyword step for any number of opaque arguments")

P("P38", "RequireVersions passes on the versions it was given",
  """RequireVersions gives the handler, the user interface and its properties the versions in the order written, an empty or omitted optional
  version being none. The arguments are evaluated once when the statement is reached, however often it is inspected or executed.""",
  ["inputs", "histories"], "1 to 4 arguments, empty or not, repeated executions.",
  "Tests check one call.",
  [KCTX, SCR], [{"name": "context", "where": f"{KCTX}: WizardRequireVersionsContext"}, {"name": "user interface", "where": f"{SCR}: visitRequireVersions"}],
  [("keywords", "check_require")], "RequireVersions context with opaque arguments")

P("P39", "Note records the text, other types under the severity",
  """Note adds its text at the end of the notes. A value of another type is handled by the severity of that issue: an error leaves the notes
  unchanged, otherwise its text form is added (with a warning if so configured).""",
  ["inputs", "configurations", "histories"], "Values of every type, every severity, any notes before.",
  "Tests note one string and one number.",
  [KCTX, RUN, SEV], [{"name": "Note", "where": f"{KCTX}: WizardNoteContext; {RUN}: visitNote"}],
  [("keywords", "check_note")], "Note step over all kinds and severities")

# ----------------------------------------------------------------------- runner

P("P40", "Selecting a sub-package adds it and its plugins, once each",
  """SelectSubPackage adds the available sub-package of that name, whatever the letter case, to the selection, and each of its plugins to the selected
  plugins, nothing being added twice and nothing else changing. DeSelectSubPackage removes exactly that sub-package if it is selected, and nothing else.""",
  ["inputs", "histories"], "Any available sub-packages and files, any current selection, any letter case of the name.",
  "Tests select known packages from an empty selection.",
  [RUN, VALUE], [{"name": "selection", "where": f"{RUN}: visitSelectSubPackage, visitDeSelectSubPackage"}],
  [("runner", "check_select_subpackage"), ("runner", "check_deselect_subpackage")], "handlers over opaque packages and selections")

P("P41", "Selecting a plugin changes exactly that plugin",
  """SelectPlugin adds the available plugin of that name, whatever the letter case, to the selected plugins unless it is there, under its original
  spelling. DeSelectPlugin removes it if it is selected; nothing else changes.""",
  ["inputs", "histories"], "Any available plugins, any selection, any letter case.",
  "Tests select one plugin from an empty selection.",
  [RUN], [{"name": "selection", "where": f"{RUN}: visitSelectPlugin, visitDeSelectPlugin"}],
  [("runner", "check_select_plugin"), ("runner", "check_deselect_plugin"), ("runner", "check_available_plugins")], "handlers over opaque plugins and selections")

P("P42", "SelectAll and DeSelectAll act on the whole selection",
  """SelectAll selects every available sub-package and every plugin of them, SelectAllPlugins makes the selected plugins exactly those of the selected sub-packages, each once;
  DeSelectAll empties both selections and DeSelectAllPlugins the plugins only. The available packages are never changed by later selections.""",
  ["histories"], "Any available packages, any current selection, followed by any selection change.",
  "Tests apply each once.",
  [RUN], [{"name": "selection", "where": f"{RUN}: visitSelectAll .. visitDeSelectAllPlugins"}],
  [("runner", "check_select_all"), ("runner", "check_select_all_plugins"), ("runner", "check_deselect_all")], "handlers over opaque packages, with a following change (aliasing)")

P("P43", "A missing sub-package or plugin is handled by its severity only",
  """Selecting a sub-package or plugin that does not exist leaves the selection unchanged, and is an error naming it, a warning or nothing as the
  severity of that issue says.""",
  ["inputs", "configurations"], "Every name that is not available, all severities.",
  "Tests try one missing name.",
  [RUN, SEV], [{"name": "severity", "where": f"{RUN}: visitSelectPlugin, visitSelectSubPackage"}],
  [("runner", "check_missing")], "handlers with names different from all available ones")

P("P44", "Renames map each plugin to its latest new name",
  """RenamePlugin maps the plugin, whatever the letter case, to the new name, replacing an earlier one; ResetPluginName removes that mapping if there
  is one, ResetAllPluginNames all of them. Other mappings and the selection do not change.""",
  ["inputs", "histories"], "Any renames before, any names and letter cases.",
  "Tests rename once.",
  [RUN, VALUE], [{"name": "renames", "where": f"{RUN}: visitRenamePlugin, visitResetPluginName, visitResetAllPluginNames"}],
  [("runner", "check_renames")], "handlers over opaque renames")

P("P45", "Copies of a state are complete and independent",
  """A copy of an interpreter or runner state has the same variables, sub-packages, plugins, renames, tweaks and notes and is of the same kind, and changing any
  of them in the copy never changes the original, nor the other way round.""",
  ["histories"], "Any content, every way the interpreter changes a state.",
  "Tests copy once and change a variable.",
  [STATE, RUN], [{"name": "copy", "where": f"{STATE}: copy; {RUN}: WizardRunnerState.copy"}],
  [("runner", "check_state_copy")], "copy of an opaque state, then every mutation on one side")

P("P46", "Selections are presented sorted, whatever the letter case, complete",
  """The sub-packages and plugins of a state are presented in case-insensitive alphabetical order, each selected one exactly once; looking at them
  changes nothing. Notes are presented in the order they were written.""",
  ["inputs", "histories"], "Any selection in any order.",
  "Tests have selections of two or three names.",
  [RUN, VALUE], [{"name": "views", "where": f"{RUN}: subpackages, plugins, notes"}],
  [("runner", "check_views")], "views over opaque selections")

P("P47", "Names of packages and plugins compare ignoring letter case",
  """Sub-packages and plugins compare equal, ordered and hashed by their name ignoring letter case, with each other and with strings, and
  keep the spelling they were created with. Comparing them with anything else is a type error.""",
  ["inputs"], "Every pair of names, every comparison.",
  "Tests compare a few names.",
  [VALUE], [{"name": "comparisons", "where": f"{VALUE}: CaseFoldNamedObject"}],
  [("runner", "check_names")], "comparisons and hash on opaque names")

P("P48", "The plugins of a sub-package are its .esp, .esm and .esl files",
  """A file is a plugin exactly when its name ends with .esp, .esm or .esl in any letter case, and the plugins of a sub-package are the names, without directories,
  of its files that are plugins, in order.""",
  ["inputs"], "Any list of files.",
  "Tests use a fixed list of files.",
  [VALUE], [{"name": "plugin detection", "where": f"{VALUE}: SubPackage.is_plugin, plugins"}],
  [("runner", "check_plugins")], "plugin detection on opaque file names")

P("P49", "Severities decide per issue and per interpreter",
  """An issue raises its error, warns once or passes silently as set for that issue in that severity context, else as the default severity, which is a warning unless
  set. Setting a severity never changes another issue or another context.""",
  ["configurations", "histories"], "Every issue, every severity, any sequence of settings, several contexts.",
  "Tests set one severity on one context.",
  [SEV], [{"name": "severity table", "where": f"{SEV}: SeverityContext"}],
  [("runner", "check_severity")], "two contexts, any settings, any issue")

P("P50", "INI tweaks are listed by file, ignoring letter case",
  """The files of the tweaks are the files of all recorded tweaks, each once ignoring letter case, sorted; the tweaks of a file are its modified then its disabled
  settings, in recording order, and the object is true exactly when there is a tweak.""",
  ["inputs", "histories"], "Any recorded tweaks, any letter case of the file.",
  "Tests record three tweaks.",
  [TW], [{"name": "views", "where": f"{TW}: WizardINITweaks"}],
  [("runner", "check_tweaks_files"), ("runner", "check_tweaks_views")], "views over any recorded tweaks")

P("P51", "Stacked mappings behave as the union with deletions and overrides",
  """A stacked mapping answers as a mapping holding its own items over those of its parent, less the deleted ones: lookup, membership, iteration and length agree,
  writing and deleting never change the parent, and deleting or reading a missing key is a key error.""",
  ["histories"], "Any sequence of writes and deletions on both levels, any keys.",
  "Tests run one sequence.",
  [MAP], [{"name": "mapping", "where": f"{MAP}: StackMutableMapping"}],
  [("mapping", "check_mapping")], "sequences of operations on parent and child, against a reference dictionary")

P("P52", "Select options are equal exactly when all their parts are",
  """Two select options are equal exactly when name, description and image are equal, and differ from anything that is not an option; the parts are
  those given when it was created.""",
  ["inputs"], "Every pair of options.",
  "Tests compare fixed options.",
  [MAN], [{"name": "equality", "where": f"{MAN}: SelectOption"}],
  [("runner", "check_option_eq")], "equality of options with opaque parts")

# --------------------------------------------------------------- script runner

P("P53", "run() reports how the script ended, with the final state",
  """run() executes the script to its end and gives the status cancel, return, complete or error that corresponds to how it ended, with the state at that
  point, having told the user interface (cancel, complete or error) exactly once, with the error in the last case, whatever the runner ran before. An error while executing is never raised to the caller unless the
  user interface does.""",
  ["programs", "histories"], "Every sequence of steps, every kind of end, errors at every step.",
  "Tests run one script per status.",
  [SCR], [{"name": "loop", "where": f"{SCR}: run"}],
  [("scriptrunner", "check_run_end"), ("scriptrunner", "check_run_again")], "run() over opaque steps of any outcome")

P("P54", "Selections go through the user interface and are applied",
  """At each select the user interface is asked exactly once, with the description, options and default(s) of that select, and execution continues with
  exactly the options it gives.""",
  ["inputs", "histories"], "Every select reached, every answer.",
  "Tests answer with the default.",
  [SCR], [{"name": "selection", "where": f"{SCR}: run"}],
  [("scriptrunner", "check_run_select")], "run() stopped at selects of both kinds")

P("P55", "abort() and rewind() work from every callback",
  """Calling rewind(c) in any callback continues the execution from c, and calling abort() asks cancel() and ends with the status cancel unless it
  says to continue, in which case the interrupted step is executed again. Neither is ever reported as an error.""",
  ["histories"], "Every callback, at every step, repeated.",
  "Tests abort in one callback.",
  [SCR], [{"name": "flow exceptions", "where": f"{SCR}: abort, rewind, run"}],
  [("scriptrunner", "check_run_flow", {"KT": 2})], "run() with callbacks raising each flow exception")

P("P56", "A refused Cancel or Return continues after the statement",
  """When the callback refuses the end at a Cancel or Return, execution continues with the statement after it with the current state; at the end of the script there
  is nothing left and the run is complete.""",
  ["programs", "histories"], "Every position of the statement, any number of refusals.",
  "No test refuses.",
  [SCR], [{"name": "continuation", "where": f"{SCR}: run"}],
  [("scriptrunner", "check_run_refuse")], "run() with refusing callbacks on terminations of every kind")

P("P57", "The script is read the same from text, file, stream or bytes",
  """A script given as a string, a text stream, a byte stream, a path or a parser input stream is parsed as the same text, bytes being decoded with the detected encoding
  or UTF-8 when none is detected. Parsing uses the recovering strategy, prints nothing to the console and reports failures of the parser as Wizard errors, unless the caller asked for the errors as
  they are; scripts loaded earlier make no difference.""",
  ["inputs"], "Every kind of input, any content.",
  "Tests use strings and one file.",
  [UT], [{"name": "loading", "where": f"{UT}: make_parse_wizard_context"}],
  [("loading", "check_loading"), ("loading", "check_top_level_errors"), ("loading", "check_loading_twice")], "loader with an opaque lexer/parser and chardet")

P("P58", "Error recovery closes each block with the tokens of the grammar",
  """After a syntax error inside a block the parser resumes at one of the tokens that end or split an enclosing block in the grammar, for every enclosing
  block, and consumes the closing token exactly when it closes the broken block; the broken construct is marked with the error. An error outside of any block, or where nothing
  can be skipped, uses the default recovery.""",
  ["programs", "inputs"], "Every nesting of blocks, every token at the error.",
  "Tests contain a few broken scripts.",
  [STRAT, PARSER], [{"name": "recovery tables", "where": f"{STRAT}: WizardErrorStrategy"}],
  [("recovery", "check_recovery_set"), ("recovery", "check_recover"), ("recovery", "check_block_tokens", {"grammar": True})], "recovery over chains of enclosing rules; tokens compared with the grammar tables")

P("P59", "Default factories wire the given parts together",
  """The basic and runner factories and the script runner use the given sub-packages, severity context and manager in every part, and make the built-in functions (and for
  the runner the manager functions) available; RequireVersions reaches the user interface of the script runner, and a run without a state starts from an empty one.""",
  ["configurations"], "Every sub-packages, severity and manager objects.",
  "Tests use the defaults only.",
  [UT, SCR], [{"name": "factories", "where": f"{UT}: make_basic_context_factory, make_runner_context_factory; {SCR}: WizardScriptRunner.__init__"}],
  [("loading", "check_factories"), ("loading", "check_runner_init"), ("loading", "check_requires_versions"), ("loading", "check_top_level_state")], "factories on opaque parts")

P("P60", "Wizard errors tell where and what",
  """A Wizard error gives the line and column at which the construct it is about starts, -1 when there is none, and name, index and package errors give the name or
  index they are about.""",
  ["inputs"], "Every error class, with and without location.",
  "Tests check the position for one error.",
  [ERR], [{"name": "location", "where": f"{ERR}: WizardError"}],
  [("runner", "check_errors")], "constructors and properties of every error class")

P("P61", "The value of an expression depends on the expression and the state only",
  """Evaluating an expression gives the same value, effects and errors whatever was evaluated before with the same interpreter, the same expression on another state
  included, and however deep inside of other expressions and in whatever statement it stands.""",
  ["histories"], "Every form of expression, every pair of states.",
  "Tests evaluate each expression once.",
  [EXPR], [{"name": "evaluation", "where": f"{EXPR}: WizardExpressionVisitor"}],
  [("expr", "check_repeat"), ("expr", "check_place")], "two evaluations with one visitor against one with a fresh visitor, and one inside of other expressions against one that stands alone")

P("P62", "Values behave as the Python value they hold",
  """A value made from a Python value holds it, has the type scripts know it under and the name of that type, is as true as it and iterates as it; two values are
  equal exactly when they have the same type and hold equal Python values, and a value equals a plain Python value on the same terms; None and nothing else is
  taken for void.""",
  ["inputs"], "Every value of every type of scripts, every pair of them.",
  "Tests compare a few constants.",
  ["src/wizard/value.py"], [{"name": "values", "where": "src/wizard/value.py: Value"}],
  [("pyvalue", "check_wraps"), ("pyvalue", "check_equal"), ("pyvalue", "check_iterate")], "every pair of types of values")

P("P63", "The parser reads every form of the language into its own node",
  """Whatever the parts are, each rule of the parser reads a sentence of the grammar tables it carries exactly, part by part and in order, with operators applied at
  the precedence of the tables, refuses a token that cannot come next, and gives one node of the class of that form (expressions: per operator; control flow: per
  statement), attached to its parent once, that gives each part under its name and number and is visited under the name of its form.""",
  ["inputs", "programs"], "Every rule, every sentence of a rule up to two turns of each of its loops, every token that may come next, every wrong token.",
  "Tests parse a few scripts.",
  ["src/wizard/antlr4/wizardParser.py", "src/wizard/antlr4/wizardVisitor.py"],
  [{"name": "rules", "where": "src/wizard/antlr4/wizardParser.py: wizardParser"}, {"name": "visitor", "where": "src/wizard/antlr4/wizardVisitor.py: wizardVisitor"}],
  [("parsing", "check_rules", {"sentences": True}), ("parsing", "check_expressions", {"sentences": True}), ("parsing", "check_chains", {"sentences": True}), ("parsing", "check_refusal", {"sentences": True}), ("parsing", "check_tables", {"grammar": True})],
  "each rule function of the parser in step with the automaton of its grammar tables, calls to other rules taken as read")

P("P64", "The text of an error tells where and what",
  """The text of every Wizard error is the line and column it is at followed by its message; the message is the given text (or the text of the given error), names the index, name,
  sub-package, plugin or operation it is about, and for a syntax error gives the input that could not be read or the token found and the tokens expected, with line
  breaks and tabs shown as escapes, whatever the kind of the token found.""",
  ["inputs"], "Every error class, every kind of syntax error, with and without location, token and token text.",
  "Tests do not read texts.",
  [ERR], [{"name": "text", "where": f"{ERR}: WizardError.message, WizardError.__str__"}],
  [("errors", "check_text"), ("errors", "check_recognition")], "constructors and text of every error class")

P("P65", "A script is cut into the tokens of the language",
  """Whatever the text, it is cut into the same tokens as by the token definitions of the language: the longest text first, words of the language (with exactly
  their letter case) before names, strings in either quotes up to the quote that is not escaped and over lines, numbers, the signs; comments up to the end of
  their line, blanks and line continuations give nothing. The parser knows each token under the number the lexer gives it.""",
  ["inputs"], "Every text over all Unicode characters.",
  "Tests parse a few scripts.",
  [LEXER], [{"name": "tables", "where": f"{LEXER}: serializedATN"}, {"name": "numbers", "where": f"{LEXER}: wizardLexer"}],
  [("lexing", "check_tokens", {"grammar": True}), ("lexing", "check_numbers", {"grammar": True})], "the automaton of the lexer's tables against the reference expressions: equivalence of the determinised automata, with priorities")

P("P66", "The forms of the language are those of the parser's tables",
  """Each rule of the tables the parser carries has exactly the sentences of the documented form (statements, blocks, clauses, options, arguments, expressions),
  and the operators bind as documented: in, and, or, equality, less, greater, sums, products, powers, slices, indices, methods, from the loosest to the tightest, each
  grouping to the left, signs and not applying to the operand with its methods only. (The place of the colon of In is a known finding of P05.)""",
  ["inputs", "programs"], "Every sentence of every rule, of any length.",
  "Tests parse a few scripts.",
  [PARSER], [{"name": "tables", "where": f"{PARSER}: serializedATN"}],
  [("lexing", "check_forms", {"grammar": True})], "the automaton of each rule of the parser's tables against a reference expression over tokens, rules and precedences: equivalence of the determinised automata")

# -------------------------------------------------------------- not applicable

NA = [
    P("P90", "Every script terminates or keeps making progress",
      "The execution of a script that does not loop forever by itself terminates, and each step of the interpreter terminates.",
      ["programs"], "All scripts.", "Termination is not observable by tests.", [CTX], [{"name": "steps", "where": CTX}], [],
      "none", na="While loops of a script may run forever by design, so termination quantifies over runtime values no static argument bounds; that a step does not "
      "re-execute the same point is part of the claimed control-flow properties."),
    P("P91", "The parser builds the tree the language definition gives",
      "Every script of the language is parsed into the tree of its structure, with the documented precedence of the operators.",
      ["programs"], "All scripts.", "Tests parse a few scripts.", [PARSER, LEXER], [{"name": "ATN", "where": f"{PARSER}: serializedATN"}], [],
      "none", na="The tables are interpreted by the ALL(*) algorithm of the antlr4 runtime, which is outside the repository; which tree it "
      "gives for a whole script (ambiguities, prediction, error repair) is a property of that algorithm and of two context-free grammars (undecidable in general). What is decidable is claimed: "
      "the tokens (P65), the sentences and precedences of each rule of the tables (P66), and that the code of each rule follows the tables (P63)."),
    P("P92", "Floating-point results are the IEEE results",
      "Arithmetic on floats gives the correctly rounded result.", ["inputs"], "All floats.", "Tests sample.", [VALUE],
      [{"name": "operators", "where": VALUE}], [], "none",
      na="Decided by the Python runtime, not by the shape of this code; the claimed property (P01) is that the operator of the language is the operator applied."),
    P("P93", "The detected encoding of a script file is its encoding",
      "A script file in any encoding is decoded to the text its author wrote.", ["inputs"], "All files.", "Tests use one encoding.", [UT],
      [{"name": "chardet", "where": UT}], [], "none",
      na="Detection is a statistical guess of the chardet library; only the use made of its answer is in this code (P57)."),
    P("P94", "String escape sequences denote the documented characters",
      "Each escape sequence in a string literal denotes the documented character and unknown ones lose their backslash.", ["inputs"], "All strings.",
      "Tests sample escapes.", [EXPR], [{"name": "visitString", "where": EXPR}], [], "none",
      na="The decoding is a composition of a regular expression with look-behind and the unicode_escape codec over the characters of the literal: a question about string "
      "functions that needs running or solving them; strings without a backslash are covered by P10."),
    P("P95", "Error messages describe the error",
      "The text of every error describes its cause in terms of the script.", ["inputs"], "All errors.", "Tests do not read texts.", [ERR],
      [{"name": "messages", "where": ERR}], [], "none", na="The meaning of a text for a reader is not a property of the program's shape; what the texts are made of is claimed as P64."),
]
