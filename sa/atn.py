"""The grammar of the language, read from the tables of the generated lexer and parser (never executed).

The ATN is decoded from the integer list returned by serializedATN() in the syntax tree of the source; the rules
ask it which tokens and rules may follow one another.
"""
import ast
import os
from functools import lru_cache

from .core import Undecided

EPSILON, RANGE, RULE, PREDICATE, ATOM, ACTION, SET, NOT_SET, WILDCARD, PRECEDENCE = range(1, 11)


class Atn:
    pass


def strings(node):
    return [e.value for e in node.elts]


@lru_cache(None)
def source(which):
    from . import interp

    p = os.path.join(interp.SRCROOT[0], "wizard", "antlr4", which + ".py")
    with open(p, encoding="utf-8") as fp:
        return ast.parse(fp.read())


@lru_cache(None)
def load(which):
    t = source(which)
    data = None
    cls = None
    for n in t.body:
        if isinstance(n, ast.FunctionDef) and n.name == "serializedATN":
            data = ast.literal_eval(n.body[-1].value)
        if isinstance(n, ast.ClassDef) and n.name == which:
            cls = n
    if data is None or cls is None:
        raise Undecided("no serialized ATN in " + which)
    a = decode(data)
    for n in cls.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if n.targets[0].id in ("literalNames", "symbolicNames", "ruleNames"):
                setattr(a, n.targets[0].id, strings(n.value))
    a.cls = cls
    return a


def decode(data):
    a = Atn()
    pos = [0]

    def rd():
        v = data[pos[0]]
        pos[0] += 1
        return v

    if rd() != 4:
        raise Undecided("unknown version of the serialized ATN")
    a.lexer = rd() == 0
    rd()
    a.states = []
    for _ in range(rd()):
        st = rd()
        if st == 0:
            a.states.append(None)
            continue
        rule = rd()
        extra = rd() if st in (12, 3, 4, 5) else None
        a.states.append((st, rule, extra))
    a.lazy = [rd() for _ in range(rd())]
    for _ in range(rd()):
        rd()
    nrules = rd()
    a.start, a.toktype = [], []
    for _ in range(nrules):
        a.start.append(rd())
        if a.lexer:
            a.toktype.append(rd())
    a.modes = [rd() for _ in range(rd())]
    sets = []
    for _ in range(rd()):
        n = rd()
        eof = rd()
        s = set()
        for _ in range(n):
            lo, hi = rd(), rd()
            s.add((lo, hi))
        if eof:
            s.add((-1, -1))
        sets.append(frozenset(s))
    a.edges = {}
    a.acts = []
    for _ in range(rd()):
        src, trg, ty, a1, a2, a3 = rd(), rd(), rd(), rd(), rd(), rd()
        if ty == RULE:
            e = ("rule", a2, a1, trg, a3)
        elif ty == ATOM:
            e = ("set", frozenset([(-1, -1)] if a3 else [(a1, a1)]), trg)
        elif ty == RANGE:
            e = ("set", frozenset([(-1 if a3 else a1, a2)]), trg)
        elif ty == SET:
            e = ("set", sets[a1], trg)
        elif ty in (NOT_SET, WILDCARD):
            e = ("not", sets[a1] if ty == NOT_SET else frozenset(), trg)
        elif ty == PRECEDENCE:
            e = ("prec", a1, trg)
        elif ty == ACTION:
            e = ("eps", None, trg)
            a.acts.append((a1, a2))
        elif ty == PREDICATE:
            raise Undecided("a predicate in the tables")
        else:
            e = ("eps", None, trg)
        a.edges.setdefault(src, []).append(e)
    a.decisions = [rd() for _ in range(rd())]
    a.actions = [(rd(), rd(), rd()) for _ in range(rd())] if a.lexer else []
    # the edges the deserializer adds: block end -> loop, ...  (block starts of loops)
    a.stop = {}
    for i, s in enumerate(a.states):
        if s is not None and s[0] == 7:
            a.stop[s[1]] = i
    return a


def symbol_types(a, s):
    out = []
    for lo, hi in s:
        out.extend(range(lo, hi + 1))
    return out


def token_name(t):
    a = load("wizardParser")
    if t == -1:
        return "EOF"
    if t < len(a.literalNames) and a.literalNames[t] != "<INVALID>":
        return a.literalNames[t].strip("'")
    return a.symbolicNames[t]


def targets(e):
    return e[3] if e[0] == "rule" else e[2]


def rule_index(name):
    return load("wizardParser").ruleNames.index(name)


def inner(rule):
    """The edges of a parser rule: (source, edge)."""
    a = load("wizardParser")
    r = rule_index(rule)
    seen, todo, out = set(), [a.start[r]], []
    while todo:
        s = todo.pop()
        if s in seen or s == a.stop[r]:
            continue
        seen.add(s)
        for e in a.edges.get(s, ()):
            out.append((s, e))
            todo.append(targets(e))
    return out


# ---------------------------------------------------------------------- queries


def q_rule_refs(rule):
    a = load("wizardParser")
    return tuple(sorted({a.ruleNames[e[1]] for _, e in inner(rule) if e[0] == "rule"}))


def q_rule_of(cls):
    a = load("wizardParser")
    for n in a.cls.body:
        if isinstance(n, ast.ClassDef) and n.name == cls:
            for m in n.body:
                if isinstance(m, ast.FunctionDef) and m.name == "getRuleIndex":
                    return m.body[0].value.attr[5:]
            b = n.bases[0]
            return q_rule_of(b.id if isinstance(b, ast.Name) else b.attr)
    return None


def match(rule, word):
    """Positions after which a prefix of the word (token names, rule names) is a sentence of the rule."""
    a = load("wizardParser")
    r = rule_index(rule)
    level = {a.start[r]}
    out = []
    for w in list(word) + [None]:
        todo, seen = list(level), set(level)
        while todo:
            s = todo.pop()
            for e in a.edges.get(s, ()) if s != a.stop[r] else ():
                if e[0] in ("eps", "prec") and e[2] not in seen:
                    seen.add(e[2])
                    todo.append(e[2])
        if w is None:
            return a.stop[r] in seen
        nxt = set()
        for s in seen:
            for e in a.edges.get(s, ()) if s != a.stop[r] else ():
                if e[0] == "rule" and a.ruleNames[e[1]] == w:
                    nxt.add(e[3])
                elif e[0] == "set" and any(token_name(t) == w for t in symbol_types(a, e[1])):
                    nxt.add(e[2])
        level = nxt
    return out


def q_accepts(rule, word):
    return bool(match(rule, word))


def nullable(rule, busy=()):
    a = load("wizardParser")
    r = rule_index(rule)
    todo, seen = [a.start[r]], {a.start[r]}
    while todo:
        s = todo.pop()
        if s == a.stop[r]:
            return True
        for e in a.edges.get(s, ()):
            t = None
            if e[0] in ("eps", "prec"):
                t = e[2]
            elif e[0] == "rule" and a.ruleNames[e[1]] not in busy and nullable(a.ruleNames[e[1]], busy + (rule,)):
                t = e[3]
            if t is not None and t not in seen:
                seen.add(t)
                todo.append(t)
    return False


def first_from(state, rule, seen=None):
    """Tokens that may come first from a state of a rule, and whether the end of the rule may be reached."""
    a = load("wizardParser")
    r = rule_index(rule)
    seen = {state} if seen is None else seen
    todo, out, end = [state], set(), False
    vis = {state}
    while todo:
        s = todo.pop()
        if s == a.stop[r]:
            end = True
            continue
        for e in a.edges.get(s, ()):
            t = None
            if e[0] in ("eps", "prec"):
                t = e[2]
            elif e[0] == "rule":
                n = a.ruleNames[e[1]]
                if (n,) not in seen:
                    f, _ = first_from(a.start[e[1]], n, seen | {(n,)})
                    out |= f
                if nullable(n):
                    t = e[3]
            elif e[0] == "set":
                out |= {token_name(x) for x in symbol_types(a, e[1])}
            if t is not None and t not in vis:
                vis.add(t)
                todo.append(t)
    return out, end


def q_after(rule, name):
    """Tokens that may follow the sub-rule `name` inside `rule`; whether the rule may end there."""
    out, end = set(), False
    for _, e in inner(rule):
        if e[0] == "rule" and load("wizardParser").ruleNames[e[1]] == name:
            f, z = first_from(e[3], rule)
            out |= f
            end = end or z
    return (tuple(sorted(out)), end)


def q_rules():
    return tuple(load("wizardParser").ruleNames)


def q_ends_with(rule):
    """Tokens that end every sentence of a rule (the last edge consumed), None among them when it is a sub-rule."""
    a = load("wizardParser")
    r = rule_index(rule)
    # states from which the end is reachable without consuming anything
    good = {a.stop[r]}
    edges = inner(rule)
    change = True
    while change:
        change = False
        for s, e in edges:
            if s not in good and e[0] in ("eps", "prec") and e[2] in good:
                good.add(s)
                change = True
    out = set()
    for s, e in edges:
        if e[0] == "set" and e[2] in good:
            out |= {token_name(x) for x in symbol_types(a, e[1])}
        if e[0] == "rule" and e[3] in good:
            out.add(None)
    if a.start[r] in good:
        out.add(None)
    return tuple(sorted(out, key=str))


def q_token_words(name, limit=400):
    """The finite language of a token of the lexer."""
    a = load("wizardLexer")
    r = a.ruleNames.index(name)
    out = set()
    # path: (state, call stack, text)
    todo = [(a.start[r], (), "", 0)]
    while todo:
        s, stack, text, eps = todo.pop()
        if len(text) > 40 or eps > 60 or len(out) > limit:
            raise Undecided("the token " + name + " has too many spellings")
        if a.states[s][0] == 7:
            if stack:
                todo.append((stack[-1], stack[:-1], text, eps + 1))
            else:
                out.add(text)
            continue
        for e in a.edges.get(s, ()):
            if e[0] in ("eps", "prec"):
                todo.append((e[2], stack, text, eps + 1))
            elif e[0] == "rule":
                todo.append((e[2], stack + (e[3],), text, eps + 1))
            elif e[0] == "set":
                for c in symbol_types(a, e[1]):
                    todo.append((e[2], stack, text + chr(c), 0))
            else:
                raise Undecided("the token " + name + " has infinitely many spellings")
    return tuple(sorted(out))


def q_token_accepts(name, text):
    """Does the token rule of the lexer accept the text?"""
    a = load("wizardLexer")
    r = a.ruleNames.index(name)
    level = {(a.start[r], ())}

    def closure(level):
        todo, seen = list(level), set(level)
        while todo:
            s, stack = todo.pop()
            nxt = []
            if a.states[s][0] == 7:
                if stack:
                    nxt.append((stack[-1], stack[:-1]))
            else:
                for e in a.edges.get(s, ()):
                    if e[0] in ("eps", "prec"):
                        nxt.append((e[2], stack))
                    elif e[0] == "rule":
                        nxt.append((e[2], stack + (e[3],)))
            for x in nxt:
                if x not in seen and len(x[1]) < 20:
                    seen.add(x)
                    todo.append(x)
        return seen

    for c in text:
        nxt = set()
        for s, stack in closure(level):
            if a.states[s][0] == 7:
                continue
            for e in a.edges.get(s, ()):
                if e[0] == "set" and any(lo <= ord(c) <= hi for lo, hi in e[1]):
                    nxt.add((e[2], stack))
                elif e[0] == "not" and not any(lo <= ord(c) <= hi for lo, hi in e[1]):
                    nxt.add((e[2], stack))
        level = nxt
    return any(a.states[s][0] == 7 and not stack for s, stack in closure(level))


def q_operators():
    """The operator alternatives of expr: (tokens, precedence of the alternative, precedence of the right operand or -1)."""
    a = load("wizardParser")
    table = {}
    for n in a.cls.body:
        if isinstance(n, ast.FunctionDef) and n.name == "expr_sempred":
            for i in ast.walk(n):
                if isinstance(i, ast.If) and isinstance(i.test, ast.Compare):
                    table[i.test.comparators[0].value] = i.body[0].value.args[1].value
    out = []
    for s, e in inner("expr"):
        if e[0] != "prec":
            continue
        # tokens then operand
        level, toks = {e[2]}, []
        todo, seen = [e[2]], {e[2]}
        t1, nxt = set(), set()
        while todo:
            x = todo.pop()
            for f in a.edges.get(x, ()):
                if f[0] in ("eps", "prec") and f[2] not in seen:
                    seen.add(f[2])
                    todo.append(f[2])
                elif f[0] == "set":
                    t1 |= {token_name(q) for q in symbol_types(a, f[1])}
                    nxt.add(f[2])
        right = set()
        todo, seen = list(nxt), set(nxt)
        while todo:
            x = todo.pop()
            for f in a.edges.get(x, ()):
                if f[0] in ("eps", "prec") and f[2] not in seen:
                    seen.add(f[2])
                    todo.append(f[2])
                elif f[0] == "rule" and a.ruleNames[f[1]] == "expr":
                    right.add(f[4])
                elif f[0] == "set" and f[2] not in seen:
                    seen.add(f[2])
                    todo.append(f[2])
        out.append((tuple(sorted(t1)), e[1], tuple(sorted(right))))
    out.sort(key=lambda x: -x[1])
    return tuple(out), tuple(sorted(table.items()))


def q_prefix_operators():
    """Alternatives of expr that start with tokens and end with expr: (tokens, precedence of the operand)."""
    a = load("wizardParser")
    out = []
    for s, e in inner("expr"):
        if e[0] == "rule" and a.ruleNames[e[1]] == "expr":
            # tokens on the edges into s through epsilon
            back = {s}
            change = True
            toks = set()
            edges = inner("expr")
            while change:
                change = False
                for x, f in edges:
                    if f[0] in ("eps", "prec") and f[2] in back and x not in back:
                        back.add(x)
                        change = True
            for x, f in edges:
                if f[0] == "set" and f[2] in back:
                    toks |= {token_name(q) for q in symbol_types(a, f[1])}
            out.append((tuple(sorted(toks)), e[4]))
    return tuple(sorted(out))


# ------------------------------------------------------------- sentences of a rule


def enter(a, states, prec, stop):
    """The states reachable without consuming anything, under a precedence."""
    todo, seen = list(states), set(states)
    while todo:
        s = todo.pop()
        if s == stop:
            continue
        for e in a.edges.get(s, ()):
            if e[0] == "eps" or e[0] == "prec" and e[1] >= prec:
                if e[2] not in seen:
                    seen.add(e[2])
                    todo.append(e[2])
    return seen


def symbols(a, e):
    if e[0] == "rule":
        return [(a.ruleNames[e[1]], max(e[4], 0))]
    if e[0] == "set":
        return [(t, None) for t in symbol_types(a, e[1])]
    return []


def step(a, states, prec, stop, sym):
    out = set()
    for s in enter(a, states, prec, stop):
        if s != stop:
            for e in a.edges.get(s, ()):
                if sym in symbols(a, e):
                    out.add(targets(e))
    return out


@lru_cache(None)
def q_sentences(rule, prec, turns, width=None):
    """The sentences of a rule as (symbol, precedence or None for a token); a state is passed at most `turns` times."""
    a = load("wizardParser")
    r = rule_index(rule)
    stop = a.stop[r]
    out = {}

    def go(state, word, count):
        if state == stop:
            out[word] = True
            return
        if count.get(state, 0) >= turns:
            return
        count = dict(count)
        count[state] = count.get(state, 0) + 1
        for e in a.edges.get(state, ()):
            if e[0] == "eps" or e[0] == "prec" and e[1] >= prec:
                go(e[2], word, count)
            else:
                for sym in symbols(a, e):
                    go(targets(e), word + (sym,), count)

    go(a.start[r], (), {})
    return tuple(sorted(out, key=lambda w: (len(w), repr(w))))


def q_precedences():
    """Every precedence the rule expr is called with."""
    a = load("wizardParser")
    out = {0}
    for es in a.edges.values():
        for e in es:
            if e[0] == "rule" and a.ruleNames[e[1]] == "expr":
                out.add(max(e[4], 0))
    return tuple(sorted(out))


def q_first(rule):
    """Types of the tokens a sentence of the rule may start with, and whether it may be empty."""
    a = load("wizardParser")
    f, _ = first_types(a.start[rule_index(rule)], rule_index(rule), frozenset())
    return tuple(sorted(f)), nullable(rule)


def first_types(state, r, seen):
    a = load("wizardParser")
    out, end = set(), False
    for s in enter(a, {state}, 0, a.stop[r]):
        if s == a.stop[r]:
            end = True
            continue
        for e in a.edges.get(s, ()):
            if e[0] == "set":
                out |= set(symbol_types(a, e[1]))
            elif e[0] == "rule":
                if e[1] not in seen:
                    out |= first_types(a.start[e[1]], e[1], seen | {e[1]})[0]
                if nullable(a.ruleNames[e[1]]):
                    f, z = first_types(e[3], r, seen)
                    out |= f
                    end = end or z
    return out, end


@lru_cache(None)
def follow_sets():
    a = load("wizardParser")
    fol = {n: set() for n in a.ruleNames}
    change = True
    while change:
        change = False
        for rule in a.ruleNames:
            for _, e in inner(rule):
                if e[0] == "rule":
                    f, end = first_types(e[3], rule_index(rule), frozenset())
                    new = f | (fol[rule] if end else set())
                    n = a.ruleNames[e[1]]
                    if not new <= fol[n]:
                        fol[n] |= new
                        change = True
    fol["parseWizard"].add(-1)
    return fol


def q_follow(rule):
    return tuple(sorted(follow_sets()[rule]))


def run_word(rule, prec, word, states=None):
    a = load("wizardParser")
    r = rule_index(rule)
    states = {a.start[r]} if states is None else states
    for sym in word:
        states = step(a, states, prec, a.stop[r], tuple(sym))
    return states


def q_at(rule, prec, word, state):
    """May the parser be in the state after the word (a prefix of a sentence of the rule)?"""
    a = load("wizardParser")
    return state in enter(a, run_word(rule, prec, word), prec, a.stop[rule_index(rule)])


def q_leaves_with(rule, prec, word, state, sym):
    """The same, and the symbol is consumed on an edge that leaves the state."""
    a = load("wizardParser")
    stop = a.stop[rule_index(rule)]
    return q_at(rule, prec, word, state) and any(tuple(sym) in symbols(a, e) for e in a.edges.get(state, ()))


def q_alternatives(rule, prec, word, rest, decision, whole):
    """The alternatives of a decision after the word under which the rest can be read (to the end of the rule: whole)."""
    a = load("wizardParser")
    r = rule_index(rule)
    stop = a.stop[r]
    if decision >= len(a.decisions):
        return None
    d = a.decisions[decision]
    if not q_at(rule, prec, word, d):
        return None
    out = []
    for i, e in enumerate(a.edges.get(d, ())):
        if e[0] == "prec" and e[1] < prec:
            continue
        if e[0] not in ("eps", "prec"):
            raise Undecided("a decision of the grammar that consumes")
        end = run_word(rule, prec, rest, {e[2]})
        if end and (not whole or stop in enter(a, end, prec, stop)):
            out.append(i + 1)
    return tuple(out)


def q_expected(rule, prec, word):
    """Types of the tokens that may come after the word (a prefix of a sentence); whether the sentence may end there."""
    a = load("wizardParser")
    r = rule_index(rule)
    out, end = set(), False
    for s in enter(a, run_word(rule, prec, word), prec, a.stop[r]):
        f, z = first_types(s, r, frozenset())
        out |= f
        end = end or z
    return tuple(sorted(out)), end


def q_start(rule):
    a = load("wizardParser")
    return a.start[rule_index(rule)]


def q_token_count():
    return len(load("wizardParser").symbolicNames)


@lru_cache(None)
def q_prefixes(rule, prec):
    """The beginnings of the sentences, one for each set of states it leads to and for each form that got there."""
    a = load("wizardParser")
    r = rule_index(rule)
    out, seen = [], set()
    for w in q_sentences(rule, prec, 2 if rule == "expr" else 3):
        for n in range(len(w) + 1):
            k = frozenset(enter(a, run_word(rule, prec, w[:n]), prec, a.stop[r]))
            if k not in seen:
                seen.add(k)
                out.append(w[:n])
    return tuple(out)


@lru_cache(None)
def q_chains(n):
    """The sentences of expr that start with a variable and go on with up to n operators."""
    a = load("wizardParser")
    t = a.symbolicNames.index("Identifier")
    return tuple(w for w in q_sentences("expr", 0, n + 1) if w[0] == (t, None) and (len(w) == 1 or w[1] not in ((25, None),)))


# ------------------------------------------------- the tables against reference expressions

SKIP = 6


def q_lexer_difference(tokens):
    """tokens: (name, pattern, seen by the parser), the earlier first. None, or (text, what it is read as, what it is)."""
    from . import regular as R

    a = load("wizardLexer")
    tokens = [tuple(to_py(x)) for x in tokens]
    if a.lazy or len(a.modes) != 1:
        raise Undecided("a lexer with modes or lazy loops")
    sets = [rs for _, p, _ in tokens for rs in R.pattern_sets(p)]
    for es in a.edges.values():
        sets.extend(tuple(e[1]) for e in es if e[0] in ("set", "not"))
    reps = R.classes(sets)
    ref = R.Nfa()
    start = ref.state()
    for i, (name, p, shown) in enumerate(tokens):
        s, t = ref.state(), ref.state()
        ref.e(start, s)
        R.build_pattern(ref, p, reps, s, t)
        ref.label[t] = (i, name if shown else "(nothing)")
    nfa = R.Nfa()
    made = {}

    def node(s, stack):
        k = (s, stack)
        if k not in made:
            if len(stack) > 10:
                raise Undecided("a recursive token")
            made[k] = nfa.state()
            todo.append(k)
        return made[k]

    todo = []
    root = nfa.state()
    order = {}
    for i, e in enumerate(a.edges.get(a.modes[0], ())):
        order[a.states[e[2]][1]] = i
        nfa.e(root, node(e[2], ()))
    hidden = {}
    for r, k in a.acts:
        if k >= len(a.actions):
            raise Undecided("an action of the lexer")
        hidden.setdefault(r, set()).add(a.actions[k][0])
    while todo:
        s, stack = todo.pop()
        me = made[(s, stack)]
        if a.states[s][0] == 7:
            if stack:
                nfa.e(me, node(stack[-1], stack[:-1]))
                continue
            r = a.states[s][1]
            acts = hidden.get(r, set())
            if acts - {SKIP}:
                raise Undecided("an action of the lexer")
            nfa.label[me] = (order[r], "(nothing)" if acts else token_name(a.toktype[r]))
            continue
        for e in a.edges.get(s, ()):
            if e[0] == "eps":
                nfa.e(me, node(e[2], stack))
            elif e[0] == "rule":
                nfa.e(me, node(e[2], stack + (e[3],)))
            elif e[0] in ("set", "not"):
                rs = tuple(e[1]) if e[0] == "set" else R.complement(e[1])
                t = node(e[2], stack)
                for c in R.members(rs, reps):
                    nfa.arc(me, c, t)
            else:
                raise Undecided("an edge of the lexer")
    d = R.difference(nfa, ref, root, start)
    if d is None:
        return None
    return "".join(chr(c) for c in d[0]), d[1], d[2]


def to_py(x):
    from .interp import to_list

    return x if isinstance(x, (tuple, str, bool)) else to_list(x)


def q_rule_difference(rule, text):
    """The rule against an expression over its parts; precedences by rank. None, or (parts, is a sentence, should be)."""
    from . import regular as R

    a = load("wizardParser")
    if rule not in a.ruleNames:
        return ("no such rule", False, True)
    r = rule_index(rule)
    levels = sorted({e[1] for _, e in inner(rule) if e[0] == "prec"})
    all_levels = sorted({e[1] for es in a.edges.values() for e in es if e[0] == "prec"})
    nfa = R.Nfa()
    made = {}
    todo = []

    def node(s):
        if s not in made:
            made[s] = nfa.state()
            todo.append(s)
        return made[s]

    root = node(a.start[r])
    while todo:
        s = todo.pop()
        if s == a.stop[r]:
            nfa.label[made[s]] = (0, True)
            continue
        for e in a.edges.get(s, ()):
            if e[0] == "eps":
                nfa.e(made[s], node(e[2]))
            elif e[0] == "prec":
                nfa.arc(made[s], "#%d" % levels.index(e[1]), node(e[2]))
            elif e[0] == "rule":
                rank = sum(1 for x in all_levels if x < e[4])
                nfa.arc(made[s], a.ruleNames[e[1]] + ("" if not rank else "@%d" % rank), node(e[3]))
            elif e[0] == "set":
                for t in symbol_types(a, e[1]):
                    nfa.arc(made[s], token_name(t), node(e[2]))
            else:
                raise Undecided("an edge of the grammar")
    ref = R.Nfa()
    s, t = ref.state(), ref.state()
    R.build_symbols(ref, text, s, t)
    ref.label[t] = (0, True)
    d = R.difference(nfa, ref, root, s)
    if d is None:
        return None
    return " ".join(d[0]), bool(d[1]), bool(d[2])


RUNTIME = (
    "reset nextToken skip more mode pushMode popMode inputStream sourceName emitToken emit emitEOF type line column charIndex text getAllTokens "
    "notifyListeners getErrorDisplay getTokenErrorDisplay getCharErrorDisplay recover action sempred precpred getErrorListenerDispatch"
).split()


def q_lexer_methods():
    """Methods of the lexer that take the place of those of the runtime."""
    return tuple(n.name for n in load("wizardLexer").cls.body if isinstance(n, ast.FunctionDef) and n.name in RUNTIME)
