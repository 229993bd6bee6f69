"""Regular languages: automata of the tables of the lexer and parser against reference expressions, exactly.

`difference` walks the two determinised automata in step and gives a shortest word on which their labels differ.
"""
import re._parser as sre
from collections import deque

from .core import Undecided


class Nfa:
    def __init__(self):
        self.eps = {}
        self.arcs = {}
        self.label = {}
        self.n = 0

    def state(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, []).append(b)

    def arc(self, a, sym, b):
        self.arcs.setdefault(a, []).append((sym, b))

    def closure(self, states):
        seen, todo = set(states), list(states)
        while todo:
            for t in self.eps.get(todo.pop(), ()):
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        return frozenset(seen)

    def step(self, states, sym):
        return self.closure([t for s in states for c, t in self.arcs.get(s, ()) if c == sym])

    def best(self, states):
        """The label of the first accepting alternative."""
        found = [self.label[s] for s in states if s in self.label]
        return min(found)[1] if found else None

    def symbols(self):
        return {c for es in self.arcs.values() for c, _ in es}


def difference(a, b, start_a, start_b):
    first = (a.closure([start_a]), b.closure([start_b]))
    seen, todo, states = {first}, deque([(first, ())]), 0
    alphabet = sorted(a.symbols() | b.symbols(), key=str)
    while todo:
        (x, y), word = todo.popleft()
        states += 1
        if states > 200000:
            raise Undecided("too many states of the tables")
        la, lb = a.best(x), b.best(y)
        if la != lb:
            return word, la, lb
        for c in alphabet:
            p = (a.step(x, c), b.step(y, c))
            if (p[0] or p[1]) and p not in seen:
                seen.add(p)
                todo.append((p, word + (c,)))
    return None


# ------------------------------------------------------------ expressions over characters

TOP = 0x10FFFF


def pattern_sets(p):
    """Character sets of a pattern, as lists of ranges."""
    out = []

    def go(items):
        for op, av in items:
            n = str(op)
            if n in ("LITERAL", "NOT_LITERAL", "IN"):
                out.append(ranges(op, av))
            elif n == "MAX_REPEAT":
                go(av[2])
            elif n == "SUBPATTERN":
                go(av[3])
            elif n == "BRANCH":
                for x in av[1]:
                    go(x)
            else:
                raise Undecided("unsupported pattern " + n)

    go(sre.parse(p))
    return out


def complement(rs):
    out, lo = [], 0
    for a, b in sorted(rs):
        if a > lo:
            out.append((lo, a - 1))
        lo = max(lo, b + 1)
    if lo <= TOP:
        out.append((lo, TOP))
    return tuple(out)


def ranges(op, av):
    n = str(op)
    if n == "LITERAL":
        return ((av, av),)
    if n == "NOT_LITERAL":
        return complement([(av, av)])
    neg, rs = False, []
    for o, v in av:
        o = str(o)
        if o == "NEGATE":
            neg = True
        elif o == "LITERAL":
            rs.append((v, v))
        elif o == "RANGE":
            rs.append(v)
        else:
            raise Undecided("unsupported pattern " + o)
    return complement(rs) if neg else tuple(rs)


def classes(sets):
    """One representative of each class of characters that no set tells apart."""
    cuts = {0}
    for rs in sets:
        for a, b in rs:
            cuts.add(a)
            cuts.add(b + 1)
    return sorted(c for c in cuts if c <= TOP)


def members(rs, reps):
    return [c for c in reps if any(a <= c <= b for a, b in rs)]


def build_pattern(nfa, p, reps, src, dst):
    def seq(items, s, t):
        for op, av in items:
            m = nfa.state()
            one(op, av, s, m)
            s = m
        nfa.e(s, t)

    def one(op, av, s, t):
        n = str(op)
        if n in ("LITERAL", "NOT_LITERAL", "IN"):
            for c in members(ranges(op, av), reps):
                nfa.arc(s, c, t)
        elif n == "MAX_REPEAT":
            lo, hi, body = av
            for _ in range(lo):
                m = nfa.state()
                seq(body, s, m)
                s = m
            if str(hi) == "MAXREPEAT":
                m = nfa.state()
                nfa.e(s, m)
                seq(body, m, m)
                nfa.e(m, t)
            else:
                for _ in range(hi - lo):
                    nfa.e(s, t)
                    m = nfa.state()
                    seq(body, s, m)
                    s = m
                nfa.e(s, t)
        elif n == "SUBPATTERN":
            seq(av[3], s, t)
        elif n == "BRANCH":
            for x in av[1]:
                seq(x, s, t)
        else:
            raise Undecided("unsupported pattern " + n)

    seq(sre.parse(p), src, dst)


# --------------------------------------------------------------- expressions over symbols


def build_symbols(nfa, text, src, dst):
    """text: symbols separated by blanks, with the operators ( ) | * + ? as symbols of their own (quote them: '(')."""
    toks = text.split()
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def alt(s, t):
        seq(s, t)
        while peek() == "|":
            pos[0] += 1
            seq(s, t)

    def seq(s, t):
        while peek() not in (None, "|", ")"):
            m = nfa.state()
            item(s, m)
            s = m
        nfa.e(s, t)

    def item(s, t):
        a, b = nfa.state(), nfa.state()
        nfa.e(s, a)
        w = peek()
        pos[0] += 1
        if w == "(":
            alt(a, b)
            if peek() != ")":
                raise Undecided("bad reference expression")
            pos[0] += 1
        else:
            nfa.arc(a, w.strip("'"), b)
        q = peek()
        if q in ("*", "+", "?"):
            pos[0] += 1
            if q in "*?":
                nfa.e(a, b)
            if q in "*+":
                nfa.e(b, a)
        nfa.e(b, t)

    alt(src, dst)
    if pos[0] != len(toks):
        raise Undecided("bad reference expression")
