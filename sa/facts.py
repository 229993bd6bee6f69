"""Facts of a trace partition: deciding conditions on terms, without a solver.

Conditions are canonical terms; integer conditions are linear forms with an interval
per form; string equalities with constants substitute the constant.
"""
from __future__ import annotations

import re

from .core import CFG, P, STATS, PathCut, Sym, Undecided, show

BOOL = frozenset(["bool"])
INT = frozenset(["int"])
STR = frozenset(["str"])
FLOAT = frozenset(["float"])


def sampled(n, key):
    """The choice on a sampled path: mostly the one taken at the last similar point."""
    if P.assuming:
        return 0
    rng = CFG.LONG[1]
    key = (n, re.sub(r"[0-9]+", "", key) if isinstance(key, str) else key)
    c = P.last.get(key)
    P.choices += 1
    if c is None or P.choices in P.switch or rng.random() >= P.stick:
        c = P.last[key] = rng.randrange(n)
    return c


def sampled_length(ls):
    """At most one sequence of a sampled path is long."""
    rng = CFG.LONG[1]
    long = [x for x in ls if x > CFG.LONG[2]]
    P.lengths += 1
    if long and (P.lengths == P.longat or not P.longdone and rng.random() < 0.1):
        P.longdone = True
        return rng.choice(long)
    return rng.choice([x for x in ls if x <= CFG.LONG[2]] or ls)


def choose(n, what="", key=None):
    """A nondeterministic choice among n partitions."""
    if n <= 0:
        raise PathCut()
    if n == 1:
        return 0
    i = len(P.decisions)
    if CFG.LONG:
        c = sampled(n, key or what)
    else:
        c = P.script[i] if i < len(P.script) else 0
    P.decisions.append((c, n))
    if len(P.decisions) > (max(40, CFG.LONG[0]) * CFG.LONG[0] if CFG.LONG else 400):
        raise Undecided("too many decisions on one path")
    if what:
        P.log.append(f"{what} := {c}")
    return c


# ----------------------------------------------------------------- linear forms


def is_int_sym(v):
    return isinstance(v, Sym) and tyset(v) == INT


def lin(v):
    """(const, {atom: coef}) of an integer value, or None."""
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return (v, {})
    if is_int_sym(v):
        return lin_t(v.t)
    return None


def lin_t(t):
    if t[0] == "lin":
        return (t[1], dict(t[2]))
    return (0, {t: 1})


def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return Sym(k, INT)
    return Sym(("lin", c, tuple(sorted(d.items(), key=lambda kv: repr(kv[0])))), INT)


def lin_add(a, b, s=1):
    c = a[0] + s * b[0]
    d = dict(a[1])
    for k, v in b[1].items():
        d[k] = d.get(k, 0) + s * v
    return mk_lin(c, d)


def lin_scale(a, k):
    return mk_lin(a[0] * k, {t: v * k for t, v in a[1].items()})


def lin_key(d):
    """Canonical sign of the non-constant part: (key, sign)."""
    items = tuple(sorted(((k, v) for k, v in d.items() if v), key=lambda kv: repr(kv[0])))
    if items and items[0][1] < 0:
        return tuple((k, -v) for k, v in items), -1
    return items, 1


def cmp_int(op, a, b):
    """Canonical condition for `a op b` over linear forms; bool or term."""
    la, lb = lin(a), lin(b)
    c = la[0] - lb[0]
    d = dict(la[1])
    for k, v in lb[1].items():
        d[k] = d.get(k, 0) - v
    d = {k: v for k, v in d.items() if v}
    if not d:
        return {"<": c < 0, "<=": c <= 0, "==": c == 0}[op]
    key, s = lin_key(d)
    # s*L + c  op 0   with L the canonical form
    if len(key) == 1 and key[0][0][0] == "len" and key[0][1] == 1:
        base = key[0][0][1]
        # lengths are never negative
        if op == "==" and c == 0:
            return ("not", ("truthy", base))
        if op == "<" and s == -1 and c == 0:
            return ("truthy", base)
        if op == "<=" and s == 1 and c == 0:
            return ("not", ("truthy", base))
        if op == "<=" and s == -1 and c == 1:
            return ("truthy", base)
        if op == "<=" and s == -1 and c == 0:
            return True
        if op == "<" and s == 1 and c == 0:
            return False
        if op == "<" and s == 1 and c == -1:
            return ("not", ("truthy", base))
    if op == "<":
        op, c = "<=", c + 1
    if op == "<=":
        if s == 1:
            return ("ile", key, -c)  # L <= -c
        return ("not", ("ile", key, c - 1))  # -L + c <= 0  <=> L >= c <=> not L <= c-1
    return ("ieq", key, -s * c)


# ------------------------------------------------------------------------ types


def tyset(v):
    return P.narrow.get(v.t, v.ty)


def typeof(v):
    """The single builtin type name of a symbol (forks if several)."""
    s = tyset(v)
    if s is None:
        raise Undecided(f"type of {show(v.t)} is unknown")
    if len(s) == 1:
        return next(iter(s))
    names = sorted(s)
    n = names[choose(len(names), f"type({show(v.t)}) in {names}", ("type", tuple(names)))]
    P.narrow[v.t] = frozenset([n])
    return n


def restrict(v, names):
    """True if v has one of the types (forks)."""
    s = tyset(v)
    if s is None:
        return decide(("isinst", v.t, tuple(sorted(names))))
    yes = s & frozenset(names)
    no = s - yes
    if not no:
        return True
    if not yes:
        return False
    c = choose(2, f"type({show(v.t)}) in {sorted(yes)} (else {sorted(no)})", ("type", tuple(sorted(yes)), tuple(sorted(no))))
    P.narrow[v.t] = yes if c == 0 else no
    return c == 0


# ---------------------------------------------------------------------- decide


def kterm(v):
    return ("k", v, type(v).__name__)


def neg(t):
    if isinstance(t, bool):
        return not t
    return t[1] if t[0] == "not" else ("not", t)


def rewrite(t):
    """Apply the constant substitutions of the path to a term."""
    if not P.subst or not isinstance(t, tuple):
        return t
    if t in P.subst:
        return kterm(P.subst[t])
    return tuple(rewrite(x) for x in t)


def known(t):
    """True/False/None."""
    if isinstance(t, bool):
        return t
    if t[0] == "not":
        k = known(t[1])
        return None if k is None else not k
    if t in P.facts:
        return P.facts[t]
    if t[0] == "ile":
        lo, hi, ex = P.bounds.get(t[1], (None, None, ()))
        if hi is not None and hi <= t[2]:
            return True
        if lo is not None and lo > t[2]:
            return False
        return None
    if t[0] == "ieq":
        lo, hi, ex = P.bounds.get(t[1], (None, None, ()))
        if t[2] in ex:
            return False
        if lo is not None and t[2] < lo:
            return False
        if hi is not None and t[2] > hi:
            return False
        if lo is not None and lo == hi == t[2]:
            return True
        return None
    if t[0] == "eq":
        a, b = t[1], t[2]
        for x, y in ((a, b), (b, a)):
            if x[0] == "k" and y in P.subst:
                return P.subst[y] == x[1] and type(P.subst[y]) is type(x[1])
        if a in P.subst and b in P.subst:
            return P.subst[a] == P.subst[b]
        r = rewrite(t)
        if r != t and r[1][0] == "k" and r[2][0] == "k":
            return r[1][1] == r[2][1]
        if P.subst:
            for f, v in P.facts.items():
                if f[0] == "eq" and (f[1] in P.subst or f[2] in P.subst):
                    g = rewrite(f)
                    if (g[1] == r[1] and g[2] == r[2]) or (g[1] == r[2] and g[2] == r[1]):
                        return v
        return known_eq(a, b)
    if t[0] == "has" and t[2][0] == "elem" and t[2][1] == ("keys", t[1]):
        return True
    if t[0] == "lt":
        return known_lt(t[1], t[2])
    if t[0] == "truthy" and t[1] in P.subst:
        return bool(P.subst[t[1]])
    if t[0] == "startswith" and t[1] in P.subst and t[2][0] == "k":
        return P.subst[t[1]].startswith(t[2][1])
    if t[0] == "endswith" and t[1] in P.subst and t[2][0] == "k":
        return P.subst[t[1]].endswith(t[2][1])
    return None


def known_lt(a, b):
    """Strict total order: transitivity, antisymmetry, equality."""
    r = rewrite(("lt", a, b))
    if r[1] == r[2]:
        return False
    if r[1][0] == "k" and r[2][0] == "k":
        return r[1][1] < r[2][1]
    if not any(f[0] == "lt" for f in P.facts):
        return False if P.facts.get(("eq", *sorted([a, b], key=repr))) else None
    edges = order_edges()
    if reach(edges, a, b):
        return True
    back = reach(edges, b, a)
    if back is not None:
        return False
    if reach(edges, a, b) is False and known_eq(a, b) is False:
        return True
    return None


CONGRUENT = {"casefold", "lower", "upper", "str.casefold", "str.lower", "str.upper"}


def known_eq(a, b):
    """Equivalence, congruence and total order of the equalities of the path."""
    if a == b:
        return None
    trues, falses, order = [], [], False
    for f, v in P.facts.items():
        if f[0] == "eq":
            (trues if v else falses).append((f[1], f[2]))
        elif f[0] == "lt":
            order = True
    if order:
        edges = order_edges()
        x, y = reach(edges, a, b), reach(edges, b, a)
        if x or y:
            return False
        if x is not None and y is not None:
            return True
    if not trues:
        return None
    rep = {}

    def find(t):
        while t in rep:
            t = rep[t]
        return t

    def canon(t):
        if not isinstance(t, tuple):
            return t
        r = find(t)
        if r != t:
            return r
        if len(t) > 1 and isinstance(t[0], str) and t[0] in CONGRUENT:
            return find((t[0], canon(t[1])) + t[2:])
        return t

    for x, y in trues:
        x, y = find(canon(x)), find(canon(y))
        if x != y:
            if y[0] == "k" or (x[0] != "k" and repr(y) < repr(x)):
                x, y = y, x
            rep[y] = x
    ca, cb = canon(a), canon(b)
    if ca == cb:
        return True
    if ca[0] == "k" and cb[0] == "k":
        return False
    for x, y in falses:
        x, y = canon(x), canon(y)
        if (x == ca and y == cb) or (x == cb and y == ca):
            return False
    return None


def order_edges():
    edges = {}  # x -> [(y, strict)] meaning x <= y
    for f, v in P.facts.items():
        if f[0] == "lt":
            if v:
                edges.setdefault(f[1], []).append((f[2], True))
            else:
                differ = P.facts.get(("eq", f[1], f[2])) is False or P.facts.get(("eq", f[2], f[1])) is False
                edges.setdefault(f[2], []).append((f[1], differ))
        elif f[0] == "eq" and v:
            edges.setdefault(f[1], []).append((f[2], False))
            edges.setdefault(f[2], []).append((f[1], False))
    return edges


def reach(edges, x, y):
    """Is x <= y (False), x < y (True), unknown (None)?"""
    best = {x: False}
    todo = [x]
    while todo:
        u = todo.pop()
        for w, s in edges.get(u, ()):
            ns = best[u] or s
            if w not in best or ns and not best[w]:
                best[w] = ns
                todo.append(w)
    return best.get(y)


def assume(t, value):
    if isinstance(t, bool):
        if t != value:
            raise PathCut()
        return
    if t[0] == "not":
        return assume(t[1], not value)
    P.facts[t] = value
    if t[0] == "ile":
        lo, hi, ex = P.bounds.get(t[1], (None, None, ()))
        if value:
            hi = t[2] if hi is None else min(hi, t[2])
        else:
            lo = t[2] + 1 if lo is None else max(lo, t[2] + 1)
        P.bounds[t[1]] = tighten(lo, hi, ex)
    elif t[0] == "ieq":
        lo, hi, ex = P.bounds.get(t[1], (None, None, ()))
        if value:
            lo = hi = t[2]
        else:
            ex = ex + (t[2],)
        P.bounds[t[1]] = tighten(lo, hi, ex)
    elif t[0] == "eq" and value:
        a, b = t[1], t[2]
        if a[0] == "k" and b not in P.subst:
            P.subst[b] = a[1]
        elif b[0] == "k" and a not in P.subst:
            P.subst[a] = b[1]


def tighten(lo, hi, ex):
    while lo is not None and lo in ex:
        lo += 1
    while hi is not None and hi in ex:
        hi -= 1
    if lo is not None and hi is not None and lo > hi:
        raise PathCut()
    return (lo, hi, ex)


def decide(t, order=(True, False)):
    """Decide a condition term on this partition, forking if it is not implied."""
    k = known(t)
    if k is not None:
        return k
    base, flip = (t[1], True) if t[0] == "not" else (t, False)
    STATS.forks += 1
    c = choose(2, "", ("if", base[0], base[1][0] if len(base) > 1 and isinstance(base[1], tuple) and base[1] else None) if CFG.LONG else None)
    v = order[c] if not (CFG.LONG and flip) or P.assuming else order[1 - c]
    P.log.append(("" if v else "not ") + show(t))
    assume(base, v != flip)
    return v
