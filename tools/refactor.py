"""Edits that keep the behaviour, applied everywhere they apply.

  python3 tools/refactor.py LIST
  python3 tools/refactor.py NAME DIR     rewrite the package under DIR/src/wizard (a copy of /repo)

Used to look for false alarms: the checks have to stay quiet on the outcome (SA_REPO=DIR python3 -m sa.run P..).
"""

import ast
import copy
import os
import sys

KINDS = {}


def kind(f):
    KINDS[f.__name__] = f
    return f


def terminal(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    flip = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in flip:
        return ast.Compare(t.left, [flip[type(t.ops[0])]()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


class Blocks(ast.NodeTransformer):
    """Rewrites the statement lists of functions."""

    def __init__(self):
        self.n = 0
        self.functions = []
        self.classes = []

    def fresh(self, base="value"):
        self.n += 1
        return f"{base}_{self.n}"

    def visit_FunctionDef(self, node):
        self.functions.append(node)
        self.generic_visit(node)
        self.functions.pop()
        return self.function(node)

    def visit_ClassDef(self, node):
        self.classes.append(node)
        saved, self.functions = self.functions, []
        self.generic_visit(node)
        self.functions = saved
        self.classes.pop()
        return node

    def function(self, node):
        return node

    def generic_visit(self, node):
        super().generic_visit(node)
        if self.functions:
            for f in ("body", "orelse", "finalbody"):
                b = getattr(node, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(node, ast.ClassDef):
                    out = self.block(b)
                    setattr(node, f, out)
        return node

    def block(self, body):
        out = []
        for s in body:
            r = self.statement(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def statement(self, s):
        return s


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


def assign(n, v):
    return ast.Assign([name(n, True)], v)


@kind
class plain(Blocks):
    """The text of the unparsed tree only."""


@kind
class invert_if(Blocks):
    def statement(self, s):
        if isinstance(s, ast.If) and s.orelse:
            return ast.If(neg(s.test), s.orelse, s.body)
        return s


@kind
class nest_rest(Blocks):
    """if c: return a; rest   ->   if c: return a else: rest"""

    def block(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and terminal(s.body) and i + 1 < len(body):
                rest = self.block(body[i + 1:])
                if s.orelse:
                    last = s
                    while len(last.orelse) == 1 and isinstance(last.orelse[0], ast.If) and terminal(last.orelse[0].body):
                        last = last.orelse[0]
                    if last.orelse:
                        return body[:i + 1] + rest
                    last.orelse = rest
                else:
                    s.orelse = rest
                return body[:i] + [s]
        return body


@kind
class flatten_else(Blocks):
    def block(self, body):
        out = []
        for s in body:
            out.append(s)
            if isinstance(s, ast.If) and terminal(s.body) and s.orelse:
                rest, s.orelse = s.orelse, []
                out.extend(self.block(rest))
        return out


@kind
class inverted_guard(Blocks):
    """if c: raise/return; rest -> if not c: rest else: raise"""

    def block(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and terminal(s.body) and not s.orelse and i + 1 < len(body):
                rest = self.block(body[i + 1:])
                return body[:i] + [ast.If(neg(s.test), rest, s.body)]
        return body


@kind
class return_local(Blocks):
    def statement(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            v = self.fresh("result")
            return [assign(v, s.value), ast.Return(name(v))]
        return s


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and simple(e.value)


@kind
class hoist_args(Blocks):
    """f(a(), b()) -> x = a(); y = b(); f(x, y)"""

    def statement(self, s):
        if not isinstance(s, (ast.Expr, ast.Return, ast.Assign, ast.Raise)):
            return s
        call = s.exc if isinstance(s, ast.Raise) else s.value
        if not isinstance(call, ast.Call) or not simple(call.func) or any(isinstance(a, ast.Starred) for a in call.args) or isinstance(call.func, ast.Name) and call.func.id in ("cast", "super"):
            return s
        pre = []
        for i, a in enumerate(call.args):
            if not simple(a) and not isinstance(a, (ast.GeneratorExp, ast.BinOp, ast.Subscript, ast.Lambda)):
                v = self.fresh("arg")
                pre.append(assign(v, a))
                call.args[i] = name(v)
        for k in call.keywords:
            if k.arg and not simple(k.value) and not isinstance(k.value, (ast.GeneratorExp, ast.Lambda)):
                v = self.fresh("arg")
                pre.append(assign(v, k.value))
                k.value = name(v)
        return pre + [s]


@kind
class hoist_test(Blocks):
    """if cond: -> flag = cond; if flag:"""

    def statement(self, s):
        if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
            v = self.fresh("flag")
            return [assign(v, s.test), ast.If(name(v), s.body, s.orelse)]
        return s


@kind
class for_next(Blocks):
    """for x in e -> while True with next()"""

    def statement(self, s):
        if isinstance(s, ast.For) and not s.orelse:
            it = self.fresh("it")
            nxt = ast.Try([ast.Assign([s.target], ast.Call(name("next"), [name(it)], []))], [ast.ExceptHandler(name("StopIteration"), None, [ast.Break()])], [], [])
            return [assign(it, ast.Call(name("iter"), [s.iter], [])), ast.While(ast.Constant(True), [nxt] + s.body, [])]
        return s


@kind
class for_enumerate(Blocks):
    def statement(self, s):
        if isinstance(s, ast.For):
            s.iter = ast.Call(name("enumerate"), [s.iter], [])
            s.target = ast.Tuple([name(self.fresh("number"), True), s.target], ast.Store())
        return s


@kind
class for_list(Blocks):
    """for x in e -> for x in list(e)"""

    def statement(self, s):
        if isinstance(s, ast.For):
            s.iter = ast.Call(name("list"), [s.iter], [])
        return s


@kind
class for_index(Blocks):
    """for x in e -> xs = list(e); for i in range(len(xs)): x = xs[i]"""

    def statement(self, s):
        if isinstance(s, ast.For):
            xs, i = self.fresh("items"), self.fresh("index")
            get = ast.Assign([s.target], ast.Subscript(name(xs), name(i), ast.Load()))
            return [assign(xs, ast.Call(name("list"), [s.iter], [])),
                    ast.For(name(i, True), ast.Call(name("range"), [ast.Call(name("len"), [name(xs)], [])], []), [get] + s.body, s.orelse)]
        return s


@kind
class while_true(Blocks):
    def statement(self, s):
        if isinstance(s, ast.While) and not s.orelse and not isinstance(s.test, ast.Constant):
            return ast.While(ast.Constant(True), [ast.If(neg(s.test), [ast.Break()], [])] + s.body, [])
        return s


def unroll(comp, v, add, init):
    body = [add]
    for g in reversed(comp.generators):
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        body = [ast.For(g.target, g.iter, body, [])]
    return [assign(v, init)] + body


class Comprehensions(Blocks):
    """Comprehensions that a simple statement evaluates unconditionally and first-ish, by loops."""

    def statement(self, s):
        if isinstance(s, (ast.Return, ast.Assign, ast.Expr, ast.AnnAssign)) and s.value is not None:
            pre = []
            s.value = self.rewrite(s.value, pre)
            return pre + [s]
        return s

    def rewrite(self, e, pre):
        if isinstance(e, ast.ListComp):
            v = self.fresh("items")
            pre.extend(unroll(e, v, ast.Expr(ast.Call(ast.Attribute(name(v), "append", ast.Load()), [e.elt], [])), ast.List([], ast.Load())))
            return name(v)
        if isinstance(e, ast.DictComp):
            v = self.fresh("table")
            pre.extend(unroll(e, v, ast.Assign([ast.Subscript(name(v), e.key, ast.Store())], e.value), ast.Dict([], [])))
            return name(v)
        if isinstance(e, ast.SetComp):
            v = self.fresh("set")
            pre.extend(unroll(e, v, ast.Expr(ast.Call(ast.Attribute(name(v), "add", ast.Load()), [e.elt], [])), ast.Call(name("set"), [], [])))
            return name(v)
        if isinstance(e, ast.Call) and simple(e.func) and e.args:
            if isinstance(e.func, ast.Name) and e.func.id == "cast":
                e.args[1] = self.rewrite(e.args[1], pre)
            elif isinstance(e.args[0], (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Call)):
                a = e.args[0]
                if isinstance(a, ast.GeneratorExp):
                    if e.func.id in ("any", "all", "next") if isinstance(e.func, ast.Name) else False:
                        return e
                    a = ast.ListComp(a.elt, a.generators)
                e.args[0] = self.rewrite(a, pre)
        return e


@kind
class comprehension_loop(Comprehensions):
    pass


@kind
class any_loop(Blocks):
    """if any(c for x in xs): S -> found = False; for ...: if c: found = True; break"""

    def statement(self, s):
        if not isinstance(s, (ast.If, ast.Return)):
            return s
        t = s.test if isinstance(s, ast.If) else s.value
        wrap = lambda x: x
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t = t.operand
            wrap = lambda x: ast.UnaryOp(ast.Not(), x)
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("any", "all") and isinstance(t.args[0], (ast.GeneratorExp, ast.ListComp)) and len(t.args[0].generators) == 1:
            g = t.args[0].generators[0]
            v = self.fresh("found")
            some = t.func.id == "any"
            cond = t.args[0].elt if some else neg(t.args[0].elt)
            for c in reversed(g.ifs):
                cond = ast.BoolOp(ast.And(), [c, cond])
            pre = [assign(v, ast.Constant(not some)), ast.For(g.target, g.iter, [ast.If(cond, [assign(v, ast.Constant(some)), ast.Break()], [])], [])]
            if isinstance(s, ast.If):
                s.test = wrap(name(v))
            else:
                s.value = wrap(name(v))
            return pre + [s]
        return s


@kind
class genexp_list(Blocks):
    """f(x for x in xs) -> f([x for x in xs])"""

    def visit_Call(self, node):
        self.generic_visit(node)
        node.args = [ast.ListComp(a.elt, a.generators) if isinstance(a, ast.GeneratorExp) else a for a in node.args]
        return node


@kind
class list_genexp(Blocks):
    """[f(x) for x in xs] -> list(f(x) for x in xs)"""

    def visit_ListComp(self, node):
        self.generic_visit(node)
        return ast.Call(name("list"), [ast.GeneratorExp(node.elt, node.generators)], [])


@kind
class list_map(Blocks):
    """[f(x) for x in xs] -> list(map(lambda x: f(x), filter(lambda x: c, xs)))"""

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if len(node.generators) != 1 or not isinstance(node.generators[0].target, ast.Name):
            return node
        g = node.generators[0]
        args = ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, [])
        src = g.iter
        for c in g.ifs:
            src = ast.Call(name("filter"), [ast.Lambda(args, c), src], [])
        return ast.Call(name("list"), [ast.Call(name("map"), [ast.Lambda(args, node.elt), src], [])], [])


@kind
class fstring_format(Blocks):
    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        text, args = "", []
        for v in node.values:
            if isinstance(v, ast.Constant):
                text += v.value.replace("{", "{{").replace("}", "}}")
            else:
                if v.format_spec is not None:
                    return node
                text += "{" + {-1: "", 115: "!s", 114: "!r", 97: "!a"}[v.conversion] + "}"
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(text), "format", ast.Load()), args, [])


@kind
class fstring_concat(Blocks):
    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        out = None
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                if v.format_spec is not None:
                    return node
                v = ast.Call(name({-1: "str", 115: "str", 114: "repr"}[v.conversion]), [v.value], [])
            out = v if out is None else ast.BinOp(out, ast.Add(), v)
        return out or node


@kind
class isinstance_or(Blocks):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == "isinstance" and isinstance(node.args[1], ast.Tuple) and simple(node.args[0]):
            return ast.BoolOp(ast.Or(), [ast.Call(name("isinstance"), [copy.deepcopy(node.args[0]), c], []) for c in node.args[1].elts])
        return node


@kind
class and_nested(Blocks):
    def statement(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            body = s.body
            for c in reversed(s.test.values):
                body = [ast.If(c, body, [])]
            return body
        return s


@kind
class or_elif(Blocks):
    def statement(self, s):
        if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or):
            rest = s.orelse
            for c in reversed(s.test.values):
                rest = [ast.If(c, copy.deepcopy(s.body), rest)]
            return rest
        return s


@kind
class de_morgan(Blocks):
    def visit_BoolOp(self, node):
        self.generic_visit(node)
        return node

    def statement(self, s):
        if isinstance(s, (ast.If, ast.While)) and isinstance(s.test, ast.BoolOp):
            op = ast.Or() if isinstance(s.test.op, ast.And) else ast.And()
            s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(v) for v in s.test.values]))
        return s


@kind
class ternary_if(Blocks):
    def statement(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and isinstance(s.targets[0], (ast.Name, ast.Attribute)):
            e = s.value
            return ast.If(e.test, [ast.Assign(s.targets, e.body)], [ast.Assign(copy.deepcopy(s.targets), e.orelse)])
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            e = s.value
            return [ast.If(e.test, [ast.Return(e.body)], []), ast.Return(e.orelse)]
        return s


@kind
class if_ternary(Blocks):
    def statement(self, s):
        if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value is not None and b.value is not None:
                return ast.Return(ast.IfExp(s.test, a.value, b.value))
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and isinstance(a.targets[0], (ast.Name, ast.Attribute)):
                return ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value))
        return s


@kind
class bool_return(Blocks):
    """return a == b / not x / in -> if ...: return True; return False"""

    def statement(self, s):
        v = s.value if isinstance(s, ast.Return) else None
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("isinstance", "bool", "any", "all") or isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not):
            return [ast.If(v, [ast.Return(ast.Constant(True))], []), ast.Return(ast.Constant(False))]
        return s


@kind
class reversed_compare(Blocks):
    def visit_Compare(self, node):
        self.generic_visit(node)
        mirror = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(node.ops) == 1 and type(node.ops[0]) in mirror and isinstance(node.comparators[0], ast.Constant):
            return ast.Compare(node.comparators[0], [mirror[type(node.ops[0])]()], [node.left])
        return node


@kind
class lambda_def(Blocks):
    """Lambdas in a statement by nested functions."""

    def statement(self, s):
        if not isinstance(s, (ast.Return, ast.Assign, ast.Expr)) or s.value is None:
            return s
        pre = []
        outer = self

        class In(ast.NodeTransformer):
            depth = 0

            def visit_ListComp(self, n):
                return n
            visit_GeneratorExp = visit_DictComp = visit_SetComp = visit_ListComp

            def visit_Lambda(self, n):
                f = outer.fresh("fn")
                pre.append(ast.FunctionDef(f, n.args, [ast.Return(n.body)], [], None, None, []))
                return name(f)
        s.value = In().visit(s.value)
        return pre + [s]


@kind
class append_iadd(Blocks):
    def statement(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "append" and isinstance(s.value.func.value, ast.Name):
            return ast.AugAssign(name(s.value.func.value.id, True), ast.Add(), ast.List(s.value.args, ast.Load()))
        return s


@kind
class extract_method(Blocks):
    """The body of every method of two statements or more moved into a method it calls."""

    def visit_ClassDef(self, node):
        out = []
        for m in node.body:
            out.append(m)
            if not isinstance(m, ast.FunctionDef) or len(m.body) < 2 or m.decorator_list or m.args.vararg or m.args.kwarg or m.args.kwonlyargs or not m.args.args or m.args.args[0].arg != "self":
                continue
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal)) for x in ast.walk(m)) or m.name.startswith("__") and m.name not in ("__init__", "__getitem__", "__eq__", "__add__", "__call__"):
                continue
            body = m.body
            new = f"_do_{m.name.strip('_')}_{node.name.strip('_').lower()}"
            args = copy.deepcopy(m.args)
            args.defaults = []
            out.append(ast.FunctionDef(new, args, body, [], m.returns, None, []))
            m.body = [ast.Return(ast.Call(ast.Attribute(name("self"), new, ast.Load()), [name(a.arg) for a in m.args.args[1:]], []))]
            if m.name == "__init__":
                m.body = [ast.Expr(m.body[0].value)]
        node.body = out
        return node


@kind
class extract_tail(Blocks):
    """The second half of the body of a method moved into a method that gets its locals."""

    def visit_ClassDef(self, node):
        out = []
        for m in node.body:
            out.append(m)
            if not isinstance(m, ast.FunctionDef) or len(m.body) < 3 or m.decorator_list or m.args.vararg or m.args.kwarg or m.args.kwonlyargs or not m.args.args or m.args.args[0].arg != "self":
                continue
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.FunctionDef)) for x in ast.walk(m) if x is not m) or m.name.startswith("__"):
                continue
            k = len(m.body) // 2
            head, tail = m.body[:k], m.body[k:]
            if any(isinstance(x, (ast.Import, ast.ImportFrom)) for h in head for x in ast.walk(h)):
                continue
            bound = [a.arg for a in m.args.args[1:]]
            sure = list(bound)
            for h in head:
                if isinstance(h, (ast.Assign, ast.AnnAssign)):
                    for t in h.targets if isinstance(h, ast.Assign) else [h.target] if h.value is not None else []:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in sure:
                                sure.append(x.id)
            every = set(bound) | {x.id for h in head for x in ast.walk(h) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            used = {x.id for t in tail for x in ast.walk(t) if isinstance(x, ast.Name)}
            if (used & every) - set(sure):
                continue
            need = [n for n in sure if n in used]
            new = f"_rest_of_{m.name}_{node.name.strip('_').lower()}"
            out.append(ast.FunctionDef(new, ast.arguments([], [ast.arg("self")] + [ast.arg(n) for n in need], None, [], [], None, []), tail, [], None, None, []))
            m.body = head + [ast.Return(ast.Call(ast.Attribute(name("self"), new, ast.Load()), [name(n) for n in need], []))]
        node.body = out
        return node


@kind
class rename_locals(Blocks):
    def function(self, node):
        if self.functions:
            return node
        params = {a.arg for f in ast.walk(node) if isinstance(f, (ast.FunctionDef, ast.Lambda)) for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs + [x for x in (f.args.vararg, f.args.kwarg) if x]}
        local = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        local -= {n for x in ast.walk(node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        local -= {x.name for x in ast.walk(node) if isinstance(x, ast.FunctionDef)}
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and x.id in local:
                x.id = x.id + "_renamed"
        return node


@kind
class self_local(Blocks):
    """this = self in methods without nested functions or super()"""

    def function(self, node):
        if not node.args.args or node.args.args[0].arg != "self":
            return node
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and x.id == "self" and isinstance(x.ctx, ast.Load):
                x.id = "this"
        doc = node.body[:1] if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else []
        node.body = doc + [assign("this", name("self"))] + node.body[len(doc):]
        return node


@kind
class chained_locals(Blocks):
    """a.b.c(...) statements: x = a.b; x.c(...)"""

    def statement(self, s):
        if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and not isinstance(s.value.func.value, (ast.Name, ast.Constant)):
            v = s.value.func.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                return s
            n = self.fresh("target")
            s.value.func.value = name(n)
            return [assign(n, v), s]
        return s


@kind
class in_or(Blocks):
    """x in (A, B) -> x == A or x == B (constants)"""

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], ast.In) and isinstance(node.comparators[0], (ast.Tuple, ast.List, ast.Set)) and simple(node.left):
            elts = node.comparators[0].elts
            if all(isinstance(e, (ast.Constant, ast.Attribute)) for e in elts):
                return ast.BoolOp(ast.Or(), [ast.Compare(copy.deepcopy(node.left), [ast.Eq()], [e]) for e in elts])
        return node


@kind
class yield_list(Blocks):
    """yield from e -> for y in e: yield y"""

    def statement(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom):
            v = self.fresh("y")
            return ast.For(name(v, True), s.value.value, [ast.Expr(ast.Yield(name(v)))], [])
        return s


@kind
class try_else(Blocks):
    """try: return f() except -> try: r = f() except ... else: return r"""

    def statement(self, s):
        if isinstance(s, ast.Try) and s.body and isinstance(s.body[-1], ast.Return) and s.body[-1].value is not None and not s.orelse and not s.finalbody:
            v = self.fresh("result")
            s.body[-1] = assign(v, s.body[-1].value)
            s.orelse = [ast.Return(name(v))]
        return s


@kind
class walrus_split(Blocks):
    """assert dropped, annotations of locals dropped, x += y spelled out for names"""

    def statement(self, s):
        if isinstance(s, ast.AnnAssign) and s.simple and s.value is not None:
            return assign(s.target.id, s.value)
        return s


@kind
class unpack(Blocks):
    """a, b = e -> pair = e; a = pair[0]; b = pair[1] (tuples written out only)"""

    def statement(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts):
            names = [self.fresh("part") for _ in s.value.elts]
            return [assign(n, v) for n, v in zip(names, s.value.elts)] + [ast.Assign([t], name(n)) for t, n in zip(s.targets[0].elts, names)]
        return s


@kind
class join_assigns(Blocks):
    """a = x; b = y with constants or parameters -> a, b = x, y"""

    def block(self, body):
        out = []
        for s in body:
            p = out[-1] if out else None
            if p is not None and all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Attribute) and isinstance(x.value, (ast.Name, ast.Constant)) for x in (p, s)):
                out[-1] = ast.Assign([ast.Tuple([p.targets[0], s.targets[0]], ast.Store())], ast.Tuple([p.value, s.value], ast.Load()))
                continue
            out.append(s)
        return out


@kind
class dict_update(Blocks):
    """x[k] = v with a name -> x.update({k: v})"""

    def statement(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].value, (ast.Name, ast.Attribute)) and not isinstance(s.targets[0].slice, ast.Slice):
            return ast.Expr(ast.Call(ast.Attribute(s.targets[0].value, "update", ast.Load()), [ast.Dict([s.targets[0].slice], [s.value])], []))
        return s


@kind
class star_list(Blocks):
    """list(x) -> [*x]"""

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == "list" and len(node.args) == 1:
            return ast.List([ast.Starred(node.args[0], ast.Load())], ast.Load())
        return node


@kind
class list_copy_comp(Blocks):
    """list(x) -> [y for y in x]"""

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == "list" and len(node.args) == 1:
            v = self.fresh("y")
            return ast.ListComp(name(v), [ast.comprehension(name(v, True), node.args[0], [], 0)])
        return node


@kind
class type_is(Blocks):
    """docstrings dropped, a statement that does nothing in every function"""

    def function(self, node):
        node.body = [ast.Expr(ast.Constant(None))] + node.body + ([ast.Pass()] if not terminal(node.body) else [])
        return node


@kind
class early_default(Blocks):
    """if c: x = a else: x = b  ->  x = b; if c: x = a    (b constant)"""

    def statement(self, s):
        if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and isinstance(a.targets[0], ast.Name) and ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and isinstance(b.value, (ast.Constant, ast.List, ast.Dict)) and not any(isinstance(x, ast.Name) and x.id == a.targets[0].id for x in ast.walk(s.test)):
                return [b, ast.If(s.test, s.body, [])]
        return s


def apply(kind, root):
    for d, dirs, files in os.walk(os.path.join(root, "src", "wizard")):
        dirs[:] = [x for x in dirs if x not in ("antlr4", "__pycache__")]
        for f in files:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                tree = ast.parse(open(p, encoding="utf-8").read())
                tree = KINDS[kind]().visit(tree)
                ast.fix_missing_locations(tree)
                open(p, "w", encoding="utf-8").write(ast.unparse(tree) + "\n")


if __name__ == "__main__":
    if sys.argv[1] == "LIST":
        print("\n".join(KINDS))
    else:
        apply(sys.argv[1], sys.argv[2])
