#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the whole package, to see that the checks stay quiet on them.

    refactor.py SRC_DIR OUT_DIR NAME     writes the package rewritten by the transform NAME
    refactor.py --list
"""
import ast, copy, os, re, shutil, sys

N = [0]


def fresh(p):
    N[0] += 1
    return "%s_%d" % (p, N[0])


def name(x, ctx=None):
    return ast.Name(id=x, ctx=ctx or ast.Load())


def store(x):
    return ast.Name(id=x, ctx=ast.Store())


def call(f, *args):
    return ast.Call(func=f, args=list(args), keywords=[])


def attr(x, n):
    return ast.Attribute(value=x, attr=n, ctx=ast.Load())


def neg(e):
    return ast.UnaryOp(op=ast.Not(), operand=e)


def pure(e):
    return all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.Load, ast.Subscript, ast.BinOp, ast.operator, ast.UnaryOp, ast.unaryop)) or
               isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" for x in ast.walk(e))


def has(body, *kinds):
    """outside nested functions"""
    todo = list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, kinds):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))
    return False


def loopjump(body):
    """break or continue of the loop itself"""
    for s in body:
        if isinstance(s, (ast.Break, ast.Continue)):
            return True
        if isinstance(s, (ast.For, ast.While)):
            if loopjump(s.orelse):
                return True
            continue
        for f in ("body", "orelse", "finalbody"):
            if loopjump(getattr(s, f, []) if isinstance(getattr(s, f, []), list) else []):
                return True
        for h in getattr(s, "handlers", []):
            if loopjump(h.body):
                return True
    return False


def ends(body):
    return body and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Blocks(ast.NodeTransformer):
    """rewrites lists of statements"""
    fn = None

    def stmts(self, body):
        return body

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(node, (ast.Module, ast.ClassDef)):
                setattr(node, f, self.stmts(b) or [ast.Pass()])
        return node

    def each(self, body, fn):
        out = []
        for s in body:
            r = fn(s)
            out.extend([s] if r is None else r)
        return out


T = {}


def t(c):
    T[c.__name__] = c
    return c


@t
class flipif(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(test=neg(n.test), body=n.orelse, orelse=n.body)
        return n


@t
class flipifexp(ast.NodeTransformer):
    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(test=neg(n.test), body=n.orelse, orelse=n.body)


@t
class tempret(Blocks):
    def stmts(self, body):
        def f(s):
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)):
                v = fresh("result")
                return [ast.Assign(targets=[store(v)], value=s.value), ast.Return(value=name(v))]
        return self.each(body, f)


@t
class inlineret(Blocks):
    def stmts(self, body):
        if len(body) >= 2 and isinstance(body[-1], ast.Return) and isinstance(body[-1].value, ast.Name) and isinstance(body[-2], ast.Assign) and \
                len(body[-2].targets) == 1 and isinstance(body[-2].targets[0], ast.Name) and body[-2].targets[0].id == body[-1].value.id:
            return body[:-2] + [ast.Return(value=body[-2].value)]
        return body


@t
class augment(Blocks):
    def stmts(self, body):
        def f(s):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name, ast.Attribute)) and (isinstance(s.value, ast.Constant) or isinstance(s.value, ast.Call) and getattr(s.value.func, "id", "") == "len"):
                l = copy.deepcopy(s.target)
                l.ctx = ast.Load()
                return [ast.Assign(targets=[s.target], value=ast.BinOp(left=l, op=s.op, right=s.value))]
        return self.each(body, f)


@t
class ifexp_stmt(Blocks):
    def stmts(self, body):
        def f(s):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.IfExp):
                return [ast.If(test=s.value.test, body=[ast.Assign(targets=s.targets, value=s.value.body)], orelse=[ast.Assign(targets=copy.deepcopy(s.targets), value=s.value.orelse)])]
            if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                return [ast.If(test=s.value.test, body=[ast.Return(value=s.value.body)], orelse=[]), ast.Return(value=s.value.orelse)]
        return self.each(body, f)


def rename(e, old, new):
    class R(ast.NodeTransformer):
        def visit_Name(self, n):
            return ast.Name(id=new[n.id], ctx=n.ctx) if n.id in new else n
    return R().visit(e)


def bound(target):
    return [x.id for x in ast.walk(target) if isinstance(x, ast.Name)]


@t
class comp_loop(Blocks):
    """x = [e for t in it if c]  ->  a loop"""
    def stmts(self, body):
        def f(s):
            c = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            if not isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp)) or any(g.is_async for g in c.generators):
                return
            if isinstance(s, ast.Assign) and (len(s.targets) != 1 or not isinstance(s.targets[0], ast.Name)):
                return
            v = fresh("out")
            gens = copy.deepcopy(c.generators)
            new = {}
            for g in gens:
                for b in bound(g.target):
                    new[b] = fresh(b)
            def rn(e, k):
                m = {}
                for g in gens[:k]:
                    for b in bound(g.target):
                        m[b] = new[b]
                return rename(copy.deepcopy(e), None, m)
            orig = copy.deepcopy(gens)
            gens2 = []
            for i, g in enumerate(orig):
                m = {b: new[b] for gg in orig[:i] for b in bound(gg.target)}
                it = rename(copy.deepcopy(g.iter), None, m)
                m2 = dict(m)
                m2.update({b: new[b] for b in bound(g.target)})
                gens2.append((rename(copy.deepcopy(g.target), None, m2), it, [rename(copy.deepcopy(q), None, m2) for q in g.ifs]))
            if isinstance(c, ast.DictComp):
                st = ast.Assign(targets=[ast.Subscript(value=name(v), slice=rename(copy.deepcopy(c.key), None, new), ctx=ast.Store())], value=rename(copy.deepcopy(c.value), None, new))
                init = ast.Dict(keys=[], values=[])
            else:
                st = ast.Expr(call(attr(name(v), "append" if isinstance(c, ast.ListComp) else "add"), rename(copy.deepcopy(c.elt), None, new)))
                init = ast.List(elts=[], ctx=ast.Load()) if isinstance(c, ast.ListComp) else call(name("set"))
            inner = [st]
            for tg, it, ifs in reversed(gens2):
                for q in reversed(ifs):
                    inner = [ast.If(test=q, body=inner, orelse=[])]
                inner = [ast.For(target=tg, iter=it, body=inner, orelse=[])]
            out = [ast.Assign(targets=[store(v)], value=init)] + inner
            if isinstance(s, ast.Return):
                return out + [ast.Return(value=name(v))]
            return out + [ast.Assign(targets=s.targets, value=name(v))]
        return self.each(body, f)


@t
class loop_comp(Blocks):
    """xs = []; for t in it: xs.append(e)  ->  a comprehension"""
    def stmts(self, body):
        out = []
        for s in body:
            p = out[-1] if out else None
            if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and isinstance(p.value, ast.List) and not p.value.elts:
                v = p.targets[0].id
                b, ifs = s.body[0], []
                if isinstance(b, ast.If) and not b.orelse and len(b.body) == 1:
                    ifs, b = [b.test], b.body[0]
                if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and b.value.func.attr == "append" and isinstance(b.value.func.value, ast.Name) and b.value.func.value.id == v and \
                        not any(isinstance(x, (ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Name) and x.id == v for e in b.value.args + ifs + [s.iter] for x in ast.walk(e)):
                    out[-1] = ast.Assign(targets=p.targets, value=ast.ListComp(elt=b.value.args[0], generators=[ast.comprehension(target=s.target, iter=s.iter, ifs=ifs, is_async=0)]))
                    continue
            out.append(s)
        return out


@t
class renamelocals(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        ps = {a.arg for f in ast.walk(n) if isinstance(f, (ast.FunctionDef, ast.Lambda)) for a in f.args.args + f.args.kwonlyargs + ([f.args.vararg] if f.args.vararg else []) + ([f.args.kwarg] if f.args.kwarg else [])}
        skip = ps | {x for g in ast.walk(n) if isinstance(g, (ast.Global, ast.Nonlocal)) for x in g.names}
        skip |= {g.name for g in ast.walk(n) if isinstance(g, (ast.FunctionDef, ast.ClassDef))}
        skip |= {(a.asname or a.name).split(".")[0] for g in ast.walk(n) if isinstance(g, (ast.Import, ast.ImportFrom)) for a in g.names}
        loc = {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - skip
        for x in (x for s in n.body for x in ast.walk(s)):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + "_v"
            if isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name = x.name + "_v"
        return n


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Is: ast.Is, ast.IsNot: ast.IsNot}


@t
class flipcmp(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in FLIP and pure(n.left) and pure(n.comparators[0]):
            return ast.Compare(left=n.comparators[0], ops=[FLIP[type(n.ops[0])]()], comparators=[n.left])
        return n


NEG = {ast.NotIn: ast.In, ast.IsNot: ast.Is, ast.NotEq: ast.Eq}
ANTI = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt}


@t
class notcmp(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in NEG:
            return neg(ast.Compare(left=n.left, ops=[NEG[type(n.ops[0])]()], comparators=n.comparators))
        return n


@t
class anticmp(ast.NodeTransformer):
    """a < b -> not a >= b"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in ANTI:
            return neg(ast.Compare(left=n.left, ops=[ANTI[type(n.ops[0])]()], comparators=n.comparators))
        return n


@t
class chain(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 2 and pure(n.comparators[0]):
            return ast.BoolOp(op=ast.And(), values=[ast.Compare(left=n.left, ops=[n.ops[0]], comparators=[n.comparators[0]]),
                                                    ast.Compare(left=copy.deepcopy(n.comparators[0]), ops=[n.ops[1]], comparators=[n.comparators[1]])])
        return n


@t
class nestif(Blocks):
    def stmts(self, body):
        def f(s):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                b = s.body
                for v in reversed(s.test.values):
                    b = [ast.If(test=v, body=b, orelse=[])]
                return b
        return self.each(body, f)


@t
class mergeif(Blocks):
    def stmts(self, body):
        def f(s):
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
                return [ast.If(test=ast.BoolOp(op=ast.And(), values=[s.test, s.body[0].test]), body=s.body[0].body, orelse=[])]
        return self.each(body, f)


@t
class demorgan(ast.NodeTransformer):
    """in conditions: a and b -> not (not a or not b)"""
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            o = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = neg(ast.BoolOp(op=o, values=[neg(v) for v in n.test.values]))
        return n


@t
class elsereturn(Blocks):
    """if c: return ...; rest  ->  if c: return ... else: rest"""
    def stmts(self, body):
        for i in range(len(body) - 2, -1, -1):
            s = body[i]
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(body):
                body = body[:i] + [ast.If(test=s.test, body=s.body, orelse=body[i + 1:])]
        return body


@t
class unelse(Blocks):
    """if c: return ... else: B  ->  if c: return ...; B"""
    def stmts(self, body):
        def f(s):
            if isinstance(s, ast.If) and s.orelse and ends(s.body):
                return [ast.If(test=s.test, body=s.body, orelse=[])] + s.orelse
        return self.each(body, f)


@t
class guards(Blocks):
    """a trailing if becomes a guard with an early return or continue"""
    def stmts(self, body):
        return body

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        s = n.body[-1]
        if isinstance(s, ast.If) and not s.orelse and not has(n.body, ast.Yield, ast.YieldFrom) and not ends(s.body):
            n.body = n.body[:-1] + [ast.If(test=neg(s.test), body=[ast.Return(value=None)], orelse=[])] + s.body
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        s = n.body[-1]
        if isinstance(s, ast.If) and not s.orelse:
            n.body = n.body[:-1] + [ast.If(test=neg(s.test), body=[ast.Continue()], orelse=[])] + s.body
        return n


@t
class forwhile(Blocks):
    def stmts(self, body):
        def f(s):
            if isinstance(s, ast.For) and not s.orelse:
                v, d = fresh("it"), fresh("item")
                return [ast.Assign(targets=[store(v)], value=call(name("iter"), s.iter)),
                        ast.While(test=ast.Constant(True), body=[
                            ast.Try(body=[ast.Assign(targets=[store(d)], value=call(name("next"), name(v)))],
                                    handlers=[ast.ExceptHandler(type=name("StopIteration"), name=None, body=[ast.Break()])], orelse=[], finalbody=[]),
                            ast.Assign(targets=[s.target], value=name(d))] + s.body, orelse=[])]
        return self.each(body, f)


@t
class fordefault(Blocks):
    """for loops as while loops over next with a default"""
    def stmts(self, body):
        def f(s):
            if isinstance(s, ast.For) and not s.orelse:
                v, d, e = fresh("it"), fresh("item"), fresh("end")
                return [ast.Assign(targets=[store(v)], value=call(name("iter"), s.iter)),
                        ast.Assign(targets=[store(e)], value=call(name("object"))),
                        ast.While(test=ast.Constant(True), body=[
                            ast.Assign(targets=[store(d)], value=call(name("next"), name(v), name(e))),
                            ast.If(test=ast.Compare(left=name(d), ops=[ast.Is()], comparators=[name(e)]), body=[ast.Break()], orelse=[]),
                            ast.Assign(targets=[s.target], value=name(d))] + s.body, orelse=[])]
        return self.each(body, f)


@t
class forindex(Blocks):
    """for loops over the positions of a list of the elements"""
    def stmts(self, body):
        def f(s):
            if isinstance(s, ast.For) and not s.orelse:
                v, d = fresh("elems"), fresh("i")
                return [ast.Assign(targets=[store(v)], value=call(name("list"), s.iter)),
                        ast.For(target=store(d), iter=call(name("range"), call(name("len"), name(v))), orelse=[], body=[
                            ast.Assign(targets=[s.target], value=ast.Subscript(value=name(v), slice=name(d), ctx=ast.Load()))] + s.body)]
        return self.each(body, f)


@t
class whileindex(Blocks):
    """for loops as while loops over the positions"""
    def stmts(self, body):
        def f(s):
            if isinstance(s, ast.For) and not s.orelse:
                v, d = fresh("elems"), fresh("i")
                return [ast.Assign(targets=[store(v)], value=call(name("list"), s.iter)), ast.Assign(targets=[store(d)], value=ast.Constant(0)),
                        ast.While(test=ast.Compare(left=name(d), ops=[ast.Lt()], comparators=[call(name("len"), name(v))]), orelse=[], body=[
                            ast.Assign(targets=[s.target], value=ast.Subscript(value=name(v), slice=name(d), ctx=ast.Load())),
                            ast.AugAssign(target=store(d), op=ast.Add(), value=ast.Constant(1))] + s.body)]
        return self.each(body, f)


@t
class whileend(Blocks):
    """the same with the step at the end of the body, where nothing continues"""
    def stmts(self, body):
        def f(s):
            if isinstance(s, ast.For) and not s.orelse and not has(s.body, ast.Continue):
                v, d = fresh("elems"), fresh("i")
                return [ast.Assign(targets=[store(v)], value=call(name("list"), s.iter)), ast.Assign(targets=[store(d)], value=ast.Constant(0)),
                        ast.While(test=ast.Compare(left=name(d), ops=[ast.Lt()], comparators=[call(name("len"), name(v))]), orelse=[], body=[
                            ast.Assign(targets=[s.target], value=ast.Subscript(value=name(v), slice=name(d), ctx=ast.Load()))] + s.body + [
                            ast.AugAssign(target=store(d), op=ast.Add(), value=ast.Constant(1))])]
        return self.each(body, f)


def impl(n, cls):
    """(the outer function, the inner one)"""
    a = n.args
    inner = copy.deepcopy(n)
    inner.name = "_%s_impl" % n.name.strip("_")
    inner.decorator_list = []
    args = [name(x.arg) for x in a.args]
    if cls:
        f, args = attr(args[0], inner.name), args[1:]
    else:
        f = name(inner.name)
    if a.vararg:
        args.append(ast.Starred(value=name(a.vararg.arg), ctx=ast.Load()))
    kws = [ast.keyword(arg=x.arg, value=name(x.arg)) for x in a.kwonlyargs]
    if a.kwarg:
        kws.append(ast.keyword(arg=None, value=name(a.kwarg.arg)))
    c = ast.Call(func=f, args=args, keywords=kws)
    doc = [n.body[0]] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str) else []
    n.body = doc + [ast.Return(value=c)]
    return n, inner


@t
class extract(ast.NodeTransformer):
    """the body of every function and method moves to a helper"""
    def visit_Module(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and len(s.body) > 2:
                o, i = impl(s, None)
                out += [i, o]
            elif isinstance(s, ast.ClassDef):
                b = []
                for x in s.body:
                    if isinstance(x, ast.FunctionDef) and not x.decorator_list and len(x.body) > 1 and x.args.args and not any(isinstance(y, ast.Name) and y.id in ("super", "__class__") for y in ast.walk(x)) and not x.name == "__new__":
                        o, i = impl(x, s)
                        i.name = "_%s%s" % (s.name.lower(), i.name)
                        o.body[-1].value.func.attr = i.name
                        b += [o, i]
                    else:
                        b.append(x)
                s.body = b
                out.append(s)
            else:
                out.append(s)
        n.body = out
        return n


@t
class hoistargs(Blocks):
    """calls among the arguments of a call are taken first, each to a variable"""
    def stmts(self, body):
        def f(s):
            c = s.value if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) else None
            if not isinstance(c, ast.Call) or c.keywords or not pure(c.func) or any(isinstance(a, (ast.Starred, ast.GeneratorExp, ast.Lambda)) for a in c.args):
                return
            if isinstance(c.func, ast.Name) and c.func.id == "super":
                return
            out, args = [], []
            for a in c.args:
                if isinstance(a, (ast.Name, ast.Constant)):
                    args.append(a)
                else:
                    v = fresh("arg")
                    out.append(ast.Assign(targets=[store(v)], value=a))
                    args.append(name(v))
            if out:
                c.args = args
                return out + [s]
        return self.each(body, f)


@t
class hoistcond(Blocks):
    def stmts(self, body):
        def f(s):
            if isinstance(s, ast.If):
                v = fresh("cond")
                t_ = s.test
                s.test = name(v)
                return [ast.Assign(targets=[store(v)], value=t_), s]
        return self.each(body, f)


@t
class literals(ast.NodeTransformer):
    def visit_List(self, n):
        self.generic_visit(n)
        return call(name("list")) if not n.elts and isinstance(n.ctx, ast.Load) else n

    def visit_Dict(self, n):
        self.generic_visit(n)
        return call(name("dict")) if not n.keys else n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and not n.args and not n.keywords:
            if n.func.id == "list":
                return ast.List(elts=[], ctx=ast.Load())
            if n.func.id == "dict":
                return ast.Dict(keys=[], values=[])
        return n


@t
class fstring(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            args = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right] if isinstance(n.right, (ast.Call, ast.JoinedStr)) else None
            parts = re.split(r"(%[a-z%])", n.left.value)
            if args is None or any(p.startswith("%") and len(p) == 2 and p not in ("%s", "%d", "%%") or "%" in p and len(p) != 2 for p in parts) or sum(p in ("%s", "%d") for p in parts) != len(args):
                return n
            vals, args = [], list(args)
            for p in parts:
                if p == "%%":
                    vals.append(ast.Constant("%"))
                elif p == "%s" or p == "%d":
                    vals.append(ast.FormattedValue(value=args.pop(0), conversion=115 if p == "%s" else -1, format_spec=None))
                elif p:
                    vals.append(ast.Constant(p))
            return ast.JoinedStr(values=vals)
        return n


@t
class formatcall(ast.NodeTransformer):
    """"..%s.." % (a, b) -> "..{}..".format(a, b)"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            args = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right] if isinstance(n.right, ast.Call) else None
            parts = re.split(r"(%[a-z%])", n.left.value)
            if args is None or any("%" in p and p not in ("%s",) for p in parts) or sum(p == "%s" for p in parts) != len(args):
                return n
            s = "".join("{}" if p == "%s" else p.replace("{", "{{").replace("}", "}}") for p in parts)
            return call(attr(ast.Constant(s), "format"), *args)
        return n


@t
class noop(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str) else 0
        n.body = n.body[:k] + [ast.Pass(), ast.Assign(targets=[store("_unused")], value=ast.Constant(0))] + n.body[k:]
        return n


@t
class noannot(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.returns = None
        for a in ast.walk(n.args):
            if isinstance(a, ast.arg):
                a.annotation = None
        return n

    def visit_AnnAssign(self, n):
        return ast.Assign(targets=[n.target], value=n.value) if n.value is not None else n


@t
class isinst(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple) and pure(n.args[0]):
            return ast.BoolOp(op=ast.Or(), values=[call(name("isinstance"), copy.deepcopy(n.args[0]), c) for c in n.args[1].elts])
        return n


@t
class withtry(Blocks):
    """with open(..) as f: B -> f = open(..); try: B finally: f.close()"""
    def stmts(self, body):
        def f(s):
            if isinstance(s, ast.With) and len(s.items) == 1 and isinstance(s.items[0].context_expr, ast.Call) and isinstance(s.items[0].optional_vars, ast.Name):
                fn = s.items[0].context_expr.func
                if isinstance(fn, ast.Name) and fn.id == "open" or isinstance(fn, ast.Attribute) and fn.attr == "open":
                    v = s.items[0].optional_vars.id
                    return [ast.Assign(targets=[store(v)], value=s.items[0].context_expr),
                            ast.Try(body=s.body, handlers=[], orelse=[], finalbody=[ast.Expr(call(attr(name(v), "close")))])]
        return self.each(body, f)


@t
class reorder(ast.NodeTransformer):
    """methods in reverse order (those with the same name stay in order)"""
    def visit_ClassDef(self, n):
        fs = [x for x in n.body if isinstance(x, ast.FunctionDef)]
        names = []
        for x in fs:
            if x.name not in names:
                names.append(x.name)
        new = iter([x for m in reversed(names) for x in fs if x.name == m])
        if any(isinstance(d, ast.Name) and d.id not in ("property", "staticmethod", "classmethod", "abstractmethod") for x in fs for d in x.decorator_list):
            return n
        rest = [x for x in n.body if not isinstance(x, ast.FunctionDef)]
        if any(isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id in names for y in ast.walk(x.value)) for x in rest):
            return n
        n.body = rest + list(new)
        return n


@t
class enumcount(Blocks):
    """for i, x in enumerate(xs) -> a counter"""
    def stmts(self, body):
        def f(s):
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate" and len(s.iter.args) == 1 and not s.iter.keywords and \
                    isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
                i = s.target.elts[0].id
                c = fresh("n")
                return [ast.Assign(targets=[store(c)], value=ast.UnaryOp(op=ast.USub(), operand=ast.Constant(1))),
                        ast.For(target=s.target.elts[1], iter=s.iter.args[0], orelse=[], body=[
                            ast.AugAssign(target=store(c), op=ast.Add(), value=ast.Constant(1)),
                            ast.Assign(targets=[store(i)], value=name(c))] + s.body)]
        return self.each(body, f)


@t
class itemsloop(Blocks):
    """for k, v in d.items() -> for k in d.keys(): v = d[k]"""
    def stmts(self, body):
        def f(s):
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == "items" and pure(s.iter.func.value) and \
                    isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
                d, (k, v) = s.iter.func.value, s.target.elts
                return [ast.For(target=k, iter=copy.deepcopy(d), orelse=[], body=[
                    ast.Assign(targets=[v], value=ast.Subscript(value=copy.deepcopy(d), slice=name(k.id), ctx=ast.Load()))] + s.body)]
        return self.each(body, f)


@t
class constants(ast.NodeTransformer):
    """string and bytes constants of functions become module constants"""
    def visit_Module(self, n):
        self.new = {}
        self.depth = 0
        self.generic_visit(n)
        k = 0
        while k < len(n.body) and (isinstance(n.body[k], (ast.Import, ast.ImportFrom)) or isinstance(n.body[k], ast.Expr)):
            k += 1
        n.body[k:k] = [ast.Assign(targets=[store(v)], value=ast.Constant(c)) for (_, c), v in self.new.items()]
        return n

    def visit_FunctionDef(self, n):
        self.depth += 1
        n.body = [s if i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) else self.visit(s) for i, s in enumerate(n.body)]
        self.depth -= 1
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_Constant(self, n):
        if self.depth and isinstance(n.value, (str, bytes)):
            key = (type(n.value), n.value)
            if key not in self.new:
                self.new[key] = "_K%d" % len(self.new)
            return name(self.new[key])
        return n


@t
class lambdadef(Blocks):
    def stmts(self, body):
        def f(s):
            if not isinstance(s, (ast.Assign, ast.Return, ast.Expr)):
                return
            ls = [x for x in ast.walk(s) if isinstance(x, ast.Lambda)]
            inner = {id(y) for x in ast.walk(s) if isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) for y in ast.walk(x) if y is not x}
            ls = [x for x in ls if id(x) not in inner]
            out = []
            new = {}
            for x in ls:
                v = fresh("fn")
                new[id(x)] = v
                out.append(ast.FunctionDef(name=v, args=x.args, body=[ast.Return(value=x.body)], decorator_list=[], returns=None, type_params=[]))

            class S(ast.NodeTransformer):
                def visit_Lambda(self, n):
                    return name(new[id(n)]) if id(n) in new else n
            s2 = S().visit(s)
            return out + [s2] if out else None
        return self.each(body, f)


@t
class genlist(ast.NodeTransformer):
    """any/all/sum/join/sorted/list of a generator expression take a list"""
    def visit_Call(self, n):
        self.generic_visit(n)
        nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
        if nm in ("any", "all", "sum", "join", "sorted", "list", "set", "tuple", "dict", "max", "min") and n.args and isinstance(n.args[0], ast.GeneratorExp):
            g = n.args[0]
            n.args[0] = ast.ListComp(elt=g.elt, generators=g.generators)
        return n


@t
class anyloop(Blocks):
    """if any(e for ..): -> a flag set in a loop"""
    def stmts(self, body):
        def f(s):
            if isinstance(s, (ast.If, ast.Return)):
                c = s.test if isinstance(s, ast.If) else s.value
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("any", "all") and isinstance(c.args[0], (ast.GeneratorExp, ast.ListComp)) and len(c.args[0].generators) == 1:
                    g = c.args[0].generators[0]
                    a = c.func.id == "any"
                    new = {b: fresh(b) for b in bound(g.target)}
                    v = fresh("flag")
                    inner = [ast.If(test=rename(c.args[0].elt, None, new) if a else neg(rename(c.args[0].elt, None, new)), body=[ast.Assign(targets=[store(v)], value=ast.Constant(a)), ast.Break()], orelse=[])]
                    for q in reversed(g.ifs):
                        inner = [ast.If(test=rename(q, None, new), body=inner, orelse=[])]
                    out = [ast.Assign(targets=[store(v)], value=ast.Constant(not a)), ast.For(target=rename(g.target, None, new), iter=g.iter, body=inner, orelse=[])]
                    if isinstance(s, ast.If):
                        s.test = name(v)
                    else:
                        s.value = name(v)
                    return out + [s]
        return self.each(body, f)


@t
class assertraise(Blocks):
    def stmts(self, body):
        def f(s):
            if isinstance(s, ast.Assert):
                return [ast.If(test=neg(s.test), body=[ast.Raise(exc=call(name("AssertionError"), *([s.msg] if s.msg else [])), cause=None)], orelse=[])]
        return self.each(body, f)


@t
class raisetemp(Blocks):
    def stmts(self, body):
        def f(s):
            if isinstance(s, ast.Raise) and isinstance(s.exc, ast.Call):
                v = fresh("error")
                return [ast.Assign(targets=[store(v)], value=s.exc), ast.Raise(exc=name(v), cause=s.cause)]
        return self.each(body, f)


@t
class fortarget(Blocks):
    def stmts(self, body):
        def f(s):
            if isinstance(s, ast.For) and isinstance(s.target, ast.Tuple):
                v = fresh("item")
                s.body = [ast.Assign(targets=[s.target], value=name(v))] + s.body
                s.target = store(v)
        return self.each(body, f)


@t
class splitassign(Blocks):
    def stmts(self, body):
        def f(s):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.targets[0].elts) == len(s.value.elts):
                vs = [fresh("part") for x in s.value.elts]
                return [ast.Assign(targets=[store(v)], value=e) for v, e in zip(vs, s.value.elts)] + [ast.Assign(targets=[x], value=name(v)) for v, x in zip(vs, s.targets[0].elts)]
        return self.each(body, f)


@t
class unpackassign(Blocks):
    """a, b = f() -> r = f(); a = r[0]; b = r[1] (sequences only)"""
    def stmts(self, body):
        def f(s):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, (ast.Name, ast.Call)) and all(isinstance(x, ast.Name) for x in s.targets[0].elts):
                v = fresh("both")
                return [ast.Assign(targets=[store(v)], value=call(name("tuple"), s.value))] + [
                    ast.Assign(targets=[x], value=ast.Subscript(value=name(v), slice=ast.Constant(i), ctx=ast.Load())) for i, x in enumerate(s.targets[0].elts)]
        return self.each(body, f)


@t
class bodyfn(Blocks):
    """the body of a loop becomes a local function, where nothing but the loop variables flows in or out"""
    def visit_FunctionDef(self, n):
        self.fnode = n
        self.uses = {}
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                self.uses.setdefault(x.id, []).append(x)
        return self.generic_visit(n)

    def stmts(self, body):
        def f(s):
            if isinstance(s, ast.For) and not s.orelse and len(s.body) >= 2 and not has(s.body, ast.Return, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global, ast.FunctionDef, ast.Lambda) and not loopjump(s.body):
                inside = {id(x) for x in ast.walk(s)}
                loc = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
                if any(id(u) not in inside for v in loc for u in self.uses.get(v, [])):
                    return
                if any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) for b in s.body for x in ast.walk(b)):
                    return
                if has(s.body, ast.Call) and any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(s)):
                    return
                bs = bound(s.target)
                if set(bs) & loc:
                    return
                v = fresh("step")
                fn = ast.FunctionDef(name=v, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=b) for b in bs], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                                     body=s.body, decorator_list=[], returns=None, type_params=[])
                s.body = [ast.Expr(call(name(v), *[name(b) for b in bs]))]
                return [fn, s]
        return self.each(body, f)


@t
class yieldfrom(Blocks):
    """for x in xs: yield x <-> yield from xs"""
    def stmts(self, body):
        def f(s):
            if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Yield) and isinstance(s.body[0].value.value, ast.Name) and isinstance(s.target, ast.Name) and s.body[0].value.value.id == s.target.id:
                return [ast.Expr(ast.YieldFrom(value=s.iter))]
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom):
                v = fresh("y")
                return [ast.For(target=store(v), iter=s.value.value, body=[ast.Expr(ast.Yield(value=name(v)))], orelse=[])]
        return self.each(body, f)


@t
class selfalias(ast.NodeTransformer):
    """attributes read several times in a straight-line function and never written anywhere in it are kept in a variable"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.decorator_list or not n.args.args or n.args.args[0].arg != "self" or has(n.body, ast.Yield, ast.YieldFrom):
            return n
        count = {}
        for x in ast.walk(n):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                count.setdefault(x.attr, []).append(x)
        calls = {x.func.attr for x in ast.walk(n) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}
        own = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self" for x in ast.walk(n))
        if own:
            return n
        k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        if len(n.body) <= k or not isinstance(n.body[k], (ast.Assign, ast.Return, ast.Expr, ast.If)):
            return n
        head = set()
        first = n.body[k]
        top = first.test if isinstance(first, ast.If) else first
        for x in ast.walk(top):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load):
                head.add(x.attr)
        pre = []
        for a in sorted(head):
            xs = count[a]
            if a in calls or len(xs) < 2 or any(not isinstance(x.ctx, ast.Load) for x in xs):
                continue
            v = fresh(a.strip("_"))
            for x in xs:
                x.attr = "%s"
                x._alias = v
            pre.append(ast.Assign(targets=[store(v)], value=attr(name("self"), a)))

        class S(ast.NodeTransformer):
            def visit_Attribute(self, y):
                self.generic_visit(y)
                return name(y._alias) if hasattr(y, "_alias") else y
        n.body = n.body[:k] + pre + [S().visit(s) for s in n.body[k:]]
        return n


@t
class impalias(ast.NodeTransformer):
    """import x -> import x as _x"""
    def visit_Module(self, n):
        al = {}
        for s in n.body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname is None and "." not in a.name:
                        a.asname = "_" + a.name
                        al[a.name] = a.asname
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in al:
                x.id = al[x.id]
        return n


@t
class isnone(ast.NodeTransformer):
    """x is None -> None is x;  conditional expressions on None swapped"""
    def visit_IfExp(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and isinstance(n.test.ops[0], (ast.Is, ast.IsNot)):
            o = ast.IsNot() if isinstance(n.test.ops[0], ast.Is) else ast.Is()
            return ast.IfExp(test=ast.Compare(left=n.test.left, ops=[o], comparators=n.test.comparators), body=n.orelse, orelse=n.body)
        return n


@t
class kwargs(ast.NodeTransformer):
    """positional arguments of calls of the package's own classes are named"""
    def visit_Module(self, n):
        self.sig = {}
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and not s.args.vararg:
                self.sig[s.name] = [a.arg for a in s.args.args]
            if isinstance(s, ast.ClassDef):
                for x in s.body:
                    if isinstance(x, ast.FunctionDef) and x.name == "__init__" and not x.args.vararg:
                        self.sig[s.name] = [a.arg for a in x.args.args][1:]
        return self.generic_visit(n)

    def visit_Call(self, n):
        self.generic_visit(n)
        ps = self.sig.get(n.func.id) if isinstance(n.func, ast.Name) else None
        if ps and n.args and len(n.args) <= len(ps) and not any(isinstance(a, ast.Starred) for a in n.args) and not any(k.arg is None or k.arg in ps[:len(n.args)] for k in n.keywords):
            n.keywords = [ast.keyword(arg=p, value=a) for p, a in zip(ps, n.args)] + n.keywords
            n.args = []
        return n


def main():
    if sys.argv[1] == "--list":
        print(" ".join(T))
        return
    src, out, which = sys.argv[1:4]
    k = 0
    for d, ds, fs in os.walk(src):
        ds[:] = [x for x in ds if x != "__pycache__"]
        for f in fs:
            p = os.path.join(d, f)
            q = os.path.join(out, os.path.relpath(p, src))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if not f.endswith(".py"):
                shutil.copy(p, q)
                continue
            tree = ast.parse(open(p).read())
            old = ast.unparse(tree)
            for w in which.split("+"):
                tree = T[w]().visit(tree)
                ast.fix_missing_locations(tree)
                tree = ast.parse(ast.unparse(tree))
            new = ast.unparse(tree)
            k += sum(1 for a in __import__("difflib").unified_diff(old.split("\n"), new.split("\n"), n=0) if a.startswith("@@"))
            open(q, "w").write(new + "\n")
    print("%s: %d places" % (which, k))


if __name__ == "__main__":
    main()
