"""Loops written out with iter() and next() are the for loops they stand for."""
import ast


def _is_call(e, name, n):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == name and len(e.args) == n and not e.keywords


def _target(s):
    """(variable, value) of a plain assignment"""
    if isinstance(s, ast.Assign) and len(s.targets) == 1:
        return s.targets[0], s.value
    if isinstance(s, ast.AnnAssign) and s.value is not None:
        return s.target, s.value
    return None, None


def _true(e):
    return isinstance(e, ast.Constant) and bool(e.value)


def _steps(s, pos):
    """pos += 1"""
    if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and s.target.id == pos:
        return isinstance(s.value, ast.Constant) and type(s.value.value) is int and s.value.value == 1
    v, e = _target(s)
    if isinstance(v, ast.Name) and v.id == pos and isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        for a, b in ((e.left, e.right), (e.right, e.left)):
            if isinstance(a, ast.Name) and a.id == pos and isinstance(b, ast.Constant) and type(b.value) is int and b.value == 1:
                return True
    return False


def _continues(stmts):
    """a continue of this loop itself"""
    for s in stmts:
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            if isinstance(s, (ast.For, ast.While)) and _continues(s.orelse):
                return True
            continue
        for f in ("body", "orelse", "finalbody"):
            if _continues(getattr(s, f, None) or []):
                return True
        for h in getattr(s, "handlers", None) or []:
            if _continues(h.body):
                return True
    return False


class _Replace(ast.NodeTransformer):
    def __init__(self, by):
        self.by = by

    def visit_Subscript(self, n):
        if id(n) in self.by:
            return ast.copy_location(ast.Name(id=self.by[id(n)], ctx=ast.Load()), n)
        return self.generic_visit(n)


class Loops(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        outer = getattr(self, "uses", None)
        self.uses = {}
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                self.uses.setdefault(x.id, []).append(x)
        self.generic_visit(n)
        self.uses = outer
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def generic_visit(self, node):
        super().generic_visit(node)
        if getattr(self, "uses", None) is None:
            return node
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.stmts(b))
        return node

    def stmts(self, body):
        i = 0
        while i < len(body):
            if isinstance(body[i], (ast.While, ast.For)):
                r = (self.loop(body, i) if isinstance(body[i], ast.While) else None) or self.indexed(body, i)
                if r is not None:
                    body = r
                    i = 0
                    continue
            i += 1
        return body

    def loop(self, body, i):
        w = body[i]
        if w.orelse:
            return None
        got = self.stepped(w) or self.sentinel(w, body[:i]) or self.walrus(w, body[:i])
        if got is None:
            return None
        it, target, rest, after, drop = got
        # where the iterator comes from
        for j in range(i - 1, -1, -1):
            v, e = _target(body[j])
            if isinstance(v, ast.Name) and v.id == it:
                break
            if any(isinstance(x, ast.Name) and x.id == it for x in ast.walk(body[j])):
                return None
        else:
            return None
        if not _is_call(e, "iter", 1) or len(self.uses.get(it, [])) != 2:
            return None
        between = [k for k in range(j + 1, i) if k not in drop]
        if not all(isinstance(body[k], (ast.Assign, ast.AnnAssign)) and not any(isinstance(x, (ast.Call, ast.Yield, ast.YieldFrom)) and not (
                isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("list", "dict", "set", "object", "deque", "bytearray", "len", "iter") and not x.args)
                for x in ast.walk(body[k])) for k in between):
            return None
        if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in {y.id for y in ast.walk(e) if isinstance(y, ast.Name)} for k in between for x in ast.walk(body[k])):
            return None
        loop = ast.copy_location(ast.For(target=target, iter=e.args[0], body=rest or [ast.copy_location(ast.Pass(), w)], orelse=after, type_comment=None), w)
        ast.fix_missing_locations(loop)
        return [s for k, s in enumerate(body[:i]) if k != j and k not in drop] + [loop] + body[i + 1:]

    def indexed(self, body, i):
        """loops over the positions of a list made for it, as loops over the list"""
        w = body[i]
        if w.orelse:
            return None
        start = None
        if isinstance(w, ast.For):
            if not (isinstance(w.target, ast.Name) and _is_call(w.iter, "range", 1) and _is_call(w.iter.args[0], "len", 1) and isinstance(w.iter.args[0].args[0], ast.Name)):
                return None
            pos, seq, rest = w.target.id, w.iter.args[0].args[0].id, list(w.body)
            inside = [x for s in w.body for x in ast.walk(s)]
            if any(isinstance(x, ast.Name) and x.id == pos and not isinstance(x.ctx, ast.Load) for x in inside):
                return None
        else:
            c = w.test
            if not (isinstance(c, ast.Compare) and len(c.ops) == 1):
                return None
            a, b = c.left, c.comparators[0]
            if isinstance(c.ops[0], ast.Gt):
                a, b = b, a
            elif not isinstance(c.ops[0], (ast.Lt, ast.NotEq)):
                return None
            if isinstance(c.ops[0], ast.NotEq) and isinstance(b, ast.Name):
                a, b = b, a
            if not (isinstance(a, ast.Name) and _is_call(b, "len", 1) and isinstance(b.args[0], ast.Name)):
                return None
            pos, seq = a.id, b.args[0].id
            step = [k for k, s in enumerate(w.body) if _steps(s, pos)]
            if len(step) != 1:
                return None
            step = step[0]
            before, after = w.body[:step], w.body[step + 1:]
            if any(isinstance(x, ast.Name) and x.id == pos for s in after for x in ast.walk(s)):
                return None
            if any(isinstance(x, ast.Name) and x.id == pos and not isinstance(x.ctx, ast.Load) for s in before for x in ast.walk(s)) or _continues(before):
                return None
            rest = before + after
            for j in range(i - 1, -1, -1):
                v, e = _target(body[j])
                if isinstance(v, ast.Name) and v.id == pos:
                    break
                if any(isinstance(x, ast.Name) and x.id == pos for x in ast.walk(body[j])):
                    return None
            else:
                return None
            if not (isinstance(e, ast.Constant) and type(e.value) is int and e.value == 0):
                return None
            start = j
            # the position is nothing outside the loop
            here = {id(x) for s in [w, body[j]] for x in ast.walk(s)}
            if any(id(x) not in here for x in self.uses.get(pos, [])):
                return None
        inside = [x for s in rest for x in ast.walk(s)]
        # the list is a list of its own, only read by position
        made = None
        for j in range(i - 1, -1, -1):
            v, e = _target(body[j])
            if isinstance(v, ast.Name) and v.id == seq:
                made = j
                break
        if made is None or not (_is_call(e, "list", 1) or _is_call(e, "tuple", 1) or isinstance(e, ast.ListComp) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "sorted"):
            return None
        at = [x for x in inside if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == seq
              and isinstance(x.slice, ast.Name) and x.slice.id == pos]
        lens = [x for x in ast.walk(w.iter if isinstance(w, ast.For) else w.test) if isinstance(x, ast.Name) and x.id == seq]
        known = {id(x.value) for x in at} | {id(x) for x in lens} | {id(v)}
        if any(id(x) not in known for x in self.uses.get(seq, [])):
            return None
        between = [body[k] for k in range(made + 1, i) if k != start]
        if between and not all(isinstance(s, (ast.Assign, ast.AnnAssign)) and not any(isinstance(x, (ast.Call, ast.Yield, ast.YieldFrom)) for x in ast.walk(s)) for s in between):
            return None
        sub = {id(x.slice) for x in at}
        other = [x for x in inside if isinstance(x, ast.Name) and x.id == pos and id(x) not in sub]
        if isinstance(w, ast.For):
            mine = {id(x) for x in ast.walk(w)}
            if any(id(x) not in mine for x in self.uses.get(pos, [])):
                return None
        x, first = _target(rest[0])
        if len(at) == 1 and first is at[0]:
            target, rest = x, rest[1:]
        else:
            el = "%s_of_%s" % (pos, seq)
            target = ast.Name(id=el, ctx=ast.Store())
            rest = [_Replace({id(a): el for a in at}).visit(s) for s in rest]
        it = e
        if other:
            it = ast.Call(func=ast.Name(id="enumerate", ctx=ast.Load()), args=[it], keywords=[])
            target = ast.Tuple(elts=[ast.Name(id=pos, ctx=ast.Store()), target], ctx=ast.Store())
        loop = ast.copy_location(ast.For(target=target, iter=it, body=rest or [ast.Pass()], orelse=[], type_comment=None), w)
        ast.copy_location(it, e)
        ast.fix_missing_locations(loop)
        return [s for k, s in enumerate(body[:i]) if k not in (made, start)] + [loop] + body[i + 1:]

    def ended(self, body, it):
        """what follows when the iterator is at its end"""
        if len(body) == 1 and isinstance(body[0], ast.Break):
            return []
        if len(body) == 1 and isinstance(body[0], ast.Return):
            return list(body)
        return None

    def stepped(self, w):
        """while True: try: x = next(it) except StopIteration: break; ..."""
        if not _true(w.test) or not w.body or not isinstance(w.body[0], ast.Try):
            return None
        t = w.body[0]
        if len(t.body) != 1 or len(t.handlers) != 1 or t.finalbody or not (isinstance(t.handlers[0].type, ast.Name) and t.handlers[0].type.id == "StopIteration") or t.handlers[0].name:
            return None
        x, e = _target(t.body[0])
        if x is None or not _is_call(e, "next", 1) or not isinstance(e.args[0], ast.Name):
            return None
        after = self.ended(t.handlers[0].body, e.args[0].id)
        if after is None:
            return None
        return e.args[0].id, x, t.orelse + w.body[1:], after, ()

    def end_of(self, name, before):
        """the statement that makes the name a value nothing else is"""
        us = [u for u in self.uses.get(name, []) if isinstance(u.ctx, ast.Store)]
        if len(us) != 1 or len(self.uses[name]) != 3:
            return None
        for k, s in enumerate(before):
            v, e = _target(s)
            if v is us[0] and _is_call(e, "object", 0):
                return k
        return None

    def sentinel(self, w, before):
        """while True: x = next(it, end); if x is end: break; ..."""
        if not _true(w.test) or len(w.body) < 2 or not isinstance(w.body[1], ast.If) or w.body[1].orelse:
            return None
        x, e = _target(w.body[0])
        c = w.body[1].test
        if not isinstance(x, ast.Name) or not _is_call(e, "next", 2) or not all(isinstance(a, ast.Name) for a in e.args):
            return None
        if not (isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], ast.Is) and all(isinstance(a, ast.Name) for a in (c.left, c.comparators[0])) and {c.left.id, c.comparators[0].id} == {x.id, e.args[1].id}):
            return None
        k = self.end_of(e.args[1].id, before)
        after = self.ended(w.body[1].body, e.args[0].id)
        if k is None or after is None:
            return None
        return e.args[0].id, ast.Name(id=x.id, ctx=ast.Store()), w.body[2:], after, (k,)

    def walrus(self, w, before):
        """while (x := next(it, end)) is not end: ..."""
        c = w.test
        if not (isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], ast.IsNot) and isinstance(c.left, ast.NamedExpr) and isinstance(c.comparators[0], ast.Name)):
            return None
        e = c.left.value
        if not _is_call(e, "next", 2) or not all(isinstance(a, ast.Name) for a in e.args) or e.args[1].id != c.comparators[0].id:
            return None
        k = self.end_of(e.args[1].id, before)
        if k is None:
            return None
        return e.args[0].id, ast.Name(id=c.left.target.id, ctx=ast.Store()), w.body, [], (k,)


def loops(tree):
    return Loops().visit(tree)
