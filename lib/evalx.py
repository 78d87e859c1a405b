"""Expression half of the value-flow engine (see psi.py)."""
import ast
import builtins
import re

from terms import *
from program import Class, Module, Func, dotted, _has_yield
from names import LIST_MUT as MUT, PURE_METHODS as PURE, Limit

B = lambda n: mk("builtin", n)
NEXT = ("next",)


PURE_VIRT = {"is_valid", "first", "last", "__contains__", "__len__", "__getitem__", "__iter__", "__call__", "encode",
             "decode", "_repr_html_"}


class Ctx:
    __slots__ = ("module", "cls", "qual", "fid", "node")

    def __init__(self, module, cls, qual, fid, node):
        self.module, self.cls, self.qual, self.fid, self.node = module, cls, qual, fid, node


def _as_load(t):
    return t


def mentions_loop(k, *_):
    return contains(k[0], lambda x: x.op in ("elem", "idx", "lvar"))


PURE_BUILTINS = {"int", "str", "float", "bool", "bytes", "repr", "abs", "min", "max", "sum", "hash", "id", "ord", "chr",
                 "type", "callable", "round", "divmod", "pow", "hex", "tuple", "frozenset", "isinstance", "issubclass",
                 "len", "sorted", "range", "any", "all", "bytearray", "memoryview", "slice", "object", "super", "print"}

CMP = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne", ast.Is: "is",
       ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}
BOOLISH = ("lt", "le", "gt", "ge", "eq", "ne", "is", "isnot", "in", "notin", "isinst", "hasattr", "not", "and", "or")
DUNDER = {"lt": "__lt__", "le": "__le__", "gt": "__gt__", "ge": "__ge__", "eq": "__eq__", "ne": "__ne__"}
PURE_EXT = ("os.path.", "html.escape", "zlib.", "bz2.", "lzma.", "lz4.", "zstd.", "base64.", "json.dumps", "json.loads",
            "struct.pack", "struct.unpack", "re.compile", "time.")


MAKERS = (ast.List, ast.Set, ast.Dict, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Call)


class Expr:
    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, ctx):
        self.steps += 1
        if self.steps > self.opts.get("max_steps", 600000):
            raise Limit("step limit")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.opaque.append("expression %s at %s:%d" % (type(e).__name__, ctx.module.rel, getattr(e, "lineno", 0)))
            return [(st, mk("opaque", type(e).__name__, fresh_id()))]
        if self.opts.get("store") and isinstance(e, MAKERS):
            return [(x, v if isinstance(v, tuple) else self.stored(v, x, ctx, e)) for x, v in m(e, st, ctx)]
        return m(e, st, ctx)

    def stored(self, v, st, ctx, e):
        """with the option "store" a new container is known by its identity only; what it holds is left to the reader of the events"""
        if self._glob_busy:
            return v            # a constant of a module or class
        if v.op != "obj" or v.a[1] in ("inst", "tuple", "gen") and not isinstance(e, ast.GeneratorExp) or v not in st.objs:
            return v
        return self.alias(v, {"gen": None, "defaultdict": "dict"}.get(v.a[1], v.a[1]), st, ctx, e)

    def alias(self, v, kind, st, ctx, e):
        s = sym("cont:%d" % v.a[0], kind)
        if v.a[1] == "defaultdict":
            self.ddicts.add(s)
        self.emit(st, ctx, e, "alias", s, v)
        return s

    def ev_list(self, es, st, ctx):
        """[(state, [terms]) | (state, outcome)]"""
        outs = [(st, [])]
        for e in es:
            nx = []
            for x, acc in outs:
                if isinstance(acc, tuple):
                    nx.append((x, acc))
                    continue
                for y, v in self.ev(e, x, ctx):
                    nx.append((y, v if isinstance(v, tuple) else acc + [v]))
            outs = nx
        return outs

    def e_Constant(self, e, st, ctx):
        if e.value is Ellipsis:
            return [(st, mk("ext", "Ellipsis"))]
        return [(st, const(e.value))]

    def e_Name(self, e, st, ctx):
        return [(st, self.lookup(e.id, st, ctx))]

    def lookup(self, name, st, ctx):
        f = ctx.fid
        while f is not None:
            fr = st.frames.get(f)
            if fr is None:
                break
            v = fr.get(name)
            if v is not None:
                return v
            f = fr.get("%parent")
        e = ctx.module.names.get(name)
        if e is not None:
            return self._from_entry(e, ctx.module, name)
        if hasattr(builtins, name):
            return B(name)
        return mk("sym", "?" + name, None)

    def _func_term(self, f):
        k = f.module.name + ":" + f.qual + ("@setter" if f.setter else "")
        self.func_by_key[k] = f
        return mk("func", k)

    def func_of(self, t):
        return self.func_by_key[t.a[0]]

    def _class_term(self, c):
        return mk("class", c.name)

    def _from_entry(self, e, module=None, name=None):
        kind = e[0]
        if kind == "class":
            return self._class_term(e[1])
        if kind == "func":
            return self._func_term(e[1])
        if kind == "import":
            r = self.prog._follow(e, [], e[1])
            if isinstance(r, Module):
                return mk("module", r.name)
            if isinstance(r, Class):
                return self._class_term(r)
            if isinstance(r, Func):
                return self._func_term(r)
            # a module-level expression of another module of the package
            for mn, m in self.prog.modules.items():
                if e[1].startswith(mn + ".") and e[1][len(mn) + 1:] in m.names:
                    n = e[1][len(mn) + 1:]
                    return self._from_entry(m.names[n], m, n)
            if e[1].startswith("builtins."):
                return B(e[1][9:])
            return mk("ext", {"os.path": "os.path"}.get(e[1], e[1]))
        if kind == "expr":
            return self._global(e[1], module, name)
        return mk("ext", str(e))

    def _mutated_globals(self, module):
        r = self._mutglob.get(module.name)
        if r is None:
            r = set()
            for m in self.prog.modules.values():
                for f in ast.walk(m.tree):
                    tg = []
                    if isinstance(f, (ast.Assign,)):
                        tg = f.targets
                    elif isinstance(f, (ast.AugAssign, ast.AnnAssign)):
                        tg = [f.target]
                    elif isinstance(f, ast.Delete):
                        tg = f.targets
                    for t in tg:
                        if isinstance(t, (ast.Subscript, ast.Attribute)) and isinstance(t.value, ast.Name):
                            r.add(t.value.id)
                    if isinstance(f, ast.Call) and isinstance(f.func, ast.Attribute) and isinstance(f.func.value, ast.Name) \
                            and f.func.attr in ("append", "update", "pop", "clear", "setdefault", "add", "remove", "insert", "extend"):
                        r.add(f.func.value.id)
                    if isinstance(f, ast.Global):
                        r.update(f.names)
            self._mutglob[module.name] = r
        return r

    def _global(self, node, module, name):
        key = id(node)
        v = self.globals_memo.get(key)
        if v is not None:
            return v
        if name in self._mutated_globals(module) and isinstance(node, (ast.Dict, ast.List, ast.Set, ast.Call)):
            ann = None
            if isinstance(node, ast.Call):
                d = dotted(node.func)
                r = self.prog.lookup_dotted(module, d) if d else None
                if isinstance(r, Class):
                    ann = r.name
            else:
                ann = {"Dict": "Dict", "List": "List", "Set": "Set"}[type(node).__name__]
            v = sym("global:" + name, ann)
        elif key in self._glob_busy:
            return sym("global:" + name, None)
        else:
            self._glob_busy.add(key)
            self.const_state.frames.setdefault(0, {})
            c = Ctx(module, None, module.name, 0, None)
            try:
                saved = self.stack, self.depth
                self.stack, self.depth = [], 0
                r = self.ev(node, self.const_state, c)
                self.stack, self.depth = saved
                v = sym("global:" + name, None)
                if len(r) == 1 and isinstance(r[0][1], T):
                    v = self.freeze(r[0][1], r[0][0])
            finally:
                self._glob_busy.discard(key)
        self.globals_memo[key] = v
        return v

    def _class_attr(self, c, node):
        key = id(node)
        v = self.globals_memo.get(key)
        if v is not None:
            return v
        if key in self._glob_busy:
            return mk("ext", c.name + ".?")
        self._glob_busy.add(key)
        try:
            # names of the class body are visible
            fid = -1000 - len(self.globals_memo)
            fr = {"%parent": None}
            if isinstance(node, ast.Name) and node.id in c.methods:
                m = c.methods[node.id]
                return self._func_term(m)
            for n in ast.walk(node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    if n.id in c.attrs and c.attrs[n.id] is not node:
                        fr[n.id] = self._class_attr(c, c.attrs[n.id])
                    elif n.id in c.methods:
                        fr[n.id] = self._func_term(c.methods[n.id])
            self.const_state.frames[fid] = fr
            saved = self.stack, self.depth
            self.stack, self.depth = [], 0
            r = self.ev(node, self.const_state, Ctx(c.module, c, c.name, fid, None))
            self.stack, self.depth = saved
            v = mk("sym", "classattr:" + c.name, None)
            if len(r) == 1 and isinstance(r[0][1], T):
                v = self.freeze(r[0][1], r[0][0])
        finally:
            self._glob_busy.discard(key)
        self.globals_memo[key] = v
        return v

    # ---- simple expressions
    def e_Tuple(self, e, st, ctx):
        return self._seq(e, st, ctx, "tuple")

    def e_List(self, e, st, ctx):
        return self._seq(e, st, ctx, "list")

    def e_Set(self, e, st, ctx):
        return self._seq(e, st, ctx, "set")

    def _seq(self, e, st, ctx, kind):
        outs = []
        for x, vs in self.ev_list([a.value if isinstance(a, ast.Starred) else a for a in e.elts], st, ctx):
            if isinstance(vs, tuple):
                outs.append((x, vs))
                continue
            ss = []
            for a, v in zip(e.elts, vs):
                if isinstance(a, ast.Starred):
                    q = self.segs(v, x)
                    ss.extend(q if q is not None else (mk("for", -1, v, (((), (mk("one", mk("elem", v, -1)),)),)),))
                else:
                    ss.append(mk("one", v))
            if kind == "tuple" and all(z.op == "one" for z in ss):
                outs.append((x, mk("tuple", tuple(z.a[0] for z in ss))))
            else:
                outs.append((x, self._newobj(x, kind, tuple(ss))))
        return outs

    def e_Dict(self, e, st, ctx):
        outs = []
        ks = [k if k is not None else ast.Constant(value=None) for k in e.keys]
        for x, vs in self.ev_list(ks + e.values, st, ctx):
            if isinstance(vs, tuple):
                outs.append((x, vs))
                continue
            n = len(ks)
            ss = []
            for k0, k, v in zip(e.keys, vs[:n], vs[n:]):
                if k0 is None:
                    q = self.segs(v, x)
                    ss.extend(q if q is not None else ())
                else:
                    ss = [z for z in ss if not (z.op == "one" and z.a[0] is k)]
                    ss.append(mk("one", k, v))
            outs.append((x, self._newobj(x, "dict", tuple(ss))))
        return outs

    def e_Lambda(self, e, st, ctx):
        return [(st, self._closure(e, st, ctx, "lambda"))]

    def e_JoinedStr(self, e, st, ctx):
        parts = [v.value if isinstance(v, ast.FormattedValue) else v for v in e.values]
        return [(x, vs if isinstance(vs, tuple) else concat(vs)) for x, vs in self.ev_list(parts, st, ctx)]

    def e_FormattedValue(self, e, st, ctx):
        rs = self.ev(e.value, st, ctx)
        if e.conversion in (114, 97):
            return [(x, v if isinstance(v, tuple) else mk("call", B("repr"), (v,), ())) for x, v in rs]
        return rs

    def e_NamedExpr(self, e, st, ctx):
        outs = []
        for x, v in self.ev(e.value, st, ctx):
            if not isinstance(v, tuple):
                self.setname(e.target.id, v, x, ctx)
            outs.append((x, v))
        return outs

    def e_Starred(self, e, st, ctx):
        return self.ev(e.value, st, ctx)

    def e_IfExp(self, e, st, ctx):
        outs = []
        for x, v in self.cond(e.test, st, ctx):
            if isinstance(v, tuple):
                outs.append((x, v))
            else:
                outs.extend(self.ev(e.body if v else e.orelse, x, ctx))
        return outs

    def e_BoolOp(self, e, st, ctx):
        stop = isinstance(e.op, ast.Or)
        outs, live = [], [st]
        for i, sub in enumerate(e.values):
            nx = []
            for x in live:
                for y, v in self.ev(sub, x, ctx):
                    if isinstance(v, tuple) or i == len(e.values) - 1:
                        outs.append((y, v))
                        continue
                    for z, b in self.branch(v, y):
                        if b == stop:
                            outs.append((z, const(stop) if v.op in BOOLISH else v))
                        else:
                            nx.append(z)
            live = nx
        return outs

    def e_UnaryOp(self, e, st, ctx):
        outs = []
        if isinstance(e.op, ast.Not):
            for x, v in self.cond(e.operand, st, ctx):
                outs.append((x, v if isinstance(v, tuple) else const(not v)))
            return outs
        for x, v in self.ev(e.operand, st, ctx):
            if isinstance(v, tuple):
                outs.append((x, v))
            elif isinstance(e.op, ast.USub):
                if v.op == "const" and v.a[0] in ("int", "float"):
                    outs.append((x, const(-v.a[1])))
                else:
                    outs.append((x, lin(mk("neg", v))))
            elif isinstance(e.op, ast.Invert):
                outs.extend(self._dunder(v, "__invert__", [], x, ctx, e) or [(x, mk("invert", v))])
            else:
                outs.append((x, v))
        return outs

    def _dunder(self, v, name, args, st, ctx, node):
        c = self.type_of(v, st)
        if isinstance(c, Class) and c.find(name):
            return self.call_func(c.find(name), [v] + args, {}, st, ctx, node)
        return None

    def e_BinOp(self, e, st, ctx):
        outs = []
        for x, vs in self.ev_list([e.left, e.right], st, ctx):
            if isinstance(vs, tuple):
                outs.append((x, vs))
                continue
            a, b = vs
            n = type(e.op).__name__
            d = {"BitAnd": "__and__", "BitOr": "__or__"}.get(n)
            if d:
                r = self._dunder(a, d, [b], x, ctx, e)
                if r is not None:
                    outs.extend(r)
                    continue
            if n == "Add" and self.opts.get("store") and (self.type_of(a, x) == "list" or self.type_of(b, x) == "list"):
                oid = self._newobj(x, "list", ())
                for z in (a, b):
                    self.emit(x, ctx, e, "mut", oid, "extend", (z,), NONE, ())
                outs.append((x, self.alias(oid, "list", x, ctx, e)))
                continue
            if n == "Add" and (a.op in ("obj", "list") or b.op in ("obj", "list")):
                sa, sb = self.segs(a, x), self.segs(b, x)
                if sa is not None and sb is not None:
                    outs.append((x, self._newobj(x, "list", tuple(sa) + tuple(sb))))
                    continue
            outs.append((x, self.binop(n, a, b)))
        return outs

    def binop(self, n, a, b):
        num = ("int", "float", "bool")
        if a.op == "const" and b.op == "const" and a.a[0] in num and b.a[0] in num:
            x, y = a.a[1], b.a[1]
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "FloorDiv": lambda: x // y,
                     "Mod": lambda: x % y, "LShift": lambda: x << y, "RShift": lambda: x >> y, "Pow": lambda: x ** y,
                     "Div": lambda: x / y, "BitOr": lambda: x | y, "BitAnd": lambda: x & y, "BitXor": lambda: x ^ y}[n]()
                return const(r)
            except Exception:
                pass
        if n == "Mod" and (a.op in ("fmt", "pct") or is_const(a) and a.a[0] in ("str", "bytes")):
            args = b.a[0] if b.op == "tuple" else (b,)
            return percent(a, args)
        if n in ("Add",):
            if a.op == "tuple" and b.op == "tuple":
                return mk("tuple", a.a[0] + b.a[0])
            if self._strish(a) or self._strish(b):
                return concat((a, b))
            return lin_add(a, b)
        if n == "Sub":
            return lin_add(a, b, -1)
        if n == "Mult":
            if (is_const(a) and a.a[0] == "int") or (is_const(b) and b.a[0] == "int"):
                return lin(mk("mul", a, b))
            if show(b) < show(a):
                a, b = b, a
            return mk("mul", a, b)
        return mk(n.lower(), a, b)

    def _strish(self, t):
        if t.op in ("fmt", "pct") or (t.op == "const" and t.a[0] in ("str", "bytes")):
            return True
        if t.op == "call" and t.a[0].op == "builtin" and t.a[0].a[0] in ("str", "repr", "bytes"):
            return True
        ts = self.tstr(t)
        return ts in ("str", "bytes")

    def e_Compare(self, e, st, ctx):
        outs = []
        for x, vs in self.ev_list([e.left] + e.comparators, st, ctx):
            if isinstance(vs, tuple):
                outs.append((x, vs))
                continue
            if len(e.ops) == 1:
                outs.extend(self.compare(CMP[type(e.ops[0])], vs[0], vs[1], x, ctx, e))
                continue
            parts = [mk(CMP[type(o)], vs[i], vs[i + 1]) for i, o in enumerate(e.ops)]
            outs.append((x, mk("and", tuple(parts))))
        return outs

    def compare(self, op, a, b, st, ctx, node):
        if op in DUNDER and (op not in ("eq", "ne") or self.opts.get("inline_eq")):
            c = self.type_of(a, st)
            if isinstance(c, Class) and c.find(DUNDER[op]):
                return self.call_func(c.find(DUNDER[op]), [a, b], {}, st, ctx, node)
        if op in ("eq", "ne") and self.type_of(a, st) is self.prog.classes.get("NodeFieldCollection") is not None:
            c = self.type_of(a, st)
            return self.call_func(c.find(DUNDER[op]), [a, b], {}, st, ctx, node)
        if op in ("in", "notin") and b.op == "gen":
            pass
        if a.op == "tuple" and b.op == "tuple" and op in ("eq", "ne") and len(a.a[0]) == len(b.a[0]):
            r = mk("and", tuple(mk("eq", x, y) for x, y in zip(a.a[0], b.a[0])))
            return [(st, r if op == "eq" else mk("not", r))]
        if op in ("in", "notin"):
            dk = b
            if b.op == "view" and b.a[0] == "keys":
                dk = b.a[1]
            return [(st, mk(op, a, self._canon_container(dk, st)))]
        return [(st, mk(op, a, b))]

    def _canon_container(self, b, st):
        v = st.epoch.get(("[]", b), 0)
        if b.op == "obj":
            fr = self.freeze(b, st)
            if fr is not b:
                return fr
        return mk("at", b, v) if v else b

    def e_Attribute(self, e, st, ctx):
        outs = []
        for x, b in self.ev(e.value, st, ctx):
            if isinstance(b, tuple):
                outs.append((x, b))
            else:
                outs.extend(self.getattr(b, e.attr, x, ctx, e))
        return outs

    def e_Slice(self, e, st, ctx):
        outs = []
        es = [z if z is not None else ast.Constant(value=None) for z in (e.lower, e.upper, e.step)]
        for x, vs in self.ev_list(es, st, ctx):
            outs.append((x, vs if isinstance(vs, tuple) else mk("slice", *vs)))
        return outs

    def e_Subscript(self, e, st, ctx):
        outs = []
        for x, vs in self.ev_list([e.value, e.slice], st, ctx):
            if isinstance(vs, tuple):
                outs.append((x, vs))
            else:
                outs.extend(self.getitem(vs[0], vs[1], x, ctx, e))
        return outs

    def e_Yield(self, e, st, ctx):
        outs = []
        for x, v in (self.ev(e.value, st, ctx) if e.value is not None else [(st, NONE)]):
            if isinstance(v, tuple):
                outs.append((x, v))
                continue
            self.emit(x, ctx, e, "yield", v)
            if x.yields is not None and x.objs.get(x.yields) is not None:
                x.objs[x.yields] = x.objs[x.yields] + (mk("one", v),)
            if self.opts["exc"] is not None and self.opts.get("gen_exit") and x.yields is None:
                y = x.fork()
                outs.append((y, ("raise", mk("genexit"))))
            outs.append((x, NONE))
        return outs

    def e_YieldFrom(self, e, st, ctx):
        outs = []
        for x, v in self.ev(e.value, st, ctx):
            if isinstance(v, tuple):
                outs.append((x, v))
                continue
            for y, segs in self.iter_segs(v, x, ctx, e):
                if segs and not isinstance(segs[0], T):
                    outs.append((y, segs))
                    continue

                def body(s2, val):
                    self.emit(s2, ctx, e, "yield", val)
                    if s2.yields is not None and s2.objs.get(s2.yields) is not None:
                        s2.objs[s2.yields] = s2.objs[s2.yields] + (mk("one", val),)
                    return [(s2, NEXT)]
                for z, o in self.loop_segs(segs, body, y, ctx, e, []):
                    outs.append((z, NONE if o is NEXT else o))
        return outs

    def e_Await(self, e, st, ctx):
        return self.ev(e.value, st, ctx)

    # ---- comprehensions
    def e_ListComp(self, e, st, ctx):
        return self._comp(e, st, ctx, "list")

    def e_SetComp(self, e, st, ctx):
        return self._comp(e, st, ctx, "set")

    def e_GeneratorExp(self, e, st, ctx):
        return self._comp(e, st, ctx, "gen")

    def e_DictComp(self, e, st, ctx):
        return self._comp(e, st, ctx, "dict")

    def _comp(self, e, st, ctx, kind):
        self.fid += 1
        fid = self.fid
        st.frames[fid] = {"%parent": ctx.fid}
        cc = Ctx(ctx.module, ctx.cls, ctx.qual, fid, ctx.node)
        oid = self._newobj(st, kind, ())

        def add(s, c):
            es = [e.key, e.value] if kind == "dict" else [e.elt]
            res = []
            for x, vs in self.ev_list(es, s, c):
                if isinstance(vs, tuple):
                    res.append((x, vs))
                else:
                    if x.objs.get(oid) is not None:
                        x.objs[oid] = x.objs[oid] + (mk("one", *vs),)
                    if self.opts.get("containers"):
                        if kind == "dict":
                            self.emit(x, c, e, "setitem", oid, vs[0], vs[1])
                        else:
                            self.emit(x, c, e, "mut", oid, "add" if kind == "set" else "append", tuple(vs), NONE, ())
                        if vs[-1].op in ("list", "set", "map") or vs[-1].op == "obj" and vs[-1].a[1] != "inst":
                            x.epoch[("[]", oid)] = x.events[-1].ver = fresh_id()
                    res.append((x, NEXT))
            return res

        def level(i, s):
            if i == len(e.generators):
                return add(s, cc)
            g = e.generators[i]
            res = []
            for x, it in self.ev(g.iter, s, ctx if i == 0 else cc):
                if isinstance(it, tuple):
                    res.append((x, it))
                    continue
                for y, segs in self.iter_segs(it, x, ctx, e):
                    if segs and not isinstance(segs[0], T):
                        res.append((y, segs))
                        continue

                    def body(s2, val):
                        r2 = []
                        for a, o in self.assign(g.target, val, s2, cc, e):
                            if o is not NEXT:
                                r2.append((a, o))
                                continue
                            live = [a]
                            for t in g.ifs:
                                nx = []
                                for q in live:
                                    for w, v in self.cond(t, q, cc):
                                        if isinstance(v, tuple):
                                            r2.append((w, v))
                                        elif v:
                                            nx.append(w)
                                        else:
                                            r2.append((w, NEXT))
                                live = nx
                            for q in live:
                                r2.extend(level(i + 1, q))
                        return r2
                    res.extend(self.loop_segs(segs, body, y, ctx, e, []))
            return res
        outs = []
        for x, o in level(0, st):
            outs.append((x, oid if o is NEXT else o))
        return outs

    # ------------------------------------------------------------------ types
    def tstr(self, v):
        """Annotation-like static type string of a term (no facts)."""
        r = self.type_memo.get(v)
        if r is None:
            self.type_memo[v] = ""
            r = self._tstr(v) or ""
            self.type_memo[v] = r
        return r or None

    def _tstr(self, v):
        o = v.op
        if o == "const":
            return v.a[0]
        if o == "sym":
            t = v.a[1]
            return t.lstrip("=") if isinstance(t, str) else None
        if o == "obj":
            return v.a[2] if v.a[1] == "inst" else {"gen": "Iterator"}.get(v.a[1], v.a[1])
        if o in ("inst", "enum"):
            return v.a[0]
        if o in ("fmt", "pct"):
            return "str"
        if o in ("lin", "idx", "len"):
            return "int"
        if o in ("list", "set", "tuple"):
            return o
        if o == "map":
            return "dict"
        if o in ("lvar", "lout"):
            return self.tstr(v.a[1]) if isinstance(v.a[1], T) and v.a[1] is not NONE else None
        if o == "at":
            return self.tstr(v.a[0])
        if o == "entered":
            return self.tstr(v.a[0])
        if o == "excval":
            return v.a[0].a[0] if v.a[0].op == "class" else None
        if o == "attr":
            bt = self.tclass(self.tstr(v.a[0]))
            if isinstance(bt, Class):
                for c in bt.mro():
                    if isinstance(c, Class):
                        h = self.hints.get((c.name, v.a[1]))
                        if h:
                            return h
                return self._infer_attr(bt, v.a[1])
            return None
        if o == "kwget":
            return self.tstr(v.a[2]) if v.a[2] is not NONE else None
        if o == "elem":
            return self._elem_type(v.a[0])
        if o == "item":
            t = self.tstr(v.a[0])
            k, args = self._tparse(t)
            if v.a[1].op == "slice":
                return t
            if k == "dict" and len(args) == 2:
                return args[1]
            if k in ("list", "Iterator") and args:
                return args[0]
            if k == "tuple" and args and is_const(v.a[1]) and v.a[1].a[0] == "int":
                i = v.a[1].a[1]
                if -len(args) <= i < len(args) and args[i] != "...":
                    return args[i]
            if k == "str":
                return "str"
            if k == "Text" and v.a[1].op in ("slice", "tuple"):
                return "TextSpan"
            return None
        if o == "call":
            f = v.a[0]
            if f.op == "class":
                return f.a[0]
            if f.op == "func":
                fn = self.func_of(f)
                return self._ann_str(fn.node.returns) if fn.node.returns is not None else None
            if f.op == "builtin":
                n = f.a[0]
                return {"sorted": "list", "len": "int", "repr": "str"}.get(n, n if n in ("int", "str", "float", "bool", "bytes", "list", "dict", "set", "tuple") else None)
            if f.op == "meth":
                n = f.a[1]
                if n in ("join", "format", "strip", "lower", "upper", "replace", "decode", "hex"):
                    return "str"
                if n == "copy":
                    return self.tstr(f.a[0])
                if n in ("encode", "getvalue"):
                    return "bytes"
                if n == "get":
                    k, args = self._tparse(self.tstr(f.a[0]))
                    if k == "dict" and len(args) == 2:
                        return args[1]
                if n in ("find", "index", "tell", "count"):
                    return "int"
            if f.op == "bound":
                fn = self.func_of(f.a[1])
                return self._ann_str(fn.node.returns) if fn.node.returns is not None else None
        return None

    def _elem_type(self, d):
        if d.op == "view":
            k, args = self._tparse(self.tstr(d.a[1]))
            if k == "dict" and len(args) == 2:
                return {"keys": args[0], "values": args[1], "items": "Tuple[%s, %s]" % tuple(args)}[d.a[0]]
            return None
        t = self.tstr(d)
        k, args = self._tparse(t)
        if k in ("list", "set", "Iterator") and args:
            return args[0]
        if k == "dict" and args:
            return args[0]
        if k == "str":
            return "str"
        c = self.tclass(t)
        if isinstance(c, Class):
            nc = self.prog.classes.get("NodeCollection")
            if nc is not None and nc in c.mro():
                return "Node"
            if c.name == "MsgpackDocumentReader" or c.name == "MsgpackDocumentBlock":
                return "MsgpackDocument"
        return None

    def _tparse(self, t):
        if not t:
            return None, []
        r = self._tp_memo.get(t)
        if r is None:
            r = self._tparse0(t)
            self._tp_memo[t] = r
        return r

    def _tparse0(self, t):
        t = t.strip().strip("'\"")
        m = re.match(r"^([\w.]+)\s*(?:\[(.*)\])?$", t, re.S)
        if not m:
            return None, []
        head = m.group(1).split(".")[-1]
        args = []
        if m.group(2) is not None:
            depth, cur = 0, ""
            for ch in m.group(2):
                if ch == "[":
                    depth += 1
                elif ch == "]":
                    depth -= 1
                if ch == "," and depth == 0:
                    args.append(cur.strip())
                    cur = ""
                else:
                    cur += ch
            args.append(cur.strip())
        if head in ("Union", "Optional"):
            keep = [a for a in args if a not in ("None", "NoneType")]
            if len(keep) == 1:
                return self._tparse(keep[0])
            return None, []
        head = {"Dict": "dict", "List": "list", "Set": "set", "Tuple": "tuple", "Sequence": "list", "Iterable": "Iterator",
                "Generator": "Iterator", "DefaultDict": "dict", "OrderedDict": "dict", "deque": "list", "gen": "Iterator"}.get(head, head)
        return head, args

    def tclass(self, t):
        k, _ = self._tparse(t)
        if k is None:
            return None
        c = self.prog.classes.get(k)
        if c is not None:
            return c
        if k in ("list", "dict", "set", "tuple", "str", "bytes", "int", "float", "bool", "Iterator", "NoneType", "generator"):
            return k
        return None

    def type_of(self, v, st):
        if st is not None:
            best = None
            for f in self.prog_isinst_terms:
                if st.facts.get(mk("isinst", v, f)) is True:
                    c = self.prog.classes.get(f.a[0]) if f.op == "class" else (f.a[0] if f.op == "builtin" else None)
                    if c is not None and (best is None or (isinstance(c, Class) and isinstance(best, Class) and best in c.mro())):
                        best = c
            if best is not None:
                t = self.tclass(self.tstr(v))
                if isinstance(t, Class) and isinstance(best, Class) and best in t.mro():
                    return t
                return best
        return self.tclass(self.tstr(v))

    def _infer_attr(self, cls, name):
        """Type of self.<name> from annotated constructor parameters."""
        for c in cls.mro():
            if not isinstance(c, Class):
                continue
            if name in c.anns:
                return self._ann_str(c.anns[name])
            m = c.methods.get(name)
            if m is not None and m.prop:
                return self._ann_str(m.node.returns) if m.node.returns is not None else None
            init = c.methods.get("__init__")
            if init is None:
                continue
            ann = {}
            for x in init.node.args.args + init.node.args.kwonlyargs:
                if x.annotation is not None:
                    ann[x.arg] = self._ann_str(x.annotation)
            for n in ast.walk(init.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)):
                    tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in tg:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and t.attr == name:
                            if isinstance(n, ast.AnnAssign):
                                return self._ann_str(n.annotation)
                            v = n.value
                            if isinstance(v, ast.Name) and v.id in ann:
                                return ann[v.id]
                            if isinstance(v, ast.Dict):
                                return "dict"
                            if isinstance(v, (ast.List, ast.ListComp)):
                                return "list"
                            if isinstance(v, ast.Call):
                                d = dotted(v.func)
                                if d in ("list", "dict", "set", "tuple", "str", "int", "float"):
                                    return d
                                r = self.prog.lookup_dotted(c.module, d) if d else None
                                if isinstance(r, Class):
                                    return r.name
        return None

    def _ver(self, v, st):
        return st.epoch.get(("[]", v), 0)

    # ------------------------------------------------------------------ attributes
    def getattr(self, b, name, st, ctx, node=None):
        h = self.opts["attr_hook"]
        if h is not None:
            r = h(self, b, name, st)
            if r is not None:
                return [(st, r)]
        v = st.heap.get((b, name))
        if v is None and b.op == "obj" and b not in st.objs:
            v = self.const_state.heap.get((b, name))
        if v is not None:
            return [(st, v)]
        o = b.op
        if o == "module":
            m = self.prog.modules[b.a[0]]
            e = m.names.get(name)
            if e is not None:
                return [(st, self._from_entry(e, m, name))]
            if b.a[0] + "." + name in self.prog.modules:
                return [(st, mk("module", b.a[0] + "." + name))]
            return [(st, mk("ext", b.a[0] + "." + name))]
        if o == "ext":
            return [(st, mk("ext", b.a[0] + "." + name))]
        if o == "class":
            return [(st, self._class_getattr(b, name))]
        if o == "enum":
            c = self.prog.classes.get(b.a[0])
            if name == "name":
                return [(st, const(b.a[1]))]
            if name == "value" and c is not None and b.a[1] in c.attrs:
                return [(st, self._class_attr(c, c.attrs[b.a[1]]))]
        if o == "builtin":
            return [(st, mk("umeth", b.a[0], name))]
        if o == "super":
            c = self.prog.classes.get(b.a[0])
            tc = self.type_of(b.a[1], st)
            start = tc if isinstance(tc, Class) and c in tc.mro() else c
            f = start.find(name, skip=c)
            if f is not None:
                return [(st, mk("bound", b.a[1], self._func_term(f)))]
            return [(st, mk("extsuper", b.a[1], b.a[0], name))]
        if o == "const":
            return [(st, mk("meth", b, name, 0))]
        if o == "slice" and name in ("start", "stop", "step"):
            return [(st, b.a[("start", "stop", "step").index(name)])]
        c = self.type_of(b, st)
        if c == "slice" and name in ("start", "stop", "step"):
            return [(st, attr(b, name, 0))]
        if isinstance(c, Class):
            f = c.find(name)
            if f is not None:
                if f.prop:
                    if f.qual in self.opts["no_inline"] or not self._may_inline(f):
                        return [(st, attr(b, name, st.epoch.get(name, 0)))]
                    return self.call_func(f, [b], {}, st, ctx, node)
                if f.static:
                    return [(st, self._func_term(f))]
                if self._virtual(b, c, f):
                    return [(st, mk("vmeth", b, name))]
                return [(st, mk("bound", b, self._func_term(f)))]
            ca = c.find_attr(name)
            if ca is not None:
                v = self._class_attr(ca[0], ca[1])
                if v.op == "func":
                    return [(st, v if self.func_of(v).static else mk("bound", b, v))]
                return [(st, v)]
            if name == "__class__":
                return [(st, mk("class", c.name))]
            if any(x in ("dict", "list", "set", "str") for x in c.ext_bases()) and hasattr(dict, name) | hasattr(list, name):
                return [(st, mk("meth", b, name, self._ver(b, st)))]
        elif isinstance(c, str):
            return [(st, mk("meth", b, name, self._ver(b, st)))]
        return [(st, attr(b, name, st.epoch.get(name, 0)))]

    def _class_getattr(self, b, name):
        c = self.prog.classes[b.a[0]]
        if c.is_enum and name in c.attrs:
            return mk("enum", c.name, name)
        f = c.find(name)
        if f is not None:
            return mk("bound", b, self._func_term(f)) if f.classm else self._func_term(f)
        a = c.find_attr(name)
        if a is not None:
            return self._class_attr(a[0], a[1])
        if name == "__name__":
            return const(c.name)
        for x in c.ext_bases():
            if x in ("dict", "list", "set", "str", "int"):
                return mk("umeth", x, name)
        return mk("ext", c.name + "." + name)

    # ------------------------------------------------------------------ items
    def getitem(self, b, k, st, ctx, node=None):
        h = self.opts["item_hook"]
        if h is not None:
            r = h(self, b, k, st)
            if r is not None:
                return [(st, r)]
        c = self.type_of(b, st)
        if isinstance(c, Class):
            f = c.find("__getitem__")
            if f is not None and self._may_inline(f) and f.qual not in self.opts["no_inline"]:
                return self.call_func(f, [b, k], {}, st, ctx, node)
        ss = st.objs.get(b) if b.op == "obj" else (b.a[0] if b.op == "map" else None)
        if ss is not None and (b.op == "map" or b.a[1] == "dict") and all(z.op == "one" and z.a[0].op in ("const", "enum", "class") for z in ss):
            hit = [z.a[1] for z in ss if z.a[0] is k]
            if hit:
                return [(st, hit[-1])]
            if k.op in ("const", "enum", "class"):
                self.emit(st, ctx, node, "raise", B("KeyError"))
                return [(st, ("raise", B("KeyError")))]
            if ss and self.opts.get("fork_maps") and len(ss) <= 16:
                outs = []
                for z in ss:
                    y = st.fork()
                    if self.decide(self.literal(mk("eq", k, z.a[0]))[0], y) is False:
                        continue
                    for w, bb in self.branch(mk("eq", k, z.a[0]), y):
                        if bb:
                            outs.append((w, z.a[1]))
                return outs
        r = self.getitem_term(b, k, st)
        if self.tries and r.op in ("item", "elem") and k.op != "slice":
            seq = c in ("list", "tuple", "str", "bytes") or b.op == "obj" and b.a[1] in ("list", "tuple")
            if seq and self.expects("IndexError") and r.op == "item":
                ok = mk("lt", k, mk("len", b, self._ver(b, st))) if not is_const(k, -1) else mk("nonempty", b, self._ver(b, st))
                return [(x, r if o is None else o) for x, o in self.unless(ok, "IndexError", st, ctx, node)]
            if not seq and self.expects("KeyError") and not (b.op == "obj" and b.a[1] == "defaultdict" or b in self.ddicts) and r.op == "item":
                outs = []
                for x, v in self.compare("in", k, b, st, ctx, node):
                    if isinstance(v, tuple):
                        outs.append((x, v))
                    else:
                        outs.extend((y, r if o is None else o) for y, o in self.unless(v, "KeyError", x, ctx, node))
                return outs
        return [(st, r)]

    def getitem_term(self, b, k, st):
        o = b.op
        if k.op == "slice":
            lo, hi, step = k.a
            els = None
            if o == "tuple":
                els = list(b.a[0])
            elif o in ("obj", "list"):
                s2 = self.segs(b, st)
                if s2 is not None and all(z.op == "one" for z in s2) and (o == "list" or b.a[1] in ("list", "tuple", "gen")):
                    els = [z.a[0] for z in s2]
            if els is not None and all(is_const(x) for x in (lo, hi, step)):
                try:
                    r = els[slice(lo.a[1], hi.a[1], step.a[1])]
                    return mk("tuple", tuple(r)) if o == "tuple" else mk("list", tuple(mk("one", z) for z in r))
                except Exception:
                    pass
            if is_const(lo, 0):
                k = mk("slice", NONE, hi, step)
            if is_const(k.a[2], 1):
                k = mk("slice", k.a[0], k.a[1], NONE)
            if o == "obj":
                f = self.freeze(b, st)
                return mk("item", f, k, 0)
            return mk("item", b, k, self._ver(b, st))
        if o == "tuple" and is_const(k) and k.a[0] == "int":
            if -len(b.a[0]) <= k.a[1] < len(b.a[0]):
                return b.a[0][k.a[1]]
        if o == "const" and k.op == "const" and b.a[0] in ("str", "bytes") and k.a[0] == "int":
            try:
                return const(b.a[1][k.a[1]])
            except Exception:
                pass
        ss = self.segs(b, st) if o in ("obj", "list", "map") else None
        if o == "obj" and ss is None:
            v = st.heap.get((b, ("[]", k)))
            if v is not None:
                return v
        if ss is not None:
            ismap = o == "map" or (o == "obj" and (b.a[1] == "dict" or b.a[1] == "inst"))
            nested = self._nested(b, st)
            if ismap:
                r = self._map_get(ss, k)
                if r is not None and not (nested and r.op in ("list", "set", "map")):
                    return r
            else:
                if is_const(k) and k.a[0] == "int" and all(z.op == "one" for z in ss):
                    i = k.a[1]
                    if -len(ss) <= i < len(ss):
                        return ss[i].a[0]
                if is_const(k, -1) and ss and ss[-1].op == "one":
                    return ss[-1].a[0]
                if is_const(k, 0) and ss and ss[0].op == "one":
                    return ss[0].a[0]
                r = self._index_for(ss, k)
                if r is not None and not (nested and r.op in ("list", "set", "map")):
                    return r
            if o == "obj" and not nested:
                fb = self.freeze(b, st)
                return mk("item", fb, k, 0)
        v = st.heap.get((b, ("[]", k)))
        if v is not None:
            return v
        if k.op == "idx" and self._same_dom(self.loopdom.get(k.a[0]), b, st):
            return mk("elem", self._dom(b, st), k.a[0])
        return mk("item", b, k, self._ver(b, st))

    def _same_dom(self, d, b, st):
        return d is not None and d is self._dom(b, st)

    def _nested(self, b, st):
        """a container of containers that are objects of their own"""
        def inner(ss):
            for z in ss:
                if z.op == "one" and (z.a[-1].op in ("list", "set", "map") or z.a[-1].op == "obj" and z.a[-1].a[1] != "inst"):
                    return True
                if z.op in ("for", "forp") and any(inner(xs) for g, xs in z.a[2]):
                    return True
            return False
        c = st.objs.get(b) if b.op == "obj" and self.opts.get("containers") else None
        return c is not None and inner(c)

    def _dom(self, b, st):
        v = self._ver(b, st)
        if b.op == "obj" and not self._nested(b, st):
            f = self.freeze(b, st)
            if f is not b:
                return f
        return mk("at", b, v) if v else b

    def _map_get(self, ss, k):
        for z in reversed(ss):
            if z.op == "one":
                if z.a[0] is k:
                    return z.a[1]
                if z.a[0].op in ("const", "enum") and k.op in ("const", "enum"):
                    continue
                return None
            if z.op == "for":
                L, dom, alts = z.a
                if len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and alts[0][1][0].op == "one":
                    kt, vt = alts[0][1][0].a
                    for L2 in {x.a[-1] for x in walk(k) if x.op in ("elem", "idx")}:
                        if subst_loop(kt, L, L2) is k:
                            return subst_loop(vt, L, L2)
                    if k.op in ("const", "enum") and kt.op == "elem":
                        return self._at_key(vt, kt, k)
                return None
            return None
        return None

    def _at_key(self, vt, kt, k):
        def f(x):
            return k if x is kt else None
        r = subst(vt, f)
        L = kt.a[-1]
        if contains(r, lambda x: x.op in ("elem", "idx", "lvar") and x.a[-1] == L):
            return None
        return r

    def _index_for(self, ss, k):
        """list built by exactly one generic append per element, indexed by the index of the same domain"""
        if len(ss) == 1 and ss[0].op == "for":
            L, dom, alts = ss[0].a
            if len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and alts[0][1][0].op == "one":
                if k.op == "idx" and self.loopdom.get(k.a[0]) in (dom, mk("list", tuple(ss))):
                    return subst_loop(alts[0][1][0].a[0], L, k.a[0])
        return None

    # ------------------------------------------------------------------ iteration
    def segs(self, v, st):
        """Contents of a sequence/mapping term, or None when it is opaque."""
        if v.op == "obj":
            c = st.objs.get(v)
            if c is None and v not in st.objs:
                c = self.const_state.objs.get(v)
            return c
        if v.op in ("list", "set", "map"):
            return v.a[0]
        if v.op == "tuple":
            return tuple(mk("one", x) for x in v.a[0])
        if v.op == "call" and v.a[0] is mk("class", "NodeList") and len(v.a[1]) == 1:
            return self.segs(v.a[1][0], st)
        return None

    def _for(self, dom, fn):
        L = fresh_id()
        self.loopdom[L] = dom
        return mk("for", L, dom, (((), (mk("one", fn(L)),)),))

    def iter_segs(self, it, st, ctx, node):
        o = it.op
        ismap = o == "map" or (o == "obj" and (it.a[1] == "dict" or (it.a[1] == "inst" and it.a[2] == "Node")))
        ss = self.segs(it, st)
        if o == "view":
            kind, x = it.a[0], it.a[1]
            s2 = self.segs(x, st)
            if s2 is not None:
                return [(st, tuple(self._seg_map(z, kind) for z in s2))]
            kd = mk("view", "keys", self._dom(x, st))
            if kind == "keys":
                return [(st, (self._for(kd, lambda L: mk("elem", kd, L)),))]
            v = self._ver(x, st)
            if kind == "values":
                return [(st, (self._for(kd, lambda L: mk("item", x, mk("elem", kd, L), v)),))]
            return [(st, (self._for(kd, lambda L: mk("tuple", (mk("elem", kd, L), mk("item", x, mk("elem", kd, L), v)))),))]
        if ss is not None:
            if ismap:
                return [(st, tuple(self._seg_map(z, "keys") for z in ss))]
            return [(st, tuple(ss))]
        if o == "range":
            return [(st, self._range_segs(it))]
        if o == "const" and it.a[0] in ("str", "tuple") and len(it.a[1]) <= 8:
            return [(st, tuple(mk("one", const(x)) for x in it.a[1]))]
        c = self.type_of(it, st)
        if isinstance(c, Class):
            f = c.find("__iter__")
            nc = self.prog.classes.get("NodeCollection")
            if f is not None and (self.opts["inline_iter"] or not (nc and nc in c.mro())) and self._may_inline(f) \
                    and f.qual not in self.opts["no_inline"]:
                outs = []
                for x, v in self.call_func(f, [it], {}, st, ctx, node):
                    if isinstance(v, tuple):
                        outs.append((x, v))
                    elif v is it:
                        d = self._dom(it, x)
                        self.emit(x, ctx, node, "iter", it)
                        outs.append((x, (self._for(d, lambda L: mk("elem", d, L)),)))
                    else:
                        outs.extend(self.iter_segs(v, x, ctx, node))
                return outs
        if o == "call" and it.a[0] is B("iter") and len(it.a[1]) == 1:
            return self.iter_segs(it.a[1][0], st, ctx, node)
        d = self._dom(it, st)
        self.emit(st, ctx, node, "iter", it)
        if c == "dict":
            kd = mk("view", "keys", d)
            return [(st, (self._for(kd, lambda L: mk("elem", kd, L)),))]
        if it.op == "call" and it.a[0].op == "builtin" and it.a[0].a[0] in ("sorted", "reversed") and len(it.a[1]) == 1 and it.a[1][0].op == "view" \
                and it.a[1][0].a[0] == "items":
            x = it.a[1][0].a[1]
            v = self._ver(x, st)

            def pair(L):
                k = mk("item", mk("elem", d, L), const(0), 0)
                return mk("tuple", (k, mk("item", x, k, v)))
            return [(st, (self._for(d, pair),))]
        return [(st, (self._for(d, lambda L: mk("elem", d, L)),))]

    def _seg_map(self, z, kind):
        if z.op == "one":
            if len(z.a) == 1:
                return z
            k, v = z.a
            return mk("one", {"keys": k, "values": v, "items": mk("tuple", (k, v))}[kind])
        if z.op in ("for", "forp"):
            return mk(z.op, z.a[0], z.a[1], tuple((g, tuple(self._seg_map(y, kind) for y in q)) for g, q in z.a[2]))
        return z

    def _range(self, args):
        if len(args) == 1:
            return mk("range", const(0), args[0], const(1))
        if len(args) == 2:
            return mk("range", args[0], args[1], const(1))
        return mk("range", *args)

    def _range_segs(self, r):
        lo, hi, step = r.a
        if all(is_const(x) for x in r.a):
            try:
                rr = range(lo.a[1], hi.a[1], step.a[1])
                if len(rr) <= 4:
                    return tuple(mk("one", const(i)) for i in rr)
            except Exception:
                pass
        n = lin_add(hi, lo, -1)
        if is_const(step, 1):
            if n.op == "len":
                dom = mk("at", n.a[0], n.a[1]) if n.a[1] else n.a[0]
            else:
                dom = mk("rng", n)
            return (self._for(dom, lambda L: lin_add(lo, mk("idx", L))),)
        if is_const(step, -1):
            dom = mk("rng", lin_add(lo, hi, -1))
            return (self._for(dom, lambda L: lin_add(lo, mk("idx", L), -1)),)
        dom = mk("rngs", lo, hi, step)
        return (self._for(dom, lambda L: mk("elem", dom, L)),)

    def _single_for(self, ss):
        """(L, dom, element term) of an iterable that yields exactly one element per domain element"""
        if len(ss) == 1 and ss[0].op == "for":
            L, dom, alts = ss[0].a
            if len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and alts[0][1][0].op == "one" and len(alts[0][1][0].a) == 1:
                return L, dom, alts[0][1][0].a[0]
        return None

    def zip_segs(self, iters, st, ctx, node):
        parts = []
        for it in iters:
            r = self.iter_segs(it, st, ctx, node)
            if len(r) != 1 or (r[0][1] and not isinstance(r[0][1][0], T)):
                return None
            parts.append(r[0][1])
        if all(all(z.op == "one" for z in p) for p in parts):
            n = min(len(p) for p in parts)
            return tuple(mk("one", mk("tuple", tuple(p[i].a[0] for p in parts))) for i in range(n))
        sf = [self._single_for(p) for p in parts]
        L = fresh_id()
        doms, els = [], []
        for it, s in zip(iters, sf):
            if s is None:
                d = self._dom(it, st)
                doms.append(d)
                els.append(mk("elem", d, L))
            else:
                doms.append(s[1])
                els.append(subst_loop(s[2], s[0], L))
        ud = []
        for d in doms:
            if d not in ud and not (d.op == "rng" and is_const(d.a[0], float("inf"))):
                ud.append(d)
        dom = ud[0] if len(ud) == 1 else mk("zip", tuple(ud))
        self.loopdom[L] = dom
        return (mk("for", L, dom, (((), (mk("one", mk("tuple", tuple(els))),)),)),)

    # ------------------------------------------------------------------ calls
    def _may_inline(self, f):
        if self.depth >= self.opts["max_depth"]:
            return False
        if self.stack.count(f.qual) >= 1 + (1 if self.opts.get("recurse") else 0):
            return False
        return True

    def e_Call(self, e, st, ctx):
        fe = e.func
        if isinstance(fe, ast.Name) and fe.id == "super" and not e.args:
            f = ctx.fid
            slf = None
            while f is not None:
                fr = st.frames[f]
                ps = ctx.node.args.args if ctx.node is not None and hasattr(ctx.node, "args") else []
                if ps and ps[0].arg in fr:
                    slf = fr[ps[0].arg]
                    break
                f = fr.get("%parent")
            if ctx.cls is not None and slf is not None:
                return [(st, mk("super", ctx.cls.name, slf))]
        outs = []
        for x, f in self.ev(fe, st, ctx):
            if isinstance(f, tuple):
                outs.append((x, f))
                continue
            for y, ak in self._args(e, x, ctx):
                if isinstance(ak[0], str):
                    outs.append((y, ak))
                else:
                    outs.extend(self.call(f, ak[0], ak[1], y, ctx, e))
        return outs

    def _args(self, e, st, ctx):
        es = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
        outs = []
        for x, vs in self.ev_list(es, st, ctx):
            if isinstance(vs, tuple):
                outs.append((x, vs))
                continue
            args, kw = [], {}
            for a, v in zip(e.args, vs):
                if isinstance(a, ast.Starred):
                    ss = self.segs(v, x)
                    if ss is not None and all(z.op == "one" for z in ss):
                        args.extend(z.a[0] for z in ss)
                    else:
                        args.append(mk("star", v))
                else:
                    args.append(v)
            for k, v in zip(e.keywords, vs[len(e.args):]):
                if k.arg is None:
                    ss = self.segs(v, x) if v.op in ("obj", "map") else None
                    if ss is not None and all(z.op == "one" and is_const(z.a[0]) for z in ss):
                        for z in ss:
                            kw[z.a[0].a[1]] = z.a[1]
                    else:
                        kw["**"] = v
                else:
                    kw[k.arg] = v
            outs.append((x, (args, kw)))
        return outs

    def _opaque_call(self, f, args, kw, st, ctx, node, pure=False):
        args = tuple(self.freeze(a, st) if a.op == "obj" and a.a[1] != "inst" and pure else a for a in args)
        kws = tuple(sorted(kw.items()))
        if pure:
            return mk("call", f, args, kws)
        st.ncall += 1
        r = mk("call", f, args, kws, st.ncall)
        self.emit(st, ctx, node, "call", f, args, kws, r)
        return r

    def call(self, f, args, kw, st, ctx, node):
        h = self.opts["call_hook"]
        if h is not None:
            r = h(self, f, args, kw, st, ctx, node)
            if r is not None:
                return r
        outs = []
        x = self.opts["exc"]
        if x is not None:
            r = x(self, f, args, kw, st)
            if r:
                y = st.fork()
                self.emit(y, ctx, node, "excall", f, tuple(args))
                outs.append((y, ("raise", r if isinstance(r, T) else mk("anyexc", mk("const", "str", "external")))))
        return outs + self._call(f, args, kw, st, ctx, node)

    def _call(self, f, args, kw, st, ctx, node):
        o = f.op
        if o == "func":
            return self.call_func(self.func_of(f), args, kw, st, ctx, node)
        if o == "bound":
            return self.call_func(self.func_of(f.a[1]), [f.a[0]] + args, kw, st, ctx, node)
        if o == "clo":
            return self.call_clo(f, args, kw, st, ctx, node)
        if o == "class":
            return self.instantiate(self.prog.classes[f.a[0]], args, kw, st, ctx, node)
        if o == "builtin":
            m = getattr(self, "b_" + f.a[0], None)
            if m is not None:
                r = m(args, kw, st, ctx, node)
                if r is not None:
                    return r
            return [(st, self._opaque_call(f, args, kw, st, ctx, node, pure=f.a[0] in PURE_BUILTINS and not (f.a[0] == "bytearray" and self.opts.get("store"))))]
        if o == "umeth":
            if f.a[1] in ("__init__",) and args and args[0].op == "obj":
                self._ext_init(f.a[0], args[0], args[1:], kw, st, ctx, node)
                return [(st, NONE)]
            if args and (args[0].op == "star" or f.a[:2] == ("dict", "fromkeys")):
                return [(st, self._opaque_call(f, args, kw, st, ctx, node))]
            if args:
                if f.a[1] == "__getitem__" and len(args) == 2:
                    return [(st, mk("item", args[0], args[1], self._ver(args[0], st)))]
                tc = self.type_of(args[0], st)
                if isinstance(tc, Class) and tc.find(f.a[1]) is not None and f.a[1] in ("__eq__", "__ne__", "__hash__", "__repr__", "__str__"):
                    return [(st, self._opaque_call(f, args, kw, st, ctx, node, pure=True))]
                return self.call_method(args[0], f.a[1], args[1:], kw, st, ctx, node, builtin=True)
        if o == "vmeth":
            return [(st, self._opaque_call(f, args, kw, st, ctx, node, pure=f.a[1] in PURE_VIRT))]
        if o == "meth":
            return self.call_method(f.a[0], f.a[1], args, kw, st, ctx, node)
        if o == "attr":
            return self.call_method(f.a[0], f.a[1], args, kw, st, ctx, node)
        if o == "extsuper":
            c = self.prog.classes.get(f.a[1])
            if f.a[2] == "__init__":
                self._ext_init((c.ext_bases() or ["object"])[0], f.a[0], args, kw, st, ctx, node)
                return [(st, NONE)]
            if f.a[2] in ("__iter__",):
                return [(st, mk("call", mk("meth", f.a[0], "__iter__", 0), (), ()))]
            return [(st, self._opaque_call(mk("meth", f.a[0], f.a[2], self._ver(f.a[0], st)), args, kw, st, ctx, node, pure=True))]
        if o == "ext":
            n = f.a[0]
            if n in ("collections.deque",):
                return self.b_list(args, kw, st, ctx, node)
            if n == "collections.OrderedDict":
                return self.b_dict(args, kw, st, ctx, node)
            if n == "collections.defaultdict":
                oid = self._newobj(st, "defaultdict", None if not self.opts.get("store") else () if len(args) < 2 and not kw else None, factory=args[0] if args else NONE)
                st.heap[(oid, "default_factory")] = args[0] if args else NONE
                return [(st, oid)]
            if n in ("itertools.chain", "chain"):
                return self._chain(args, st, ctx, node)
            if n == "itertools.chain.from_iterable" and len(args) == 1:
                return self._chain_iter(args[0], st, ctx, node)
            if n.startswith("operator.") and n[9:].strip("_") in ("lt", "le", "gt", "ge", "eq", "ne") and len(args) == 2:
                return self.compare(n[9:].strip("_"), args[0], args[1], st, ctx, node)
            pure = n.startswith(PURE_EXT)
            return [(st, self._opaque_call(f, args, kw, st, ctx, node, pure=pure))]
        c = self.type_of(f, st)
        if isinstance(c, Class) and c.find("__call__") and self._virtual(f, c, c.find("__call__")):
            return [(st, self._opaque_call(mk("vmeth", f, "__call__"), args, kw, st, ctx, node, pure=True))]
        if isinstance(c, Class) and c.find("__call__") and self._may_inline(c.find("__call__")):
            return self.call_func(c.find("__call__"), [f] + args, kw, st, ctx, node)
        return [(st, self._opaque_call(f, args, kw, st, ctx, node, pure=self.opts.get("pure_unknown", False)))]

    def _chain(self, args, st, ctx, node):
        ss = ()
        for a in args:
            r = self.iter_segs(a, st, ctx, node)
            if len(r) != 1 or (r[0][1] and not isinstance(r[0][1][0], T)):
                return [(st, mk("call", mk("ext", "itertools.chain"), tuple(args), ()))]
            ss += tuple(r[0][1])
        return [(st, self._newobj(st, "gen", ss))]

    def _chain_iter(self, it, st, ctx, node):
        oid = self._newobj(st, "gen", ())
        outs = []
        for y, segs in self.iter_segs(it, st, ctx, node):
            def body(s2, val):
                res = []
                for z, s3 in self.iter_segs(val, s2, ctx, node):
                    def b2(s4, v2):
                        if s4.objs.get(oid) is not None:
                            s4.objs[oid] = s4.objs[oid] + (mk("one", v2),)
                        return [(s4, NEXT)]
                    res.extend(self.loop_segs(s3, b2, z, ctx, node, []))
                return res
            for z, o in self.loop_segs(segs, body, y, ctx, node, []):
                outs.append((z, oid if o is NEXT else o))
        return outs

    def _ext_init(self, base, obj, args, kw, st, ctx=None, node=None):
        if self.opts.get("containers") and base in ("dict", "list") and ctx is not None and (args or kw):
            self.emit(st, ctx, node, "extinit", obj, tuple(args), tuple(sorted(kw.items())))
        if base == "dict":
            ss = ()
            if args:
                s0 = self.segs(args[0], st)
                ss = tuple(s0) if s0 is not None else None
                if ss is None:
                    st.heap[(obj, "%init")] = args[0]
            if ss is not None and "**" not in kw:
                ss += tuple(mk("one", const(k), v) for k, v in kw.items())
            elif "**" in kw and not args:
                st.heap[(obj, "%init")] = kw["**"]
                ss = None
            st.objs[obj] = ss
        elif base == "list":
            s0 = self.segs(args[0], st) if args else ()
            st.objs[obj] = tuple(s0) if s0 is not None else None
            if args:
                st.heap[(obj, "%init")] = args[0]

    def bind(self, f_node, args, kw, st, dctx, skip_self=False):
        """parameter name -> term"""
        params = self._params(f_node)
        out = {}
        args = list(args)
        kw = dict(kw)
        rest = kw.pop("**", None)
        i = 0
        star = None
        used = set()
        for n, kind, default in params:
            if kind == "pos":
                if star is not None:
                    out[n] = kw.pop(n) if n in kw else self.getitem_term(star[0], const(star[1]), st)
                    if n not in kw:
                        star[1] += 1
                elif i < len(args):
                    if args[i].op == "star":
                        star = [args[i].a[0], 0]
                        out[n] = self.getitem_term(star[0], const(0), st)
                        star[1] = 1
                    else:
                        out[n] = args[i]
                    i += 1
                elif n in kw:
                    out[n] = kw.pop(n)
                else:
                    d = self._default(default, st, dctx)
                    if rest is not None and default is not None:
                        out[n] = mk("kwget", rest, n, d)
                    elif d is not None:
                        out[n] = d
                    else:
                        out[n] = mk("kwget", rest, n, NONE) if rest is not None else mk("missing", n)
            elif kind == "var":
                rem = args[i:]
                i = len(args)
                if star is not None:
                    out[n] = mk("item", star[0], mk("slice", const(star[1]), NONE, NONE), 0)
                elif len(rem) == 1 and rem[0].op == "star":
                    out[n] = rem[0].a[0]
                elif any(a.op == "star" for a in rem):
                    ss = []
                    for a in rem:
                        if a.op == "star":
                            q = self.segs(a.a[0], st)
                            ss.extend(q if q is not None else (self._for(a.a[0], lambda L, a=a: mk("elem", a.a[0], L)),))
                        else:
                            ss.append(mk("one", a))
                    out[n] = self._newobj(st, "tuple", tuple(ss))
                else:
                    out[n] = mk("tuple", tuple(rem))
            elif kind == "kwonly":
                if n in kw:
                    out[n] = kw.pop(n)
                else:
                    d = self._default(default, st, dctx)
                    out[n] = mk("kwget", rest, n, d or NONE) if rest is not None else (d if d is not None else mk("missing", n))
            elif kind == "kw":
                if rest is not None and not kw:
                    out[n] = rest
                elif rest is not None:
                    out[n] = mk("kwmix", rest, tuple(sorted(kw.items())))
                else:
                    out[n] = self._newobj(st, "dict", tuple(mk("one", const(k), v) for k, v in kw.items()))
                kw = {}
        return out

    def _default(self, d, st, dctx):
        if d is None:
            return None
        if isinstance(d, ast.Constant):
            return const(d.value)
        r = self.ev(d, st, dctx)
        return r[0][1] if len(r) >= 1 and isinstance(r[0][1], T) else NONE

    def _virtual(self, b, c, f):
        """the receiver may be of a subclass that overrides f: the call is not resolved statically"""
        if b.op == "obj" or b in self.exact or f.name == "__init__":
            return False
        r = self._virt_memo.get((c, f))
        if r is None:
            r = self._virt_memo[(c, f)] = any(f.name in x.methods for x in self.prog.subclasses(c) if x is not c)
        return r

    def call_func(self, f, args, kw, st, ctx, node):
        if f.qual in self.opts["no_inline"] or not self._may_inline(f) or (self.opts.get("inline_only") and not self.opts["inline_only"](f)):
            if f.cls is not None and not f.static and args:
                t = mk("bound", args[0], self._func_term(f))
                args = args[1:]
            else:
                t = self._func_term(f)
            if not f.prop and not self.opts.get("pure_opaque"):
                self._clobber(st, args)
            return [(st, self._opaque_call(t, args, kw, st, ctx, node, pure=bool(f.prop)))]
        self.inlined.add(f)
        dctx = Ctx(f.module, f.cls, f.qual, 0, None)
        st.frames.setdefault(0, {})
        b = self.bind(f.node, args, kw, st, dctx)
        self.emit(st, ctx, node, "enterfn", self._func_term(f), tuple(b.items()))
        return [(s, o[1] if o[0] == "ret" else o) for s, o in
                self._exec_func(f.node, f.module, f.cls, f.qual, b, None, st)]

    def _clobber(self, st, args):
        """containers handed to code that is not inlined may be changed by it"""
        for a in args:
            if a.op == "obj" and st.objs.get(a) is not None and a.a[1] in ("list", "dict", "set"):
                pass

    def call_clo(self, f, args, kw, st, ctx, node):
        code, fid, sub = f.a
        c = self.codes[code]
        if self.depth >= self.opts["max_depth"] or self.stack.count(c.qual) >= 2:
            return [(st, self._opaque_call(f, args, kw, st, ctx, node))]
        if fid not in st.frames:
            fr = self.const_state.frames.get(fid)
            st.frames[fid] = dict(fr) if fr is not None else {"%parent": None}
        if sub:
            fid = self._subst_frames(fid, sub, st)
        dctx = Ctx(c.module, c.cls, c.qual, fid, c.node)
        b = self.bind(c.node, args, kw, st, dctx)
        return [(s, o[1] if o[0] == "ret" else o) for s, o in
                self._exec_func(c.node, c.module, c.cls, c.qual, b, fid, st, is_gen=c.is_gen)]

    def run_clo(self, f, args, kw, st):
        """paths of a nested function called with the given terms; what a generator yields stays visible as events"""
        code, fid, sub = f.a
        c = self.codes[code]
        if fid not in st.frames:
            fr = self.const_state.frames.get(fid)
            st.frames[fid] = dict(fr) if fr is not None else {"%parent": None}
        if sub:
            fid = self._subst_frames(fid, sub, st)
        b = self.bind(c.node, args, kw, st, Ctx(c.module, c.cls, c.qual, fid, c.node))
        return [(s, o) for s, o in self._exec_func(c.node, c.module, c.cls, c.qual, b, fid, st, is_gen=False)]

    def _subst_frames(self, fid, sub, st):
        fr = st.frames.get(fid)
        if fr is None:
            return fid
        self.fid += 1
        nf = self.fid
        new = {}
        for k, v in fr.items():
            if isinstance(v, T):
                for o, n in sub:
                    v = subst_loop(v, o, n)
            new[k] = v
        st.frames[nf] = new
        if fr.get("%parent"):
            new["%parent"] = fr["%parent"]
        return nf

    def instantiate(self, c, args, kw, st, ctx, node):
        if c.is_enum or any(b.split(".")[-1] in ("Exception", "BaseException", "ValueError", "KeyError", "IOError", "Error") for b in c.ext_bases()):
            return [(st, mk("call", mk("class", c.name), tuple(args), tuple(sorted(kw.items()))))]
        if c.name in self.opts.get("opaque_new", ()):
            oid = self._newobj(st, "inst", None, c.name)
            self.emit(st, ctx, node, "new", oid, mk("class", c.name), tuple(args), tuple(sorted(kw.items())))
            return [(st, oid)]
        if c.name in self.opts.get("opaque_classes", ("NodeList",)):
            return [(st, mk("call", mk("class", c.name), tuple(self.freeze(a, st) for a in args), tuple(sorted(kw.items()))))]
        oid = self._newobj(st, "inst", None, c.name)
        for b in c.ext_bases():
            if b in ("dict", "list", "set"):
                st.objs[oid] = ()
        init = c.find("__init__")
        self.emit(st, ctx, node, "new", oid, mk("class", c.name), tuple(args), tuple(sorted(kw.items())))
        if init is None:
            for b in c.ext_bases():
                if b in ("dict", "list"):
                    self._ext_init(b, oid, args, kw, st, ctx, node)
            return [(st, oid)]
        return [(s, oid if not isinstance(v, tuple) else v) for s, v in self.call_func(init, [oid] + args, kw, st, ctx, node)]

    # ------------------------------------------------------------------ methods of opaque / builtin receivers
    def call_method(self, b, name, args, kw, st, ctx, node, builtin=False):
        c = self.type_of(b, st)
        if isinstance(c, Class) and not builtin:
            f = c.find(name)
            if f is not None and not f.prop:
                if not f.static and self._virtual(b, c, f):
                    return [(st, self._opaque_call(mk("vmeth", b, name), args, kw, st, ctx, node, pure=name in PURE_VIRT))]
                return self.call_func(f, ([] if f.static else [b]) + args, kw, st, ctx, node)
        if self.tries and not kw and (len(args) == 1 and name in ("pop", "remove", "index")):
            exc = {"pop": "KeyError", "index": "ValueError"}.get(name) or ("ValueError" if c == "list" or b.op == "obj" and b.a[1] == "list" else "KeyError")
            seqpop = name == "pop" and (c == "list" or b.op == "obj" and b.a[1] in ("list", "tuple"))
            if not seqpop and c not in ("str", "bytes") and self.expects(exc):
                outs = []
                tries, self.tries = self.tries, []
                try:
                    for x, v in self.compare("in", args[0], b, st, ctx, node):
                        for y, o in self.unless(v, exc, x, ctx, node) if not isinstance(v, tuple) else [(x, v)]:
                            outs.extend([(y, o)] if o is not None else self.call_method(b, name, args, kw, y, ctx, node, builtin))
                finally:
                    self.tries = tries
                return outs
        if b.op == "obj" and (b.a[1] != "inst" or b in st.objs):
            r = self._container_method(b, name, args, kw, st, ctx, node)
            if r is not None:
                return r if isinstance(r, list) else [(st, r)]
        if name in ("keys", "values", "items") and not args:
            return [(st, mk("view", name, b))]
        if name == "__contains__" and len(args) == 1:
            return self.compare("in", args[0], b, st, ctx, node)
        if name == "__getitem__" and len(args) == 1:
            return [(st, self.getitem_term(b, args[0], st))]
        if name in ("__eq__", "__ne__") and len(args) == 1:
            if is_const(b, None):
                return [(st, mk("isnot" if name == "__ne__" else "is", args[0], NONE))]
            return [(st, mk(name.strip("_"), b, args[0]))]
        if name in ("__lt__", "__le__", "__gt__", "__ge__") and len(args) == 1:
            return [(st, mk(name.strip("_"), b, args[0]))]
        if name == "__len__" and not args:
            return self.b_len([b], {}, st, ctx, node)
        if name == "__iter__" and not args:
            return [(st, b)]
        if name == "get" and args and b.op in ("map",):
            r = self._map_get(b.a[0], args[0])
            if r is not None:
                return [(st, r)]
            if args[0].op in ("const", "enum", "class") and all(z.op == "one" and z.a[0].op in ("const", "enum", "class") for z in b.a[0]):
                return [(st, args[1] if len(args) > 1 else NONE)]
        if name == "get" and args and not kw:
            d = args[1] if len(args) > 1 else NONE
            if c == "dict" or isinstance(c, Class) and "dict" in c.ext_bases() or c is None:
                return [(st, mk("dget", b, args[0], d, self._ver(b, st)))]
        if name == "format" and self._strish(b):
            return [(st, braces(b, args, kw))]
        if name == "join" and self._strish(b) and len(args) == 1:
            return [(st, mk("join", b, self.freeze(args[0], st)))]
        if name == "copy" and not args:
            ss = self.segs(b, st)
            if ss is not None:
                return [(st, self._newobj(st, {"map": "dict"}.get(b.op, b.op if b.op != "obj" else b.a[1]), ss))]
        mut = name in MUT
        if mut and not (c == "str" or c == "bytes"):
            ver = self._ver(b, st)
            nv = st.epoch[("[]", b)] = fresh_id()
            for key in [q for q in st.heap if q[0] is b and isinstance(q[1], tuple)]:
                del st.heap[key]
            st.ncall += 1
            r = mk("call", mk("meth", b, name, ver), tuple(args), tuple(sorted(kw.items())), st.ncall)
            self.emit(st, ctx, node, "mut", b, name, tuple(args), r, tuple(sorted(kw.items())))
            st.events[-1].ver = nv
            return [(st, r)]
        pure = (name in PURE and not (name in ("index", "count", "find", "copy") and False)) or c in ("str", "bytes", "int", "float")
        pure = pure and name not in self.opts.get("effects", ())
        return [(st, self._opaque_call(mk("meth", b, name, self._ver(b, st)), args, kw, st, ctx, node, pure=pure))]

    def _container_method(self, b, name, args, kw, st, ctx, node):
        kind = b.a[1]
        c = st.objs.get(b)
        mut = name in MUT

        def done(v, nc, emit=True):
            if nc is not None or True:
                st.objs[b] = nc
            if emit:
                self.emit(st, ctx, node, "mut", b, name, tuple(args), v, tuple(sorted(kw.items())))
                if kind == "inst" and self.opts.get("containers"):
                    st.epoch[("[]", b)] = st.events[-1].ver = fresh_id()
            return v
        if kind == "inst" and c is None and not mut:
            return None
        if kind in ("list", "tuple", "gen", "set", "frozenset"):
            if name in ("append", "add") and len(args) == 1:
                return done(NONE, c + (mk("one", args[0]),) if c is not None else None)
            if name == "appendleft":
                return done(NONE, (mk("one", args[0]),) + c if c is not None and not (c and c[0].op == "acc") else None)
            if name in ("extend", "update") and len(args) == 1:
                r = self.iter_segs(args[0], st, ctx, node)
                if len(r) == 1 and not (r[0][1] and not isinstance(r[0][1][0], T)) and c is not None:
                    return done(NONE, c + tuple(r[0][1]))
                return done(NONE, None)
            if name == "reverse" and c is not None:
                if all(z.op == "one" for z in c):
                    return done(NONE, tuple(reversed(c)))
                return done(NONE, (mk("rev", tuple(c)),))
            if name == "copy" and c is not None:
                return self._newobj(st, kind, c)
            if name == "sort":
                st.ncall += 1
                return done(NONE, None)
            if name in ("pop", "popleft") and c is not None:
                last = name == "pop" and not args
                first = name == "popleft" or (name == "pop" and args and is_const(args[0], 0))
                if last and c and c[-1].op == "one":
                    return done(c[-1].a[0], c[:-1])
                if first and c and c[0].op == "one":
                    return done(c[0].a[0], c[1:])
                st.ncall += 1
                return done(mk("popped", b, name, st.ncall), None)
            if name == "insert" and c is not None and len(args) == 2 and is_const(args[0], 0):
                return done(NONE, (mk("one", args[1]),) + c if not (c and c[0].op == "acc") else None)
            if name == "clear":
                return done(NONE, ())
            if mut:
                st.ncall += 1
                return done(mk("call", mk("meth", b, name, 0), tuple(args), (), st.ncall), None)
            if name == "__getitem__" and len(args) == 1:
                return self.getitem_term(b, args[0], st)
            if name == "__contains__":
                return mk("in", args[0], self._canon_container(b, st))
            fb = self.freeze(b, st)
            return mk("call", mk("meth", fb, name, fresh_id() if fb is b else 0), tuple(self.freeze(a, st) for a in args), tuple(sorted(kw.items())))
        if kind in ("dict", "inst", "defaultdict"):
            if name in ("keys", "values", "items") and not args:
                return mk("view", name, b)
            if name == "get" and args:
                d = args[1] if len(args) > 1 else NONE
                if c is not None:
                    r = self._map_get(c, args[0])
                    if r is not None:
                        return r
                    if args[0].op in ("const", "enum") and all(z.op == "one" and z.a[0].op in ("const", "enum") for z in c):
                        return d
                return mk("dget", self.freeze(b, st) if c is not None else b, args[0], d, self._ver(b, st))
            if name == "update":
                nc = c
                if args:
                    q = self.segs(args[0], st)
                    nc = nc + tuple(q) if nc is not None and q is not None else None
                for k, v in kw.items():
                    if k == "**":
                        nc = None
                    elif nc is not None:
                        nc = tuple(z for z in nc if not (z.op == "one" and z.a[0] is const(k))) + (mk("one", const(k), v),)
                return done(NONE, nc)
            if name == "setdefault" and args:
                d = args[1] if len(args) > 1 else NONE
                if c is not None:
                    r = self._map_get(c, args[0])
                    if r is not None:
                        return r
                    if not c:
                        return done(d, (mk("one", args[0], d),))
                st.ncall += 1
                v = mk("sdef", b, args[0], d)
                return done(v, None)
            if name == "pop" and args:
                if c is not None and any(z.op == "one" and z.a[0] is args[0] for z in c):
                    r = [z.a[1] for z in c if z.op == "one" and z.a[0] is args[0]][-1]
                    return done(r, tuple(z for z in c if not (z.op == "one" and z.a[0] is args[0])))
                st.ncall += 1
                return done(mk("popped", b, args[0], st.ncall), None)
            if name == "copy":
                return self._newobj(st, "dict", c)
            if name == "clear":
                return done(NONE, ())
            if mut:
                st.ncall += 1
                return done(mk("call", mk("meth", b, name, 0), tuple(args), (), st.ncall), None)
            return None
        return None

    # ------------------------------------------------------------------ builtins
    def b_isinstance(self, args, kw, st, ctx, node):
        if len(args) != 2:
            return None
        v, c = args
        cs = self.segs(c, st) if c.op in ("tuple",) else None
        if cs is not None:
            return [(st, mk("or", tuple(mk("isinst", v, z.a[0]) for z in cs)))]
        return [(st, mk("isinst", v, c))]

    def b_len(self, args, kw, st, ctx, node):
        v = args[0]
        if v.op == "tuple":
            return [(st, const(len(v.a[0])))]
        if v.op == "const" and v.a[0] in ("str", "bytes"):
            return [(st, const(len(v.a[1])))]
        c = self.type_of(v, st)
        if isinstance(c, Class) and c.find("__len__") and self._may_inline(c.find("__len__")) and c.find("__len__").qual not in self.opts["no_inline"]:
            nc = self.prog.classes.get("NodeCollection")
            if not (nc and nc in c.mro()) or self.opts.get("inline_iter"):
                return self.call_func(c.find("__len__"), [v], {}, st, ctx, node)
            return [(st, mk("len", v, self._ver(v, st)))]
        ss = self.segs(v, st)
        if ss is not None:
            if all(z.op == "one" for z in ss) and not (v.op == "obj" and v.a[1] == "set"):
                return [(st, const(len(ss)))]
            sf = self._single_for(ss)
            if sf is not None and v.op != "set" and not (v.op == "obj" and v.a[1] == "set"):
                d = sf[1]
                if d.op == "rng":
                    return [(st, d.a[0])]
                if d.op not in ("zip", "rngs", "while"):
                    if d.op == "at":
                        return [(st, mk("len", d.a[0], d.a[1]))]
                    if d.op == "view":
                        return [(st, mk("len", d.a[1], 0))]
                    return [(st, mk("len", d, 0))]
            fb = self.freeze(v, st)
            return [(st, mk("len", fb, 0))]
        if v.op == "view":
            v = v.a[1]
        return [(st, mk("len", v, self._ver(v, st)))]

    def b_range(self, args, kw, st, ctx, node):
        return [(st, self._range(args))]

    def b_iter(self, args, kw, st, ctx, node):
        if len(args) == 1:
            v = args[0]
            if v.op in ("obj", "list", "tuple", "map", "set", "view", "range"):
                return [(st, v)]
            c = self.type_of(v, st)
            if isinstance(c, Class) and c.find("__iter__"):
                nc = self.prog.classes.get("NodeCollection")
                if (nc and nc in c.mro()) and not self.opts["inline_iter"]:
                    return [(st, v)]
            return [(st, v)]
        return None

    def b_zip(self, args, kw, st, ctx, node):
        ss = self.zip_segs(args, st, ctx, node)
        if ss is None:
            return None
        return [(st, self._newobj(st, "gen", ss))]

    def b_enumerate(self, args, kw, st, ctx, node):
        start = args[1] if len(args) > 1 else kw.get("start", const(0))
        r = self.iter_segs(args[0], st, ctx, node)
        outs = []
        for x, ss in r:
            if ss and not isinstance(ss[0], T):
                outs.append((x, ss))
                continue
            if all(z.op == "one" for z in ss):
                outs.append((x, self._newobj(x, "gen", tuple(mk("one", mk("tuple", (lin_add(const(i), start), z.a[0]))) for i, z in enumerate(ss)))))
                continue
            sf = self._single_for(ss)
            if sf is not None:
                L, dom, el = sf
                L2 = fresh_id()
                self.loopdom[L2] = dom
                outs.append((x, self._newobj(x, "gen", (mk("for", L2, dom, (((), (mk("one", mk("tuple", (lin_add(mk("idx", L2), start), subst_loop(el, L, L2)))),)),)),))))
                continue
            d = self._dom(args[0], x)
            outs.append((x, self._newobj(x, "gen", (self._for(d, lambda L: mk("tuple", (lin_add(mk("idx", L), start), mk("elem", d, L)))),))))
        return outs

    def _apply_loop(self, it, fn, st, ctx, node, kind="gen"):
        """build a container by running fn(state, element, add) over an iterable"""
        oid = self._newobj(st, kind, ())
        outs = []
        for y, segs in self.iter_segs(it, st, ctx, node):
            if segs and not isinstance(segs[0], T):
                outs.append((y, segs))
                continue

            def add(s, v):
                if s.objs.get(oid) is not None:
                    s.objs[oid] = s.objs[oid] + (mk("one", v),)
                if self.opts.get("store"):
                    self.emit(s, ctx, node, "mut", oid, "append", (v,), NONE, ())

            def body(s, val):
                return fn(s, val, add)
            for z, o in self.loop_segs(segs, body, y, ctx, node, []):
                if o is NEXT and self.opts.get("store"):
                    outs.append((z, self.alias(oid, None, z, ctx, node)))
                    continue
                outs.append((z, oid if o is NEXT else o))
        return outs

    def b_map(self, args, kw, st, ctx, node):
        if len(args) == 2:
            def fn(s, v, add):
                res = []
                for x, r in self.call(args[0], [v], {}, s, ctx, node):
                    if isinstance(r, tuple):
                        res.append((x, r))
                    else:
                        add(x, r)
                        res.append((x, NEXT))
                return res
            return self._apply_loop(args[1], fn, st, ctx, node)
        z = self.zip_segs(args[1:], st, ctx, node)
        if z is None:
            return None
        zo = self._newobj(st, "gen", z)

        def fn2(s, v, add):
            res = []
            aa = list(v.a[0]) if v.op == "tuple" else [self.getitem_term(v, const(i), s) for i in range(len(args) - 1)]
            for x, r in self.call(args[0], aa, {}, s, ctx, node):
                if isinstance(r, tuple):
                    res.append((x, r))
                else:
                    add(x, r)
                    res.append((x, NEXT))
            return res
        return self._apply_loop(zo, fn2, st, ctx, node)

    def b_filter(self, args, kw, st, ctx, node):
        def fn(s, v, add):
            res = []
            rs = [(s, v)] if is_const(args[0], None) else self.call(args[0], [v], {}, s, ctx, node)
            for x, r in rs:
                if isinstance(r, tuple):
                    res.append((x, r))
                    continue
                for y, b in self.branch(r, x):
                    if b:
                        add(y, v)
                    res.append((y, NEXT))
            return res
        return self._apply_loop(args[1], fn, st, ctx, node)

    def _quant(self, args, st, ctx, node, stop):
        """any (stop=True) / all (stop=False)"""
        outs = []
        if len(args) != 1:
            return None
        for y, segs in self.iter_segs(args[0], st, ctx, node):
            if segs and not isinstance(segs[0], T):
                outs.append((y, segs))
                continue

            def body(s, val):
                res = []
                for x, b in self.branch(val, s):
                    res.append((x, ("ret", const(stop)) if b == stop else NEXT))
                return res
            for z, o in self.loop_segs(segs, body, y, ctx, node, []):
                if o is NEXT:
                    outs.append((z, const(not stop)))
                elif o[0] == "ret":
                    outs.append((z, o[1]))
                else:
                    outs.append((z, o))
        return outs

    def b_any(self, args, kw, st, ctx, node):
        return self._quant(args, st, ctx, node, True)

    def b_all(self, args, kw, st, ctx, node):
        return self._quant(args, st, ctx, node, False)

    def b_next(self, args, kw, st, ctx, node):
        v = args[0]
        c = self.type_of(v, st)
        if isinstance(c, Class) and c.find("__next__") and self._may_inline(c.find("__next__")) and c.find("__next__").qual not in self.opts["no_inline"]:
            outs = []
            for x, r in self.call_func(c.find("__next__"), [v], {}, st, ctx, node):
                if isinstance(r, tuple) and r[0] == "raise" and r[1] is B("StopIteration") and len(args) > 1:
                    outs.append((x, args[1]))
                else:
                    outs.append((x, r))
            return outs
        ss = self.segs(v, st)
        if ss is not None and ss and ss[0].op == "one":
            return [(st, ss[0].a[0])]
        if ss is not None and len(ss) == 1 and len(args) > 1:
            return [(st, mk("firstof", self.freeze(v, st), args[1]))]
        st.ncall += 1
        if self.opts.get("containers") and isinstance(node, ast.Call) and node.args \
                and isinstance(node.args[0], ast.Call) and isinstance(node.args[0].func, ast.Name) and node.args[0].func.id == "iter":
            # an iterator made for this very step
            v = mk("call", B("iter"), (v,), ())
        r = mk("call", B("next"), tuple(args), (), st.ncall)
        if len(args) == 1 and self.expects("StopIteration"):
            more = mk("hasnext", v, st.ncall)
            outs = []
            for x, o in self.unless(more, "StopIteration", st, ctx, node):
                if o is None:
                    self.emit(x, ctx, node, "next", v, (), r, more)
                else:
                    self.emit(x, ctx, node, "nonext", v, more)
                outs.append((x, r if o is None else o))
            return outs
        self.emit(st, ctx, node, "next", v, tuple(args[1:]), r)
        return [(st, r)]

    def b_list(self, args, kw, st, ctx, node, kind="list"):
        if not args:
            return [(st, self._newobj(st, kind, ()))]
        outs = []
        for x, ss in self.iter_segs(args[0], st, ctx, node):
            if ss and not isinstance(ss[0], T):
                outs.append((x, ss))
            else:
                outs.append((x, self._newobj(x, kind, tuple(ss))))
        return outs

    def b_set(self, args, kw, st, ctx, node):
        return self.b_list(args, kw, st, ctx, node, "set")

    def b_frozenset(self, args, kw, st, ctx, node):
        return self.b_list(args, kw, st, ctx, node, "set")

    def b_tuple(self, args, kw, st, ctx, node):
        if args and args[0].op == "tuple":
            return [(st, args[0])]
        if args and self.segs(args[0], st) is None:
            return [(st, mk("call", B("tuple"), tuple(args), ()))]
        outs = self.b_list(args, kw, st, ctx, node, "tuple")
        res = []
        for x, v in outs:
            if isinstance(v, T) and v.op == "obj" and all(z.op == "one" for z in x.objs[v]):
                v = mk("tuple", tuple(z.a[0] for z in x.objs[v]))
            res.append((x, v))
        return res

    def b_dict(self, args, kw, st, ctx, node):
        if "**" in kw:
            if not args and len(kw) == 1:
                v = kw["**"]
                ss = self.segs(v, st)
                if ss is not None:
                    return [(st, self._newobj(st, "dict", tuple(ss)))]
                return [(st, mk("call", B("dict"), (v,), ()))]
            return None
        extra = tuple(mk("one", const(k), v) for k, v in kw.items())
        if not args:
            return [(st, self._newobj(st, "dict", extra))]
        a = args[0]
        ss = self.segs(a, st)
        ismap = a.op == "map" or (a.op == "obj" and a.a[1] in ("dict", "inst"))
        if ismap and ss is not None:
            return [(st, self._newobj(st, "dict", tuple(ss) + extra))]
        if ss is not None:
            conv = [self._pairs(z) for z in ss]
            if all(z is not None for z in conv):
                return [(st, self._newobj(st, "dict", tuple(conv) + extra))]
        r = mk("call", B("dict"), (self.freeze(a, st),), ())
        if not extra:
            return [(st, r)]
        return None

    def _pairs(self, z):
        if z.op == "one":
            t = z.a[0]
            if t.op == "tuple" and len(t.a[0]) == 2:
                return mk("one", t.a[0][0], t.a[0][1])
            return None
        if z.op == "for":
            al = []
            for g, q in z.a[2]:
                qq = [self._pairs(y) for y in q]
                if any(y is None for y in qq):
                    return None
                al.append((g, tuple(qq)))
            return mk("for", z.a[0], z.a[1], tuple(al))
        return None

    def b_reversed(self, args, kw, st, ctx, node):
        v = args[0]
        ss = self.segs(v, st)
        if ss is not None and all(z.op == "one" for z in ss):
            return [(st, self._newobj(st, "gen", tuple(reversed(ss))))]
        if ss is not None:
            return [(st, self._newobj(st, "gen", (mk("rev", tuple(self._fz(z, st, 0) for z in ss)),)))]
        if v.op == "range" and is_const(v.a[2], 1):
            return [(st, mk("range", lin_add(v.a[1], const(1), -1), lin_add(v.a[0], const(1), -1), const(-1)))]
        return [(st, mk("call", B("reversed"), (v,), ()))]

    def b_sorted(self, args, kw, st, ctx, node):
        a = self.freeze(args[0], st)
        if self.opts.get("store") and len(args) == 1:
            oid = self._newobj(st, "list", ())
            self.emit(st, ctx, node, "mut", oid, "extend", (mk("call", B("sorted"), (a,), tuple(sorted(kw.items()))),), NONE, ())
            return [(st, self.alias(oid, "list", st, ctx, node))]
        if self.opts.get("containers") and self._ver(a, st) and a.op == "item":
            a = mk("at", a, self._ver(a, st))
        return [(st, mk("call", B("sorted"), (a,), tuple(sorted(kw.items()))))]

    def b_sum(self, args, kw, st, ctx, node):
        return [(st, mk("call", B("sum"), tuple(self.freeze(a, st) for a in args), ()))]

    def _minmax(self, nm, args, kw, st):
        args = [self.freeze(a, st) for a in args]
        if len(args) > 1 and all(is_const(a) for a in args):
            return [(st, const({"min": min, "max": max}[nm](a.a[1] for a in args)))]
        if len(args) > 1:
            args = sorted(set(args), key=show)
        return [(st, mk("call", B(nm), tuple(args), tuple(sorted(kw.items()))))]

    def b_min(self, args, kw, st, ctx, node):
        return self._minmax("min", args, kw, st)

    def b_max(self, args, kw, st, ctx, node):
        return self._minmax("max", args, kw, st)

    def b_bool(self, args, kw, st, ctx, node):
        if len(args) == 1 and args[0].op in BOOLISH:
            return [(st, args[0])]
        return None

    def b_str(self, args, kw, st, ctx, node):
        if len(args) == 1:
            v = args[0]
            if v.op in ("fmt", "pct") or is_const(v) and v.a[0] == "str":
                return [(st, v)]
            c = self.type_of(v, st)
            if c == "str":
                return [(st, v)]
            if isinstance(c, Class) and c.find("__str__") and self.opts.get("inline_str", True) and self._may_inline(c.find("__str__")) and c.name in ("TextSpan", "Text"):
                return self.call_func(c.find("__str__"), [v], {}, st, ctx, node)
        return None

    def b_int(self, args, kw, st, ctx, node):
        if len(args) == 1:
            if is_const(args[0]) and args[0].a[0] in ("int",):
                return [(st, args[0])]
            if args[0].op in ("lin", "len", "idx") or self.tstr(args[0]) == "int":
                return [(st, args[0])]
        return None

    def has_attr(self, b, name, st):
        """whether the object has the attribute: TRUE, or a term"""
        if st.heap.get((b, name)) is not None or b.op == "obj" and b not in st.objs and self.const_state.heap.get((b, name)) is not None:
            return TRUE
        c = self.type_of(b, st)
        if isinstance(c, Class) and (c.find(name) is not None or c.find_attr(name) is not None):
            return TRUE
        if b.op in ("module", "ext", "class", "enum", "builtin", "super", "const", "slice"):
            return None
        return mk("hasattr", b, name, st.epoch.get(name, 0))

    def b_hasattr(self, args, kw, st, ctx, node):
        if len(args) == 2 and is_const(args[1]) and args[1].a[0] == "str":
            h = self.has_attr(args[0], args[1].a[1], st)
            return None if h is None else [(st, h)]
        return None

    def b_getattr(self, args, kw, st, ctx, node):
        if len(args) >= 2 and is_const(args[1]) and args[1].a[0] == "str":
            if len(args) == 3:
                h = self.has_attr(args[0], args[1].a[1], st)
                if h is not None and h is not TRUE:
                    outs = []
                    for x, b in self.branch(h, st):
                        outs += self.getattr(args[0], args[1].a[1], x, ctx, node) if b else [(x, args[2])]
                    return outs
            return self.getattr(args[0], args[1].a[1], st, ctx, node)
        return None

    def b_setattr(self, args, kw, st, ctx, node):
        if len(args) == 3 and is_const(args[1]) and args[1].a[0] == "str":
            return [(x, NONE if o is NEXT else o) for x, o in self.setattr(args[0], args[1].a[1], args[2], st, ctx, node)]
        return None

    def b_callable(self, args, kw, st, ctx, node):
        v = args[0]
        if v.op in ("func", "class", "clo", "bound", "builtin"):
            return [(st, TRUE)]
        if v.op in ("const", "tuple", "list", "enum", "fmt", "pct"):
            return [(st, FALSE)]
        return [(st, mk("call", B("callable"), (v,), ()))]

    def b_type(self, args, kw, st, ctx, node):
        if len(args) == 1:
            c = self.static_class(args[0], st)
            if c is not None:
                return [(st, c)]
        return None
