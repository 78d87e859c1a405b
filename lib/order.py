"""Flow-sensitive, interprocedural analysis of values whose content or order depends on hashing or object identity.

Tags of an abstract value
  S  unordered collection (set): iterating it gives an arbitrary order
  D  dictionary filled in an arbitrary order: looking up is fine, iterating is not
  O  value whose content depends on an arbitrary order (list, text, element picked)
  E  element drawn from an unordered collection in the loop being executed
  W  (with E) the drawn element itself, not a part of it
  I  value taken from object identity, hashing, the clock or a random source
"""
import ast


class V:
    __slots__ = ("tags", "el", "cls", "kind", "src", "sites")

    def __init__(self, tags=(), el=None, cls=None, kind=None, src=None, sites=frozenset()):
        self.sites = sites
        self.tags = frozenset(tags)
        self.el, self.cls, self.kind, self.src = el, cls, kind, src

    def key(self, d=3):
        return (self.tags, self.sites, self.cls.name if self.cls else None, self.kind, self.el.key(d - 1) if self.el is not None and d else None)

    def deep(self, d=3):
        t = self.tags | (self.el.deep(d - 1) if self.el is not None and d else frozenset())
        for s in self.sites:
            if s in SITES:
                t |= SITES[s].deep(d)
        return t

    def whole(self):
        """with what was later done to the object under another name"""
        v = self
        for s in self.sites:
            if s in SITES:
                v = join(v, SITES[s]).with_(kind=self.kind, sites=self.sites)
        return v

    def reach(self, d=3):
        return self.sites | (self.el.reach(d - 1) if self.el is not None and d else frozenset())

    def where(self, d=3):
        return self.src or (self.el.where(d - 1) if self.el is not None and d else None) or next((SITES[s].where(d) for s in self.sites if s in SITES and d), None)

    def with_(self, add=(), drop=(), src=None, **kw):
        v = V((self.tags - set(drop)) | set(add), self.el, self.cls, self.kind, self.src or src, self.sites)
        for k, x in kw.items():
            setattr(v, k, x)
        return v


BOT = V()
SITES = {}          # allocation site -> what was done to the object after it was put somewhere
ESCAPED = set()


def join(a, b, d=3):
    if a is b or b is None:
        return a
    if a is None:
        return b
    el = a.el if b.el is None else b.el if a.el is None else join(a.el, b.el, d - 1) if d else None
    return V(a.tags | b.tags, el, a.cls if a.cls is b.cls else (a.cls or b.cls) if not (a.cls and b.cls) else None,
             a.kind if a.kind == b.kind else None, a.src or b.src, a.sites | b.sites)


def joins(vs):
    r = None
    for v in vs:
        r = v if r is None else join(r, v)
    return r or BOT


KILL = {"len", "sorted", "sum", "any", "all", "bool", "isinstance", "issubclass", "hasattr", "callable", "type"}     # results free of the order
PASS = {"list", "tuple", "iter", "enumerate", "reversed", "zip", "map", "filter", "chain", "from_iterable", "deque", "islice", "starmap", "cycle", "array", "accumulate"}
SETS = {"set", "frozenset"}
ENV = {"time.time", "time.time_ns", "time.perf_counter", "time.monotonic", "os.urandom", "os.getpid", "uuid.uuid4", "uuid.uuid1", "datetime.now", "datetime.datetime.now"}
SETMETH = {"union", "intersection", "difference", "symmetric_difference"}
MUTORD = {"append", "extend", "appendleft", "extendleft", "insert", "write", "writelines"}
NOSINK = {"__hash__", "__eq__", "__ne__", "__lt__", "__gt__", "__le__", "__ge__", "__contains__", "__bool__", "__len__", "__del__", "__init_subclass__"}


class Order:
    def __init__(self, prog, modules):
        self.prog = prog
        self.modules = modules
        self.fields = {}          # (class name, attribute) -> V
        self.reports = {}
        self.uses = {}            # loc -> text of the uses of unordered values
        self.cur = []
        self.memo = {}
        self.changed = False
        self.byname = {}
        for c in prog.classes.values():
            for n, f in c.methods.items():
                self.byname.setdefault(n, []).append(f)

    # ------------------------------------------------------------- driver
    def run(self, funcs):
        for rnd in range(4):
            SITES.clear()
            ESCAPED.clear()
            self.changed = False
            self.memo = {}
            self.reports = {}
            for f in funcs:
                self.root(f)
            if not self.changed:
                break

    def root(self, f):
        self.call(f, [V(cls=f.cls)] if f.cls is not None and not f.static else [], {}, root=True)

    def call(self, f, args, kw, root=False, env0=None):
        k = (f.module.name, f.qual, f.node.lineno, tuple(a.key() for a in args), tuple(sorted((n, a.key()) for n, a in kw.items())), root)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = BOT
        if len(self.cur) > 12:
            return BOT
        fr = Frame(self, f, root)
        env = dict(env0 or {})
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        for n, v in zip(names, args):
            env[n] = v
        if len(args) > len(names) and a.vararg is not None:
            env[a.vararg.arg] = V(el=joins(args[len(names):]), kind="seq")
        for n, v in kw.items():
            if n in names or n in [x.arg for x in a.kwonlyargs]:
                env[n] = v
        self.cur.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                fr.ret = fr.ev(f.node.body, env)
            else:
                fr.block(f.node.body, env)
        finally:
            self.cur.pop()
        r = joins([fr.ret] + ([V(el=fr.yields, kind="seq", tags=fr.ytags, src=fr.ysrc)] if fr.yields is not None else []))
        self.memo[k] = r
        return r

    def report(self, loc, what, v):
        self.reports.setdefault((loc, what), v.where() or "an unordered collection")

    def store(self, cls, attr, v):
        if cls is None or not v.deep() and v.kind is None:
            return
        k = (cls.name, attr)
        old = self.fields.get(k)
        v = strip(v)
        new = v if old is None else join(old, v)
        if old is None or new.key() != old.key():
            self.fields[k] = new
            self.changed = True

    def load(self, cls, attr):
        out = None
        names = [c.name for c in cls.mro() if not isinstance(c, str)] if cls is not None else []
        for n in names:
            if (n, attr) in self.fields:
                out = self.fields[(n, attr)]
                break
        return out or BOT


def strip(v, d=3):
    """outside the loop an element drawn becomes an arbitrary choice"""
    t = v.tags
    if "E" in t:
        t = (t - {"E", "W"}) | {"O"}
    return V(t, strip(v.el, d - 1) if v.el is not None and d else None, v.cls, v.kind, v.src, v.sites)


class Loop:
    def __init__(self, src):
        self.src = src
        self.born = set()
        self.assigned = {}


class Frame:
    def __init__(self, o, f, root):
        self.o, self.f, self.root = o, f, root
        self.ret = None
        self.yields = None
        self.ytags = ()
        self.ysrc = None
        self.loops = []
        self.tests = []
        self.nodes = {}
        n = f.name
        self.sink = root and n not in NOSINK and (not n.startswith("_") or n.startswith("__") or n.startswith("_repr"))

    def loc(self, n):
        return "%s:%d" % (self.f.module.rel, n.lineno)

    def src(self, n):
        try:
            t = ast.unparse(n)
        except Exception:
            t = "?"
        return "%s at %s" % (t[:60], self.loc(n))

    # ------------------------------------------------------------- statements
    def block(self, body, env):
        """False when the end is not reached"""
        for s in body:
            if self.stmt(s, env) is False:
                return False
        return True

    def stmt(self, s, env):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            return m(s, env)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return True

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_FunctionDef(self, s, env):
        env[s.name] = V(kind=("fn", s))

    def s_ClassDef(self, s, env):
        pass

    def s_Return(self, s, env):
        if s.value is not None:
            v = self.ev(s.value, env)
            if "E" in v.deep() and self.loops and self.depends(s.value, env):
                self.leave(s, v)
                v = strip(v)
            self.ret = join(self.ret, strip(v)) if self.ret is not None else strip(v)
            if self.sink and v.deep() & {"O", "I"}:
                self.o.report(self.loc(s), "%s returns a value that depends on %s" % (self.f.qual, "object identity, the clock or chance" if "I" in v.deep() and "O" not in v.deep() else "hash order"), v)
        return False

    def leave(self, s, v):
        pass

    def s_Raise(self, s, env):
        return False

    def s_Continue(self, s, env):
        return False

    def s_Break(self, s, env):
        return False

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env, s)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env, s)

    def s_NamedExpr(self, s, env):
        pass

    def s_AugAssign(self, s, env):
        v = self.ev(s.value, env)
        cur = self.ev(_load(s.target), env)
        if isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            if "S" in cur.tags or not isinstance(s.op, ast.BitOr):
                return
            if isinstance(s.op, ast.BitOr) and "E" in v.deep():
                return
        if isinstance(s.op, ast.Add):
            seq = cur.kind in ("str", "list", "seq") or v.kind in ("str", "list", "seq")
            if "E" in v.deep() and self.loops:
                if seq and not self.per_element(s.target, env):
                    self.taint(s.target, env, V("O", src=self.loops[-1].src))
                return
            if v.tags & {"S", "D"}:
                v = v.with_(add="O", drop="SD")
            nv = join(cur, v)
            nv.kind = cur.kind
            self.assign(s.target, nv, env, s)

    def per_element(self, t, env):
        """the target belongs to the element drawn, or was made in this round"""
        while isinstance(t, (ast.Subscript, ast.Attribute, ast.Call)):
            if isinstance(t, ast.Subscript) and "W" in self.ev(t.slice, env).tags:
                return True
            if isinstance(t, ast.Call):
                if any("W" in self.ev(a, env).tags for a in t.args):
                    return True
                t = t.func
            else:
                t = t.value
        if isinstance(t, ast.Name):
            v = env.get(t.id, BOT)
            return "E" in v.tags or bool(self.loops and t.id in self.loops[-1].born)
        return True

    def taint(self, t, env, v):
        """the object behind t takes the tags of v"""
        if isinstance(t, ast.Name):
            old = env.get(t.id, BOT)
            if "S" in old.tags:
                return
            env[t.id] = join(old, V(v.tags, v.el, src=v.src)).with_(kind=old.kind, cls=old.cls)
            for x in old.sites & ESCAPED:
                SITES[x] = join(SITES.get(x), V(v.tags, v.el, src=v.src)) if x in SITES else V(v.tags, v.el, src=v.src)
            if old.kind == "node" and v.tags & {"D", "O"}:
                self.o.report(self.loc(t), "%s fills in the fields of a node in hash order" % self.f.qual, v)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            self.o.store(b.cls, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            if "S" in b.tags:
                return
            self.taint(t.value, env, V(el=v))
        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr in ("setdefault", "get"):
            self.taint(t.func.value, env, V(el=v))

    def assign(self, t, v, env, s):
        if isinstance(t, ast.Name):
            if self.loops:
                L = self.loops[-1]
                L.born.add(t.id)
                if "E" in v.deep() and any(_mentions(x, t.id) and _orders(x) for x in self.tests):
                    v = v.with_(drop="E")     # keeps the best of all elements: the same whatever the order (unless tied)
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            e = v.el or BOT
            if v.tags & {"S", "D", "O"} and len(t.elts) > 1:
                e = e.with_(add="O", src=v.where())      # (a single target: exactly one element)
            e = e.with_(add=v.tags & {"E", "I"}, drop="W", src=v.src)
            for i, x in enumerate(t.elts):
                self.assign(x.value if isinstance(x, ast.Starred) else x, e.with_(add="W") if i == 0 and v.kind == "item" and "W" in v.tags else e, env, s)
        elif isinstance(t, ast.Attribute):
            ESCAPED.update(v.reach())
            b = self.ev(t.value, env)
            if self.loops and "E" in v.deep() and "E" in b.tags:
                return
            self.o.store(b.cls, t.attr, v)
            if not t.attr.startswith("_") and "O" in v.deep() and b.cls is not None and isinstance(t.value, ast.Name):
                self.o.report(self.loc(s), "%s.%s depends on hash order" % (b.cls.name, t.attr), v)
        elif isinstance(t, ast.Subscript):
            ESCAPED.update(v.reach())
            if v.reach() and not self.loops:
                self.taint(t.value, env, V(el=v))
            k = self.ev(t.slice, env)
            if self.loops and ("E" in k.deep() or "E" in v.deep()):
                if "E" in k.deep():
                    if not self.per_element(t.value, env):
                        self.taint(t.value, env, V("D", V(v.tags - {"E"}, v.el), src=self.loops[-1].src))
                    return
                if not self.per_element(t.value, env):
                    self.taint(t.value, env, V(el=V("O", src=self.loops[-1].src)))
                return
            if v.deep() & {"O", "S", "D", "I"}:
                self.taint(t.value, env, V(el=v))

    def s_Delete(self, s, env):
        pass

    def s_If(self, s, env):
        self.ev(s.test, env)
        a, b = dict(env), dict(env)
        self.single(s.test, True, a)
        self.single(s.test, False, b)
        self.tests.append(s.test)
        ra = self.block(s.body, a)
        rb = self.block(s.orelse, b)
        self.tests.pop()
        self.merge(env, [x for x, r in ((a, ra), (b, rb)) if r is not False])
        return ra is not False or rb is not False

    def single(self, t, truth, env):
        """in this branch a set is known to hold at most one element"""
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) and truth or isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or) and not truth:
            for x in t.values:
                self.single(x, truth, env)
            return
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.single(t.operand, not truth, env)
        if isinstance(t, ast.Name) and not truth and t.id in env:
            env[t.id] = env[t.id].with_(drop="SD")
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return
        l, op, r = t.left, t.ops[0], t.comparators[0]
        if isinstance(l, ast.Constant):
            l, r = r, l
            op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(op), type(op))()
        if not (isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "len" and l.args and isinstance(l.args[0], ast.Name) and isinstance(r, ast.Constant)
                and isinstance(r.value, int)):
            return
        n = r.value
        one = {ast.Eq: (n <= 1, False), ast.NotEq: (False, n <= 1), ast.Lt: (n <= 2, False), ast.LtE: (n <= 1, False), ast.Gt: (False, n <= 1), ast.GtE: (False, n <= 2)}.get(type(op), (False, False))
        if one[0 if truth else 1] and l.args[0].id in env:
            env[l.args[0].id] = env[l.args[0].id].with_(drop="SD")

    def s_Assert(self, s, env):
        self.ev(s.test, env)
        self.single(s.test, True, env)

    def merge(self, env, outs):
        if not outs:
            return
        for k in set().union(*outs):
            env[k] = joins([o.get(k, BOT) for o in outs])

    def s_While(self, s, env):
        for _ in range(2):
            self.ev(s.test, env)
            e = dict(env)
            self.block(s.body, e)
            self.merge(env, [env.copy(), e])
        self.block(s.orelse, env)

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        un = bool(it.tags & {"S", "D", "O"})
        L = None
        if un:
            L = Loop(it.where() or self.src(s.iter))
            self.use(s.iter, it)
            self.loops.append(L)
        try:
            for _ in range(2):
                e = dict(env)
                self.assign(s.target, self.draw(it), e, s)
                if L is not None:
                    for x in ast.walk(s.target):
                        if isinstance(x, ast.Name):
                            L.born.discard(x.id)
                self.block(s.body, e)
                self.merge(env, [env.copy(), e])
        finally:
            if L is not None:
                self.loops.pop()
        if L is not None and not any("E" in v.deep() for l in self.loops for v in ()):
            for k, v in list(env.items()):
                if "E" in v.deep() and not self.loops:
                    env[k] = strip(v)
        self.block(s.orelse, env)

    s_AsyncFor = s_For

    def s_With(self, s, env):
        for it in s.items:
            v = self.ev(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env, s)
        return self.block(s.body, env)

    def s_Try(self, s, env):
        e0 = dict(env)
        r = self.block(s.body, env)
        outs = [(env.copy(), r)]
        for h in s.handlers:
            e = dict(e0)
            self.merge(e, [e.copy(), env])
            outs.append((e, self.block(h.body, e)))
        if r is not False:
            r = self.block(s.orelse, env)
            outs[0] = (env.copy(), r)
        self.merge(env, [x for x, q in outs if q is not False])
        rf = self.block(s.finalbody, env)
        return rf is not False and any(q is not False for x, q in outs)

    # ------------------------------------------------------------- expressions
    def use(self, n, v):
        self.o.uses.setdefault(self.loc(n), v.where() or self.src(n))

    def draw(self, it):
        """an element of the iterable"""
        el = it.el or BOT
        el = el.whole() if el.sites else el
        if it.tags & {"S", "D", "O"}:
            el = el.with_(add="EW", src=it.src)
        elif it.tags & {"E", "I"}:
            el = el.with_(add=it.tags & {"E", "I"}, src=it.src)
        return el

    def depends(self, n, env):
        return "E" in self.ev(n, env).deep()

    def ev(self, n, env):
        if n is None:
            return BOT
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is not None:
            return m(n, env)
        return flat([self.ev(c, env) for c in ast.iter_child_nodes(n) if isinstance(c, ast.expr)])

    def e_Constant(self, n, env):
        return V(kind="str" if isinstance(n.value, str) else "num" if isinstance(n.value, (int, float)) else None)

    def e_Name(self, n, env):
        v = env.get(n.id, BOT)
        return v.whole() if v.sites else v

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env, n)
        return v

    def e_Lambda(self, n, env):
        return V(kind=("lam", n))

    def e_Set(self, n, env):
        return V("S", joins([self.ev(x, env) for x in n.elts]).with_(drop="E"), kind="set", src=self.src(n))

    def e_List(self, n, env):
        vs = []
        tags = set()
        src = None
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                if v.tags & {"S", "D", "O"} and not (len(n.elts) == 1 and False):
                    tags.add("O")
                    src = v.where()
                    self.use(x, v)
                v = v.el or BOT
            else:
                v = self.ev(x, env)
            vs.append(v)
        return V(tags, joins(vs) if vs else None, kind="list" if isinstance(n, ast.List) else "pair", src=src, sites=frozenset([id(n)]) if isinstance(n, ast.List) else frozenset())

    e_Tuple = e_List

    def e_Dict(self, n, env):
        tags = set()
        src = None
        vs = []
        for k, x in zip(n.keys, n.values):
            v = self.ev(x, env)
            if k is None:
                if v.tags & {"D"}:
                    tags.add("D")
                    src = v.where()
                v = v.el or BOT
            else:
                self.ev(k, env)
            vs.append(v)
        return V(tags, joins(vs) if vs else None, kind="dict", src=src, sites=frozenset([id(n)]))

    def comp(self, n, env):
        e = dict(env)
        un = None
        for g in n.generators:
            it = self.ev(g.iter, e)
            if it.tags & {"S", "D", "O"}:
                un = it
                self.use(g.iter, it)
            self.assign2(g.target, self.draw(it), e)
            for c in g.ifs:
                self.ev(c, e)
        return e, un

    def assign2(self, t, v, env):
        keep, self.loops = self.loops, []
        try:
            self.assign(t, v, env, t)
        finally:
            self.loops = keep

    def inner(self, v, un):
        """element value of a comprehension: what was drawn from its own sources is accounted for by the container"""
        return v.with_(drop="E") if un is not None else v

    def e_ListComp(self, n, env):
        e, un = self.comp(n, env)
        v = self.ev(n.elt, e)
        dep = un is not None and "E" in v.deep()
        return V({"O"} if dep else (), self.inner(v, un), kind="list", src=un.where() if un is not None else None,
                 sites=frozenset([id(n)]) if isinstance(n, ast.ListComp) else frozenset())

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, env):
        e, un = self.comp(n, env)
        v = self.ev(n.elt, e)
        return V("S", v.with_(drop="E"), kind="set", src=self.src(n))

    def e_DictComp(self, n, env):
        e, un = self.comp(n, env)
        k = self.ev(n.key, e)
        v = self.ev(n.value, e)
        return V({"D"} if un is not None and "E" in k.deep() else (), self.inner(v, un), kind="dict", src=un.where() if un is not None else None, sites=frozenset([id(n)]))

    def e_Compare(self, n, env):
        for x in [n.left] + n.comparators:
            self.ev(x, env)
        return V(kind="bool")

    def e_BoolOp(self, n, env):
        return joins([self.ev(x, env) for x in n.values])

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        return V(kind="bool") if isinstance(n.op, ast.Not) else v

    def e_IfExp(self, n, env):
        self.ev(n.test, env)
        a, b = dict(env), dict(env)
        self.single(n.test, True, a)
        self.single(n.test, False, b)
        return join(self.ev(n.body, a), self.ev(n.orelse, b))

    def e_BinOp(self, n, env):
        a, b = self.ev(n.left, env), self.ev(n.right, env)
        if isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            if "S" in a.tags or isinstance(n.op, ast.BitXor) and "S" in b.tags:
                return V("S", join(a.el, b.el) if a.el is not None else b.el, kind="set", src=a.src or b.src or self.src(n))
            if a.kind in ("view",) and isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) or "S" in b.tags:
                return V("S", a.el, kind="set", src=self.src(n))
        if isinstance(n.op, ast.Mod) and a.kind == "str":
            vs = [b] if not isinstance(n.right, ast.Tuple) else [self.ev(x, env) for x in n.right.elts]
            return self.formatted(vs)
        if isinstance(n.op, ast.Add) and a.kind == b.kind:
            return join(a, b)
        r = flat([a, b])
        return r.with_(kind=a.kind if a.kind == b.kind else None)

    def formatted(self, vs):
        t = set()
        src = None
        for v in vs:
            if v.deep() & {"S", "O", "D"}:
                t.add("O")
                src = src or v.where()
            t |= v.deep() & {"I", "E"}
            src = src or v.where()
        return V(t, kind="str", src=src)

    def e_JoinedStr(self, n, env):
        return self.formatted([self.ev(x.value, env) for x in n.values if isinstance(x, ast.FormattedValue)])

    def e_Subscript(self, n, env):
        b = self.ev(n.value, env)
        self.ev(n.slice, env)
        if isinstance(n.slice, ast.Slice):
            return b
        el = b.el or BOT
        if "O" in b.tags:
            return el.with_(add="O", src=b.src)
        if b.tags & {"E", "I"}:
            return el.with_(add=b.tags & {"E", "I"}, src=b.src)
        k = self.ev(n.slice, env)
        if k.deep() & {"E"}:
            el = el.with_(add="E", src=k.where())
        return el

    def e_Starred(self, n, env):
        return self.ev(n.value, env)

    def e_Attribute(self, n, env):
        b = self.ev(n.value, env)
        v = BOT
        if b.cls is not None:
            f = b.cls.find(n.attr)
            if f is not None and f.prop:
                v = self.o.call(f, [b.with_(drop="SDOEI", el=None)], {})
            else:
                v = self.o.load(b.cls, n.attr)
        if n.attr == "_nodes" and v.el is None:
            v = v.with_(el=V(kind="node"))
        t = b.tags & {"E", "I", "O"}
        if b.kind == "node" and n.attr not in ("collection",):
            t = b.tags & {"E", "O"}
        return v.with_(add=t, src=b.src) if t else v.with_(drop="W")

    def e_Yield(self, n, env):
        v = self.ev(n.value, env)
        self.yielded(n, v, self.loops and "E" in v.deep())
        return BOT

    def e_YieldFrom(self, n, env):
        v = self.ev(n.value, env)
        self.yielded(n, self.draw(v), bool(v.tags & {"S", "D", "O"}))
        return BOT

    def yielded(self, n, v, drawn):
        self.yields = v if self.yields is None else join(self.yields, v)
        if drawn:
            self.ytags, self.ysrc = ("O",), v.where()
        if self.sink and (drawn or v.deep() & {"O", "I"}):
            self.o.report(self.loc(n), "%s yields %s" % (self.f.qual, "in hash order" if drawn else "a value that depends on hash order or object identity"), v)

    def e_Await(self, n, env):
        return self.ev(n.value, env)

    # ------------------------------------------------------------- calls
    def e_Call(self, n, env):
        args, star = [], []
        for a in n.args:
            v = self.ev(a, env)
            if isinstance(a, ast.Starred):
                star.append(v)
                args.append(self.draw(v) if not v.tags & {"S", "D", "O"} else V("O", v.el, src=v.where() or self.src(a)))
            else:
                args.append(v)
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, env)
            kw[k.arg or "**"] = v
        f = n.func
        if isinstance(f, ast.Name):
            return self.by_name(n, f.id, args, kw, env)
        if isinstance(f, ast.Attribute):
            return self.by_attr(n, f, args, kw, env)
        self.ev(f, env)
        return flat(args + list(kw.values()))

    def apply(self, fn, args, env):
        """value of calling a function value"""
        if isinstance(fn, ast.Name) and fn.id in ("id", "hash"):
            return V("I", src=self.src(fn))
        if isinstance(fn, ast.Lambda):
            e = dict(env)
            for a, v in zip(fn.args.args, args):
                e[a.arg] = v
            keep = self.ret
            r = self.ev(fn.body, e)
            self.ret = keep
            return r
        if isinstance(fn, ast.Name):
            v = env.get(fn.id)
            if v is not None and isinstance(v.kind, tuple) and v.kind[0] == "lam":
                return self.apply(v.kind[1], args, env)
        return flat(args)

    def key_of(self, n):
        for k in n.keywords:
            if k.arg == "key":
                return k.value
        return None

    def sort_key(self, n, v, env):
        """tags a sort key brings into the order"""
        k = self.key_of(n)
        if k is None:
            return set()
        if isinstance(k, ast.Constant):
            return set()
        r = self.apply(k, [(v.el or BOT).with_(drop="EO")], env)
        return {"O"} if "I" in r.deep() else set()

    def by_name(self, n, name, args, kw, env):
        a0 = args[0] if args else BOT
        loc = env.get(name)
        if loc is not None and isinstance(loc.kind, tuple):
            if loc.kind[0] == "lam":
                return self.apply(loc.kind[1], args, env)
            from program import Func
            key = id(loc.kind[1])
            g = self.nodes.get(key)
            if g is None:
                g = self.nodes[key] = Func(loc.kind[1].name, self.f.module, None, loc.kind[1], self.f.qual)
            r = self.o.call(g, args, kw, env0=env)
            return r
        if loc is not None and not isinstance(loc.kind, tuple) and loc is not BOT:
            return flat(args)
        e = self.f.module.names.get(name)
        if e is None or not self.project(e):
            if name in SETS:
                return V("S", (a0.el or BOT).with_(drop="EO") if args else None, kind="set", src=self.src(n))
            if name == "sorted":
                t = self.sort_key(n, a0, env)
                return V(t, (a0.el or BOT).with_(drop="EO"), kind="list", src=self.src(n) if t else None)
            if name in ("min", "max"):
                k = self.key_of(n)
                if a0.tags & {"S", "D", "O"} and k is not None and len(args) == 1:
                    self.use(n, a0)
                    return V(("O",) if isinstance(k, ast.Lambda) and not _injective(k) else (), src=a0.where())
                return V((), (a0.el.el if a0.el is not None else None))
            if name in ("id", "hash"):
                return V("I", src=self.src(n)) if name == "id" or not self.plain_hash(n) else BOT
            if name in KILL:
                return BOT
            if name == "next":
                if a0.tags & {"S", "D", "O"}:
                    self.use(n, a0)
                    return (a0.el or BOT).with_(add="O", src=a0.where() or self.src(n))
                return self.draw(a0)
            if name == "dict":
                if a0.tags & {"S", "D", "O"} or any(v.tags & {"D"} for v in kw.values()):
                    return V("D", a0.el, kind="dict", src=a0.where())
                return V((), a0.el, kind="dict")
            if name in PASS:
                return self.passed(n, name, args, env)
            if name in ("str", "repr", "format", "ascii"):
                return self.formatted(args)
            if name == "print":
                if any(v.deep() & {"S", "O", "D", "I"} for v in args):
                    self.o.report(self.loc(n), "%s prints a value that depends on hash order or identity" % self.f.qual, joins(args))
                return BOT
            if name in ("int", "float", "abs", "round", "ord", "chr"):
                return a0.with_(drop="SD")
            if name in ("super",):
                return V(cls=None)
            return self.external(args, kw)
        from program import Class, Func
        k, x = e
        if k in ("class",) and isinstance(x, Class) or isinstance(x, Class):
            return self.construct(n, x, args, kw)
        if isinstance(x, Func):
            return self.o.call(x, args, kw)
        return self.external(args, kw)

    def project(self, e):
        return isinstance(e, tuple) and len(e) >= 2 and type(e[1]).__name__ in ("Func", "Class")

    def plain_hash(self, n):
        return True

    def construct(self, n, c, args, kw):
        vs = args + list(kw.values())
        if any(v.tags & {"S", "O", "D"} for v in vs) and any(b in ("list", "collections.deque", "tuple", "str") for b in c.ext_bases()):
            v = next(v for v in vs if v.tags & {"S", "O", "D"})
            self.use(n, v)
            return V("O", v.el, cls=c, kind="list", src=v.where())
        t = set()
        src = None
        for v in vs:
            t |= v.tags & {"E", "I", "O"}
            src = src or v.where()
        return V(t, cls=c, src=src if t else None)

    def passed(self, n, name, args, env):
        """ordered result of walking the arguments"""
        data = args[1:] if name in ("map", "filter", "starmap") else args
        un = [v for v in data if v.tags & {"S", "D", "O"}]
        t = set()
        src = None
        if un:
            self.use(n, un[0])
            t.add("O")
            src = un[0].where() or self.src(n)
        t |= joins(data).tags & {"E", "I"}
        el = joins([v.el or BOT for v in data]) if data else None
        if name == "map" and n.args:
            r = self.apply(n.args[0], [(v.el or BOT).with_(add="E") if un else (v.el or BOT) for v in data], env)
            if un and "E" not in r.deep():
                t.discard("O")
            el = r.with_(drop="E")
        if name == "enumerate":
            el = V(el=el, kind="pair") if el is not None else None
        if name == "zip":
            el = V(el=el, kind="pair")
        return V(t, el, kind="list" if name in ("list", "tuple") else "seq", src=src)

    def external(self, args, kw):
        t = set()
        src = None
        for v in args + list(kw.values()):
            d = v.deep()
            t |= d & {"E", "I"}
            if d & {"S", "O", "D"}:
                t.add("O")
            src = src or v.where()
        return V(t, src=src) if t else BOT

    def dotted(self, f):
        parts = []
        while isinstance(f, ast.Attribute):
            parts.append(f.attr)
            f = f.value
        if isinstance(f, ast.Name):
            return ".".join([f.id] + parts[::-1])
        return None

    def by_attr(self, n, f, args, kw, env):
        name = f.attr
        dot = self.dotted(f)
        a0 = args[0] if args else BOT
        if dot is not None and isinstance(f.value, ast.Name) and f.value.id not in env:
            root = dot.split(".")[0]
            if dot in ENV or root in ("random", "secrets", "uuid"):
                return V("I", src=self.src(n))
            if name == "fromkeys" and root in ("dict", "OrderedDict"):
                if a0.tags & {"S", "D", "O"}:
                    self.use(n, a0)
                    return V("D", kind="dict", src=a0.where() or self.src(n))
                return V(kind="dict")
            if root in ("set", "frozenset") and name in SETMETH:
                return V("S", joins([v.el or BOT for v in args]), kind="set", src=self.src(n))
            if root == "list" and name in ("__repr__", "__str__"):
                return self.formatted(args)
            if name in PASS and root in ("itertools", "collections"):
                return self.passed(n, name, args, env)
            e = self.f.module.names.get(root)
            if e is not None and self.project(e) and type(e[1]).__name__ == "Class" and dot.count(".") == 1:
                g = e[1].find(name)
                if g is not None:
                    return self.o.call(g, args, kw)
        if dot in ("msgpack.pack", "json.dump", "pickle.dump", "marshal.dump") and len(args) > 1:
            if a0.deep() & {"O", "I", "S"} or "D" in a0.deep() or self.loops and "E" in a0.deep():
                if not (self.loops and self.per_element(n.args[1], env)):
                    self.taint(n.args[1], env, V("O", src=a0.where() if not self.loops else self.loops[-1].src))
            return BOT
        # methods
        if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and self.f.cls is not None:
            g = self.f.cls.find(name, skip=self.f.cls)
            if g is not None:
                return self.o.call(g, [env.get("self", BOT)] + args, kw)
            if name == "__init__" and a0.tags & {"S", "O", "D"}:
                self.taint(ast.Name("self", ast.Load(), lineno=n.lineno, col_offset=0), env, V("O", src=a0.where()))
            return BOT
        b = self.ev(f.value, env)
        if b.cls is not None:
            g = b.cls.find(name)
            if g is not None:
                r = self.o.call(g, ([] if g.static else [b.with_(drop="SDOEI", el=None)]) + args, kw)
                return r.with_(add=b.tags & {"E", "O"} & (r.deep() | {"E"}), src=b.src) if "E" in b.tags else r
        if name == "join":
            if a0.tags & {"S", "D", "O"}:
                self.use(n, a0)
                return V("O", kind="str", src=a0.where() or self.src(n))
            return V(a0.deep() & {"E", "I", "O"}, kind="str", src=a0.where())
        if name == "format":
            return self.formatted(args + list(kw.values()))
        if "S" in b.tags:
            if name in SETMETH:
                return V("S", joins([b.el or BOT] + [v.el or BOT for v in args]).with_(drop="E"), kind="set", src=b.src or self.src(n))
            if name == "copy":
                return b
            if name == "pop":
                self.use(n, b)
                return (b.el or BOT).with_(add="O", src=b.where())
            if name in ("add", "discard", "remove", "update"):
                if name == "add" and isinstance(f.value, ast.Name):
                    env[f.value.id] = b.with_(el=join(b.el, a0.with_(drop="E")) if b.el is not None else a0.with_(drop="E"))
                return BOT
            return BOT
        if b.kind in ("view",) and name in SETMETH:
            return V("S", b.el, kind="set", src=self.src(n))
        if name in SETMETH:
            return V("S", None, kind="set", src=self.src(n))
        if name in ("keys", "values", "items") and not args:
            el = b.el or BOT
            if name == "keys":
                el = BOT
            if name == "items":
                el = V(el=b.el, kind="item")
            return V(b.tags & {"D", "O", "E", "I"}, el, kind="view", src=b.src)
        if name in ("get", "setdefault", "pop", "popleft", "popitem"):
            r = b.el or BOT
            if name in ("pop", "popleft") and "O" in b.tags:
                r = r.with_(add="O", src=b.where())
            if name == "setdefault" and len(args) > 1 and args[1].deep() & {"S", "D", "O"}:
                self.taint(f.value, env, V(el=args[1].with_(drop="EW")))
            if name == "popitem" and b.tags & {"D"}:
                return r.with_(add="O", src=b.src)
            if name == "setdefault" and self.loops and "E" in a0.deep() and not self.per_element(f.value, env):
                self.taint(f.value, env, V("D", src=self.loops[-1].src))
                return r.with_(add="E")
            if "E" in a0.deep():
                r = r.with_(add="E", src=a0.where())
            return join(r, args[1]) if len(args) > 1 else r
        if name == "sort":
            t = self.sort_key(n, b, env)
            if isinstance(f.value, ast.Name):
                for x in b.sites:
                    SITES.pop(x, None)
                b = V(b.tags - {"O"}, b.el, b.cls, b.kind, b.src, b.sites)
                env[f.value.id] = b.with_(drop="O", add=t, src=self.src(n)) if t else V(b.tags - {"O"}, b.el, b.cls, b.kind)
            return BOT
        if name in MUTORD:
            v = args[-1] if args else BOT
            ESCAPED.update(v.reach())
            if name in ("write", "writelines"):
                if v.deep() & {"O", "I"} or self.loops and "E" in v.deep() and not self.per_element(f.value, env):
                    self.taint(f.value, env, V("O", src=v.where()))
                    if isinstance(f.value, ast.Name) and f.value.id in env:
                        return BOT
                    self.o.report(self.loc(n), "%s writes a value that depends on hash order or identity" % self.f.qual, v)
                return BOT
            if name in ("extend", "extendleft"):
                if v.tags & {"S", "D", "O"}:
                    self.use(n, v)
                    if not (self.loops and self.per_element(f.value, env)):
                        self.taint(f.value, env, V("O", v.el, src=v.where()))
                    return BOT
                if v.kind == "list" and "E" not in v.tags and v.el is not None and "E" in v.el.deep():
                    pass
            if "E" in v.deep() and self.loops:
                if not self.per_element(f.value, env):
                    self.taint(f.value, env, V("O", V(v.tags - {"E"}, v.el), src=self.loops[-1].src))
                return BOT
            if v.deep() & {"O", "S", "D", "I"} or v.reach():
                self.taint(f.value, env, V(el=v))
            return BOT
        if name == "update":
            if a0.tags & {"S", "D", "O"} and "S" not in b.tags:
                self.taint(f.value, env, V("D", a0.el, src=a0.where()))
            return BOT
        if name in ("copy", "__iter__", "strip", "lower", "upper", "encode", "decode", "split"):
            return b
        if name in ("index", "count", "startswith", "endswith", "isdigit"):
            return V(b.tags & {"E"}) if name in ("index",) else BOT
        fs = self.o.byname.get(name, [])
        if len(fs) == 1 and b.cls is None and not name.startswith("__"):
            g = fs[0]
            if any(v.deep() for v in args):
                r = self.o.call(g, ([] if g.static else [V(cls=g.cls)]) + args, kw)
                return r.with_(add=b.tags & {"E"}, src=b.src)
            return V(b.tags & {"E", "O", "I"}, src=b.src)
        r = self.external(args, kw)
        return r.with_(add=b.tags & {"E", "O", "I"}, src=b.src) if b.tags & {"E", "O", "I"} else r


def flat(vs):
    """operators and unknown functions: the value depends on all operands"""
    t = set()
    src = None
    for v in vs:
        t |= v.deep() & {"E", "O", "I"}
        src = src or v.where()
    return V(t, src=src) if t else BOT


def _load(t):
    return t


def _mentions(x, name):
    return any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x))


def _orders(x):
    return any(isinstance(y, ast.Compare) and any(isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.Is, ast.Eq)) for o in y.ops) for y in ast.walk(x))


def _injective(k):
    """lambda x: x, or a tuple that contains x itself"""
    p = k.args.args[0].arg if k.args.args else None
    b = k.body
    return isinstance(b, ast.Name) and b.id == p or isinstance(b, ast.Tuple) and any(isinstance(x, ast.Name) and x.id == p for x in b.elts)
