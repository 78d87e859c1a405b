"""Path-sensitive dataflow over value-provenance terms.

The engine walks the AST of a function, forking at branches, inlining callees that resolve inside the package, and
summarising every loop by one generic iteration.  It never executes the code: values are terms naming where a value
comes from, branch conditions are collected as literals; a branch is pruned only when its literals contradict each
other syntactically (no solver).
"""
import ast
import builtins
import sys

from terms import *
from program import Program, Func, Class, Module, AnalysisBroken, dotted
from names import Limit, PURE_METHODS, LIST_MUT
from evalx import NEXT, Expr, Ctx, _as_load, mentions_loop

sys.setrecursionlimit(20000)




class PyClosure:
    """Code of a lambda / nested function plus the static context it was created in."""
    def __init__(self, node, module, cls, qual, defaults, is_gen):
        self.node, self.module, self.cls, self.qual, self.defaults, self.is_gen = node, module, cls, qual, defaults, is_gen


class Event:
    __slots__ = ("kind", "a", "loc", "stack", "ver")

    def __init__(self, kind, a, loc, stack):
        self.ver = None         # version of the container after the event
        self.kind, self.a, self.loc, self.stack = kind, a, loc, stack

    def __repr__(self):
        return "%s%s @%s" % (self.kind, show(tuple(x for x in self.a if isinstance(x, (T, str, int, tuple)))), self.loc)


class LoopInfo:
    def __init__(self, L, dom, kind):
        self.L, self.dom, self.kind = L, dom, kind
        self.paths = []      # list of LoopPath
        self.updates = {}
        self.vers = {}       # ("[]", container) -> its version after the loop


class LoopPath:
    def __init__(self, guards, events, outcome, env):
        self.guards, self.events, self.outcome, self.env = guards, events, outcome, env


BREAK, CONT = ("break",), ("continue",)


class State:
    __slots__ = ("frames", "heap", "objs", "facts", "guards", "events", "epoch", "lens", "ncall", "subst", "fcow", "yields")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.objs = {}
        self.facts = {}
        self.guards = []
        self.events = []
        self.epoch = {}
        self.lens = {}
        self.ncall = 0
        self.yields = None

    def fork(self):
        s = State.__new__(State)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.objs = dict(self.objs)
        s.facts = dict(self.facts)
        s.guards = list(self.guards)
        s.events = list(self.events)
        s.epoch = dict(self.epoch)
        s.lens = dict(self.lens)
        s.ncall = self.ncall
        s.yields = self.yields
        return s


class Path:
    def __init__(self, st, outcome):
        self.st = st
        self.outcome = outcome
        self.events = st.events
        self.guards = st.guards

    @property
    def returns(self):
        return self.outcome[0] == "ret"

    @property
    def raises(self):
        return self.outcome[0] == "raise"

    @property
    def value(self):
        return self.outcome[1]


BUILTIN_CONTAINER = {"list": "list", "dict": "dict", "set": "set", "deque": "list", "frozenset": "set",
                     "OrderedDict": "dict", "defaultdict": "dict"}

# static types of attributes the annotations do not spell out
ATTR_HINTS = {
    ("Node", "collection"): "NodeLayerCollection", ("TextSpan", "text"): "Text", ("Text", "spantype"): "DataTypeTextspan",
    ("NodeSpan", "left"): "Node", ("NodeSpan", "right"): "Node",
    ("NodeLayerCollection", "_schema"): "NodeLayerSchema", ("NodeLayerCollection", "_nodes"): "List[Node]",
    ("NodeLayerSchema", "fields"): "Dict[str, DataType]", ("NodeCollection", "fieldtypes"): "Dict[str, DataType]",
    ("Document", "_layers"): "Dict[str, NodeLayerCollection]", ("Document", "_texts"): "Dict[str, Text]",
    ("MsgpackDocumentReader", "block"): "MsgpackDocumentBlock",
    ("NodeFieldCollection", "collection"): "NodeCollection",
}


class Engine(Expr):
    def __init__(self, prog=None, **opts):
        self.prog = prog or Program()
        self.codes = []
        self.classes_memo = {}
        self.opts = dict(max_paths=3000, max_depth=14, exc=None, attr_hook=None, call_hook=None, inline_iter=False,
                         quiet_asserts=None, no_inline=(), inline_unique=True, item_hook=None)
        self.opts.update(opts)
        self.depth = 0
        self.tries = []
        self.ddicts = set()
        self.stack = []
        self.fid = 0
        self.steps = 0
        self.inlined = set()
        self.opaque = []
        self.globals_memo = {}
        self._glob_busy = set()
        self.const_state = State()
        self.type_memo = {}
        self._tp_memo = {}
        self._mutglob = {}
        self.func_by_key = {}
        self.loopdom = {}
        self.hints = dict(ATTR_HINTS)
        self.prog_isinst_terms = [mk("class", c) for c in self.prog.classes] + [mk("builtin", n) for n in ("str", "bytes", "list", "dict", "tuple", "int", "float", "bool", "slice")]
        self.npaths = 0
        self.exact = set()
        self._virt_memo = {}

    # ------------------------------------------------------------------ entry points
    def run(self, func, args=None, kwargs=None, self_cls=None, st=None, keep_generator=True):
        """All paths of `func`.  args: mapping parameter name -> term (others become symbols)."""
        st = st or State()
        node = func.node
        params = self._params(node)
        bind = {}
        args = dict(args or {})
        for i, (n, kind, default) in enumerate(params):
            if n in args:
                bind[n] = args[n]
            elif i == 0 and func.cls is not None and not func.static and kind == "pos":
                bind[n] = sym(n, (self_cls or func.cls).name)
                self.exact.add(bind[n])
            else:
                bind[n] = sym(("*" if kind == "var" else "**" if kind == "kw" else "") + n, self._ann_of(func, n, kind))
        outs = self._exec_func(func.node, func.module, func.cls, func.qual, bind, None, st, entry=True)
        return [Path(s, o) for s, o in outs]

    def _ann_of(self, func, n, kind):
        a = func.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            if x.arg == n and x.annotation is not None:
                s = self._ann_str(x.annotation)
                if kind == "var":
                    return "List[%s]" % s
                return s
        if kind == "var":
            return "Tuple"
        if kind == "kw":
            return "Dict"
        return None

    def _ann_str(self, a):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            return a.value
        try:
            return ast.unparse(a).replace("'", "").replace('"', "")
        except Exception:
            return None

    def _params(self, node):
        a = node.args
        out = []
        pos = a.posonlyargs + a.args
        nd = len(pos) - len(a.defaults)
        for i, x in enumerate(pos):
            out.append((x.arg, "pos", a.defaults[i - nd] if i >= nd else None))
        if a.vararg:
            out.append((a.vararg.arg, "var", None))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            out.append((x.arg, "kwonly", d))
        if a.kwarg:
            out.append((a.kwarg.arg, "kw", None))
        return out

    # ------------------------------------------------------------------ functions
    def _exec_func(self, node, module, cls, qual, bind, parent, st, entry=False, is_gen=None):
        self.fid += 1
        fid = self.fid
        st.frames[fid] = dict(bind)
        st.frames[fid]["%parent"] = parent
        ctx = Ctx(module, cls, qual, fid, node)
        self.stack.append(qual)
        self.depth += 1
        if is_gen is None:
            is_gen = getattr(node, "_isgen", None)
            if is_gen is None:
                from program import _has_yield
                is_gen = _has_yield(node)
                node._isgen = is_gen
        saved = st.yields
        if is_gen and not entry:
            oid = self._newobj(st, "gen", ())
            st.yields = oid
        else:
            st.yields = None
        try:
            if isinstance(node, ast.Lambda):
                outs = [(s, ("ret", v)) if v is not None else (s, o) for s, v, o in self._ev3(node.body, st, ctx)]
            else:
                outs = self.block(node.body, st, ctx)
        finally:
            self.depth -= 1
            self.stack.pop()
        res = []
        for s, o in outs:
            if o is NEXT:
                o = ("ret", NONE) if not entry else ("ret", NONE)
            if is_gen and not entry and o[0] == "ret":
                o = ("ret", oid)
            s.yields = saved
            res.append((s, o))
        return res

    def _ev3(self, e, st, ctx):
        out = []
        for s, v in self.ev(e, st, ctx):
            if isinstance(v, tuple):
                out.append((s, None, v))
            else:
                out.append((s, v, None))
        return out

    def _newobj(self, st, kind, content, cls=None, factory=None):
        oid = mk("obj", fresh_id(), kind, cls)
        st.objs[oid] = content
        if self.opts.get("containers") and kind != "inst":
            st.events.append(Event("newc", (oid, content) if factory is None else (oid, content, factory), "", ()))
        return oid

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, ctx):
        live = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in live:
                for y, o in self.stmt(s, x, ctx):
                    if o is NEXT:
                        nxt.append(y)
                    else:
                        done.append((y, o))
            live = nxt
            if len(live) + len(done) > self.opts["max_paths"]:
                raise Limit("more than %d paths in %s" % (self.opts["max_paths"], ctx.qual))
            if not live:
                break
        return done + [(x, NEXT) for x in live]

    def emit(self, st, ctx, node, kind, *a):
        st.events.append(Event(kind, a, "%s:%d" % (ctx.module.rel, getattr(node, "lineno", 0)), tuple(self.stack)))

    def stmt(self, s, st, ctx):
        self.steps += 1
        if self.steps > 400000:
            raise Limit("step limit")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.opaque.append("statement %s at %s:%d" % (type(s).__name__, ctx.module.rel, s.lineno))
            return [(st, NEXT)]
        return m(s, st, ctx)

    def s_Expr(self, s, st, ctx):
        if isinstance(s.value, ast.Constant):
            return [(st, NEXT)]
        return [(x, NEXT if not isinstance(v, tuple) else v) for x, v in self.ev(s.value, st, ctx)]

    def s_Pass(self, s, st, ctx):
        return [(st, NEXT)]

    def s_Global(self, s, st, ctx):
        return [(st, NEXT)]

    def s_Nonlocal(self, s, st, ctx):
        st.frames[ctx.fid].setdefault("%nonlocal", ())
        st.frames[ctx.fid]["%nonlocal"] = tuple(st.frames[ctx.fid]["%nonlocal"]) + tuple(s.names)
        return [(st, NEXT)]

    def s_Import(self, s, st, ctx):
        names = {}
        self.prog._imports(ctx.module, s, names)
        for k, v in names.items():
            st.frames[ctx.fid][k] = self._from_entry(v)
        return [(st, NEXT)]

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, st, ctx):
        v = self._closure(s, st, ctx, s.name)
        st.frames[ctx.fid][s.name] = v
        return [(st, NEXT)]

    def s_ClassDef(self, s, st, ctx):
        st.frames[ctx.fid][s.name] = mk("ext", s.name)
        return [(st, NEXT)]

    def _closure(self, node, st, ctx, name):
        code = getattr(node, "_psi_code", None)
        if code is None:
            from program import _has_yield
            code = len(self.codes)
            self.codes.append(PyClosure(node, ctx.module, ctx.cls, ctx.qual + ".<%s>" % name, None, _has_yield(node)))
            node._psi_code = code
            node._psi_owner = self
        elif getattr(node, "_psi_owner", None) is not self:
            from program import _has_yield
            code = len(self.codes)
            self.codes.append(PyClosure(node, ctx.module, ctx.cls, ctx.qual + ".<%s>" % name, None, _has_yield(node)))
            node._psi_code = code
            node._psi_owner = self
        return mk("clo", code, ctx.fid, ())

    def s_Return(self, s, st, ctx):
        if s.value is None:
            return [(st, ("ret", NONE))]
        return [(x, ("ret", v) if not isinstance(v, tuple) else v) for x, v in self.ev(s.value, st, ctx)]

    def s_Break(self, s, st, ctx):
        return [(st, BREAK)]

    def s_Continue(self, s, st, ctx):
        return [(st, CONT)]

    def s_Raise(self, s, st, ctx):
        if s.exc is None:
            cur = st.frames[ctx.fid].get("%exc")
            return [(st, ("raise", cur if cur is not None else const("reraise")))]
        e = s.exc
        outs = []
        if isinstance(e, ast.Call):
            for x, f in self.ev(e.func, st, ctx):
                if isinstance(f, tuple):
                    outs.append((x, f))
                    continue
                if f.op == "func" or f.op == "clo" or f.op == "bound":   # helper building the exception
                    for y, v in self.ev(e, x, ctx):
                        outs.append((y, v if isinstance(v, tuple) else ("raise", self._exc_class(v))))
                else:
                    self.emit(x, ctx, s, "raise", self._exc_class(f))
                    outs.append((x, ("raise", self._exc_class(f))))
            return outs
        for x, f in self.ev(e, st, ctx):
            outs.append((x, f if isinstance(f, tuple) else ("raise", self._exc_class(f))))
        return outs

    def _exc_class(self, v):
        if v.op in ("class", "ext", "builtin"):
            return v
        if v.op == "obj" and v.a[2]:
            return mk("class", v.a[2])
        if v.op == "call" and v.a[0].op in ("class", "ext", "builtin"):
            return v.a[0]
        return mk("anyexc", v)

    def s_Assert(self, s, st, ctx):
        outs = []
        quiet = self._quiet(ctx)
        for x, v in self.cond(s.test, st, ctx):
            if isinstance(v, tuple):
                outs.append((x, v))
            elif v:
                outs.append((x, NEXT))
            elif not quiet:
                self.emit(x, ctx, s, "raise", mk("builtin", "AssertionError"))
                outs.append((x, ("raise", mk("builtin", "AssertionError"))))
        return outs

    def _quiet(self, ctx):
        q = self.opts["quiet_asserts"]
        if q is not None:
            return q(ctx.qual, len(self.stack))
        if len(self.stack) <= 1:
            return False
        f = ctx.node
        return ctx.qual in ("Node.i", "TextSpan.__init__", "NodeSpan.__init__", "NodeSpan.__iter__", "Text.offset")

    def s_If(self, s, st, ctx):
        outs = []
        for x, v in self.cond(s.test, st, ctx):
            if isinstance(v, tuple):
                outs.append((x, v))
            else:
                outs.extend(self.block(s.body if v else s.orelse, x, ctx))
        return outs

    def s_Assign(self, s, st, ctx):
        outs = []
        for x, v in self.ev(s.value, st, ctx):
            if isinstance(v, tuple):
                outs.append((x, v))
                continue
            cur = [(x, NEXT)]
            for t in s.targets:
                nx = []
                for y, o in cur:
                    nx.extend(self.assign(t, v, y, ctx, s) if o is NEXT else [(y, o)])
                cur = nx
            outs.extend(cur)
        return outs

    def s_AnnAssign(self, s, st, ctx):
        if s.value is None:
            return [(st, NEXT)]
        outs = []
        for x, v in self.ev(s.value, st, ctx):
            if isinstance(v, tuple):
                outs.append((x, v))
            else:
                outs.extend(self.assign(s.target, v, x, ctx, s))
        return outs

    def inplace(self, op, b, st):
        """the method an augmented assignment to a container stands for; containers known by identity only"""
        if self.opts.get("store") and isinstance(op, ast.Add) and b.op == "call" and b.a[0] == mk("builtin", "bytearray"):
            return "extend"
        if not self.opts.get("store") or b.op == "obj":
            return None
        c = self.type_of(b, st)
        if c == "list" and isinstance(op, ast.Add):
            return "extend"
        if c == "set":
            return {"BitOr": "update", "BitAnd": "intersection_update", "Sub": "difference_update"}.get(type(op).__name__)
        return None

    def s_AugAssign(self, s, st, ctx):
        load = _as_load(s.target)
        outs = []
        for x, cur in self.ev(load, st, ctx):
            if isinstance(cur, tuple):
                outs.append((x, cur))
                continue
            for y, v in self.ev(s.value, x, ctx):
                if isinstance(v, tuple):
                    outs.append((y, v))
                    continue
                if isinstance(s.op, ast.Add) and cur.op == "obj" and cur.a[1] in ("list",):
                    y.objs[cur] = (y.objs.get(cur) or ()) + self.segs(v, y)
                    self.emit(y, ctx, s, "mut", cur, "extend", (v,), None)
                    outs.append((y, NEXT))
                    continue
                nm = self.inplace(s.op, cur, y)
                if nm:
                    self.emit(y, ctx, s, "mut", cur, nm, (v,), NONE, ())
                    y.epoch[("[]", cur)] = y.events[-1].ver = fresh_id()
                    outs.append((y, NEXT))
                    continue
                if isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub)) and cur.op == "obj" and cur.a[1] == "set":
                    self.emit(y, ctx, s, "mut", cur, {"BitOr": "update", "BitAnd": "intersection_update", "Sub": "difference_update"}[type(s.op).__name__], (v,), None)
                    nm = {"BitOr": "update", "BitAnd": "intersection_update", "Sub": "difference_update"}[type(s.op).__name__]
                    self._container_method(cur, nm, [v], {}, y, ctx, s)
                    outs.append((y, NEXT))
                    continue
                r = self.binop(type(s.op).__name__, cur, v)
                outs.extend(self.assign(s.target, r, y, ctx, s))
        return outs

    def assign(self, t, v, st, ctx, node):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, st, ctx)
            return [(st, NEXT)]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, ctx, node)
        if isinstance(t, (ast.Tuple, ast.List)):
            parts = self.unpack(v, len(t.elts), st, [isinstance(e, ast.Starred) for e in t.elts])
            cur = [(st, NEXT)]
            for e, p in zip(t.elts, parts):
                nx = []
                for y, o in cur:
                    nx.extend(self.assign(e, p, y, ctx, node) if o is NEXT else [(y, o)])
                cur = nx
            return cur
        if isinstance(t, ast.Attribute):
            outs = []
            for x, b in self.ev(t.value, st, ctx):
                if isinstance(b, tuple):
                    outs.append((x, b))
                else:
                    outs.extend(self.setattr(b, t.attr, v, x, ctx, node))
            return outs
        if isinstance(t, ast.Subscript):
            outs = []
            for x, b in self.ev(t.value, st, ctx):
                if isinstance(b, tuple):
                    outs.append((x, b))
                    continue
                for y, k in self.ev(t.slice, x, ctx):
                    if isinstance(k, tuple):
                        outs.append((y, k))
                    else:
                        outs.extend(self.setitem(b, k, v, y, ctx, node))
            return outs
        return [(st, NEXT)]

    def unpack(self, v, n, st, starred):
        if v.op == "tuple" and not any(starred) and len(v.a[0]) == n:
            return list(v.a[0])
        if v.op in ("obj", "list") or v.op == "gen":
            ss = self.segs(v, st)
            if ss is not None and all(x.op == "one" for x in ss) and len(ss) == n and not any(starred):
                return [x.a[0] for x in ss]
        out = []
        for i in range(n):
            if starred[i]:
                out.append(mk("restof", v, i, n))
            else:
                out.append(self.getitem_term(v, const(i if not any(starred[:i]) else i - n), st))
        return out

    def setname(self, name, v, st, ctx):
        fr = st.frames[ctx.fid]
        if name in fr.get("%nonlocal", ()):
            p = fr.get("%parent")
            while p is not None:
                if name in st.frames.get(p, {}):
                    st.frames[p][name] = v
                    return
                p = st.frames[p].get("%parent") if p in st.frames else None
        fr[name] = v

    def setattr(self, b, name, v, st, ctx, node):
        c = self.type_of(b, st)
        if isinstance(c, Class):
            f = c.find_setter(name)
            if f is not None and f.qual not in self.opts["no_inline"]:
                ps = self._params(f.node)
                self.inlined.add(f)
                outs = self._exec_func(f.node, f.module, f.cls, f.qual, {ps[0][0]: b, ps[1][0]: v}, None, st)
                return [(s, NEXT if o[0] == "ret" else o) for s, o in outs]
        self.emit(st, ctx, node, "setattr", b, name, v)
        self._store(st, b, name, v)
        return [(st, NEXT)]

    def _store(self, st, b, name, v):
        if b.op != "obj":
            # another term may denote the same object
            st.epoch[name] = fresh_id()
            for k in [k for k in st.heap if k[1] == name and k[0] is not b and k[0].op != "obj"]:
                del st.heap[k]
        st.heap[(b, name)] = v

    def setitem(self, b, k, v, st, ctx, node):
        self.emit(st, ctx, node, "setitem", b, k, v)
        if b.op == "obj" and b.a[1] == "dict" or (b.op == "obj" and b.a[1] == "inst" and st.objs.get(b) is not None):
            c = st.objs.get(b)
            if c is not None:
                nc = [x for x in c if not (x.op == "one" and x.a[0] is k)]
                st.objs[b] = tuple(nc) + (mk("one", k, v),)
                if b.a[1] == "inst" and self.opts.get("containers"):
                    st.epoch[("[]", b)] = st.events[-1].ver = fresh_id()
                return [(st, NEXT)]
        if b.op == "obj":
            st.objs[b] = None
        st.epoch[("[]", b)] = st.events[-1].ver = fresh_id()
        for key in [x for x in st.heap if x[0] is b and isinstance(x[1], tuple)]:
            if not (is_const(key[1][1]) and is_const(k)):
                del st.heap[key]
        st.heap[(b, ("[]", k))] = v
        return [(st, NEXT)]

    def s_Delete(self, s, st, ctx):
        cur = [(st, NEXT)]
        for t in s.targets:
            nx = []
            for x, o in cur:
                if o is not NEXT:
                    nx.append((x, o))
                    continue
                if isinstance(t, ast.Subscript):
                    for y, b in self.ev(t.value, x, ctx):
                        if isinstance(b, tuple):
                            nx.append((y, b))
                            continue
                        for z, k in self.ev(t.slice, y, ctx):
                            if isinstance(k, tuple):
                                nx.append((z, k))
                                continue
                            c = self.type_of(b, z)
                            if isinstance(c, Class) and c.find("__delitem__"):
                                f = c.find("__delitem__")
                                for w, r in self.call_func(f, [b, k], {}, z, ctx, t):
                                    nx.append((w, r if isinstance(r, tuple) else NEXT))
                                continue
                            if not (b.op == "obj" and b.a[1] == "dict" and z.objs.get(b) is not None) and self.expects("KeyError"):
                                oks = self.unless(mk("in", k, self._dom(b, z)), "KeyError", z, ctx, s)
                                nx.extend((w, r) for w, r in oks if r is not None)
                                oks = [w for w, r in oks if r is None]
                                if not oks:
                                    continue
                                z = oks[0]
                            self.emit(z, ctx, s, "delitem", b, k)
                            if b.op == "obj":
                                cc = z.objs.get(b)
                                if cc is not None and all(q.op == "one" for q in cc) and b.a[1] == "dict" and any(q.a[0] is k for q in cc):
                                    z.objs[b] = tuple(q for q in cc if q.a[0] is not k)
                                else:
                                    z.objs[b] = None
                            z.epoch[("[]", b)] = z.events[-1].ver = fresh_id()
                            z.lens.pop(b, None)
                            for key in [q for q in z.heap if q[0] is b and isinstance(q[1], tuple)]:
                                del z.heap[key]
                            nx.append((z, NEXT))
                elif isinstance(t, ast.Attribute):
                    for y, b in self.ev(t.value, x, ctx):
                        if not isinstance(b, tuple):
                            self.emit(y, ctx, s, "delattr", b, t.attr)
                            y.heap.pop((b, t.attr), None)
                            y.epoch[t.attr] = fresh_id()
                            nx.append((y, NEXT))
                        else:
                            nx.append((y, b))
                else:
                    nx.append((x, NEXT))
            cur = nx
        return cur

    # ---- exceptions
    def exc_matches(self, exc, handler_types):
        """True / False / None (unknown)."""
        if handler_types is None:
            return True
        res = False
        for h in handler_types:
            r = self._exc_sub(exc, h)
            if r is True:
                return True
            if r is None:
                res = None
        return res

    def _exc_sub(self, exc, h):
        hn = h.a[0] if h.op in ("builtin", "ext", "class") else None
        if hn == "BaseException":
            return True
        if exc.op == "anyexc" or exc.op not in ("builtin", "ext", "class"):
            if exc.op == "genexit":
                return False
            return True if hn == "Exception" else None
        en = exc.a[0]
        if exc.op == "class":
            c = self.prog.classes.get(en)
            names = [x.name if isinstance(x, Class) else x for x in c.mro()] if c else [en]
            chain = set(names)
            for x in names:
                b = getattr(builtins, x, None)
                if isinstance(b, type):
                    chain |= {y.__name__ for y in b.__mro__}
            return hn in chain
        b = getattr(builtins, en, None)
        if isinstance(b, type):
            hb = getattr(builtins, hn or "", None)
            if isinstance(hb, type):
                return issubclass(b, hb)
            return False
        return True if hn == "Exception" else (en == hn or None)

    # failures of container operations, made explicit where a handler names them
    PARENTS = {"KeyError": ("KeyError", "LookupError"), "IndexError": ("IndexError", "LookupError"), "ValueError": ("ValueError",),
               "StopIteration": ("StopIteration",)}

    def expects(self, exc):
        return any(n in self.PARENTS[exc] for names in self.tries for n in names)

    def unless(self, ok, exc, st, ctx, node):
        """[(state, None or a raise)]: the operation succeeds where ok holds, elsewhere it raises exc"""
        outs = []
        for x, b in self.branch(ok, st):
            if b:
                outs.append((x, None))
            else:
                self.emit(x, ctx, node, "raise", mk("builtin", exc))
                outs.append((x, ("raise", mk("builtin", exc))))
        return outs

    def _handler_names(self, h):
        ts = [] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return {t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else "*" for t in ts} or {"*"}

    def _try_body(self, s, st, ctx):
        names = set().union(*[self._handler_names(h) for h in s.handlers]) if s.handlers else set()
        stops = {n for h in s.handlers for n in self._handler_names(h) if not (h.body and isinstance(h.body[-1], ast.Raise) and not any(
            isinstance(z, (ast.Return, ast.Break, ast.Continue)) for b in h.body for z in ast.walk(b)))}
        if not names:
            return self.block(s.body, st, ctx)
        self.tries.append(names)
        self.emit(st, ctx, s, "try", tuple(sorted(names)), tuple(sorted(stops)))
        try:
            outs = self.block(s.body, st, ctx)
        finally:
            self.tries.pop()
        for x, o in outs:
            self.emit(x, ctx, s, "endtry")
        return outs

    def s_Try(self, s, st, ctx):
        outs = self._try_body(s, st, ctx)
        res = []
        for x, o in outs:
            if o is NEXT and s.orelse:
                res.extend(self.block(s.orelse, x, ctx))
            elif o[0] == "raise":
                handled = False
                for h in s.handlers:
                    types = None
                    if h.type is not None:
                        (x, tv), = self.ev(h.type, x, ctx)[:1]
                        types = list(tv.a[0]) if tv.op == "tuple" else [tv]
                    m = self.exc_matches(o[1], types)
                    if m is False:
                        continue
                    y = x.fork() if m is None else x
                    if h.name:
                        y.frames[ctx.fid][h.name] = mk("excval", o[1])
                    old = y.frames[ctx.fid].get("%exc")
                    y.frames[ctx.fid]["%exc"] = o[1]
                    self.emit(y, ctx, h, "caught", o[1], None if types is None else tuple(types))
                    for z, oo in self.block(h.body, y, ctx):
                        z.frames[ctx.fid]["%exc"] = old
                        res.append((z, oo))
                    if m is True:
                        handled = True
                        break
                    self.emit(x, ctx, h, "uncaught", o[1], None if types is None else tuple(types))
                if not handled:
                    res.append((x, o))
            else:
                res.append((x, o))
        if s.finalbody:
            fin = []
            for x, o in res:
                for y, oo in self.block(s.finalbody, x, ctx):
                    fin.append((y, o if oo is NEXT else oo))
            res = fin
        return res

    s_TryStar = s_Try

    def s_With(self, s, st, ctx):
        return self._with(s.items, s.body, st, ctx, s)

    def _with(self, items, body, st, ctx, s):
        if not items:
            return self.block(body, st, ctx)
        it = items[0]
        e = it.context_expr
        if isinstance(e, ast.Call) and (isinstance(e.func, ast.Name) and e.func.id == "suppress" or isinstance(e.func, ast.Attribute) and e.func.attr == "suppress"):
            if not hasattr(it, "_psi_try"):
                body = [ast.With(items=items[1:], body=body)] if items[1:] else body
                t = ast.Try(body=body, handlers=[ast.ExceptHandler(type=ast.Tuple(elts=list(e.args), ctx=ast.Load()), name=None, body=[ast.Pass()])], orelse=[], finalbody=[])
                it._psi_try = ast.fix_missing_locations(ast.copy_location(t, s))
            return self.s_Try(it._psi_try, st, ctx)
        outs = []
        for x, v in self.ev(it.context_expr, st, ctx):
            if isinstance(v, tuple):
                outs.append((x, v))
                continue
            if v.op == "call" and v.a[0].op == "ext" and v.a[0].a[0].split(".")[-1] in ("closing", "aclosing") and len(v.a[1]) == 1:
                outs.extend(self._closing(v.a[1][0], it, items, body, x, ctx, s))
                continue
            c = self.type_of(v, x)
            ents = None
            if isinstance(c, Class) and c.find("__enter__"):
                ents = self.call_func(c.find("__enter__"), [v], {}, x, ctx, s)
            else:
                self.emit(x, ctx, s, "enter", v)
                ents = [(x, mk("entered", v) if not self._enter_is_self(v) else v)]
            for y, r in ents:
                if isinstance(r, tuple):
                    outs.append((y, r))
                    continue
                cur = [(y, NEXT)]
                if it.optional_vars is not None:
                    cur = self.assign(it.optional_vars, r, y, ctx, s)
                for z, o in cur:
                    inner = self._with(items[1:], body, z, ctx, s) if o is NEXT else [(z, o)]
                    for w, oo in inner:
                        if isinstance(c, Class) and c.find("__exit__"):
                            ev = [NONE] * 3 if oo[0] != "raise" else [mk("excval", oo[1])] * 3
                            for q, rr in self.call_func(c.find("__exit__"), [v] + ev, {}, w, ctx, s):
                                outs.append((q, rr if isinstance(rr, tuple) else oo))
                        else:
                            self.emit(w, ctx, s, "exit", v)
                            outs.append((w, oo))
        return outs

    def _closing(self, v, it, items, body, st, ctx, s):
        """with closing(v): v itself inside, v.close() on the way out"""
        outs = []
        cur = [(st, NEXT)]
        if it.optional_vars is not None:
            cur = self.assign(it.optional_vars, v, st, ctx, s)
        for z, o in cur:
            for w, oo in (self._with(items[1:], body, z, ctx, s) if o is NEXT else [(z, o)]):
                c = self.type_of(v, w)
                if isinstance(c, Class) and c.find("close"):
                    rs = self.call_func(c.find("close"), [v], {}, w, ctx, s)
                else:
                    rs = [(q, r) for q, f in self.getattr(v, "close", w, ctx, s) for q, r in self.call(f, [], {}, q, ctx, s)]
                for q, r in rs:
                    outs.append((q, r if isinstance(r, tuple) else oo))
        return outs

    def _enter_is_self(self, v):
        return v.op == "call" and v.a[0].op in ("builtin", "ext", "class") and v.a[0].a[0] in ("open", "tarfile.open", "io.BytesIO")

    # ---- loops
    def s_For(self, s, st, ctx):
        outs = []
        for x, it in self.ev(s.iter, st, ctx):
            if isinstance(it, tuple):
                outs.append((x, it))
                continue
            for y, segs in self.iter_segs(it, x, ctx, s):
                if isinstance(segs, T) is False and segs and segs[0] == "raise":
                    outs.append((y, segs))
                    continue

                def body(stt, val):
                    res = []
                    for a, o in self.assign(s.target, val, stt, ctx, s):
                        if o is not NEXT:
                            res.append((a, o))
                        else:
                            res.extend(self.block(s.body, a, ctx))
                    return res
                outs.extend(self.loop_segs(segs, body, y, ctx, s, s.orelse))
        return outs

    def loop_segs(self, segs, body, st, ctx, node, orelse, raw=False):
        live = [st]
        outs = []
        broke = []
        for g in segs:
            nxt = []
            for x in live:
                if g.op == "one":
                    val = g.a[0] if len(g.a) == 1 else mk("tuple", (g.a[0], g.a[1]))
                    for y, o in body(x, val):
                        if o is NEXT or o is CONT:
                            nxt.append(y)
                        elif o is BREAK:
                            broke.append(y)
                        else:
                            outs.append((y, o))
                else:
                    for y, o in self.generic_loop(g, body, x, ctx, node):
                        if o is NEXT:
                            nxt.append(y)
                        elif o is BREAK:
                            broke.append(y)
                        else:
                            outs.append((y, o))
            live = nxt
        for x in live:
            outs.extend(self.block(orelse, x, ctx) if orelse else [(x, NEXT)])
        outs.extend((x, BREAK if raw else NEXT) for x in broke)
        return outs

    def generic_loop(self, g, body, st, ctx, node, kind="for"):
        """g = for(L, dom, alts).  Returns [(state, NEXT|BREAK|ret|raise)]."""
        if g.op not in ("for", "forp"):
            g = self._for(g, lambda L: mk("elem", g0, L)) if (g0 := g) is not None else g
        L0, dom, alts = g.a
        L = fresh_id()
        self.loopdom[L] = dom
        alts = tuple(subst_loop(a, L0, L) for a in alts)

        def once(base):
            res = []
            for guards, segs in alts:
                x = base.fork()
                ok = True
                for lit, pol in guards:
                    if self.decide(lit, x) is (not pol):
                        ok = False
                        break
                    self.learn(lit, pol, x)
                if not ok:
                    continue
                if not segs:
                    res.append((x, CONT))
                    continue
                res.extend(self.loop_segs(segs, body, x, ctx, node, [], raw=True))
            return res
        return self._summarise(once, st, ctx, node, L, dom, kind)

    def _summarise(self, once, st, ctx, node, L, dom, kind):
        changed = set()
        base = st
        for rnd in range(4):
            base = self._havoc(st, changed, L)
            res = once(base)
            new = self._diff(base, res, changed)
            if not new:
                break
            changed |= new
        n0, g0 = len(base.events), len(base.guards)
        info = LoopInfo(L, dom, kind)
        exits, brk, cont = [], [], []
        for x, o in res:
            lp = LoopPath(tuple(x.guards[g0:]), tuple(x.events[n0:]), "next" if o in (NEXT, CONT) else o[0], x)
            info.paths.append(lp)
            if o is NEXT or o is CONT:
                cont.append((x, lp))
            elif o is BREAK:
                brk.append((x, lp))
            else:
                exits.append((x, o))
        outs = []
        # normal completion
        post = st.fork()
        keep = {}
        for x, lp in cont:
            for oid, c in x.objs.items():
                if oid not in base.objs:
                    keep[oid] = c
        for k, c in keep.items():
            post.objs[k] = c
        for x, lp in cont:
            for k, v in x.heap.items():
                if k[0].op == "obj" and k[0] not in base.objs:
                    post.heap[k] = v
            for f, fr in x.frames.items():
                if f not in post.frames:
                    post.frames[f] = dict(fr)
        for ch in changed:
            what = ch[0]
            if what == "var":
                _, fid, name = ch
                if fid in post.frames:
                    vals = []
                    for x, lp in cont:
                        vals.append((lp.guards, x.frames.get(fid, {}).get(name)))
                    init = st.frames[fid].get(name)
                    info.updates[name] = (init, vals)
                    post.frames[fid][name] = self._loop_out(L, name, init, vals, dom, kind, base, fid)
            elif what == "heap":
                _, b, name = ch
                post.heap[(b, name)] = mk("lout", show(mk("attr", b, str(name), 0)), NONE, L)
                if not isinstance(name, tuple):
                    info.updates[(b, name)] = (st.heap.get((b, name)), [(lp.guards, x.heap.get((b, name))) for x, lp in cont])
            elif what == "epoch":
                post.epoch[ch[1]] = info.vers[ch[1]] = fresh_id()
                nm = ch[1]
                for k in [k for k in post.heap if k[1] == nm and k[0].op != "obj" and ("heap", k[0], nm) not in changed]:
                    del post.heap[k]
                if isinstance(nm, tuple):
                    for k in [k for k in post.heap if k[0] is nm[1] and isinstance(k[1], tuple) and ("heap",) + k not in changed]:
                        del post.heap[k]
            elif what == "obj":
                oid = ch[1]
                acc = mk("acc", L, oid)
                old = st.objs.get(oid)
                al = []
                good = old is not None
                for x, lp in cont:
                    c = x.objs.get(oid)
                    if c is None or not c or c[0] is not acc:
                        if c is not None and not c and not old:
                            pass
                        good = False
                        break
                    al.append((lp.guards, tuple(self._freeze_seg(z, x) for z in c[1:])))
                post.objs[oid] = (tuple(old) + (mk("for", L, dom, tuple(al)),)) if good else None
            elif what == "lens":
                post.lens.pop(ch[1], None)
        ev = Event("loop", (info,), "%s:%d" % (ctx.module.rel, getattr(node, "lineno", 0)), tuple(self.stack))
        post.events.append(ev)
        d = mk("loopdone", L)
        post.guards.append((d, True))
        if any(x.ncall for x, _ in res):
            post.ncall = max(x.ncall for x, _ in res) + 1
        if res or True:
            outs.append((post, NEXT))
        for x, lp in brk:
            x.events.insert(n0, ev)
            x.guards.insert(g0, (mk("loopbroke", L), True))
            self._restore_acc(x, st, L, dom, cont)
            outs.append((x, BREAK))
        for x, o in exits:
            x.events.insert(n0, ev)
            x.guards.insert(g0, (mk("inloop", L), True))
            self._restore_acc(x, st, L, dom, cont)
            outs.append((x, o))
        return outs

    def _restore_acc(self, x, st, L, dom, cont):
        for oid, c in list(x.objs.items()):
            if c and c[0].op == "acc" and c[0].a[0] == L:
                old = st.objs.get(oid)
                al = []
                for y, lp in cont:
                    cc = y.objs.get(oid)
                    if cc and cc[0] is c[0]:
                        al.append((lp.guards, tuple(self._freeze_seg(z, y) for z in cc[1:])))
                x.objs[oid] = (tuple(old) + (mk("forp", L, dom, tuple(al)),) + tuple(c[1:])) if old is not None else None

    def _loop_out(self, L, name, init, vals, dom, kind, base, fid):
        vs = {v for _, v in vals}
        if len(vs) == 1:
            v = next(iter(vs))
            if v is not None and init is not None and v is init:
                return v
        return mk("lout", name, init if init is not None else NONE, L)

    def _havoc(self, st, changed, L):
        x = st.fork()
        x.guards = list(st.guards)
        for ch in changed:
            if ch[0] == "var":
                _, fid, name = ch
                if fid in x.frames and name in x.frames[fid]:
                    x.frames[fid][name] = mk("lvar", name, x.frames[fid][name], L)
            elif ch[0] == "heap":
                _, b, name = ch
                x.heap[(b, name)] = mk("lvar", show(mk("attr", b, str(name), 0)), x.heap.get((b, name)) or NONE, L)
            elif ch[0] == "epoch":
                x.epoch[ch[1]] = ("L", L)
                nm = ch[1]
                for k in [k for k in x.heap if k[1] == nm and k[0].op != "obj" and ("heap",) + k not in changed]:
                    del x.heap[k]
                if isinstance(nm, tuple):
                    for k in [k for k in x.heap if k[0] is nm[1] and isinstance(k[1], tuple) and ("heap",) + k not in changed]:
                        del x.heap[k]
            elif ch[0] == "obj":
                if x.objs.get(ch[1]) is not None:
                    x.objs[ch[1]] = (mk("acc", L, ch[1]),)
            elif ch[0] == "lens":
                x.lens.pop(ch[1], None)
        # facts about changed things are stale
        if changed:
            x.facts = {k: v for k, v in x.facts.items()}
        return x

    def _diff(self, base, res, known):
        new = set()
        for x, o in res:
            if o is not NEXT and o is not CONT:
                continue
            for fid, fr in base.frames.items():
                xf = x.frames.get(fid)
                if xf is None:
                    continue
                for n, v in xf.items():
                    if n.startswith("%"):
                        continue
                    if fr.get(n) is not v:
                        new.add(("var", fid, n))
            for k, v in x.heap.items():
                if k[0].op == "obj" and k[0] not in base.objs:
                    continue
                if base.heap.get(k) is not v:
                    if k[0].op != "obj" and mentions_loop(k, None, base, x):
                        # store to an element of the loop: only the epoch matters
                        pass
                    elif k[0].op in ("obj", "sym", "attr"):
                        if not isinstance(k[1], tuple):
                            new.add(("heap", k[0], k[1]))
                        elif k[0].op == "obj":
                            new.add(("heap", k[0], k[1]))
            for k in base.heap:
                if k not in x.heap and not isinstance(k[1], tuple):
                    new.add(("epoch", k[1]))
            for k, v in x.epoch.items():
                if base.epoch.get(k) != v:
                    new.add(("epoch", k))
            for oid, c in base.objs.items():
                if x.objs.get(oid) is not c and x.objs.get(oid) != c:
                    new.add(("obj", oid))
            for k, v in x.lens.items():
                if base.lens.get(k) != v:
                    new.add(("lens", k))
            for k in base.lens:
                if k not in x.lens:
                    new.add(("lens", k))
        return new - known

    def _freeze_seg(self, z, st):
        if z.op in ("one",):
            return mk("one", *[self.freeze(v, st) for v in z.a])
        return z

    def freeze(self, v, st, d=0):
        """Replace references to locally built containers by their contents."""
        if d > 12:
            return v

        def f(x):
            if x.op == "obj" and x.a[1] in ("list", "dict", "set", "tuple", "gen", "deque"):
                c = st.objs.get(x)
                if c is None:
                    return x
                if c and c[0].op == "acc" or self._nested(x, st):
                    return x
                op = {"dict": "map", "set": "set", "gen": "list", "tuple": "list", "deque": "list"}.get(x.a[1], x.a[1])
                return mk(op, tuple(self._fz(z, st, d + 1) for z in c))
            return None
        return subst(v, f)

    def _fz(self, z, st, d):
        if z.op == "one":
            return mk("one", *[self.freeze(v, st, d) for v in z.a])
        if z.op in ("for", "forp"):
            return mk(z.op, z.a[0], z.a[1], tuple((g, tuple(self._fz(y, st, d) for y in ss)) for g, ss in z.a[2]))
        return z

    def s_While(self, s, st, ctx):
        # index loops over a range are the same as for-loops
        L = fresh_id()

        def once(base):
            res = []
            x = base.fork()
            for y, v in self.cond(s.test, x, ctx):
                if isinstance(v, tuple):
                    res.append((y, v))
                elif v:
                    res.extend(self.block(s.body, y, ctx))
            return res
        r = self._while_index(s, st, ctx)
        if r is not None:
            return r
        outs = []
        for x, o in self._summarise(once, st, ctx, s, L, mk("while", L), "while"):
            if o is NEXT:
                # the loop condition is false now
                for y, v in self.cond(s.test, x, ctx):
                    if isinstance(v, tuple):
                        outs.append((y, v))
                    elif not v:
                        outs.extend(self.block(s.orelse, y, ctx) if s.orelse else [(y, NEXT)])
            elif o is BREAK:
                outs.append((x, NEXT))
            else:
                outs.append((x, o))
        return outs

    def _while_index(self, s, st, ctx):
        """while i < bound: ...; i += 1   ==>  for i in range(i0, bound)"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)
                and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and not s.orelse):
            return None
        i = t.left.id
        if i not in st.frames[ctx.fid] or not st.frames[ctx.fid][i].op == "const":
            return None
        last = s.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == i
                and isinstance(last.op, ast.Add) and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return None
        for n in s.body[:-1]:
            for m in ast.walk(n):
                if isinstance(m, ast.Continue):
                    return None
                if isinstance(m, (ast.Assign, ast.AugAssign)):
                    for tt in (m.targets if isinstance(m, ast.Assign) else [m.target]):
                        for q in ast.walk(tt):
                            if isinstance(q, ast.Name) and q.id == i and isinstance(q.ctx, ast.Store):
                                return None
        outs = []
        for x, b in self.ev(t.comparators[0], st, ctx):
            if isinstance(b, tuple):
                outs.append((x, b))
                continue
            start = x.frames[ctx.fid][i]
            for y, segs in self.iter_segs(self._range([start, b]), x, ctx, s):
                def body(stt, val):
                    self.setname(i, val, stt, ctx)
                    return self.block(s.body[:-1], stt, ctx)
                for z, o in self.loop_segs(segs, body, y, ctx, s, []):
                    if o is NEXT:
                        z.frames[ctx.fid][i] = b
                    outs.append((z, o))
        return outs

    # ------------------------------------------------------------------ conditions
    def cond(self, e, st, ctx):
        """[(state, True|False|outcome)] with the branch literal learned."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, v if isinstance(v, tuple) else not v) for x, v in self.cond(e.operand, st, ctx)]
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            outs = []
            live = [st]
            for sub in e.values:
                nx = []
                for x in live:
                    for y, v in self.cond(sub, x, ctx):
                        if isinstance(v, tuple):
                            outs.append((y, v))
                        elif v == stop:
                            outs.append((y, stop))
                        else:
                            nx.append(y)
                live = nx
            outs.extend((x, not stop) for x in live)
            return outs
        outs = []
        for x, v in self.ev(e, st, ctx):
            if isinstance(v, tuple):
                outs.append((x, v))
            else:
                outs.extend(self.branch(v, x))
        return outs

    def branch(self, v, st):
        """Split a state on the truth of term v."""
        if v.op == "not":
            return [(x, not b) for x, b in self.branch(v.a[0], st)]
        if v.op in ("and", "or"):
            stop = v.op == "or"
            live, outs = [st], []
            for sub in v.a[0]:
                nx = []
                for x in live:
                    for y, b in self.branch(sub, x):
                        if b == stop:
                            outs.append((y, stop))
                        else:
                            nx.append(y)
                live = nx
            return outs + [(x, not stop) for x in live]
        lit, pol = self.literal(v, st)
        d = self.decide(lit, st)
        if d is not None:
            return [(st, d == pol)]
        f = st.fork()
        self.learn(lit, True, st)
        self.learn(lit, False, f)
        return [(st, pol), (f, not pol)]

    def literal(self, v, st=None):
        """(atom, polarity) canonical form of the truth of v."""
        o = v.op
        if o == "not":
            l, p = self.literal(v.a[0], st)
            return l, not p
        if o == "isnot":
            l, p = self.literal(mk("is", *v.a), st)
            return l, not p
        if o == "is":
            a, b = v.a
            if a.op == "const" and b.op != "const":
                a, b = b, a
            if b.op == "const" and b.a[0] == "bool" or (a.op != "const" and b.op != "const" and show(b) < show(a)):
                pass
            if b.op != "const" and show(b) < show(a):
                a, b = b, a
            return mk("is", a, b), True
        if o == "ne":
            l, p = self.literal(mk("eq", *v.a), st)
            return l, not p
        if o == "eq":
            a, b = v.a
            if a.op in ("const", "enum") and b.op not in ("const", "enum"):
                a, b = b, a
            if b.op not in ("const", "enum") and show(b) < show(a):
                a, b = b, a
            for x, y in ((a, b), (b, a)):
                if is_const(y, 0) and x.op == "len":
                    return mk("nonempty", x.a[0], x.a[1]), False
            return mk("eq", a, b), True
        if o in ("lt", "le", "gt", "ge"):
            a, b = v.a
            if o == "gt":
                a, b, o = b, a, "lt"
            elif o == "ge":
                a, b, o = b, a, "le"
            # total order:  a <= b  ==  not (b < a)
            pol = True
            if o == "le":
                a, b, pol = b, a, False
            if is_const(a, 0) and b.op == "len":
                return mk("nonempty", b.a[0], b.a[1]), pol
            if is_const(b, 1) and a.op == "len":
                return mk("nonempty", a.a[0], a.a[1]), not pol
            return mk("lt", a, b), pol
        if o == "notin":
            return mk("in", *v.a), False
        if o == "truth":
            return self.literal(v.a[0], st)
        if o in ("in", "isinst", "hasattr", "nonempty", "loopdone"):
            return v, True
        if o == "call" and v.a[0] is mk("builtin", "bool") and len(v.a[1]) == 1:
            return self.literal(v.a[1][0], st)
        if o == "call" and v.a[0].op == "meth" and v.a[0].a[1] in ("__ne__", "__eq__") and is_const(v.a[0].a[0], None) and len(v.a[1]) == 1:
            return mk("is", v.a[1][0], NONE), v.a[0].a[1] == "__eq__"
        if o == "len":
            return mk("nonempty", v.a[0], v.a[1]), True
        if st is not None and o not in ("const", "enum"):
            t = self.type_of(v, st)
            if t in ("list", "dict", "set", "tuple", "str", "bytes"):
                return mk("nonempty", v, self._ver(v, st)), True
        return mk("truth", v), True

    def learn(self, lit, pol, st):
        st.facts[lit] = pol
        st.guards.append((lit, pol))

    def decide(self, lit, st):
        d = st.facts.get(lit)
        if d is not None:
            return d
        o = lit.op
        if o == "loopdone":
            return None
        if o == "truth":
            v = lit.a[0]
            if v.op == "const":
                return bool(v.a[1])
            if v.op in ("enum", "func", "class", "clo", "bound", "builtin", "ext", "module"):
                return True
            if v.op == "obj" and v.a[1] == "inst":
                c = self.prog.classes.get(v.a[2])
                if c is not None and not c.find("__len__") and not c.find("__bool__") and not c.ext_bases():
                    return True
            if v.op in ("tuple",):
                return len(v.a[0]) > 0
            if v.op in ("eq", "ne", "lt", "le", "gt", "ge", "is", "isnot", "in", "notin", "isinst", "hasattr", "not"):
                l2, p2 = self.literal(v, st)
                d = self.decide(l2, st)
                return None if d is None else d == p2
            n = st.facts.get(mk("is", v, NONE))
            if n is True:
                return False
            for f, p in st.facts.items():
                if p and f.op == "eq" and f.a[0] is v and f.a[1].op == "const":
                    return bool(f.a[1].a[1])
            return None
        if o == "is":
            a, b = lit.a
            if a is b:
                return True
            if is_const(b, None):
                if a.op in ("const", "tuple", "list", "map", "set", "obj", "enum", "func", "class", "clo", "bound", "builtin",
                            "lin", "len", "add", "sub", "fmt", "pct", "inst", "idx", "ext", "module", "mul", "slice"):
                    return False
                if a.op == "call" and a.a[0].op == "builtin" and a.a[0].a[0] in ("int", "float", "str", "bool", "bytes", "len", "list", "dict", "set", "tuple", "repr", "sorted", "range", "iter"):
                    return False
                if a.op == "item" and a.a[0].op == "obj":
                    pass
                if st.facts.get(mk("truth", a)) is True:
                    return False
                for f, p in st.facts.items():
                    if not p:
                        continue
                    if f.op == "isinst" and f.a[0] is a:
                        return False
                    if f.op == "eq" and f.a[0] is a and f.a[1].op in ("const", "enum"):
                        return False
                return None
            if a.op == "enum" and b.op == "enum":
                return a is b
            if a.op == "const" and b.op == "const":
                return a is b
            if a.op == "obj" and b.op == "obj":
                return False
            if a.op == "obj" and b.op in ("sym",):
                return False
            if b.op == "obj" and a.op in ("sym",):
                return False
            return None
        if o == "eq":
            a, b = lit.a
            if a is b:
                return True
            if a.op == "enum" and b.op == "enum":
                return False
            if a.op == "const" and b.op == "const":
                try:
                    return a.a[1] == b.a[1]
                except Exception:
                    return None
            if {a.op, b.op} == {"const", "enum"}:
                return False
            if a.op == "class" and b.op == "class":
                return False
            if b.op in ("const", "enum"):
                for f, p in st.facts.items():
                    if p and f.op == "eq" and f.a[0] is a and f.a[1].op in ("const", "enum") and f.a[1] is not b:
                        if f.a[1].op == "const" and b.op == "const" and f.a[1].a[1] == b.a[1]:
                            return True
                        return False
                if b.op == "const" and not is_const(b, None) and st.facts.get(mk("is", a, NONE)) is True:
                    return False
                if is_const(b, None):
                    d = self.decide(mk("is", a, NONE), st)
                    return d
            la, lb = lin(a), lin(b)
            if la is lb and (la.op == "lin" or la is not a):
                return True
            if la.op == "const" and lb.op == "const" and la.a[0] == "int" and lb.a[0] == "int":
                return la is lb
            return None
        if o == "lt":
            a, b = lit.a
            if a is b:
                return False
            if a.op == "const" and b.op == "const":
                try:
                    return a.a[1] < b.a[1]
                except Exception:
                    return None
            d = lin_add(b, a, -1)
            if d.op == "const" and d.a[0] == "int":
                return d.a[1] > 0
            if b.op == "len" and is_const(a) and a.a[0] == "int" and a.a[1] < 0:
                return True
            if a.op == "len" and is_const(b) and b.a[0] == "int" and b.a[1] <= 0:
                return False
            if st.facts.get(mk("lt", b, a)) is True:
                return False
            if st.facts.get(mk("eq", a, b)) is True or st.facts.get(mk("eq", b, a)) is True:
                return False
            return None
        if o == "nonempty":
            v = lit.a[0]
            if v.op == "const" and v.a[0] in ("str", "bytes"):
                return len(v.a[1]) > 0
            if v.op == "tuple":
                return len(v.a[0]) > 0
            ss = None
            if v.op == "obj":
                ss = st.objs.get(v)
            elif v.op in ("list", "map", "set"):
                ss = v.a[0]
            if ss is not None:
                if any(z.op == "one" for z in ss):
                    return True
                if not ss:
                    return False
            if st.facts.get(mk("is", v, NONE)) is True:
                return False
            return None
        if o == "in":
            x, c = lit.a
            el = self._const_elems(c, st)
            if el is not None:
                if x in el:
                    return True
                if x.op in ("const", "enum", "class") and all(y.op in ("const", "enum", "class") for y in el):
                    return any(y.op == "const" and x.op == "const" and y.a[1] == x.a[1] for y in el)
                return None if el else False
            # membership in a dictionary built locally
            kk = self._map_keys_for(c, x, st)
            return kk
        if o == "isinst":
            return self._isinstance(lit.a[0], lit.a[1], st)
        return None

    def _const_elems(self, c, st):
        if c.op == "tuple":
            return list(c.a[0])
        ss = None
        if c.op == "obj":
            ss = st.objs.get(c)
        elif c.op in ("list", "set", "map"):
            ss = c.a[0]
        if ss is None or any(z.op != "one" for z in ss):
            return None
        return [z.a[0] for z in ss]

    def _map_keys_for(self, c, x, st):
        return None

    BUILTIN_SUB = {("bool", "int"): True}
    BUILTIN_TYPES = ("str", "int", "float", "bool", "bytes", "list", "dict", "set", "tuple")

    def _isinstance(self, v, c, st):
        """decide isinstance(v, c); c is a class/builtin/ext term."""
        t = self.static_class(v, st)
        if t is None:
            if st.facts.get(mk("is", v, NONE)) is True:
                return False
            for f, p in st.facts.items():
                if f.op == "isinst" and f.a[0] is v:
                    r = self._sub(f.a[1], c)
                    if p and r is True:
                        return True
                    if p and r is False and self._sub(c, f.a[1]) is not True:
                        if self._disjoint(f.a[1], c):
                            return False
                    if not p and self._sub(c, f.a[1]) is True:
                        return False
            return None
        return self._sub(t, c)

    def _sub(self, a, b):
        """Is class term a a subclass of class term b?"""
        if a is b:
            return True
        an, bn = a.a[0], b.a[0]
        if a.op == "class":
            c = self.prog.classes.get(an)
            if c is None:
                return None
            names = [x.name if isinstance(x, Class) else x for x in c.mro()]
            if bn in names:
                return True
            if b.op == "builtin":
                return False
            if b.op == "class":
                return False
            return None
        if a.op == "builtin":
            if b.op == "builtin":
                x, y = getattr(builtins, an, None), getattr(builtins, bn, None)
                if isinstance(x, type) and isinstance(y, type):
                    return issubclass(x, y)
            return False
        if a.op == "ext" and b.op == "ext":
            return None
        return None if a.op == "ext" and b.op == "ext" else False

    def _disjoint(self, a, b):
        """No object can be an instance of both (layouts / unrelated repo classes)."""
        if a.op == "class" and b.op == "class":
            ca, cb = self.prog.classes.get(a.a[0]), self.prog.classes.get(b.a[0])
            if ca and cb:
                for x in [ca] + self.prog.subclasses(ca):
                    if cb in x.mro():
                        return False
                return True
        if a.op == "builtin" and b.op == "builtin":
            return self._sub(a, b) is False and self._sub(b, a) is False
        if {a.op, b.op} == {"class", "builtin"}:
            c, bi = (a, b) if a.op == "class" else (b, a)
            cc = self.prog.classes.get(c.a[0])
            if cc:
                for x in [cc] + self.prog.subclasses(cc):
                    if bi.a[0] in x.ext_bases():
                        return False
                return True
        return False

    def static_class(self, v, st):
        """Class term of v when its dynamic class is known exactly enough for isinstance."""
        if v.op == "const":
            return mk("builtin", v.a[0])
        if v.op == "obj":
            if v.a[1] == "inst":
                return mk("class", v.a[2])
            return mk("builtin", {"gen": "generator", "deque": "deque"}.get(v.a[1], v.a[1]))
        if v.op == "inst":
            return mk("class", v.a[0])
        if v.op == "enum":
            return mk("class", v.a[0])
        if v.op in ("list", "set", "tuple"):
            return mk("builtin", v.op)
        if v.op == "map":
            return mk("builtin", "dict")
        if v.op in ("fmt", "pct"):
            return mk("builtin", "str")
        if v.op in ("len", "idx", "lin"):
            return mk("builtin", "int")
        if v.op == "slice":
            return mk("builtin", "slice")
        if v.op == "call" and v.a[0].op == "builtin" and v.a[0].a[0] in ("int", "str", "float", "bytes", "bool", "list", "dict", "set", "tuple", "sorted", "len", "repr"):
            n = v.a[0].a[0]
            return mk("builtin", {"sorted": "list", "len": "int", "repr": "str"}.get(n, n))
        if v.op == "sym" and isinstance(v.a[1], str) and v.a[1].startswith("="):
            n = v.a[1][1:]
            return mk("class", n) if n in self.prog.classes else mk("builtin", n)
        return None
