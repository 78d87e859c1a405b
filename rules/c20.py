"""C20: document content is always escaped in HTML output (taint analysis over the path summaries)."""
import ast
from rules.common import *
from effects import path_root

ROW, CELL = "TableRow", "TableCell"
KEEP = {"lower", "upper", "strip", "lstrip", "rstrip", "casefold", "capitalize", "title", "center", "ljust", "rjust", "expandtabs", "encode", "decode", "rstrip",
        "split", "rsplit", "splitlines", "partition", "rpartition", "group", "groups", "replace", "format", "join", "translate", "__str__", "__repr__", "swapcase",
        "zfill", "removeprefix", "removesuffix", "text", "get", "to_list"}
NUMERIC = {"len", "int", "float", "sum", "abs", "round", "ord", "hash", "id", "bool"}
SAFE, ESC, ESCNQ, TAINT = "safe", "escaped", "escaped without quotes", "document content"


class Unknown(Exception):
    pass


class Bad(Exception):
    pass


def advance(state, s):
    """HTML tokeniser state after literal text: text / tag / attribute value in quotes"""
    for ch in s:
        if state == "text":
            if ch == "<":
                state = "tag"
        elif state == "tag":
            if ch == ">":
                state = "text"
            elif ch in "\"'":
                state = ch
        elif ch == state:
            state = "tag"
    return state


class Scan:
    def __init__(self, R, en, safe_attrs):
        self.R, self.en, self.safe_attrs = R, en, safe_attrs
        self.st = None
        self.busy = set()
        self.leaves = 0
        self.depth = 0
        self.cache = {}

    # ------------------------------------------------------------ classification of one inserted value
    def kind(self, t):
        """how much of an arbitrary document string can be in the text of t"""
        k = self.cache.get(t)
        if k is None:
            if t in self.busy:
                return SAFE
            self.busy.add(t)
            try:
                k = self._kind(t)
            finally:
                self.busy.discard(t)
            if not self.busy:
                self.cache[t] = k
        return k

    def worst(self, ts):
        order = (SAFE, ESC, ESCNQ, TAINT)
        return max([self.kind(t) for t in ts] or [SAFE], key=order.index)

    def _kind(self, t):
        o, a = t.op, t.a
        if o == "const" or o in ("enum", "len", "idx", "rng", "lin", "eq", "is", "not", "isinst", "in", "lt", "le", "class", "func"):
            return SAFE
        if o == "obj":
            fz = contents(self.en, self.st, t)
            if fz is not t:
                return self.kind(fz)
            raise Unknown(show(t)[:80])
        if o in ("fmt", "pct"):
            return self.worst(a[0])
        if o == "join":
            return self.worst((a[0], a[1]))
        if o == "tuple":
            return self.worst(a[0])
        if o in ("list", "set", "map"):
            return self.worst(self.members(a[0]))
        if o in ("lvar", "lout"):
            return self.worst(self.flows(t))
        if o in ("at", "sdef"):
            return self.kind(a[0])
        if o == "slice":
            return SAFE
        if o == "view":
            return self.kind(a[1])
        if o == "attr":
            k = self.safe_attrs.get(a[1])
            if k is not None:
                return k
            r = self.root_kind(a[0])
            return r if r == SAFE else TAINT
        if o in ("item", "dget", "elem"):
            b = a[0]
            if b.op in ("list", "tuple", "map", "join", "fmt", "obj", "lout", "lvar"):
                return self.kind(b)
            k = self.kind(b)
            return k
        if o == "sym":
            return TAINT
        if o == "call":
            return self.call(t)
        if o in ("add", "mul"):
            return self.worst([x for x in a if isinstance(x, T)])
        raise Unknown(show(t)[:80])

    def root_kind(self, t):
        r, _ = path_root(t)
        if r.op == "global" or show(r).startswith("global:"):
            return SAFE
        return TAINT

    def members(self, segs):
        out = []
        for z in segs:
            if z.op == "one":
                out.extend(z.a)
            elif z.op in ("for", "forp"):
                for g, ss in z.a[2]:
                    out.extend(self.members(ss))
            elif z.op in ("rest", "star", "ext"):
                out.extend(x for x in z.a if isinstance(x, T))
            else:
                raise Unknown("contents %s" % z.op)
        return out

    def flows(self, t):
        """values a loop variable can hold"""
        name, init, L = t.a
        out = [init] if isinstance(init, T) else []
        li = self.loops.get(L)
        if li is None:
            raise Unknown("loop %s" % L)
        for nm, (i0, vals) in li.updates.items():
            if nm == name:
                out.extend(v for g, v in vals if isinstance(v, T))
        return out

    def call(self, t):
        f, args, kws = t.a[:3]
        kw = dict(kws)
        if f.op == "ext":
            n = f.a[0]
            if n == "html.escape":
                q = kw.get("quote", args[1] if len(args) > 1 else None)
                if q is None or is_const(q, True):
                    return ESC
                return ESCNQ
            if n in ("xml.sax.saxutils.escape",):
                return ESCNQ
            if n in ("xml.sax.saxutils.quoteattr", "urllib.parse.quote", "urllib.parse.quote_plus", "urllib.parse.urlencode"):
                return ESC
            if n in ("html.unescape", "xml.sax.saxutils.unescape", "urllib.parse.unquote", "urllib.parse.unquote_plus", "textwrap.shorten", "str", "repr"):
                return TAINT if self.worst(args) != SAFE else SAFE
            raise Unknown("%s()" % n)
        if f.op == "builtin":
            n = f.a[0]
            if n in NUMERIC:
                return SAFE
            if n in ("str", "repr", "min", "max", "sorted", "reversed", "list", "tuple", "next", "iter", "format", "ascii", "zip", "enumerate", "set", "map", "filter"):
                k = self.worst(args)
                if n in ("repr", "ascii", "str", "format") and k != SAFE:
                    return k if k in (ESC, ESCNQ) and n != "repr" else TAINT
                return k
            raise Unknown("%s()" % n)
        if f.op == "item" and f.a[0].op == "map":
            fs = [z.a[1] for z in f.a[0].a[0] if z.op == "one" and len(z.a) == 2]
            if len(fs) == len(f.a[0].a[0]):
                return self.worst_of([self.returned(x, args) for x in fs])
        if f.op in ("func", "clo"):
            return self.returned(f, args)
        if f.op in ("bound", "meth", "vmeth"):
            nm = next((x for x in f.a if isinstance(x, str)), None)
            base = f.a[0] if f.op != "bound" else next((x for x in f.a if isinstance(x, T) and x.op != "func"), f.a[0])
            if f.op == "bound":
                ft = next((x for x in f.a if isinstance(x, T) and x.op == "func"), None)
                g = self.en.func_of(ft) if ft is not None else None
                if g is not None and g.qual in self.roots:
                    return SAFE
                if g is not None:
                    raise Unknown("%s()" % g.qual)
            if nm in ("_repr_html_", "render_html"):
                return SAFE
            if nm == "replace" and len(args) >= 2 and is_const(args[0]) and is_const(args[1]):
                ks = self.kind(base)
                if ks == SAFE:
                    return SAFE
                if args[1].a[1] and any(c in str(args[1].a[1]) for c in "<>\"'") and ks in (ESC, ESCNQ):
                    return TAINT if any(c in str(args[0].a[1]) for c in "&;lgtamp") else ks
                if ks == TAINT:
                    done = set()
                    x = t
                    while x.op == "call" and x.a[0].op in ("meth", "vmeth") and "replace" in x.a[0].a and len(x.a[1]) == 2 and all(is_const(y) for y in x.a[1]):
                        if str(x.a[1][1].a[1]).startswith("&") or x.a[1][1].a[1] == "":
                            done.add(x.a[1][0].a[1])
                        x = x.a[0].a[0]
                    if {"<", ">"} <= done or {"<"} <= done and {"&"} <= done:
                        return ESC if {"'", '"'} <= done else ESCNQ
                return ks
            if nm in ("isdigit", "startswith", "endswith", "find", "index", "count", "fullmatch", "match", "search"):
                return SAFE if nm not in ("fullmatch", "match", "search") else self.worst(args)
            if nm in ("translate", "sub", "subn", "escape"):
                raise Unknown(".%s()" % nm)
            if nm in KEEP or nm is None:
                k = self.worst([base] + [x for x in args if isinstance(x, T)])
                return k
            k = self.kind(base)
            if k == TAINT:
                raise Unknown(".%s()" % nm)
            return k
        if f.op == "umeth":
            return self.worst(args) if f.a[-1] in ("format", "join", "__str__", "__repr__") else TAINT if self.worst(args) == TAINT else SAFE
        raise Unknown(show(t)[:80])

    def worst_of(self, ks):
        order = (SAFE, ESC, ESCNQ, TAINT)
        return max(ks or [SAFE], key=order.index)

    def returned(self, f, args):
        if self.depth > 6:
            raise Unknown("recursion")
        g = self.en.func_of(f) if f.op == "func" else None
        if g is None:
            raise Unknown(show(f)[:60])
        en, ps = self.R.paths(g)
        sub = Scan(self.R, en, self.safe_attrs)
        sub.roots, sub.depth = self.roots, self.depth + 1
        ks = [SAFE]
        for p in ps:
            if p.returns and isinstance(p.outcome[1], T):
                sub.start(p)
                ks.append(sub.kind(en.freeze(p.outcome[1], p.st)))
        return self.worst_of(ks)

    # ------------------------------------------------------------ the output, left to right
    def start(self, p):
        self.st = p.st
        self.cache = {}
        self.loops = loop_infos(p.events)

    def emit(self, t, state):
        """HTML tokeniser state after t has been written; raises Bad at the first unescaped document content"""
        if isinstance(t, str):
            return advance(state, t) if state is not None else None
        o, a = t.op, t.a
        if o == "const":
            return self.emit(str(a[1]), state)
        if o == "fmt":
            for x in pieces(t):
                state = self.emit(x, state)
            return state
        if o == "obj":
            fz = contents(self.en, self.st, t)
            if fz is not t:
                return self.emit(fz, state)
        if o in ("at", "sdef"):
            return self.emit(a[0], state)
        if o == "join" and a[1].op == "list":
            return self.segs(a[0], a[1].a[0], state)
        if o in ("lvar", "lout") and isinstance(a[1], T) and a[1].op in ("const", "fmt", "join"):
            return self.accumulated(t, state)
        k = self.kind(t)
        self.leaves += 1
        if k == TAINT:
            raise Bad("%s reaches the HTML output unescaped" % show(t)[:160])
        if state in ("'", '"') and k == ESCNQ:
            raise Bad("%s is written into a quoted attribute with its quotes unescaped" % show(t)[:160])
        if state == "tag" and k in (ESC, ESCNQ):
            raise Bad("%s is written inside a tag outside quotes" % show(t)[:160])
        return state

    def accumulated(self, t, state):
        name, init, L = t.a
        li = self.loops.get(L)
        if li is None:
            raise Unknown("loop %s" % L)
        if (t.op, name, L) in self.busy:
            return state
        s0 = self.emit(init, state)
        self.busy.add(("lout", name, L))
        self.busy.add(("lvar", name, L))
        try:
            end = s0
            for g, u in li.updates.get(name, (None, ()))[1]:
                if isinstance(u, T):
                    s1 = self.emit(u, s0)
                    end = s1 if end == s1 else None
        finally:
            self.busy.discard(("lout", name, L))
            self.busy.discard(("lvar", name, L))
        return end

    def segs(self, sep, segs, state):
        for z in segs:
            if z.op == "one":
                state = self.emit(z.a[0], state)
                if not (is_const(sep) and sep.a[1] == ""):
                    state = self.emit(sep, state)
            elif z.op in ("for", "forp"):
                ends = {state}
                for g, ss in z.a[2]:
                    ends.add(self.segs(sep, ss, state))
                state = ends.pop() if len(ends) == 1 else None
            else:
                k = self.worst([x for x in z.a if isinstance(x, T)])
                if k == TAINT:
                    raise Bad("%s reaches the HTML output unescaped" % show(z)[:160])
                if k != SAFE:
                    state = None
        return state


def attribute_kinds(R, prog, html_kind):
    """attributes that can only hold numbers, by all their assignments in the package; row labels and ready-made cell HTML by their constructions"""
    assigns = {}
    for m in prog.modules.values():
        for fn in ast.walk(m.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.Module)):
                continue
            for n in ast.walk(fn):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in ts:
                        for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
                            if isinstance(x, ast.Attribute):
                                v = n.value
                                if isinstance(t, ast.Tuple):
                                    v = v.elts[t.elts.index(x)] if isinstance(v, ast.Tuple) and len(v.elts) == len(t.elts) else None
                                assigns.setdefault(x.attr, {})[id(x)] = (v, fn)
    def num(v):
        if v is None:
            return False
        if isinstance(v, ast.Constant):
            return isinstance(v.value, (int, float, bool, type(None)))
        if isinstance(v, ast.UnaryOp):
            return num(v.operand)
        if isinstance(v, ast.BinOp):
            return num(v.left) and num(v.right)
        if isinstance(v, ast.Call):
            return isinstance(v.func, ast.Name) and v.func.id in NUMERIC
        return False
    out = {}
    for a, vs in assigns.items():
        if all(num(v) for v, fn in vs.values()):
            out[a] = SAFE
    for a in ("_id", "num"):
        if any(num(v) for v, fn in assigns.get(a, {}).values()):
            out[a] = SAFE
    return out, assigns


def check(R):
    R.rule("escape", "every piece of document content (any text, name, field or value) in the returned HTML passed an HTML escape; quotes too inside attributes, "
                     "and none is written inside a tag outside quotes")
    R.rule("ready-html", "TableCell.html and row labels are inserted as they are, so every construction gives them constant, numeric or escaped text")
    prog = R.prog
    roots = []
    for c in prog.classes.values():
        for n, m in c.methods.items():
            if n == "_repr_html_" or c.name == "Table" and n == "render_html":
                roots.append((m, c))
    for c in prog.classes.values():
        m = c.find("_repr_html_")
        if m is not None and (m, c) not in roots and any(getattr(k, "name", k) == m.cls.name for k in c.mro()) and m.cls is not c:
            pass
    rq = {m.qual for m, c in roots}
    safe, assigns = attribute_kinds(R, prog, None)

    # what is put into the attributes that are inserted without escaping
    made = {("TableRow", "index"): [], ("TableCell", "html"): []}
    def collect():
        for f in prog.funcs:
            q = f.qual
            src = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
            if not src & {ROW, CELL}:
                stores = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
                if not stores & {"html"}:
                    continue
            en, ps = R.paths(f, no_inline=("Table.render_html", "Table.render_text"))
            for p in ps:
                for e, nst in all_events(p.events):
                    if e.kind == "new" and e.a[1].op == "class" and str(e.a[1].a[0]).rsplit(":", 1)[-1].rsplit(".", 1)[-1] in (ROW, CELL):
                        cn = str(e.a[1].a[0]).rsplit(":", 1)[-1].rsplit(".", 1)[-1]
                        kw = dict(e.a[3])
                        if cn == ROW and "index" in kw:
                            made[(ROW, "index")].append((kw["index"], en, p, e.loc, q))
                        if cn == CELL:
                            h = kw.get("html", e.a[2][1] if len(e.a[2]) > 1 else None)
                            if h is not None:
                                made[(CELL, "html")].append((h, en, p, e.loc, q))
    R.guarded("ready-html", "constructions", collect)
    for cls, mod_calls in ((ROW, None), (CELL, None)):
        for m in prog.modules.values():
            for st in m.tree.body:
                for n in ast.walk(st):
                    if not isinstance(st, (ast.FunctionDef, ast.ClassDef)) and isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == cls:
                        for k in n.keywords:
                            if k.arg in ("html", "index") and not isinstance(k.value, ast.Constant):
                                made.setdefault((cls, k.arg), []).append((None, None, None, None, m.name))
    for (cls, an), xs in made.items():
        def one(cls=cls, an=an, xs=xs):
            worst = SAFE
            for v, en, p, loc, q in xs:
                if v is None:
                    raise Cannot("module level construction of %s in %s" % (cls, q))
                s = Scan(R, en, safe)
                s.roots = rq
                s.start(p)
                try:
                    k = s.kind(en.freeze(v, p.st))
                except Unknown as x:
                    R.unknown("ready-html", "%s.%s" % (cls, an), "%s: %s" % (q, x), loc)
                    safe[an] = SAFE
                    return
                if k == TAINT or (an == "html" and k == TAINT):
                    safe[an] = SAFE
                    return R.bad("ready-html", "%s.%s in %s" % (cls, an, q), "%s is inserted into HTML output unescaped" % show(v)[:140], loc, trace(p))
            safe[an] = SAFE
            R.good("ready-html", "%s.%s" % (cls, an), "%d constructions" % len(xs))
        R.guarded("ready-html", "%s.%s" % (cls, an), one)
        safe.setdefault(an, SAFE)

    for f, c in roots:
        def go(f=f, c=c):
            noin = tuple(q for q in rq if q != f.qual)
            if f.qual not in ("Table.render_html",):
                noin += ("NodeCollection._table_repr_", "Node._table_repr_", "NodeFieldCollection._table_repr_", "Table.render_text")
            en, ps = R.paths(f, self_cls=c, no_inline=noin, max_paths=6000)
            n = 0
            for p in ps:
                if not (p.returns and isinstance(p.outcome[1], T)):
                    continue
                s = Scan(R, en, safe)
                s.roots = rq
                s.start(p)
                try:
                    s.emit(en.freeze(p.outcome[1], p.st), "text")
                except Bad as x:
                    return R.bad("escape", f.qual, str(x), f.loc, trace(p))
                except Unknown as x:
                    return R.unknown("escape", f.qual, str(x), f.loc)
                n += s.leaves
            R.good("escape", f.qual, "%d paths, %d inserted values" % (len(ps), n), f.loc)
        R.guarded("escape", f.qual, go)
