"""C05: type validation accepts exactly the declared type."""
import itertools
from rules.common import *
from machine import Machine, Fail
from rules.docs import list_val
from rules.c28 import MAKE

LAYER, OTHER, CTX = "L", "M", "main"


def node(coll, i=0, truth=True, name=None):
    c = None if coll is None else Val("layer " + coll, {"NodeLayerCollection"}, {"name": coll, "schema": Val("schema", (), {"name": coll}), "_schema": Val("schema", (), {"name": coll})})
    return Val(name or "node of %s" % coll, {"Node", "dict"}, {"collection": c, "i": i, "_id": -1 if c is None else i}, truth=truth)


def tspan(ctx, n):
    return Val("span of text %s, length %d" % (ctx, n), {"TextSpan"}, {"text": Val("text", {"Text"}, {"name": ctx}), "_start": 0, "_stop": n, "start": 0, "stop": n}, truth=n > 0, length=n)


def nspan(l, r):
    return Val("node span (%s #%s .. %s #%s)" % (l.name, l.attrs["i"], r.name, r.attrs["i"]), {"NodeSpan", "NodeCollection"},
               {"left": l, "right": r}, elems=[l, r], length=2)


def values():
    B31, B63 = 2 ** 31, 2 ** 63
    for v in (None, True, False, 0, 1, -1, B31 - 1, B31, -B31, -B31 - 1, B63 - 1, B63, -B63, -B63 - 1, 2 ** 32, -2 ** 32, 0.0, 1.5,
              float("inf"), float("nan"), "", "x", "0", b"", b"x"):
        yield repr(v), v
    for ctx in (CTX, "other"):
        for n in (0, 3):
            s = tspan(ctx, n)
            yield s.name, s
    nodes = [node(c, i, t) for c in (LAYER, OTHER, None) for i, t in ((0, True), (2, True), (1, False))]
    for x in nodes:
        yield x.name + (" without fields" if not x.truth else ""), x
    g, g2, b, d = node(LAYER, 0), node(LAYER, 2), node(OTHER, 1), node(None, 1)
    for lst in ([], [g], [g, g2], [g2, g], [b], [g, b], [b, g], [g, d], [d], [d, g], [g, g2, b]):
        v = Val("list of %s" % [x.name for x in lst], {"list"}, {}, truth=bool(lst), elems=list(lst), length=len(lst))
        yield v.name, v
        v = Val("NodeList of %s" % [x.name for x in lst], {"NodeList", "list", "NodeCollection"}, {}, truth=bool(lst), elems=list(lst), length=len(lst))
        yield v.name, v
    for l, r in itertools.product((node(LAYER, 1), node(OTHER, 1), node(None, 1)), (node(LAYER, 0), node(LAYER, 1), node(LAYER, 2), node(OTHER, 2), node(None, 2))):
        v = nspan(l, r)
        yield v.name, v


def attached(n, layer):
    return isinstance(n, Val) and "Node" in n.classes and n.attrs["collection"] is not None and n.attrs["collection"].attrs["name"] == layer


def expected(kind, v):
    if kind == "BOOL":
        return isinstance(v, bool)
    if kind == "I32":
        return isinstance(v, int) and -2 ** 31 <= v < 2 ** 31
    if kind == "I64":
        return isinstance(v, int) and -2 ** 63 <= v < 2 ** 63
    if kind == "F64":
        return isinstance(v, float)
    if kind == "STRING":
        return isinstance(v, str)
    if kind == "BINARY":
        return isinstance(v, bytes)
    if not isinstance(v, Val):
        return False
    if kind == "SPAN":
        return "TextSpan" in v.classes and v.attrs["text"].attrs["name"] == CTX
    if kind == "NODEREF":
        return attached(v, LAYER)
    if kind == "NODEREF_MANY":
        return bool(v.classes & {"list", "NodeCollection"}) and all(attached(x, LAYER) for x in v.elems)
    if kind == "NODEREF_SPAN":
        return "NodeSpan" in v.classes and attached(v.attrs["left"], LAYER) and attached(v.attrs["right"], LAYER) \
            and v.attrs["left"].attrs["i"] <= v.attrs["right"].attrs["i"]


def type_classes(R):
    """DataTypeEnum member -> class, from the declared mapping"""
    en = R.engine()
    f = R.prog.func("DataTypes.create")
    out = {}
    for k in KINDS:
        e2 = R.engine(opaque_classes=("NodeList",))
        ps = e2.run(f, args={params(e2, f)[0]: E(k)})
        cl = set()
        for p in ps:
            if p.returns and p.value.op == "obj" and p.value.a[2]:
                cl.add(p.value.a[2])
            elif p.returns:
                cl.add(None)
        e2.npaths += len(ps)
        if len(cl) == 1 and None not in cl:
            out[k] = next(iter(cl))
    return out


def LOUD(qual, detail):
    """every assertion may fail"""
    return False


class Histories:
    """documents made through the public interface, on the machine"""

    def __init__(self, R):
        self.R, self.m = R, Machine(R, store=True, quiet_asserts=LOUD)
        m = self.m
        self.doc = m.new("Document")
        self.texts = {n: m.invoke(self.doc, "add_text", n, "abcdef") for n in ("main", "main2", "ma")}
        self.target = m.invoke(self.doc, "add_layer", "T")
        self.other = m.invoke(self.doc, "add_layer", "TT")
        self.t = [m.invoke(self.target, "add") for _ in range(3)]
        self.o = [m.invoke(self.other, "add") for _ in range(2)]
        self.gone = m.invoke(self.target, "add")
        m.invoke(self.target, "remove", self.gone)
        self.free = m.new("Node")
        self.layers = {}

    def layer(self, kinds):
        if kinds not in self.layers:
            self.layers[kinds] = self.m.invoke(self.doc, "add_layer", "L%d" % len(self.layers), **{n: self.type(k) for n, k in zip("xyz", kinds)})
        return self.layers[kinds]

    def type(self, k):
        if k == "BINARY":
            return self.m.new("DataTypeBinary", E("BINARY"))
        f, a = MAKE[k]
        return self.m.run(self.R.prog.func("DataTypes." + f), list(a))

    def span(self, text, a, b):
        return self.m.invoke(self.texts[text], "__getitem__", slice(a, b))

    def values(self):
        """(description, value, kinds it is of)"""
        m, t, o, free, gone = self.m, self.t, self.o, self.free, self.gone
        ints = lambda v: {k for k, b in (("I32", 31), ("I64", 63)) if -2 ** b <= v < 2 ** b}
        for v in (0, 1, -1, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 63 - 1, 2 ** 63, -2 ** 63, -2 ** 63 - 1):
            yield repr(v), v, ints(v)
        for v in (True, False):
            yield repr(v), v, {"I32", "I64", "BOOL"}
        for v in (0.0, 1.5):
            yield repr(v), v, {"F64"}
        for v in ("", "a"):
            yield repr(v), v, {"STRING"}
        for v in (b"", b"a"):
            yield repr(v), v, {"BINARY"}
        yield "None", None, set()
        yield "bytearray(b'a')", bytearray(b"a"), set()
        yield "bytearray()", bytearray(), set()
        for n, a, b in (("main", 1, 3), ("main", 2, 2), ("main2", 1, 3), ("ma", 1, 3), ("ma", 0, 0)):
            yield "the span %d:%d of the text %r" % (a, b, n), self.span(n, a, b), {"SPAN"} if n == "main" else set()
        for d, v, ok in (("an attached node", t[0], True), ("the last node", t[2], True), ("a node of another layer", o[0], False),
                         ("a node that was never added", free, False), ("a removed node", gone, False)):
            yield d, v, {"NODEREF"} if ok else set()
        for d, xs, ok in (("[]", [], True), ("[t0]", [t[0]], True), ("[t2, t0]", [t[2], t[0]], True), ("[t0, another layer's node]", [t[0], o[0]], False),
                          ("[another layer's node, t0]", [o[0], t[0]], False), ("[t0, removed, t1]", [t[0], gone, t[1]], False), ("[never added]", [free], False),
                          ("[t0, never added]", [t[0], free], False)):
            yield "the list %s" % d, list_val(list(xs), d), {"NODEREF_MANY"} if ok else set()
        for d, l, r, ok in (("t0 .. t2", t[0], t[2], True), ("t1 .. t1", t[1], t[1], True), ("t2 .. t0", t[2], t[0], False), ("o0 .. o1", o[0], o[1], False),
                            ("t0 .. another layer's", t[0], o[1], False), ("another layer's .. t2", o[0], t[2], False), ("never added .. t0", free, t[0], False),
                            ("t0 .. removed", t[0], gone, False)):
            try:
                v = m.new("NodeSpan", l, r)
            except (Fail, Cannot):
                continue
            yield "the node span %s" % d, v, {"NODEREF_SPAN"} if ok else set()


def validated(R):
    """real nodes, types, layers and texts: whole validation on the machine"""
    try:
        h = Histories(R)
        vals = list(h.values())
    except (Fail, Cannot) as x:
        return R.unknown("validated", "document", "%s %s" % (type(x).__name__, x))
    m, nodes = h.m, {}
    good = {"I32": 1, "STRING": "s"}
    f = R.prog.func("NodeLayerCollection.validate")
    for k in KINDS:
        def one(k=k):
            n = turn = 0
            why = None
            for kinds, at in (((k,), "x"), ((k, "I32"), "x"), (("STRING", k), "y")):
                lay = h.layer(kinds)
                nodes[kinds] = m.invoke(lay, "add", **{x: good.get(q) for x, q in zip("xyz", kinds) if x != at})
                for d, v, of in vals:
                    turn += 1
                    hows = ("validate", "is_valid", "is_valid(noexcept=False)")
                    if R.tier == "quick":
                        hows = hows[:1] if len(kinds) == 1 else hows[1:2] if at == "y" and (v is None or turn % 4 == 0 or k in of) else hows[2:] if at == "x" and turn % 5 == 0 else ()
                    for how in hows:
                        n0 = len(m.log)
                        try:
                            nd = nodes[kinds]
                            m.invoke(nd, "__setitem__", at, v)
                            res = m.invoke(lay, "validate", nd) if how == "validate" else m.invoke(nd, "is_valid", *([False] if "False" in how else []))
                            res = "accepts it" if m_truth(res) else "rejects it"
                        except Fail as x:
                            res = "rejects it"
                        except Cannot as x:
                            why = why or "%s, %s: %s" % (d, how, x)
                            res = None
                        finally:
                            m.undo(n0)
                        if res is None:
                            continue
                        n += 1
                        if k == "NODEREF_MANY" and d.startswith("the node span"):
                            continue    # a node span may also stand for the list of its nodes
                        if (k in of) != (res == "accepts it"):
                            return R.bad("validated", k, "field %s of %d (%s) set to %s: %s %s" % (at, len(kinds), k, d, how, res), f.loc)
            if why:
                return R.unknown("validated", k, "%d decided, undecided: %s" % (n, why), f.loc)
            R.good("validated", k, "%d values, positions and ways of asking" % n, f.loc)
        R.guarded("validated", k, one)


def m_truth(v):
    if isinstance(v, Val):
        raise Cannot("truth of %r" % (v,))
    return bool(v)


def check(R):
    R.rule("accepts-exactly", "for every kind and every region of values (kind, range boundary, membership, order) the extracted is_valid formula is true exactly for the declared kind")
    R.rule("validate-covers", "no feasible path of validate() ends in success while a set field holds a value its declared type rejects")
    R.rule("validate-result", "Node.is_valid never turns a failed validation into success")
    R.rule("validated", "real documents, layers, types and nodes built through the public interface on the machine: for every kind x value x position x way of asking, validation succeeds exactly for a value of the declared kind")
    tc = type_classes(R)
    vals = list(values())
    for k in KINDS:
        c = tc.get(k)
        if c is None:
            R.unknown("accepts-exactly", k, "class of this kind not resolved from DataTypes.create")
            continue
        f = R.prog.func(c + ".is_valid")

        def one(k=k, c=c, f=f):
            en = R.engine(no_inline=("Node.i",))
            en, ps = R.paths(f, self_cls=c, engine=en)
            sp, vp = params(en, f)[:2]

            def base_of(v):
                opts = {"layer": LAYER, "context": CTX, "default": None}
                me = Val("dtype", {c}, {"options": opts, "typename": E(k)})

                def base(t, ev):
                    if t.op == "sym" and t.a[0] == vp:
                        return v
                    if t.op == "sym" and t.a[0] == sp:
                        return me
                    return NotImplemented
                return base

            def judge(v, kind, res, p):
                exp = expected(k, v)
                if kind == "raise":
                    return "raises %s for a valid value" % res if exp else None
                if isinstance(res, Val):
                    return None
                if bool(res) != exp:
                    return "is_valid gives %s, declared kind %s says %s" % (res, k, exp)
            decision(R, "accepts-exactly", "%s (%s)" % (k, c), ps, vals, base_of, judge, f.loc)
        R.guarded("accepts-exactly", k, one)

    # ---- validate: every set field
    regs = []
    for va, vb, sa, sb in itertools.product((True, False), (True, False), (True, False), (True, False)):
        for cross in (True, False):
            for ka in KINDS:
                regs.append(("field a (%s) %s %s, field b %s %s" % (ka, "set" if sa else "unset", "valid" if va else "invalid",
                                                                   "set" if sb else "unset", "valid" if vb else "invalid"),
                             dict(valid={"a": va, "b": vb}, set={k for k, s in (("a", sa), ("b", sb)) if s}, cross=cross, kind={"a": ka, "b": "STRING"})))

    def base_factory(f, en):
        ps = params(en, f)

        def base_of(r):
            fields = Val("fields", {"dict"}, {}, items={n: Val("type of " + n, {"DataType"}, {"typename": E(k), "options": {"layer": LAYER, "context": CTX}, "_f": n})
                                                        for n, k in r["kind"].items()}, length=2)
            schema = Val("schema", {"NodeLayerSchema"}, {"fields": fields, "name": LAYER})
            me = Val("layer", {"NodeLayerCollection"}, {"_schema": schema, "schema": schema, "fieldtypes": fields, "name": LAYER})
            nd = Val("node", {"Node", "dict"}, {"collection": me}, items={n: Val("value of " + n, (), {"_f": n}) for n in r["set"]})
            me.elems = [nd]

            def base(t, ev):
                if t.op == "sym" and t.a[0] == ps[0]:
                    return me
                if len(ps) > 1 and t.op == "sym" and t.a[0] == ps[1]:
                    return nd
                if t.op == "call" and t.a[0].op in ("vmeth", "meth") and t.a[0].a[1] == "is_valid" and len(t.a[1]) == 1:
                    d = ev.ev(t.a[0].a[0])
                    v = ev.ev(t.a[1][0])
                    if isinstance(d, Val) and "_f" in d.attrs:
                        if isinstance(v, Val) and "_f" in v.attrs:
                            return r["valid"][v.attrs["_f"]] if d.attrs["_f"] == v.attrs["_f"] else r["cross"]
                        if v is None:
                            return False
                    raise Cannot(show(t))
                return NotImplemented
            return base
        return base_of

    for qual, sc in (("NodeLayerCollection.validate", "NodeLayerCollection"), ("NodeCollection.validate", "NodeCollection")):
        f = R.prog.func(qual)

        def one(f=f, qual=qual, sc=sc):
            en = R.engine(quiet_asserts=lambda q, d: False, no_inline=("Node.i", "Node.__repr__"))
            en, ps = R.paths(f, self_cls=sc, engine=en)
            base_of = base_factory(f, en)
            n = und = 0
            why = None
            for desc, r in regs:
                bad_set = [x for x in r["set"] if not r["valid"][x]]
                if not bad_set:
                    continue
                for p in ps:
                    if not p.returns:
                        continue
                    if is_const(p.outcome[1], False):
                        continue
                    ev = Evaluator(base_of(r), R.prog)
                    try:
                        ch = choices(p, ev)
                        bad = [c for c in ch if not (sc == "NodeLayerCollection" and not c.truth(p.outcome[1]))]
                    except Cannot as x:
                        und += 1
                        why = why or str(x)
                        continue
                    n += 1
                    if bad:
                        return R.bad("validate-covers", qual, "%s: a path ends in success" % desc, f.loc, trace=trace(p))
            if und:
                return R.unknown("validate-covers", qual, "%d decided, %d undecided: %s" % (n, und, why), f.loc)
            R.good("validate-covers", qual, "%d (path, region) pairs" % n, f.loc)
        R.guarded("validate-covers", qual, one)

    f = R.prog.func("Node.is_valid")

    def isv():
        def exc(en, fn, args, kw, st):
            if fn.op == "bound" and fn.a[1].a[0].endswith(".validate"):
                return mk("builtin", "AssertionError")
        en = R.engine(no_inline=("NodeLayerCollection.validate",), exc=exc)
        en, ps = R.paths(f, engine=en)
        bad = None
        for p in ps:
            failed = any(e.kind == "excall" for e in p.events)
            if not p.returns:
                continue
            v = p.value
            calls = [e for e in p.events if e.kind == "call" and show(e.a[0]).find("validate") >= 0]
            if failed and not (is_const(v, False) or is_const(v, None)):
                if v.op == "const":
                    bad = "a raised validation error ends in result %s" % show(v)
            elif not failed and v.op == "const" and bool(v.a[1]):
                falsy = any(g.op == "truth" and not b and any(g.a[0] is c.a[-1] for c in calls) for g, b in p.guards)
                truthy = any(g.op == "truth" and b and any(g.a[0] is c.a[-1] for c in calls) for g, b in p.guards)
                if falsy or not calls:
                    bad = "reports success without a successful validation"
        if bad:
            R.bad("validate-result", "Node.is_valid", bad, f.loc)
        else:
            R.good("validate-result", "Node.is_valid", "%d paths" % len(ps), f.loc)
    R.guarded("validate-result", "Node.is_valid", isv)


    R.guarded("validated", "documents", lambda: validated(R))
