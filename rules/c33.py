"""C33: equality is consistent with hashing for model objects; node equality is identity; comparisons change nothing."""
import itertools
from rules.common import *
from effects import persistent, path_root, cache_attr, attr_of
from program import Class

CMPM = ("__eq__", "__ne__", "__hash__", "__lt__", "__le__", "__gt__", "__ge__")
OTHER = ("TextSpan.covered_by", "TextSpan.intersected_by", "DataType.cast_up_possible", "DataType.is_valid", "DataTypes.matches")


def builtin_base(inner):
    """valuation of hash/id/str of abstract values on top of `inner`"""
    def base(t, ev):
        if t.op == "call" and t.a[0].op == "builtin" and (not t.a[2] or t.a[0].a[0] == "sorted"):
            n = t.a[0].a[0]
            if n == "hash" and len(t.a[1]) == 1:
                return ("hash", freeze(ev.ev(t.a[1][0]), ev))
            if n == "id" and len(t.a[1]) == 1:
                v = ev.ev(t.a[1][0])
                return ("id", v.name if isinstance(v, Val) else repr(v))
            if n == "sorted" and t.a[1]:
                v = ev.ev(t.a[1][0])
                if isinstance(v, (list, tuple)):
                    return tuple(sorted(v, key=repr))
            if n in ("tuple", "list", "frozenset") and len(t.a[1]) == 1:
                v = ev.ev(t.a[1][0])
                if isinstance(v, (list, tuple)):
                    return tuple(v) if n != "frozenset" else ("fs", tuple(sorted(v, key=repr)))
            if n in ("repr", "str") and len(t.a[1]) == 1:
                v = ev.ev(t.a[1][0])
                if not isinstance(v, Val):
                    return str(v) if n == "str" else repr(v)
        if t.op == "call" and t.a[0].op == "umeth" and not t.a[2]:
            o, m = t.a[0].a
            vs = [ev.ev(x) for x in t.a[1]]
            o = getattr(o, "a", [o])[0] if isinstance(o, T) else o
            if m == "__hash__" and o == "object":
                return ("id", vs[0].name)
            if m in ("__eq__", "__ne__") and o == "object":
                return (vs[0] is vs[1]) == (m == "__eq__")
            if m in ("__eq__", "__ne__") and o == "dict" and all(isinstance(v, Val) and v.mapping for v in vs):
                return (vs[0].items == vs[1].items) == (m == "__eq__")
        if t.op == "view":
            v = ev.ev(t.a[1])
            if isinstance(v, dict):
                return tuple(getattr(v, t.a[0])())
        return inner(t, ev)
    return base


def freeze(v, ev):
    if isinstance(v, Val):
        c = sorted(v.classes)
        return ("hash-of", v.name) if not c else ("hash-of", v.name)
    if isinstance(v, (tuple, list)):
        return tuple(freeze(x, ev) for x in v)
    if isinstance(v, dict):
        raise Raised("TypeError: unhashable")
    return v


def check(R):
    R.rule("node-identity", "Node == holds exactly for the same node, != is its negation (also against the dict base class), whatever the fields are")
    R.rule("hash-eq", "whenever two spans, types, offsets or nodes compare equal their hashes are equal; hashing never fails")
    R.rule("hashable", "a model class that defines equality also defines a hash (Python removes the inherited one)")
    R.rule("pure", "comparing or hashing a model object writes to no existing object")
    prog = R.prog

    def binary(c, meth, regions, judge, rule, cons):
        f = c.find(meth)
        if f is None:
            return R.unknown(rule, cons, "not defined")
        en, ps = R.paths(f, self_cls=c)
        pn = params(en, f)

        def base_of(pay):
            bind = dict(zip(pn, pay[:len(pn)]))
            return builtin_base(lambda t, ev: bind.get(t.a[0], NotImplemented) if t.op == "sym" else NotImplemented)
        return decision(R, rule, cons, ps, regions, base_of, judge, f.loc)

    # ---- nodes
    Node = prog.cls("Node")
    lay = Val("layer", {"NodeLayerCollection"}, {"name": "L"}, truth=True)
    lay2 = Val("layer2", {"NodeLayerCollection"}, {"name": "M"}, truth=True)

    def node(n, col, i, items):
        return Val(n, {"Node", "dict"}, {"collection": col, "_id": i, "i": i}, truth=bool(items), items=dict(items), length=len(items))
    nodes = []
    for k, (col, i, it) in enumerate(itertools.product((lay, lay2, None), (0, 1), ({}, {"x": 1}, {"x": 2}))):
        nodes.append(node("n%d" % k, col, i if col is not None else -1, it))
        nodes.append(node("m%d" % k, col, i if col is not None else -1, it))
    regs = [("%s%s/%s and %s%s/%s" % (a.name, a.items, a.attrs["_id"], b.name, b.items, b.attrs["_id"]), (a, b)) for a, b in itertools.product(nodes[:24], nodes[:24])]

    def jn(want_eq):
        def j(pay, k, v, p):
            same = pay[0] is pay[1]
            if k == "raise":
                return "raises %s" % v
            if not isinstance(v, bool):
                raise Cannot("result %r" % (v,))
            if v != (same if want_eq else not same):
                return "answers %s for %s" % (v, "the same node" if same else "two different nodes")
        return j
    own = {}
    for m in ("__eq__", "__ne__", "__hash__"):
        own[m] = Node.find(m)
        loc = Node.node.lineno
        if own[m] is None and m != "__ne__":
            R.bad("node-identity", "Node." + m, "nodes inherit %s from dict" % m, prog.func("Node.__init__").loc)
    if own["__eq__"]:
        R.guarded("node-identity", "Node.__eq__", lambda: binary(Node, "__eq__", regs, jn(True), "node-identity", "Node.__eq__"))
    if own["__ne__"]:
        R.guarded("node-identity", "Node.__ne__", lambda: binary(Node, "__ne__", regs, jn(False), "node-identity", "Node.__ne__"))
    elif any(getattr(k, "name", k) == "dict" for k in Node.mro()):
        R.bad("node-identity", "Node.__ne__", "not defined: nodes inherit != from dict, which compares the fields", own["__eq__"].loc if own["__eq__"] else None)
    else:
        R.good("node-identity", "Node.__ne__", "derived from ==")

    # ---- hash consistency
    def heq(cn, objs, inst=None):
        c = prog.cls(cn)
        fe, fh = c.find("__eq__"), c.find("__hash__")
        if fe is None and fh is None:
            return R.good("hash-eq", cn, "identity")
        if fe is not None and fh is None:
            return R.bad("hashable", cn, "defines __eq__ but no __hash__", fe.loc)
        if fe is None:
            return R.unknown("hash-eq", cn, "hash without equality", fh.loc)
        en, ph = R.paths(fh, self_cls=c)
        en2, pe = R.paths(fe, self_cls=c)
        hn, (ea, eb) = params(en, fh)[0], params(en2, fe)[:2]
        hv = {}
        n = 0
        for o in objs:
            ev = Evaluator(builtin_base(lambda t, e: o if t.op == "sym" and t.a[0] == hn else NotImplemented), prog)
            try:
                rs = {r for r, p in results(ph, ev)}
            except Cannot as x:
                return R.unknown("hash-eq", cn, "hash: %s" % x, fh.loc)
            if len(rs) != 1:
                return R.unknown("hash-eq", cn, "hash not determined", fh.loc)
            r = rs.pop()
            if r == ("ret", None):
                r = ("raise", "TypeError: __hash__ returns None")
            if r[0] == "raise":
                return R.bad("hash-eq", cn, "hashing %s raises %s" % (o.name, r[1]), fh.loc)
            hv[id(o)] = r
        for a, b in itertools.product(objs, objs):
            ev = Evaluator(builtin_base(lambda t, e: {ea: a, eb: b}.get(t.a[0], NotImplemented) if t.op == "sym" else NotImplemented), prog)
            try:
                rs = [r for r, p in results(pe, ev)]
                eq = {bool(r[1]) if not isinstance(r[1], Val) and r[1] is not mk("builtin", "NotImplemented") else None for r in rs if r[0] == "ret"}
            except Cannot as x:
                return R.unknown("hash-eq", cn, "equality: %s" % x, fe.loc)
            n += 1
            if eq == {True} and hv[id(a)] != hv[id(b)]:
                return R.bad("hash-eq", cn, "%s equals %s but their hashes are %s and %s" % (a.name, b.name, hv[id(a)][1], hv[id(b)][1]), fh.loc)
            if a is b and eq == {False}:
                return R.bad("hash-eq", cn, "%s is not equal to itself" % a.name, fe.loc)
        R.good("hash-eq", cn, "%d pairs" % n, fh.loc)

    R.guarded("hash-eq", "Node", lambda: heq("Node", nodes))

    def stable():
        c = prog.cls("Node")
        fh = c.find("__hash__")
        en, ph = R.paths(fh, self_cls=c)
        hn = params(en, fh)[0]
        seen = set()
        for n in nodes:
            o = Val("the node", n.classes, n.attrs, n.truth, n.items, n.length)
            seen |= {r for r, p in results(ph, Evaluator(builtin_base(lambda t, e: o if t.op == "sym" and t.a[0] == hn else NotImplemented), prog))}
        if len(seen) > 1:
            return R.bad("node-identity", "Node.__hash__", "the hash of a node changes when the node is edited or its layer renumbered: %s" % sorted(map(str, seen))[:3], fh.loc)
        R.good("node-identity", "Node.__hash__", "the same in %d states of the node" % len(nodes), fh.loc)
    R.guarded("node-identity", "Node.__hash__", stable)

    # spans: the raw fields and the constructor-time copies agree unless a method moves one without the other
    sync = {}

    def moved():
        c = prog.cls("TextSpan")
        pairs = [("_start", "start_offset"), ("_stop", "stop_offset")]
        for m in c.methods.values():
            if m.node.name == "__init__":
                continue
            en, ps = R.paths(m)
            me = params(en, m)[0]
            for p in ps:
                if p.raises:
                    continue
                for a, b in pairs:
                    s = mk("sym", me, "TextSpan")
                    va = [v for (o, n), v in p.st.heap.items() if o.op == "sym" and o.a[0] == me and n == a]
                    vb = [v for (o, n), v in p.st.heap.items() if o.op == "sym" and o.a[0] == me and n == b]
                    wr = [e for e in p.events if e.kind == "setattr" and e.a[1] in (a, b) and e.a[0].op == "sym" and e.a[0].a[0] == me]
                    if wr and (va != vb or not va):
                        sync[a] = m.loc
    R.guarded("hash-eq", "TextSpan fields", moved)

    def spans():
        t1 = Val("main", {"Text"}, {"name": "main", "text": "aaaa"}, truth=True)
        t2 = Val("alt", {"Text"}, {"name": "alt", "text": "bbbb"}, truth=True)
        objs = []
        free = (0, 1) if sync else (0,)
        for t, a, b, d in itertools.product((t1, t2), (0, 1, 2), (0, 1, 2, 3), free):
            if a <= b:
                objs.append(Val("span(%s,%d,%d)%s" % (t.name, a, b, "moved" if d else ""), {"TextSpan"},
                                {"_start": a, "_stop": b, "start_offset": a - d if "_start" in sync else a, "stop_offset": b + d if "_stop" in sync else b,
                                 "text": t, "start": a, "stop": b}, truth=a < b, length=b - a))
        objs += [Val(o.name + "'", o.classes, dict(o.attrs), o.truth, length=o.length) for o in objs]
        heq("TextSpan", objs)
    R.guarded("hash-eq", "TextSpan", spans)

    def offsets():
        objs = [Val("offset %d/%d" % (v, r), {"Offset"}, {"offset": v, "id": i, "_refcnt": r}, truth=True) for i, (v, r) in enumerate(itertools.product((0, 1, 5), (0, 1, 2)))]
        heq("Offset", objs)
    R.guarded("hash-eq", "Offset", offsets)

    for c in [prog.cls("DataType")] + [c for c in prog.classes.values() if c.derives(prog.cls("DataType")) and c is not prog.cls("DataType")]:
        def types(c=c):
            objs = []
            optv = [{}, {"default": 1}, {"default": None}, {"layer": "a", "default": 1}, {"default": 1, "layer": "a"}, {"layer": "b"}]
            for k in ("I32", "I64", "EXT"):
                for i, o in enumerate(optv):
                    objs.append(Val("%s%s" % (k, o), {c.name}, {"typename": E(k), "options": o}, truth=True))
                    objs.append(Val("%s%s'" % (k, o), {c.name}, {"typename": E(k), "options": dict(o)}, truth=True))
            heq(c.name, objs)
        if c.name == "DataType" or "__eq__" in c.methods or "__hash__" in c.methods:
            if "__eq__" in c.methods and "__hash__" not in c.methods:
                R.bad("hashable", c.name, "defines __eq__ but no __hash__: its instances cannot be hashed", c.methods["__eq__"].loc)
                continue
            R.guarded("hash-eq", c.name, types)

    # ---- comparisons are effect free
    for cn in ("Node", "TextSpan", "Text", "NodeSpan", "NodeList", "Offset", "NodeLayerCollection", "NodeLayerSchema", "ExtData") + \
            tuple(c.name for c in prog.classes.values() if c.derives(prog.cls("DataType"))):
        c = prog.classes.get(cn)
        if c is None:
            continue
        for m in CMPM:
            f = c.methods.get(m)
            if f is None:
                continue
            R.guarded("pure", f.qual, lambda f=f, c=c: pure_of(R, f, c))
            if m == "__eq__" and cn not in ("NodeList",) and "__hash__" not in c.methods:
                R.bad("hashable", cn, "defines __eq__ but no __hash__", f.loc)
    for q in OTHER:
        try:
            f = prog.func(q)
        except Exception:
            continue
        R.guarded("pure", q, lambda f=f: pure_of(R, f, f.cls))


def pure_of(R, f, c):
    en, ps = R.paths(f, self_cls=c)
    for e, b, p in persistent(en, ps):
        r, acc = path_root(b)
        if r.op == "sym":
            if cache_attr(R.prog, attr_of(e, b)):
                return R.unknown("pure", f.qual, "writes %s, which may be a memo" % attr_of(e, b), e.loc)
            return R.bad("pure", f.qual, "writes to %s" % show(b)[:100], e.loc, trace=trace(p))
    R.good("pure", f.qual, "%d paths" % len(ps), f.loc)
