"""C09: a query selects exactly the nodes that satisfy the predicate; predicates apply the operator they are written with."""
import itertools
import operator
from rules.common import *
from rules.docs import Spec
from machine import Machine, Fn, Fail

OPS = {"__eq__": operator.eq, "__ne__": operator.ne, "__lt__": operator.lt, "__le__": operator.le, "__gt__": operator.gt, "__ge__": operator.ge}


def field_value(t, node, key):
    """True: the value of the field the query is about; False: some other field of the node; None: not a field value"""
    if t.op == "dget" and t.a[0] is node or t.op == "item" and t.a[0] is node:
        return key(t.a[1])
    return None


def check(R):
    R.rule("compare", "each comparison of a field builds a predicate that applies this comparison to (node's value of that field, operand), on every ordering")
    R.rule("test", "is_none / has_value / is_any / filter test absence, presence, membership and the user's function on the node's value of that field")
    R.rule("logic", "&, | and ~ are and, or, not of the operand predicates")
    R.rule("select", "a query result holds, in collection order, exactly the nodes for which the predicate is true; updating recomputes it from collection and predicate")
    R.rule("index", "every node collection answers a string with that field and a predicate with a query over itself")
    R.rule("query", "queries over whole collections (layer, list, slice, list of positions, node span, earlier query), with values of several kinds, unset fields, "
                    "combined predicates and values that change before an update, give exactly the nodes, in order, for which the predicate is true")
    prog = R.prog
    node = sym("node", "Node")
    for coll in COLLECTIONS:
        for pname, p in PREDICATES.items():
            R.guarded("query", "%s: %s" % (coll, pname), lambda: query(R, coll, pname, p))
    for first, second in REQUERY:
        R.guarded("query", "%s, then %s" % (first, second), lambda: requery(R, first, second))
    R.guarded("query", "update", lambda: update(R))
    R.guarded("query", "empty", lambda: empty(R))

    def predicate(qual, args, regions, base_of, want, rule, cons, node_args=None):
        f = prog.func(qual)

        def go():
            en, ps = R.paths(f, args=args)
            me = params(en, f)[0]
            allp = []
            for p in ps:
                if p.returns:
                    for (o, a), v in p.st.heap.items():
                        if o is p.value and v.op == "obj" and v.a[1] == "gen":
                            return R.bad(rule, cons, "the predicate keeps a one-shot iterator in .%s: it is exhausted after the first node" % (a,), f.loc)
                    allp += then(en, p, f, p.value, "__call__", node_args or [node])
            if not allp:
                return R.unknown(rule, cons, "no predicate is returned", f.loc)

            def base2(pay):
                b = base_of(pay)

                def base(t, ev):
                    fv = field_value(t, node, lambda k: k.op == "attr" and k.a[1] == "field" and k.a[0].op == "sym" and k.a[0].a[0] == me)
                    if fv is True:
                        return pay["v"]
                    if fv is False:
                        raise Wrong("the predicate reads %s, not the queried field" % show(t))
                    return b(t, ev)
                return base

            def judge(pay, k, v, p):
                if k == "raise":
                    return "raises %s" % v
                if isinstance(v, Val):
                    return None
                if isinstance(v, T):
                    raise Cannot(show(v))
                w = want(pay)
                if bool(v) != w:
                    return "the predicate is %s, expected %s" % (bool(v), w)
            try:
                decision(R, rule, cons, allp, [(" ".join("%s=%s" % x for x in sorted(r.items())), r) for r in regions], base2, judge, f.loc)
            except Wrong as x:
                R.bad(rule, cons, str(x), f.loc)
        R.guarded(rule, cons, go)

    opnd = sym("operand")
    for m, op in OPS.items():
        regs = [{"v": v, "o": 1} for v in (0, 1, 2)]
        if m in ("__eq__", "__ne__"):
            regs += [{"v": None, "o": 1}, {"v": None, "o": None}, {"v": 1, "o": None}, {"v": "", "o": None}, {"v": 0, "o": None}]
        else:
            regs += [{"v": "b", "o": x} for x in "abc"]
        f = prog.func("NodeFieldCollection." + m)
        en0 = R.engine()
        oth = params(en0, f)[1]
        predicate("NodeFieldCollection." + m, {oth: opnd}, regs, lambda pay: (lambda t, ev: pay["o"] if t is opnd else NotImplemented),
                  lambda pay, op=op: op(pay["v"], pay["o"]), "compare", "NodeFieldCollection." + m)
    regs = [{"v": v} for v in (None, 0, 1, "", False)]
    predicate("NodeFieldCollection.is_none", {}, regs, lambda pay: notnone, lambda pay: pay["v"] is None, "test", "NodeFieldCollection.is_none")
    predicate("NodeFieldCollection.has_value", {}, regs, lambda pay: notnone, lambda pay: pay["v"] is not None, "test", "NodeFieldCollection.has_value")
    fa = prog.func("NodeFieldCollection.is_any")
    en0 = R.engine()
    kinds = {n: k for n, k, d in en0._params(fa.node)}
    var = [n for n in kinds if kinds[n] == "var"]
    if var:
        x, y = sym("item1"), sym("item2")
        regs = [{"v": v, "x": 1, "y": 3} for v in (0, 1, 2, 3, None)]
        predicate("NodeFieldCollection.is_any", {var[0]: mk("tuple", (x, y))}, regs,
                  lambda pay: (lambda t, ev: pay["x"] if t is x else pay["y"] if t is y else NotImplemented),
                  lambda pay: pay["v"] in (1, 3), "test", "NodeFieldCollection.is_any")
    fn = sym("cond")
    ff = prog.func("NodeFieldCollection.filter")
    pn = params(en0, ff)
    for truth in (True, False):
        def bfilter(pay):
            def base(t, ev):
                if t.op == "call" and t.a[0] is fn:
                    if len(t.a[1]) == 1 and ev.ev(t.a[1][0]) == 17 and not t.a[2]:
                        return pay["r"]
                    raise Wrong("the user's function is applied to %s" % show(t))
                return NotImplemented
            return base
        predicate("NodeFieldCollection.filter", {pn[1]: fn}, [{"v": 17, "r": truth}], bfilter, lambda pay: pay["r"], "test", "NodeFieldCollection.filter -> %s" % truth)

    fl = prog.func("NodeLayerCollection.filter")

    def lam():
        en = R.engine()
        pk = {n: k for n, k, d in en._params(fl.node)}
        v = [n for n in pk if pk[n] == "var"]
        o = [n for n in pk if pk[n] != "var"][1:]
        en, ps = R.paths(fl, args={v[0]: mk("tuple", (const("a"), const("b"))), o[0]: fn}, engine=en)
        cons = "NodeLayerCollection.filter"
        n = 0
        for p in ps:
            if not p.returns:
                continue
            for q in then(en, p, fl, p.value, "__call__", [node]):
                if not q.returns:
                    continue
                r = q.value
                if r.op == "call" and r.a[0] is fn:
                    n += 1
                    keys = [a.a[1] for a in r.a[1] if a.op in ("dget", "item") and a.a[0] is node]
                    if keys != [const("a"), const("b")] or len(r.a[1]) != 2:
                        if all(a.op in ("dget", "item") for a in r.a[1]):
                            return R.bad("test", cons, "the function is applied to %s for fields (a, b)" % ", ".join(show(a) for a in r.a[1]), fl.loc)
                        return R.unknown("test", cons, show(r), fl.loc)
                else:
                    return R.unknown("test", cons, show(r), fl.loc)
        if n:
            R.good("test", cons, "", fl.loc)
        else:
            R.unknown("test", cons, "no result", fl.loc)
    R.guarded("test", "NodeLayerCollection.filter", lam)

    # ---- logic
    P, Q = sym("p"), sym("q")
    for m, nargs, w in (("__and__", 2, lambda a, b: a and b), ("__or__", 2, lambda a, b: a or b), ("__invert__", 1, lambda a, b: not a)):
        for cls in [c for c in prog.classes.values() if any(getattr(k, "name", k) == "NodePredicate" for k in c.mro())]:
            f = cls.find(m)
            if f is None or f.cls is not cls and cls.name != "NodePredicate":
                continue

            def go(f=f, m=m, nargs=nargs, w=w, cls=cls):
                en = R.engine()
                pn = params(en, f)
                args = {pn[0]: P}
                if nargs == 2:
                    args[pn[1]] = Q
                en, ps = R.paths(f, args=args, engine=en)
                allp = []
                for p in ps:
                    if p.returns:
                        allp += then(en, p, f, p.value, "__call__", [node])

                def base_of(pay):
                    def base(t, ev):
                        if t.op == "call" and len(t.a[1]) >= 1 and t.a[1][0] is node:
                            s = {x for x in walk(t.a[0]) if x is P or x is Q}
                            if s == {P}:
                                return pay[0]
                            if s == {Q}:
                                return pay[1]
                        return NotImplemented
                    return base

                def judge(pay, k, v, p):
                    if k == "raise":
                        return "raises %s" % v
                    if isinstance(v, (Val, T)):
                        raise Cannot(str(v))
                    if bool(v) != w(*pay):
                        return "gives %s, expected %s" % (bool(v), w(*pay))
                decision(R, "logic", cls.name + "." + m, allp, [("p=%s q=%s" % r, r) for r in itertools.product((True, False), repeat=2)], base_of, judge, f.loc)
            R.guarded("logic", cls.name + "." + m, go)

    # ---- selection
    elems = [Val("n%d" % i, {"Node"}, truth=True) for i in range(3)]
    call = {"c": None}

    def selection(cons, qual, coll_of, pred_of, f):
        def go():
            en, ps = R.paths(f)
            pn = params(en, f)
            done = 0
            for p in ps:
                if not p.returns:
                    continue
                res = p.st.heap.get((next((k[0] for k in p.st.heap if k[0].op == "sym" and k[0].a[0] == pn[0]), sym(pn[0])), "result"))
                if res is None:
                    return R.bad("select", cons, "a path ends without computing the result", f.loc, trace=trace(p))
                term = en.freeze(res, p.st)
                for pat in itertools.product((True, False), repeat=3):
                    cv = Val("collection", {"NodeCollection"}, length=3, elems=elems)

                    def base(t, ev):
                        if coll_of(t, pn):
                            return cv
                        if t.op == "call" and pred_of(t.a[0], pn):
                            x = ev.ev(t.a[1][0])
                            if x in elems:
                                return pat[elems.index(x)]
                        return NotImplemented
                    try:
                        got = Evaluator(base, prog).ev(term)
                    except Cannot as x:
                        return R.unknown("select", cons, str(x), f.loc)
                    want = tuple(e for e, b in zip(elems, pat) if b)
                    if not isinstance(got, tuple):
                        return R.unknown("select", cons, "result %r" % (got,), f.loc)
                    if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
                        return R.bad("select", cons, "for nodes whose predicate is %s the result is %s" % (list(pat), [repr(x) for x in got]), f.loc, trace=trace(p))
                    done += 1
            if done:
                R.good("select", cons, "%d patterns" % done, f.loc)
            else:
                R.unknown("select", cons, "no path", f.loc)
        R.guarded("select", cons, go)

    fi = prog.func("NodeCollectionQuery.__init__")
    selection("NodeCollectionQuery.__init__", "", lambda t, pn: t.op == "sym" and t.a[0] == pn[1] or t.op == "attr" and t.a[1] == "collection",
              lambda t, pn: t.op == "sym" and t.a[0] == pn[2] or t.op in ("meth", "attr") and t.a[1] == "predicate", fi)
    fu = prog.func("NodeCollectionQuery.update")
    selection("NodeCollectionQuery.update", "", lambda t, pn: t.op == "attr" and t.a[1] == "collection",
              lambda t, pn: t.op in ("meth", "attr") and t.a[1] == "predicate", fu)

    def attrs():
        en, ps = R.paths(fi)
        pn = params(en, fi)
        me = sym(pn[0])
        for p in ps:
            if not p.returns:
                continue
            h = {k[1]: v for k, v in p.st.heap.items() if k[0].op == "sym" and k[0].a[0] == pn[0]}
            c = h.get("collection")
            q = h.get("predicate")
            t = h.get("fieldtypes")
            for nm, v, want in (("collection", c, pn[1]), ("predicate", q, pn[2])):
                if v is not None and v.op == "sym" and v.a[0] != want:
                    return R.bad("select", "NodeCollectionQuery attributes", "%s is set to %s" % (nm, show(v)), fi.loc)
            if t is None or t is NONE:
                return R.bad("index", "NodeCollectionQuery.__init__", "the query result gets no field types, so its fields cannot be queried", fi.loc)
            if not (t.op == "attr" and t.a[1] in ("fieldtypes", "fields")):
                return R.unknown("index", "NodeCollectionQuery.__init__", show(t), fi.loc)
        R.good("index", "NodeCollectionQuery.__init__", "", fi.loc)
    R.guarded("index", "NodeCollectionQuery.__init__", attrs)

    for m, want in (("__iter__", "iterates the result"), ("__len__", "length of the result")):
        f = prog.func("NodeCollectionQuery." + m)

        def acc(f=f, m=m):
            en, ps = R.paths(f)
            rv = Val("result", {"list"}, length=3, elems=elems)

            def base(t, ev):
                if t.op == "attr" and t.a[1] == "result":
                    return rv
                return NotImplemented
            for p in ps:
                if p.raises:
                    continue
                v = p.outcome[1]
                if m == "__iter__" and any(e.kind == "yield" for e, _ in all_events(p.events)):
                    return R.unknown("select", "NodeCollectionQuery." + m, "generator", f.loc)
                try:
                    r = Evaluator(base, prog).ev(en.freeze(v, p.st))
                except Cannot as x:
                    return R.unknown("select", "NodeCollectionQuery." + m, str(x), f.loc)
                got = list(r.elems) if isinstance(r, Val) and r.elems else list(r) if isinstance(r, tuple) else r
                if got != (elems if m == "__iter__" else 3):
                    return R.bad("select", "NodeCollectionQuery." + m, "%s expected, got %r" % (want, got), f.loc)
            R.good("select", "NodeCollectionQuery." + m, "", f.loc)
        R.guarded("select", "NodeCollectionQuery." + m, acc)

    # ---- indexing of every collection kind
    for c in [c for c in prog.classes.values() if any(getattr(k, "name", k) == "NodeCollection" for k in c.mro())]:
        f = c.find("__getitem__")
        if f is None:
            continue
        cons = c.name + "[...]"

        def go(f=f, c=c, cons=cons):
            en = R.engine(attr_hook=None)
            pn = params(en, f)
            key = sym("key", "str")
            for kind in ("field", "predicate"):
                arg = const("f") if kind == "field" else sym("pred", "NodePredicate")
                en2 = R.engine()
                en2, ps = R.paths(f, args={pn[1]: arg}, self_cls=c, engine=en2)
                n = 0
                for p in ps:
                    if p.raises or any(g.op == "isinst" and g.a[0] is arg and b for g, b in p.guards if kind == "predicate"):
                        continue
                    v = p.outcome[1]
                    if v.op != "obj":
                        if v.op == "item" and kind == "field":
                            continue
                        return R.unknown("index", cons, "result %s" % show(v), f.loc)
                    cls = v.a[2]
                    h = p.st.heap
                    if kind == "field":
                        if cls == "NodeFieldCollection":
                            n += 1
                            if h.get((v, "field")) is not arg:
                                return R.bad("index", cons, "field %s is looked up as %s" % (show(arg), show(h.get((v, "field"), NONE))), f.loc, trace=trace(p))
                            if not (h.get((v, "collection")) is not None and h[(v, "collection")].op == "sym" and h[(v, "collection")].a[0] == pn[0]):
                                return R.bad("index", cons, "the field is taken from %s" % show(h.get((v, "collection"), NONE)), f.loc, trace=trace(p))
                    elif cls == "NodeCollectionQuery":
                        n += 1
                        if not (h[(v, "collection")].op == "sym" and h[(v, "collection")].a[0] == pn[0]):
                            return R.bad("index", cons, "the query runs over %s" % show(h[(v, "collection")]), f.loc, trace=trace(p))
                        if h[(v, "predicate")] is not arg:
                            return R.bad("index", cons, "the query applies %s" % show(h[(v, "predicate")]), f.loc, trace=trace(p))
                if not n:
                    return R.unknown("index", cons, "no %s lookup recognised" % kind, f.loc)
            R.good("index", cons, "", f.loc)
        R.guarded("index", cons, go)


# ------------------------------------------------------------------ whole queries
FIELDS = {"f": ("I32", {}), "s": ("STRING", {}), "g": ("I32", {})}
NODES = [{"f": 1, "s": "abc", "g": 5}, {"s": "a", "g": 0}, {"f": 2, "g": 5}, {"f": None, "s": ""}, {"f": 0, "s": "b", "g": 7},
         {"f": True, "s": "abc", "g": 1}, {"f": 2.5, "s": "bc"}, {"f": 1.0, "s": "ab", "g": 5}, {"f": [1, 2], "s": "c", "g": 2}, {"f": 3, "g": None}]
ORD = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}
DUNDER = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__", "==": "__eq__", "!=": "__ne__"}
SET = ("f", "has")
PREDICATES = {
    "f == 1": ("f", "==", 1), "f == 2.5": ("f", "==", 2.5), "f == None": ("f", "==", None), "f != None": ("f", "!=", None), "f != 1": ("f", "!=", 1), "f == 'abc'": ("f", "==", "abc"),
    "s == 'a'": ("s", "==", "a"), "s != 'a'": ("s", "!=", "a"), "s == ''": ("s", "==", ""), "f is none": ("f", "none"), "f has a value": SET, "g is none": ("g", "none"),
    "s has a value": ("s", "has"), "s any 'abc'": ("s", "any", "abc"), "s any 'a', 'b'": ("s", "any", "a", "b"), "s any none": ("s", "any"), "s any (None)": ("s", "any", None),
    "f any 0, 2": ("f", "any", 0, 2), "f any [1, 2]": ("f", "any", [1, 2]), "f any 7": ("f", "any", 7), "f any None, 1": ("f", "any", None, 1),
    "g > 1 where set": ("and", ("g", "has"), ("g", ">", 1)), "g >= 5 where set": ("and", ("g", "has"), ("g", ">=", 5)), "g < 5 where set": ("and", ("g", "has"), ("g", "<", 5)),
    "g <= 5 where set": ("and", ("g", "has"), ("g", "<=", 5)), "unset or g > 1": ("or", ("g", "none"), ("g", ">", 1)), "s < 'b' where set": ("and", ("s", "has"), ("s", "<", "b")),
    "not f == 1": ("not", ("f", "==", 1)), "not set": ("not", SET), "f == 1 or s == 'a'": ("or", ("f", "==", 1), ("s", "==", "a")), "f == 1 and g == 5": ("and", ("f", "==", 1), ("g", "==", 5)),
    "not (f == 1 and g == 5)": ("not", ("and", ("f", "==", 1), ("g", "==", 5))), "not (f == 1 or g == 5)": ("not", ("or", ("f", "==", 1), ("g", "==", 5))),
    "(set and f == 2) or (s == 'b' and not g == 1)": ("or", ("and", SET, ("f", "==", 2)), ("and", ("s", "==", "b"), ("not", ("g", "==", 1)))),
    "not not f == 2": ("not", ("not", ("f", "==", 2))), "filter on s": ("s", "filter", lambda v: v is not None and len(v) == 2), "filter on f": ("f", "filter", lambda v: v is None),
    "filter giving a number": ("g", "filter", lambda v: v), "filter on s and f": ("fields", ("s", "f"), lambda s, f: s == "abc" and f is not None or f == 2),
    "filter on f and s": ("fields", ("f", "s"), lambda f, s: (f, s) == (None, "a")), "a function": ("fn", lambda n: n.get("g") == 5),
}
COLLECTIONS = {"layer": lambda m, L: (L, range(len(NODES))), "list": lambda m, L: (m.invoke(L, "to_list"), range(len(NODES))), "slice": lambda m, L: (m.invoke(L, "__getitem__", slice(2, 8)), range(2, 8)),
               "list slice": lambda m, L: (m.invoke(m.invoke(L, "to_list"), "__getitem__", slice(1, 9)), range(1, 9)),
               "positions": lambda m, L: (m.invoke(m.invoke(L, "to_list"), "__getitem__", made("list", [7, 3, 0, 1, 5])), [7, 3, 0, 1, 5]),
               "node span": lambda m, L: (m.new("NodeSpan", L.elems[1], L.elems[8]), range(1, 9)), "query": lambda m, L: (select(m, L, SET), [0, 2, 4, 5, 6, 7, 8, 9]),
               "list of a query": lambda m, L: (m.invoke(select(m, L, SET), "to_list"), [0, 2, 4, 5, 6, 7, 8, 9]),
               "query of a list": lambda m, L: (select(m, m.invoke(L, "to_list"), ("s", "has")), [0, 1, 3, 4, 5, 6, 7, 8]),
               "query of a node span": lambda m, L: (select(m, m.new("NodeSpan", L.elems[0], L.elems[6]), ("g", "has")), [0, 1, 2, 4, 5])}
REQUERY = [(a, b) for a in ("layer", "positions", "query of a list", "node span") for b in ("f == 1", "not f == 1", "g >= 5 where set", "f any 0, 2")]


def world(R):
    m = Machine(R, store=True)
    doc = Spec("queries", {}, {}, [("L", FIELDS, [{k: v for k, v in n.items() if k != "f"} for n in NODES])]).build()
    L = m.layer = doc.attrs["_layers"].items["L"]
    for x, n in zip(L.elems, NODES):
        x.items.update({k: made("list", v) if isinstance(v, list) else v for k, v in n.items()})
        x.length = len(x.items)
    return m, L


def made(kind, xs):
    return Val(kind, [kind], elems=list(xs), length=len(xs), truth=bool(xs))


def val(v):
    return made("list", v) if isinstance(v, list) else v


def build(m, c, p):
    """the predicate object for p, with the fields of collection c"""
    if p[0] == "fn":
        return Fn("condition", lambda mm, n: p[1](dict(n.items)))
    if p[0] == "not":
        return m.invoke(build(m, c, p[1]), "__invert__")
    if p[0] in ("and", "or"):
        return m.invoke(build(m, c, p[1]), "__%s__" % p[0], build(m, c, p[2]))
    if p[0] == "fields":
        return m.invoke(m.layer, "filter", *p[1], fn=Fn("condition", lambda mm, *xs: p[2](*xs)))
    f = m.invoke(c, "__getitem__", p[0])
    o = p[1]
    if o in DUNDER:
        return m.invoke(f, DUNDER[o], val(p[2]))
    if o == "filter":
        return m.invoke(f, "filter", Fn("condition", lambda mm, x: p[2](x)))
    if o == "any":
        return m.invoke(f, "is_any", *[val(x) for x in p[2:]])
    return m.invoke(f, {"none": "is_none", "has": "has_value"}[o])


def holds(p, n):
    if p[0] == "fn":
        return bool(p[1](n))
    if p[0] == "not":
        return not holds(p[1], n)
    if p[0] == "and":
        return holds(p[1], n) and holds(p[2], n)
    if p[0] == "or":
        return holds(p[1], n) or holds(p[2], n)
    if p[0] == "fields":
        return bool(p[2](*[n.get(f) for f in p[1]]))
    v = n.get(p[0])
    o = p[1]
    return bool(ORD[o](v, p[2]) if o in ORD else p[2](v) if o == "filter" else v in p[2:] if o == "any" else (v is None) == (o == "none"))


def select(m, c, p):
    return m.invoke(c, "__getitem__", build(m, c, p))


def result(m, q):
    """the nodes a query result yields"""
    xs = m.drain(q)
    n = m.invoke(q, "__len__")
    if n != len(xs):
        return xs, "reports %r nodes and yields %d" % (n, len(xs))
    return xs, None


def differs(L, m, q, want, nodes=NODES):
    """None or how the query result differs from the expected nodes"""
    if not isinstance(q, Val) or "NodeCollectionQuery" not in q.classes:
        if q is None or isinstance(q, (bool, int, str)):
            return "gives %r" % (q,)
        raise Cannot("query result %r" % (q,))
    xs, r = result(m, q)
    if r:
        return r
    want = [L.elems[i] for i in want]
    if len(xs) != len(want) or any(a is not b for a, b in zip(xs, want)):
        return "selects %s instead of %s" % ([name(L, x) for x in xs], [name(L, x) for x in want])


def name(L, x):
    for i, y in enumerate(L.elems):
        if x is y:
            return i
    return repr(x)


def attempt(R, cons, fn, loc):
    try:
        r = fn()
    except Fail as x:
        r = "ends with %s" % x.name
    if r:
        return R.bad("query", cons, r, loc)
    R.good("query", cons, "%d nodes" % len(NODES), loc)


def query(R, coll, pname, p):
    loc = R.prog.func("NodeCollectionQuery.__init__").loc

    def go():
        m, L = world(R)
        c, idx = COLLECTIONS[coll](m, L)
        return differs(L, m, select(m, c, p), [i for i in idx if holds(p, NODES[i])])
    attempt(R, "%s: %s" % (coll, pname), go, loc)


def requery(R, first, second):
    """the result of a query over a query, and its fields"""
    p = PREDICATES[second]

    def go():
        m, L = world(R)
        c, idx = COLLECTIONS[first](m, L)
        q1 = select(m, c, ("s", "has"))
        want1 = [i for i in idx if NODES[i].get("s") is not None]
        q2 = select(m, q1, p)
        want2 = [i for i in want1 if holds(p, NODES[i])]
        r = differs(L, m, q1, want1) or differs(L, m, q2, want2)
        if r:
            return r
        l = m.invoke(q2, "to_list")
        q3 = select(m, l, ("f", "has"))
        r = differs(L, m, q3, [i for i in want2 if NODES[i].get("f") is not None])
        if r:
            return "as a list " + r
        vs = m.drain(m.invoke(m.invoke(q2, "__getitem__", "s"), "to_list"))
        if vs != [NODES[i].get("s") for i in want2]:
            return "its field s gives %s instead of %s" % (vs, [NODES[i].get("s") for i in want2])
    attempt(R, "%s, then %s" % (first, second), go, R.prog.func("NodeCollectionQuery.__init__").loc)


def update(R):
    def go():
        m, L = world(R)
        q = select(m, L, ("f", "==", 1))
        q2 = select(m, q, ("g", "==", 5))
        now = [dict(n) for n in NODES]
        for i, k, v in ((0, "f", 4), (2, "f", 1), (3, "f", 1), (3, "g", 5), (7, "g", 6)):
            now[i][k] = v
            L.elems[i].items[k] = v
            L.elems[i].length = len(L.elems[i].items)
        del now[5]["f"], L.elems[5].items["f"]
        L.elems[5].length -= 1
        m.invoke(q, "update")
        want = [i for i, n in enumerate(now) if n.get("f") == 1]
        r = differs(L, m, q, want)
        if r:
            return "after an update, " + r
        m.invoke(q2, "update")
        r = differs(L, m, q2, [i for i in want if now[i].get("g") == 5])
        return "after an update of a query of a query, " + r if r else None
    attempt(R, "update", go, R.prog.func("NodeCollectionQuery.update").loc)


def empty(R):
    """nothing selected: still a collection with the fields of its origin"""
    def go():
        for coll in COLLECTIONS:
            m, L = world(R)
            c, idx = COLLECTIONS[coll](m, L)
            q = select(m, c, ("f", "==", 99))
            r = differs(L, m, q, []) or differs(L, m, select(m, q, ("s", "has")), []) or differs(L, m, select(m, m.invoke(q, "to_list"), ("s", "has")), [])
            if r:
                return "from a %s, %s" % (coll, r)
            if m.drain(m.invoke(m.invoke(q, "__getitem__", "g"), "to_list")):
                return "the field of an empty result has values"
    attempt(R, "empty", go, R.prog.func("NodeCollectionQuery.__init__").loc)


class Wrong(Exception):
    pass


def notnone(t, ev):
    """None.__ne__(v)"""
    if t.op == "call" and t.a[0].op == "meth" and t.a[0].a[0] is NONE and len(t.a[1]) == 1:
        v = ev.ev(t.a[1][0])
        if t.a[0].a[1] == "__ne__":
            return v is not None
        if t.a[0].a[1] == "__eq__":
            return v is None or True      # NotImplemented is truthy
    return NotImplemented
