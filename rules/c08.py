"""C08: removed nodes never reappear: what the accessors yield, decided over every pattern of remaining nodes and gaps."""
import itertools
from rules.common import *
from effects import events

MAXN = 4


def patterns():
    for n in range(MAXN + 1):
        yield from itertools.product((True, False), repeat=n)


def layer_of(pattern):
    nodes = []
    L = Val("layer", ["NodeLayerCollection"])
    for i, b in enumerate(pattern):
        nodes.append(Val("n%d" % i, ["Node"], {"_id": i, "collection": L}) if b else None)
    k = sum(pattern)
    L.attrs.update({"_nodes": Val("slots", ["list"], elems=nodes, length=len(nodes), truth=bool(nodes)), "num": k, "fieldtypes": Val("ft"),
                    "_schema": Val("schema", ["NodeLayerSchema"], {"fields": Val("fields", ["dict"], items={}, length=0), "name": "L"})})
    L.length, L.truth = k, k > 0
    L.elems = [n for n in nodes if n is not None]
    return L, nodes


def desc(pattern):
    return "slots [%s]" % ", ".join("node" if b else "gap" for b in pattern)


def base_for(syms):
    def base(t, ev):
        if t.op == "sym":
            return syms.get(t.a[0], NotImplemented)
        if t.op == "item" and t.a[1].op == "slice":
            x = ev.ev(t.a[0])
            if isinstance(x, Val) and x.name == "slots":
                xs = x.elems[ev.ev(t.a[1])]
                return Val("slots", ["list"], elems=xs, length=len(xs), truth=bool(xs))
        if t.op == "item" and t.a[0].op != "slice":
            x = ev.ev(t.a[0])
            if isinstance(x, Val) and x.name == "slots":
                k = ev.ev(t.a[1])
                if isinstance(k, slice):
                    xs = x.elems[k]
                    return Val("slots", ["list"], elems=xs, length=len(xs), truth=bool(xs))
                if isinstance(k, int) and not -len(x.elems) <= k < len(x.elems):
                    raise Raised("IndexError")
        if t.op == "call" and t.a[0].op == "class" and t.a[0].a[0] == "NodeList" and t.a[1]:
            return ev.ev(t.a[1][0])
        if t.op == "call" and t.a[0].op == "builtin" and t.a[0].a[0] in ("list", "tuple", "iter") and len(t.a[1]) == 1:
            x = ev.ev(t.a[1][0])
            if isinstance(x, Val):
                if x.elems is None:
                    return NotImplemented
                return tuple(x.elems)
            return x
        return NotImplemented
    return base


def seq(v):
    if isinstance(v, Val):
        return v.elems
    return list(v) if isinstance(v, (list, tuple)) else None


def name(v):
    return "a removed node's placeholder" if v is None else repr(v)


def check(R):
    R.rule("accessor", "over every arrangement of remaining nodes and gaps, the accessor yields only remaining nodes, in order, and all of them")
    R.rule("no-placeholder", "an entry of the node slots is never dereferenced where it can be the placeholder of a removed node")
    R.rule("compact-first", "sorting and encoding work on slots without gaps")
    R.rule("reads", "after every removal pattern of a real layer, left by removing one by one, several at once or from both ends, every way of reading (iteration, first and last, neighbours, spans, "
           "slices, lists, queries, field values, pandas export), sorting and retaining gives the remaining nodes and nothing else")
    R.guarded("reads", "NodeLayerCollection", lambda: reads(R))
    prog = R.prog
    nodesof = lambda pt: layer_of(pt)

    def seq_judge(want):
        def judge(pay, k, v, p):
            if k != "ret":
                return "fails with %s" % v
            xs = seq(v)
            if xs is None:
                raise Cannot("result %r" % (v,))
            w = want(pay)
            if any(x is None for x in xs):
                return "yields the placeholder of a removed node"
            if [id(x) for x in xs] != [id(x) for x in w]:
                return "yields %s instead of %s" % ([repr(x) for x in xs], [repr(x) for x in w])
        return judge

    def one_judge(want):
        def judge(pay, k, v, p):
            w = want(pay)
            if k != "ret":
                return "fails with %s" % v
            if v is not w:
                return "gives %s instead of %s" % (name(v), "nothing" if w is None else repr(w))
        return judge

    def run(qual, regions, judge, setup, rule="accessor"):
        f = prog.func(qual)
        if f is None:
            return
        def go():
            en, ps = R.paths(f)
            ps = frozen(en, ps)
            decision(R, rule, qual, ps, regions, lambda pay: base_for(setup(f, en, pay)), judge, f.loc)
        R.guarded(rule, qual, go)

    lays = [(desc(pt), layer_of(pt)) for pt in patterns()]
    live = lambda pay: [n for n in pay[1] if n is not None]
    me = lambda f, en, pay: {params(en, f)[0]: pay[0]}
    run("NodeLayerCollection.__iter__", lays, seq_judge(live), me)
    run("NodeLayerCollection.first", lays, one_judge(lambda p: (live(p) or [None])[0]), me)
    run("NodeLayerCollection.last", lays, one_judge(lambda p: (live(p) or [None])[-1]), me)

    def len_judge(pay, k, v, p):
        if k != "ret":
            return "fails with %s" % v
        if v != len(live(pay)):
            return "gives %r for %d remaining nodes" % (v, len(live(pay)))
    run("NodeLayerCollection.__len__", lays, len_judge, me)

    single = [("%s, node %d" % (d, n.attrs["_id"]), (L, ns, n)) for d, (L, ns) in lays for n in ns if n is not None]
    def nb(pay, step):
        L, ns, n = pay[:3]
        xs = [x for x in ns if x is not None]
        j = xs.index(n) + step if False else [i for i, x in enumerate(xs) if x is n][0] + step
        return xs[j] if 0 <= j < len(xs) else None
    two = lambda f, en, pay: dict(zip(params(en, f), [pay[0], pay[2]]))
    run("NodeLayerCollection.left", single, one_judge(lambda p: nb(p, -1)), two)
    run("NodeLayerCollection.right", single, one_judge(lambda p: nb(p, 1)), two)
    own = lambda f, en, pay: dict(zip(params(en, f), [pay[2]]))
    run("Node.left", single, one_judge(lambda p: nb(p, -1)), own)
    run("Node.right", single, one_judge(lambda p: nb(p, 1)), own)

    pairs = [("%s, nodes %d and %d" % (d, a.attrs["_id"], b.attrs["_id"]), (L, ns, a, b)) for d, (L, ns) in lays
             for a in ns if a is not None for b in ns if b is not None]
    ordered = [x for x in pairs if x[1][2].attrs["_id"] <= x[1][3].attrs["_id"]]
    def between(pay):
        i, j = sorted((pay[2].attrs["_id"], pay[3].attrs["_id"]))
        return [n for n in pay[1][i:j + 1] if n is not None]
    run("NodeLayerCollection.iter_nodespan", ordered, seq_judge(between), lambda f, en, pay: dict(zip(params(en, f), [pay[0], pay[2], pay[3]])))
    run("Node.iter_span", pairs, seq_judge(between), lambda f, en, pay: dict(zip(params(en, f), [pay[2], pay[3]])))
    span = lambda f, en, pay: {params(en, f)[0]: Val("span", ["NodeSpan"], {"left": pay[2], "right": pay[3]})}
    run("NodeSpan.__iter__", ordered, seq_judge(between), span)

    def slen(pay, k, v, p):
        if k != "ret":
            return "fails with %s" % v
        if v != len(between(pay)):
            return "gives %r for %d remaining nodes" % (v, len(between(pay)))

    def span_elems(f, en, pay):
        s = span(f, en, pay)
        for v in s.values():
            v.elems = between(pay)
            v.length = len(v.elems)
        return s
    run("NodeSpan.__len__", ordered, slen, span_elems)

    # slices: whatever slots they address, no placeholder comes out
    sl = [("%s[%s:%s]" % (d, a, b), (L, ns, slice(a, b))) for d, (L, ns) in lays for a in (None, 0, 1, 2, -1) for b in (None, 0, 2, 4, -1)]

    def slice_judge(pay, k, v, p):
        if k != "ret":
            return "fails with %s" % v
        xs = seq(v)
        if xs is None:
            raise Cannot("result %r" % (v,))
        if any(x is None for x in xs):
            return "yields the placeholder of a removed node"
    run("NodeLayerCollection.__getitem__", sl, slice_judge, two)

    table(R)
    nullflow(R)
    R.guarded("compact-first", "NodeLayerCollection.sort", lambda: sort_rule(R))
    R.guarded("compact-first", "Document.compile", lambda: compile_rule(R))
    R.guarded("compact-first", "Codec.encode", lambda: encode_rule(R))


def table(R):
    """pandas export: every column has one cell per remaining node"""
    f = R.prog.func("NodeLayerCollection.to_pandas")
    if f is None:
        return

    def go():
        en, ps = R.paths(f)
        frames = []
        for p in ps:
            for e in p.events:
                if e.kind == "call" and e.a[0].op == "ext" and e.a[0].a[0].split(".")[-1] == "DataFrame":
                    v = dict(e.a[2]).get("data") or (e.a[1][0] if e.a[1] else None)
                    if v is None:
                        raise Cannot("arguments of DataFrame")
                    frames.append(Path(p.st, ("ret", en.freeze(v, p.st))))
        if not frames:
            return R.unknown("accessor", f.qual, "no table construction recognised", f.loc)
        fields = {"a": Val("TA", ["DataType"], {"typename": E("SPAN")}), "b": Val("TB", ["DataType"], {"typename": E("I32")})}
        regs = []
        for pt in patterns():
            for mat in (True, False):
                for ref in (True, False):
                    L, ns = layer_of(pt)
                    L.attrs["_schema"].attrs["fields"] = Val("fields", ["dict"], items=fields, length=2)
                    regs.append(("%s, materialize_spans=%s, include_ref_field=%s" % (desc(pt), mat, ref), (L, ns, mat, ref)))
        pn = params(en, f)

        def base_of(pay):
            L, ns, mat, ref = pay
            b0 = base_for(dict(zip(pn, [L, None, mat, ref])))

            def base(t, ev):
                if t.op == "ite":
                    return NotImplemented
                if t.op in ("dget", "call") and t.op == "call" and t.a[0].op in ("meth", "bound", "vmeth") and t.a[0].a[1] in ("get",):
                    x = ev.ev(t.a[0].a[0])
                    if x is None:
                        raise Raised("AttributeError")
                    return ("cell", x.name)
                if t.op == "dget":
                    x = ev.ev(t.a[0])
                    if x is None:
                        raise Raised("AttributeError")
                    if isinstance(x, Val) and "Node" in x.classes:
                        return ("cell", x.name)
                if t.op in ("in", "notin"):
                    y = ev.ev(t.a[1])
                    if y is None:
                        raise Raised("TypeError")
                    if isinstance(y, Val) and "Node" in y.classes:
                        return t.op == "in"
                if t.op == "call" and t.a[0].op == "builtin" and t.a[0].a[0] == "str":
                    ev.ev(t.a[1][0])
                    return ("str",)
                if t.op == "item":
                    x = ev.ev(t.a[0])
                    if x is None:
                        raise Raised("TypeError")
                    if isinstance(x, Val) and "Node" in x.classes:
                        return ("cell", x.name)
                return b0(t, ev)
            return base

        def judge(pay, k, v, p):
            n = sum(1 for x in pay[1] if x is not None)
            if k != "ret":
                return "fails with %s" % v
            if not isinstance(v, dict):
                raise Cannot("table %r" % (v,))
            for c, xs in v.items():
                ys = seq(xs)
                if ys is None:
                    raise Cannot("column %r" % (xs,))
                if len(ys) != n:
                    return "column %r has %d cells for %d remaining nodes" % (c, len(ys), n)
                if c == "__ref" and any(y is None for y in ys):
                    return "column %r holds the placeholder of a removed node" % c
        decision(R, "accessor", f.qual, frames, regs, base_of, judge, f.loc)
    R.guarded("accessor", f.qual, go)


# ------------------------------------------------------------------ null flow
def raw(x):
    """an entry of the node slots taken directly: (slots term)"""
    if x.op == "elem":
        D = x.a[0]
    elif x.op == "item" and x.a[1].op != "slice":
        D = x.a[0]
    else:
        return None
    if D.op == "item" and D.a[1].op == "slice":
        D = D.a[0]
    return D if D.op == "attr" and D.a[1] == "_nodes" else None


def derefs(t):
    """raw entries that evaluating t dereferences (contents of containers are judged by their own guards)"""
    out = []
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T):
            if isinstance(x, tuple):
                st.extend(x)
            continue
        if x.op in ("list", "set", "map", "for", "forp"):
            continue
        if x.op in ("attr", "meth", "vmeth", "bound", "item", "dget") and x.a and isinstance(x.a[0], T) and raw(x.a[0]) is not None:
            out.append(x.a[0])
        st.extend(x.a)
    return out


def known(x, guards):
    for g, b in guards:
        if g.op == "is" and g.a[0] is x and g.a[1] is NONE and not b:
            return True
        if g.op == "is" and g.a[0] is x and g.a[1] is not NONE and b:
            return True
        if g.op in ("truth", "isinst") and g.a[0] is x and b:
            return True
        if g is x and b:
            return True
        if g.op == "eq" and b and {"len", "attr"} == {g.a[0].op, g.a[1].op}:
            l, n = (g.a[0], g.a[1]) if g.a[0].op == "len" else (g.a[1], g.a[0])
            if n.a[1] == "num" and l.a[0].op == "attr" and l.a[0].a[1] == "_nodes" and l.a[0].a[0] is n.a[0]:
                return True
        # the same entry tested at an earlier point (no write in between: paths with writes are not looked at)
        if g.op == "is" and not b and g.a[1] is NONE and g.a[0].op == x.op == "item" and g.a[0].a[:2] == x.a[:2]:
            return True
    return False


def writes_slots(evs):
    for e, nest in events(evs):
        if e.kind in ("setattr",) and e.a[1] == "_nodes":
            return True
        if e.kind in ("setitem", "delitem", "mut") and isinstance(e.a[0], T) and e.a[0].op == "attr" and e.a[0].a[1] == "_nodes":
            return True
        if e.kind == "call" and any(isinstance(z, T) and z.op == "func" and z.a[0].endswith(".compact") for z in walk(e.a[0])):
            return True
    return False


def nullflow(R):
    """functions that touch the node slots directly"""
    import ast
    for f in sorted(R.prog.funcs, key=lambda f: f.qual):
        if not any(isinstance(n, ast.Attribute) and n.attr == "_nodes" and isinstance(n.ctx, ast.Load) for n in ast.walk(f.node)):
            continue

        def go(f=f):
            en, ps = R.paths(f, no_inline=("NodeLayerCollection.validate", "NodeLayerCollection.compact"))
            n = 0
            for p in ps:
                evs, own = list(p.events), None
                if writes_slots(evs):
                    # what is read before the first write, and in the first round of the loop that writes
                    j = next(i for i, e in enumerate(evs) if writes_slots([e]))
                    evs, own = evs[:j + 1], evs[j]

                def visit(guards, ts, evs, outer, since=None):
                    nonlocal n
                    acc = list(outer)
                    if since is not None:
                        cut = next((i for i, e in enumerate(evs) if writes_slots([e])), None)
                        evs = evs if cut is None else evs[:cut]
                    for g, b in guards:
                        for x in derefs(g):
                            if since is not None and not (x.op == "elem" and x.a[1] == since or x.op == "item" and x.a[2] == ("L", since)):
                                continue
                            n += 1
                            if not known(x, acc):
                                return x, acc
                        acc.append((g, b))
                    for t in ts:
                        for x in derefs(t):
                            n += 1
                            if not known(x, acc):
                                return x, acc
                    for e in evs:
                        if e.kind == "loop":
                            for lp in e.a[0].paths:
                                r = visit(lp.guards, (), lp.events, acc, e.a[0].L if e is own else since)
                                if r:
                                    return r
                        elif e is own:
                            continue
                        elif e.kind not in ("raise",):
                            for x in derefs(tuple(y for y in e.a if isinstance(y, (T, tuple)))):
                                n += 1
                                if not known(x, acc):
                                    return x, acc
                    return None
                r = visit(p.guards if own is None else (), [p.outcome[1]] if own is None and isinstance(p.outcome[1], T) else [], evs, [])
                if r:
                    return R.bad("no-placeholder", f.qual, "%s can be the placeholder of a removed node and is dereferenced" % show(r[0])[:120],
                                 f.loc, trace=[("" if b else "not ") + show(g)[:200] for g, b in r[1]][:12])
            R.good("no-placeholder", f.qual, "%d uses of a slot's entry, each known to be a node" % n, f.loc)
        R.guarded("no-placeholder", f.qual, go)


def gapfree(p, upto=None):
    """has this path established that the slots hold no gap (before event upto)?"""
    for g, b in p.guards:
        if g.op == "eq" and b and any(z.op == "len" for z in g.a) and any(z.op == "attr" and z.a[1] == "num" for z in g.a):
            return True
    for e in p.events:
        if upto is not None and e is upto:
            return False
        if e.kind == "call" and any(isinstance(z, T) and z.op == "func" and z.a[0].endswith(".compact") for z in walk(e.a[0])):
            return True
        if e.kind == "call" and e.a[0].op in ("meth", "vmeth", "bound") and e.a[0].a[1] == "compact":
            return True
    return False


def sort_rule(R):
    f = R.prog.func("NodeLayerCollection.sort")
    if f is None:
        return
    en, ps = R.paths(f, no_inline=("NodeLayerCollection.compact",))
    n = 0
    for p in ps:
        for e in p.events:
            hit = None
            if e.kind in ("setattr", "call", "mut"):
                for z in walk(mk("tuple", tuple(y for y in e.a if isinstance(y, T)))):
                    if z.op == "call" and z.a[0].op == "builtin" and z.a[0].a[0] == "sorted" and z.a[1]:
                        hit = z.a[1][0]
                if e.kind == "mut" and e.a[1] == "sort":
                    hit = e.a[0]
            if hit is None:
                continue
            if hit.op == "attr" and hit.a[1] == "_nodes":
                n += 1
                if not gapfree(p, e):
                    return R.bad("compact-first", f.qual, "sorts the slots while they can hold placeholders of removed nodes, which are handed "
                                 "to the key function", f.loc, trace=trace(p))
            elif hit.op in ("list", "sym") or hit.op == "obj":
                n += 1
    if n:
        R.good("compact-first", f.qual, "%d sorts of gap-free slots" % n, f.loc)
    else:
        R.unknown("compact-first", f.qual, "no sort recognised", f.loc)


def is_compact(e):
    return e.kind == "call" and (any(isinstance(z, T) and z.op == "func" and z.a[0].endswith("NodeLayerCollection.compact") for z in walk(e.a[0]))
                                 or e.a[0].op in ("meth", "vmeth", "bound") and e.a[0].a[1] == "compact")


def compile_rule(R):
    """compile leaves every layer without gaps and its nodes numbered 0..n-1"""
    f = R.prog.func("Document.compile")
    if f is None:
        return
    en, ps = R.paths(f, no_inline=("NodeLayerCollection.compact", "NodeLayerCollection.validate", "Document._verify_references"))
    n = 0
    for p in ps:
        if p.raises:
            continue
        n += 1
        found = False
        for e, nest in events(p.events):
            if not is_compact(e) or not nest:
                continue
            li, lp = nest[0]
            d = li.dom
            while d.op == "view":
                d = d.a[1]
            if d.op == "attr" and d.a[1] in ("_layers",) and all(any(is_compact(x) for x, _ in events(q.events)) for q in li.paths if q.outcome == "next"):
                found = True
        if not found:
            # renumbering done by hand is C06's business
            if any(is_compact(e) for e, _ in events(p.events)):
                return R.bad("compact-first", f.qual, "a layer can leave compilation with gaps between its nodes: compact is not reached for every layer",
                             f.loc, trace=trace(p))
            if not writes_slots(p.events):
                return R.bad("compact-first", f.qual, "no layer is compacted before its nodes' positions are encoded", f.loc, trace=trace(p))
            return R.unknown("compact-first", f.qual, "closes gaps in another way", f.loc)
    R.good("compact-first", f.qual, "%d paths compact every layer" % n, f.loc)


def encode_rule(R):
    f = R.prog.func("Codec.encode")
    if f is None:
        return
    en, ps = R.paths(f, no_inline=("Document.compile", "Text.compile", "DataType.encode"))
    n = 0
    for p in ps:
        done = False
        for e, nest in events(p.events):
            if e.kind == "call" and any(isinstance(z, T) and z.op == "func" and z.a[0].endswith("Document.compile") for z in walk(e.a[0])):
                if not nest:
                    done = True
            if e.kind == "loop" and not done:
                d = e.a[0].dom
                if any(z.op == "attr" and z.a[1] == "_layers" for z in walk(d)):
                    return R.bad("compact-first", f.qual, "layers are encoded without the document having been compiled (gaps closed, nodes numbered)",
                                 f.loc, trace=trace(p))
        n += done
    if n:
        R.good("compact-first", f.qual, "%d paths compile the document before encoding its layers" % n, f.loc)
    else:
        R.unknown("compact-first", f.qual, "no compilation recognised", f.loc)


# ------------------------------------------------------------------ reads of real layers
def reads(R):
    import itertools
    from rules.world import World, names, list_val, Fn
    from machine import Fail
    loc = R.prog.func("NodeLayerCollection.__iter__").loc
    w = World(R, 5 if R.tier == "thorough" else 4)
    m, L = w.m, w.L
    frames = []

    def frame(m, data=None, **kw):
        frames.append(data)
        return data
    m.externals["pandas.DataFrame"] = frame
    n = 0
    unread = {}

    def lists(o, what):
        """(what, function giving a value, the nodes or values it should have)"""
        inv = lambda x, name, *a, **kw: m.invoke(x, name, *a, **kw)
        yield "iteration", lambda: L, o
        yield "to_list", lambda: inv(L, "to_list"), o
        yield "layer[:]", lambda: inv(L, "__getitem__", slice(None, None)), o
        yield "layer[::-1]", lambda: inv(L, "__getitem__", slice(None, None, -1)), o[::-1]
        yield "the values of a", lambda: inv(L, "__getitem__", "a"), [x.items["a"] for x in o]
        yield "the list of the values of a", lambda: inv(inv(L, "__getitem__", "a"), "to_list"), [x.items["a"] for x in o]
        for v in (3, 0, 4):
            yield "layer[layer['a'] == %d]" % v, lambda v=v: inv(L, "__getitem__", inv(inv(L, "__getitem__", "a"), "__eq__", v)), [x for x in o if x.items["a"] == v]
            yield "layer[layer['a'] != %d]" % v, lambda v=v: inv(L, "__getitem__", inv(inv(L, "__getitem__", "a"), "__ne__", v)), [x for x in o if x.items["a"] != v]
        yield "layer[layer['a'].has_value()]", lambda: inv(L, "__getitem__", inv(inv(L, "__getitem__", "a"), "has_value")), o
        yield "layer[layer['a'].is_none()]", lambda: inv(L, "__getitem__", inv(inv(L, "__getitem__", "a"), "is_none")), []
        for col, want in (("a", [x.items["a"] for x in o]), ("__ref", o)):
            yield "the column %s of to_pandas" % col, lambda col=col: inv(L, "to_pandas").items[col], want
        for i, x in enumerate(o):
            for j in range(i, len(o)):
                y = o[j]
                yield "the nodes from %s to %s" % (x.name, y.name), lambda x=x, y=y: inv(x, "iter_span", y), o[i:j + 1]
                yield "the node span %s, %s" % (x.name, y.name), lambda x=x, y=y: m.new("NodeSpan", x, y), o[i:j + 1]
                yield "the list of the node span %s, %s" % (x.name, y.name), lambda x=x, y=y: inv(m.new("NodeSpan", x, y), "to_list"), o[i:j + 1]

    def ones(o):
        inv = m.invoke
        yield "first", lambda: inv(L, "first"), o[0] if o else None
        yield "last", lambda: inv(L, "last"), o[-1] if o else None
        for i, x in enumerate(o):
            yield "the left of " + x.name, lambda x=x: w.prop(x, "left"), o[i - 1] if i else None
            yield "the right of " + x.name, lambda x=x: w.prop(x, "right"), o[i + 1] if i + 1 < len(o) else None
        if len(o) > 1:
            yield "the length of the node span of all", lambda: inv(m.new("NodeSpan", o[0], o[-1]), "__len__"), len(o)
        yield "the length of the list", lambda: inv(inv(L, "to_list"), "__len__"), len(o)

    def same(x, y):
        return x is y or isinstance(x, (int, str)) and type(x) is type(y) and x == y

    def read(o, what):
        nonlocal n
        for r, fn, want in lists(o, what):
            n0 = len(m.log)
            try:
                xs = m.drain(fn())
            except Fail as x:
                return "%s: %s fails with %s" % (what, r, x.name)
            except Cannot as x:
                unread.setdefault(r.split(" ")[0], str(x))
                continue
            finally:
                m.undo(n0)
            n += 1
            if len(xs) != len(want) or not all(map(same, xs, want)):
                return "%s: %s gives %s instead of %s" % (what, r, names(xs), names(want))
        for r, fn, want in ones(o):
            n0 = len(m.log)
            try:
                x = fn()
            except Fail as z:
                return "%s: %s fails with %s" % (what, r, z.name)
            except Cannot as z:
                unread.setdefault(r.split(" ")[0], str(z))
                continue
            finally:
                m.undo(n0)
            n += 1
            if not same(x, want):
                return "%s: %s is %s instead of %s" % (what, r, x, want)

    def then(o, what):
        """reads after sorting and retaining as well"""
        why = read(o, what)
        if why:
            return why
        key = lambda x: x.items["a"]
        for k, fn, o2 in (("sort by a", lambda: m.invoke(L, "sort", Fn("key", lambda m, x: key(x))), sorted(o, key=key)),
                          ("retain(all)", lambda: m.invoke(L, "retain", list_val(list(o), "all")), o),
                          ("retain(first)", lambda: m.invoke(L, "retain", list_val(o[:1], "first")), o[:1]),
                          ("adding one", lambda: m.invoke(L, "add", w.free[0]), o + [w.free[0]])):
            n0 = len(m.log)
            try:
                fn()
                xs = m.drain(L)
                if len(xs) != len(o2) or not all(map(same, xs, o2)):
                    return "%s, %s: iteration gives %s instead of %s" % (what, k, names(xs), names(o2))
                if k != "retain(first)" or R.tier == "thorough":
                    why = read(o2, "%s, %s" % (what, k))
                    if why:
                        return why
            except Fail as x:
                return "%s: %s fails with %s" % (what, k, x.name)
            finally:
                m.undo(n0)

    for k in range(len(w.nodes) + 1):
        for gone in itertools.combinations(w.nodes, k):
            for how in ("one by one", "backwards", "at once"):
                if k < 2 and how != "at once":
                    continue
                n0 = len(m.log)
                try:
                    if how == "at once":
                        m.invoke(L, "remove", list_val(list(gone), "gone"))
                    else:
                        for x in gone if how == "one by one" else gone[::-1]:
                            m.invoke(L, "remove", x)
                    o = [x for x in w.nodes if not any(x is g for g in gone)]
                    why = then(o, "%s removed %s" % (names(gone), how))
                finally:
                    m.undo(n0)
                if why:
                    return R.bad("reads", "NodeLayerCollection", why, loc)
    if unread:
        return R.unknown("reads", "NodeLayerCollection", "%d reads, not understood: %s" % (n, unread), loc)
    R.good("reads", "NodeLayerCollection", "%d reads" % n, loc)
