"""C34: grouping by span assigns to each group the nodes whose span it intersects (or covers), each once."""
import itertools
from rules.store import *

Q = "group_by_span"


def check(R):
    R.rule("intersect", "over all relative positions of the spans (apart, touching, overlapping, nested, equal, empty) each group gets exactly the nodes whose span shares a position with its own, an empty span standing for its position, each node once")
    R.rule("cover", "with the cover resolution each group gets exactly the nodes whose span lies within its own, each node once")
    R.rule("empty groups", "groups without nodes are kept, with an entry for each layer, or dropped, as asked for")
    R.rule("fields", "the span is read from the field configured for the group nodes and for each layer; nodes without that field are left out")
    for res in ("intersect", "cover"):
        for n in ("pair", "two nodes", "two groups", "layers"):
            R.guarded(res, "%s, %s" % (Q, n), lambda res=res, n=n: positions(R, res, n))
    R.guarded("empty groups", Q, lambda: empties(R))
    R.guarded("fields", Q, lambda: fields(R))
    R.rule("shared", "a node listed under two names, by one span or by two, and a group node that is a layer node too, are assigned under each of them")
    R.guarded("shared", Q, lambda: shared(R))


SPANS = [(a, b) for a in range(4) for b in range(a, 4)]


def overlap(g, s):
    return g[0] < s[1] and s[0] < g[1]


def spec(g, s, res):
    """True, False or None (not said): an empty span stands for its position"""
    def at(x, y):
        return x[0] <= y[0] < x[1]
    meets = overlap(g, s) if g[0] < g[1] and s[0] < s[1] else g == s if g[0] == g[1] and s[0] == s[1] else at(g, s) if s[0] == s[1] else at(s, g)
    if res == "cover":
        inside = g[0] <= s[0] and s[1] <= g[1]
        return False if not inside else True if meets else None
    return meets


class World:
    def __init__(self, R):
        self.R = R
        self.f = R.prog.func(Q)
        if self.f is None:
            raise Cannot("no %s" % Q)
        self.m = Machine(R, {"TextSpan.start": lambda m, s: s.attrs["start"]}, store=True)
        self.n = 0

    def span(self, s):
        return Val("[%d:%d]" % s, ["TextSpan"], {"start": s[0], "stop": s[1], "_start": s[0], "_stop": s[1], "start_offset": s[0], "stop_offset": s[1]}, length=s[1] - s[0], truth=s[1] > s[0])

    def node(self, name, items):
        its = {k: self.span(v) if isinstance(v, tuple) else v for k, v in items.items()}
        v = Val(name, ["Node"], items=its, length=len(its))
        v.spans = items
        return v

    def mapping(self, name, items):
        v = Val(name, ["dict"], items=items, length=len(items), truth=bool(items))
        return v

    def nodes(self, name, xs):
        return Val(name, ["list"], elems=xs, length=len(xs), truth=bool(xs))

    def call(self, groups, layers, **kw):
        """[(group name, {layer: [node names]})] or a failure"""
        self.m.last = None
        self.n += 1
        try:
            r = self.m.run(self.f, [self.nodes("groups", groups), self.mapping("layer_nodes", {k: self.nodes(k, v) for k, v in layers.items()})], kw)
        except Fail as x:
            return x.name
        if not isinstance(r, Val) or r.elems is None:
            raise Cannot("result %r" % (r,))
        out = []
        for x in r.elems:
            if isinstance(x, Val) and x.elems is not None:
                x = tuple(x.elems)
            if not isinstance(x, tuple) or len(x) != 2 or not isinstance(x[0], Val) or not isinstance(x[1], Val) or not x[1].mapping:
                raise Cannot("group %r" % (x,))
            d = {}
            for k, v in x[1].items.items():
                if not isinstance(v, Val) or v.elems is None or not all(isinstance(y, Val) for y in v.elems):
                    raise Cannot("nodes of a group %r" % (v,))
                d[k] = [y.name for y in v.elems]
            out.append((x[0].name, d))
        return out

    def trace(self):
        return trace(self.m.last) if self.m.last else None


def compare(w, groups, layers, res, got, what, keep=True, gf="text", lf=lambda k: "text"):
    """reason for a difference, or None"""
    if isinstance(got, str):
        return "%s: fails with %s" % (what, got)
    gs = [g for g in groups if gf in g.spans]
    count = {}
    for n, d in got:
        count[n] = count.get(n, 0) + 1
    for g in gs:
        if count.get(g.name, 0) > 1:
            return "%s: %s is listed %d times" % (what, g.name, count[g.name])
    for n in count:
        if n not in [g.name for g in gs]:
            return "%s: %s is listed although it has no span" % (what, n)
    res_d = dict(got)
    for g in gs:
        d = res_d.get(g.name)
        sure = 0
        for k, ns in layers.items():
            have = [] if d is None else d.get(k)
            if have is None:
                return "%s: no entry for layer %s in %s" % (what, k, g.name)
            have = list(have)
            for x in ns:
                s = x.spans.get(lf(k))
                want = False if s is None else spec(g.spans[gf], s, res)
                c = have.count(x.name)
                if want is None and d is None:
                    continue
                if c > 1:
                    return "%s: %s is assigned %d times to %s" % (what, x.name, c, g.name)
                if want is True and not c:
                    return "%s: %s is not assigned to %s" % (what, x.name, g.name)
                if want is False and c:
                    return "%s: %s is assigned to %s" % (what, x.name, g.name)
                sure += want is not False
            if [x for x in have if x not in [y.name for y in ns]]:
                return "%s: layer %s of %s holds other nodes" % (what, k, g.name)
        if d is None and keep:
            return "%s: %s is missing from the result" % (what, g.name)
        if d is not None and not keep and not any(d.values()):
            return "%s: %s has no nodes but is kept" % (what, g.name)
    return None


def positions(R, res, n):
    w = World(R)
    g2 = [(0, 2), (1, 3), (0, 3), (2, 2), (1, 2), (0, 1), (0, 0)]
    if n == "pair":
        cases = [([g], {"a": [s]}) for g in SPANS for s in SPANS]
    elif n == "two nodes":
        cases = [([g], {"a": [s, t]}) for g in [(1, 2), (0, 2), (1, 1)] for s in SPANS for t in SPANS]
    elif n == "two groups":
        cases = [([g, h], {"a": [s]}) for g in g2 for h in g2 for s in [(0, 1), (1, 2), (0, 3), (2, 3), (1, 1), (2, 2)]]
    else:
        cases = [([g, h], {"a": [s], "b": [t]}) for g, h in [((0, 2), (1, 3)), ((0, 3), (1, 2)), ((1, 2), (1, 2)), ((2, 2), (0, 2))] for s in g2 for t in g2]
    for gs, ls in cases:
        groups = [w.node("group %d" % i, {"text": g}) for i, g in enumerate(gs)]
        layers = {k: [w.node("%s%d" % (k, i), {"text": s}) for i, s in enumerate(ss)] for k, ss in ls.items()}
        got = w.call(groups, layers, **({} if res == "intersect" and n == "pair" else {"resolution": res}))
        what = "%s of groups %s and nodes %s" % (res, ", ".join("[%d:%d]" % g for g in gs), "; ".join("%s %s" % (k, ", ".join("[%d:%d]" % s for s in ss)) for k, ss in ls.items()))
        r = compare(w, groups, layers, res, got, what)
        if r:
            return R.bad(res, "%s, %s" % (Q, n), r, w.f.loc, trace=w.trace())
    R.good(res, "%s, %s" % (Q, n), "%d arrangements" % len(cases), w.f.loc)


def empties(R):
    w = World(R)
    n = 0
    for res in ("intersect", "cover"):
        for keep in (True, False):
            for gs in ([(0, 1)], [(0, 2), (3, 5)], [(3, 5), (0, 2)], [(0, 2), (2, 3), (3, 5)]):
                for ls in ({}, {"a": []}, {"a": [(2, 3)]}, {"a": [], "b": [(0, 1)]}, {"a": [(1, 2)], "b": [(4, 5)]}, {"a": [(1, 4)]}):
                    groups = [w.node("group %d" % i, {"text": g}) for i, g in enumerate(gs)]
                    layers = {k: [w.node("%s%d" % (k, i), {"text": s}) for i, s in enumerate(ss)] for k, ss in ls.items()}
                    got = w.call(groups, layers, resolution=res, include_empty_groups=keep)
                    r = compare(w, groups, layers, res, got, "%s, %s empty groups, of groups %s and nodes %s" % (res, "keeping" if keep else "dropping", gs, ls), keep)
                    if r:
                        return R.bad("empty groups", Q, r, w.f.loc, trace=w.trace())
                    n += 1
    R.good("empty groups", Q, "%d arrangements" % n, w.f.loc)


def fields(R):
    w = World(R)
    n = 0
    for res in ("intersect", "cover"):
        for gf, lf in (("text", None), ("range", None), ("text", {"a": "pos", "b": "text"}), ("range", {"a": "text", "b": "pos"}), ("text", {"a": "text", "b": "text", "c": "pos"})):
            for miss in (None, "group", "a", "b", "none"):
                other = {"text": (5, 6), "pos": (7, 8), "range": (9, 9)}
                groups = [w.node("group %d" % i, dict(other, **{gf: g})) for i, g in enumerate([(0, 2), (1, 3)])]
                of = lambda k: "text" if lf is None else lf[k]
                layers = {k: [w.node("%s%d" % (k, i), dict(other, **{of(k): s})) for i, s in enumerate([(0, 1), (1, 2), (2, 3)])] for k in "ab"}
                if miss == "group":
                    del groups[0].items[gf], groups[0].spans[gf]
                    groups[0].length -= 1
                elif miss in ("a", "b"):
                    x = layers[miss][1]
                    del x.items[of(miss)], x.spans[of(miss)]
                    x.length -= 1
                kw = {"resolution": res}
                if gf != "text":
                    kw["group_span_field"] = gf
                if lf is not None:
                    kw["layer_span_field"] = w.mapping("layer_span_field", dict(lf))
                got = w.call(groups, layers, **kw)
                r = compare(w, groups, layers, res, got, "%s with group field %s and layer fields %s%s" % (res, gf, lf or "left out", "" if miss in (None, "none") else ", one node of %s without it" % miss), gf=gf, lf=of)
                if r:
                    return R.bad("fields", Q, r, w.f.loc, trace=w.trace())
                n += 1
    R.good("fields", Q, "%d arrangements" % n, w.f.loc)


def shared(R):
    w = World(R)
    n = 0
    for res in ("intersect", "cover"):
        for lf in (None, {"a": "text", "b": "pos"}, {"a": "pos", "b": "text"}):
            of = lambda k: "text" if lf is None else lf[k]
            for s, t in (((0, 1), (2, 3)), ((0, 1), (0, 1)), ((1, 2), (2, 3)), ((1, 3), (0, 1)), ((1, 1), (0, 2)), ((0, 3), (1, 2))):
                for case in ("both", "other first", "group"):
                    x = w.node("shared", {"text": s, "pos": t})
                    y = w.node("other", {"text": (1, 2), "pos": (1, 2)})
                    gs = [(0, 2), (1, 3)]
                    groups = [w.node("group %d" % i, {"text": g, "pos": g}) for i, g in enumerate(gs)]
                    layers = {"a": [x, y], "b": [x]} if case == "both" else {"a": [y], "b": [y, x]} if case == "other first" else {"a": [groups[0], x], "b": [groups[1], groups[0]]}
                    kw = {"resolution": res}
                    if lf is not None:
                        kw["layer_span_field"] = w.mapping("layer_span_field", dict(lf))
                    got = w.call(groups, layers, **kw)
                    r = compare(w, groups, layers, res, got, "%s of groups %s, layers %s (spans of the shared node: text %s, pos %s; layer fields %s)" % (
                        res, gs, {k: [q.name for q in v] for k, v in layers.items()}, s, t, lf or "left out"), lf=of)
                    if r:
                        return R.bad("shared", Q, r, w.f.loc, trace=w.trace())
                    n += 1
    R.good("shared", Q, "%d arrangements" % n, w.f.loc)
