"""C22: breadth-first and depth-first traversals consider each reachable node once and hand out nodes in the defined order."""
import itertools
from rules.store import *

BIG = [
    "abe bc cd de e",               # a shortcut: e is near although it is reached last over b
    "abc bd cd d",                  # two ways to d
    "abcd be ce de e",
    "abc bde cfg d e f g",          # a tree
    "abc bde cef d e f",            # shared leaf
    "abc bdc cd da",                # a cycle back to the start
    "aab bba",                      # loops on a node
    "abbc bcc c",                   # a child listed twice
    "abcd bcd cd d",
    "ab bc cd de ef f",
    "abc bcd cbe de eda",
    "acb bd ce dc eb",
    "a", "ab b", "aaa",
]


def small():
    for t in itertools.product(("", "a", "b", "c", "bc", "cb"), repeat=3):
        yield " ".join(n + c for n, c in zip("abc", t))


def parse(s):
    return {w[0]: list(w[1:]) for w in s.split()}


def bfs_spec(g, start):
    out, seen, level, d = [], {start}, [start], 0
    while level:
        out += [(d, n) for n in level]
        nxt = []
        for n in level:
            for c in g[n]:
                if c not in seen:
                    seen.add(c)
                    nxt.append(c)
        level, d = nxt, d + 1
    return out


def dfs_spec(g, n, seen=None):
    seen = set() if seen is None else seen
    seen.add(n)
    out = [n]
    for c in g[n]:
        if c not in seen:
            out += dfs_spec(g, c, seen)
    return out


KINDS_ = {"bfs": lambda g: bfs_spec(g, "a"), "dfs": lambda g: dfs_spec(g, "a"), "dfs_leaves": lambda g: [n for n in dfs_spec(g, "a") if not g[n]]}


def check(R):
    R.rule("order", "on every directed graph over three nodes and a choice of larger ones (cycles, loops, shared and repeated children) the traversal hands out the reachable nodes, each once, in the defined order and depth; the children of each are asked for once")
    R.rule("filter", "with a filter exactly the accepted ones of these are handed out, and the rest of the graph is still traversed")
    R.rule("children", "the children of a node over one or several fields are those over each of its fields, in the order of the fields")
    for q in KINDS_:
        for rule, keep in (("order", None), ("filter", "ace"), ("filter", "bd"), ("filter", "")):
            R.guarded(rule, q, lambda q=q, rule=rule, keep=keep: traversal(R, q, rule, keep))
    R.guarded("children", "children_of", lambda: children(R))


class World:
    def __init__(self, R):
        self.m = Machine(R, {}, store=True)
        self.nodes = {}

    def graph(self, s):
        g = parse(s)
        self.nodes = {n: Val(n, ["Node"], items={}, length=0) for n in g}
        self.asked = []

        def kids(m, n):
            self.asked.append(n.name)
            m.log.append((None, self.asked.pop, None))
            xs = [self.nodes[c] for c in g[n.name]]
            return Val("children of %s" % n.name, ["list"], elems=xs, length=len(xs), truth=bool(xs))
        return g, Fn("children", kids)


def traversal(R, q, rule, keep):
    f = R.prog.func(q)
    if f is None:
        raise Cannot("no %s" % q)
    w = World(R)
    m = w.m
    n = 0
    for s in BIG + (list(small()) if keep is None or keep == "ace" else []):
        g, kids = w.graph(s)
        args = [w.nodes["a"], kids]
        want = KINDS_[q](g)
        if keep is not None:
            args.append(Fn("is_result", lambda m, x: x.name in keep))
            want = [x for x in want if (x[1] if q == "bfs" else x) in keep]
        m.last = None
        out, failed = m.generate(f, args)
        what = "graph %s%s" % (" ".join("%s->%s" % (k, ",".join(v)) for k, v in g.items() if v) or "a", "" if keep is None else " accepting %s" % (keep or "none"))
        t = trace(m.last) if m.last else None
        if failed:
            return R.bad(rule, q, "%s: fails with %s" % (what, failed), f.loc, trace=t)
        got = [value(x) for x in out]
        if got != want:
            return R.bad(rule, q, "%s: hands out %s, expected %s" % (what, text(got), text(want)), f.loc, trace=t)
        reach = sorted(x[1] for x in bfs_spec(g, "a"))
        if sorted(w.asked) != reach and (len(set(w.asked)) != len(w.asked) or set(reach) - set(w.asked)):
            return R.bad(rule, q, "%s: asks for the children of %s" % (what, ", ".join(w.asked)), f.loc)
        n += 1
    R.good(rule, "%s%s" % (q, "" if keep is None else " accepting %s" % (keep or "none")), "%d graphs" % n, f.loc)


def value(x):
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], Val):
        return (x[0], x[1].name)
    if isinstance(x, Val):
        return x.name
    raise Cannot("handed out %r" % (x,))


def text(xs):
    return ", ".join("%s at %d" % (x[1], x[0]) if isinstance(x, tuple) else x for x in xs) or "nothing"


def children(R):
    f = R.prog.func("children_of")
    if f is None:
        raise Cannot("no children_of")
    K = {"one": "NODEREF", "two": "NODEREF", "many": "NODEREF_MANY", "more": "NODEREF_MANY", "text": "STRING"}
    n = 0
    kids = {k: Val(k, ["Node"], items={}, length=0) for k in "uvwxyz"}
    arr = lambda xs: Val("array " + xs, ["list"], elems=[kids[x] for x in xs], length=len(xs), truth=bool(xs))
    nodes = [{"one": kids["u"], "many": arr("vw")}, {"many": arr("")}, {"more": arr("xx"), "two": kids["y"]}, {}, {"one": kids["u"], "two": kids["u"], "many": arr("uz"), "more": arr("z"), "text": "t"}]
    names = {"one": "u", "two": "y"}
    for props in [("one",), ("many",), ("one", "many"), ("many", "one"), ("one", "two"), ("many", "more"), ("two", "more", "one"), ("one", "many", "two", "more"), ("more", "many", "one")]:
        m = Machine(R, {}, store=True)
        fields = Val("fields", ["dict"], items={k: Val("type of %s" % k, ["DataType"], {"typename": E(v)}) for k, v in K.items()})
        fields.length = len(fields.items)
        sch = Val("schema", ["NodeLayerSchema"], {"fields": fields})
        layer = Val("layer", ["NodeLayerCollection"], {"_schema": sch, "schema": sch})
        try:
            fn = m.run(f, [layer] + list(props))
        except Fail as x:
            return R.bad("children", "children_of", "children over %s: fails with %s" % (", ".join(props), x.name), f.loc)
        if not isinstance(fn, Fn):
            raise Cannot("children function %r" % (fn,))
        for items in nodes + nodes[:1]:
            nd = Val("node", ["Node"], items=dict(items), length=len(items))
            want = []
            for p in props:
                v = items.get(p)
                want += [] if v is None else v.elems if v.elems is not None else [v]
            try:
                r = fn.fn(m, nd)
                if isinstance(r, Val) and r.attrs.get("fails"):
                    raise Fail(r.attrs["fails"])
                got = iterable(r)
            except (Fail, Raised) as x:
                return R.bad("children", "children_of", "children over %s of a node with %s: fails with %s" % (", ".join(props), ", ".join(items) or "no fields", x), f.loc)
            if not isinstance(got, (list, tuple)):
                raise Cannot("children %r" % (r,))
            n += 1
            if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
                return R.bad("children", "children_of", "children over %s of a node with %s: %s, expected %s" % (
                    ", ".join(props), ", ".join("%s=%s" % (k, v) for k, v in items.items()) or "no fields", list(got), want), f.loc)
    R.good("children", "children_of", "%d nodes and field combinations" % n, f.loc)
