"""Layers of a document made and edited through the public interface, on the machine."""
from rules.store import *
from rules.docs import list_val
from machine import Machine, Fail
from decide import Raised


def LOUD(qual, detail):
    """every assertion may fail"""
    return False


def names(xs):
    return "[%s]" % ", ".join(x.name if isinstance(x, Val) else repr(x) for x in xs)


class World:
    """a document with a layer of n nodes, another layer, and nodes that belong to no layer"""

    def __init__(self, R, n, fields=("I32",)):
        self.R = R
        m = self.m = Machine(R, store=True, quiet_asserts=LOUD)
        m.externals["sorted"] = self.sorted
        self.doc = m.new("Document")
        run = lambda q, *a: m.run(R.prog.func(q), list(a))
        self.text = m.invoke(self.doc, "add_text", "main", "abcdef")
        self.other = m.invoke(self.doc, "add_layer", "other", a=run("DataTypes.int32"))
        self.L = m.invoke(self.doc, "add_layer", "layer", a=run("DataTypes.int32"))
        self.ref = m.invoke(self.doc, "add_layer", "ref", to=run("DataTypes.noderef", "layer"))
        self.foreign = m.invoke(self.other, "add", a=1)
        self.nodes = [m.invoke(self.L, "add", a=(7 * i + 3) % 5) for i in range(n)]
        self.free = [m.new("Node", a=9 - i) for i in range(2)]
        for xs, p in ((self.nodes, "n"), (self.free, "new")):
            for i, x in enumerate(xs):
                x.name = "%s%d" % (p, i)
        self.foreign.name = "foreign"
        self.known = self.nodes + self.free

    def sorted(self, m, xs, key=None, reverse=False):
        xs = m.drain(xs)
        ks = list(xs) if key is None else [m.invoke_fn(key, x) for x in xs]
        if not all(isinstance(k, (int, str, float, tuple)) for k in ks):
            raise Cannot("keys %r" % (ks[:1],))
        try:
            at = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(reverse))
        except TypeError:
            raise Fail("TypeError")
        return list_val([xs[i] for i in at], "sorted")

    def prop(self, o, name):
        f, n = self.m.method(o, name)
        return self.m.run(f, [o], {}, n) if f is not None else o.attrs[name]

    # ---------------------------------------------------------------- edits
    def edits(self, o):
        """(what, function, the nodes afterwards or None if not said, does it raise (None: not said)) from a state with the nodes o in order"""
        m, L, F = self.m, self.L, self.foreign
        A, B = self.free
        fA, fB = (x for x in self.free if x.attrs["collection"] is None) if all(x.attrs["collection"] is None for x in self.free) else (None, None)
        lst = lambda *xs: list_val(list(xs), names(xs))
        do = lambda name, *a, **kw: lambda: m.invoke(L, name, *a, **kw)
        yield "add(a=5)", do("add", a=5), "new", False
        yield "add(a='x')", do("add", a="x"), o, True
        yield "add('x')", do("add", "x"), o, True
        if fA is not None:
            yield "add(new0)", do("add", A), o + (A,), False
            yield "add(new1, new0)", do("add", B, A), o + (B, A), False
            yield "add(new0, new0)", do("add", A, A), o, True
            yield "add(new0, foreign)", do("add", A, F), o, True
            yield "add_many([new0, new1])", do("add_many", lst(A, B), full_validation=False), o + (A, B), False
            yield "add_many([new0, foreign, new1])", do("add_many", lst(A, F, B), full_validation=False), None, True
            yield "add_many([new0, new0])", do("add_many", lst(A, A), full_validation=False), None, True
            yield "remove(new0)", do("remove", A), o, True
            yield "retain([new0])", do("retain", lst(A)), o, True
        yield "add_field('a')", do("add_field", "a", w_type(self, "DataTypes.string")), o, True
        yield "schema.add('a')", lambda: m.invoke(self.prop(L, "schema"), "add", "a", w_type(self, "DataTypes.string")), o, True
        yield "document.remove_layer('layer')", lambda: m.invoke(self.doc, "remove_layer", "layer"), o, True
        yield "document.maintext = 'x'", lambda: m.run(self.R.prog.setter("Document.maintext"), [self.doc, "x"], {}, "Document"), o, True
        yield "ref.add(to=foreign)", lambda: m.invoke(self.ref, "add", to=F), o, True
        yield "add_many([])", do("add_many", lst()), o, False
        yield "remove(foreign)", do("remove", F), o, True
        yield "remove([])", do("remove", lst()), o, False
        yield "retain([])", do("retain", lst()), (), False
        yield "retain([foreign])", do("retain", lst(F)), o, True
        yield "compact()", do("compact"), o, False
        key = lambda n: n.items["a"]
        yield "sort by a", do("sort", Fn("key", lambda m, n: key(n))), tuple(sorted(o, key=key)), False
        yield "sort by -a", do("sort", Fn("key", lambda m, n: -key(n))), tuple(sorted(o, key=lambda n: -key(n))), False

        def broken(m, n):
            raise Fail("KeyError")
        yield "sort with a key that fails", do("sort", Fn("key", broken)), o, True if o else None
        if not o:
            return
        x, z = o[0], o[-1]
        less = lambda *ys: tuple(q for q in o if not any(q is y for y in ys))
        only = lambda *ys: tuple(q for q in o if any(q is y for y in ys))
        yield "add(%s)" % x.name, do("add", x), o, True
        yield "add_many([%s])" % x.name, do("add_many", lst(x), full_validation=False), None, True
        yield "remove(%s)" % x.name, do("remove", x), less(x), False
        yield "del layer[%s]" % z.name, do("__delitem__", z), less(z), False
        yield "%s.detach()" % x.name, lambda: m.invoke(x, "detach"), less(x), False
        yield "remove([%s, foreign, %s])" % (x.name, z.name), do("remove", lst(x, F, z)), less(x), True
        yield "remove([%s, %s])" % (x.name, x.name), do("remove", lst(x, x)), less(x), True
        yield "remove([%s, None])" % z.name, do("remove", lst(z, None)), less(z), None
        yield "remove(all)", do("remove", lst(*o)), (), False
        yield "retain([%s, %s])" % (z.name, x.name), do("retain", lst(z, x)), only(z, x), False
        yield "retain([%s, %s])" % (z.name, z.name), do("retain", lst(z, z)), only(z), False
        yield "retain([%s, foreign])" % x.name, do("retain", lst(x, F)), o, True
        yield "retain(all)", do("retain", lst(*o)), o, False
        if len(o) > 2:
            y = o[len(o) // 2]
            yield "remove(%s)" % y.name, do("remove", y), less(y), False
            yield "remove([%s, %s])" % (z.name, x.name), do("remove", lst(z, x)), less(z, x), False
            yield "retain([%s])" % y.name, do("retain", lst(y)), only(y), False

    def step(self, fn, after, o):
        """(nodes expected or None, failed) after running an edit"""
        try:
            r = fn()
            failed = None
        except Fail as x:
            r, failed = None, x.name
        if isinstance(after, str):
            if failed is None:
                if not isinstance(r, Val) or "Node" not in r.classes:
                    raise Cannot("added %r" % (r,))
                r.name = "added%d" % len(o)
                after = o + (r,)
        return after, failed

    # ---------------------------------------------------------------- judgement
    def wrong(self, want, before, extra=()):
        """how the layer contradicts itself or the nodes it should have, or None"""
        m, L = self.m, self.L
        got = m.drain(L)
        if not all(isinstance(x, Val) for x in got):
            return "it yields %s" % names(got)
        if want is not None and (len(got) != len(want) or any(x is not y for x, y in zip(got, want))):
            return "it has the nodes %s instead of %s" % (names(got), names(want))
        n = m.invoke(L, "__len__")
        if n != len(got):
            return "its length is %s, it has the nodes %s" % (n, names(got))
        if want is None:
            kept = [x for x in got if any(x is y for y in before)]
            there = [y for y in before if any(x is y for x in got)]
            if len(kept) != len(there) or any(x is not y for x, y in zip(kept, there)):
                return "its nodes are now in the order %s, they were in the order %s" % (names(got), names(before))
        last = -1
        for x in got:
            if x.attrs.get("collection") is not L:
                return "%s is in it and reports %s as its collection" % (x.name, x.attrs.get("collection"))
            i = self.prop(x, "i")
            if not isinstance(i, int):
                raise Cannot("index %r" % (i,))
            if i <= last:
                return "%s reports the index %d, the one before it %d" % (x.name, i, last)
            last = i
            try:
                y = m.invoke(L, "__getitem__", i)
            except Fail:
                y = "nothing"
            if y is not x:
                return "%s reports the index %d, at which there is %s" % (x.name, i, y)
        for x in list(self.known) + list(before) + list(extra):
            if not any(x is y for y in got) and x.attrs.get("collection") is not None:
                return "%s is not in it and reports %s as its collection" % (x.name, x.attrs["collection"].name)
        o = self.m.drain(self.other)
        if len(o) != 1 or o[0] is not self.foreign or self.foreign.attrs["collection"] is not self.other or self.foreign.attrs["_id"] != 0:
            return "the other layer has changed"


def observed(w, o):
    """everything a user sees of the document: [(what, value)]"""
    m, L = w.m, w.L
    out = []

    def layer(l, name):
        xs = m.drain(l)
        out.append(("the nodes of %s" % name, xs))
        out.append(("the length of %s" % name, m.invoke(l, "__len__")))
        fs = w.prop(w.prop(l, "schema"), "fields")
        out.append(("the fields of %s" % name, [y for k, v in fs.items.items() for y in (k, v)]))
        top = 0
        for x in xs:
            i = w.prop(x, "i")
            out.append(("the index of %s" % x.name, i))
            top = max(top, i)
        for i in range(top + 2):
            try:
                y = m.invoke(l, "__getitem__", i)
            except Fail:
                y = "nothing"
            out.append(("what is at %d of %s" % (i, name), y))
    for l, name in ((L, "the layer"), (w.other, "the other layer"), (w.ref, "the referring layer")):
        layer(l, name)
    for x in [w.foreign] + list(w.known):
        out.append(("the collection of %s" % x.name, x.attrs.get("collection")))
        out.append(("the values of %s" % x.name, [y for k, v in x.items.items() for y in (k, v)]))
    ls, ts = w.prop(w.doc, "layers"), w.prop(w.doc, "texts")
    out.append(("the layers of the document", [y for k, v in ls.items.items() for y in (k, v)]))
    out.append(("the texts of the document", [y for k, v in ts.items.items() for y in (k, v)]))
    out.append(("the main text", m.invoke(ts.items["main"], "__str__") if "main" in ts.items else None))
    return out


def differs(old, new):
    """what differs between two observations, or None"""
    a, b = dict(old), dict(new)
    for k in a:
        if k not in b:
            return "%s is gone" % k
        x, y = a[k], b[k]
        if isinstance(x, list):
            if len(x) != len(y) or any(p is not q and not (isinstance(p, (str, int)) and type(p) is type(q) and p == q) for p, q in zip(x, y)):
                return "%s: %s instead of %s" % (k, names(y), names(x))
        elif x is not y and not (isinstance(x, (str, int)) and type(x) is type(y) and x == y):
            return "%s: %s instead of %s" % (k, y, x)


def w_type(w, q):
    return w.m.run(w.R.prog.func(q), [])


def explore(w, depth, visit, o=None, done=(), limit=None, snap=None):
    """visits every state after at most depth edits; visit(order, edits so far) returns a reason or None; the first reason found, or None"""
    m = w.m
    o = tuple(w.nodes) if o is None else o
    for what, fn, after, raises in list(w.edits(o)):
        if limit is not None and not limit(done, what):
            continue
        n0 = len(m.log)
        old = snap(w, o) if snap is not None else None
        try:
            want, failed = w.step(fn, after, o)
            ds = done + (what + (" [fails with %s]" % failed if failed else ""),)
            if raises is not None and raises != (failed is not None):
                return ds, "%s" % ("it is not refused" if raises else "it fails with %s" % failed)
            if failed is not None and isinstance(want, str):
                want = o
            why = visit(want, o, ds, failed) if snap is None else visit(want, o, ds, failed, old)
            if why:
                return ds, why
            if depth > 1:
                r = explore(w, depth - 1, visit, tuple(m.drain(w.L)) if want is None else want, ds, limit, snap)
                if r:
                    return r
        finally:
            m.undo(n0)
    return None
