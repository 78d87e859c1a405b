"""C28: merged node lists expose the widest common field type; the inferred type of a value is the declared type of its kind."""
import itertools
from rules.common import *
from decide import loop_infos
from rules.docs import dict_val, list_val
from machine import Machine, Fail

PRI = {"BOOL": 0, "I32": 1, "I64": 2, "F64": 3}
ALL = KINDS + ("EXT",)


def dt(prog, kind, i=0):
    cls = {"I32": "DataTypeInt32", "I64": "DataTypeInt64", "F64": "DataTypeFloat", "BOOL": "DataTypeBool", "STRING": "DataTypeString",
           "BINARY": "DataTypeBinary", "SPAN": "DataTypeTextspan", "NODEREF": "DataTypeNoderef", "NODEREF_MANY": "DataTypeNoderefList",
           "NODEREF_SPAN": "DataTypeNodespan", "EXT": "DataType"}[kind]
    return Val("%s#%d" % (kind, i), {cls} if cls in prog.classes else {"DataType"}, {"typename": E(kind), "options": Val("options of %s#%d" % (kind, i), {"dict"})}, truth=True)


def merged(kinds):
    """kind of the merged type, None when refused"""
    if len(set(kinds)) == 1:
        return kinds[0]
    if all(k in PRI for k in kinds):
        return max(kinds, key=PRI.get)
    return None


def check(R):
    R.rule("pairs", "cast_up_possible holds exactly for equal kinds and for two numeric kinds (BOOL<I32<I64<F64); cast_up returns the wider of the two, in both orders")
    R.rule("fold", "on every sequence of kinds a field can have, the merged type is the widest one, independent of order, and inconvertible kinds raise")
    R.rule("no-drop", "every field of every collection involved (and of every detached node) enters the merge, and every merged field gets a type on each non-raising path")
    R.rule("infer", "the type inferred for a Python value is a declared type of that value's kind")
    R.rule("collected", "a list built of nodes from layers with given field types, and of detached nodes, has for every field of any of them the widest of its types, in every order; "
                        "inconvertible kinds are refused; types given explicitly are used as they are")
    prog = R.prog
    for name, fn in (("single kinds", singles), ("pairs of kinds", pairs), ("three kinds", triples), ("detached nodes", detached), ("several fields", several), ("empty and explicit", explicit)):
        R.guarded("collected", "NodeList, " + name, lambda: collected(R, name, fn))
    R.guarded("collected", "DataTypes.typeof of nodes", lambda: collected(R, "DataTypes.typeof of nodes", references))

    fp, fc = prog.func("DataType.cast_up_possible"), prog.func("DataType.cast_up")
    cls = sorted({type(None) and c.name for c in prog.classes.values() if c.derives(prog.cls("DataType"))})

    def pair(f, judge, kinds):
        en, ps = R.paths(f)
        pn = params(en, f)
        regs = [("%s with %s" % (a, b), (dt(prog, a, 0), dt(prog, b, 1), a, b)) for a in kinds for b in kinds]

        def base_of(pay):
            return lambda t, ev: {pn[0]: pay[0], pn[1]: pay[1]}.get(t.a[0], NotImplemented) if t.op == "sym" else NotImplemented
        decision(R, "pairs", f.qual, ps, regs, base_of, judge, f.loc)

    def jp(pay, k, v, p):
        w = merged((pay[2], pay[3])) is not None
        if k == "raise":
            return "raises %s" % v
        if bool(v) != w:
            return "says %s" % bool(v)

    def jc(pay, k, v, p):
        w = merged((pay[2], pay[3]))
        if w is None:
            return None
        if k == "raise":
            return "raises %s" % v if pay[2] in PRI and pay[3] in PRI else None
        if v not in (pay[0], pay[1]):
            return "returns %r" % (v,)
        if v.attrs["typename"] is not E(w):
            return "returns %r, the wider kind is %s" % (v, w)
    R.guarded("pairs", "DataType.cast_up_possible", lambda: pair(fp, jp, ALL))
    R.guarded("pairs", "DataType.cast_up", lambda: pair(fc, jc, ALL))
    for c in prog.classes.values():
        if c is not prog.cls("DataType") and c.derives(prog.cls("DataType")):
            for m, j in (("cast_up_possible", jp), ("cast_up", jc)):
                if m in c.methods:
                    R.unknown("pairs", c.name + "." + m, "overridden", c.methods[m].loc)

    # ---- the merge in NodeList
    f = prog.func("NodeList.__init__")

    def merge():
        en, ps = R.paths(f, no_inline=("DataTypes.typeof", "DataType.cast_up", "DataType.cast_up_possible"), max_paths=4000)
        infos = {}
        for p in ps:
            loop_infos(p.events, infos)
        final = [i for i in infos.values() if any(e.kind == "setitem" for p in i.paths for e in p.events)
                 and i.dom.op == "view" and i.dom.a[1].op in ("obj", "map") and any(stores(p, i) for p in i.paths)]
        if not final:
            return R.unknown("fold", "NodeList.__init__", "no merge loop recognised", f.loc)
        for info in final:
            key = mk("elem", info.dom, info.L)
            S = set()
            n = 0
            for ln in (1, 2, 3):
                for kinds in itertools.product(ALL if ln < 3 else ("BOOL", "I32", "I64", "F64", "STRING", "SPAN"), repeat=ln):
                    vs = [dt(prog, k, i) for i, k in enumerate(kinds)]
                    sv = Val("types", {"dict", "set"}, items={v: None for v in vs}, length=ln, truth=True, elems=vs)

                    def base(t, ev):
                        if t.op == "item" and t.a[1] is key and t.a[0].op in ("obj", "map") or t.op == "dget" and t.a[1] is key and t.a[0].op in ("obj", "map"):
                            return sv
                        if t is key:
                            return "field"
                        return NotImplemented
                    outs = []
                    try:
                        for p in info.paths:
                            sub = loop_infos(p.events)
                            for ES in solve(tuple(p.guards), Evaluator(base, prog), sub)[:2]:
                                if p.outcome == "raise":
                                    outs.append(("raise", None, p))
                                    continue
                                st = stores(p, info)
                                if not st:
                                    outs.append(("none", None, p))
                                    continue
                                try:
                                    outs.append(("type", ES.ev(st[-1].a[2]), p))
                                except Raised:
                                    outs.append(("raise", None, p))
                    except Cannot as x:
                        return R.unknown("fold", "NodeList.__init__", "kinds %s: %s" % (kinds, x), f.loc)
                    if not outs and merged(kinds) is None:
                        n += 1
                        continue
                    if not outs:
                        return R.unknown("fold", "NodeList.__init__", "kinds %s: no path" % (kinds,), f.loc)
                    w = merged(kinds)
                    for o, v, p in outs:
                        n += 1
                        m = None
                        if o == "none":
                            m = "the field gets no type"
                        elif o == "raise":
                            m = None if w is None else "refused"
                        elif w is None:
                            m = "merged to %r instead of being refused" % (v,)
                        elif not isinstance(v, Val) or v.attrs["typename"] is not E(w):
                            m = "merged to %r, expected %s" % (v, w)
                        if m:
                            return R.bad("fold" if o != "none" else "no-drop", "NodeList.__init__", "kinds %s: %s" % (", ".join(kinds), m), f.loc,
                                         trace=[("" if b else "not ") + show(g)[:200] for g, b in p.guards])
            R.good("fold", "NodeList.__init__", "%d sequences of kinds" % n, f.loc)
        # collection of the types
        ok = False
        for i in infos.values():
            if not (i.dom.op == "view" and i.dom.a[0] == "keys" and i.dom.a[1].op == "attr" and i.dom.a[1].a[1] in ("fieldtypes", "fields")):
                continue
            key = mk("elem", i.dom, i.L)
            for p in i.paths:
                if p.outcome != "next":
                    continue
                w = [e for e in p.events if e.kind == "setitem" or e.kind == "mut" and e.a[1] in ("add", "append")]
                if any(has(e, lambda x: x.op == "item" and x.a[0] is i.dom.a[1] and x.a[1] is key) for e in w):
                    ok = True
                elif not any(x.op in ("obj", "sdef") for g, b in p.guards for x in walk(g)):
                    return R.bad("no-drop", "NodeList.__init__", "a field of %s does not enter the merge" % show(i.dom.a[1]), f.loc,
                                 trace=[("" if b else "not ") + show(g)[:200] for g, b in p.guards])
        if ok:
            R.good("no-drop", "NodeList.__init__", "", f.loc)
        else:
            R.unknown("no-drop", "NodeList.__init__", "collection of field types not recognised", f.loc)
    R.guarded("fold", "NodeList.__init__", merge)

    # ---- inference
    ft = prog.func("DataTypes.typeof")

    def infer():
        en, ps = R.paths(ft)
        pn = params(en, ft)
        layer = Val("layer", {"NodeLayerCollection"}, {"name": "L", "nodetype": dt(prog, "NODEREF", 7)}, truth=True)
        n1 = Val("node", {"Node"}, {"collection": layer}, truth=True)
        n2 = Val("node2", {"Node"}, {"collection": layer}, truth=True)
        text = Val("text", {"Text"}, {"name": "main", "spantype": dt(prog, "SPAN", 8)}, truth=True)
        vals = [("a string", "x", {"STRING"}), ("the empty string", "", {"STRING"}), ("True", True, {"BOOL"}), ("False", False, {"BOOL"}), ("7", 7, {"I32", "I64"}),
                ("2**31", 2 ** 31, {"I64"}), ("-2**31-1", -2 ** 31 - 1, {"I64"}), ("2**31-1", 2 ** 31 - 1, {"I32", "I64"}), ("-2**31", -2 ** 31, {"I32", "I64"}), ("1.5", 1.5, {"F64"}), ("0.0", 0.0, {"F64"}), ("bytes", b"x", {"BINARY"}),
                ("a span", Val("span", {"TextSpan"}, {"text": text}, truth=True), {"SPAN"}), ("a node", n1, {"NODEREF"}),
                ("a node span", Val("nodespan", {"NodeSpan"}, {"left": n1, "right": n2}, truth=True), {"NODEREF_SPAN"}),
                ("a list of nodes", Val("list", {"list"}, length=2, truth=True, elems=[n1, n2], items={0: n1, 1: n2}), {"NODEREF_MANY"}),
                ("an empty list", Val("list", {"list"}, length=0, truth=False, elems=[], items={}), {"NODEREF_MANY"})]
        cmps = [None] + list(ALL)
        n = und = 0
        why = None
        for (nm, v, want), cm in itertools.product(vals, cmps):
            cv = dt(prog, cm, 9) if cm else None

            def base(t, ev):
                if t.op == "sym" and t.a[0] == pn[0]:
                    return v
                if t.op == "sym" and t.a[0] == pn[1]:
                    return cv
                return NotImplemented
            Ev = Evaluator(base, prog)
            try:
                oc = outcomes(ps, Ev)
                rs = [(kind_of(p, e, en), p) for p, e in oc]
            except (Cannot, Raised) as x:
                und += 1
                why = why or "%s: %s" % (nm, x)
                continue
            for k, p in rs:
                if k is None:
                    und += 1
                    why = why or nm
                    continue
                n += 1
                if k == "raise":
                    return R.bad("infer", "DataTypes.typeof", "%s is refused" % nm, ft.loc, trace=trace(p))
                if k not in want:
                    return R.bad("infer", "DataTypes.typeof", "%s is typed %s" % (nm, k), ft.loc, trace=trace(p))
        if und:
            return R.unknown("infer", "DataTypes.typeof", "%d agree, %d undecided (%s)" % (n, und, why), ft.loc)
        R.good("infer", "DataTypes.typeof", "%d value/declared-type combinations" % n, ft.loc)
    R.guarded("infer", "DataTypes.typeof", infer)

    fs = prog.func("Text.__init__")

    def spantype():
        en, ps = R.paths(fs)
        pn = params(en, fs)
        for p in ps:
            for (o, a), v in p.st.heap.items():
                if a == "spantype" and o.op == "sym":
                    k, opts = dtype_of(v, p.st, en)
                    if k is None:
                        return R.unknown("infer", "Text.spantype", show(v), fs.loc)
                    if k != "SPAN" or opts is not None and opts.get("context") is not None and not (opts["context"].op in ("sym", "attr") and "name" in show(opts["context"])):
                        return R.bad("infer", "Text.spantype", "the type of spans of a text is %s%s" % (k, opts), fs.loc)
        R.good("infer", "Text.spantype", "", fs.loc)
    R.guarded("infer", "Text.spantype", spantype)


def stores(p, info):
    key = mk("elem", info.dom, info.L)
    return [e for e in p.events if e.kind == "setitem" and e.a[1] is key and e.a[0].op == "obj"]


def has(e, pred):
    return any(pred(x) for y in e.a if isinstance(y, T) for x in walk(y))


def kind_of(p, ev, en):
    if p.raises:
        return "raise"
    v = p.outcome[1]
    k, o = dtype_of(v, p.st, en)
    if k:
        return k
    r = ev.ev(v)
    if isinstance(r, Val) and "typename" in r.attrs:
        return r.attrs["typename"].a[1]
    return "None" if r is None else None


# ------------------------------------------------------------------ whole lists
MAKE = {"I32": ("int32", [7]), "I64": ("int64", [None]), "F64": ("float64", []), "BOOL": ("bool", []), "STRING": ("string", ["x"]), "SPAN": ("textspan", ["main"]),
        "NODEREF": ("noderef", ["T"]), "NODEREF_MANY": ("noderef_many", ["T"]), "NODEREF_SPAN": ("nodespan", ["T"]), "EXT": ("ext", ["x"])}
DETACHED = {"I64": 3, "F64": 1.5, "BOOL": True, "STRING": "abc", "BINARY": b"x", "SPAN": "span", "NODEREF": "node", "NODEREF_MANY": "nodes", "NODEREF_SPAN": "nodespan"}


class Lists:
    def __init__(self, R):
        self.R, self.m = R, Machine(R, store=True)
        self.text = Val("text", ["Text"], {"name": "main", "spantype": self.type("SPAN")})
        self.target = self.layer("T", {})
        self.t = [self.node(self.target, {}, i) for i in range(2)]

    def type(self, k):
        if k == "BINARY":
            return self.m.new("DataTypeBinary", E("BINARY"))
        f, a = MAKE[k]
        return self.m.run(self.R.prog.func("DataTypes." + f), list(a))

    def layer(self, name, fields):
        ts = dict_val({f: self.type(k) for f, k in fields.items()}, "fields of %s" % name)
        sch = Val("schema of %s" % name, ["NodeLayerSchema"], {"fields": ts, "name": name})
        return Val("layer %s" % name, ["NodeLayerCollection"], {"name": name, "fieldtypes": ts, "_schema": sch, "schema": sch,
                                                              "nodetype": self.m.run(self.R.prog.func("DataTypes.noderef"), [name])}, truth=None)

    def node(self, layer, values, i=0):
        v = Val("node of %s" % (layer.name if layer is not None else "no layer"), ["Node"], {"collection": layer, "_id": i, "i": i}, items=dict(values), length=len(values), truth=None)
        v.mapping = True
        return v

    def value(self, k):
        v = DETACHED[k]
        if v == "span":
            return Val("span", ["TextSpan"], {"text": self.text}, truth=None)
        if v == "node":
            return self.t[0]
        if v == "nodes":
            return list_val(list(self.t), "nodes")
        if v == "nodespan":
            return Val("nodespan", ["NodeSpan"], {"left": self.t[0], "right": self.t[1]}, truth=None)
        return v

    def types(self, nodes, **kw):
        """field -> kind of the list, or None when it is refused"""
        try:
            v = self.m.construct("NodeList", [list_val(nodes, "nodes")], kw)
        except Fail as x:
            if x.name in ("ValueError", "SchemaValidationError", "SchemaTypeError", "DataValidationError", "AssertionError", "TypeError"):
                return None
            raise
        ft = v.attrs.get("fieldtypes")
        if not isinstance(ft, Val) or not ft.mapping:
            raise Cannot("field types %r" % (ft,))
        out = {}
        for f, t in ft.items.items():
            if not isinstance(t, Val) or not isinstance(t.attrs.get("typename"), T):
                raise Cannot("type of a field: %r" % (t,))
            out[f] = t.attrs["typename"].a[-1]
        return out


def collected(R, name, fn):
    loc = R.prog.func("NodeList.__init__").loc
    n = 0
    for what, want, got in fn(Lists(R)):
        n += 1
        if got == want:
            continue
        if got is None:
            why = "is refused"
        elif want is None:
            why = "gives %s instead of being refused" % got
        else:
            miss = [f for f in want if f not in got]
            why = "has no type for the field %s" % miss[0] if miss else "has the field types %s instead of %s" % (got, want)
        return R.bad("collected", "NodeList, " + name if "typeof" not in name else name, "%s %s" % (what, why), loc)
    R.good("collected", "NodeList, " + name if "typeof" not in name else name, "%d lists" % n, loc)


def want_of(kinds):
    w = merged(kinds)
    return None if w is None else {"a": w}


def singles(w):
    for k in ALL:
        for n in (1, 2):
            layers = [w.layer("L%d" % i, {"a": k}) for i in range(n)]
            yield "a list of nodes of %d layers with %s" % (n, k), {"a": k}, w.types([w.node(l, {}) for l in layers for _ in range(2)])


def pairs(w):
    for a in ALL:
        for b in ALL:
            la, lb = w.layer("A", {"a": a}), w.layer("B", {"a": b})
            yield "a list of nodes of layers with %s and %s" % (a, b), want_of((a, b)), w.types([w.node(la, {}), w.node(lb, {}), w.node(la, {})])


def triples(w):
    for ks in itertools.product(("BOOL", "I32", "I64", "F64", "STRING"), repeat=3):
        ls = [w.layer("L%d" % i, {"a": k}) for i, k in enumerate(ks)]
        yield "a list of nodes of layers with %s, %s and %s" % ks, want_of(ks), w.types([w.node(l, {}) for l in ls])


def detached(w):
    for k in DETACHED:
        yield "a detached node with %s" % k, {"a": k}, w.types([w.node(None, {"a": w.value(k)})])
        for j in DETACHED:
            yield "detached nodes with %s and %s" % (k, j), want_of((k, j)), w.types([w.node(None, {"a": w.value(k)}), w.node(None, {"a": w.value(j)})])
        for j in ALL:
            l = w.layer("L", {"a": j})
            yield "a detached node with %s and a node of a layer with %s" % (k, j), want_of((k, j)), w.types([w.node(None, {"a": w.value(k)}), w.node(l, {})])
            yield "a node of a layer with %s and a detached node with %s" % (j, k), want_of((j, k)), w.types([w.node(l, {}), w.node(None, {"a": w.value(k)})])
    for vs in ([0, 1.5], [1.5, 0], [False, 2, 0.0], [2 ** 40, True], ["", "x"]):
        ks = [{bool: "BOOL", int: "I64", float: "F64", str: "STRING"}[type(v)] for v in vs]
        yield "detached nodes with the values %s" % vs, want_of(tuple(ks)), w.types([w.node(None, {"a": v}) for v in vs])


def several(w):
    A, B, C = w.layer("A", {"a": "I32", "b": "STRING"}), w.layer("B", {"b": "STRING", "c": "SPAN"}), w.layer("C", {"a": "F64", "d": "NODEREF"})
    src = {"A": (A, {}), "B": (B, {}), "C": (C, {}), "detached a": (None, {"a": True, "e": b"x"}), "detached c": (None, {"c": w.value("SPAN")}), "detached empty": (None, {})}
    kinds = {"A": {"a": "I32", "b": "STRING"}, "B": {"b": "STRING", "c": "SPAN"}, "C": {"a": "F64", "d": "NODEREF"}, "detached a": {"a": "BOOL", "e": "BINARY"},
             "detached c": {"c": "SPAN"}, "detached empty": {}}
    for n in (1, 2, 3):
        for ks in itertools.permutations(src, n):
            want = {}
            for k in ks:
                for f, t in kinds[k].items():
                    want[f] = merged((want[f], t)) if f in want else t
            yield "a list of nodes of %s" % ", ".join(ks), want, w.types([w.node(src[k][0], dict(src[k][1])) for k in ks])
    yield "a list of a node of A, which sets a field that A does not declare", {"a": "I32", "b": "STRING"}, w.types([w.node(A, {"a": 3})])


def explicit(w):
    A, B = w.layer("A", {"a": "I32"}), w.layer("B", {"a": "STRING", "b": "BOOL"})
    yield "an empty list", {}, w.types([])
    given = dict_val({"z": w.type("I32"), "a": w.type("F64")}, "types")
    for ns in ([], [w.node(A, {})], [w.node(A, {}), w.node(B, {})]):
        yield "a list of %d nodes with explicit types" % len(ns), {"z": "I32", "a": "F64"}, w.types(ns, fieldtypes=given)
    yield "a list of nodes with explicit types, none", {}, w.types([w.node(A, {})], fieldtypes=dict_val({}, "types"))


def references(w):
    """the inferred type names the layer of what is referred to"""
    other = w.layer("U", {})
    u = [w.node(other, {}, i) for i in range(2)]
    f = w.R.prog.func("DataTypes.typeof")

    def of(v, *a):
        try:
            t = w.m.run(f, [v] + list(a))
        except Fail as x:
            return None
        if not isinstance(t, Val) or not isinstance(t.attrs.get("options"), Val):
            raise Cannot("type %r" % (t,))
        return {t.attrs["typename"].a[-1]: t.attrs["options"].items.get("layer")}
    for l, ns in (("T", w.t), ("U", u)):
        yield "the type of a node of layer %s" % l, {"NODEREF": l}, of(ns[0])
        yield "the type of a list of nodes of layer %s" % l, {"NODEREF_MANY": l}, of(list_val(ns, "nodes"))
        yield "the type of a list of one node of layer %s" % l, {"NODEREF_MANY": l}, of(list_val(ns[1:], "nodes"))
        yield "the type of a node span of layer %s" % l, {"NODEREF_SPAN": l}, of(Val("nodespan", ["NodeSpan"], {"left": ns[0], "right": ns[1]}, truth=None))
    yield "the type of a list of nodes of two layers", None, of(list_val([w.t[0], u[0]], "nodes"))
    yield "the type of a list of nodes of two layers", None, of(list_val([w.t[0], w.t[1], u[1]], "nodes"))
    yield "the type of a list of a node and a number", None, of(list_val([w.t[0], 3], "nodes"))
    yield "the type of None", None, of(None)
