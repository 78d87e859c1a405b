"""C02: what a field of each declared kind is written as is rebuilt by both decoders as the value the node held."""
import base64
from rules.common import *
from rules.c04 import model_base
from effects import events

MAP = {k: 10 + k for k in range(9)}          # boundary offset -> position, as handed to the span encoder
INV = {v: k for k, v in MAP.items()}
REFS = ("NODEREF", "NODEREF_MANY", "NODEREF_SPAN")


def check(R):
    R.rule("binary", "the column the encoder writes for a field of the kind, read by the binary decoder, gives every node the value it held")
    R.rule("json", "the same through the JSON form")
    R.rule("columns", "a node without the field takes the same room in the column as one with it, and stays without it")
    for K in KINDS + ("EXT",):
        R.guarded("binary", K, lambda: kind(R, K))


# ------------------------------------------------------------------ values
class World:
    """a target layer of four nodes, a text, and sample values of a kind"""

    def __init__(self, K):
        self.text = Val("text", ["Text"], {"name": "main", "text": "abcdefgh"}, length=8)
        T_ = self.T = Val("T", ["NodeLayerCollection"], {"name": "T"})
        self.t = [Val("t%d" % i, ["Node"], {"_id": i, "i": i, "collection": T_}, truth=None) for i in range(4)]
        nof = Val("nofields", ["dict"], items={}, length=0, truth=False)
        T_.attrs.update({"_schema": Val("schemaT", ["NodeLayerSchema"], {"fields": nof, "name": "T"}), "num": 4, "fieldtypes": nof,
                         "_nodes": Val("slotsT", ["list"], elems=self.t, length=4)})
        T_.elems, T_.length = self.t, 4
        self.opts = {"layer": "T"} if K in REFS else {"context": "main"} if K == "SPAN" else {"type": "x"} if K == "EXT" else {}
        self.ty = Val("ty", ["DataType"], {"typename": E(K), "options": Val("opts", ["dict"], items=dict(self.opts), length=len(self.opts),
                                                                           truth=bool(self.opts))})
        t = self.t
        self.values = {
            "I32": [5, None, 0, -7, 2147483647, -2147483648], "I64": [0, None, 2 ** 40, -2 ** 63, 2 ** 63 - 1],
            "F64": [0.0, None, 1.5, -2.25, 1e300], "BOOL": [True, None, False, True],
            "STRING": ["", None, "a", " b\n", "\u00e5\U0001f600", "0"], "BINARY": [b"", None, b"\x00\xff", b"abc", b"YWJj"],
            "SPAN": [(0, 3), None, (2, 2), (0, 0), (1, 8), (8, 8)], "NODEREF": [t[2], None, t[0], t[3]],
            "NODEREF_MANY": [[t[2], t[0]], None, [t[1]], [], [t[3], t[3], t[0]]],
            "NODEREF_SPAN": [(t[0], t[2]), None, (t[1], t[1]), (t[0], t[0]), (t[2], t[3])],
            "EXT": [b"", None, b"\x01q", b"abc"]}[K]
        self.K = K

    def node_value(self, v):
        K = self.K
        if v is None:
            return None
        if K == "SPAN":
            return Val("span%r" % (v,), ["TextSpan"], {"text": self.text, "start": v[0], "stop": v[1], "_start": v[0], "_stop": v[1], "start_offset": v[0],
                                                      "stop_offset": v[1]}, length=v[1] - v[0])
        if K == "NODEREF_MANY":
            return Val("list%r" % (v,), ["list"], elems=v, length=len(v), truth=bool(v))
        if K == "NODEREF_SPAN":
            return Val("nspan%r" % (v,), ["NodeSpan"], {"left": v[0], "right": v[1]}, length=v[1].attrs["i"] - v[0].attrs["i"] + 1)
        if K == "EXT":
            return Val("ext%r" % (v,), ["ExtData"], {"data": v, "type": "x"})
        return v

    def nodes(self, raw=None):
        ns = []
        for i, v in enumerate(self.values if raw is None else raw):
            x = self.node_value(v) if raw is None else v
            its = {} if x is None else {"f": x}
            ns.append(Val("n%d" % i, ["Node"], {"_id": i, "i": i}, items=its, length=len(its), truth=None))
        return ns

    def doc(self):
        ns = self.nodes()
        flds = Val("fields", ["dict"], items={"f": self.ty}, length=1)
        L = Val("L", ["NodeLayerCollection"], {"name": "L", "num": len(ns), "fieldtypes": flds, "_nodes": Val("slots", ["list"], elems=ns, length=len(ns)),
                                               "_schema": Val("schema", ["NodeLayerSchema"], {"fields": flds, "name": "L"})}, elems=ns, length=len(ns))
        ls = Val("layers", ["dict"], items={"L": L}, length=1)
        ts = Val("texts", ["dict"], items={"main": self.text}, length=1)
        return Val("doc", ["Document"], {"_layers": ls, "layers": ls, "_texts": ts, "texts": ts, "props": {}})


def same(K, w, got, want):
    """is the rebuilt value the one the node held?  want None: not set"""
    if want is None or K == "NODEREF_MANY" and not want:
        return got is MISSING
    if got is MISSING:
        return False
    if K in ("NODEREF",):
        return got is want
    if K == "NODEREF_MANY":
        xs = got.elems if isinstance(got, Val) else got
        return isinstance(xs, (list, tuple)) and len(xs) == len(want) and all(a is b for a, b in zip(xs, want))
    if K in ("NODEREF_SPAN", "SPAN", "EXT"):
        return isinstance(got, Built) and got.same(K, want)
    return type(got) is type(want) and got == want


class Unknown:
    def __repr__(self):
        return "?"


UNKNOWN = Unknown()


class Missing:
    def __repr__(self):
        return "unset"


MISSING = Missing()


class Built:
    """an object built by the decoder: class and arguments"""

    def __init__(self, cls, args):
        self.cls, self.args = cls, args

    def __repr__(self):
        return "%s(%s)" % (self.cls, ", ".join(map(repr, self.args)))

    def same(self, K, want):
        if any(x is UNKNOWN for x in self.args[1 if K == "SPAN" else 0:]):
            raise Cannot("arguments of %r" % (self,))
        if K == "SPAN":
            return self.cls == "TextSpan" and len(self.args) == 3 and tuple(self.args[1:]) == tuple(want)
        if K == "NODEREF_SPAN":
            return self.cls == "NodeSpan" and len(self.args) == 2 and self.args[0] is want[0] and self.args[1] is want[1]
        return self.cls == "ExtData" and len(self.args) == 2 and self.args[1] == want and self.args[0] in ("x", None)


def lib_calls(t, ev):
    """library functions with a fixed meaning"""
    f = t.a[0]
    n = f.a[0].split(".")[-1] if f.op == "ext" else f.a[0] if f.op == "builtin" else None
    if n in ("standard_b64encode", "standard_b64decode", "b64encode", "b64decode") and t.a[1]:
        x = ev.ev(t.a[1][0])
        if isinstance(x, (bytes, str)):
            try:
                return getattr(base64, n)(x)
            except Exception as e:
                raise Raised(type(e).__name__)
    if n in ("int", "float", "bool", "str", "bytes") and len(t.a[1]) == 1:
        x = ev.ev(t.a[1][0])
        if isinstance(x, (int, float, bool, str, bytes, type(None))):
            try:
                return {"int": int, "float": float, "bool": bool, "str": str, "bytes": bytes}[n](x)
            except Exception as e:
                raise Raised(type(e).__name__)
    return NotImplemented


def with_lib(base):
    def b(t, ev):
        if t.op == "call":
            v = lib_calls(t, ev)
            if v is not NotImplemented:
                return v
        return base(t, ev)
    return b


def plain(v):
    """containers of the model as Python data"""
    if isinstance(v, Val) and v.elems is not None and "list" in v.classes:
        return [plain(x) for x in v.elems]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


# ------------------------------------------------------------------ encoder
def encoded(R, K, w):
    """the column the encoder writes for the sample values: [(path, column)]"""
    f = R.prog.func("Codec.encode")
    if f is None:
        raise Cannot("no encoder")
    en, ps = R.paths(f, attr_hook=kind_hook(K), no_inline=("Document.compile", "Text.compile", "DataType.encode"), args={"doc": sym("doc", "Document")})
    doc = w.doc()
    base = with_lib(model_base({"doc": doc}, {"Document.compile": {"main": (MAP, ("seg",))}, "Text.compile": ("seg",), "DataType.encode": "type"}))
    out = []
    for p in ps:
        if not p.returns:
            continue
        ev = Evaluator(base, R.prog, en)
        ev.cur = p
        if not solve(tuple(p.guards), ev, loop_infos(p.events)):
            continue
        col = []
        for e, E2 in occurrences(p.events, ev):
            if e.kind == "mut" and e.a[1] == "append":
                for x in e.a[2]:
                    col.append(plain(E2.ev(x)))
            elif e.kind == "mut" and e.a[1] == "extend":
                col += list(plain(E2.ev(e.a[2][0])))
        try:
            r = ev.ev(en.freeze(p.outcome[1], p.st))
            c2 = plain(r[1]["L"]["f"])
            if isinstance(c2, list) and c2:
                col = c2
        except (Cannot, KeyError, TypeError, IndexError):
            pass
        if any(isinstance(x, Val) for x in col):
            raise Cannot("column %r" % (col,))
        out.append((p, col))
    if not out:
        raise Cannot("no path of the encoder covers the sample document")
    return f, out


def kind(R, K):
    w = World(K)
    f = R.prog.func("Codec.encode")
    try:
        f, cols = encoded(R, K, w)
    except Raised as x:
        return R.bad("columns", K, "encoding a field of this kind fails: %s" % x, f.loc)
    except Cannot as x:
        R.unknown("columns", K, str(x)[:300], f.loc if f else None)
        return
    width = 2 if K == "SPAN" else 1
    for p, col in cols:
        if len(col) != width * len(w.values):
            return R.bad("columns", K, "%d nodes take %d places in the column: %r" % (len(w.values), len(col), col), f.loc, trace=trace(p))
        if K != "SPAN":
            for i, v in enumerate(w.values):
                if (v is None or K == "NODEREF_MANY" and not v) and col[i] is not None:
                    return R.bad("columns", K, "an unset field is written as %r" % (col[i],), f.loc, trace=trace(p))
    R.good("columns", K, "%d values" % len(w.values), f.loc)
    R.guarded("binary", K, lambda: binary(R, K, w, cols))
    R.guarded("json", K, lambda: json(R, K, w, cols))


def built(e, E2, objs):
    if e.kind == "new":
        objs[e.a[0]] = (e.a[1].a[0], list(e.a[2]) + [v for k, v in e.a[3] if not k.startswith("*")], E2)


def value_of(v, E2, objs):
    if v.op == "obj" and v in objs:
        c, args, E3 = objs[v]
        vals = []
        for x in args:
            try:
                vals.append(E2.ev(x))
            except Cannot:
                vals.append(UNKNOWN)
        return Built(c, vals)
    return E2.ev(v)


def assigned(p, ev, node_of):
    """{node number: value} given to the field f by the path, in this region"""
    out = {}
    objs = {}
    for e, E2 in occurrences(p.events, ev, keep=lambda e: e.kind in ("setitem", "next") or e.kind == "mut" and e.a[1] in ("update", "setdefault")):
        built(e, E2, objs)
        if e.kind == "setitem":
            i = node_of(e.a[0], E2)
            if i is None:
                continue
            k = E2.ev(e.a[1])
            if k != "f":
                return "the value is given to the field %r" % (k,)
            out[i] = value_of(e.a[2], E2, objs)
    return out


def judge(K, w, got):
    if isinstance(got, str):
        return got
    unknown = None
    for i, v in enumerate(w.values):
        g = got.get(i, MISSING)
        try:
            eq = same(K, w, g, v)
        except Cannot as x:
            unknown = x
            continue
        if not eq:
            if K == "NODEREF_MANY" and v is not None and not v and g in ([], ()):
                continue
            return "%s comes back as %r" % ("an unset field" if v is None else "the value %r of node %d" % (v, i), g)
    if unknown is not None:
        raise unknown


def is_node(t, p):
    r = t
    while r.op in ("at", "sdef"):
        r = r.a[0]
    return r.op == "obj" and r.a[1] == "inst" and r.a[2] == "Node"


def by_round(t, E2):
    """the node of the innermost round: the one at the round's number"""
    if not is_node(t, None) or not getattr(E2, "rounds", ()):
        return None
    L = E2.rounds[-1]
    return E2.bind.get(mk("idx", L))


def binary(R, K, w, cols):
    f, g = R.prog.func("MsgpackCodec.decode_layer"), R.prog.func("Codec.commit_layers")
    if f is None or g is None:
        return R.unknown("binary", K, "decoder not found")
    en, ps = R.paths(f, attr_hook=kind_hook(K), no_inline=("MsgpackCodec.decode", "TextSpan.__init__"))
    a = params(en, f)
    texts = Val("texts", ["dict"], items={"main": w.text}, length=1)
    b = {a[1]: Val("doc", ["Document"], {"texts": texts, "_texts": texts}), a[2]: "L", a[3]: {"main": INV}, a[4]: (("f", w.ty),), "*fields": ()}
    for pe, col in cols:
        raw = []
        for p in ps:
            if not p.returns:
                continue
            order = next_order(p)
            def base(t, ev):
                if t.op == "sym":
                    return b.get(t.a[0], NotImplemented)
                if t.op == "call" and t.a[0].op == "builtin" and t.a[0].a[0] == "next" and t in order:
                    o = order[t]
                    return len(w.values) if o == "n" else False if o == 0 else tuple(tuple(x) if isinstance(x, list) else x for x in col) if o == 1 else NotImplemented
                return NotImplemented
            ev = Evaluator(with_lib(base), R.prog, en)
            ev.cur = p
            try:
                if not solve(tuple(p.guards), ev, loop_infos(p.events)):
                    continue
                raw.append((p, assigned(p, ev, by_round)))
            except Raised as x:
                return R.bad("binary", K, "decoding the column %r fails: %s" % (col, x), f.loc, trace=trace(p))
        if not raw:
            raise Cannot("no path of decode_layer covers the column")
        en2, ps2 = R.paths(g, attr_hook=kind_hook(K), no_inline=("NodeLayerSchema.add", "Document.add_layer", "NodeSpan.__init__"))
        a2 = params(en2, g)
        for p, got in raw:
            if isinstance(got, str):
                return R.bad("binary", K, got, f.loc, trace=trace(p))
            if not got and any(c is not None for c in col):
                raise Cannot("no assignment to a node recognised")
            ns = w.nodes([got.get(i) if i in got else None for i in range(len(w.values))])
            b2 = {a2[0]: Val("doc", ["Document"]), a2[1]: ("L", "T"), a2[2]: {"L": (("f", w.ty),), "T": ()}, a2[3]: {"L": tuple(ns), "T": tuple(w.t)}}
            def base2(t, ev):
                return b2.get(t.a[0], NotImplemented) if t.op == "sym" else NotImplemented
            for p2 in ps2:
                if not p2.returns:
                    continue
                ev = Evaluator(with_lib(base2), R.prog, en2)
                ev.cur = p2
                def node_of(t, E2):
                    try:
                        x = E2.ev(t)
                    except Cannot:
                        return None
                    return ns.index(x) if any(x is n for n in ns) else None
                try:
                    if not solve(tuple(p2.guards), ev, loop_infos(p2.events)):
                        continue
                    fin = assigned(p2, ev, node_of)
                except Raised as x:
                    return R.bad("binary", K, "resolving the stored values fails: %s" % x, g.loc, trace=trace(p2))
                if isinstance(fin, str):
                    return R.bad("binary", K, fin, g.loc, trace=trace(p2))
                m = judge(K, w, {**got, **fin})
                if m:
                    return R.bad("binary", K, m + " (stored as %r)" % (col,), f.loc, trace=trace(p2))
                break
            else:
                raise Cannot("no path of commit_layers covers the nodes")
    R.good("binary", K, "%d values" % len(w.values), f.loc)


def next_order(p):
    """term of each item taken from the stream -> "n" outside the rounds over the fields, else its number in the round"""
    out = {}
    for e, nest in events(p.events):
        if e.kind == "next":
            if not nest:
                out[e.a[2]] = "n"
            else:
                out[e.a[2]] = sum(1 for x in nest[-1][1].events[:nest[-1][1].events.index(e)] if x.kind == "next")
    return out


def json(R, K, w, cols):
    f, g = R.prog.func("JsonCodec.encode_object"), R.prog.func("JsonCodec.decode_object")
    if f is None or g is None:
        return R.unknown("json", K, "codec not found")
    en, ps = R.paths(f, attr_hook=kind_hook(K), no_inline=("Codec.encode",), args={"doc": sym("doc", "Document")})
    doc = w.doc()
    for pe, col in cols:
        got = None
        for p in ps:
            if not p.returns:
                continue
            tup = tuple(tuple(x) if isinstance(x, list) else x for x in col)
            ev = Evaluator(with_lib(model_base({"doc": doc}, {"Codec.encode": ({"main": ("seg",)}, {"L": {"f": tup}}, {"L": len(w.values)}, {"L": {"f": "type"}})})),
                           R.prog, en)
            ev.cur = p
            try:
                if not solve(tuple(p.guards), ev, loop_infos(p.events)):
                    continue
                new = tup
                for e, E2 in occurrences(p.events, ev, keep=lambda e: e.kind == "setitem"):
                    if e.kind == "setitem":
                        try:
                            k = E2.ev(e.a[1])
                        except Cannot:
                            continue
                        if k == "f":
                            new = plain(value_list(e.a[2], E2, en, p))
                got = new
            except Raised as x:
                return R.bad("json", K, "encoding fails: %s" % x, f.loc, trace=trace(p))
            if got is not None:
                break
        if got is None:
            raise Cannot("no path of the JSON encoder covers the document")
        for x in flat(got):
            if not isinstance(x, (int, float, str, bool, type(None))):
                return R.bad("json", K, "the JSON form holds %r" % (x,), f.loc)
        m = json_decode(R, g, K, w, got)
        if m:
            return R.bad("json", K, m + " (stored as %r)" % (got,), g.loc)
    R.good("json", K, "%d values" % len(w.values), g.loc)


def flat(v):
    if isinstance(v, (list, tuple)):
        for x in v:
            yield from flat(x)
    else:
        yield v


def value_list(t, E2, en, p):
    if t.op == "obj":
        t = en.freeze(t, p.st)
    return E2.ev(t)


def json_decode(R, g, K, w, col):
    en, ps = R.paths(g, attr_hook=kind_hook(K), no_inline=("DataTypes.create", "NodeLayerSchema.add", "Document.add_layer", "Document.add_text",
                                                          "TextSpan.__init__", "NodeSpan.__init__", "MsgpackCodec.decode"))
    a = params(en, g)
    n = len(w.values)
    tupcol = tuple(tuple(x) if isinstance(x, list) else x for x in col)
    segs = tuple("abcdefgh"[INV[i]:INV[i] + 1] for i in sorted(INV))
    if K == "SPAN":
        tupcol = tuple(None if x is None else x - 10 for x in tupcol)
        segs = tuple("abcdefgh")
    typ = {"I32": "i32", "I64": "i64", "F64": "f64", "BOOL": "i1", "STRING": "str", "BINARY": "bin", "NODEREF": "noderef", "NODEREF_MANY": "noderef_array",
           "NODEREF_SPAN": "nodespan", "SPAN": "span", "EXT": "ext"}[K]
    docobj = {"DM10": {"props": {}, "schema": {"L": {"f": {"type": typ, "args": dict(w.opts)}}, "T": {}}, "texts": {"main": segs},
                       "num_nodes": {"L": n, "T": 4}, "types": {"L": {"f": tupcol}, "T": {}}}}
    ids = {}
    stage1 = {}

    def identity(t, ev):
        """the node made in round i of the layer's node loop"""
        for L in nodeloops:
            for k in ev_bind(ev):
                if k.op == "idx" and (k.a[0] == L or L in ORIGINS.get(k.a[0], ())):
                    return ev_bind(ev)[k]
        raise Cannot("which node")

    def owner(ev):
        for k, v in ev_bind(ev).items():
            if k.op == "elem" and v in ("L", "T"):
                own = v
        return own

    for p in ps:
        if not p.returns:
            continue
        nodeloops = [nest[-1][0].L for e, nest in events(p.events) if e.kind == "new" and e.a[1].a[0] == "Node" and nest]

        def base(t, ev):
            if t.op == "sym":
                return docobj if t.a[0] == a[0] else NotImplemented
            if t.op == "call" and any(z.op == "func" and z.a[0].endswith("DataTypes.create") for z in walk(t.a[0])):
                return w.ty
            if t.op == "obj" and t.a[1] == "inst" and t.a[2] == "Node":
                i = identity(t, ev)
                inT = any(k.op == "elem" and v == "T" for k, v in ev_bind(ev).items()) and current_layer(ev) == "T"
                return w.t[i] if inT else nodes[i]
            return NotImplemented

        def current_layer(ev):
            # layer whose list of nodes is being filled or read: the binding of the loop around the node loop
            outer = [nest[-2][0].L for e, nest in events(p.events) if e.kind == "new" and e.a[1].a[0] == "Node" and len(nest) > 1]
            for L in outer:
                for k, v in ev_bind(ev).items():
                    if k.op == "elem" and (k.a[-1] == L or L in ORIGINS.get(k.a[-1], ())):
                        return v
            raise Cannot("which layer")

        nodes = w.nodes([None] * n)
        ev = Evaluator(with_lib(base), R.prog, en)
        ev.cur = p
        if not solve(tuple(p.guards), ev, loop_infos(p.events)):
            continue
        # two rounds: first what the columns give each node, then what the references are replaced by
        st1 = {}
        objs = {}
        try:
            for e, E2 in occurrences(p.events, ev, keep=lambda e: e.kind == "setitem" and is_node(e.a[0], p)):
                built(e, E2, objs)
                if e.kind == "setitem" and is_node(e.a[0], p):
                    if E2.ev(e.a[1]) != "f":
                        return "the value is given to the field %r" % (E2.ev(e.a[1]),)
                    i = by_round(e.a[0], E2)
                    if i is None:
                        raise Cannot("which node")
                    st1[i] = value_of(e.a[2], E2, objs)
        except Raised as x:
            return "decoding fails: %s" % x
        if not st1:
            raise Cannot("no assignment to a node recognised")
        if K not in REFS:
            return judge(K, w, st1)
        nodes = w.nodes([st1.get(i) for i in range(n)])
        ev = Evaluator(with_lib(base), R.prog, en)
        ev.cur = p
        fin = {}
        objs = {}
        try:
            for e, E2 in occurrences(p.events, ev, keep=lambda e: e.kind == "setitem" and not is_node(e.a[0], p)):
                built(e, E2, objs)
                if e.kind == "setitem" and not is_node(e.a[0], p):
                    try:
                        x = E2.ev(e.a[0])
                    except Cannot:
                        continue
                    if not any(x is y for y in nodes):
                        continue
                    if E2.ev(e.a[1]) != "f":
                        return "the value is given to the field %r" % (E2.ev(e.a[1]),)
                    fin[nodes.index(x)] = value_of(e.a[2], E2, objs)
        except Raised as x:
            return "resolving the stored values fails: %s" % x
        return judge(K, w, {**st1, **fin})
    raise Cannot("no path of the JSON decoder covers the object")


def ev_bind(ev):
    return getattr(ev, "bind", {})
