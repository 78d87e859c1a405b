"""C01: the binary layout; encoder, full decoder and partial reader agree on it item by item."""
from rules.store import *

QE, QD, QP = "MsgpackCodec.encode", "MsgpackCodec.decode", "MsgpackDocument"
MAGIC = b"DM_1"


class Hdr:
    """the start of a map: its entries follow as items of their own"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "map of %d" % self.n

    def __eq__(self, o):
        return isinstance(o, Hdr) and o.n == self.n

    def __hash__(self):
        return hash(("Hdr", self.n))

    def __deepcopy__(self, memo):
        return self


def dict_val(d, name="map"):
    return Val(name, ["dict"], items=dict(d), length=len(d), truth=bool(d))


def list_val(xs, name="list"):
    return Val(name, ["list"], elems=list(xs), length=len(xs), truth=bool(xs))


def items_of(m, v):
    if isinstance(v, Val) and v.mapping:
        out = [Item(Hdr(len(v.items)), 1)]
        for k, x in v.items.items():
            out += items_of(m, k) + items_of(m, x)
        return out
    return [Item(v, m.width(frozen_list(v)))]


def frozen_list(v):
    if isinstance(v, Val) and v.elems is not None:
        v = v.elems
    return ("list",) + tuple(frozen_list(x) for x in v) if isinstance(v, (list, tuple)) else v


class Bin(Unpacker):
    """an unpacker that can enter a map"""

    def take(self, m, one):
        x = Unpacker.m_next(self, m)
        if isinstance(x, Hdr) and one:
            d = {}
            for i in range(x.n):
                k = self.take(m, True)
                d[k] = self.take(m, True)
                if k is GARBAGE:
                    return GARBAGE
            return dict_val(d)
        return x

    def m_next(self, m):
        return self.take(m, True)

    def m_read_map_header(self, m):
        try:
            x = self.take(m, False)
        except Fail:
            raise Fail("OutOfData")
        if not isinstance(x, Hdr):
            raise Fail("ValueError")
        return x.n

    def m_read_array_header(self, m):
        raise Cannot("read_array_header")


class MapPacker(Packer):
    def m_pack(self, m, v):
        return Data(items_of(m, v))


class Field:
    def __init__(self, name, type_, args=None):
        self.name, self.type, self.args = name, type_, args


class Model:
    """one document in its encoded form"""

    def __init__(self, name, props=(), texts=(), layers=()):
        self.name = name
        self.props = dict(props) if isinstance(props, dict) else {k: "value of %s" % k for k in props}
        self.texts = {k: list_val(list(v), "pieces of %s" % k) for k, v in texts}
        self.pieces = dict(texts)
        self.layers = {}
        self.columns = {}
        for lname, n, fields in layers:
            self.layers[lname] = (n, fields)
            for f in fields:
                if f.type == "span":
                    vs = [0, 1] * n
                elif f.type == "noderef":
                    vs = [0] * n
                elif f.type == "noderef_array":
                    vs = [list_val([0]) for i in range(n)]
                elif f.type == "nodespan":
                    vs = [list_val([0, 0]) for i in range(n)]
                else:
                    vs = ["%s.%s of node %d" % (lname, f.name, i) for i in range(n)]
                    if n > 1:
                        vs[1] = None
                self.columns[lname, f.name] = list_val(vs, "column %s.%s" % (lname, f.name))

    def parts(self, m):
        """(what the item is, item) in the order of the layout"""
        def block(what, its):
            n = sum(x.width for _, x in its)
            return [("length of %s" % what, Item(n, m.width(n)))] + its
        out = [("magic", Item(MAGIC, 4, raw=True))]
        out += block("the properties", [("properties", x) for x in items_of(m, dict_val(self.props))])
        names = self.names
        out.append(("layer names", Item(names, m.width(frozen_list(names)))))
        for l, (n, fs) in self.layers.items():
            out.append(("field count of %s" % l, Item(len(fs), m.width(len(fs)))))
            for f in fs:
                out.append(("field name in %s" % l, Item(f.name, m.width(f.name))))
                out.append(("argument flag in %s" % l, Item(f.args is not None, m.width(True))))
                out.append(("field type in %s" % l, Item(f.type, m.width(f.type))))
                if f.args is not None:
                    out += [("type arguments in %s" % l, x) for x in items_of(m, dict_val(f.args))]
        out += block("the texts", [("texts", x) for x in items_of(m, dict_val(self.texts))])
        for l, (n, fs) in self.layers.items():
            b = [("node count of %s" % l, Item(n, m.width(n)))]
            for f in fs:
                b.append(("column flag in %s" % l, Item(False, m.width(False))))
                c = self.columns[l, f.name]
                b.append(("column %s.%s" % (l, f.name), Item(c, m.width(frozen_list(c)))))
            out += block("layer %s" % l, b)
        return out

    @property
    def names(self):
        if "_names" not in self.__dict__:
            self._names = list_val(list(self.layers), "layer names")
        return self._names


def models():
    S = lambda n: Field(n, "str")
    tok = ("token", 2, [S("pos"), Field("text", "span", {"context": "main"})])
    yield Model("empty document")
    yield Model("properties only", props=("lang", "id"))
    yield Model("values that are not true", props={"none": None, "zero": 0, "blank": "", "false": False, "more": 1})
    yield Model("texts only", texts=[("main", ("ab", "c")), ("title", ())])
    yield Model("one layer", ("lang",), [("main", ("a", "b"))], [tok])
    yield Model("layers", ("lang", "id"), [("main", ("ab", "c")), ("title", ("x",))],
                [("empty", 0, []), tok, ("plain", 3, [S("a")]), ("ref", 1, [Field("head", "noderef", {"layer": "token"}), S("b")]),
                 ("none", 0, [S("c"), S("d")])])
    yield Model("no fields", (), [], [("a", 1, []), ("b", 2, [S("x")])])


def machine1(R, hooks=None, **opts):
    def node(m, v, *a, **kw):
        v.items, v.mapping, v.length, v.truth = dict(kw), True, len(kw), bool(kw)
        v.attrs.update(_id=-1, collection=None)

    def with_id(m, v, i):
        m.put(v, "_id", i)
        return v

    def schema(m, v, name, *a):
        v.attrs.update(name=name, fields=dict_val({}))

    def add(m, v, name, t):
        old = v.attrs["fields"]
        m.put(v, "fields", dict_val(dict(old.items, **{name: t})))

    def create(m, t, **kw):
        return Val("type %s" % getattr(t, "name", t), ["DataType"], {"typename": t, "options": dict_val(kw)})

    def span(m, v, text, start=None, stop=None, *a, **kw):
        v.attrs.update(text=text, start=start, stop=stop, _start=start, _stop=stop)

    def text(m, v, name, s=None):
        v.attrs.update(name=name, text=s)

    def coll(m, v, sch, *a, **kw):
        v.attrs.update(schema=sch, name=sch.attrs["name"], _nodes=list_val([]), num=0)

    def init(m, v, nodes):
        m.put(v, "_nodes", nodes)
        m.put(v, "num", nodes.length)
        v.elems, v.length = nodes.elems, nodes.length
        return v

    def opaque(m, v, *a, **kw):
        v.attrs["args"] = a

    def pack(m, v, out, **kw):
        m.invoke(out, "write", Data(items_of(m, v)))

    def packb(m, v, **kw):
        return Data(items_of(m, v))

    h = {"new:Node": node, "Node.with_id": with_id, "new:NodeLayerSchema": schema, "NodeLayerSchema.add": add, "DataTypes.create": create,
         "new:TextSpan": span, "new:Text": text, "new:NodeLayerCollection": coll, "NodeLayerCollection.unsafe_initialize": init,
         "new:NodeSpan": opaque, "new:ExtData": opaque, "new:MsgpackDocumentExt": opaque}
    h.update(hooks or {})
    m = Machine(R, h, store=True, inline_only=inline, opaque_new=("Node", "NodeLayerSchema", "TextSpan", "Text", "NodeLayerCollection", "NodeSpan", "ExtData", "MsgpackDocumentExt"), **opts)
    m.externals.update({"msgpack.Packer": lambda m, *a, **k: MapPacker(m), "msgpack.dump": pack, "msgpack.dumps": packb, "msgpack.pack": pack, "msgpack.packb": packb, "msgpack.Unpacker": lambda m, s=None, **kw: Bin(s)})
    return m


def stream(m, model):
    return Data([x for _, x in model.parts(m)])


def check(R):
    R.rule("encoded", "the encoder writes the items of the layout in their order, nothing else")
    R.rule("lengths", "every length it writes is that of the bytes up to the end of the part it announces")
    R.rule("decoded", "the full decoder takes the items of the layout one by one: every property, text, field and column arrives where it belongs")
    R.rule("partial", "the partial reader finds the same parts of the same layout: properties, schema, texts, every layer")
    R.rule("skipped", "passing over properties, texts and columns that are not wanted takes as many items as reading them")
    R.guarded("encoded", QE, lambda: encoded(R))
    R.guarded("decoded", QD, lambda: decoded(R))
    R.guarded("partial", QP, lambda: partial(R))
    for q in ("MsgpackCodec.decode_property", "MsgpackCodec.decode_texts", "MsgpackCodec.decode_layer"):
        R.guarded("skipped", q, lambda: skipped(R, q))


class Wrong(Exception):
    """what is wrong with an answer"""


def judged(m, fn):
    """what is wrong with the answer, or None"""
    m.last, m.misread = None, False
    try:
        return fn()
    except Fail as x:
        return "fails with %s" % x.name
    except Wrong as x:
        return "gives %s" % x
    except (Cannot, Raised):
        if m.misread:
            return "reads where no item begins"
        raise


def tr(m):
    p = getattr(m, "last", None)
    return trace(p) if p else None


def encoded(R):
    f = R.prog.func(QE)
    n, bad = 0, set()
    for d in models():
        def enc(m, doc, *a, **kw):
            types = dict_val({l: dict_val({x.name: d.columns[l, x.name] for x in fs}) for l, (k, fs) in d.layers.items()})
            nums = dict_val({l: k for l, (k, fs) in d.layers.items()})
            schema = dict_val({l: dict_val({x.name: x.type if x.args is None else dict_val({"type": x.type, "args": dict_val(x.args)}) for x in fs}) for l, (k, fs) in d.layers.items()})
            return (dict_val(d.texts), types, nums, schema)
        m = machine1(R, {"Codec.encode": enc})
        want = d.parts(m)
        doc = Val("document", ["Document"], {"props": dict_val(d.props)})
        n += len(want)
        try:
            r = m.run(f, [doc], {})
        except Fail as x:
            return R.bad("encoded", QE, "%s: fails with %s" % (d.name, x.name), f.loc, trace=tr(m))
        got = as_parts(r)
        flat = []
        for x in got:
            if isinstance(x.value, bytes) and x.raw and flat and isinstance(flat[-1].value, bytes) and flat[-1].raw:
                flat[-1] = Item(flat[-1].value + x.value, flat[-1].width + x.width, raw=True)
            else:
                flat.append(x)
        for i, (what, x) in enumerate(want):
            y = flat[i] if i < len(flat) else None
            rule = "lengths" if what.startswith("length") else "encoded"
            if y is None:
                why = "ends before the %s" % what
            elif same_item(x, y):
                continue
            elif rule == "lengths" and isinstance(y.value, int):
                why = "the %s is wrong: %s instead of %s bytes" % (what, y.value, x.value)
            elif x.width != y.width and not isinstance(x.value, int):
                why = "%s where the %s belongs" % (describe(y), what)
            else:
                why = "%s instead of %s for the %s" % (describe(y), describe(x), what)
            if rule not in bad:
                bad.add(rule)
                R.bad(rule, QE, "%s: %s" % (d.name, why), f.loc, trace=tr(m))
            if rule == "encoded" or y is None or not isinstance(y.value, int):
                break
        else:
            if len(flat) > len(want) and "encoded" not in bad:
                bad.add("encoded")
                R.bad("encoded", QE, "%s: %s after the end" % (d.name, describe(flat[len(want)])), f.loc, trace=tr(m))
    for rule in ("encoded", "lengths"):
        if rule not in bad:
            R.good(rule, QE, "%d items" % n, f.loc)


def describe(x):
    return "%s" % (elements(x.value),) if isinstance(x.value, Val) and x.value.elems is not None else "%r" % (x.value,)


def same_item(x, y):
    return x.raw == y.raw and x.width == y.width and same(frozen_list(x.value), frozen_list(y.value))


def get(m, v, name):
    if name in v.attrs:
        return v.attrs[name]
    f, n = m.method(v, name)
    if f is None or not f.prop:
        raise Cannot("%s of %r" % (name, v))
    return m.run(f, [v], {}, n)


def entries(v):
    if isinstance(v, dict):
        return v
    if isinstance(v, Val) and v.mapping:
        return v.items
    if v is None or isinstance(v, (int, str, bytes, list, tuple)) or v is GARBAGE or isinstance(v, Val) and v.elems is not None:
        raise Wrong("%s instead of a dictionary" % (describe(Item(v, 0)),))
    raise Cannot("entries of %r" % (v,))


def elements(v):
    if isinstance(v, (list, tuple)):
        return list(v)
    if isinstance(v, Val) and v.elems is not None:
        return list(v.elems)
    if v is None or isinstance(v, (int, dict)) or v is GARBAGE:
        raise Wrong("%s instead of a list" % (describe(Item(v, 0)),))
    raise Cannot("elements of %r" % (v,))


def props_wrong(d, got, want=None):
    e = {k: x for k, x in d.props.items() if want is None or k in want}
    g = entries(got)
    if list(g) != list(e) and set(g) != set(e):
        return "properties %s instead of %s" % (sorted(map(str, g)), sorted(e))
    for k in e:
        if g[k] != e[k]:
            return "property %s has the value %r" % (k, g[k])


def texts_wrong(d, got, want=None):
    e = {k: x for k, x in d.texts.items() if want is None or k in want}
    g = entries(got)
    if set(g) != set(e):
        return "texts %s instead of %s" % (sorted(map(str, g)), sorted(e))
    for k in e:
        if not same(g[k], e[k]) and [x for x in elements(g[k])] != list(d.pieces[k]):
            return "text %s has the pieces %r" % (k, elements(g[k]))


def types_wrong(d, names, schema):
    if elements(names) != list(d.layers):
        return "layers %s instead of %s" % (elements(names), list(d.layers))
    return schema_wrong(d, entries(schema), d.layers)


def type_is(t, x):
    if t == x.type or isinstance(t, T) and t.op == "enum" and str(t.a[1] if len(t.a) > 1 else t.a[0]).split(".")[-1] in ENUMS[x.type]:
        return True
    return False


ENUMS = {"str": ("STRING",), "span": ("SPAN",), "noderef": ("NODEREF",), "noderef_array": ("NODEREF_MANY",), "nodespan": ("NODEREF_SPAN",), "ext": ("EXT",), "i32": ("I32",)}


def schema_wrong(d, schema, layers):
    for l in layers:
        n, fs = d.layers[l]
        if l not in schema:
            return "no schema for layer %s" % l
        got = [tuple(x) for x in elements(schema[l])] if not isinstance(schema[l], Val) or not schema[l].mapping else list(schema[l].items.items())
        if [x[0] for x in got] != [x.name for x in fs]:
            return "layer %s has the fields %s instead of %s" % (l, [x[0] for x in got], [x.name for x in fs])
        for (k, t), x in zip(got, fs):
            if not isinstance(t, Val) or "typename" not in t.attrs:
                raise Cannot("type of a field: %r" % (t,))
            if not type_is(t.attrs["typename"], x):
                return "field %s.%s has the type %s instead of %s" % (l, k, show(t.attrs["typename"]) if isinstance(t.attrs["typename"], T) else t.attrs["typename"], x.type)
            if entries(t.attrs["options"]) != (x.args or {}):
                return "field %s.%s has the type options %s instead of %s" % (l, k, entries(t.attrs["options"]), x.args or {})


def document_wrong(m, d, doc, layers=None, columns=None):
    """None or what is wrong with the decoded document"""
    want = list(d.layers) if layers is None else layers
    if not isinstance(doc, Val) or "Document" not in doc.classes:
        raise Cannot("decoded document %r" % (doc,))
    r = props_wrong(d, get(m, doc, "props"))
    if r:
        return r
    ts = entries(get(m, doc, "texts"))
    if set(ts) != set(d.texts):
        return "texts %s instead of %s" % (sorted(ts), sorted(d.texts))
    for k, t in ts.items():
        if t.attrs.get("text") != "".join(d.pieces[k]):
            return "text %s is %r instead of %r" % (k, t.attrs.get("text"), "".join(d.pieces[k]))
    ls = entries(get(m, doc, "layers"))
    if set(ls) != set(want):
        return "layers %s instead of %s" % (list(ls), want)
    if list(ls) != want:
        return "layers in the order %s instead of %s" % (list(ls), want)
    r = schema_wrong(d, {l: v.attrs["schema"].attrs["fields"] for l, v in ls.items()}, want)
    if r:
        return r
    nodes = {l: elements(v.attrs["_nodes"]) for l, v in ls.items()}
    for l, v in ls.items():
        n, fs = d.layers[l]
        if len(nodes[l]) != n:
            return "layer %s has %d nodes instead of %d" % (l, len(nodes[l]), n)
        for i, x in enumerate(nodes[l]):
            if x.attrs.get("collection") is not v:
                return "node %d of layer %s does not belong to its layer" % (i, l)
            if x.attrs.get("_id") != i:
                return "node %d of layer %s has the number %r" % (i, l, x.attrs.get("_id"))
            for f in fs:
                r = value_wrong(d, f, l, i, x, ts, nodes)
                if r:
                    return "field %s of node %d of layer %s: %s" % (f.name, i, l, r)
            extra = set(x.items) - {f.name for f in fs}
            if extra:
                return "node %d of layer %s has the field %s" % (i, l, sorted(extra)[0])


def value_wrong(d, f, l, i, node, texts, nodes):
    c = d.columns[l, f.name].elems
    if f.type == "span":
        v = node.items.get(f.name)
        p = d.pieces[f.args["context"]]
        a, b = 0, len(p[0])
        if not isinstance(v, Val) or "TextSpan" not in v.classes:
            return "no span"
        if v.attrs.get("text") is not texts[f.args["context"]]:
            return "span of another text"
        if (v.attrs.get("start"), v.attrs.get("stop")) != (a, b):
            return "span [%s:%s] instead of [%d:%d]" % (v.attrs.get("start"), v.attrs.get("stop"), a, b)
        return None
    if c[i] is None:
        return "has the value %r instead of none" % (node.items[f.name],) if f.name in node.items else None
    if f.name not in node.items:
        return "has no value"
    v = node.items[f.name]
    if f.type.startswith("node"):
        t = nodes[f.args["layer"]][0]
        if f.type == "noderef":
            return None if v is t else "refers to %r" % (v,)
        if f.type == "noderef_array":
            return None if elements(v) == [t] else "refers to %r" % (elements(v),)
        return None if isinstance(v, Val) and "NodeSpan" in v.classes and v.attrs.get("args") == (t, t) else "is %r" % (v,)
    return None if v == c[i] else "has the value %r" % (v,)


def decoded(R):
    f = R.prog.func(QD)
    n = 0
    for d in models():
        for how in ("bytes", "file"):
            m = machine1(R)
            data = stream(m, d)
            n += len(data.parts)
            why = judged(m, lambda: document_wrong(m, d, m.run(f, [data if how == "bytes" else Stream("file", data.parts)], {})))
            if why:
                return R.bad("decoded", QD, "%s: %s" % (d.name, why), f.loc, trace=tr(m))
    R.good("decoded", QD, "%d items" % n, f.loc)


def loc_of(R, cls):
    c = R.prog.classes.get(cls)
    if c is None:
        raise Cannot("no class %s" % cls)
    return "%s:%d" % (c.module.rel, c.node.lineno)


class Access:
    """an encoded document that is accessed step by step"""

    def __init__(self, R, d):
        self.d = d
        self.m = machine1(R)
        self.doc = self.m.new(QP, stream(self.m, d))

    def do(self, what, args=()):
        """None or what is wrong with the answer"""
        return judged(self.m, lambda: self.answer(what, args))

    def answer(self, what, args):
        m, d = self.m, self.d
        r = m.invoke(self.doc, what, *args)
        if what == "properties":
            return props_wrong(d, r, args or None)
        if what == "texts":
            return texts_wrong(d, r, args or None)
        if what == "schema":
            a, b = r if isinstance(r, tuple) else elements(r)
            return types_wrong(d, a, b)
        if what == "document":
            return document_wrong(m, d, r, closure(d, args) if args else None)
        if what == "binary":
            return None if isinstance(r, Data) and r.parts == stream(m, d).parts else "gives other bytes"
        raise Cannot(what)


def closure(d, layers):
    """the layers and those their references lead to"""
    out, todo = set(), [l for l in layers if l in d.layers]
    while todo:
        l = todo.pop()
        if l not in out:
            out.add(l)
            todo += [f.args["layer"] for f in d.layers[l][1] if f.args and "layer" in f.args]
    return [l for l in d.layers if l in out]


def partial(R):
    n = 0
    loc = loc_of(R, QP)
    for d in models():
        for what in ("properties", "schema", "texts", "document"):
            a = Access(R, d)
            n += 1
            why = a.do(what)
            if why:
                return R.bad("partial", QP + "." + what, "%s: %s" % (d.name, why), loc, trace=tr(a.m))
    R.good("partial", QP, "%d accesses" % n, loc)


def skipped(R, q):
    f = R.prog.func(q)
    if f is None:
        raise Cannot("no %s" % q)
    n = 0
    for d in models():
        m = machine1(R)
        if q.endswith("decode_layer"):
            cases = [(l, c) for l, (k, fs) in d.layers.items() for c in [()] + [(x.name,) for x in fs] + [("nothing",)] + [tuple(x.name for x in fs[1:])]]
        else:
            ks = list(d.props if q.endswith("property") else d.texts)
            cases = [(None, c) for c in [()] + [(k,) for k in ks] + [("nothing",), tuple(ks), tuple(reversed(ks)), tuple(ks[:1]) + ("nothing",)]]
        for l, c in cases:
            tail = Val("what follows", ["str"])
            m.last = None
            if l is None:
                its = items_of(m, dict_val(d.props if q.endswith("property") else d.texts))
                args = []
            else:
                k, fs = d.layers[l]
                its = [Item(k, m.width(k))]
                for x in fs:
                    col = d.columns[l, x.name]
                    its += [Item(False, m.width(False)), Item(col, m.width(frozen_list(col)))]
                doc = Val("document", ["Document"], {"texts": dict_val({t: Val("text %s" % t, ["Text"], {"name": t}) for t in d.texts})})
                offs = dict_val({t: dict_val(offsets(p)) for t, p in d.pieces.items()})
                sch = list_val([(x.name, Val("type", ["DataType"], {"typename": E(ENUMS[x.type][0]), "options": dict_val(x.args or {})})) for x in fs])
                args = [doc, l, offs, sch]
            u = Bin(Stream("stream", its + [Item(tail, m.width(tail))]))
            n += 1

            def go():
                m.run(f, [u] + args + list(c), {})
                x = u.m_next(m)
                if x is not tail:
                    return "leaves %s to be read" % describe(Item(x, 0))
            why = judged(m, go)
            if why:
                return R.bad("skipped", q, "%s, asking for %s: %s" % (d.name if l is None else "layer %s" % l, ", ".join(c) or "all", why), f.loc, trace=tr(m))
    R.good("skipped", q, "%d selections" % n, f.loc)


def offsets(pieces):
    out, at = {0: 0}, 0
    for i, p in enumerate(pieces):
        at += len(p)
        out[i + 1] = at
    return out


def inline(f):
    return bool(f.prop)
