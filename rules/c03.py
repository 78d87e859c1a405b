"""C03: a decoded document declares the layers, fields, types and options of the encoded one, in the same order."""
from rules.common import *
from rules.c04 import model_base
from rules.c02 import with_lib
from effects import events

NAMES = {"I32": "int32", "I64": "int64", "F64": "float64", "STRING": "string", "BOOL": "bool", "SPAN": "textspan", "NODEREF": "noderef",
         "NODEREF_MANY": "noderef_many", "NODEREF_SPAN": "nodespan"}
OPTS = {"I32": [{}, {"default": 0}, {"default": 7}, {"default": -1}], "I64": [{}, {"default": 0}, {"default": 2 ** 40}],
        "F64": [{}, {"default": 0.0}, {"default": 1.5}], "BOOL": [{}, {"default": False}, {"default": True}],
        "STRING": [{}, {"default": ""}, {"default": "x"}], "BINARY": [{}], "SPAN": [{"context": "main"}, {"context": "other"}],
        "NODEREF": [{"layer": "T"}], "NODEREF_MANY": [{"layer": "T"}], "NODEREF_SPAN": [{"layer": "T"}], "EXT": [{"type": "x"}]}
# layers and fields in an order that no sorting produces
LAYERS = {"zeta": ["f2", "f1", "f3"], "alpha": ["g"], "mid": ["h2", "h1"], "beta": []}


def opt(v):
    return Val("options%r" % (v,), ["dict"], items=dict(v), length=len(v), truth=bool(v))


def check(R):
    R.rule("written", "the type of a field is written as its kind's own name, with all its options whenever it has any")
    R.rule("created", "the type rebuilt from a kind and options has that kind and all options, and validates with the class a fresh declaration of the kind uses")
    R.rule("read", "a decoder reads the schema as the written layers and fields, in order, each with the type rebuilt from the written name and all written options")
    R.rule("listed", "an encoder writes every layer and field of the document in their order, with the type of the field")
    R.rule("declared", "a decoder declares exactly the read layers and fields, in order, with the read types")
    names = {}
    for K in KINDS + ("EXT",):
        R.guarded("written", K, lambda: written(R, K, names))
        R.guarded("created", K, lambda: created(R, K))
    if names:
        dup = [(a, b) for a in names for b in names if a < b and names[a] == names[b]]
        if dup:
            R.bad("written", "names", "%s and %s are both written as %r" % (dup[0] + (names[dup[0][0]],)), "model.py")
        else:
            R.good("written", "names", "%d kinds have different names" % len(names), "model.py")
    R.guarded("read", "binary", lambda: read_binary(R, names))
    R.guarded("read", "json", lambda: read_json(R, names))
    R.guarded("listed", "codec", lambda: listed_codec(R))
    R.guarded("listed", "json", lambda: listed_json(R))
    R.guarded("listed", "binary", lambda: listed_binary(R))
    R.guarded("declared", "binary", lambda: declared_binary(R))
    R.guarded("declared", "schema", lambda: declared_schema(R))


def deep(v):
    if isinstance(v, Val) and v.mapping:
        return {k: deep(x) for k, x in v.items.items()}
    if isinstance(v, dict):
        return {k: deep(x) for k, x in v.items()}
    if isinstance(v, (tuple, list)):
        return tuple(deep(x) for x in v)
    return v


# ------------------------------------------------------------------ one type
def written(R, K, names):
    f = R.prog.func("DataType.encode")
    if f is None:
        raise Cannot("DataType.encode not found")
    cls = type_class(R, K)
    g = cls.find("encode") if cls is not None else None
    f = g if g is not None else f
    en, ps = R.paths(f, self_cls=cls)
    ps = frozen(en, ps)
    name = params(en, f)[0]

    def base_of(o):
        ty = Val("ty", [cls.name if cls else "DataType"], {"typename": E(K), "options": opt(o)})
        return with_lib(lambda t, ev: ty if t.op == "sym" and t.a[0] == name else NotImplemented)

    def judge(o, k, v, p):
        if k == "raise":
            return "fails with %s" % v
        v = deep(v)
        if o:
            if isinstance(v, str):
                return "written without its options %r" % (o,)
            if not isinstance(v, dict):
                raise Cannot("written as %r" % (v,))
            if v.get("args") != o or any(type(v["args"][z]) is not type(o[z]) for z in o):
                return "written with the options %r" % (v.get("args"),)
            n = v.get("type")
        else:
            n = v.get("type") if isinstance(v, dict) else v
            if isinstance(v, dict) and v.get("args"):
                return "written with the options %r" % (v["args"],)
        if not isinstance(n, str):
            raise Cannot("name %r" % (n,))
        if names.setdefault(K, n) != n:
            return "written as %r and as %r" % (names[K], n)
    cells = OPTS[K] + ([{"default": None}] if "default" in OPTS[K][-1] else [])
    decision(R, "written", K, ps, [("%s with options %r" % (K, o), o) for o in cells], base_of, judge, f.loc, en=en)


def type_class(R, K):
    """class of the types a fresh declaration of the kind has"""
    if K not in NAMES:
        return R.prog.classes.get("DataTypeBinary" if K == "BINARY" else "DataType")
    f = R.prog.func("DataTypes." + NAMES[K])
    if f is None:
        raise Cannot("no factory for %s" % K)
    en, ps = R.paths(f)
    cs = set()
    for p in ps:
        if p.returns:
            v = p.outcome[1]
            if v.op == "obj" and v.a[1] == "inst":
                k, o = dtype_of(v, p.st, en)
                if k == K:
                    cs.add(v.a[2])
    if len(cs) != 1:
        raise Cannot("classes of %s: %s" % (K, sorted(cs)))
    return R.prog.classes[cs.pop()]


def created(R, K):
    f = R.prog.func("DataTypes.create")
    if f is None:
        raise Cannot("no constructor by kind")
    en0 = R.engine()
    pn = params(en0, f)
    en, ps = R.paths(f, args={pn[0]: E(K)})
    want = type_class(R, K)

    for o in OPTS[K]:
        cur = {}
        base = with_lib(lambda t, ev: (opt(cur["o"]) if t.a[0].startswith("**") else E(K) if t.a[0] == pn[0] else NotImplemented) if t.op == "sym" else NotImplemented)
        n = 0
        cur["o"] = o
        for p, ev in outcomes(ps, Evaluator(base, R.prog, en)):
            cur["o"] = changed(p, ev, dict(o))
            ev = Evaluator(base, R.prog, en)
            ev.cur = p
            if p.raises:
                return R.bad("created", K, "rebuilding the type with options %r fails: %s" % (o, exc_name(p.outcome[1])), f.loc, trace=trace(p))
            v = p.outcome[1]
            if not (v.op == "obj" and v.a[1] == "inst"):
                raise Cannot("result %s" % show(v)[:80])
            n += 1
            if valid_of(R, R.prog.classes[v.a[2]]) is not valid_of(R, want):
                return R.bad("created", K, "the rebuilt type is a %s, a declared one a %s: values are validated by another rule" % (v.a[2], want.name), f.loc)
            tn = hget(en, p.st, v, "typename")
            if tn is None or tn.op != "enum":
                raise Cannot("kind of the result")
            if tn is not E(K):
                return R.bad("created", K, "the rebuilt type has the kind %s" % tn.a[1], f.loc)
            ov = hget(en, p.st, v, "options")
            if ov is None:
                raise Cannot("options of the result")
            got = deep(ev.ev(contents(en, p.st, ov) if ov.op == "obj" else ov))
            if got != o:
                return R.bad("created", K, "the options %r become %r" % (o, got), f.loc, trace=trace(p))
        if not n:
            raise Cannot("no path for options %r" % (o,))
    R.good("created", K, "%d option sets; validated by %s" % (len(OPTS[K]), want.name), f.loc)


def changed(p, ev, o):
    """the options after the changes the path makes to the dictionary it was given"""
    for e in p.events:
        if e.kind in ("mut", "setitem", "delitem") and e.a[0].op == "sym" and e.a[0].a[0].startswith("**"):
            if e.kind == "setitem":
                o[ev.ev(e.a[1])] = ev.ev(e.a[2])
            elif e.kind == "delitem":
                o.pop(ev.ev(e.a[1]), None)
            elif e.a[1] == "pop":
                o.pop(ev.ev(e.a[2][0]), None)
            elif e.a[1] == "setdefault":
                o.setdefault(*[ev.ev(x) for x in e.a[2]])
            else:
                raise Cannot("change of the options by %s" % e.a[1])
    return o


def direct(t, p, ev, R):
    """a type object built without the constructor by kind, as the type its class amounts to"""
    for e, nest in events(p.events):
        if e.kind == "new" and e.a[0] is t:
            k = ev.ev(e.a[2][0])
            c = R.prog.classes[e.a[1].a[0]]
            if not (isinstance(k, T) and k.op == "enum"):
                break
            o = {}
            for n, v in e.a[3]:
                o.update(deep(ev.ev(v)) if n.startswith("**") else {n: ev.ev(v)})
            if valid_of(R, c) is valid_of(R, type_class(R, k.a[1])):
                return token(k.a[1], o)
            return ("type %s validated as plain %s" % (k.a[1], c.name),)
    raise Cannot("type %s" % show(t))


def is_type_obj(t, R):
    return t.op == "obj" and t.a[1] == "inst" and t.a[2] in R.prog.classes and R.prog.classes["DataType"] in R.prog.classes[t.a[2]].mro()


def valid_of(R, c):
    return c.find("is_valid")


# ------------------------------------------------------------------ model schema
def wire(names):
    """{layer: {field: (kind, options)}} and its written form"""
    ks = [("I32", {"default": 7}), ("STRING", {}), ("NODEREF", {"layer": "zeta"}), ("SPAN", {"context": "main"}), ("BOOL", {}), ("F64", {"default": 0.0})]
    out, i = {}, 0
    for l, fs in LAYERS.items():
        out[l] = {}
        for f in fs:
            out[l][f] = ks[i]
            i += 1
    enc = {l: {f: ({"type": names[k], "args": o} if o else names[k]) for f, (k, o) in fs.items()} for l, fs in out.items()}
    return out, enc


def create_call(t, ev):
    """the value standing for a type rebuilt from a kind and options"""
    args = [ev.ev(x) for x in t.a[1]]
    o = {}
    for k, v in t.a[2]:
        if k.startswith("**"):
            o.update(deep(ev.ev(v)))
        else:
            o[k] = ev.ev(v)
    if len(args) != 1 or not isinstance(args[0], T) or args[0].op != "enum":
        raise Cannot("kind of a rebuilt type")
    return ("type", args[0].a[1], tuple(sorted(o.items(), key=repr)))


def token(k, o):
    return ("type", k, tuple(sorted(o.items(), key=repr)))


def compare(got, want, what):
    """explanation of the first difference of two ordered schemas [(layer, [(field, type)])]"""
    if [l for l, fs in got] != [l for l, fs in want]:
        return "the layers %s come back as %s" % ([l for l, fs in want], [l for l, fs in got])
    for (l, a), (_, b) in zip(got, want):
        if [x[0] for x in a] != [x[0] for x in b]:
            return "the fields %s come back as %s" % ([x[0] for x in b], [x[0] for x in a])
        for (n, x), (_, y) in zip(a, b):
            if x != y:
                return "the type %s%r of field %r comes back as %s" % (y[1], dict(y[2]), n, "%s%r" % (x[1], dict(x[2])) if isinstance(x, tuple) and len(x) == 3 else x)


def read_binary(R, names):
    f = R.prog.func("MsgpackCodec.decode_schema")
    if f is None:
        raise Cannot("decoder not found")
    en, ps = R.paths(f, no_inline=("DataTypes.create", "NodeLayerSchema.add"))
    model, enc = wire(names)
    want = [(l, [(n, token(*ko)) for n, ko in fs.items()]) for l, fs in model.items()]
    n = 0
    for p in ps:
        if not p.returns:
            continue
        pos = next_positions(p)

        def base(t, ev):
            if t in pos:
                depth, k, Ls = pos[t]
                if depth == 0 and k == 0:
                    return tuple(model)
                bd = binding(ev, Ls)
                if depth == 1 and k == 0 and "elem" in bd[0]:
                    return len(model[bd[0]["elem"]])
                if depth == 2:
                    l, i = bd[0].get("elem"), bd[1].get("idx")
                    if l not in model or i is None:
                        raise Cannot("which field")
                    fn = list(model[l])[i]
                    kind, o = model[l][fn]
                    return (fn, bool(o), names[kind], dict(o))[k] if k < (4 if o else 3) else over()
                raise Cannot("item of the schema")
            if t.op == "call" and is_create(t):
                return create_call(t, ev)
            if is_type_obj(t, R):
                return direct(t, p, ev, R)
            return NotImplemented

        def over():
            raise Raised("a field takes more items than were written")
        ev = Evaluator(with_lib(base), R.prog, en)
        ev.cur = p
        if not solve(tuple(p.guards), ev, loop_infos(p.events)):
            continue
        try:
            v = ev.ev(en.freeze(p.outcome[1], p.st))
        except Raised as x:
            return R.bad("read", "binary", str(x), f.loc, trace=trace(p))
        if not (isinstance(v, tuple) and len(v) == 2):
            raise Cannot("result %r" % (v,))
        types, sch = deep(v[0]), v[1]
        sch = dict(sch.items if isinstance(sch, Val) else sch)
        n += 1
        if tuple(types) != tuple(model):
            return R.bad("read", "binary", "the layers %s come back as %s" % (list(model), list(types)), f.loc)
        if set(sch) != set(model):
            return R.bad("read", "binary", "the schema holds the layers %s of %s" % (sorted(sch), sorted(model)), f.loc)
        m = compare([(l, [tuple(x) for x in pairs(sch[l])]) for l in types], want, "binary")
        if m:
            return R.bad("read", "binary", m, f.loc, trace=trace(p))
    if not n:
        raise Cannot("no path reads the schema")
    R.good("read", "binary", "%d layers, %d fields" % (len(model), sum(map(len, model.values()))), f.loc)


def pairs(v):
    v = v.elems if isinstance(v, Val) and v.elems is not None else v.items if isinstance(v, Val) else v
    return list(v.items()) if isinstance(v, dict) else list(v)


def is_create(t):
    return any(z.op == "func" and z.a[0].endswith("DataTypes.create") for z in walk(t.a[0]))


def next_positions(p):
    """term of an item taken from the stream -> (nesting depth, number among the items taken there, loops)"""
    out, cnt = {}, {}
    for e, nest in events(p.events):
        if e.kind == "next":
            key = tuple((li.L, id(lp)) for li, lp in nest)
            out[e.a[2]] = (len(nest), cnt.get(key, 0), tuple(li.L for li, lp in nest))
            cnt[key] = cnt.get(key, 0) + 1
    return out


def binding(ev, Ls):
    """what the loop variables of the loops are bound to: [{"elem":, "idx":}]"""
    out = []
    bind = getattr(ev, "bind", {})
    for L in Ls:
        d = {}
        for k, v in bind.items():
            if k.op in ("elem", "idx") and (k.a[-1] == L or L in ORIGINS.get(k.a[-1], ())):
                d[k.op] = v
        out.append(d)
    return out


def layers_declared(p, ev, what):
    """[(layer, [(field, type)])] declared on the document by the path, in order"""
    schemas, out = {}, []
    def keep(e):
        return e.kind == "new" and e.a[1].a[0] == "NodeLayerSchema" or e.kind == "call" and callee_name(e) in ("NodeLayerSchema.add", "Document.add_layer")
    for e, E2 in occurrences(p.events, ev, keep=keep):
        if e.kind == "new" and e.a[1].a[0] == "NodeLayerSchema":
            schemas[e.a[0]] = (E2.ev(e.a[2][0]), [])
        elif e.kind == "call" and callee_name(e) == "NodeLayerSchema.add":
            o = e.a[0].a[0] if e.a[0].op == "bound" else None
            if o not in schemas:
                raise Cannot("field added to %s" % show(e.a[0])[:60])
            schemas[o][1].append((E2.ev(e.a[1][0]), E2.ev(e.a[1][1])))
        elif e.kind == "call" and callee_name(e) == "Document.add_layer":
            if not e.a[1] or e.a[1][0] not in schemas:
                raise Cannot("layer declared from %s" % show(e.a[1][0] if e.a[1] else e.a[0])[:60])
            n, fs = schemas[e.a[1][0]]
            out.append((n, list(fs)))
    if not out or not any(fs for n, fs in out):
        raise Cannot("no declaration of %s recognised" % what)
    return out


def callee_name(e):
    for z in (e.a[0],) + tuple(x for x in e.a[0].a if isinstance(x, T)):
        if z.op == "func":
            return z.a[0].split(":")[-1]


DECL = ("DataTypes.create", "NodeLayerSchema.add", "Document.add_layer", "Document.add_text", "TextSpan.__init__", "NodeSpan.__init__", "MsgpackCodec.decode")


def read_json(R, names):
    f = R.prog.func("JsonCodec.decode_object")
    if f is None:
        raise Cannot("decoder not found")
    en, ps = R.paths(f, attr_hook=kind_hook("I32"), no_inline=DECL)
    a = params(en, f)
    model, enc = wire(names)
    docobj = {"DM10": {"props": {}, "schema": enc, "texts": {}, "num_nodes": {l: 0 for l in model},
                       "types": {l: {n: () for n in fs} for l, fs in model.items()}}}
    want = [(l, [(n, token(*ko)) for n, ko in fs.items()]) for l, fs in model.items()]

    def base(t, ev):
        if t.op == "sym":
            return docobj if t.a[0] == a[0] else NotImplemented
        if t.op == "call" and is_create(t):
            return create_call(t, ev)
        if t.op == "attr" and t.a[1] == "typename":
            v = ev.ev(t.a[0])
            if isinstance(v, tuple) and v and v[0] == "type":
                return E("I32")
        if t.op == "attr" and t.a[1] == "options":
            v = ev.ev(t.a[0])
            if isinstance(v, tuple) and len(v) == 3 and v[0] == "type":
                return opt(dict(v[2]))
        if is_type_obj(t, R):
            return direct(t, p, ev, R)
        return NotImplemented
    n = 0
    for p in ps:
        if not p.returns:
            continue
        ev = Evaluator(with_lib(base), R.prog, en)
        ev.cur = p
        try:
            if not solve(tuple(p.guards), ev, loop_infos(p.events)):
                continue
            got = layers_declared(p, ev, "JSON schema")
        except Raised as x:
            return R.bad("read", "json", "reading the schema fails: %s" % x, f.loc, trace=trace(p))
        n += 1
        m = compare(got, want, "json")
        if m:
            return R.bad("read", "json", m, f.loc, trace=trace(p))
        break
    if not n:
        raise Cannot("no path reads the schema")
    R.good("read", "json", "%d layers, %d fields" % (len(model), sum(map(len, model.values()))), f.loc)


# ------------------------------------------------------------------ writers
def document():
    tys, layers = {}, {}
    for l, fs in LAYERS.items():
        tys[l] = {f: Val("type of %s.%s" % (l, f), ["DataType"], {"typename": E("I32"), "options": opt({"default": 0})}) for f in fs}
        flds = Val("fields of %s" % l, ["dict"], items=tys[l], length=len(fs), truth=bool(fs))
        layers[l] = Val(l, ["NodeLayerCollection"], {"name": l, "num": 0, "fieldtypes": flds, "_nodes": Val("slots", ["list"], elems=[], length=0, truth=False),
                                                     "_schema": Val("schema", ["NodeLayerSchema"], {"fields": flds, "name": l})},
                        elems=[], length=0, truth=False)
    ls = Val("layers", ["dict"], items=layers, length=len(layers))
    ts = Val("texts", ["dict"], items={}, length=0, truth=False)
    return Val("doc", ["Document"], {"_layers": ls, "layers": ls, "_texts": ts, "texts": ts, "props": {}}), tys


def listed_codec(R):
    f = R.prog.func("Codec.encode")
    if f is None:
        raise Cannot("encoder not found")
    en, ps = R.paths(f, attr_hook=kind_hook("I32"), no_inline=("Document.compile", "Text.compile", "DataType.encode"), args={"doc": sym("doc", "Document")})
    doc, tys = document()

    def enc(t, ev):
        x = ev.ev(t.a[0].a[0])
        return ("written", x.name)
    base = with_lib(model_base({"doc": doc}, {"Document.compile": {}, "DataType.encode": enc}))
    n = 0
    for p in ps:
        if not p.returns:
            continue
        ev = Evaluator(base, R.prog, en)
        ev.cur = p
        if not solve(tuple(p.guards), ev, loop_infos(p.events)):
            continue
        r = ev.ev(en.freeze(p.outcome[1], p.st))
        if not (isinstance(r, tuple) and len(r) == 4):
            raise Cannot("result of the encoder")
        n += 1
        sch, types = deep(r[3]), deep(r[1])
        want = [(l, [(x, ("written", tys[l][x].name)) for x in fs]) for l, fs in LAYERS.items()]
        got = [(l, list(fs.items())) for l, fs in sch.items()]
        if got != want:
            return R.bad("listed", "codec", "a document with the layers %s is written with the schema %s" % (
                [(l, fs) for l, fs in LAYERS.items()], [(l, [x for x, y in fs]) if [x for x, y in fs] != LAYERS.get(l) else (l, fs) for l, fs in got]), f.loc, trace=trace(p))
        if list(types) != list(LAYERS):
            return R.bad("listed", "codec", "the layers %s are written in the order %s" % (list(LAYERS), list(types)), f.loc)
    if not n:
        raise Cannot("no path encodes the document")
    R.good("listed", "codec", "%d layers" % len(LAYERS), f.loc)


def encoded(tys):
    sch = {l: {f: ("written", v.name) for f, v in fs.items()} for l, fs in tys.items()}
    return ({}, {l: {f: () for f in fs} for l, fs in tys.items()}, {l: 0 for l in tys}, sch)


def listed_json(R):
    f = R.prog.func("JsonCodec.encode_object")
    if f is None:
        raise Cannot("encoder not found")
    en, ps = R.paths(f, attr_hook=kind_hook("I32"), no_inline=("Codec.encode",), args={"doc": sym("doc", "Document")})
    doc, tys = document()
    res = encoded(tys)
    n = 0
    for p in ps:
        if not p.returns:
            continue
        ev = Evaluator(with_lib(model_base({"doc": doc}, {"Codec.encode": res})), R.prog, en)
        ev.cur = p
        if not solve(tuple(p.guards), ev, loop_infos(p.events)):
            continue
        for e, E2 in occurrences(p.events, ev, keep=lambda e: e.kind in ("setitem", "delitem", "mut")):
            if e.kind in ("setitem", "delitem", "mut") and e.a[0].op == "item" and any(is_const(x, 3) for x in walk(e.a[0])):
                raise Cannot("schema changed")
        r = deep(ev.ev(en.freeze(p.outcome[1], p.st)))
        s = r.get("DM10", {}).get("schema") if isinstance(r, dict) else None
        if s is None:
            raise Cannot("schema of the JSON form")
        n += 1
        if [(l, list(x.items())) for l, x in s.items()] != [(l, list(x.items())) for l, x in res[3].items()]:
            return R.bad("listed", "json", "the schema %r is written as %r" % ({l: list(x) for l, x in res[3].items()}, {l: list(x) for l, x in s.items()}), f.loc)
    if not n:
        raise Cannot("no path encodes the document")
    R.good("listed", "json", "the schema of the encoder is written as it is", f.loc)


def listed_binary(R):
    f = R.prog.func("MsgpackCodec.encode")
    if f is None:
        raise Cannot("encoder not found")
    en, ps = R.paths(f, no_inline=("Codec.encode",), args={"doc": sym("doc", "Document")})
    doc, tys = document()
    res = list(encoded(tys))
    names = {"I32": "i", "STRING": "s", "NODEREF": "r", "SPAN": "p", "BOOL": "b", "F64": "f"}
    model, enc = wire(names)
    res[3] = enc
    n = 0
    want = [tuple(model)]
    for l, fs in enc.items():
        want.append(len(fs))
        for k, v in fs.items():
            want += [k, True, v["type"], v["args"]] if isinstance(v, dict) else [k, False, v]
    for p in ps:
        if not p.returns:
            continue
        ev = Evaluator(with_lib(model_base({"doc": doc}, {"Codec.encode": tuple(res)})), R.prog, en)
        ev.cur = p
        if not solve(tuple(p.guards), ev, loop_infos(p.events)):
            continue
        seqs = {}
        for e, E2 in occurrences(p.events, ev, keep=packs):
            if packs(e):
                try:
                    v = deep(E2.ev(e.a[1][0]))
                except Cannot:
                    v = UNK
                seqs.setdefault(e.a[1][1], []).append(v)
        n += 1
        ok = any(z[i:i + len(want)] == want for z in seqs.values() for i in range(len(z)))
        if ok:
            continue
        cand = [z for z in seqs.values() if any(isinstance(x, tuple) and set(x) == set(model) for x in z)]
        if len(cand) != 1:
            raise Cannot("schema items not recognised")
        z = cand[0]
        i = [isinstance(x, tuple) and set(x) == set(model) for x in z].index(True)
        z = z[i:]
        for a, b in zip(z, want):
            if a is UNK:
                raise Cannot("schema item not recognised")
            if a != b or type(a) is not type(b):
                return R.bad("listed", "binary", "where %r is expected in the written schema, %r is written" % (b, a), f.loc, trace=trace(p))
        raise Cannot("schema items not recognised")
    if not n:
        raise Cannot("no path encodes the document")
    R.good("listed", "binary", "%d items" % len(want), f.loc)


class Unk:
    def __repr__(self):
        return "?"


UNK = Unk()


def packs(e):
    return e.kind == "call" and e.a[0].op == "ext" and e.a[0].a[0].split(".")[-1] == "pack" and len(e.a[1]) == 2


# ------------------------------------------------------------------ declaring
def declared_binary(R):
    f = R.prog.func("Codec.commit_layers")
    if f is None:
        raise Cannot("not found")
    en, ps = R.paths(f, attr_hook=kind_hook("I32"), no_inline=DECL)
    a = params(en, f)
    want = [(l, [(x, ("type", l + "." + x, ())) for x in fs]) for l, fs in LAYERS.items()]
    # the dictionary handed over need not be in document order
    b = {a[0]: Val("doc", ["Document"]), a[1]: tuple(LAYERS), a[2]: {l: tuple(fs) for l, fs in sorted(want)}, a[3]: {l: () for l in LAYERS}}

    def base(t, ev):
        if t.op == "attr" and t.a[1] == "typename":
            return E("I32")
        if is_type_obj(t, R):
            raise Cannot("type built in between")
        return b.get(t.a[0], NotImplemented) if t.op == "sym" else NotImplemented
    n = 0
    for p in ps:
        if not p.returns:
            continue
        ev = Evaluator(with_lib(base), R.prog, en)
        ev.cur = p
        if not solve(tuple(p.guards), ev, loop_infos(p.events)):
            continue
        n += 1
        m = compare(layers_declared(p, ev, "schema"), want, "")
        if m:
            return R.bad("declared", "binary", m, f.loc, trace=trace(p))
        break
    if not n:
        raise Cannot("no path declares the layers")
    R.good("declared", "binary", "%d layers" % len(LAYERS), f.loc)


def declared_schema(R):
    """a field added to a schema is declared with the given type under the given name"""
    f = R.prog.func("NodeLayerSchema.add")
    if f is None:
        raise Cannot("not found")
    en, ps = R.paths(f)
    a = params(en, f)
    ty = Val("ty", ["DataTypeInt32"], {"typename": E("I32"), "options": opt({})})
    s = Val("schema", ["NodeLayerSchema"], {"name": "L", "fields": Val("fields", ["dict"], items={"g": ty}, length=1)})
    b = {a[0]: s, a[1]: "f", a[2]: ty}

    def base(t, ev):
        if t.op == "call" and t.a[0] is B("callable"):
            return False
        return b.get(t.a[0], NotImplemented) if t.op == "sym" else NotImplemented
    rs = outcomes(ps, Evaluator(with_lib(base), R.prog, en))
    if not rs:
        raise Cannot("no path")
    for p, ev in rs:
        if p.raises:
            return R.bad("declared", "schema", "adding a field with a type fails: %s" % exc_name(p.outcome[1]), f.loc, trace=trace(p))
        sets = [e for e, E2 in occurrences(p.events, ev) if e.kind == "setitem"]
        if not sets:
            raise Cannot("no declaration recognised")
        got = [(ev.ev(e.a[1]), ev.ev(e.a[2])) for e in sets]
        if [k for k, v in got] != ["f"] or any(v is not ty for k, v in got):
            return R.bad("declared", "schema", "the field 'f' with type ty is stored as %r" % (got,), f.loc, trace=trace(p))
    R.good("declared", "schema", "stored under its name with its type", f.loc)
