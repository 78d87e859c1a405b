"""C04: only valid documents are encoded: the decisions of Document.compile and how every encoder reaches it."""
from rules.common import *
from effects import events

REFS = ("NODEREF", "NODEREF_MANY", "NODEREF_SPAN")
CHECKS = ("NodeLayerCollection.validate",)


def doc_model(K, foreign, extra, missing=False, at=0):
    """a document with one layer L, one field f of kind K and two nodes that set it; node at is the faulty one:
    foreign: its value belongs to another document"""
    text = Val("text", ["Text"], {"name": "main"}, length=8)
    text.attrs["text"] = Val("str", ["str"], length=8)
    text2 = Val("foreign text", ["Text"], {"name": "main"}, length=8)
    text2.attrs["text"] = Val("str", ["str"], length=8)
    T = Val("T", ["NodeLayerCollection"], {"name": "T"})
    T2 = Val("foreign T", ["NodeLayerCollection"], {"name": "T"})
    tn = [Val("t%d" % i, ["Node"], {"_id": i, "collection": T, "i": i}) for i in range(2)]
    fn = [Val("x%d" % i, ["Node"], {"_id": i, "collection": T2, "i": i}) for i in range(2)]
    ty = Val("ty", ["DataType"], {"typename": E(K)})
    opts = {"layer": "T"} if K in REFS else {"context": "main"} if K == "SPAN" else {}
    ty.attrs["options"] = Val("opts", ["dict"], items=opts, length=len(opts), truth=bool(opts))
    def value(bad):
        ns = fn if bad else tn
        return {"SPAN": Val("span", ["TextSpan"], {"text": text2 if bad else text, "start": 1, "stop": 3, "start_offset": 1, "stop_offset": 3}),
                "NODEREF": ns[0], "NODEREF_MANY": Val("list", ["list"], elems=[tn[0], ns[1]], length=2),
                "NODEREF_SPAN": Val("nspan", ["NodeSpan"], {"left": ns[0], "right": ns[1]})}.get(K, 7)
    L = Val("L", ["NodeLayerCollection"], {"name": "L", "num": 2})
    ns = []
    for i in range(2):
        its = {"f": value(foreign and i == at)}
        if extra and i == at:
            its["undeclared"] = 1
        ns.append(Val("n%d" % i, ["Node"], {"_id": i, "collection": L}, items=its, length=len(its)))
    flds = Val("fields", ["dict"], items={"f": ty}, length=1)
    L.attrs.update({"_schema": Val("schema", ["NodeLayerSchema"], {"fields": flds, "name": "L"}), "fieldtypes": flds,
                    "_nodes": Val("slots", ["list"], elems=ns, length=2)})
    L.elems, L.length = ns, 2
    for t in (T, T2):
        t.attrs.update({"_schema": Val("schemaT", ["NodeLayerSchema"], {"fields": Val("nofields", ["dict"], items={}, length=0, truth=False), "name": "T"}),
                        "num": 0, "_nodes": Val("slotsT", ["list"], elems=[], length=0, truth=False)})
        t.elems, t.length, t.truth = [], 0, False
    layers = {"L": L}
    if not (missing and K in REFS):
        layers["T"] = T
    texts = {} if missing and K == "SPAN" else {"main": text}
    doc = Val("doc", ["Document"], {"_layers": Val("layers", ["dict"], items=layers, length=len(layers)),
                                    "_texts": Val("texts", ["dict"], items=texts, length=len(texts), truth=bool(texts))})
    return doc, ns[at]


def setlike(x):
    if isinstance(x, Val):
        if x.mapping:
            return tuple(x.items)
        return tuple(x.elems) if x.elems is not None else None
    if isinstance(x, dict):
        return tuple(x)
    return tuple(x) if isinstance(x, (list, tuple)) else None


def model_base(syms, calls):
    """syms: parameter values; calls: function name suffix -> value of a call that is not looked into"""
    def base(t, ev):
        if t.op == "sym":
            return syms.get(t.a[0], NotImplemented)
        if t.op == "item" and t.a[1].op == "slice":
            x = ev.ev(t.a[0])
            if isinstance(x, Val) and x.elems is not None:
                return tuple(x.elems[ev.ev(t.a[1])])
        if t.op == "call":
            f = t.a[0]
            if f.op == "class" and f.a[0] == "NodeList" and t.a[1]:
                return ev.ev(t.a[1][0])
            for z in (f,) + tuple(x for x in f.a if isinstance(x, T)):
                if z.op == "func":
                    for k, v in calls.items():
                        if z.a[0].split(":")[-1] == k:
                            return v(t, ev) if callable(v) else v
            nm = f.a[1] if f.op in ("meth", "bound", "vmeth") and isinstance(f.a[1], str) else None
            if nm in calls:
                return calls[nm](t, ev) if callable(calls[nm]) else calls[nm]
            if nm in ("difference", "intersection", "union", "issubset", "issuperset", "isdisjoint", "symmetric_difference") and len(t.a[1]) == 1:
                a, b = setlike(ev.ev(f.a[0])), setlike(ev.ev(t.a[1][0]))
                if a is not None and b is not None:
                    return {"difference": tuple(x for x in a if x not in b), "intersection": tuple(x for x in a if x in b),
                            "union": a + tuple(x for x in b if x not in a), "issubset": all(x in b for x in a),
                            "issuperset": all(x in a for x in b), "isdisjoint": not any(x in b for x in a),
                            "symmetric_difference": tuple(x for x in a if x not in b) + tuple(x for x in b if x not in a)}[nm]
            if f.op == "builtin" and f.a[0] in ("set", "frozenset") and len(t.a[1]) == 1:
                x = setlike(ev.ev(t.a[1][0]))
                if x is not None:
                    return x
            if f.op == "builtin" and f.a[0] in ("any", "all") and len(t.a[1]) == 1:
                x = ev.ev(t.a[1][0])
                if isinstance(x, (list, tuple)):
                    return any(ev.tv(y) for y in x) if f.a[0] == "any" else all(ev.tv(y) for y in x)
        if t.op in ("sub", "band", "bor") and len(t.a) == 2:
            a, b = ev.ev(t.a[0]), ev.ev(t.a[1])
            if not isinstance(a, (int, float)) and not isinstance(b, (int, float)):
                a, b = setlike(a), setlike(b)
                if a is not None and b is not None:
                    return tuple(x for x in a if x not in b) if t.op == "sub" else tuple(x for x in a if x in b) if t.op == "band" \
                        else a + tuple(x for x in b if x not in a)
        if t.op in ("lt", "le", "gt", "ge"):
            a, b = ev.ev(t.a[0]), ev.ev(t.a[1])
            if isinstance(a, tuple) or isinstance(b, tuple) or isinstance(a, Val) or isinstance(b, Val):
                a, b = setlike(a), setlike(b)
                if a is not None and b is not None and t.op in ("le", "ge"):
                    a, b = (a, b) if t.op == "le" else (b, a)
                    return all(x in b for x in a)
                raise Cannot(show(t))
        return NotImplemented
    return base


def check(R):
    R.rule("decision", "for every combination of options and faults, the compilation every encoder starts with refuses exactly the faulty documents")
    R.rule("references", "a value belonging to another document's text or nodes is refused, for every kind of reference, and own values are not")
    R.rule("default", "by default undeclared fields are refused and values are validated")
    R.rule("compiled", "every encoder compiles the document it is given before it produces output")
    R.rule("options", "the options given to an encoder reach the compilation unchanged")
    for K in ("I32", "SPAN", "NODEREF", "NODEREF_MANY", "NODEREF_SPAN"):
        R.guarded("decision", "Document.compile[%s]" % K, lambda: compile_decision(R, K))
    for K in KINDS:
        R.guarded("references", "Document._verify_references[%s]" % K, lambda: verify(R, K))
    R.guarded("default", "Document.compile", lambda: defaults(R))
    encoders(R)


def compile_decision(R, K):
    f = R.prog.func("Document.compile")
    if f is None:
        return
    c = "Document.compile[%s]" % K
    en, ps = R.paths(f, attr_hook=kind_only(K), no_inline=("NodeLayerCollection.validate", "NodeLayerCollection.compact"))
    ps = [Path(p.st, ("ret", mk("const", "bool", True))) if p.returns else p for p in ps]
    pn = params(en, f)
    regs = []
    for tv in (True, False):
        for ef in (True, False):
            for valid in (True, False):
                for extra in (False, True):
                    for foreign in ((False, True) if K in REFS + ("SPAN",) else (False,)):
                        for missing in ((False, True) if K in REFS + ("SPAN",) else (False,)):
                            if foreign and missing:
                                continue
                            for at in (0, 1):
                                regs.append(("type_validation=%s, extra_fields_ok=%s, node %d with %s value%s%s%s" % (
                                    tv, ef, at, "valid" if valid else "invalid", ", undeclared field" if extra else "",
                                    ", value of another document" if foreign else "", ", missing target" if missing else ""),
                                    (tv, ef, valid, extra, foreign, missing, at)))
    if not {"extra_fields_ok", "type_validation"} <= set(pn):
        return R.unknown("decision", c, "the options are not parameters of the compilation", f.loc)

    def base_of(pay):
        tv, ef, valid, extra, foreign, missing, at = pay
        doc, n = doc_model(K, foreign, extra, missing, at)

        def validate(t, ev):
            x = ev.ev(t.a[1][-1])
            if not (isinstance(x, Val) and "Node" in x.classes):
                raise Cannot(show(t))
            return valid or x is not n
        return model_base({pn[0]: doc, "extra_fields_ok": ef, "type_validation": tv}, {"NodeLayerCollection.validate": validate, "validate": validate})

    def judge(pay, k, v, p):
        tv, ef, valid, extra, foreign, missing, at = pay
        want = missing or tv and (not valid or foreign) or not ef and extra
        if k == "ret" and want:
            if not tv and foreign:
                return None
            return "is accepted"
        if k == "raise" and not want:
            if foreign and not tv:
                return None
            return "is refused (%s)" % v
    decision(R, "decision", c, ps, regs, base_of, judge, f.loc, en=en)


def kind_only(K):
    """every field type is of kind K where its kind is asked for through a schema; evaluated models carry the kind themselves"""
    return kind_hook(K)


def verify(R, K):
    f = R.prog.func("Document._verify_references")
    if f is None:
        # checked as part of the compilation
        return
    c = "Document._verify_references[%s]" % K
    en, ps = R.paths(f, attr_hook=kind_hook(K), args={params(en0(R), f)[1]: sym("layer", "NodeLayerCollection"), params(en0(R), f)[2]: sym("node", "Node")})
    pn = params(en, f)
    regs = [("%s value" % ("foreign" if fo else "own"), fo) for fo in ((False, True) if K in REFS + ("SPAN",) else (False,))]

    def base_of(fo):
        doc, n = doc_model(K, fo, False)
        return model_base({pn[0]: doc, "layer": n.attrs["collection"], "node": n, pn[1]: n.attrs["collection"], pn[2]: n}, {})

    def judge(fo, k, v, p):
        if fo and k != "raise":
            return "a value that belongs to another document is accepted"
        if not fo and k == "raise":
            return "a value of this document is refused (%s)" % v
    decision(R, "references", c, ps, regs, base_of, judge, f.loc, en=en)


def en0(R):
    return R.engine()


def defaults(R):
    f = R.prog.func("Document.compile")
    if f is None:
        return
    a = f.node.args
    import ast
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    d.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None})
    for name, want in (("extra_fields_ok", False), ("type_validation", True)):
        n = d.get(name)
        if n is None or not isinstance(n, ast.Constant):
            R.unknown("default", "Document.compile:" + name, "no constant default", f.loc)
        elif bool(n.value) != want:
            R.bad("default", "Document.compile:" + name, "the default of %s is %r" % (name, n.value), f.loc)
        else:
            R.good("default", "Document.compile:" + name, "default %r" % (n.value,), f.loc)


ENC = [
    # encoder, document parameter, options it takes pass through
    ("Codec.encode", 0, True), ("MsgpackCodec.encode", 0, True), ("JsonCodec.encode", 0, True), ("JsonCodec.encode_object", 0, True),
    ("XmlCodec.encode_intermediate", 0, True), ("MsgpackDocumentWriter.write", 1, True), ("XmlCodec.encode_tree", 0, True),
    ("XmlCodec.encode_utf8string", 0, True), ("TarMsgpackWriter.write", 1, True),
]


def compile_call(e):
    if e.kind != "call":
        return False
    f = e.a[0]
    return any(z.op == "func" and z.a[0].endswith("Document.compile") for z in (f,) + tuple(x for x in f.a if isinstance(x, T))) or \
        f.op in ("meth", "vmeth", "bound") and f.a[1] == "compile" and f.a[0].op == "sym"


HEAVY = ("Document.compile", "Text.compile", "DataType.encode", "XmlCodec.encode_tree", "Codec.encode", "XmlCodec.encode_intermediate", "MsgpackCodec.encode")


def encoders(R):
    for q, di, opts in ENC:
        f = R.prog.func(q)
        if f is None:
            continue

        def go(f=f, q=q, di=di):
            no = tuple(x for x in HEAVY if x != q)
            en, ps = R.paths(f, no_inline=no + ("MsgpackDocumentWriter.flush", "MsgpackDocumentWriter._flush"), max_paths=4000)
            pn = params(en, f)
            kwn = f.node.args.kwarg.arg if f.node.args.kwarg else None
            n = nk = 0
            for p in ps:
                if not p.returns:
                    continue
                hit = None
                for e, nest in events(p.events):
                    if e.kind != "call":
                        continue
                    # the compilation itself, or an encoder that is judged on its own
                    fs = [z.a[0].split(":")[-1] for z in (e.a[0],) + tuple(x for x in e.a[0].a if isinstance(x, T)) if z.op == "func"]
                    inner = [x for x in fs if x in [y[0] for y in ENC] or x == "Document.compile"]
                    if not inner and not compile_call(e):
                        continue
                    if compile_call(e) or inner == ["Document.compile"]:
                        arg = e.a[0].a[0] if e.a[0].op in ("meth", "vmeth", "bound") else (e.a[1][0] if e.a[1] else None)
                    else:
                        j = next(y[1] for y in ENC if y[0] == inner[0])
                        j = j if e.a[0].op != "bound" else j - 1
                        arg = e.a[1][j] if len(e.a[1]) > j >= 0 else dict(x for x in e.a[2] if isinstance(x, tuple)).get("doc")
                    if arg is not None and arg.op == "sym" and arg.a[0] == pn[di]:
                        hit = hit or (e, nest)
                if hit is None:
                    # an already encoded document is stored as it is
                    if any(g.op == "isinst" and g.a[0].op == "sym" and g.a[0].a[0] == pn[di] for g, b in p.guards):
                        docs = [b for g, b in p.guards if g.op == "isinst" and g.a[0].op == "sym" and g.a[0].a[0] == pn[di]
                                and any(z.op == "class" and z.a[0] == "Document" for z in walk(g.a[1]))]
                        if True not in docs:
                            continue
                    return R.bad("compiled", q, "produces output for a document that was not compiled", f.loc, trace=trace(p))
                e, nest = hit
                if nest and nest[-1][1].outcome == "next" and False:
                    continue
                n += 1
                kw = dict((x[0], x[1]) if isinstance(x, tuple) and len(x) == 2 else (None, None) for x in e.a[2])
                sp = kw.get("**")
                has = sp is not None and any(z.op == "sym" and z.a[0].lstrip("*") == kwn for z in walk(contents(en, p.st, sp) if sp.op == "obj" else sp))
                if sp is not None and not has and sp.op == "obj":
                    has = None
                direct = {o: kw.get(o) for o in ("extra_fields_ok", "type_validation")}
                for o, v in direct.items():
                    if v is not None and v.op == "const" and (kwn is not None or bool(v.a[1]) == (o == "extra_fields_ok")):
                        return R.bad("options", q, "the option %s is set to %r whatever the caller asked for" % (o, v.a[1]), f.loc, trace=trace(p))
                if kwn is None:
                    continue
                if has is None:
                    return R.unknown("options", q, "options are assembled in another way", f.loc)
                if not has:
                    if all(v is not None for v in direct.values()):
                        nk += 1
                        continue
                    return R.bad("options", q, "options given by the caller do not reach the compilation", f.loc, trace=trace(p))
                nk += 1
            (R.good if n else R.unknown)("compiled", q, "%d paths compile the document first" % n, f.loc)
            if kwn is not None:
                (R.good if nk else R.unknown)("options", q, "%d calls pass them on" % nk, f.loc)
        R.guarded("compiled", q, go)
