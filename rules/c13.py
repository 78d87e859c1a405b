"""C13: span offsets are registered among the segment boundaries of their own text, stored in order, and restored from them."""
from rules.common import *
from rules.c04 import model_base
from effects import events

ENC_CUT = ("NodeLayerCollection.compact", "NodeCollection.compact", "NodeLayerCollection.validate", "Document._verify_references")
DEC_CUT = ("DataTypes.create", "NodeLayerSchema.add", "Document.add_layer", "Document.add_text")


def check(R):
    R.rule("registered", "start and stop of every set span field are added to the boundaries of the text the field is declared on")
    R.rule("ends", "the beginning and the end of every text are boundaries of it")
    R.rule("ordered", "the boundaries are handed out in increasing order and each is mapped to its position in that order")
    R.rule("segments", "the stored segments are the stretches of the text between consecutive boundaries")
    R.rule("stored", "each stored span offset is the position of that offset among the boundaries of the field's text, start before stop")
    R.rule("restored", "decoding maps each stored position to the length of the segments before it, for the field's text")
    R.rule("joined", "the decoded text is the concatenation of its segments")
    R.rule("compiled", "the boundaries Document.compile hands out for documents of several texts: increasing, with those of every span of the text, each mapped to its position")
    R.guarded("registered", "Document.compile", lambda: compile_rules(R))
    compiled(R)
    R.guarded("segments", "Text.compile", lambda: segments(R))
    R.guarded("stored", "Codec.encode", lambda: stored(R))
    R.guarded("stored", "XmlCodec.encode_tree", lambda: stored_xml(R))
    R.guarded("restored", "MsgpackCodec.compute_text_offsets", lambda: offsets(R))
    R.guarded("restored", "MsgpackCodec.decode_layer", lambda: layer(R))
    R.guarded("restored", "JsonCodec.decode_object", lambda: json(R))


# ------------------------------------------------------------------ the document a summary is evaluated on
TEXT = {"main": "abcdef", "x": "uvwxyz"}


def span(text, a, b):
    return Val("span[%d,%d)" % (a, b), ["TextSpan"], {"text": text, "start": a, "stop": b, "_start": a, "_stop": b, "start_offset": a,
                                                     "stop_offset": b}, length=b - a)


def model(ctx, spans):
    """one layer with one span field declared on ctx; spans: (start, stop) per node, None = unset"""
    texts = {}
    for k, s in TEXT.items():
        texts[k] = Val("text " + k, ["Text"], {"name": k, "text": s}, length=len(s))
    ty = Val("fieldtype", ["DataType"], {"typename": E("SPAN"), "options": Val("options", ["dict"], items={"context": ctx}, length=1)})
    flds = Val("fields", ["dict"], items={"f": ty}, length=1)
    ns = []
    for i, s in enumerate(spans):
        its = {} if s is None else {"f": span(texts[ctx], *s)}
        ns.append(Val("node %d" % i, ["Node"], {"_id": i, "i": i}, items=its, length=len(its), truth=None))
    L = Val("layer", ["NodeLayerCollection"], {"name": "L", "num": len(ns), "fieldtypes": flds,
                                               "_nodes": Val("slots", ["list"], elems=ns, length=len(ns)),
                                               "_schema": Val("schema", ["NodeLayerSchema"], {"fields": flds, "name": "L"})},
            elems=ns, length=len(ns))
    return Val("doc", ["Document"], {"_layers": Val("layers", ["dict"], items={"L": L}, length=1),
                                     "_texts": Val("texts", ["dict"], items=texts, length=2),
                                     "layers": Val("layers", ["dict"], items={"L": L}, length=1),
                                     "texts": Val("texts", ["dict"], items=texts, length=2)}), ns


SHAPES = [("a span inside the text", [(1, 3)]), ("an empty span", [(2, 2)]), ("a span at the beginning", [(0, 2)]),
          ("a span to the end", [(2, 6)]), ("a node without the span before one with it", [None, (1, 4)]),
          ("overlapping spans", [(1, 4), (2, 5)]), ("disjoint spans", [(1, 2), (4, 5)]), ("adjacent spans", [(1, 2), (2, 4)])]


CALLS = {"NodeLayerCollection.validate": True, "NodeLayerCollection.compact": None, "NodeCollection.compact": None, "Document._verify_references": None}


# ------------------------------------------------------------------ registering the boundaries
def recorded(e, ev):
    """values the event stores in a container; None when the event stores nothing; raises Cannot"""
    if e.kind == "mut" and e.a[1] in ("add", "append", "insert", "update", "extend"):
        return [x for x in e.a[2] if isinstance(x, T)]
    if e.kind == "setitem":
        return [e.a[1], e.a[2]]
    return None


def flat(v, d=0):
    if isinstance(v, (list, tuple)) and d < 4:
        for x in v:
            yield from flat(x, d + 1)
    elif isinstance(v, dict) and d < 4:
        for k, x in v.items():
            yield k
            yield from flat(x, d + 1)
    else:
        yield v


def container_key(b, ev):
    """the key under which the container was taken from another container: (True, key) or (False, None)"""
    while b.op in ("at", "sdef"):
        b = b.a[0]
    if b.op in ("item", "dget"):
        return True, ev.ev(b.a[1])
    return False, None


def compile_rules(R):
    f = R.prog.func("Document.compile")
    if f is None:
        return
    en, ps = R.paths(f, attr_hook=kind_hook("SPAN"), no_inline=ENC_CUT)
    ps = [p for p in ps if p.returns]
    c = "Document.compile"
    bad = unk = None
    n = 0
    for p in ps:
        for ctx in ("main", "x"):
            for desc, spans in SHAPES:
                doc, ns = model(ctx, spans)
                for tv in (True, False):
                    ev = Evaluator(model_base({"self": doc, "extra_fields_ok": True, "type_validation": tv}, CALLS), R.prog, en)
                    ev.cur = p
                    try:
                        sols = solve(tuple(p.guards), ev, loop_infos(p.events))
                    except Cannot as x:
                        unk = unk or "%s: %s" % (desc, str(x)[:150])
                        continue
                    if not sols:
                        continue
                    try:
                        m = registered(p, ev, ctx, spans)
                    except Cannot as x:
                        unk = unk or "%s: %s" % (desc, str(x)[:150])
                        continue
                    n += 1
                    if m and not bad:
                        bad = ("%s: %s" % (desc, m), p)
    if bad:
        R.bad("registered", c, bad[0], f.loc, trace=trace(bad[1]))
    elif unk or not n:
        R.unknown("registered", c, unk or "no path", f.loc)
    else:
        R.good("registered", c, "%d path/document combinations" % n, f.loc)
    R.guarded("ends", c, lambda: ends(R, f, en, ps))
    R.guarded("ordered", c, lambda: ordered(R, f, en, ps))


def registered(p, ev, ctx, spans):
    """explanation when a start or stop is not among the recorded values of the text"""
    got = {}
    def ends(e):
        return any(z.op == "attr" and z.a[1] in ("start", "stop", "_start", "_stop", "start_offset", "stop_offset")
                   for x in recorded(e, None) or () for z in walk(x))
    for e, E2 in occurrences(p.events, ev, keep=ends):
        if not ends(e):
            continue
        rec = recorded(e, E2)
        known, key = container_key(e.a[0], E2)
        for x in rec:
            for v in flat(E2.ev(x)):
                if isinstance(v, int):
                    got.setdefault(key if known else ctx, set()).add(v)
    for s in spans:
        if s is not None:
            for name, v in zip(("start", "stop"), s):
                if v not in got.get(ctx, ()):
                    o = [k for k, vs in got.items() if v in vs and k != ctx]
                    return "the %s of a span in %r is registered %s" % (name, ctx, "for %r" % o[0] if o else "nowhere")
    return None


def texts_rounds(p):
    for e in p.events:
        if e.kind == "loop":
            if any(z.op == "attr" and z.a[1] in ("_texts", "texts") for z in walk(e.a[0].dom)):
                yield e.a[0]


def members(t):
    """literal members of the containers a term mentions"""
    for z in walk(t):
        if z.op in ("set", "list"):
            for s in z.a[0]:
                if s.op == "one":
                    yield s.a[0]
        elif z.op == "tuple":
            yield from z.a[0]


def ends(R, f, en, ps):
    """0 and the text's length: recorded in every round over the texts, or members of what is recorded in from the start"""
    c = "Document.compile"
    n = 0
    for p in ps:
        terms = []
        opaque = False
        for li in texts_rounds(p):
            for lp in li.paths:
                for e, nest in events(lp.events):
                    rec = recorded(e, None)
                    if rec is not None and e.kind == "mut":
                        terms += rec
                        if e.a[1] in ("update", "extend"):
                            opaque = True
                        terms += list(members(e.a[0]))
                    for x in (e.a[0],) if e.kind == "mut" else e.a[:3] if e.kind == "setitem" else ():
                        if isinstance(x, T):
                            terms += list(members(x))
        for x in list(terms):
            terms += list(members(x))
        if not terms:
            return R.unknown("ends", c, "no boundary recorded in a round over the texts", f.loc)
        zero = any(x is mk("const", "int", 0) for x in terms)
        end = any(x.op == "len" and any(z.op == "attr" and z.a[1] in ("_texts", "texts", "text") for z in walk(x)) for x in terms)
        near = [x for x in terms if x.op == "lin" and any(z.op == "len" for z in walk(x)) and any(z.op == "attr" and z.a[1] == "text" for z in walk(x))]
        if not zero:
            if opaque:
                return R.unknown("ends", c, "bulk update", f.loc)
            return R.bad("ends", c, "the beginning of a text is not made one of its boundaries", f.loc, trace=trace(p))
        if not end:
            if opaque:
                return R.unknown("ends", c, "bulk update", f.loc)
            return R.bad("ends", c, "the end of a text is not made one of its boundaries" + (" (%s is)" % show(near[0]) if near else ""), f.loc,
                         trace=trace(p))
        # unconditionally: every way of the round that completes records both
        for li in texts_rounds(p):
            ways = [lp for lp in li.paths if lp.outcome == "next"]
            rec = [[x for e, nest in events(lp.events) if e.kind == "mut" for x in (recorded(e, None) or [])] for lp in ways]
            if any(rec) and not all(rec):
                k = rec.index([])
                return R.bad("ends", c, "a way through the texts records no boundary", f.loc, trace=["when " + show(g) for g, b in ways[k].guards][:4])
        n += 1
    (R.good if n else R.unknown)("ends", c, "0 and the length of each text on %d paths" % n, f.loc)


def strip(t):
    while t.op == "call" and t.a[0].op == "builtin" and t.a[0].a[0] in ("list", "tuple") and len(t.a[1]) == 1 or t.op in ("at", "sdef"):
        t = t.a[1][0] if t.op == "call" else t.a[0]
    return t


def is_sorted(t):
    """True / False (a set in its own order) / None"""
    t = strip(t)
    if t.op == "call" and t.a[0].op == "builtin" and t.a[0].a[0] == "sorted":
        return not any(k == "reverse" and v is not mk("const", "bool", False) for k, v in t.a[2]) and not any(k == "key" for k, v in t.a[2])
    if t.op == "set" or t.op == "obj" and t.a[1] == "set":
        return False
    if t.op == "view" or t.op == "list" and all(s.op == "for" and is_sorted(s.a[1]) is False for s in t.a[0]) and t.a[0]:
        return False
    return None


def positions(d):
    return d.op in ("rng", "range") or d.op == "call" and (d.a[0].op == "builtin" and d.a[0].a[0] == "range" or d.a[0].op == "ext" and d.a[0].a[0].endswith("count"))


def num(x):
    return x.a[1] if isinstance(x, T) and x.op == "const" else x


def from_zero(d):
    if d.op == "rng":
        return True
    if d.op == "range":
        return num(d.a[0]) == 0 and num(d.a[2]) == 1
    xs = d.a[1]
    if d.a[0].op == "ext" or len(xs) == 1:
        return not xs or d.a[0].op == "builtin" or xs[0] is mk("const", "int", 0)
    return xs[0] is mk("const", "int", 0) and (len(xs) < 3 or xs[2] is mk("const", "int", 1))


def ordered(R, f, en, ps):
    c = "Document.compile"
    n = 0
    for p in ps:
        ret = en.freeze(p.outcome[1], p.st)
        if ret.op != "map":
            return R.unknown("ordered", c, "result %s" % show(ret)[:120], f.loc)
        for (k, v), g in seg_members(ret.a[0]):
            if v.op != "tuple" or len(v.a[0]) != 2:
                return R.unknown("ordered", c, "entry %s" % show(v)[:120], f.loc)
            m, b = v.a[0]
            s = is_sorted(b)
            if s is None and b.op == "list" and not any(e.kind == "mut" and e.a[1] == "sort" for e, nest in events(p.events)) and not any(
                    z.op == "call" and z.a[0].op == "builtin" and z.a[0].a[0] == "sorted" for z in walk(b)):
                s = False
            if s is None:
                return R.unknown("ordered", c, "boundaries %s" % show(b)[:120], f.loc)
            if not s:
                return R.bad("ordered", c, "the boundaries are handed out in no increasing order: %s" % show(b)[:120], f.loc, trace=trace(p))
            if m.op != "map":
                return R.unknown("ordered", c, "mapping %s" % show(m)[:120], f.loc)
            for z in m.a[0]:
                if z.op != "for":
                    return R.unknown("ordered", c, "mapping %s" % show(m)[:120], f.loc)
                L, dom, alts = z.a
                doms = dom.a[0] if dom.op == "zip" else (dom,)
                over = [d for d in doms if not positions(d)]
                if len(over) != 1:
                    return R.unknown("ordered", c, "mapping %s" % show(m)[:120], f.loc)
                s = is_sorted(over[0])
                if s is None:
                    return R.unknown("ordered", c, "mapping over %s" % show(over[0])[:120], f.loc)
                for g2, ss in alts:
                    for (a, i), g3 in seg_members(ss):
                        pos = i.op == "idx" or i.op == "elem" and positions(i.a[0])
                        if pos and i.op == "elem" and not from_zero(i.a[0]):
                            return R.bad("ordered", c, "positions run over %s" % show(i.a[0]), f.loc, trace=trace(p))
                        if a.op == "elem" and a.a[0] is over[0] and pos:
                            if not s:
                                return R.bad("ordered", c, "positions are counted over boundaries in no increasing order", f.loc, trace=trace(p))
                            n += 1
                        elif i.op == "elem" and i.a[0] is over[0] and (a.op == "idx" or a.op == "elem" and positions(a.a[0])):
                            return R.bad("ordered", c, "positions are mapped to boundaries instead of boundaries to positions", f.loc, trace=trace(p))
                        else:
                            return R.unknown("ordered", c, "pair %s: %s" % (show(a)[:60], show(i)[:60]), f.loc)
    (R.good if n else R.unknown)("ordered", c, "%d mappings" % n, f.loc)


def segments(R):
    f = R.prog.func("Text.compile")
    if f is None:
        return
    en, ps = R.paths(f)
    ps = frozen(en, ps)
    a = params(en, f)
    def base_of(offs):
        b = {a[0]: Val("text", ["Text"], {"text": "abcdef"}, length=6), a[1]: offs}
        return lambda t, ev: b.get(t.a[0], NotImplemented) if t.op == "sym" else NotImplemented
    def judge(offs, k, v, p):
        want = tuple("abcdef"[x:y] for x, y in zip(offs, offs[1:]))
        if k != "ret":
            return "raises %s" % (v,)
        return None if tuple(v) == want else "segments %r, text between the boundaries %r" % (v, want)
    decision(R, "segments", "Text.compile", ps, [("boundaries %r" % (o,), o) for o in ((0, 6), (0, 2, 6), (0, 1, 3, 4, 6), (0,))], base_of, judge, f.loc, en=en)


# ------------------------------------------------------------------ storing
MAPPING = {"main": ({0: 10, 1: 11, 2: 12, 3: 13, 4: 14, 5: 15, 6: 16}, ("main",)), "x": ({0: 20, 1: 21, 2: 22, 3: 23, 4: 24, 5: 25, 6: 26}, ("x",))}


def stored(R):
    f = R.prog.func("Codec.encode")
    if f is None:
        return
    en, ps = R.paths(f, attr_hook=kind_hook("SPAN"), no_inline=("Document.compile", "Text.compile", "DataType.encode"), args={"doc": sym("doc", "Document")})
    c = "Codec.encode"
    n = 0
    seg = 0
    unk = None
    for p in ps:
        if not p.returns:
            continue
        for ctx in ("main", "x"):
            for desc, spans in SHAPES:
                doc, ns = model(ctx, spans)
                ev = Evaluator(model_base({"doc": doc}, {"Document.compile": MAPPING, "DataType.encode": "type",
                                                        "Text.compile": ()}), R.prog)
                got, t2 = [], {}
                try:
                    if not solve(tuple(p.guards), ev, loop_infos(p.events)):
                        continue
                    for e, E2 in occurrences(p.events, ev):
                        if e.kind == "mut" and e.a[1] == "append":
                            got += [E2.ev(x) for x in e.a[2]]
                        elif e.kind == "mut" and e.a[1] == "extend":
                            got += list(E2.ev(e.a[2][0]))
                        elif e.kind == "call" and any(z.op == "func" and z.a[0].endswith("Text.compile") for z in walk(e.a[0])):
                            t2[E2.ev(e.a[0].a[0]).attrs["name"]] = E2.ev(e.a[1][0])
                except Raised as x:
                    return R.bad("stored", c, "%s: encoding fails: %s" % (desc, x), f.loc, trace=trace(p))
                except Cannot as x:
                    unk = unk or str(x)[:150]
                    continue
                want = []
                for s in spans:
                    want += [None, None] if s is None else [MAPPING[ctx][0][s[0]], MAPPING[ctx][0][s[1]]]
                n += 1
                if got != want:
                    return R.bad("stored", c, "%s on %r: the column holds %r, the positions are %r" % (desc, ctx, got, want), f.loc, trace=trace(p))
                for k, v in t2.items():
                    seg += 1
                    if v != (k,):
                        return R.bad("segments", c, "text %r is cut at %s" % (k, "the boundaries of %r" % v[0] if isinstance(v, tuple) and v else v),
                                     f.loc, trace=trace(p))
    if unk or not n:
        R.unknown("stored", c, unk or "no path", f.loc)
    else:
        R.good("stored", c, "%d columns" % n, f.loc)
    (R.good if seg else R.unknown)("segments", c, "%d texts cut at their own boundaries" % seg, f.loc)


def stored_xml(R):
    """the mapping a span is written with belongs to the text of its field; from is its start, until its stop"""
    f = R.prog.func("XmlCodec.encode_intermediate")
    if f is None:
        return
    en, ps = R.paths(f, attr_hook=kind_hook("SPAN"), no_inline=("Document.compile", "Text.compile", "DataType.encode"), args={"doc": sym("doc", "Document")})
    n = seg = 0
    unk = None
    c = "XmlCodec.encode_intermediate"
    for p in ps:
        if not p.returns:
            continue
        for ctx in ("main", "x"):
            doc, ns = model(ctx, [(1, 3), None, (2, 5)])
            ev = Evaluator(model_base({"doc": doc}, {"Document.compile": MAPPING, "DataType.encode": "type",
                                                    "Text.compile": ()}), R.prog)
            try:
                if not solve(tuple(p.guards), ev, loop_infos(p.events)):
                    continue
                for e, E2 in occurrences(p.events, ev):
                    if e.kind == "call" and any(z.op == "func" and z.a[0].endswith("Text.compile") for z in walk(e.a[0])):
                        k, v = E2.ev(e.a[0].a[0]).attrs["name"], E2.ev(e.a[1][0])
                        seg += 1
                        if v != (k,):
                            return R.bad("segments", c, "text %r is cut at other boundaries" % k, f.loc, trace=trace(p))
                    if e.kind == "setitem" and e.a[2].op == "tuple" and len(e.a[2].a[0]) == 2:
                        try:
                            m, s = E2.ev(e.a[2])
                        except Cannot:
                            continue
                        if isinstance(s, Val) and "TextSpan" in s.classes:
                            n += 1
                            if isinstance(m, dict) and m != MAPPING[ctx][0]:
                                return R.bad("stored", c, "a span on %r is written with the positions of another text" % ctx, f.loc, trace=trace(p))
            except Cannot as x:
                unk = unk or str(x)[:150]
    if unk or not n:
        R.unknown("stored", c, unk or "no span entry recognised", f.loc)
    else:
        R.good("stored", c, "%d spans" % n, f.loc)
    g = R.prog.func("XmlCodec.encode_tree")
    if g is None:
        return
    en, ps = R.paths(g, no_inline=("XmlCodec.encode_intermediate", "XmlCodec._string_encoder"), max_paths=4000)
    n = 0
    seen = set()
    for p in ps:
        for e, nest in events(p.events):
            for t in e.a:
                for z in walk(t) if isinstance(t, T) else (y for x in t if isinstance(x, T) for y in walk(x)) if isinstance(t, tuple) else ():
                    if z.op == "map" and z not in seen:
                        seen.add(z)
                        kv = {s.a[0].a[1]: s.a[1] for s in z.a[0] if s.op == "one" and len(s.a) == 2 and s.a[0].op == "const"}
                        for key, want, other in (("from", "start", "stop"), ("until", "stop", "start")):
                            if key in kv:
                                ats = {y.a[1] for y in walk(kv[key]) if y.op == "attr"}
                                if other in ats and want not in ats:
                                    return R.bad("stored", "XmlCodec.encode_tree", "%r holds the %s of the span" % (key, other), e.loc)
                                if want in ats:
                                    n += 1
    (R.good if n else R.unknown)("stored", "XmlCodec.encode_tree", "%d ends" % n if n else "no span element recognised", g.loc)


# ------------------------------------------------------------------ restoring
SEGS = {"main": (" b", "c", "d\n"), "x": ("uv", "wxyz"), "one": ("q",), "none": ()}
SEGU = {"main": ("\U0001f600b", "c"), "x": ("\u00e5\u00e4", "\u4e2d")}


def cumul(segs):
    out = [0]
    for s in segs:
        out.append(out[-1] + len(s))
    return out


def added_texts(p, ev):
    out = {}
    def adds(e):
        return e.kind == "call" and any(z.op in ("func", "meth") and any(isinstance(x, str) and x.split(":")[-1].split(".")[-1] == "add_text"
                                                                       for x in z.a) for z in walk(e.a[0]))
    for e, E2 in occurrences(p.events, ev, keep=adds):
        if adds(e):
            args = [E2.ev(x) for x in e.a[1]]
            for k, v in e.a[2]:
                if not k.startswith("*"):
                    out[k] = E2.ev(v)
            if len(args) == 2:
                out[args[0]] = args[1]
    return out


def judge_offsets(v, segs):
    if not isinstance(v, dict):
        raise Cannot("result %r" % (v,))
    for k, s in segs.items():
        if k not in v:
            return "text %r has no offsets" % k
        for i, w in enumerate(cumul(s)):
            try:
                g = v[k][i]
            except (KeyError, IndexError):
                return "text %r: position %d has no offset" % (k, i)
            except TypeError:
                raise Cannot("offsets %r" % (v[k],))
            if g != w:
                return "text %r with segments %r: position %d is restored as %r, the segments before it are %d long" % (k, s, i, g, w)


def offsets(R):
    f = R.prog.func("MsgpackCodec.compute_text_offsets")
    if f is None:
        return
    en, ps = R.paths(f, no_inline=("Document.add_text",))
    a = params(en, f)
    ps = frozen(en, ps)
    def base_of(segs):
        b = {a[0]: Val("doc", ["Document"]), a[1]: Val("texts", ["dict"], items=dict(segs), length=len(segs))}
        return lambda t, ev: b.get(t.a[0], NotImplemented) if t.op == "sym" else NotImplemented
    c = "MsgpackCodec.compute_text_offsets"
    def judge(segs, k, v, p):
        return "raises %s" % (v,) if k != "ret" else judge_offsets(v, segs)
    regions = [("texts %r" % (s,), s) for s in (SEGS, SEGU)]
    decision(R, "restored", c, ps, regions, base_of, judge, f.loc, en=en)
    joined(R, c, [p for p in ps if p.returns], lambda segs: Evaluator(base_of(segs), R.prog, en), f)


def joined(R, c, ps, mkev, f):
    n = 0
    for p in ps:
        for segs in (SEGS, SEGU):
            ev = mkev(segs)
            ev.cur = p
            try:
                got = added_texts(p, ev)
            except Cannot as x:
                return R.unknown("joined", c, str(x)[:150], f.loc)
            if not got:
                return R.unknown("joined", c, "no text is added", f.loc)
            for k, s in segs.items():
                n += 1
                if k in got and got[k] != "".join(s):
                    return R.bad("joined", c, "segments %r become the text %r" % (s, got[k]), f.loc, trace=trace(p))
                if k not in got:
                    return R.bad("joined", c, "a text with segments %r is not restored" % (s,), f.loc, trace=trace(p))
    (R.good if n else R.unknown)("joined", c, "%d texts" % n, f.loc)


def spans_of(p, ev, E0):
    """spans built in the order of the rounds: [(start, stop)]"""
    out = []
    for e, E2 in occurrences(p.events, ev, keep=lambda e: e.kind == "new" and e.a[1].a[0] == "TextSpan"):
        if e.kind == "new" and e.a[1].a[0] == "TextSpan" and len(e.a[2]) + len(e.a[3]) == 3:
            kw = dict(e.a[3])
            args = list(e.a[2]) + [None] * 3
            st = args[1] if args[1] is not None else kw.get("start_offset", kw.get("start"))
            en_ = args[2] if args[2] is not None else kw.get("stop_offset", kw.get("stop"))
            if st is None or en_ is None:
                raise Cannot("span arguments")
            x = None
            tx = args[0] if args[0] is not None else kw.get("text")
            try:
                x = E2.ev(tx)
            except Cannot:
                pass
            out.append((E2.ev(st), E2.ev(en_), x))
    return out


COL = [(0, 2), None, (1, 3), (1, 1), (0, 0), (3, 3)]
COLX = [None, (0, 1), (1, 2), (2, 2), None, (0, 2)]


def column(c):
    out = []
    for s in c:
        out += [None, None] if s is None else list(s)
    return tuple(out)


def want_spans(ctx, col):
    o = cumul(SEGS[ctx])
    return [(o[s[0]], o[s[1]]) for s in col if s is not None]


def compare(got, ctx, col, textname):
    w = want_spans(ctx, col)
    if not got:
        raise Cannot("no construction of a span recognised")
    g = [(a, b) for a, b, x in got]
    if g != w:
        return "positions %r of %r are restored as the spans %r, they mean %r" % (col, ctx, g, w)
    for a, b, x in got:
        if isinstance(x, Val) and x.name != "text " + ctx:
            return "a span of a field declared on %r is restored on %r" % (ctx, x.name)


def layer(R):
    f = R.prog.func("MsgpackCodec.decode_layer")
    if f is None:
        return
    c = "MsgpackCodec.decode_layer"
    en, ps = R.paths(f, attr_hook=kind_hook("SPAN"))
    a = params(en, f)
    n = 0
    unk = None
    for p in ps:
        if not p.returns or len(a) < 5:
            continue
        for ctx, col in (("main", COL), ("x", COLX)):
            ty = Val("fieldtype", ["DataType"], {"typename": E("SPAN"), "options": Val("options", ["dict"], items={"context": ctx}, length=1)})
            texts = {k: Val("text " + k, ["Text"], {"name": k, "text": "".join(s)}) for k, s in SEGS.items()}
            b = {a[1]: Val("doc", ["Document"], {"texts": Val("texts", ["dict"], items=texts, length=len(texts)),
                                                "_texts": Val("texts", ["dict"], items=texts, length=len(texts))}),
                 a[2]: "L", a[3]: {k: dict(enumerate(cumul(s))) for k, s in SEGS.items()}, a[4]: (("f", ty),), "*fields": ()}
            def base(t, ev):
                if t.op == "sym":
                    return b.get(t.a[0], NotImplemented)
                if t.op == "call" and t.a[0].op == "builtin" and t.a[0].a[0] == "next":
                    w = order.get(t)
                    return NotImplemented if w is None else (len(col) if w == "n" else False if w == 0 else column(col) if w == 1 else NotImplemented)
                return NotImplemented
            order = next_order(p)
            ev = Evaluator(base, R.prog, en)
            ev.cur = p
            try:
                if not solve(tuple(p.guards), ev, loop_infos(p.events)):
                    continue
                m = compare(spans_of(p, ev, None), ctx, col, None)
            except Raised as x:
                m = "restoring fails: %s" % x
            except Cannot as x:
                unk = unk or str(x)[:200]
                continue
            n += 1
            if m:
                return R.bad("restored", c, m, f.loc, trace=trace(p))
    if unk or not n:
        return R.unknown("restored", c, unk or "no path", f.loc)
    R.good("restored", c, "%d columns" % n, f.loc)


def next_order(p):
    """term of each item taken from the stream -> "n" outside the rounds over the fields, else its number in the round"""
    out = {}
    for e, nest in events(p.events):
        if e.kind == "next":
            if not nest:
                out[e.a[2]] = "n"
            else:
                k = sum(1 for x in nest[-1][1].events[:nest[-1][1].events.index(e)] if x.kind == "next")
                out[e.a[2]] = k
    return out


def json(R):
    f = R.prog.func("JsonCodec.decode_object")
    if f is None:
        return
    c = "JsonCodec.decode_object"
    en, ps = R.paths(f, attr_hook=kind_hook("SPAN"), no_inline=DEC_CUT)
    a = params(en, f)
    n = 0
    unk = None
    good = [p for p in ps if p.returns]
    def objbase(docobj, types):
        def base(t, ev):
            if t.op == "sym":
                return docobj if t.a[0] == a[0] else NotImplemented
            if t.op == "call" and any(z.op == "func" and z.a[0].endswith("DataTypes.create") for z in walk(t.a[0])):
                for k, v in t.a[2]:
                    if k == "**":
                        o = ev.ev(v)
                        return Val("fieldtype", ["DataType"], {"typename": E("SPAN"), "options": Val("options", ["dict"], items=dict(o), length=len(o))})
                return Val("fieldtype", ["DataType"], {"typename": E("SPAN"), "options": Val("options", ["dict"], items={}, length=0)})
            return NotImplemented
        return base
    for p in good:
        for ctx, col in (("main", COL), ("x", COLX)):
            docobj = {"DM10": {"props": {}, "schema": {"L": {"f": {"type": "span", "args": {"context": ctx}}}}, "texts": dict(SEGS),
                               "num_nodes": {"L": len(col)}, "types": {"L": {"f": column(col)}}}}
            ev = Evaluator(objbase(docobj, None), R.prog, en)
            ev.cur = p
            try:
                if not solve(tuple(p.guards), ev, loop_infos(p.events)):
                    continue
                m = compare(spans_of(p, ev, None), ctx, col, None)
            except Raised as x:
                m = "restoring fails: %s" % x
            except Cannot as x:
                unk = unk or str(x)[:200]
                continue
            n += 1
            if m:
                return R.bad("restored", c, m, f.loc, trace=trace(p))
    if unk or not n:
        R.unknown("restored", c, unk or "no path", f.loc)
    else:
        R.good("restored", c, "%d columns" % n, f.loc)
    def mkev(segs):
        return Evaluator(objbase({"DM10": {"props": {}, "schema": {}, "texts": dict(segs), "num_nodes": {}, "types": {}}}, None), R.prog, en)
    joined(R, c, good, mkev, f)


# ------------------------------------------------------------------ the whole of Document.compile on documents of several texts
def compiled(R):
    from rules.docs import Spec
    from rules.c01 import entries, elements
    from machine import Machine
    f = R.prog.func("Document.compile")
    if f is None:
        return
    for ctx, other in (("main", "x"), ("x", "main")):
        for desc, spans in SHAPES:
            fs = {"f": ("SPAN", {"context": ctx}), "n": ("I32", {})}
            gs = {"n": ("I32", {}), "f": ("SPAN", {"context": ctx}), "g": ("SPAN", {"context": other})}
            for lname, layers in (("one layer", [("L", fs, [{"f": s, "n": 1} for s in spans])]),
                                  ("two layers", [("K", gs, [{"g": (3, 5)}]), ("L", fs, [{"f": s, "n": 1} for s in spans])]),
                                  ("two fields", [("K", gs, [{"g": (3, 3), "f": spans[-1]}] + [{"f": s, "n": 2} for s in spans])])):
                spec = Spec("%s in %s, %s" % (desc, ctx, lname), {}, TEXT, layers)

                def one():
                    m = Machine(R, store=True, no_inline=ENC_CUT)
                    r = m.run(f, [spec.build()], {"type_validation": False, "extra_fields_ok": True})
                    got = entries(r)
                    for t, want in spec.cuts().items():
                        if t not in got:
                            return "there are no boundaries for the text %r" % t
                        e = elements(got[t])
                        if len(e) != 2:
                            raise Cannot("entry of a text: %r" % (got[t],))
                        m2, bs = entries(e[0]), list(elements(e[1]))
                        if not all(isinstance(x, int) for x in bs + list(m2) + list(m2.values())):
                            raise Cannot("boundaries %r" % (bs,))
                        lack = [x for x in want if x not in bs]
                        if lack:
                            return "offset %d is not among the boundaries %s of the text %r" % (lack[0], bs, t)
                        if bs != sorted(set(bs)):
                            return "the boundaries %s of the text %r do not increase" % (bs, t)
                        wrong = [x for x in want if m2.get(x) != bs.index(x)]
                        if wrong:
                            return "offset %d of the text %r is mapped to position %s, it is at %d" % (wrong[0], t, m2.get(wrong[0]), bs.index(wrong[0]))

                def run(spec=spec, one=one):
                    r = one()
                    if r:
                        R.bad("compiled", "Document.compile of %s" % spec.name, r, f.loc)
                    else:
                        R.good("compiled", "Document.compile of %s" % spec.name, "boundaries of both texts", f.loc)
                R.guarded("compiled", "Document.compile of %s" % spec.name, run)
