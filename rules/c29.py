"""C29: single references, reference lists and node spans are treated as references everywhere."""
from rules.common import *
from effects import events, path_root

REFS = ("NODEREF", "NODEREF_MANY", "NODEREF_SPAN")


def roots(t):
    """what a loop domain is drawn from"""
    while True:
        if t.op in ("view",):
            t = t.a[1]
        elif t.op in ("item", "elem", "at", "sdef", "dget", "attr"):
            t = t.a[0]
        elif t.op == "call" and t.a[1] and t.a[0].op == "builtin":
            t = t.a[1][0]
        else:
            return t


def over_fields(li):
    d = li.dom
    while d.op in ("view", "at"):
        d = d.a[1] if d.op == "view" else d.a[0]
    return d.op == "attr" and d.a[1] == "fields"


def layer_option(t):
    """does the term read the target layer a field type is declared with?"""
    return any(z.op in ("item", "dget") and len(z.a) > 1 and isinstance(z.a[1], T) and z.a[1].op == "const" and z.a[1].a[1] == "layer"
               and any(y.op == "attr" and y.a[1] == "options" for y in walk(z.a[0])) for z in walk(t))


def records(e):
    """container along the path the event stores something in"""
    if e.kind == "mut" and e.a[1] in ("append", "add", "setdefault", "update", "extend", "insert"):
        return base_obj(e.a[0])
    if e.kind == "setitem":
        return base_obj(e.a[0])
    return None


def base_obj(t):
    while t.op in ("sdef", "item", "dget", "at"):
        t = t.a[0]
    return t if t.op == "obj" else None


def check(R):
    R.rule("detected", "a field of each kind of reference that names the layer is found by the search for referring fields, and no other field is")
    R.rule("refused", "removal is refused exactly when a referring field was found and cascading was not asked for")
    R.rule("cascade", "cascading removes the found fields and the layer")
    R.rule("reported", "the result tells whether the layer existed; it is deleted exactly then")
    R.rule("missing-target", "encoding refuses a document in which a field of each kind of reference targets a layer it does not have")
    R.rule("resolved", "decoding replaces the stored positions of each kind of reference by nodes of the declared target layer")
    for K in KINDS:
        R.guarded("detected", "Document.remove_layer[%s]" % K, lambda: detected(R, K))
    R.guarded("refused", "Document.remove_layer", lambda: outcome(R))
    for K in REFS:
        R.guarded("missing-target", "Document.compile[%s]" % K, lambda: missing(R, K))
        for q in ("Codec.commit_layers", "JsonCodec.decode_object"):
            R.guarded("resolved", "%s[%s]" % (q, K), lambda: resolved(R, q, K))


# ------------------------------------------------------------------ removing a layer
def field_rounds(events_, nest=()):
    """[(enclosing rounds, LoopInfo over fields)]"""
    for e in events_:
        if e.kind == "loop":
            li = e.a[0]
            if over_fields(li):
                yield nest, li
            else:
                for lp in li.paths:
                    yield from field_rounds(lp.events, nest + ((li, lp),))


def effects_of(lp):
    return [e for e, n in events(lp.events) if e.kind in ("mut", "setitem", "delitem", "setattr") or e.kind == "raise"
            or e.kind == "call" and any(z.op == "func" and z.a[0].endswith("remove_field") for z in walk(e.a[0]))]


def round_base(K, same_owner, target):
    """valuation of one round: a field of kind K declared in a layer of another (the same) name, targeting the removed layer or not"""
    ty = Val("fieldtype", ["DataType"], {"typename": E(K)})
    opts = {"layer": "L" if target else "M"} if K in REFS else {"context": "main"} if K == "SPAN" else {}
    ty.attrs["options"] = Val("options", ["dict"], items=opts, length=len(opts), truth=bool(opts))
    lay = Val("layer", ["NodeLayerCollection"], {"name": "L" if same_owner else "K"})

    def base(t, ev):
        if t.op == "sym":
            return {"name": "L", "fieldcascade": True}.get(t.a[0], NotImplemented)
        if t.op == "elem":
            d, kind = t.a[0], None
            if d.op == "view":
                kind, d = d.a[0], d.a[1]
            while d.op == "at":
                d = d.a[0]
            if d.op == "attr" and d.a[1] == "_layers":
                return lay if kind == "values" else "L" if same_owner else "K"
            if d.op == "attr" and d.a[1] == "fields":
                return ty if kind == "values" else "f"
        if t.op in ("item", "dget"):
            d = t.a[0]
            while d.op == "at":
                d = d.a[0]
            if d.op == "attr" and d.a[1] == "_layers":
                return lay
            if d.op == "attr" and d.a[1] == "fields":
                return ty
            x = ev.ev(t.a[0])
            if isinstance(x, Val) and x.name == "options":
                k = ev.ev(t.a[1])
                if k in x.items:
                    return x.items[k]
                if t.op == "dget":
                    return ev.ev(t.a[2])
                raise Raised("KeyError")
        return NotImplemented
    return base


def detected(R, K):
    f = R.prog.func("Document.remove_layer")
    if f is None:
        return
    en, ps = R.paths(f, no_inline=("NodeLayerCollection.remove_field",))
    c = "Document.remove_layer[%s]" % K
    n = 0
    for p in ps:
        if not p.returns or p.outcome[1] is mk("const", "bool", False):
            continue
        for same in (False, True):
            for target in (True, False):
                if K not in REFS and target:
                    continue
                want = K in REFS and target and not same
                ev = Evaluator(round_base(K, same, target), R.prog)
                hit = seen = False
                for nest, li in field_rounds(p.events):
                    if not any(roots(l.dom).op == "sym" for l, _ in nest) and nest:
                        continue
                    if nest and any(roots(l.dom).op == "obj" for l, _ in nest):
                        continue
                    if not all(ev.truth(g) == b for l, lp in nest for g, b in lp.guards if g.op not in LOOPG):
                        seen = True
                        continue
                    for lp in li.paths:
                        try:
                            ok = all(ev.truth(g) == b for g, b in lp.guards if g.op not in LOOPG)
                        except Raised as x:
                            return R.bad("detected", c, "the search fails with %s on a field of this kind" % x, f.loc, trace=trace(p))
                        if not ok:
                            continue
                        seen = True
                        if [e for e in effects_of(lp) if e.kind != "raise"]:
                            hit = True
                if not seen:
                    raise Cannot("no search over the fields of every layer recognised")
                n += 1
                if want and not hit:
                    return R.bad("detected", c, "a field of this kind that refers to the removed layer is passed over", f.loc, trace=trace(p))
                if hit and not want and not same:
                    return R.bad("detected", c, "a field that does not refer to the removed layer is treated as referring to it", f.loc, trace=trace(p))
    if not n:
        return R.unknown("detected", c, "no removing path", f.loc)
    R.good("detected", c, "%d rounds decided" % n, f.loc)


def outcome(R):
    f = R.prog.func("Document.remove_layer")
    if f is None:
        return
    c = f.qual
    en, ps = R.paths(f, no_inline=("NodeLayerCollection.remove_field",))
    pn = params(en, f)
    casc = mk("sym", pn[2], None) if len(pn) > 2 else None
    exists = lambda p: next((b for g, b in p.guards if g.op == "in" and g.a[0].op == "sym" and g.a[0].a[0] == pn[1]
                             and g.a[1].op == "attr" and g.a[1].a[1] == "_layers"), None)
    cascading = lambda p: next((b for g, b in p.guards if (g.op == "truth" and g.a[0].op == "sym" and g.a[0].a[0] == pn[2])
                                or (g.op == "sym" and g.a[0] == pn[2])), None)
    n_ref = n_cas = n_rep = 0
    for p in ps:
        ex, ca = exists(p), cascading(p)
        conts = set()
        for e, nest in events(p.events):
            o = records(e)
            if o is not None and nest and any(roots(l.dom).op == "sym" for l, _ in nest):
                conts.add(o)
                li = nest[-1][0]
                if e.kind == "setitem" and over_fields(li) and not any(z.op in ("elem", "idx") and z.a[-1] == li.L for z in walk(e.a[1])):
                    v = contents(en, p.st, e.a[2]) if e.a[2].op == "obj" else e.a[2]
                    if any(z.op == "elem" and z.a[1] == li.L for z in walk(v)) and not any(base_obj(z) is o for z in walk(v) if z.op in ("obj", "item", "dget")):
                        return R.bad("cascade", c, "of several referring fields of one layer only the last is kept in mind", f.loc, trace=trace(p))
        found = count_tested(en, p, conts)
        dels = [e for e, nest in events(p.events) if e.kind == "delitem" and e.a[0].op == "attr" and e.a[0].a[1] == "_layers"
                or e.kind == "mut" and e.a[1] == "pop" and e.a[0].op == "attr" and e.a[0].a[1] == "_layers"]
        if p.returns:
            v = p.outcome[1]
            if ex is None:
                R.unknown("reported", c, "existence of the layer is not tested by membership", f.loc)
                return
            n_rep += 1
            if v.op == "const" and isinstance(v.a[1], bool) and v.a[1] != ex:
                return R.bad("reported", c, "reports %r where the layer %s" % (v.a[1], "existed" if ex else "did not exist"), f.loc, trace=trace(p))
            if v is NONE:
                return R.bad("reported", c, "reports nothing", f.loc, trace=trace(p))
            if ex and not dels:
                return R.bad("reported", c, "reports success without deleting the layer", f.loc, trace=trace(p))
            if ex and ca is False:
                n_ref += 1
                if found is True:
                    return R.bad("refused", c, "removes a layer that is referred to although cascading was not asked for", f.loc, trace=trace(p))
                if found == "?":
                    return R.unknown("refused", c, "what was found is tested in another way", f.loc)
                if found is None and conts:
                    return R.bad("refused", c, "removes the layer without asking whether a referring field was found", f.loc, trace=trace(p))
            if ex and ca is None and conts and found in (True, None):
                return R.bad("refused", c, "removes the layer whether or not cascading was asked for", f.loc, trace=trace(p))
            if ex and ca and found is not False:
                done = False
                for e, nest in events(p.events):
                    isrem = e.kind == "call" and any(z.op == "func" and z.a[0].endswith("remove_field") for z in walk(e.a[0])) or \
                        e.kind == "delitem" and e.a[0].op == "attr" and e.a[0].a[1] == "fields"
                    if isrem and nest:
                        done = True
                if done:
                    n_cas += 1
                else:
                    return R.bad("cascade", c, "cascading leaves the referring fields in place", f.loc, trace=trace(p))
        elif p.raises:
            if ex is False:
                continue
            if ca and not any(e.kind == "excall" for e in p.events):
                return R.bad("refused", c, "refuses although cascading was asked for", f.loc, trace=trace(p))
            if found is False:
                return R.bad("refused", c, "refuses although no field refers to the layer", f.loc, trace=trace(p))
            if found:
                n_ref += 1
    (R.good if n_ref else R.unknown)("refused", c, "%d paths" % n_ref, f.loc)
    (R.good if n_cas else R.unknown)("cascade", c, "%d paths" % n_cas, f.loc)
    (R.good if n_rep else R.unknown)("reported", c, "%d paths" % n_rep, f.loc)
    R.guarded("cascade", "NodeLayerCollection.remove_field", lambda: remove_field(R))


def remove_field(R):
    f = R.prog.func("NodeLayerCollection.remove_field")
    if f is None:
        return
    en, ps = R.paths(f)
    pn = params(en, f)
    n = 0
    for p in ps:
        if not p.returns:
            continue
        ex = next((b for g, b in p.guards if g.op == "in" and g.a[0].op == "sym" and g.a[0].a[0] == pn[1]
                   and any(z.op == "attr" and z.a[1] == "fields" for z in walk(g.a[1]))), None)
        dels = [e for e, nest in events(p.events) if (e.kind == "delitem" or e.kind == "mut" and e.a[1] == "pop")
                and e.a[0].op == "attr" and e.a[0].a[1] == "fields"]
        if ex is True and not dels:
            return R.bad("cascade", f.qual, "reports a removed field that is still declared", f.loc, trace=trace(p))
        if ex is not None:
            n += 1
    (R.good if n else R.unknown)("cascade", f.qual, "%d paths" % n, f.loc)


def container(en, p, t, conts):
    if t in conts or base_obj(t) in conts:
        return True
    return t.op in ("map", "list", "set", "obj") and any(layer_option(z) for z in walk(contents(en, p.st, t) if t.op == "obj" else t))


def count_tested(en, p, conts):
    """does the path continue with one referring field found (True), only with none (False), whatever was found (None), or unclear (?)"""
    gs = [(g, b) for g, b in p.guards if g.op not in LOOPG and any(container(en, p, z, conts) for z in walk(g))]
    if not gs:
        return None
    sat = []
    for n in (0, 1, 2):
        def base(t, ev):
            if t.op in ("len", "nonempty", "truth") and container(en, p, t.a[0], conts):
                return n if t.op == "len" else n > 0
            if container(en, p, t, conts):
                return Val("found", ["dict"], items={}, length=n, truth=n > 0)
            return NotImplemented
        try:
            sat.append(all(Evaluator(base).truth(g) == b for g, b in gs))
        except (Cannot, Raised):
            return "?"
    if p.returns:
        return True if sat[1] or sat[2] else False
    return False if sat[0] else True


# ------------------------------------------------------------------ missing target at encoding
def missing(R, K):
    f = R.prog.func("Document.compile")
    if f is None:
        return
    c = "Document.compile[%s]" % K
    en, ps = R.paths(f, attr_hook=kind_hook(K), no_inline=("NodeLayerCollection.compact", "NodeLayerCollection.validate", "Document._verify_references"))
    n = 0
    for p in ps:
        if not p.returns:
            continue
        # 1. a round over the fields that looks at the target layer on every way through
        verdict = None
        conts = {}
        for nest, li in field_rounds(p.events):
            rec = []
            ways = [lp for lp in li.paths if lp.outcome == "next"]
            for lp in ways:
                got = None
                for g, b in lp.guards:
                    if g.op == "in" and layer_option(g.a[0]) and any(z.op == "attr" and z.a[1] == "_layers" for z in walk(g.a[1])):
                        got = "tested" if b else "ignored"
                for e, _ in events(lp.events):
                    o = records(e)
                    if o is not None and any(isinstance(x, T) and layer_option(x) for x in walk(mk("tuple", tuple(y for y in e.a if isinstance(y, T)) + tuple(z for y in e.a if isinstance(y, tuple) for z in y if isinstance(z, T))))):
                        got = got or o
                rec.append(got)
            if not rec:
                continue
            if all(x == "tested" for x in rec):
                verdict = "tested"
            elif any(x == "ignored" for x in rec):
                verdict = verdict or "ignored"
            elif all(isinstance(x, T) for x in rec):
                conts.setdefault(rec[0], True)
            elif any(x is not None for x in rec):
                verdict = verdict or "partial"
        # 2. what was recorded is tested for membership, each entry
        if verdict != "tested":
            for e in p.events:
                if e.kind != "loop":
                    continue
                li = e.a[0]
                r = base_obj(li.dom) or (li.dom.op == "view" and base_obj(li.dom.a[1])) or None
                if r not in conts:
                    continue
                ways = [lp for lp in li.paths if lp.outcome == "next"]
                ok = [any(g.op == "in" and b and any(z.op == "attr" and z.a[1] == "_layers" for z in walk(g.a[1]))
                          and any(layer_option(v) for v, _ in resolve(en, p.st, g.a[0])) for g, b in lp.guards) for lp in ways]
                if ways and all(ok):
                    verdict = "tested"
                elif ways and not any(any(g.op == "in" for g, b in lp.guards) for lp in ways):
                    pass
            for g, b in p.guards:
                if conts and g.op in ("nonempty", "truth") and any(z in conts for z in walk(g)):
                    verdict = verdict or "other"
        if verdict == "tested":
            n += 1
            continue
        if verdict == "ignored" and looked_up(en, p):
            n += 1
            continue
        if verdict == "ignored":
            return R.bad("missing-target", c, "a missing target layer is noticed and passed over", f.loc, trace=trace(p))
        if verdict != "partial" and mentioned(en, p):
            # the targets are drawn into some other structure that is tested: by a loop over it or as a whole
            if looked_up(en, p):
                n += 1
                continue
            return R.unknown("missing-target", c, "tested in another way", f.loc)
        if not conts and verdict is None:
            return R.bad("missing-target", c, "a field of this kind can target a layer the document does not have without being refused", f.loc,
                         trace=trace(p))
        if verdict == "partial":
            return R.bad("missing-target", c, "on some way through, the target of a field of this kind is not looked at", f.loc, trace=trace(p))
        if verdict is None and conts and not any(x.op == "in" for e in p.events if e.kind == "loop" for lp in e.a[0].paths for x, _ in lp.guards):
            return R.bad("missing-target", c, "the targets are collected and never looked up among the layers", f.loc, trace=trace(p))
        return R.unknown("missing-target", c, "tested in another way", f.loc)
    (R.good if n else R.unknown)("missing-target", c, "%d paths" % n, f.loc)


def mentioned(en, p):
    """does any decision or loop of the path depend on the target layers of the fields, through whatever container?"""
    def deep(t, d=0):
        if layer_option(t):
            return True
        if d > 4:
            return False
        for z in walk(t):
            if z.op == "obj" and z.a[1] != "inst":
                x = contents(en, p.st, z)
                if x is not z and deep(x, d + 1):
                    return True
        return False
    for e in p.events:
        if e.kind == "loop":
            if deep(e.a[0].dom) or any(deep(g) for lp in e.a[0].paths for g, b in lp.guards if g.op not in LOOPG):
                if not (e.a[0].dom.op == "obj" or any(z.op == "attr" and z.a[1] == "_layers" for z in walk(e.a[0].dom))) or deep(e.a[0].dom):
                    return True
    return any(deep(g) for g, b in p.guards if g.op not in LOOPG)


def looked_up(en, p):
    for e in p.events:
        if e.kind != "loop":
            continue
        ways = [lp for lp in e.a[0].paths if lp.outcome == "next"]
        ok = [any(g.op == "in" and b and any(z.op == "attr" and z.a[1] == "_layers" for z in walk(g.a[1]))
                  and all_option(en, p, g.a[0]) for g, b in lp.guards) for lp in ways]
        if ways and all(ok):
            return True
    return False


def all_option(en, p, t):
    vs = resolve(en, p.st, t)
    return bool(vs) and all(layer_option(v) for v, _ in vs)


def opaque(p):
    """calls of functions the analysis does not know"""
    for e, nest in events(p.events):
        if e.kind == "call" and e.a[0].op not in ("func", "builtin", "class", "ext", "bound", "meth", "vmeth", "clo", "umeth"):
            return True
    return False


# ------------------------------------------------------------------ resolution at decoding
def resolved(R, q, K):
    f = R.prog.func(q)
    if f is None:
        return
    c = "%s[%s]" % (q, K)
    en, ps = R.paths(f, attr_hook=kind_hook(K), no_inline=("DataTypes.create", "NodeLayerSchema.add", "Document.add_layer", "Document.add_text"))
    n = 0
    for p in ps:
        if not p.returns:
            continue
        # rounds over nodes in which a field is replaced by nodes of the target layer
        good = bad = 0
        seen_nodes = False
        for e, nest in events(p.events):
            if e.kind != "setitem" or not nest:
                continue
            if any(lp.outcome != "next" for li, lp in nest):
                continue
            v = contents(en, p.st, e.a[2]) if e.a[2].op == "obj" and e.a[2].a[1] != "inst" else e.a[2]
            vs = [v]
            if v.op == "obj":
                vs = [hget(en, p.st, v, "left"), hget(en, p.st, v, "right")]
            if any(x is None for x in vs):
                continue
            if all(layer_option(x) for x in vs):
                good += 1
                # every way through that has the field set replaces it
                li, lp = nest[-1]
                for o in li.paths:
                    if o.outcome != "next":
                        continue
                    if not any(x.kind == "setitem" for x, _ in events(o.events)) and not any(
                            (g.op == "in" and not b) or (g.op == "is" and g.a[1] is NONE and b) for g, b in o.guards):
                        bad += 1
        if bad:
            return R.bad("resolved", c, "a set field of this kind is left as a stored position on some way through", f.loc, trace=trace(p))
        if not good and opaque(p):
            return R.unknown("resolved", c, "calls a function found at run time", f.loc)
        if not good:
            return R.bad("resolved", c, "fields of this kind are never replaced by nodes of their target layer", f.loc, trace=trace(p))
        n += 1
    (R.good if n else R.unknown)("resolved", c, "%d paths" % n, f.loc)
