"""C27: type declarations honour the requested default; nodes created without the field get it."""
import itertools
from rules.common import *

CLS = {"I32": "DataTypeInt32", "I64": "DataTypeInt64", "F64": "DataTypeFloat", "BOOL": "DataTypeBool", "STRING": "DataTypeString",
       "BINARY": "DataTypeBinary", "SPAN": "DataTypeTextspan", "NODEREF": "DataTypeNoderef", "NODEREF_MANY": "DataTypeNoderefList",
       "NODEREF_SPAN": "DataTypeNodespan"}
DEF = object()
FACT = {"int32": ("I32", [(DEF, 0), (None, None), (0, 0), (1, 1), (-3, -3), (2 ** 31 - 1, 2 ** 31 - 1)]),
        "int64": ("I64", [(DEF, 0), (None, None), (0, 0), (1, 1), (-3, -3), (2 ** 40, 2 ** 40)]),
        "float64": ("F64", [(DEF, 0.0), (None, None), (0.0, 0.0), (1.5, 1.5), (-1.0, -1.0), (2, 2.0)]),
        "string": ("STRING", [(DEF, ""), (None, None), ("", ""), ("x", "x"), ("None", "None")]),
        "bool": ("BOOL", [(DEF, False), (None, None), (False, False), (True, True)]),
        "boolean": ("BOOL", [(DEF, False), (None, None), (False, False), (True, True)])}


def check(R):
    R.rule("factory", "each scalar type factory returns a type of its kind carrying exactly the requested default (none for None), and that default is a value of the kind")
    R.rule("target", "each reference/span type factory returns a type of its kind whose option is the name of the given layer or text")
    R.rule("layer-defaults", "a layer's defaults are exactly the non-None defaults of its current schema, and are recomputed after each schema change")
    R.rule("node-defaults", "nodes created by add() start from the layer defaults, overridden by the given values; add_many fills defaults only into missing fields")
    prog = R.prog
    for name, (kind, cases) in FACT.items():
        def go(name=name, kind=kind, cases=cases):
            a = prog.cls("DataTypes")
            f = a.find(name)
            if f is None:
                ca = a.find_attr(name)
                import ast
                if ca is not None and isinstance(ca[1], ast.Name):
                    f = a.find(ca[1].id)
            if f is None:
                return R.unknown("factory", "DataTypes." + name, "not a function", None)
            en = R.engine()
            pn = params(en, f)
            n = 0
            for given, want in cases:
                en, ps = R.paths(f, args={} if given is DEF else {pn[0]: const(given)}, engine=R.engine())
                d = dict((x, y) for x, k, y in en._params(f.node)) if given is DEF else {}
                for p in ps:
                    desc = "%s(%s)" % (name, "" if given is DEF else repr(given))
                    if given is DEF and p.guards:
                        # default parameter value: bind it
                        dv = default_const(f, pn[0])
                        if dv is NotImplemented:
                            return R.unknown("factory", "DataTypes." + name, "default parameter", f.loc)
                        E_ = Evaluator(lambda t, ev: dv if t.op == "sym" and t.a[0] == pn[0] else NotImplemented, prog)
                        try:
                            if any(E_.truth(g) != b for g, b in p.guards):
                                continue
                        except Cannot as x:
                            return R.unknown("factory", "DataTypes." + name, str(x), f.loc)
                    else:
                        E_ = Evaluator(lambda t, ev: NotImplemented, prog)
                    if p.raises:
                        return R.bad("factory", "DataTypes." + name, "%s raises" % desc, f.loc, trace=trace(p))
                    v = p.outcome[1]
                    k, o = dtype_of(v, p.st, en)
                    if k is None or o is None:
                        if v is NONE or v.op == "const":
                            return R.bad("factory", "DataTypes." + name, "%s returns %s" % (desc, show(v)), f.loc, trace=trace(p))
                        return R.unknown("factory", "DataTypes." + name, "%s: result %s" % (desc, show(v)[:80]), f.loc)
                    if k != kind or v.a[2] != CLS[kind]:
                        return R.bad("factory", "DataTypes." + name, "%s returns a %s declared %s" % (desc, v.a[2], k), f.loc, trace=trace(p))
                    dv = o.get("default", NONE)
                    if given is not DEF and dv.op == "sym":
                        val = given
                    else:
                        try:
                            val = E_.ev(dv)
                        except Cannot as x:
                            return R.unknown("factory", "DataTypes." + name, "%s: default %s" % (desc, show(dv)[:80]), f.loc)
                    if val != want or (val is None) != (want is None) or isinstance(val, bool) != isinstance(want, bool):
                        return R.bad("factory", "DataTypes." + name, "%s declares default %r" % (desc, val), f.loc, trace=trace(p))
                    if want is not None:
                        ok = validates(R, prog, v.a[2], kind, val)
                        if ok is False:
                            return R.bad("factory", "DataTypes." + name, "%s declares default %r, which its own validation rejects" % (desc, val), f.loc, trace=trace(p))
                        if ok is None:
                            return R.unknown("factory", "DataTypes." + name, "validation of %r" % (val,), f.loc)
                    n += 1
            if n:
                R.good("factory", "DataTypes." + name, "%d requests" % n, f.loc)
            else:
                R.unknown("factory", "DataTypes." + name, "no path", f.loc)
        R.guarded("factory", "DataTypes." + name, go)

    # ---- reference factories
    for name, kind, opt in (("noderef", "NODEREF", "layer"), ("noderef_many", "NODEREF_MANY", "layer"), ("nodespan", "NODEREF_SPAN", "layer"),
                            ("textspan", "SPAN", "context"), ("span", "SPAN", "context")):
        def go(name=name, kind=kind, opt=opt):
            c = prog.cls("DataTypes")
            f = c.find(name)
            if f is None:
                import ast
                ca = c.find_attr(name)
                f = c.find(ca[1].id) if ca is not None and isinstance(ca[1], ast.Name) else None
            if f is None:
                return R.unknown("target", "DataTypes." + name, "not a function", None)
            for form in ("name", "object"):
                arg = sym("target", "str") if form == "name" else sym("target", "Text" if opt == "context" else "NodeLayerCollection")
                en, ps = R.paths(f, args={params(R.engine(), f)[0]: arg}, engine=R.engine())
                n = 0
                for p in ps:
                    if any(g.op == "isinst" and g.a[0] is arg and b != ((g.a[1] is B("str")) == (form == "name")) for g, b in p.guards):
                        continue
                    if p.raises:
                        continue
                    v = p.outcome[1]
                    k, o = dtype_of(v, p.st, en)
                    if k is None:
                        if v.op == "attr" and v.a[1] in ("spantype", "nodetype") and v.a[0] is arg:
                            n += 1
                            continue
                        return R.unknown("target", "DataTypes." + name, show(v)[:80], f.loc)
                    if k != kind or v.a[2] != CLS[kind]:
                        return R.bad("target", "DataTypes." + name, "returns a %s declared %s" % (v.a[2], k), f.loc, trace=trace(p))
                    if o is None:
                        return R.unknown("target", "DataTypes." + name, "options", f.loc)
                    t = o.get(opt)
                    if t is None:
                        return R.bad("target", "DataTypes." + name, "the %s option is missing" % opt, f.loc, trace=trace(p))
                    good = t is arg if form == "name" else "target" in {x.a[0] for x in symbols(t)} and t.op == "attr" and t.a[1] in ("name",)
                    if not good:
                        if t is arg and form == "object" or t.op == "const":
                            return R.bad("target", "DataTypes." + name, "the %s option is %s" % (opt, show(t)), f.loc, trace=trace(p))
                        return R.unknown("target", "DataTypes." + name, show(t)[:80], f.loc)
                    n += 1
                if not n:
                    return R.unknown("target", "DataTypes." + name, "no path for a %s" % form, f.loc)
            R.good("target", "DataTypes." + name, "", f.loc)
        R.guarded("target", "DataTypes." + name, go)

    fcr = prog.func("DataTypes.create")

    def create():
        n = 0
        for kind in KINDS:
            en = R.engine()
            pn = params(en, fcr)
            en, ps = R.paths(fcr, args={pn[0]: E(kind)}, engine=en)
            for p in ps:
                if p.raises:
                    return R.bad("target", "DataTypes.create", "kind %s is refused" % kind, fcr.loc, trace=trace(p))
                v = p.outcome[1]
                if v.op != "obj":
                    return R.unknown("target", "DataTypes.create", show(v)[:100], fcr.loc)
                tn = hget(en, p.st, v, "typename")
                if v.a[2] != CLS[kind] or tn is not E(kind):
                    return R.bad("target", "DataTypes.create", "kind %s is created as a %s declared %s" % (kind, v.a[2], show(tn) if tn else "?"), fcr.loc, trace=trace(p))
                ops = hget(en, p.st, v, "options")
                f = contents(en, p.st, ops) if ops is not None else None
                if f is None or not any(x.op == "sym" and x.a[0].lstrip("*") == pn[-1].lstrip("*") or x.op == "sym" and "options" in x.a[0] for x in walk(f)):
                    if f is not None and f.op == "map" and not f.a[0]:
                        return R.bad("target", "DataTypes.create", "kind %s drops the options" % kind, fcr.loc, trace=trace(p))
                    return R.unknown("target", "DataTypes.create", "options %s" % (show(f)[:80] if f is not None else None), fcr.loc)
                n += 1
        R.good("target", "DataTypes.create", "%d kinds" % n, fcr.loc)
    R.guarded("target", "DataTypes.create", create)

    # ---- layer defaults
    def defaults(qual, holder):
        f = prog.func(qual)

        def go():
            en, ps = R.paths(f)
            n = 0
            for p in ps:
                if not p.returns:
                    continue
                v = next((x for (o, a), x in p.st.heap.items() if a == "_default_values" and o.op == "sym"), None)
                if v is None:
                    return R.bad("layer-defaults", qual, "the defaults are not recomputed", f.loc, trace=trace(p))
                term = en.freeze(v, p.st)
                for vals in ((None, 0, 5), ("", None, "x"), (False, True, None), (0.0, 1.5, ""), (None, None, None)):
                    fields = Val("fields", {"dict"}, items={"f%d" % i: Val("type%d" % i, {"DataType"}, {"options": {} if x is None and i == 0 else {"default": x}}, truth=True)
                                                            for i, x in enumerate(vals)}, length=len(vals), truth=True)

                    def base(t, ev):
                        if t.op == "attr" and t.a[1] == "fields":
                            return fields
                        return NotImplemented
                    try:
                        got = Evaluator(base, prog).ev(term)
                    except Cannot as x:
                        return R.unknown("layer-defaults", qual, str(x)[:150], f.loc)
                    want = {"f%d" % i: x for i, x in enumerate(vals) if x is not None}
                    if not isinstance(got, dict):
                        return R.unknown("layer-defaults", qual, repr(got)[:80], f.loc)
                    if {k: v for k, v in got.items() if v is not None} != want:
                        return R.bad("layer-defaults", qual, "for field defaults %s the layer defaults are %s" % (list(vals), got), f.loc, trace=trace(p))
                    n += 1
            R.good("layer-defaults", qual, "%d default patterns" % n, f.loc) if n else R.unknown("layer-defaults", qual, "no path", f.loc)
        R.guarded("layer-defaults", qual, go)
    defaults("NodeLayerCollection._update_default_values", "self") if has_func(prog, "NodeLayerCollection._update_default_values") else None
    defaults("NodeLayerCollection.__init__", "schema")

    for qual in ("NodeLayerCollection.add_field", "NodeLayerCollection.remove_field"):
        f = prog.func(qual)

        def go(f=f, qual=qual):
            en, ps = R.paths(f)
            n = 0
            for p in ps:
                if not p.returns:
                    continue
                chg = [i for i, (e, _) in enumerate(all_events(p.events)) if (e.kind in ("setitem", "delitem") or e.kind == "mut" and e.a[1] in ("pop", "__delitem__", "update")) and e.a[0].op == "attr" and e.a[0].a[1] == "fields"]
                if not chg:
                    continue
                evs = [e for e, _ in all_events(p.events)]
                upd = [i for i, e in enumerate(evs) if e.kind == "setattr" and e.a[1] == "_default_values" or e.kind in ("setitem", "mut", "delitem") and e.a[0].op == "attr" and e.a[0].a[1] == "_default_values"]
                n += 1
                if not upd or upd[-1] < chg[-1]:
                    return R.bad("layer-defaults", qual, "the schema changes without the layer defaults being recomputed afterwards", f.loc, trace=trace(p))
                if qual.endswith("add_field"):
                    nm = params(en, f)[1]
                    for e, nest in all_events(p.events):
                        if e.kind == "setitem" and e.a[0].op in ("elem", "at") and e.a[1].op == "sym" and e.a[1].a[0] == nm:
                            if not any(x.op == "const" and x.a[1] == "default" for x in walk(e.a[2])):
                                return R.unknown("layer-defaults", qual, "initial value %s" % show(e.a[2])[:80], f.loc)
            R.good("layer-defaults", qual, "%d paths" % n, f.loc) if n else R.unknown("layer-defaults", qual, "no schema change recognised", f.loc)
        R.guarded("layer-defaults", qual, go)

    # ---- nodes
    fadd = prog.func("NodeLayerCollection.add")

    def add():
        en, ps = R.paths(fadd, no_inline=("NodeLayerCollection.validate",))
        n = 0
        for p in ps:
            if not (p.returns and p.value.op == "obj" and p.value.a[2] == "Node"):
                continue
            me = p.value
            src = []
            for e, nest in all_events(p.events):
                if e.kind == "new" and e.a[0] is me:
                    src += [source(x) for x in e.a[2]] + [source(x) for x in e.a[3]]
                elif e.kind == "mut" and e.a[0] is me and e.a[1] in ("update", "setdefault"):
                    src += [source(x) if e.a[1] == "update" else "?" for x in tuple(e.a[2]) + tuple(e.a[4])]
                elif e.kind == "setitem" and e.a[0] is me:
                    src.append("?")
            if "?" in src:
                return R.unknown("node-defaults", "NodeLayerCollection.add", "node filled from %s" % src, fadd.loc)
            n += 1
            if "defaults" not in src:
                return R.bad("node-defaults", "NodeLayerCollection.add", "a node is created without the layer defaults", fadd.loc, trace=trace(p))
            if "given" not in src:
                return R.bad("node-defaults", "NodeLayerCollection.add", "a node is created without the given values", fadd.loc, trace=trace(p))
            if src[-1] != "given":
                return R.bad("node-defaults", "NodeLayerCollection.add", "the layer defaults override the given values", fadd.loc, trace=trace(p))
        R.good("node-defaults", "NodeLayerCollection.add", "", fadd.loc) if n else R.unknown("node-defaults", "NodeLayerCollection.add", "no creating path", fadd.loc)
    R.guarded("node-defaults", "NodeLayerCollection.add", add)

    fm = prog.func("NodeLayerCollection.add_many")

    def many():
        en, ps = R.paths(fm, no_inline=("NodeLayerCollection.validate",))
        n = 0
        filled = False
        lost = None
        flag = next((x for x in params(en, fm) if x == "default_fill"), None)
        if flag is None:
            return R.unknown("node-defaults", "NodeLayerCollection.add_many", "no default_fill parameter", fm.loc)
        for p in ps:
            if not p.returns:
                continue
            had = n
            for e, nest in all_events(p.events):
                if e.kind == "mut" and e.a[1] == "setdefault" and any(x.op == "attr" and x.a[1] == "_default_values" for y in e.a[2] for x in walk(y)):
                    filled = True
                    n += 1
                if e.kind == "setitem" and e.a[2].op in ("item", "dget") and e.a[2].a[0].op == "attr" and e.a[2].a[0].a[1] == "_default_values":
                    n += 1
                    filled = True
                    if e.a[2].a[1] is not e.a[1]:
                        return R.bad("node-defaults", "NodeLayerCollection.add_many", "field %s gets the default of %s" % (show(e.a[1])[:60], show(e.a[2].a[1])[:60]), e.loc)
                    k, node = e.a[1], e.a[0]
                    missing = "difference" in show(k) and any(x is node or "keys" in show(x) for x in walk(k)) or k.op == "elem" and k.a[0].op in ("sub", "list", "set") \
                        or any(g.op in ("in",) and not b and g.a[0] is k for li, lp in nest for g, b in lp.guards) \
                        or any(g.op in ("is", "eq") and b and any(x.op == "dget" for x in walk(g)) for li, lp in nest for g, b in lp.guards)
                    if not missing and k.op == "elem" and k.a[0].op == "view" and k.a[0].a[1] is e.a[2].a[0] and not any(lp.guards for li, lp in nest):
                        return R.bad("node-defaults", "NodeLayerCollection.add_many", "defaults overwrite fields the node already has", e.loc, trace=trace(p))
            for want in (True, False):
                def base(t, ev):
                    if t.op == "sym" and t.a[0] == flag:
                        return want
                    if t.op == "attr" and t.a[1] == "_default_values":
                        return {"f": 1}
                    return NotImplemented
                Ev = Evaluator(base, prog)
                possible = True
                for g, b in p.guards:
                    try:
                        if g.op not in ("loopdone", "inloop", "loopbroke") and Ev.truth(g) != b:
                            possible = False
                    except (Cannot, Raised):
                        pass
                if possible and want and n == had:
                    lost = lost or p
                if possible and not want and n > had:
                    return R.bad("node-defaults", "NodeLayerCollection.add_many", "defaults are filled in although not asked for", fm.loc, trace=trace(p))
        if filled and lost:
            R.bad("node-defaults", "NodeLayerCollection.add_many", "with default_fill a path adds nodes without filling the defaults", fm.loc, trace=trace(lost))
        elif filled:
            R.good("node-defaults", "NodeLayerCollection.add_many", "", fm.loc)
        else:
            R.unknown("node-defaults", "NodeLayerCollection.add_many", "no default fill recognised", fm.loc)
    R.guarded("node-defaults", "NodeLayerCollection.add_many", many)

    fd = prog.func("DataType.default")

    def dflt():
        for x in (None, 0, "", False, 3):
            v = Val("type", {"DataType"}, {"options": {"default": x}}, truth=True)
            try:
                r = Evaluator(lambda t, e: NotImplemented, prog).user_call(v, fd.node.name, [])
            except Cannot as c:
                return R.unknown("layer-defaults", "DataType.default", str(c), fd.loc)
            if r != x or (r is None) != (x is None):
                return R.bad("layer-defaults", "DataType.default", "declared default %r reads back as %r" % (x, r), fd.loc)
        R.good("layer-defaults", "DataType.default", "", fd.loc)
    R.guarded("layer-defaults", "DataType.default", dflt)


def source(x):
    if isinstance(x, tuple):
        x = x[1] if len(x) == 2 and isinstance(x[1], T) else x[0]
    if not isinstance(x, T):
        return "?"
    if x.op == "attr" and x.a[1] == "_default_values" or x.op == "at" and x.a[0].op == "attr" and x.a[0].a[1] == "_default_values":
        return "defaults"
    if any(y.op == "sym" and "kwargs" in y.a[0] or y.op == "sym" and y.a[0].startswith("**") for y in walk(x)):
        return "given"
    return "?"


def has_func(prog, q):
    try:
        return prog.func(q) is not None
    except Exception:
        return False


def default_const(f, name):
    import ast
    a = f.node.args
    names = [x.arg for x in a.args]
    if name in names:
        i = names.index(name) - (len(names) - len(a.defaults))
        if i >= 0 and isinstance(a.defaults[i], ast.Constant):
            return a.defaults[i].value
    return NotImplemented


def validates(R, prog, cls, kind, val):
    v = Val("type", {cls}, {"typename": E(kind), "options": {"default": val}}, truth=True)
    try:
        r = Evaluator(lambda t, e: NotImplemented, prog).user_call(v, "is_valid", [val])
    except (Cannot, Raised):
        return None
    return bool(r) if isinstance(r, (bool, int)) else None
