"""Helpers shared by the rule modules."""
from terms import *
from decide import *
from psi import Path
from evalx import Ctx

ENUM = "DataTypeEnum"
KINDS = ("I32", "I64", "F64", "BOOL", "STRING", "BINARY", "SPAN", "NODEREF", "NODEREF_MANY", "NODEREF_SPAN")


def E(name):
    return mk("enum", ENUM, name)


def ctx_of(f):
    return Ctx(f.module, f.cls, f.qual, 0, f.node)


def params(en, f):
    return [n for n, k, d in en._params(f.node)]


def then(en, p, f, obj, meth, args=(), kw=None):
    """Continue a path by calling obj.meth(*args): [Path]"""
    out = []
    for s, v in en.call_method(obj, meth, list(args), dict(kw or {}), p.st, ctx_of(f), f.node):
        out.append(Path(s, v if isinstance(v, tuple) else ("ret", v)))
    return out


def trace(p, n=14):
    return [("" if b else "not ") + show(g)[:300] for g, b in p.guards][:n]


def all_events(events):
    """every event, including those inside loop summaries (depth first), with the loop nesting"""
    st = [(e, ()) for e in reversed(list(events))]
    while st:
        e, nest = st.pop()
        yield e, nest
        if e.kind == "loop":
            li = e.a[0]
            for p in reversed(li.paths):
                for x in reversed(p.events):
                    st.append((x, nest + ((li, p),)))


def symbols(t):
    return {x for x in walk(t) if x.op == "sym"}


def decision(R, rule, construct, paths, regions, base_of, judge, loc, conv=None, en=None):
    """regions: iterable of (description, payload); base_of(payload) -> base function;
    judge(payload, kind, value, path) -> None if fine else explanation."""
    n = 0
    und = 0
    why = None
    for desc, pay in regions:
        ev = Evaluator(base_of(pay), R.prog, en)
        try:
            rs = results(paths, ev)
        except Cannot as x:
            und += 1
            why = why or "for %s: %s" % (desc, x)
            continue
        if not rs:
            und += 1
            why = why or "no feasible path for %s" % (desc,)
            continue
        for (k, v), p in rs:
            n += 1
            m = judge(pay, k, v, p)
            if m:
                return R.bad(rule, construct, "%s: %s" % (desc, m), loc, trace=trace(p))
    if und and not n:
        return R.unknown(rule, construct, "outside the vocabulary: %s" % why, loc)
    if und:
        return R.unknown(rule, construct, "%d regions agree, %d undecided: %s" % (n, und, why), loc)
    return R.good(rule, construct, "%d region outcomes agree" % n, loc)


def hget(en, st, obj, name, default=None):
    """attribute of an object built along the path (or at module initialisation)"""
    v = st.heap.get((obj, name))
    if v is None:
        v = en.const_state.heap.get((obj, name))
    return default if v is None else v


def contents(en, st, v):
    """frozen contents of a container built along the path or at module initialisation"""
    if v.op == "obj" and v not in st.objs and en.const_state.objs.get(v) is not None:
        st = en.const_state
    return en.freeze(v, st)


def dtype_of(v, st, en):
    """(enum kind, options) of a data type object constructed along the path; (None, {}) when not such an object"""
    if v.op == "obj" and v.a[1] == "inst":
        tn = hget(en, st, v, "typename")
        if tn is not None and tn.op == "enum":
            op = hget(en, st, v, "options")
            opts = None
            if op is not None:
                f = contents(en, st, op)
                if f.op == "map" and all(z.op == "one" and len(z.a) == 2 and z.a[0].op == "const" for z in f.a[0]):
                    opts = {z.a[0].a[1]: z.a[1] for z in f.a[0]}
            return tn.a[1], opts
    return None, {}


def frozen(en, ps):
    """the same paths with the containers they return resolved to their contents"""
    return [Path(p.st, ("ret", en.freeze(p.outcome[1], p.st))) if p.returns and isinstance(p.outcome[1], T) else p for p in ps]


# ------------------------------------------------------------------ values through containers built along the path
def seg_members(segs, guards=()):
    """[(value or (key, value), guards)] of everything a container built along the path can hold"""
    for z in segs:
        if z.op == "one":
            yield (z.a[0] if len(z.a) == 1 else (z.a[0], z.a[1])), guards
        elif z.op in ("for", "forp"):
            for g, ss in z.a[2]:
                yield from seg_members(ss, guards + tuple(x for x in g if x[0].op not in LOOPG))
        else:
            raise Cannot("contents %s" % z.op)


LOOPG = ("loopdone", "inloop", "loopbroke")


def resolve(en, st, t, d=0):
    """[(term, guards)]: the values t can stand for, looking through containers built along the path"""
    if d > 12:
        raise Cannot("nesting")
    t0 = t
    if t.op == "obj":
        f = contents(en, st, t)
        return [(f, ())]
    if t.op in ("at", "sdef"):
        return resolve(en, st, t.a[0], d + 1)
    if t.op in ("item", "dget"):
        out = []
        for b, g in resolve(en, st, t.a[0], d + 1):
            k = t.a[1]
            if b.op == "map":
                for m, g2 in seg_members(b.a[0]):
                    if k.op == "const" and m[0].op == "const" and m[0] is not k:
                        continue
                    out += [(v, g + g2 + g3) for v, g3 in resolve(en, st, m[1], d + 1)]
            elif b.op == "tuple" and is_const(k) and isinstance(k.a[1], int) and -len(b.a[0]) <= k.a[1] < len(b.a[0]):
                out += [(v, g + g3) for v, g3 in resolve(en, st, b.a[0][k.a[1]], d + 1)]
            elif b.op == "list":
                ms = list(seg_members(b.a[0]))
                if is_const(k) and isinstance(k.a[1], int) and all(z.op == "one" for z in b.a[0]) and -len(ms) <= k.a[1] < len(ms):
                    ms = [ms[k.a[1]]]
                for m, g2 in ms:
                    out += [(v, g + g2 + g3) for v, g3 in resolve(en, st, m, d + 1)]
            else:
                out.append((t if b is t.a[0] else mk(t.op, b, *t.a[1:]), g))
        return out
    if t.op == "elem":
        out = []
        D = t.a[0]
        kind = None
        if D.op == "view":
            kind, D = D.a[0], D.a[1]
        for b, g in resolve(en, st, D, d + 1):
            if b.op == "map":
                for m, g2 in seg_members(b.a[0]):
                    out.append((m[1] if kind == "values" else m[0], g + g2))
            elif b.op in ("list", "set", "tuple") and kind is None:
                ms = [(x, ()) for x in b.a[0]] if b.op == "tuple" else seg_members(b.a[0])
                for m, g2 in ms:
                    out += [(v, g + g2 + g3) for v, g3 in resolve(en, st, m, d + 1)]
            else:
                out.append((t0 if b is D else mk("elem", b if kind is None else mk("view", kind, b), *t.a[1:]), g))
        return out
    return [(t, ())]


def kind_hook(kind):
    """attr_hook: every data type the function meets is of this kind"""
    def h(en, base, name, st):
        if name == "typename" and base.op != "obj":
            return E(kind)
    return h
