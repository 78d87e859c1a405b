"""C12: trimming moves both ends over whitespace only and stops at the first other character; both variants agree."""
import itertools
from rules.common import *
from decide import loop_infos
from effects import cache_attr, attr_of

WS = (" ", "\u2003\n")


def words():
    """(text, start, stop): every shape of prefix / leading ws / body / trailing ws / suffix, two kinds of whitespace"""
    for w in WS:
        for pre, a, body, z, suf in itertools.product(("", "x", " "), (0, 1, 2), ("", "y", "y y"), (0, 1, 2), ("", "x", " ")):
            lead = (w * 2)[:a]
            tail = (w * 2)[:z]
            t = pre + lead + body + tail + suf
            yield t, len(pre), len(t) - len(suf)
    for a, body, z in itertools.product((0, 400), ("y", ""), (0, 400)):
        t = "x" + " " * a + body + " " * z + "x"
        yield t, 1, len(t) - 1


def shape(t, s, e):
    x = t[s:e]
    ns = s + len(x) - len(x.lstrip())
    ne = e - (len(x) - len(x.rstrip()))
    return ns, ne, not x.strip()


def chartests(guards):
    """[(char term, positive isspace?)] literals testing one character for being whitespace"""
    out = []
    for g, b in guards:
        while g.op == "truth" or g.op == "not":
            b = (not b) if g.op == "not" else b
            g = g.a[0]
        if g.op == "call" and g.a[0].op == "meth" and g.a[0].a[1] == "isspace" and not g.a[1]:
            out.append((g.a[0].a[0], b))
        elif g.op == "call" and g.a[0].op in ("umeth", "ext", "builtin") and "isspace" in show(g.a[0]) and len(g.a[1]) == 1:
            out.append((g.a[1][0], b))
        elif g.op in ("eq", "nonempty") and "strip" in show(g):
            c = [x for x in walk(g) if x.op == "call" and x.a[0].op == "meth" and x.a[0].a[1] == "strip" and not x.a[1]]
            if c:
                out.append((c[0].a[0].a[0], b if g.op == "eq" else not b))
    return out


def lin_of(t):
    """term as ({base: coef}, constant)"""
    if t.op == "lin":
        return {x: c for x, c in t.a[1]}, t.a[0]
    if t.op == "const" and isinstance(t.a[1], int):
        return {}, t.a[1]
    return {t: 1}, 0


def judge_loop(info):
    """(verdict, text, {name: 'f'|'b'}) for one trimming loop"""
    dirs = {}
    for name, (init, vals) in info.updates.items():
        if not isinstance(name, str) or init is None:
            continue
        ks = set()
        for g, v in vals:
            if v is None:
                return None, "variable %s" % name, {}
            if v.op == "lvar" and v.a[0] == name:
                ks.add(0)
                continue
            co, k = lin_of(v)
            if len(co) == 1 and next(iter(co)).op == "lvar" and next(iter(co)).a[0] == name and set(co.values()) == {1}:
                ks.add(k)
            else:
                ks.add(None)
        if None in ks:
            continue
        ks.discard(0)
        if len(ks) == 1:
            dirs[name] = (next(iter(ks)), init)
    tests = [chartests(p.guards) for p in info.paths]
    for p in info.paths:
        for g, b in p.guards:
            if g.op in ("in", "eq") and len(g.a) == 2:
                x, c = (g.a[0], g.a[1]) if g.a[1].op == "const" else (g.a[1], g.a[0])
                if c.op == "const" and isinstance(c.a[1], str) and x.op in ("elem", "each", "item") and dirs and (c.a[1] == "" or not c.a[1].strip()) \
                        and "text" in show(x):
                    return False, "only the characters %r are treated as whitespace" % c.a[1], {}
    if not any(tests):
        return None, "no whitespace test in the loop", {}
    moved = {}
    # which variables move on which paths
    for (name, (k, init)) in dirs.items():
        vals = dict()
        i = 0
        nxt = [p for p in info.paths if p.outcome == "next"]
        for p, (g, v) in zip(nxt, info.updates[name][1]):
            vals[p] = lin_of(v)[1] if v.op == "lin" else 0
        ctl = [p for p in nxt if vals.get(p)]
        pol = {b for p in ctl for _, b in chartests(p.guards)}
        if not all(chartests(p.guards) for p in ctl):
            continue
        if False in pol:
            return False, "%s moves past a character that is not whitespace" % name, {}
        if abs(k) != 1:
            return False, "%s moves by %d characters per whitespace character tested" % (name, k), {}
        moved[name] = k
        for p in info.paths:
            for x, b in chartests(p.guards):
                ok = position(x, name, k, init, info)
                if ok is False:
                    return False, "the character tested (%s) is not the one %s moves over" % (show(x)[:120], name), {}
                if ok is None:
                    return None, "character %s" % show(x)[:120], {}
                if not b and p.outcome == "next":
                    return False, "the scan does not stop at the first character that is not whitespace", {}
    if not moved:
        return None, "no trimming variable recognised", {}
    return True, "", {n: ("f" if k > 0 else "b", dirs[n][1]) for n, k in moved.items()}


def position(x, name, k, init, info):
    want = 0 if k > 0 else -1
    if x.op in ("elem", "each"):
        d = x.a[0]
        if d.op == "item" and d.a[1].op == "slice" and k > 0:
            lo, hi, st = d.a[1].a
            if st is not NONE:
                return None
            return lo is init
        return None
    if x.op == "item":
        co, c = lin_of(x.a[1])
        iv, i0 = lin_of(init)
        lv = [b for b in co if b.op == "lvar" and b.a[0] == name]
        if len(co) == 1 and lv and co[lv[0]] == 1:
            return c == want
        ix = [b for b in co if b.op == "idx" and b.a[0] == info.L]
        if len(co) == 1 + len(iv) and ix and abs(co[ix[0]]) == 1 and all(co.get(b) == q for b, q in iv.items()):
            return co[ix[0]] == k and c == want + i0
    return None


def check(R):
    R.rule("scan", "each trimming loop moves its end by exactly one per whitespace character, tests the character it moves over, and stops at the first other one")
    R.rule("range", "on every shape (leading/trailing whitespace, body, surroundings) the resulting range is exactly the span without its surrounding whitespace; an all-whitespace span gives an empty range inside it")
    R.rule("copy", "the copying variant writes no attribute of the original")
    prog = R.prog
    for qual in ("TextSpan.trim", "TextSpan.trim_"):
        f = prog.func(qual)

        def go(f=f, qual=qual):
            en, ps = R.paths(f)
            me = params(en, f)[0]
            infos = {}
            for p in ps:
                loop_infos(p.events, infos)
            dirs = {}
            bad = unk = None
            for L, info in infos.items():
                v, why, d = judge_loop(info)
                if v is False:
                    R.bad("scan", qual, why, f.loc, trace=trace(ps[0]))
                    bad = True
                elif v is None:
                    unk = why
                for n, x in d.items():
                    dirs[(n, L)] = x
            if bad:
                return
            if unk:
                R.unknown("scan", qual, unk, f.loc)
            elif infos:
                R.good("scan", qual, "%d loops" % len(infos), f.loc)
            if qual == "TextSpan.trim":
                w = [e for p in ps for e, _ in all_events(p.events) if e.kind in ("setattr", "delattr", "setitem") and e.a[0].op == "sym"]
                kept = [e for e in w if not (e.kind != "setitem" and cache_attr(R.prog, attr_of(e, e.a[0])))]
                if w and not kept:
                    R.unknown("copy", qual, "writes %s, which may be a memo" % attr_of(w[0], w[0].a[0]), w[0].loc)
                elif w:
                    w = kept
                    R.bad("copy", qual, "the copying variant writes %s of the original" % show(w[0].a[1] if isinstance(w[0].a[1], T) else const(w[0].a[1])), w[0].loc)
                else:
                    R.good("copy", qual, "", f.loc)
            ranges(R, qual, ps, me, infos, dirs, f, prog)
        R.guarded("range", qual, go)


def ranges(R, qual, ps, me, infos, dirs, f, prog):
    n = und = 0
    why = None
    whiles = any(i.kind == "while" for i in infos.values())
    for t, s, e in words():
        ns, ne, allws = shape(t, s, e)
        if allws and infos and whiles:
            continue
        tv = Val("text", {"Text"}, {"text": t, "name": "main"}, length=len(t), truth=bool(t))
        sv = Val("span", {"TextSpan"}, {"text": tv, "_start": s, "_stop": e, "start": s, "stop": e, "start_offset": s, "stop_offset": e},
                 length=e - s, truth=e > s)

        def base(x, ev):
            if x.op == "sym" and x.a[0] == me:
                return sv
            if x.op in ("lvar", "lout") and (x.a[0], x.a[2]) in dirs:
                d, init = dirs[(x.a[0], x.a[2])]
                i0 = ev.ev(init)
                info = infos[x.a[2]]
                if d == "f":
                    k = ns - i0
                    m = bound(info, ev)
                    if m is not None and m < k:
                        k = m
                    return i0 + max(k, 0)
                k = i0 - (ne if not allws else s)
                m = bound(info, ev)
                if m is not None and m < k:
                    k = m
                return i0 - max(k, 0)
            if x.op == "call" and x.a[0].op == "meth" and x.a[0].a[1] in ("isspace", "lstrip", "rstrip", "strip"):
                try:
                    o = ev.ev(x.a[0].a[0])
                    if isinstance(o, str):
                        return getattr(o, x.a[0].a[1])(*[ev.ev(y) for y in x.a[1]])
                except Raised:
                    raise
            return NotImplemented

        def loopy(g):
            return any(y.op in ("elem", "each", "lvar") for y in walk(g)) and any(True for _ in chartests([(g, True)]))
        for p in ps:
            E = Evaluator(base, prog)
            try:
                ok = True
                for g, b in p.guards:
                    if g.op in ("loopdone", "inloop", "loopbroke") or loopy(g):
                        continue
                    if E.truth(g) != b:
                        ok = False
                        break
                if not ok:
                    continue
                if p.raises:
                    # is the raise reachable? only claimed when every literal before it is decided
                    r = ("raise", exc_name(p.outcome[1]))
                elif p.outcome[1].op == "obj" and p.outcome[1].a[2] == "TextSpan":
                    o = p.outcome[1]
                    r = ("span", E.ev(p.st.heap[(o, "_start")]), E.ev(p.st.heap[(o, "_stop")]))
                else:
                    v = E.ev(p.outcome[1])
                    if v is sv:
                        cur = {k: E.ev(p.st.heap[(sym_of(p, me), k)]) if (sym_of(p, me), k) in p.st.heap else sv.attrs[k]
                               for k in ("_start", "_stop", "start_offset", "stop_offset")}
                        if (cur["_start"], cur["_stop"]) != (cur["start_offset"], cur["stop_offset"]):
                            return R.bad("range", qual, "after trimming in place the start/stop offsets disagree with the span range", f.loc, trace=trace(p))
                        r = ("span", cur["_start"], cur["_stop"])
                    elif isinstance(v, Val):
                        raise Cannot("result %s" % v)
                    else:
                        return R.bad("range", qual, "the result is not a span but %r" % (v,), f.loc, trace=trace(p))
            except Cannot as x:
                und += 1
                why = why or str(x)
                continue
            except Raised as x:
                r = ("raise", str(x))
            n += 1
            m = None
            if r[0] == "raise":
                m = "raises %s" % r[1]
            elif allws:
                if not (s <= r[1] <= e and r[1] == r[2]):
                    m = "an all-whitespace span becomes [%d,%d)" % (r[1], r[2])
            elif (r[1], r[2]) != (ns, ne):
                m = "the result is [%d,%d), without surrounding whitespace it is [%d,%d)" % (r[1], r[2], ns, ne)
            if m:
                return R.bad("range", qual, "span [%d,%d) of %r: %s" % (s, e, t, m), f.loc, trace=trace(p))
    if und:
        return R.unknown("range", qual, "%d agree, %d undecided (%s)" % (n, und, why), f.loc)
    if not n:
        return R.unknown("range", qual, "no feasible path", f.loc)
    R.good("range", qual, "%d shape outcomes" % n, f.loc)


def bound(info, ev):
    d = info.dom
    try:
        if d.op == "rng":
            return max(ev.ev(d.a[0]), 0)
        if d.op == "while":
            return None
        v = ev.ev(d)
        return len(v)
    except (Cannot, Raised, TypeError):
        return None


def sym_of(p, me):
    return next((k[0] for k in p.st.heap if k[0].op == "sym" and k[0].a[0] == me), sym(me))
