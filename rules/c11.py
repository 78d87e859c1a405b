"""C11: slicing a text or a span never yields an out-of-bounds or inverted span; a span's string is its current range."""
import itertools
from rules.common import *

TXT = "abcd"


def indexes():
    rng = [None] + list(range(-6, 7))
    for a, b in itertools.product(rng, rng):
        yield slice(a, b, None)
    for a, b in itertools.product((None, -1, 0, 1, 2, 5), repeat=2):
        yield slice(a, b, 1)
        yield slice(a, b, -1)
        yield slice(a, b, 2)
    for a, b in itertools.product(range(-6, 7), repeat=2):
        yield (a, b)
    for k in range(-6, 7):
        yield k


def mktext(n):
    s = TXT[:n]
    return Val("text %r" % s, {"Text"}, {"text": s, "name": "main"}, length=n, truth=n > 0)


def mkspan(tv, s, e):
    return Val("span[%d:%d]" % (s, e), {"TextSpan"}, {"text": tv, "_start": s, "_stop": e, "start": s, "stop": e, "start_offset": s, "stop_offset": e},
               length=e - s, truth=e > s)


def res_of(p, ev):
    """('raise', cls) | ('span', text, start, stop, alias ok) | ('val', v)"""
    if p.raises:
        return ("raise", exc_name(p.outcome[1]))
    v = p.outcome[1]
    if v.op == "obj" and v.a[2] == "TextSpan":
        h = p.st.heap
        a = {}
        for nm in ("text", "_start", "_stop", "start_offset", "stop_offset"):
            if (v, nm) in h:
                a[nm] = ev.ev(h[(v, nm)])
        if not {"text", "_start", "_stop"} <= set(a):
            raise Cannot("span constructed without known offsets")
        return ("span", a["text"], a["_start"], a["_stop"], a.get("start_offset", a["_start"]) == a["_start"] and a.get("stop_offset", a["_stop"]) == a["_stop"])
    r = ev.ev(v)
    if isinstance(r, Val) and "TextSpan" in r.classes:
        return ("span", r.attrs["text"], r.attrs["_start"], r.attrs["_stop"], True)
    return ("val", r)


def run_regions(R, rule, construct, ps, regs, base_of, judge, loc):
    n = und = 0
    why = None
    for pay in regs:
        ev = Evaluator(base_of(pay), R.prog)
        try:
            oc = outcomes(ps, ev)
            rs = []
            for p, e in oc:
                try:
                    rs.append((res_of(p, e), p))
                except Raised:
                    rs.append((("raise", "?"), p))
        except Cannot as x:
            und += 1
            why = why or "%s: %s" % (pay, x)
            continue
        for r, p in rs:
            n += 1
            m = judge(pay, r)
            if m:
                return R.bad(rule, construct, m, loc, trace=trace(p))
    if und:
        return R.unknown(rule, construct, "%d outcomes agree, %d regions undecided (%s)" % (n, und, why), loc)
    if not n:
        return R.unknown(rule, construct, "no feasible path", loc)
    return R.good(rule, construct, "%d region outcomes" % n, loc)


def check(R):
    R.rule("text-slice", "every span produced by slicing a text lies within it, is not inverted, and is the range asked for")
    R.rule("span-slice", "every span produced by slicing a span is relative to it and inside it; indexing by position gives the character of the span's own string")
    R.rule("span-string", "the string, length and joined ranges of a span are computed from its current start and stop on its own text")
    R.rule("no-inverted", "the span constructor refuses start > stop")
    R.rule("histories", "spans of real texts read, trimmed in place, sliced and read again: string, length, slices and joined ranges follow the current start and stop, "
           "and trimming a span leaves the spans made from it before as they were")
    R.guarded("histories", "TextSpan", lambda: histories(R))
    prog = R.prog

    f = prog.func("Text.__getitem__")

    def text():
        en, ps = R.paths(f)
        pn = params(en, f)
        regs = [(n, i) for n in (0, 1, 3) for i in indexes()]
        memo = {}

        def base_of(pay):
            n, i = pay
            tv = mktext(n)

            def base(t, ev):
                if t.op == "sym" and t.a[0] == pn[0]:
                    return tv
                if t.op == "sym" and t.a[0] == pn[1]:
                    return i
                if t.op == "meth" and t.a[0].op == "attr":
                    raise Cannot(show(t))
                return NotImplemented
            return base

        def judge(pay, r):
            n, i = pay
            if r[0] == "span":
                if r[1].name != mktext(n).name:
                    return "the span is on another text"
                a, b = r[2], r[3]
                if not (isinstance(a, int) and isinstance(b, int) and 0 <= a <= b <= n):
                    return "text of length %d indexed with %r gives span [%s, %s)" % (n, i, a, b)
                if not r[4]:
                    return "the span's offset aliases differ from its range"
                if isinstance(i, slice):
                    st = i.indices(n)
                    if i.step not in (None, 1):
                        return "a slice with step %s is answered as a contiguous span" % i.step
                    if (a, b) != st[:2]:
                        return "text[%r] on length %d gives [%d, %d), expected [%d, %d)" % (i, n, a, b, st[0], st[1])
                elif isinstance(i, tuple) and (a, b) != i:
                    return "text[%r] on length %d gives [%d, %d)" % (i, n, a, b)
            elif r[0] == "val" and isinstance(i, int):
                if not (-n <= i < n) or r[1] != TXT[:n][i]:
                    return "text[%d] gives %r" % (i, r[1])
        run_regions(R, "text-slice", "Text.__getitem__", ps, regs, base_of, judge, f.loc)
    R.guarded("text-slice", "Text.__getitem__", text)

    def spanfn(qual, rule, regs, judge, argval=None):
        f = prog.func(qual)

        def go():
            en, ps = R.paths(f, max_paths=6000)
            pn = params(en, f)

            def base_of(pay):
                n, s, e, i = pay
                tv = mktext(n)
                sv = mkspan(tv, s, e)

                def base(t, ev):
                    if t.op == "sym" and t.a[0] == pn[0]:
                        return sv
                    if len(pn) > 1 and t.op == "sym" and t.a[0] == pn[1]:
                        return argval(tv, i) if argval else i
                    return NotImplemented
                return base
            run_regions(R, rule, qual, ps, regs, base_of, judge, f.loc)
        R.guarded(rule, qual, go)

    def jspan(pay, r):
        n, s, e, i = pay
        if r[0] == "span":
            a, b = r[2], r[3]
            if r[1].name != mktext(n).name:
                return "the result is on another text"
            if not (isinstance(a, int) and isinstance(b, int) and s <= a <= b <= e):
                return "span [%d,%d) of a text of length %d indexed with %r gives [%s,%s)" % (s, e, n, i, a, b)
            if isinstance(i, slice):
                if i.step not in (None, 1):
                    return "a slice with step %s is answered as a contiguous span" % i.step
                w = tuple(s + x for x in i.indices(e - s)[:2])
                if (a, b) != w:
                    return "span [%d,%d)[%r] gives [%d,%d), relative slicing says [%d,%d)" % (s, e, i, a, b, w[0], w[1])
            elif isinstance(i, tuple) and (a, b) != (s + i[0], s + i[1]):
                return "span [%d,%d)[%r] gives [%d,%d)" % (s, e, i, a, b)
        elif r[0] == "val" and isinstance(i, int):
            own = TXT[:n][s:e]
            if not (-len(own) <= i < len(own)) or r[1] != own[i]:
                return "span [%d,%d) of %r at position %d gives %r, its own string is %r" % (s, e, TXT[:n], i, r[1], own)
    idx = list(indexes())
    spanfn("TextSpan.__getitem__", "span-slice", [(n, s, e, i) for n, s, e in ((4, 1, 3), (3, 0, 3), (4, 2, 2), (4, 1, 4), (0, 0, 0)) for i in idx], jspan)

    allspans = [(n, s, e, None) for n in (0, 2, 4) for s in range(n + 1) for e in range(s, n + 1)]

    def jstr(pay, r):
        n, s, e, i = pay
        if r[0] == "raise":
            return "raises for span [%d,%d)" % (s, e)
        if r[0] == "val" and r[1] != TXT[:n][s:e]:
            return "span [%d,%d) of %r has string %r" % (s, e, TXT[:n], r[1])
    spanfn("TextSpan.__str__", "span-string", allspans, jstr)

    def jlen(pay, r):
        if r[0] == "val" and r[1] != pay[2] - pay[1]:
            return "span [%d,%d) has length %r" % (pay[1], pay[2], r[1])
    spanfn("TextSpan.__len__", "span-string", allspans, jlen)
    for nm, ix in (("start", 1), ("stop", 2)):
        def jend(pay, r, nm=nm, ix=ix):
            if r[0] == "val" and r[1] != pay[ix]:
                return "%s of span [%d,%d) is %r" % (nm, pay[1], pay[2], r[1])
        spanfn("TextSpan." + nm, "span-string", allspans, jend)
    pairs = [(4, s, e, (a, b)) for s in range(5) for e in range(s, 5) for a in range(5) for b in range(a, 5)]

    def jto(pay, r):
        n, s, e, (a, b) = pay
        if r[0] == "span":
            if (r[2], r[3]) != (s, b):
                return "from [%d,%d) to [%d,%d) gives [%s,%s)" % (s, e, a, b, r[2], r[3])
        elif r[0] == "val" and r[1] != TXT[s:b]:
            return "text from [%d,%d) to [%d,%d) gives %r" % (s, e, a, b, r[1])
    for nm in ("span_to", "text_to"):
        spanfn("TextSpan." + nm, "span-string", pairs, jto, argval=lambda tv, i: mkspan(tv, i[0], i[1]))

    fi = prog.func("TextSpan.__init__")

    def init():
        en, ps = R.paths(fi, quiet_asserts=lambda q, d: False)
        pn = params(en, fi)
        for a, b in itertools.product(range(3), repeat=2):
            ev = Evaluator(lambda t, e: {pn[2]: a, pn[3]: b}.get(t.a[0], NotImplemented) if t.op == "sym" else NotImplemented, prog)
            oc = outcomes(ps, ev)
            for p, e in oc:
                if p.returns and a > b:
                    return R.bad("no-inverted", "TextSpan.__init__", "a span with start %d > stop %d is constructed" % (a, b), fi.loc, trace=trace(p))
                if p.returns:
                    me = [x for x in walk(tuple(y for ee in p.events for y in ee.a)) if x.op == "sym" and x.a[0] == pn[0]]
                    for ee in p.events:
                        if ee.kind == "setattr" and ee.a[1] in ("_start", "_stop", "start_offset", "stop_offset"):
                            w = a if "start" in ee.a[1] else b
                            if e.ev(ee.a[2]) != w:
                                return R.bad("no-inverted", "TextSpan.__init__", "attribute %s is set to the wrong bound" % ee.a[1], ee.loc)
        R.good("no-inverted", "TextSpan.__init__", "9 regions", fi.loc)
    R.guarded("no-inverted", "TextSpan.__init__", init)


# ------------------------------------------------------------------ histories of spans
def histories(R):
    from machine import Machine, Fail
    m = Machine(R, store=True)
    n = 0
    loc = R.prog.func("TextSpan.__str__").loc
    for chars in ("", "  ", "abc", " ab  c ", "a\tb"):
        t = m.new("Text", "main", chars)
        end = len(chars)

        def read(s, what):
            """(start, stop) of a span after comparing everything it says about itself, or a reason"""
            a, b = prop(m, s, "start"), prop(m, s, "stop")
            if not (isinstance(a, int) and isinstance(b, int)):
                raise Cannot("start and stop %r %r" % (a, b))
            if not 0 <= a <= b <= end:
                return "%s is the range %d:%d of a text of length %d" % (what, a, b, end)
            for name, args, want in [("__str__", (), chars[a:b]), ("__len__", (), b - a), ("text_to", (s,), chars[a:b])]:
                got = m.invoke(s, name, *args)
                if not isinstance(got, (str, int)):
                    raise Cannot("%s gives %r" % (name, got))
                if got != want:
                    return "%s (%d:%d): %s gives %r instead of %r" % (what, a, b, name, got, want)
            return a, b
        for a, b in itertools.combinations_with_replacement(range(end + 1), 2):
            if R.tier == "quick" and end > 4 and (a + b) % 2 and b - a not in (0, end):
                continue
            for first, then in itertools.product((False, True), ("trim_", "trim", "nothing")):
                n0 = len(m.log)
                what = "the span %d:%d of %r" % (a, b, chars)
                s = m.invoke(t, "__getitem__", slice(a, b))
                seen = []
                if first:
                    seen.append(read(s, what))
                part = m.invoke(s, "__getitem__", slice(0, b - a))
                seen.append(read(part, what + ", sliced whole"))
                if then != "nothing":
                    r = m.invoke(s, then)
                    what += " after " + then if then == "trim_" else ""
                    seen.append(read(r, what + ", trimmed"))
                cur = read(s, what)
                seen += [cur, read(part, what + ", its earlier slice")]
                bad = [x for x in seen if isinstance(x, str)]
                if not bad and seen[-1] != (a, b):
                    bad = ["%s: a slice made before is now %d:%d instead of %d:%d" % (what, *seen[-1], a, b)]
                if not bad:
                    a2, b2 = cur
                    for i, j in ((0, 1), (1, None), (0, b2 - a2), (-1, None), (None, -1)):
                        x, y, _ = slice(i, j).indices(b2 - a2)
                        try:
                            q = read(m.invoke(s, "__getitem__", slice(i, j)), "%s, sliced %s:%s" % (what, i, j))
                        except Fail:
                            continue
                        if q != (a2 + x, a2 + y) and x <= y:
                            bad.append(q if isinstance(q, str) else "%s, now %d:%d: sliced %s:%s gives the range %d:%d" % (what, a2, b2, i, j, *q))
                    try:
                        q = m.invoke(s, "__getitem__", 0)
                        if isinstance(q, str) and q != chars[a2:b2][:1]:
                            bad.append("%s, now %d:%d: its first character is %r" % (what, a2, b2, q))
                    except Fail:
                        pass
                m.undo(n0)
                n += 1
                if bad:
                    return R.bad("histories", "TextSpan", bad[0], loc)
    R.good("histories", "TextSpan", "%d histories" % n, loc)


def prop(m, s, name):
    f, n = m.method(s, name)
    return m.run(f, [s], {}, n) if f is not None else s.attrs[name]
