"""C39: aligning tokens gives each its own span in order; translating spans keeps the position within the mapped interval."""
import itertools
from rules.store import *

QA, QT = "sequence_to_textspans", "span_translate"


def check(R):
    R.rule("aligned", "over all short texts and token sequences there is one span per token, spans follow each other without overlapping, and each is equal to its token or empty")
    R.rule("found", "tokens that make up the text one after the other, with separators that are no tokens between them, are each aligned at their place")
    R.rule("offsets", "with a start and a stop offset the spans are those of that part of the text, at their place in the whole text")
    R.rule("translated", "over the arrangements of mapped intervals and spans the target span starts and stops at the same distance from the start of the mapped interval; other nodes keep theirs")
    R.rule("gap", "a span that lies outside the mapped intervals is refused and not given a made-up target")
    R.guarded("aligned", QA, lambda: aligned(R))
    R.guarded("found", QA, lambda: found(R))
    R.guarded("offsets", QA, lambda: offsets(R))
    R.guarded("translated", QT, lambda: translated(R))
    R.guarded("gap", QT, lambda: gap(R))


def cut(m, text, i):
    """slicing of a text, as C11 has it"""
    if not isinstance(i, slice) or i.step not in (None, 1):
        raise Cannot("index %r of a text" % (i,))
    n = text.length
    if any(not isinstance(x, (int, type(None))) for x in (i.start, i.stop)):
        raise Cannot("index %r of a text" % (i,))
    a, b, s = i.indices(n)
    if a > b:
        raise Fail("DataValidationError")
    return Val("[%d:%d]" % (a, b), ["TextSpan"], {"start": a, "stop": b, "_start": a, "_stop": b, "text": text}, length=b - a, truth=b > a)


class World:
    def __init__(self, R, q):
        self.R, self.f = R, R.prog.func(q)
        if self.f is None:
            raise Cannot("no %s" % q)
        self.m = Machine(R, {"Text.__getitem__": cut, "Text.__str__": lambda m, t: t.attrs["text"], "Text.__len__": lambda m, t: t.length}, store=True)
        self.n = 0

    def text(self, s):
        return Val("text %r" % (s,), ["Text"], {"text": s, "name": "main"}, length=len(s), truth=bool(s))

    def align(self, tokens, s, *args, **kw):
        """[(start, stop)] or the name of a failure"""
        self.n += 1
        self.m.last = None
        try:
            r = self.m.run(self.f, [Val("tokens", ["list"], elems=list(tokens), length=len(tokens), truth=bool(tokens)), self.text(s)] + list(args), kw)
        except Fail as x:
            return x.name
        if not isinstance(r, Val) or r.elems is None or not all(isinstance(x, Val) and "TextSpan" in x.classes for x in r.elems):
            raise Cannot("result %r" % (r,))
        return [(x.attrs.get("_start", x.attrs.get("start")), x.attrs.get("_stop", x.attrs.get("stop"))) for x in r.elems]

    def trace(self):
        return trace(self.m.last) if self.m.last else None


def faithful(tokens, s, got, lo=0, hi=None):
    hi = len(s) if hi is None else hi
    if isinstance(got, str):
        return "fails with %s" % got
    if len(got) != len(tokens):
        return "yields %d spans" % len(got)
    at = lo
    for t, (a, b) in zip(tokens, got):
        if a < at:
            return "the span [%d:%d] of %r begins before the end of the one before" % (a, b, t)
        if b > hi:
            return "the span [%d:%d] of %r lies outside" % (a, b, t)
        if a != b and s[a:b] != t:
            return "%r is aligned to %r" % (t, s[a:b])
        at = b
    return None


def aligned(R):
    w = World(R, QA)
    texts = ["".join(x) for n in range(4) for x in itertools.product("ab", repeat=n)] + ["abca", "ab ba", "cab", "aab b"]
    toks = [x for n in range(3) for x in itertools.product(("a", "b", "ab"), repeat=n)] + \
           [("a", "c", "b"), ("c", "a", "b"), ("b", "a", "a"), ("a", "c", "c", "b"), ("c", "ab", "b", "a"), ("ba", "b", "a")]
    for s in texts:
        for t in toks:
            for kw in ({}, {"k": 2}) if len(t) > 2 else ({},) if len(s) > 1 else ({}, {"k": 0}):
                got = w.align(t, s, **kw)
                r = faithful(t, s, got)
                if r:
                    return R.bad("aligned", QA, "tokens %s in %r%s: %s" % (list(t), s, "".join(" with %s=%d" % x for x in kw.items()), r), w.f.loc, trace=w.trace())
    R.good("aligned", QA, "%d combinations" % w.n, w.f.loc)


def found(R):
    w = World(R, QA)
    for seps in (("", "", "", ""), ("", " ", " ", ""), (" ", "", "  ", " "), ("-", " ", "", "-")):
        for t in [x for n in range(1, 4) for x in itertools.product(("a", "b", "ab"), repeat=n)]:
            s, want = seps[0], []
            for i, x in enumerate(t):
                want.append((len(s), len(s) + len(x)))
                s += x + seps[min(i + 1, 3)]
            for kw in ({}, {"k": 0}, {"k": 3}):
                got = w.align(t, s, **kw)
                if got != want:
                    return R.bad("found", QA, "tokens %s in %r%s: %s" % (list(t), s, "".join(" with %s=%d" % x for x in kw.items()), "aligned at %s" % (got,)), w.f.loc, trace=w.trace())
    R.good("found", QA, "%d combinations" % w.n, w.f.loc)


def offsets(R):
    w = World(R, QA)
    s = "abcab bca"
    for t in (("a", "b"), ("b", "c", "a"), ("c", "x", "b"), ("x",), ("ab", "ca"), ("a", "x", "x", "b")):
        for lo in (0, 1, 3, len(s)):
            for hi in (None, 4, 6, len(s)):
                if hi is not None and hi < lo:
                    continue
                part = s[lo:hi]
                base = w.align(t, part)
                args = (lo,) if hi is None else (lo, hi)
                got = w.align(t, s, *args)
                if isinstance(base, str):
                    continue
                want = [(a + lo, b + lo) for a, b in base]
                if got != want:
                    return R.bad("offsets", QA, "tokens %s in %r from %s: aligned at %s, in the part alone at %s" % (list(t), s, args, got, base), w.f.loc, trace=w.trace())
    R.good("offsets", QA, "%d combinations" % w.n, w.f.loc)


class Doc:
    """a document with a mapping layer and a layer to translate"""

    def __init__(self, w, maps, nodes, fields=("raw", "clean"), nfields=("clean", "raw")):
        span = lambda s: Val("[%d:%d]" % s, ["TextSpan"], {"start": s[0], "stop": s[1], "_start": s[0], "_stop": s[1]}, length=s[1] - s[0], truth=s[1] > s[0])

        def node(name, i, its):
            v = Val(name, ["Node"], {"_id": i, "i": i}, items={k: span(x) for k, x in its.items()}, length=len(its))
            return v

        def layer(name, ns, fs, ctx):
            types = {k: Val("type of %s" % k, ["DataTypeTextspan"], {"typename": E("SPAN"), "options": Val("options", ["dict"], items={"context": c}, length=1, truth=True)}) for k, c in zip(fs, ctx)}
            fv = Val("fields", ["dict"], items=types, length=2, truth=True)
            sch = Val("schema", ["NodeLayerSchema"], {"fields": fv, "name": name})
            return Val(name, ["NodeLayerCollection"], {"_schema": sch, "schema": sch, "name": name}, elems=ns, length=len(ns), truth=True)
        tgt, src = fields
        self.maps = [node("mapping %d" % i, i, {tgt: t, src: s}) for i, (s, t) in enumerate(maps)]
        self.nodes = [node("node %d" % i, i, {nfields[0]: s} if not isinstance(s, dict) else s) for i, s in enumerate(nodes)]
        mine = [layer("mapping", self.maps, (tgt, src), ("target", "source")), layer("data", self.nodes, nfields, ("source", "target"))]
        layers = Val("layers", ["dict"], items={x.name: x for x in mine}, length=2, truth=True)
        self.texts = {k: w.text("." * 60) for k in ("target", "source")}
        texts = Val("texts", ["dict"], items=dict(self.texts), length=2, truth=True)
        self.doc = Val("doc", ["Document"], {"_layers": layers, "_texts": texts, "layer": layers, "layers": layers, "texts": texts, "text": texts})

    def run(self, w, fields=("raw", "clean"), nfields=("clean", "raw")):
        w.n += 1
        w.m.last = None
        try:
            w.m.run(w.f, [self.doc, "mapping", fields, "data", nfields])
        except Fail as x:
            return x.name
        return None


def translated(R):
    w = World(R, QT)
    maps = [[((0, 4), (10, 14))], [((0, 4), (10, 14)), ((4, 8), (20, 24))], [((4, 8), (20, 24)), ((0, 4), (10, 14))],
            [((0, 2), (30, 32)), ((2, 5), (4, 7)), ((5, 8), (12, 15))], [((0, 3), (5, 8)), ((4, 8), (10, 14))]]
    for ms in maps:
        inside = lambda p: [(s, t) for s, t in ms if s[0] <= p < s[1]]
        spans = [(a, b) for a in range(8) for b in range(a + 1, 9) if inside(a) and inside(b - 1)]

        def image(s):
            (x, t), (y, u) = inside(s[0])[0], inside(s[1] - 1)[0]
            return (s[0] - x[0] + t[0], s[1] - 1 - y[0] + u[0] + 1)
        spans = [s for s in spans if image(s)[0] <= image(s)[1]]
        sets = [[s] for s in spans] + [[a, b] for a, b in itertools.product(spans[::3], spans[::4])]
        for fields, nfields in ((("raw", "clean"), ("clean", "raw")), (("t", "s"), ("x", "y"))):
            for ns in sets if fields[0] == "raw" else sets[:6]:
                d = Doc(w, ms, list(ns) + [{nfields[0]: (0, 1), nfields[1]: (7, 9)}], fields, nfields)
                what = "mapping %s, spans %s" % (", ".join("[%d:%d] to [%d:%d]" % (s + t) for s, t in ms), ", ".join("[%d:%d]" % s for s in ns))
                f = d.run(w, fields, nfields)
                if f:
                    return R.bad("translated", QT, "%s: fails with %s" % (what, f), w.f.loc, trace=w.trace())
                for n, s in zip(d.nodes, list(ns) + [None]):
                    v = n.items.get(nfields[1])
                    want = (7, 9) if s is None else image(s)
                    if not isinstance(v, Val):
                        return R.bad("translated", QT, "%s: [%d:%d] is not translated" % ((what,) + s), w.f.loc, trace=w.trace())
                    got = (v.attrs.get("_start"), v.attrs.get("_stop"))
                    if got != want:
                        return R.bad("translated", QT, "%s: %s becomes [%s:%s]" % ((what, "[%d:%d]" % s if s else "a node with a target") + got), w.f.loc, trace=w.trace())
                    if s is not None and v.attrs.get("text") is not d.texts["target"]:
                        return R.bad("translated", QT, "%s: the new span lies in another text" % what, w.f.loc)
                    if s is not None and n.items.get(nfields[0]).attrs["start"] != s[0]:
                        return R.bad("translated", QT, "%s: the source span of a node changes" % what, w.f.loc)
    R.good("translated", QT, "%d arrangements" % w.n, w.f.loc)


def gap(R):
    w = World(R, QT)
    ms = [((2, 4), (10, 12)), ((6, 8), (20, 22))]
    for s in [(0, 1), (1, 2), (4, 5), (4, 6), (8, 9), (3, 5), (1, 3), (5, 7), (7, 9), (0, 9)]:
        d = Doc(w, ms, [s])
        f = d.run(w)
        v = d.nodes[0].items.get("raw")
        if f is None and v is not None:
            return R.bad("gap", QT, "the span [%d:%d], of which a part is not mapped, becomes [%s:%s]" % (s + (v.attrs.get("_start"), v.attrs.get("_stop"))), w.f.loc, trace=w.trace())
        if f is None:
            return R.bad("gap", QT, "the span [%d:%d], of which a part is not mapped, is left out silently" % s, w.f.loc, trace=w.trace())
    R.good("gap", QT, "%d arrangements" % w.n, w.f.loc)
