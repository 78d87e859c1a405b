"""C38: dominant-right resolution keeps segments that do not overlap, the longest (of equal length the rightmost) of those that do."""
import itertools
from rules.store import *

Q, QS = "dominant_right", "dominant_right_span"


def check(R):
    R.rule("apart", "over all relative positions of up to three segments, empty ones included, the segments handed out are given ones, each once, and no two of them overlap")
    R.rule("dominant", "a segment that is left out overlaps one that is at least as long, and of equal length further right; one that overlaps nothing, or is longer than all it overlaps, is handed out")
    R.rule("nodes", "the nodes handed out are the ones whose spans are handed out for the segments of their span field; nodes without the field are left out")
    for n in (1, 2, 3):
        R.guarded("apart", "%s of %d" % (Q, n), lambda n=n: segments(R, n))
    R.guarded("nodes", QS, lambda: nodes(R))


def meets(a, b):
    return a[0] < b[1] and b[0] < a[1]


def beats(a, b):
    """b is at least as long as a, and of equal length not further left"""
    x, y = a[1] - a[0], b[1] - b[0]
    return x < y or x == y and a[0] <= b[0]


def verdict(segs, got):
    """(rule, reason) or None; got: indices"""
    if len(set(got)) != len(got):
        return "apart", "hands out a segment more than once"
    for i, j in itertools.combinations(got, 2):
        if meets(segs[i], segs[j]):
            return "apart", "hands out [%d:%d] and [%d:%d], which overlap" % (segs[i] + segs[j])
    for i, a in enumerate(segs):
        if a[0] == a[1]:
            continue
        over = [b for j, b in enumerate(segs) if j != i and meets(a, b) and b[0] < b[1]]
        if i not in got and not any(beats(a, b) for b in over):
            return "dominant", "leaves out [%d:%d]" % a
        if i in got and any(not beats(b, a) and all(not meets(b, c) or beats(c, b) for k, c in enumerate(segs) if k != j)
                            for j, b in enumerate(segs) if j != i and meets(a, b) and b[0] < b[1]):
            return "dominant", "hands out [%d:%d] although a longer one overlaps it" % a
    return None


def cases(n):
    top = {1: 3, 2: 5, 3: 5}[n]
    spans = [(a, b) for a in range(top) for b in range(a, top)]
    if n < 3:
        return list(itertools.product(spans, repeat=n))
    out = []
    for c in itertools.combinations([s for s in spans if s[0] < s[1]], 3):
        out.append(c)
        out.append((c[2], c[0], c[1]))
    longer = [((0, 5), (4, 9), (8, 16)), ((0, 9), (2, 4), (8, 12)), ((0, 4), (2, 6), (4, 8)), ((2, 6), (0, 4), (5, 6)), ((0, 3), (3, 5), (5, 9)), ((0, 8), (1, 3), (4, 6)),
              ((0, 3), (1, 4), (2, 5)), ((0, 4), (1, 4), (0, 4)), ((0, 2), (2, 2), (2, 4)), ((0, 4), (2, 2), (4, 4)), ((3, 7), (1, 5), (0, 3))]
    return out + longer


def segments(R, n):
    f = R.prog.func(Q)
    if f is None:
        raise Cannot("no %s" % Q)
    m = Machine(R, {}, store=True)
    cs = cases(n)
    for segs in cs:
        items = [Val("item %d" % i, ["object"], items=None) for i in range(len(segs))]
        tups = [(s[0], s[1], x) for s, x in zip(segs, items)]
        what = "segments %s" % ", ".join("[%d:%d]" % s for s in segs)
        m.last = None
        try:
            r = m.run(f, [Val("segments", ["list"], elems=tups, length=len(tups), truth=True)])
        except Fail as x:
            return R.bad("apart", "%s of %d" % (Q, n), "%s: fails with %s" % (what, x.name), f.loc, trace=trace(m.last) if m.last else None)
        if not isinstance(r, Val) or r.elems is None:
            raise Cannot("result %r" % (r,))
        got = []
        for x in r.elems:
            k = [i for i, y in enumerate(items) if y is x]
            if not k:
                return R.bad("apart", "%s of %d" % (Q, n), "%s: hands out %r, which is not the data of a segment" % (what, x), f.loc)
            got += k
        v = verdict(segs, got)
        if v:
            return R.bad(v[0], "%s of %d" % (Q, n), "%s: %s" % (what, v[1]), f.loc, trace=trace(m.last) if m.last else None)
    R.good("apart", "%s of %d" % (Q, n), "%d arrangements" % len(cs), f.loc)
    R.good("dominant", "%s of %d" % (Q, n), "%d arrangements" % len(cs), f.loc)


def nodes(R):
    f = R.prog.func(QS)
    if f is None:
        raise Cannot("no %s" % QS)
    m = Machine(R, {}, store=True)
    cs = [[(0, 2)], [(0, 2), (2, 4)], [(0, 2), (1, 3)], [(0, 3), (1, 2)], [None, (0, 2)], [(1, 3), None, (0, 1)], [None], [], [(2, 5), (0, 3), None, (5, 6)], [(0, 4), (4, 4)]]
    for field in ("text", "other"):
        for c in cs:
            ns = []
            for i, s in enumerate(c):
                its = {("other" if field == "text" else "text"): Val("[0:9]", ["TextSpan"], {"start": 0, "stop": 9})}
                if s is not None:
                    its[field] = Val("[%d:%d]" % s, ["TextSpan"], {"start": s[0], "stop": s[1], "_start": s[0], "_stop": s[1], "start_offset": s[0], "stop_offset": s[1]}, length=s[1] - s[0], truth=s[0] < s[1])
                ns.append(Val("node %d" % i, ["Node"], items=its, length=len(its)))
            what = "nodes with spans %s" % (", ".join("[%d:%d]" % s if s else "none" for s in c) or "left out")
            m.last = None
            try:
                r = m.run(f, [Val("nodes", ["list"], elems=ns, length=len(ns), truth=bool(ns))] + ([] if field == "text" else [field]))
            except Fail as x:
                return R.bad("nodes", QS, "%s: fails with %s" % (what, x.name), f.loc, trace=trace(m.last) if m.last else None)
            if not isinstance(r, Val) or r.elems is None:
                raise Cannot("result %r" % (r,))
            got = []
            for x in r.elems:
                k = [i for i, y in enumerate(ns) if y is x]
                if not k:
                    return R.bad("nodes", QS, "%s: hands out %r" % (what, x), f.loc)
                if c[k[0]] is None:
                    return R.bad("nodes", QS, "%s: hands out a node without the field" % what, f.loc)
                got += k
            idx = [i for i, s in enumerate(c) if s is not None]
            v = verdict([c[i] for i in idx], [idx.index(i) for i in got])
            if v:
                return R.bad("nodes", QS, "%s: %s" % (what, v[1]), f.loc, trace=trace(m.last) if m.last else None)
    R.good("nodes", QS, "%d arrangements" % (2 * len(cs)), f.loc)
