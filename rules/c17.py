"""C17: the reference of a document read from a collection addresses that document, whatever was read before."""
from rules.store import *

LIMIT = 400


def check(R):
    R.rule("iterated", "every document handed out in any state of the reader carries the true position of its block and of itself inside the block")
    R.rule("fetched", "fetching the reference of a document in any state of the reader returns that document")
    R.rule("seeked", "after seeking to a block position the next block, or document, is the one at that position")
    R.rule("blocks", "a block handed out in any state of the reader reports its true position")
    R.rule("in-block", "every document handed out in any state of a block carries the position of the block and of itself, and positions returned by the block address the next document")
    R.guarded("iterated", "MsgpackDocumentReader", lambda: reader(R))
    R.guarded("in-block", "MsgpackDocumentBlock", lambda: block(R))


def world(R):
    m = machine(R)
    docs = [Doc("doc%d" % i) for i in range(5)]
    f = File(m, [docs[0:2], docs[2:4], docs[4:5]])
    return m, f, docs


def explore(m, start, ops, apply):
    """all states reachable from start by the operations; apply(state, op) judges one step and returns the next state or None"""
    seen = {key_of(start): start}
    todo = [start]
    n = 0
    while todo:
        s = todo.pop()
        for op in ops:
            x = copy.deepcopy(s)
            m.log = []
            n += 1
            y = apply(x, op)
            if y is None:
                continue
            k = key_of(y)
            if k not in seen:
                if len(seen) > LIMIT:
                    raise Cannot("more than %d abstract states" % LIMIT)
                seen[k] = y
                todo.append(y)
    return len(seen), n


def doc_ref(v):
    if not isinstance(v, Val) or "data" not in v.attrs:
        raise Cannot("result %r" % (v,))
    return v.attrs["data"], v.attrs.get("ref")


def wrong(v, f, what):
    """explanation when the document handed out does not carry its own position"""
    d, ref = doc_ref(v)
    if d is GARBAGE:
        return "%s hands out data from a misplaced position" % what
    if d not in f.where:
        raise Cannot("data %r" % (d,))
    if isinstance(ref, Val) and ref.elems is not None:
        ref = tuple(ref.elems)
    if ref != f.where[d]:
        return "%s hands out a document stored at %s with the reference %s" % (what, f.where[d], ref)


class Stop(Exception):
    pass


def reader(R):
    m, f, docs = world(R)
    C = "MsgpackDocumentReader"
    if R.prog.classes.get(C) is None:
        raise Cannot("no reader")
    loc = R.prog.classes[C].loc if hasattr(R.prog.classes[C], "loc") else R.prog.func(C + ".__next__").loc
    start = m.new(C, f.stream)
    ops = [("next", None), ("readblock", None)] + [("seek", p) for p, ds in f.blocks] + [("get", d) for d in docs]
    hist = {id(start): ()}
    count = {"next": 0, "readblock": 0, "seek": 0, "get": 0}
    found = {}

    def report(rule, why, x):
        found.setdefault(rule, (why, trace(x) if x is not None else None))

    def seek_from(s, p, ds):
        x = copy.deepcopy(s)
        m.log = []
        try:
            m.invoke(x, "seek", p)
            y = copy.deepcopy(x)
            b = m.invoke(x, "readblock")
            if b is None or m.invoke(b, "tell") is None:
                return "seeking to the block at %d and reading a block yields nothing" % p
            d = m.next(b)
            if doc_ref(d)[0] is not ds[0]:
                return "seeking to the block at %d and reading a block yields another block" % p
            d = m.next(y)
            if doc_ref(d)[0] is not ds[0]:
                return "seeking to the block at %d and iterating yields another document" % p
        except Fail as z:
            return "seeking to the block at %d and reading fails with %s" % (p, z.name)

    def judge(s, op):
        o, a = op
        count[o] += 1
        m.last = None
        try:
            if o == "next":
                try:
                    v = m.next(s)
                except Fail as z:
                    if z.name == "StopIteration":
                        return s
                    raise
                w = wrong(v, f, "iteration")
                if w:
                    report("iterated", w, m.last)
                    return None
            elif o == "readblock":
                b = m.invoke(s, "readblock")
                if b is None:
                    return s
                t = copy.deepcopy(b)
                v = m.next(t)
                d = doc_ref(v)[0]
                at = prop(m, b, "position")
                if d is GARBAGE or at != f.where[d][0]:
                    report("blocks", "the block at %s reports the position %s" % (f.where[d][0] if d in f.where else "a misplaced position", at), m.last)
                    return None
            elif o == "seek":
                w = seek_from(s, a, dict(f.blocks)[a])
                if w:
                    report("seeked", w, m.last)
                    return None
                m.invoke(s, "seek", a)
            else:
                v = m.invoke(s, "get", f.where[a])
                d = doc_ref(v)[0]
                w = wrong(v, f, "fetching")
                if d is not a or w:
                    report("fetched", w or "fetching the reference of %s returns %s" % (a, d), m.last)
                    return None
            return s
        except Fail as z:
            report({"next": "iterated", "readblock": "blocks", "seek": "seeked", "get": "fetched"}[o], "%s fails with %s" % (
                {"next": "iteration", "readblock": "reading a block", "seek": "seeking", "get": "fetching a reference"}[o], z.name), m.last)
            return None
    und = None
    try:
        states, n = explore(m, start, ops, judge)
    except Cannot as x:
        und = x
    for rule, meth in (("iterated", "__next__"), ("blocks", "readblock"), ("seeked", "seek"), ("fetched", "get")):
        g = R.prog.func(C + "." + meth)
        c = C + "." + meth
        if rule in found:
            R.bad(rule, c, found[rule][0], g.loc if g else loc, trace=found[rule][1])
        elif und is not None or found:
            R.unknown(rule, c, str(und)[:200] if und else "not all states reached", loc)
        else:
            R.good(rule, c, "%d abstract reader states, %d steps" % (states, n), g.loc if g else loc)
    R.guarded("blocks", C + ".blocks", lambda: all_blocks(R, m, f, start))


def prop(m, b, name):
    for n in sorted(b.classes):
        f = m.prog.classes[n].find(name) if n in m.prog.classes else None
        if f is not None:
            return m.run(f, [b], {}, n)
    if name in b.attrs:
        return b.attrs[name]
    raise Cannot("%s of a block" % name)


def all_blocks(R, m, f, start):
    g = R.prog.func("MsgpackDocumentReader.blocks")
    if g is None:
        raise Cannot("no block iterator")
    s = copy.deepcopy(start)
    m.log = []
    out, failed = m.generate(g, [s], {}, "MsgpackDocumentReader")
    if failed:
        return R.bad("blocks", g.qual, "iterating over the blocks fails with %s" % failed, g.loc)
    if len(out) != len(f.blocks):
        return R.bad("blocks", g.qual, "iterating over %d blocks hands out %d" % (len(f.blocks), len(out)), g.loc)
    for b, (p, ds) in zip(out, f.blocks):
        got = []
        at = prop(m, b, "position")
        if at != p:
            return R.bad("blocks", g.qual, "the block at %d reports the position %s" % (p, at), g.loc)
        while True:
            try:
                v = m.next(b)
            except Fail as z:
                break
            w = wrong(v, f, "a block")
            if w:
                return R.bad("blocks", g.qual, w, g.loc)
            got.append(doc_ref(v)[0])
        if got != ds:
            return R.bad("blocks", g.qual, "the documents %s of a block come out as %s" % (ds, got), g.loc)
    R.good("blocks", g.qual, "%d blocks" % len(out), g.loc)


def block(R):
    m, f, docs = world(R)
    C = "MsgpackDocumentBlock"
    g = R.prog.func(C + ".__next__")
    if g is None:
        raise Cannot("no block")
    rd = m.new("MsgpackDocumentReader", f.stream)
    m.invoke(rd, "readblock")
    b = m.invoke(rd, "readblock")
    if b is None or C not in b.classes:
        raise Cannot("second block")
    p, ds = f.blocks[1]
    found = []
    ends = [f.where[d][1] for d in ds]
    total = ends[-1] + m.width(ds[-1])
    ops = [("next", None), ("documents", None), ("tell", None)] + [("seek", x) for x in ends]

    def judge(s, op):
        o, a = op
        m.last = None
        try:
            if o == "next":
                at = m.invoke(s, "tell")
                try:
                    v = m.next(s)
                except Fail as z:
                    if z.name != "StopIteration":
                        raise
                    return s
                w = wrong(v, f, "a block")
                if not w and at != f.where[doc_ref(v)[0]][1]:
                    w = "the block tells %s before handing out the document at %s" % (at, f.where[doc_ref(v)[0]][1])
            elif o == "tell":
                at = m.invoke(s, "tell")
                w = None if at in ends + [total] else "the block tells the position %s, which is between documents" % at
            elif o == "seek":
                m.invoke(s, "seek", a)
                t = copy.deepcopy(s)
                v = m.next(t)
                w = wrong(v, f, "a block")
                if not w and f.where[doc_ref(v)[0]][1] != a:
                    w = "after seeking to %s the document at %s is handed out" % (a, f.where[doc_ref(v)[0]][1])
            else:
                r = m.invoke(s, "documents")
                r = list(iterable(r)) if isinstance(r, Val) else list(r)
                w = None
                got = []
                for at, v in r:
                    w = w or wrong(v, f, "a block")
                    d = doc_ref(v)[0]
                    got.append(d)
                    if not w and at != f.where[d][1]:
                        w = "the document at %s is listed with the position %s" % (f.where[d][1], at)
                if not w and got != ds:
                    w = "the documents %s are listed as %s" % (ds, got)
            if w:
                found.append((w, trace(m.last) if m.last else None))
                return None
            return s
        except Fail as z:
            found.append(("%s fails with %s" % (o, z.name), None))
            return None
    states, n = explore(m, b, ops, judge)
    if found:
        R.bad("in-block", C, found[0][0], g.loc, trace=found[0][1])
    else:
        R.good("in-block", C, "%d abstract block states, %d steps" % (states, n), g.loc)
