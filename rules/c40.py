"""C40: a collection or a document that ends too early is never taken for a complete one."""
from rules.c14 import *
import os
import rules.store as store
from machine import Cut

RD = "MsgpackDocumentReader"
QD = "MsgpackCodec.decode"


def check(R):
    R.rule("collection", "a collection that ends inside its header or inside a block: reading it raises an error, and not StopIteration; one that ends between blocks holds the documents of its blocks")
    R.rule("document", "an encoded document that ends inside one of its parts: decoding it raises an error")
    R.rule("iterated", "a document whose decoding fails in any of the ways a cut document fails does not end the iteration over the collection it comes from")
    R.rule("damaged", "a block whose data the codec refuses: reading raises an error that is not StopIteration, after the documents of the blocks before it")
    for c in store.NAMES:
        R.guarded("collection", RD, lambda: collection(R, c))
    R.guarded("damaged", RD, lambda: damaged(R))
    fails = {}
    for s in list(specs()):
        R.guarded("document", s.name, lambda: document(R, s, fails))
    for n in sorted(fails):
        R.guarded("iterated", n, lambda: iterated(R, n, fails[n]))


def cuts(parts):
    """(the parts up to a point, what the point is in, number of whole parts)"""
    for i, x in enumerate(parts):
        yield parts[:i], "before", i
        if x.raw and isinstance(x.value, bytes):
            for k in range(1, x.width):
                yield parts[:i] + [Item(x.value[:k], k, raw=True)], "inside", i
        elif x.width > 1:
            for k in sorted({1, x.width - 1}):
                yield parts[:i] + [Item(Cut(), k)], "inside", i


def drain(m, rd, limit):
    out = []
    for i in range(limit):
        try:
            v = m.next(rd)
        except Fail as z:
            if z.name != "StopIteration":
                return out, z.name
            return out, None
        out.append(v.attrs["data"] if isinstance(v, Val) and "data" in v.attrs else v)
    return out, "does not end"


def collection(R, cname):
    f, = need(R, RD + ".__init__")
    g, = need(R, RD + ".__next__")
    m0 = store.machine(R)
    docs = [store.Doc("doc%d" % i) for i in range(3)]
    fl = store.File(m0, [docs[0:2], docs[2:3]], cname=cname)
    parts = list(fl.stream.attrs["items"])
    found, n = set(), 0
    ways = ["iterating", "the blocks"] + [q for q in ("DocumentIO.readfile", "MsgpackDocumentIO.readfile") if R.prog.func(q)]
    for its, where, i in list(cuts(parts)) + [(parts, "before", len(parts))]:
        whole = where == "before" and i >= 4
        want = [d for at, ds in fl.blocks[:max(i - 4, 0)] for d in ds]
        part = "a file that ends %s" % ("inside its %s" % ("magic" if i == 0 else "header" if i < 4 else "block %d" % (i - 4)) if where == "inside" or i < 4 else "after block %d" % (i - 4))
        for how in ways:
            m = store.machine(R, {"MsgpackDocument.document": lambda m, v, *a, **kw: v})
            m.codecs.update(m0.codecs)
            s = store.Stream("file", copy.copy(its), ("RawIOBase", "IOBase"))
            n += 1
            loc, name = f.loc, RD
            try:
                if how.endswith("readfile"):
                    rd = m.run(R.prog.func(how), [s])
                    got, fail = drain(m, rd, 6)
                elif how == "iterating":
                    rd = m.new(RD, s)
                    loc = g.loc
                    got, fail = drain(m, rd, 6)
                else:
                    b, = need(R, RD + ".blocks")
                    rd = m.new(RD, s)
                    loc = b.loc
                    bl, fail = m.generate(b, [rd], {}, RD)
                    got = []
                    for x in bl:
                        if x is None:
                            raise Cannot("block")
                        a, z = drain(m, x, 6)
                        got += a
                        fail = fail or z
            except Fail as z:
                got, fail = [], "StopIteration from the constructor" if z.name == "StopIteration" else z.name
            if any(isinstance(d, T) for d in got):
                raise Cannot("documents %r" % (got,))
            why = None
            if fail == "StopIteration from the constructor":
                why = "opening %s raises StopIteration, which an iteration over files takes for its end" % part
            elif whole:
                if fail:
                    why = "%s of %s fails with %s" % (how, part, fail)
                elif got != want:
                    why = "%s of %s hands out %s instead of %s" % (how, part, got, want)
            elif not fail:
                why = "%s of %s hands out %s and ends as if the file were complete" % (how, part, got)
            elif [d for d in got if d not in want]:
                why = "%s of %s hands out %s" % (how, part, got)
            if why and (how, whole) not in found:
                found.add((how, whole))
                R.bad("collection", "%s, %s" % (RD if not how.endswith("readfile") else how, how), why, loc, trace=tr(m))
    if not found:
        R.good("collection", "codec %s" % cname, "%d cuts" % n, f.loc)


def damaged(R):
    f, = need(R, RD + ".__next__")
    m0 = store.machine(R)
    docs = [store.Doc("doc%d" % i) for i in range(4)]
    fl = store.File(m0, [docs[0:2], docs[2:3], docs[3:4]])
    parts = list(fl.stream.attrs["items"])
    found, n = set(), 0
    for i in range(3):
        its = list(parts)
        its[4 + i] = Item(store.Doc("damaged block"), parts[4 + i].width)
        want = [d for at, ds in fl.blocks[:i] for d in ds]
        for how in ["iterating", "the blocks"]:
            m = store.machine(R, {"MsgpackDocument.document": lambda m, v, *a, **kw: v})
            m.codecs.update(m0.codecs)
            n += 1
            rd = m.new(RD, store.Stream("file", copy.copy(its), ("RawIOBase", "IOBase")))
            loc, got = f.loc, []
            if how == "iterating":
                got, fail = drain(m, rd, 8)
            else:
                b, = need(R, RD + ".blocks")
                loc = b.loc
                bl, fail = m.generate(b, [rd], {}, RD)
                for x in bl:
                    a, z = drain(m, x, 8)
                    got += a
                    fail = fail or z
            if any(isinstance(d, T) for d in got):
                raise Cannot("documents %r" % (got,))
            why = None
            if not fail:
                why = "%s of a file whose block %d is damaged hands out %s and ends as if the file were complete" % (how, i, got)
            elif got != want:
                why = "%s of a file whose block %d is damaged hands out %s before the error, not %s" % (how, i, got, want)
            if why and how not in found:
                found.add(how)
                R.bad("damaged", "%s, %s" % (RD, how), why, loc, trace=tr(m))
    if not found:
        R.good("damaged", RD, "%d cases" % n, f.loc)


def document(R, s, fails):
    e, = need(R, "MsgpackCodec.encode")
    f, = need(R, QD)
    m = docs_machine(R)
    try:
        data = m.run(e, [s.build()], {})
    except Fail as x:
        raise Cannot("encoding fails with %s" % x.name)
    parts = []
    for x in as_parts(data):
        if x.raw and parts and parts[-1].raw and isinstance(x.value, bytes):
            parts[-1] = Item(parts[-1].value + x.value, parts[-1].width + x.width, raw=True)
        else:
            parts.append(x)
    n = und = 0
    bad = set()
    for its, where, i in cuts(parts):
        for q in (QD, QP):
            if q in bad:
                continue
            m = docs_machine(R)
            m.last, m.misread = None, False
            n += 1
            try:
                if q == QD:
                    m.run(f, [Data(its)], {})
                else:
                    m.invoke(m.new(QP, Data(its)), "document")
            except Fail as x:
                fails.setdefault(x.name, "%s, cut %s part %d" % (s.name, where, i))
                continue
            except (Cannot, Raised) as x:
                und += 1
                continue
            bad.add(q)
            R.bad("document", q, "%s, cut %s %s: decoded without an error" % (s.name, where, describe(parts[i])), f.loc if q == QD else loc_of(R, QP), trace=tr(m))
    if not bad:
        if und:
            R.unknown("document", s.name, "%d of %d cuts not decided" % (und, n), f.loc)
        else:
            R.good("document", s.name, "%d cuts" % n, f.loc)


def iterated(R, name, when):
    q = "DocumentIO.readfile"
    f, = need(R, q)
    m = store.machine(R, exc=failing)
    docs = [store.Doc("doc%d" % i) for i in range(3)]
    fl = store.File(m, [docs[0:2], docs[2:3]])

    def decode(m, v, *a, **kw):
        if v.attrs["data"] is docs[1]:
            raise Fail(name)
        return v
    m.hooks["MsgpackDocument.document"] = decode
    rd = m.run(f, [fl.stream])
    got, fail = drain(m, rd, 6)
    if not fail:
        return R.bad("iterated", "DocumentReader", "a document that cannot be decoded (%s, as for %s) ends the iteration: %s handed out, and no error" % (name, when, got),
                     loc_of(R, "DocumentReader"), trace=tr(m))
    R.good("iterated", name, "raises %s" % fail, f.loc)
