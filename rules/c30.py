"""C30: partial access to an encoded document gives what was asked for, however often and in whatever order."""
import itertools
from rules.c01 import *


def check(R):
    R.rule("asked", "a first access for some, missing or all properties, texts and layers gives those that exist, with their content, and for a layer the layers its references lead to")
    R.rule("again", "every access gives the same answer after every other access")
    R.guarded("asked", QP, lambda: asked(R))
    R.guarded("again", QP, lambda: again(R))


def requests(d):
    yield "properties", ()
    yield "texts", ()
    yield "document", ()
    yield "schema", ()
    yield "binary", ()
    for what, ks in (("properties", list(d.props)), ("texts", list(d.texts)), ("document", list(d.layers))):
        for k in ks:
            yield what, (k,)
        yield what, ("nothing",)
        if ks:
            yield what, (ks[0], "nothing")
        if len(ks) > 1:
            yield what, tuple(ks)
            yield what, tuple(reversed(ks))
            yield what, (ks[-1], ks[0], ks[-1])


def more():
    S = lambda n: Field(n, "str")
    ref = lambda n, l, t="noderef": Field(n, t, {"layer": l})
    yield Model("chain", ("a",), [("main", ("x", "y"))],
                [("c", 1, [ref("to", "b")]), ("other", 1, [S("s")]), ("b", 2, [ref("many", "a", "noderef_array"), S("t")]), ("a", 1, [S("s")])])
    yield Model("cycle", (), [("main", ("x",))], [("p", 1, [ref("q", "q", "nodespan")]), ("q", 1, [ref("p", "p"), ref("self", "q")]), ("r", 0, [])])


def say(what, args):
    return "%s(%s)" % (what, ", ".join(args))


def asked(R):
    n = 0
    loc = loc_of(R, QP)
    for d in list(models()) + list(more()):
        for what, args in requests(d):
            a = Access(R, d)
            n += 1
            why = a.do(what, args)
            if why:
                return R.bad("asked", QP + "." + what, "%s, %s: %s" % (d.name, say(what, args), why), loc, trace=tr(a.m))
    R.good("asked", QP, "%d accesses" % n, loc)


def again(R):
    n = 0
    loc = loc_of(R, QP)
    for d in [x for x in list(models()) + list(more()) if x.name in ("layers", "chain")]:
        rs = list(requests(d))
        if R.tier != "thorough":
            rs = [r for r in rs if len(r[1]) < 2 and (r[0] != "document" or r[1] in ((), ("ref",), ("c",), ("empty",)))]
        for r1, r2 in itertools.product(rs, rs):
            if R.tier != "thorough" and d.name == "chain" and r1[0] != "document" != r2[0]:
                continue
            a = Access(R, d)
            done = []
            for what, args in (r1, r2, r1):
                n += 1
                done.append(say(what, args))
                why = a.do(what, args)
                if why:
                    return R.bad("again", QP + "." + what, "%s, %s: %s" % (d.name, ", ".join(done), why), loc, trace=tr(a.m))
    R.good("again", QP, "%d accesses" % n, loc)
