"""C31: output is deterministic."""
from rules.common import *
from order import Order

MODS = ("model", "codec", "algorithm", "printout", "query")


def check(R):
    R.rule("order", "no value returned, yielded, printed, written or stored for output depends on the iteration order of a set, on hashing, on object identity, on the clock or on chance")
    funcs = [f for m in R.prog.modules.values() if m.name.split(".")[-1] in MODS for f in R.prog.funcs if f.module is m]
    if not funcs:
        raise Cannot("no functions")
    o = Order(R.prog, MODS)
    o.run(funcs)
    R.walked = funcs
    hit = {}
    for (loc, what), src in sorted(o.reports.items()):
        q = what.split(" ")[0]
        if q in hit:
            continue
        hit[q] = 1
        R.bad("order", q, "%s: %s" % (what, src), loc)
    for f in funcs:
        if f.qual not in hit:
            R.good("order", f.qual, "no unordered value leaves", f.loc)
    for loc, src in sorted(o.uses.items()):
        R.good("order", "use at %s" % loc, "iterated in arbitrary order: %s" % src, loc)
