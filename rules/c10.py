"""C10: span relations agree with interval semantics everywhere."""
import itertools
from terms import *
from decide import *

VAL = {"covered": lambda a, b, c, d: c <= a and b <= d, "intersected": lambda a, b, c, d: d > a and c < b}


def regions(n=4):
    """every weak ordering of two ranges' end points"""
    for a, b, c, d in itertools.product(range(n), repeat=4):
        if a <= b and c <= d:
            yield a, b, c, d


def span(a, b, name):
    return Val(name, {"TextSpan"}, {"_start": a, "_stop": b, "start": a, "stop": b, "start_offset": a, "stop_offset": b}, truth=b > a, length=b - a)


def table(R, rule, construct, paths, base_of, want, prog, loc, conv=bool):
    """Compare a decision formula with its specification on every region."""
    n = 0
    for reg in regions():
        E = Evaluator(base_of(*reg), prog)
        try:
            rs = results(paths, E)
        except Cannot as x:
            return R.unknown(rule, construct, "outside the comparison vocabulary: %s" % x, loc)
        exp = want(*reg)
        if not rs:
            return R.unknown(rule, construct, "no path for ranges %s" % (reg,), loc)
        for (k, v), p in rs:
            n += 1
            if k == "raise" or conv(v) != exp:
                return R.bad(rule, construct, "for ranges [%d,%d) and [%d,%d) the result is %s, interval semantics says %s"
                             % (reg + ("%s %s" % (k, v), exp)), loc, trace=[("" if b else "not ") + show(g) for g, b in p.guards])
    return R.good(rule, construct, "%d regions agree" % n, loc)


def check(R):
    R.rule("relation", "the extracted decision formula equals interval semantics on every weak ordering of the four end points, for every accepted form of the other range")
    R.rule("query", "the field query builds a predicate applying the same relation to the node's own span and the given range")
    prog = R.prog
    for meth, key in (("covered_by", "covered"), ("intersected_by", "intersected")):
        f = prog.func("TextSpan." + meth)
        prm = [p for p, k, d in R.engine()._params(f.node)]

        def rel(f=f, meth=meth, key=key, prm=prm):
            en, ps = R.paths(f)
            for form in ("span", "tuple"):
                def base_of(a, b, c, d, form=form):
                    s = span(a, b, "self")
                    o = span(c, d, "other") if form == "span" else (c, d)

                    def base(t, ev):
                        if t.op == "sym" and t.a[0] == prm[0]:
                            return s
                        if t.op == "sym" and t.a[0] == prm[1]:
                            return o
                        return NotImplemented
                    return base
                table(R, "relation", "TextSpan.%s(%s)" % (meth, form), ps, base_of, VAL[key], prog, f.loc)
        R.guarded("relation", "TextSpan." + meth, rel)

        fq = prog.func("NodeFieldCollection." + meth)

        def query(fq=fq, meth=meth, key=key):
            en = R.engine(no_inline=("TextSpan.covered_by", "TextSpan.intersected_by"))
            lo, hi = sym("lo"), sym("hi")
            var = [n for n, k, d in en._params(fq.node)]
            kinds = {n: k for n, k, d in en._params(fq.node)}
            args = {var[1]: mk("tuple", (lo, hi))} if kinds[var[1]] == "var" else dict(zip(var[1:3], (lo, hi)))
            en, ps = R.paths(fq, args=args, engine=en)
            node = sym("node", "Node")
            allp = []
            for p in ps:
                if not p.returns:
                    continue
                for s, v in en.call_method(p.value, "__call__", [node], {}, p.st, _ctx(en, fq), fq.node):
                    from psi import Path
                    allp.append(Path(s, v if isinstance(v, tuple) else ("ret", v)))
            if not allp:
                return R.unknown("query", "NodeFieldCollection." + meth, "no predicate is built", fq.loc)

            def base_of(a, b, c, d):
                s = span(a, b, "node span")

                def base(t, ev):
                    if t is lo:
                        return c
                    if t is hi:
                        return d
                    if is_field_value(t, node):
                        return s
                    if t.op == "eq" and any(x.op == "enum" for x in t.a):
                        return True
                    if t.op == "call" and t.a[0].op in ("meth", "bound") and len(t.a[1]) == 1:
                        nm = t.a[0].a[1] if t.a[0].op == "meth" else t.a[0].a[1].a[0].split(".")[-1]
                        if nm in ("covered_by", "intersected_by"):
                            x, y = ev.ev(t.a[0].a[0]), ev.ev(t.a[1][0])
                            xs, ys = ends(x), ends(y)
                            return VAL["covered" if nm == "covered_by" else "intersected"](*(xs + ys))
                    return NotImplemented
                return base
            table(R, "query", "NodeFieldCollection." + meth, allp, base_of, VAL[key], prog, fq.loc)
        R.guarded("query", "NodeFieldCollection." + meth, query)

    fa = prog.func("is_covered_by")

    def helper():
        en, ps = R.paths(fa)
        prm = [n for n, k, d in en._params(fa.node)]

        def base_of(a, b, c, d):
            s, o = span(a, b, "a"), span(c, d, "b")

            def base(t, ev):
                if t.op == "sym" and t.a[0] == prm[0]:
                    return s
                if t.op == "sym" and t.a[0] == prm[1]:
                    return o
                return NotImplemented
            return base
        table(R, "relation", "algorithm.is_covered_by", ps, base_of, VAL["covered"], prog, fa.loc)
    R.guarded("relation", "algorithm.is_covered_by", helper)


def ends(x):
    if isinstance(x, Val):
        return (x.attrs["_start"], x.attrs["_stop"])
    if isinstance(x, tuple) and len(x) == 2:
        return x
    raise Cannot("range %r" % (x,))


def is_field_value(t, node):
    """node.get(f) / node[f] for some field f"""
    if t.op == "dget" and t.a[0] is node:
        return True
    return t.op == "item" and t.a[0] is node


def _ctx(en, f):
    from evalx import Ctx
    return Ctx(f.module, f.cls, f.qual, 0, f.node)
