"""C07: a rejected edit leaves the document unchanged: every check comes before the first write."""
from rules.common import *
from effects import events, path_root, WR

OUT = ("write", "writelines", "addfile", "add", "append", "truncate", "seek")
UNDO = ("pop", "remove", "clear", "truncate", "seek", "discard", "popitem")


def persistent_writes(en, p, upto=None):
    """[(event, what)]: writes on the path to objects that existed before the call, in order"""
    for e, nest in events(p.events):
        if nest and any(lp.outcome not in ("next", "break") for li, lp in nest):
            # the round that raises is repeated after the loop, in the events of the path itself
            continue
        yield_it = None
        if e.kind in WR and isinstance(e.a[0], T):
            b = e.a[0]
        elif e.kind == "call" and e.a[0].op in ("meth", "vmeth", "bound") and e.a[0].a[1] in OUT:
            b = e.a[0].a[0]
        elif e.kind == "call":
            yield e, None, nest
            continue
        else:
            continue
        r, acc = path_root(b)
        if r.op != "sym":
            continue
        if r.a[0] not in ("self",) and not acc and e.kind in WR:
            pass
        yield e, b, nest


def callee(en, e):
    f = e.a[0]
    if f.op == "func":
        return en.func_of(f)
    if f.op == "bound":
        return next((en.func_of(x) for x in f.a if isinstance(x, T) and x.op == "func"), None)
    return None


def guarded_calls(es, depth=0, out=None):
    """ids of the events inside try statements: what their handlers take back is another path's matter"""
    out = set() if out is None else out
    for e in es:
        if e.kind == "try":
            depth += 1
        elif e.kind == "endtry":
            depth -= 1
        elif depth > 0:
            out.add(id(e))
        if e.kind == "loop":
            for lp in e.a[0].paths:
                guarded_calls(lp.events, depth, out)
    return out


ENTRIES = [
    # entry, functions that reject (not looked into), which raising paths count, what is rejected
    ("NodeLayerCollection.add", ("NodeLayerCollection.validate",), None, "adding a node"),
    ("NodeLayerCollection.add_field", (), None, "adding a field"),
    ("NodeLayerSchema.add", (), None, "adding a field to a schema"),
    ("Document.remove_layer", (), None, "removing a layer"),
    ("NodeLayerCollection.remove", (), "single", "removing a node"),
    ("NodeLayerCollection.__delitem__", (), "single", "removing a node"),
    ("NodeLayerCollection.retain", (), None, "retaining nodes"),
    ("Document.maintext", (), None, "replacing the main text"),
    ("MsgpackDocumentWriter.write", ("MsgpackCodec.encode", "Document.compile"), None, "writing a document"),
    ("TarMsgpackWriter.write", ("MsgpackCodec.encode", "Document.compile"), None, "writing a document"),
]


def check(R):
    R.rule("no-write-before-reject", "on every path that rejects the edit, nothing that existed before the call has been written before")
    R.rule("check-first", "the function that may reject (validation, encoding) is called before the first write to the layer, document or pending output")
    R.rule("histories", "after every history of edits up to a bound, run on the machine from the public interface, each refused edit leaves everything a user sees of the layers, nodes, texts and schemas as it was")
    R.guarded("histories", "Document", lambda: histories(R))
    prog = R.prog

    def one(q, reject, which, what):
        f = prog.setter(q) if q == "Document.maintext" else prog.func(q)
        en, ps = R.paths(f, no_inline=tuple(reject) + ("Node.__repr__",))
        n = 0
        und = None
        for p in ps:
            ws = list(persistent_writes(en, p))
            if which == "single":
                node = [w for g, w in p.guards if g.op == "isinst" and g.a[0].op == "sym" and g.a[0].a[0] == params(en, f)[1]]
                if node and not node[0]:
                    continue
            real = [(e, b, nest) for e, b, nest in ws if b is not None]
            n_at = {}
            for e, b, nest in real:
                k = (b, e.a[1]) if e.kind == "setattr" else (b, None)
                n_at.setdefault(k, []).append(e)
            redone = {k for k, es in n_at.items() if len(es) > 1 and (k[1] is not None or any(
                x.kind == "delitem" or x.kind in ("mut", "call") and (x.a[1] if x.kind == "mut" else x.a[0].a[1]) in UNDO for x in es))}
            kept = [(e, b, nest) for e, b, nest in real if ((b, e.a[1]) if e.kind == "setattr" else (b, None)) not in redone]
            undo = not kept
            caught = any(e.kind == "caught" for e in p.events)
            if p.raises:
                n += 1
                if real:
                    e, b, nest = (kept or real)[0]
                    if undo:
                        und = und or "writes before the rejection may be taken back (%s)" % e.loc
                        continue
                    return R.bad("no-write-before-reject", q, "%s is rejected with %s after %s of %s was changed" % (
                        what, exc_name(p.outcome[1]), {"setattr": "attribute " + str(e.a[1]), "mut": str(e.a[1])}.get(e.kind, e.kind), show(b)[:80]), e.loc, trace(p))
            first = None
            tried = guarded_calls(p.events)
            for e, b, nest in ws:
                if b is not None:
                    first = first or e
                elif first is not None:
                    g = callee(en, e)
                    if g is not None and g.qual in reject:
                        n += 1
                        if undo or caught or id(e) in tried:
                            und = und or "writes before %s may be taken back (%s)" % (g.qual, first.loc)
                            break
                        return R.bad("check-first", q, "%s: %s, which may reject, is called after %s was changed" % (what, g.qual, show(first.a[0])[:80]), first.loc, trace(p))
                else:
                    g = callee(en, e)
                    if g is not None and g.qual in reject:
                        n += 1
        if und:
            return R.unknown("no-write-before-reject", q, und, f.loc)
        if not n:
            return R.unknown("no-write-before-reject", q, "no rejecting path found", f.loc)
        R.good("no-write-before-reject", q, "%d rejecting paths and checks" % n, f.loc)
        if reject:
            R.good("check-first", q, "", f.loc)
    for q, reject, which, what in ENTRIES:
        R.guarded("no-write-before-reject", q, lambda a=(q, reject, which, what): one(*a))


def said(what):
    """the refused edits the property speaks of"""
    what = what.split(" [fails")[0]
    return not what.startswith(("sort", "add_many", "add('x')")) and not (what.startswith("add(new0, ") or what.startswith("remove(["))


def histories(R):
    from rules.world import World, explore, observed, differs
    loc = R.prog.func("Document.__init__").loc
    total = 0
    for n, depth in ((0, 1), (3, 2)):
        w = World(R, n)
        count = [0]

        def visit(want, before, done, failed, old):
            if failed is None or want is not before or not said(done[-1]):
                return None
            count[0] += 1
            return differs(old, observed(w, before))

        def useful(done, what):
            return R.tier == "thorough" or not done or "[fails" not in done[-1]
        r = explore(w, depth, visit, limit=useful, snap=observed)
        if r:
            return R.bad("histories", "Document", "%d nodes, %s: %s" % (n, ", ".join(r[0]), r[1]), loc)
        total += count[0]
    R.good("histories", "Document", "%d refused edits" % total, loc)
