"""C06: layer bookkeeping: every edit keeps (node list, count, node index, node collection) in step."""
from rules.common import *

NOIN = ("NodeLayerCollection.validate", "Node.__repr__", "Document._verify_references", "MsgpackCodec.decode", "JsonCodec.decode_ext")
N0, K0, IDX = 7, 4, 2          # witness sizes: nodes in the list / count (there are gaps) / loop round


def canon(t, memo={}):
    """the object a term denotes, without the version of the heap it was read in"""
    if not isinstance(t, T):
        return tuple(canon(x) for x in t) if isinstance(t, tuple) else t
    r = memo.get(t)
    if r is None:
        if t.op in ("attr", "item", "dget"):
            r = mk(t.op, canon(t.a[0]), canon(t.a[1]), 0)
        elif t.op in ("at", "sdef"):
            r = canon(t.a[0])
        else:
            r = mk(t.op, *[canon(x) for x in t.a])
        memo[t] = r
    return r


class Op:
    __slots__ = ("kind", "L", "x", "v", "e", "n", "tm")

    def __init__(self, kind, L=None, x=None, v=None, e=None, n=0):
        self.kind, self.L, self.x, self.v, self.e, self.n = kind, L, x, v, e, n
        self.tm = None


class Ledger:
    def __init__(self, R, en, root):
        self.R, self.en, self.root = R, en, root
        self.n = 0
        self.alias = {}

    # ---------------------------------------------------------------- recognising the state
    def layer_of(self, t):
        """the layer whose node list this term denotes"""
        while t.op in ("at", "sdef"):
            t = t.a[0]
        if t.op == "attr" and t.a[1] == "_nodes":
            return canon(t.a[0])
        return self.alias.get(canon(t))

    def is_layer(self, t):
        s = self.en.tstr(t) if t.op != "obj" else t.a[2] if len(t.a) > 2 else None
        return canon(t) in self.layers or (isinstance(s, str) and "NodeLayerCollection" in s)

    def ops(self, events):
        out = []
        for i, e in enumerate(events):
            k, a = e.kind, e.a
            if k == "setattr":
                if a[1] == "_nodes":
                    out.append(Op("assign", canon(a[0]), None, a[2], e, i))
                elif a[1] == "num":
                    out.append(Op("num", canon(a[0]), None, a[2], e, i))
                elif a[1] in ("_id", "collection"):
                    out.append(Op("id" if a[1] == "_id" else "coll", None, canon(a[0]), a[2], e, i))
            elif k in ("mut", "setitem", "delitem"):
                L = self.layer_of(a[0])
                if L is None:
                    continue
                if k == "mut":
                    if a[1] == "append" and len(a[2]) == 1:
                        out.append(Op("append", L, canon(a[2][0]), None, e, i))
                    elif a[1] in ("__len__", "index", "count", "copy", "get", "keys", "values", "items"):
                        pass
                    else:
                        out.append(Op("other", L, a[1], None, e, i))
                elif k == "setitem":
                    if a[2] is NONE:
                        out.append(Op("none", L, canon(a[1]), a[1], e, i))
                    else:
                        out.append(Op("store", L, canon(a[2]), a[1], e, i))
                else:
                    out.append(Op("trim", L, None, a[1], e, i))
            elif k == "loop":
                out.append(Op("loop", None, a[0], None, e, i))
        return out

    # ---------------------------------------------------------------- evaluation at a witness
    def value(self, t, loop=None, after=None, lvars=None, elem=None):
        """the value of an index formula when the list has N0 slots on entry, the loop is in round IDX and has appended once per round"""
        def base(x, ev):
            if x.op == "len" and self.layer_of(x.a[0]) is not None:
                ver = x.a[1] if len(x.a) > 1 else None
                if loop is None:
                    return N0 + (1 if isinstance(ver, int) and isinstance(after, int) and ver > after else 0)
                if isinstance(ver, tuple):
                    return N0 + IDX if ver[1] == loop.L else N0
                return N0 if ver < loop.L else N0 + IDX + 1
            if x.op == "attr" and x.a[1] == "num":
                return K0
            if x.op in ("lvar", "lout") and str(x.a[0]).endswith(".num"):
                return K0 + IDX
            if x.op == "idx":
                return IDX
            if x.op in ("lvar", "lout") and lvars is not None and x.a[0] in lvars:
                return lvars[x.a[0]]
            if elem is not None and canon(x) in elem:
                return elem[canon(x)]
            return NotImplemented
        return Evaluator(base, self.R.prog).ev(t)

    def lin_num(self, v):
        """(constant, atom) of a count formula 'count + constant'; None otherwise"""
        def atom(t):
            return t.op == "attr" and t.a[1] == "num" or t.op in ("lvar", "lout") and str(t.a[0]).endswith("num")
        if atom(v):
            return 0, v
        if v.op == "lin" and len(v.a[1]) == 1 and v.a[1][0][1] == 1 and atom(v.a[1][0][0]):
            return v.a[0], v.a[1][0][0]
        return None

    # ---------------------------------------------------------------- one straight-line segment
    def mentions(self, p, x, kinds):
        """the path (anywhere) performs an op of these kinds on x or on something x was taken from / put into"""
        roots = {canon(y) for y in walk(x) if y.op in ("sym", "obj") and not (y.op == "sym" and y.a[0] == "self")}
        for e, nest in all_events(p.events):
            if e.kind == "setattr" and e.a[1] in kinds:
                if canon(e.a[0]) == x or roots & {canon(y) for y in walk(e.a[0])}:
                    return True
        return False

    def guards_on(self, p, chain):
        gs = list(p.guards)
        for li, lp in chain:
            gs += list(lp.guards)
        return gs

    def verified(self, p, chain, x, want):
        """how the collection of x was checked before: 'here' (same round), 'before' (an earlier loop over the same things), None"""
        def check(gs, y):
            for g, w in gs:
                if g.op in ("is", "eq") and w and any(canon(z) == mk("attr", y, "collection", 0) for z in g.a if isinstance(z, T)) and any(canon(z) == want for z in g.a if isinstance(z, T)):
                    return True
                if g.op == "nonempty" and False:
                    return True
            return False
        if check(self.guards_on(p, chain), x):
            return "here"
        if x.op == "elem":
            for e, nest in all_events(p.events):
                if e.kind != "loop" or (chain and e.a[0] is chain[-1][0]):
                    continue
                li = e.a[0]
                if canon(li.dom) != canon(x.a[0]):
                    continue
                y = canon(mk("elem", li.dom, li.L))
                nx = [lp for lp in li.paths if lp.outcome == "next"]
                if nx and all(check(lp.guards, y) for lp in nx):
                    # each one only once: membership test against what was met before
                    once = all(any(g.op == "in" and not w and canon(g.a[0]) == y for g, w in lp.guards) for lp in nx)
                    return "before-once" if once else "before"
        return None

    def segment(self, p, chain, events, raising):
        """-> (member delta, count delta) or None when not understood; reports what is certainly wrong"""
        ops = self.ops(events)
        loop = chain[-1][0] if chain else None
        members, bad = 0, None
        newnodes = {canon(e.a[0]) for e in events if e.kind == "new"}
        appended = [o for o in ops if o.kind == "append"]
        for o in appended:
            self.n += 1
            ids = [q for q in ops if q.kind == "id" and q.x == o.x]
            colls = [q for q in ops if q.kind == "coll" and q.x == o.x]
            members += 1
            if not ids or ids[-1].v.op == "const" and ids[-1].v.a[1] == -1:
                if self.mentions_elsewhere(p, o.x, "_id", events):
                    return None
                return self.bad("append", "a node is appended to the layer without being told its index", o.e, p)
            last = ids[-1]
            others = [q for q in appended if q.n < last.n and q is not o]
            if others:
                return None
            try:
                v = self.value(last.v, loop, after=self.version(o))
                pos = N0 + (IDX if loop is not None and self.every_round(loop, o.L) else 0)
                if loop is not None and not self.every_round(loop, o.L) and pos != v:
                    v = None if last.v.op != "attr" and last.v.op != "const" and not self.lin_num(last.v) else v
                if v is not None and v != pos:
                    return self.bad("append", "the node appended at position %s is given the index %s" % ("len(nodes)", show(last.v)[:120]), last.e, p)
                if v is None:
                    return None
            except (Cannot, Raised):
                return None
            if not colls or canon(colls[-1].v) != o.L:
                if not colls and self.mentions_elsewhere(p, o.x, "collection", events):
                    return None
                return self.bad("append", "a node is appended to the layer while its collection is %s" % (show(colls[-1].v)[:60] if colls else "left unset"), o.e, p)
            if o.x not in newnodes and o.x.op != "obj":
                how = self.verified(p, chain, o.x, NONE)
                if how is None:
                    if any(canon(y) == mk("attr", o.x, "collection", 0) for g, w in self.guards_on(p, chain) for y in walk(g)):
                        return None
                    return self.bad("append", "a node is appended without checking that it belongs to no layer yet", o.e, p)
                if how == "before":
                    return self.bad("append", "a node given twice is appended twice: all nodes are checked before the first is attached", o.e, p)
        nones = [o for o in ops if o.kind == "none"]
        for o in nones:
            self.n += 1
            members -= 1
            x = o.x.a[0] if o.x.op == "attr" and o.x.a[1] == "_id" else None
            if x is None:
                return None
            how = "here" if o.L == mk("attr", x, "collection", 0) else self.verified(p, chain, x, o.L)
            if how is None:
                if any(canon(y) == mk("attr", x, "collection", 0) for g, w in self.guards_on(p, chain) for y in walk(g)):
                    return None
                return self.bad("remove", "the slot of a node is cleared without checking that the node belongs to this layer", o.e, p)
            if how == "before":
                return self.bad("remove", "a node given twice is removed twice: all nodes are checked before the first is removed", o.e, p)
            colls = [q for q in ops if q.kind == "coll" and q.x == x]
            if not colls:
                if self.mentions_elsewhere(p, x, "collection", events):
                    return None
                return self.bad("remove", "the removed node keeps reporting the layer as its collection", o.e, p)
            if colls[-1].v is not NONE:
                return self.bad("remove", "the removed node reports %s as its collection" % show(colls[-1].v)[:60], o.e, p)
        for o in ops:
            if o.kind == "other":
                if o.x == "sort":
                    return self.bad("renumber", "the node list is sorted in place: when the key function raises, the nodes are left out of order with stale indices", o.e, p)
                if o.x == "reverse" and not any(q.kind == "loop" and self.renumbers(q.x, o.L) for q in ops if q.n > o.n):
                    return self.bad("renumber", "the node list is reversed and the nodes keep their old indices", o.e, p)
                return None
            # a node attached to the layer although it is not put into it
            if o.kind == "coll" and o.v is not NONE and o.v.op != "const" and o.x not in newnodes and o.x.op != "obj" \
                    and canon(o.v) in self.layers and not any(q.x == o.x for q in appended) and raising:
                return self.bad("append", "the call can fail after the node was told it belongs to the layer and before it is in it", o.e, p)
        dnum = {}
        for o in ops:
            if o.kind == "num":
                l = self.lin_num(o.v)
                if l is None:
                    return members, None
                dnum[l[1]] = l[0]
        return members, sum(dnum.values())

    def version(self, o):
        """the heap version the append saw"""
        r = o.e.a[3]
        f = r.a[0] if isinstance(r, T) and r.op == "call" else None
        return f.a[2] if f is not None and f.op == "meth" and len(f.a) > 2 else None

    def mentions_elsewhere(self, p, x, attr, events):
        own = {id(e) for e in events}
        roots = {y for y in walk(x) if y.op in ("sym", "obj") and not (y.op == "sym" and y.a[0] == "self")}
        for e, nest in all_events(p.events):
            if e.kind == "setattr" and e.a[1] == attr and id(e) not in own:
                if canon(e.a[0]) == x or roots & set(walk(canon(e.a[0]))):
                    return True
            if e.kind == "call" and any(roots & set(walk(canon(y))) for y in e.a[1] if isinstance(y, T)) and show(e.a[0]).split(".")[-1] not in ("isinstance", "validate"):
                pass
        return False

    def every_round(self, li, L):
        """each completed round appends exactly once"""
        return all(sum(1 for o in self.ops(lp.events) if o.kind == "append" and o.L == L) == 1 for lp in li.paths if lp.outcome == "next")

    def bad(self, rule, why, e, p):
        self.R.bad(rule, self.root, why, e.loc, trace(p, 8))
        self.failed = True
        return None

    # ---------------------------------------------------------------- loops that move or renumber nodes
    def renumbers(self, li, L):
        """a loop over the layer in order that gives each node its position"""
        d = li.dom
        while d.op in ("at", "sdef"):
            d = d.a[0]
        if not (canon(d) == L or self.layer_of(d) == L):
            return False
        return any(o.kind == "id" for lp in li.paths for o in self.ops(lp.events)) and not any(o.kind in ("store", "append", "none") for lp in li.paths for o in self.ops(lp.events))

    def rebuilds(self, li):
        for lp in li.paths:
            for o in self.ops(lp.events):
                if o.kind == "store":
                    return o.L
        return None

    def current(self, li, L):
        """terms for the element at the loop's position"""
        out = set()
        for lp in li.paths:
            for o in self.ops(lp.events):
                if o.kind == "store":
                    out.add(o.x)
        return out

    def rebuild(self, li, L, p, marks):
        cur = self.current(li, L)
        if len(cur) != 1:
            return None
        cur = next(iter(cur))
        ok_pos = cur.op == "item" and self.layer_of(cur.a[0]) == L and cur.a[1].op == "idx" or cur.op == "elem" and self.layer_of(cur.a[0]) == L
        if not ok_pos:
            return None
        kname = {o.v.a[0] for lp in li.paths for o in self.ops(lp.events) if o.kind == "store" and o.v.op == "lvar"}
        store_e = next(o.e for lp in li.paths for o in self.ops(lp.events) if o.kind == "store")
        if len(kname) != 1:
            return None
        kname = next(iter(kname))
        init = next(o.v.a[1] for lp in li.paths for o in self.ops(lp.events) if o.kind == "store" and o.v.op == "lvar")
        if not is_const(init) or init.a[1] != 0:
            if is_const(init):
                return self.bad("renumber", "the first remaining node is moved to position %r" % (init.a[1],), store_e, p)
            return None
        upd = li.updates.get(kname)
        if upd is None:
            return self.bad("renumber", "every remaining node is moved to the same position", store_e, p)
        classes = [("a placeholder", None, None), ("a node to keep", -3, True), ("a node to keep", -1, True), ("a node to drop", 4, False), ("a node to drop", 0, False)]
        if not marks:
            classes = [("a placeholder", None, None), ("a node", 4, True), ("a node", 0, True)]
        dn = {}
        for name, ident, keep in classes:
            node = Val("node", {"Node"}, {}, truth=True)
            colls = Val("layer", {"NodeLayerCollection"}, {}, truth=True)

            def base(x, ev, ident=ident, node=node):
                c = canon(x)
                if c == cur:
                    return None if ident is None else node
                if c == mk("attr", cur, "_id", 0):
                    return ident
                if c == mk("attr", cur, "collection", 0):
                    return colls
                if c == L:
                    return colls
                if x.op in ("lvar", "lout") and x.a[0] == kname:
                    return 3
                if x.op == "idx":
                    return 5
                return NotImplemented
            ev = Evaluator(base, self.R.prog)
            try:
                live = [lp for lp in li.paths if all(ev.truth(g) == w for g, w in lp.guards if g.op not in LOOPG)]
                ku = [ev.ev(v) for gs, v in upd[1] if all(ev.truth(g) == w for g, w in gs if g.op not in LOOPG)]
            except (Cannot, Raised):
                return None
            if len(live) != 1:
                return None
            ops = self.ops(live[0].events)
            kinds = sorted(o.kind for o in ops)
            self.n += 1
            if keep is None:
                if ops or ku != [3]:
                    if any(o.kind == "store" for o in ops) or ku != [3]:
                        return self.bad("renumber", "a placeholder of a removed node is kept as if it were a node", store_e, p)
                    return None
                continue
            stores = [o for o in ops if o.kind == "store"]
            if keep and not stores or not keep and stores:
                return self.bad("renumber", "%s (index %d at this point) is %s" % (name, ident, "dropped" if keep else "kept"), store_e, p)
            if keep:
                ids = [o for o in ops if o.kind == "id" and o.x == cur]
                try:
                    pos = ev.ev(stores[-1].v)
                    if not ids:
                        return self.bad("renumber", "a node moved to a new position keeps its old index", store_e, p)
                    i = ev.ev(ids[-1].v)
                except (Cannot, Raised):
                    return None
                if i != pos:
                    return self.bad("renumber", "a node moved to position %r gets the index %r" % (pos, i), ids[-1].e, p)
                if pos != 3 or ku != [4]:
                    return self.bad("renumber", "remaining nodes are not stored at consecutive positions (position %r, next %r)" % (pos, ku), store_e, p)
                dn[name] = None
            else:
                colls = [o for o in ops if o.kind == "coll" and o.x == cur]
                if not colls or colls[-1].v is not NONE:
                    return self.bad("remove", "a dropped node keeps reporting the layer as its collection", store_e, p)
                if ku != [3]:
                    return self.bad("renumber", "the write position advances for a dropped node", store_e, p)
                nums = [self.lin_num(o.v) for o in ops if o.kind == "num"]
                if any(x is None for x in nums):
                    return None
                if sum(x[0] for x in nums[-1:]) != -1:
                    if nums or not any(o.kind == "num" for o in self.ops(p.events)):
                        return self.bad("count", "dropping a node changes the count by %s" % (nums[-1][0] if nums else 0), store_e, p)
                    return None
        return kname

    def marking(self, li):
        """a loop that negates the index of the nodes to keep: True/False/None(not a marking loop)"""
        el = canon(mk("elem", li.dom, li.L))
        idt = mk("attr", el, "_id", 0)
        seen = False
        for lp in li.paths:
            for o in self.ops(lp.events):
                if o.kind == "id" and o.x == el:
                    seen = True
                elif o.kind != "loop":
                    return None
        if not seen:
            return None
        for i in (0, 1, 5, -1, -6):
            ev = Evaluator(lambda x, e: i if canon(x) == idt else NotImplemented, self.R.prog)
            try:
                live = [lp for lp in li.paths if all(ev.truth(g) == w for g, w in lp.guards if g.op not in LOOPG)]
                if len(live) != 1:
                    return None
                ids = [o for o in self.ops(live[0].events) if o.kind == "id"]
                v = ev.ev(ids[-1].v) if ids else i
            except (Cannot, Raised):
                return None
            if v >= 0:
                return False
        return True

    # ---------------------------------------------------------------- one path of an edit
    def path(self, p):
        R = self.R
        self.layers = {canon(e.a[0]) for e, n in all_events(p.events) if e.kind == "setattr" and e.a[1] in ("_nodes", "num")} | \
            {l for l in (self.layer_of(e.a[0]) for e, n in all_events(p.events) if e.kind in ("mut", "setitem", "delitem") and isinstance(e.a[0], T)) if l is not None}
        return self.sequence(p, (), p.events, p.raises)

    def sequence(self, p, chain, events, raising):
        """True: balanced; False: reported; None: not understood"""
        s = self.segment(p, chain, events, raising)
        if self.failed:
            return False
        if s is None:
            return None
        members, num = s
        und = num is None
        ops = self.ops(events)
        gaps = {}
        for g, w in (p.guards if not chain else ()):
            if g.op == "eq" and w and {x.op for x in g.a} == {"len", "attr"}:
                for x in g.a:
                    if x.op == "len" and self.layer_of(x.a[0]) is not None:
                        gaps[self.layer_of(x.a[0])] = False
        for li, lp in chain:
            for g, w in lp.guards:
                if g.op == "eq" and w and any(x.op == "len" and self.layer_of(x.a[0]) is not None for x in g.a if isinstance(x, T)):
                    gaps[next(self.layer_of(x.a[0]) for x in g.a if x.op == "len")] = False
        marked = False
        pend = None           # (what must still happen, event)
        perloop = []
        for o in ops:
            if o.kind == "loop":
                li = o.x
                L = self.rebuilds(li)
                if L is not None:
                    k = self.rebuild(li, L, p, marked)
                    if self.failed:
                        return False
                    if k is None:
                        return None
                    if pend and pend[0] == "renumber" and pend[1] == L:
                        pend = None
                    pend = ("trim", L, k, o.e)
                    marked = False
                    continue
                m = self.marking(li)
                if m is not None and not any(q.kind in ("append", "none", "store") for lp in li.paths for q in self.ops(lp.events)):
                    nl = [L2 for L2 in self.layers if self.renumbers(li, L2)]
                    if nl:
                        pass
                    elif m is False:
                        r = self.bad("renumber", "the mark put on the nodes to retain does not cover every index, or is undone by a repeated node", o.e, p)
                        return False
                    else:
                        marked = True
                        continue
                rl = [L2 for L2 in self.layers | ({canon(li.dom)} if self.is_layer(li.dom) else set()) if self.renumbers(li, L2)]
                if rl:
                    L = rl[0]
                    el = canon(mk("elem", li.dom, li.L))
                    self.n += 1
                    for lp in li.paths:
                        if lp.outcome != "next":
                            continue
                        ids = [q for q in self.ops(lp.events) if q.kind == "id"]
                        if not ids:
                            if any(g.op in ("is", "nonempty", "truth") for g, w in lp.guards):
                                continue
                            self.bad("renumber", "some nodes keep their old index when the others are renumbered", o.e, p)
                            return False
                        try:
                            v = self.value(ids[-1].v, li)
                        except (Cannot, Raised):
                            return None
                        if v != IDX:
                            self.bad("renumber", "the node at position i gets the index %s" % show(ids[-1].v)[:80], ids[-1].e, p)
                            return False
                    if pend and pend[0] == "renumber":
                        pend = None
                    if gaps.get(L) is not False and canon(li.dom) == L:
                        pend = ("close the gaps", L, None, o.e)
                    continue
                # ordinary loop: every way through a round must be balanced
                deltas = set()
                for lp in li.paths:
                    self.carry = None
                    r = self.sequence(p, chain + ((li, lp),), lp.events, lp.outcome == "raise")
                    if r is False:
                        return False
                    if r is None:
                        if self.carry is None or chain:
                            return None
                        if lp.outcome == "next":
                            deltas.add(self.carry)
                    elif lp.outcome == "next":
                        deltas.add(0)
                self.carry = None
                if deltas - {0}:
                    if len(deltas) != 1:
                        return None
                    perloop.append((li, deltas.pop(), o.e))
            elif o.kind == "trim":
                if pend and pend[0] == "trim" and pend[1] == o.L:
                    v = o.v
                    try:
                        if v.op == "slice" and self.value(v.a[0], None, lvars={pend[2]: 5}) != 5 or v.op == "slice" and (v.a[1] is not NONE or v.a[2] is not NONE):
                            self.bad("renumber", "after moving the remaining nodes together, the list is cut at %s" % show(v)[:80], o.e, p)
                            return False
                    except (Cannot, Raised):
                        return None
                    pend = None
                    gaps[o.L] = False
                else:
                    return None
            elif o.kind == "assign":
                pn = pend
                v = self.en.freeze(o.v, p.st)
                if pend and pend[0] == "trim" and v.op == "item" and v.a[1].op == "slice":
                    try:
                        if v.a[1].a[0] is not NONE and self.value(v.a[1].a[0]) != 0 or self.value(v.a[1].a[1], None, lvars={pend[2]: 5}) != 5:
                            self.bad("renumber", "after moving the remaining nodes together, the list is cut at %s" % show(v)[:80], o.e, p)
                            return False
                    except (Cannot, Raised):
                        return None
                    pend = None
                    gaps[o.L] = False
                    self.alias[canon(o.v)] = o.L
                    self.alias[canon(v)] = o.L
                    continue
                if v.op == "list" and not v.a[0]:
                    continue
                if o.v.op == "obj" and (any(q.kind == "assign" and q.L == o.L and q.n > o.n for q in ops) or any(q.kind == "num" and is_const(q.v) and q.v.a[1] == 0 for q in ops)):
                    continue        # the empty list of a new layer
                if v.op == "call" and v.a[0].op == "builtin" and v.a[0].a[0] in ("sorted", "list", "reversed") or v.op == "list":
                    src = v.a[1][0] if v.op == "call" else None
                    ok = src is not None and (self.layer_of(src) == o.L or canon(src) == o.L)
                    if v.op == "list" and len(v.a[0]) == 1 and v.a[0][0].op in ("for", "forp"):
                        ok = self.layer_of(v.a[0][0].a[1]) == o.L or canon(v.a[0][0].a[1]) == o.L
                    if ok:
                        self.alias[canon(o.v)] = o.L
                        self.alias[canon(v)] = o.L
                        pend = ("renumber", o.L, None, o.e)
                        if v.op == "list" or canon(src) == o.L:
                            gaps[o.L] = False
                        continue
                # initialisation with a given list
                nums = [q for q in ops if q.kind == "num" and q.L == o.L]
                if nums and nums[-1].v.op == "len" and canon(nums[-1].v.a[0]) == canon(o.v):
                    und = False
                    self.n += 1
                    members = num = 0
                    self.inits.append((p, chain, o))
                elif nums and is_const(nums[-1].v):
                    self.bad("count", "the layer is given a node list, and the count %s" % show(nums[-1].v)[:60], o.e, p)
                    return False
                elif any(canon(y) == o.L or self.layer_of(y) == o.L for y in walk(v)) or v.op == "obj":
                    return None
                elif not nums:
                    self.bad("count", "the layer is given a node list and keeps its old count", o.e, p)
                    return False
                else:
                    return None
        if pend:
            if pend[0] == "trim":
                self.bad("renumber", "after the remaining nodes were moved together, the old tail of the list is not cut off", pend[3], p)
            elif pend[0] == "renumber":
                self.bad("renumber", "the node list is rearranged and the nodes keep their old indices", pend[3], p)
            else:
                self.bad("renumber", "the nodes are numbered without gaps, but the list of the layer still has gaps %s" % ("when the call fails" if raising else "on return"), pend[3], p)
            return False
        if perloop and not chain:
            return self.totals(p, perloop, ops, members, raising)
        if und:
            return None if members or num is None and any(o.kind == "num" for o in ops) and not self.inits else True
        if members != num:
            nums = [o for o in ops if o.kind == "num"]
            where = nums[-1].e if nums else next((o.e for o in ops if o.kind in ("append", "none")), events[-1])
            allnums = [e for e, n in all_events(p.events) if e.kind == "setattr" and e.a[1] == "num"]
            if nums or not allnums:
                if not chain or nums or not allnums:
                    # a top-level adjustment may settle what loops did
                    if not chain and any(o.kind == "loop" for o in ops) and members == 0:
                        return None
                    self.bad("count", "%+d node(s) in the list, but the count changes by %+d" % (members, num), where, p)
                    return False
            if chain and not nums:
                self.carry = members
            return None
        return True

    def totals(self, p, perloop, ops, members, raising):
        """loops that move nodes without counting them: the count is settled afterwards"""
        nums = [o for o in ops if o.kind == "num"]
        ROUNDS = 3

        def base(x, ev):
            if x.op == "attr" and x.a[1] == "num" or x.op in ("lvar", "lout") and str(x.a[0]).endswith("num"):
                return K0
            if x.op == "len":
                if any(canon(x.a[0]) == canon(li.dom) for li, d, e in perloop):
                    return ROUNDS
                raise Cannot("length")
            return NotImplemented
        try:
            v = Evaluator(base, self.R.prog).ev(nums[-1].v) if nums else K0
        except (Cannot, Raised):
            return None
        want = K0 + members + sum(d * ROUNDS for li, d, e in perloop)
        self.n += 1
        if v != want:
            self.bad("count", "when the loop went round %d times, %+d node(s) are in the list, but the count changed by %+d" % (ROUNDS, want - K0, v - K0), nums[-1].e if nums else perloop[0][2], p)
            return False
        return True


ROOTS = ("NodeLayerCollection.add", "NodeLayerCollection.add_many", "NodeLayerCollection.compact", "NodeLayerCollection.sort", "NodeLayerCollection.remove",
         "NodeLayerCollection.retain", "NodeLayerCollection.unsafe_initialize", "NodeLayerCollection.__delitem__", "Node.detach", "Document.compile",
         "Codec.commit_layers", "JsonCodec.decode")


def check(R):
    R.rule("append", "a node put into a layer gets the layer as its collection and its position as its index, belonged to no layer before, and is counted")
    R.rule("remove", "a node taken out of a layer belongs to that layer, reports no collection afterwards, and its slot is emptied")
    R.rule("count", "the number of nodes put in and taken out equals the change of the count on every path, also those that raise")
    R.rule("renumber", "whenever nodes move, each gets its new position as its index, in order, and no placeholder is kept or node lost")
    R.rule("balanced", "each way through each edit operation is understood and leaves list, count, index and collection in step")
    R.rule("decode", "decoded nodes get the layer as their collection and their position as their index")
    R.rule("report", "length, index and membership report the bookkeeping")
    R.rule("histories", "over all sequences of edits up to a bound (single and many nodes, refused ones, ones that fail halfway, sorting with a failing key, automatic compaction), "
           "run on the machine from the public interface, length, membership, index, collection and order agree after every edit")
    R.guarded("histories", "NodeLayerCollection", lambda: histories(R))
    prog = R.prog

    def root(q):
        f = prog.func(q)
        en, ps = R.paths(f, no_inline=NOIN + tuple(x for x in ("Codec.commit_layers",) if x != q))
        led = Ledger(R, en, q)
        led.inits = []
        n = und = 0
        for p in ps:
            led.failed = False
            led.alias = {}
            r = led.path(p)
            n += 1
            if r is False:
                return
            if r is None:
                und += 1
        if und:
            R.unknown("balanced", q, "%d of %d ways not understood" % (und, n), f.loc)
        else:
            R.good("balanced", q, "%d ways, %d bookkeeping steps" % (n, led.n), f.loc)
        if led.inits and q != "NodeLayerCollection.unsafe_initialize":
            attach(q, f, led)

    def attach(q, f, led):
        """every list handed to a layer: the collection of each of its nodes is that layer"""
        done = set()
        for p, chain, o in led.inits:
            v = canon(o.v)
            key = (o.e.loc, v)
            if key in done:
                continue
            done.add(key)
            evs = chain[-1][1].events if chain else p.events
            found, any_coll = False, False
            for e, nest in all_events(evs):
                if e.kind != "setattr" or e.a[1] != "collection" or e.a[2] is NONE:
                    continue
                any_coll = True
                t = canon(e.a[0])
                if t.op == "elem" and t.a[0] == v and canon(e.a[2]) == o.L:
                    lp = nest[-1][1] if nest else None
                    if all(any(x.kind == "setattr" and x.a[1] == "collection" for x in l2.events) for l2 in nest[-1][0].paths if l2.outcome == "next"):
                        found = True
                elif t.op == "elem" and t.a[0] == v:
                    return R.bad("decode", q, "the decoded nodes get %s as their collection, not the layer they are put into" % show(e.a[2])[:80], e.loc)
            if found:
                R.good("decode", "%s collection" % q, show(v)[:80], o.e.loc)
            elif any_coll:
                R.unknown("decode", "%s collection" % q, "not matched", o.e.loc)
            else:
                return R.bad("decode", "%s collection" % q, "the decoded nodes are put into the layer without being attached to it", o.e.loc)
    for q in ROOTS:
        R.guarded("balanced", q, lambda q=q: root(q))

    def numbered(q):
        f = prog.func(q)
        en, ps = R.paths(f, no_inline=NOIN + ("Codec.commit_layers",))
        seen = {}
        for p in ps:
            for e, nest in all_events(p.events):
                if e.kind == "setattr" and e.a[1] == "_id" and e.a[0].op == "obj" and not (is_const(e.a[2]) and e.a[2].a[1] == -1):
                    seen[(e.a[2], e.loc)] = (e, nest, p)
        if not seen:
            return R.unknown("decode", q, "no numbering of decoded nodes found", f.loc)
        for e, nest, p in seen.values():
            try:
                v = Evaluator(lambda x, ev: 3 if x.op == "idx" or x.op == "elem" and x.a[0].op == "rng" else NotImplemented, prog).ev(e.a[2])
            except (Cannot, Raised) as x:
                R.unknown("decode", q, str(x), e.loc)
                continue
            if v != 3:
                return R.bad("decode", q, "the decoded node at position i gets the index %s" % show(e.a[2])[:80], e.loc, trace(p, 6))
            R.good("decode", q, "index = position", e.loc)
    for q in ("MsgpackCodec.decode_layer", "JsonCodec.decode"):
        R.guarded("decode", q, lambda q=q: numbered(q))

    def reports(q, expect, what):
        f = prog.func(q)
        en, ps = R.paths(f)
        other = Val("other layer", {"NodeLayerCollection"}, {}, truth=True)
        me = Val("layer", {"NodeLayerCollection"}, {}, truth=True)

        def base(own):
            def b(t, ev):
                if t.op == "attr" and t.a[1] == "num":
                    return K0
                if t.op == "attr" and t.a[1] == "_id":
                    return 3
                if t.op == "attr" and t.a[1] == "collection":
                    return me if own else other
                if t.op == "len":
                    return N0
                if t.op == "sym" and t.a[0] == "self":
                    return me
                return NotImplemented
            return b
        decision(R, "report", q, ps, [("own", True), ("foreign", False)], base, lambda own, k, v, p: None if k == "ret" and v == expect(own) else "%s is %r" % (what, v), f.loc)
    R.guarded("report", "NodeLayerCollection.__len__", lambda: reports("NodeLayerCollection.__len__", lambda o: K0, "the length of a layer with %d nodes in %d slots" % (K0, N0)))
    R.guarded("report", "Node.i", lambda: reports("Node.i", lambda o: 3, "the index of a node at position 3"))
    R.guarded("report", "NodeLayerCollection.__contains__", lambda: reports("NodeLayerCollection.__contains__", lambda o: o, "membership"))


def histories(R):
    from rules.world import World, explore, list_val
    loc = R.prog.func("NodeLayerCollection.__init__").loc
    total = 0
    for n, depth in ((0, 2), (4, 3 if R.tier == "thorough" else 2), (18, 1)):
        w = World(R, n)
        count = [0]

        def visit(want, before, done, failed):
            count[0] += 1
            return w.wrong(want, before)
        if n > 16:
            # enough nodes for automatic compaction: gaps first, then every edit
            for gone in (w.nodes[1:5], w.nodes[:4], w.nodes[-4:], w.nodes[1:6], w.nodes[:1] + w.nodes[6:14:2]):
                n0 = len(w.m.log)
                w.m.invoke(w.L, "remove", list_val(list(gone), "gone"))
                left = tuple(x for x in w.nodes if not any(x is g for g in gone))
                r = (("remove(%s)" % ", ".join(x.name for x in gone),), w.wrong(left, tuple(w.nodes)))
                if not r[1]:
                    r = explore(w, depth, visit, left, r[0])
                w.m.undo(n0)
                if r and r[1]:
                    return R.bad("histories", "NodeLayerCollection", "%d nodes, %s: %s" % (n, ", ".join(r[0]), r[1]), loc)
        else:
            r = explore(w, depth, visit)
            if r:
                return R.bad("histories", "NodeLayerCollection", "%d nodes, %s: %s" % (n, ", ".join(r[0]), r[1]), loc)
        total += count[0]
    R.good("histories", "NodeLayerCollection", "%d histories" % total, loc)
