"""Evaluation of extracted decision formulas over a finite partition of their input space.

`outcomes` takes a path summary and one region of the partition (a valuation of the base terms) and returns the outcome
of the paths consistent with it.  Terms outside the vocabulary raise Cannot, which rules treat as *unknown*.
"""
from terms import *
from effects import cache_attr


class Cannot(Exception):
    pass


class Raised(Exception):
    """evaluating the term raises in this region (attribute of None, ...)"""


def B(n):
    return mk("builtin", n)


class Val:
    """abstract object value: class names it is an instance of, attributes, items"""

    def __init__(self, name, classes=(), attrs=None, truth=True, items=None, length=None, elems=None):
        self.name, self.classes, self.attrs, self.truth, self.items, self.length = name, set(classes), attrs or {}, truth, items or {}, length
        self.mapping = items is not None
        self.elems = elems

    def __repr__(self):
        return self.name

    def __bool__(self):
        raise Cannot("truth of abstract value %s" % self.name)

    def __len__(self):
        raise Cannot("len of abstract %s" % self.name)


PYT = {"int": int, "str": str, "bytes": bytes, "float": float, "bool": bool, "list": list, "tuple": tuple, "dict": dict, "slice": slice, "bytearray": bytearray}


STRM = {"encode", "decode", "strip", "lstrip", "rstrip", "lower", "upper", "startswith", "endswith", "isspace", "replace", "split", "join", "find",
        "rfind", "index", "count", "splitlines", "title", "casefold"}


class Evaluator:
    en = None

    def __init__(self, base, prog=None, en=None):
        """base(term, evaluator) -> value, or raises Cannot / returns NotImplemented when it does not know the term"""
        self.base = base
        self.prog = prog
        self.memo = {}
        if en is not None:
            self.en = en

    def ev(self, t):
        if t in self.memo:
            return self.memo[t]
        v = self.base(t, self)
        if v is NotImplemented:
            v = self._ev(t)
        self.memo[t] = v
        return v

    def _ev(self, t):
        o, a = t.op, t.a
        ev = self.ev
        if o == "const":
            return a[1]
        if o in ("enum", "class", "builtin"):
            return t
        if o == "tuple":
            return tuple(ev(x) for x in a[0])
        if o == "not":
            return not self.truth(a[0])
        if o == "truth":
            return self.truth(a[0])
        if o in ("lt", "le", "gt", "ge"):
            x, y = ev(a[0]), ev(a[1])
            if isinstance(x, Val) or isinstance(y, Val) or x is None or y is None:
                raise Cannot("order of %r, %r" % (x, y))
            return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[o]
        if o in ("eq", "ne"):
            x, y = ev(a[0]), ev(a[1])
            r = self.equal(x, y)
            return r if o == "eq" else not r
        if o in ("is", "isnot"):
            x, y = ev(a[0]), ev(a[1])
            r = x is y if isinstance(x, Val) or isinstance(y, Val) or x is None or y is None else x == y
            return r if o == "is" else not r
        if o == "isinst":
            return self.isinst(ev(a[0]), a[1])
        if o == "hasattr":
            x = ev(a[0])
            if isinstance(x, Val) and a[1] in x.attrs:
                return True
            if isinstance(x, Val) and (self.prog or self.en and self.en.prog) and cache_attr(self.prog or self.en.prog, a[1]):
                return False        # a memo that was not filled yet
            raise Cannot("attribute %s of %r" % (a[1], x))
        if o == "nonempty":
            x = ev(a[0])
            if isinstance(x, Val):
                if x.length is None:
                    raise Cannot("emptiness of %r" % x)
                return x.length > 0
            return len(x) > 0
        if o in ("in", "notin"):
            x, y = ev(a[0]), ev(a[1])
            if isinstance(y, Val):
                if not y.mapping and y.elems is None:
                    raise Cannot("membership in %r" % y)
                y = y.items if y.mapping else y.elems
            r = any(self.equal(x, z) for z in y)
            return r if o == "in" else not r
        if o == "lin":
            s = a[0]
            for x, c in a[1]:
                v = ev(x)
                if not isinstance(v, (int, float)):
                    raise Cannot("arithmetic on %r" % (v,))
                s += c * v
            return s
        if o == "attr":
            x = ev(a[0])
            if isinstance(x, Val) and a[1] in x.attrs:
                return x.attrs[a[1]]
            if isinstance(x, slice) and a[1] in ("start", "stop", "step"):
                return getattr(x, a[1])
            if x is None or isinstance(x, (int, float, str, bytes)) and not hasattr(x, a[1]):
                raise Raised("AttributeError: %s of %r" % (a[1], x))
            raise Cannot(show(t))
        if o == "item":
            x = ev(a[0])
            if isinstance(x, Val):
                k = ev(a[1])
                if x.elems is not None and isinstance(k, int) and -len(x.elems) <= k < len(x.elems):
                    return x.elems[k]
                if x.elems is not None and isinstance(k, int):
                    raise Raised("IndexError")
                k = self.key_of(k, x.items)
                if k in x.items:
                    return x.items[k]
                if x.mapping and getattr(self, "exact", False):
                    raise Raised("KeyError")
                raise Cannot(show(t))
            k = ev(a[1])
            try:
                return x[k]
            except IndexError:
                raise Raised("IndexError")
            except Exception:
                raise Cannot(show(t))
        if o == "len":
            x = ev(a[0])
            if isinstance(x, Val):
                if x.length is None:
                    raise Cannot("len of %r" % x)
                return x.length
            return len(x)
        if o == "dget":
            x, k = ev(a[0]), ev(a[1])
            d = x.items if isinstance(x, Val) and x.mapping else x if isinstance(x, dict) else None
            if d is None:
                raise Cannot(show(t))
            return d[k] if k in d else ev(a[2])
        if o == "at":
            return ev(a[0])
        if o in ("mul", "mod", "floordiv", "add", "sub", "neg", "band", "bor", "shl", "shr", "pow", "div", "lshift", "rshift"):
            vs = [ev(x) for x in a]
            if any(isinstance(v, Val) or v is None for v in vs):
                raise Cannot(show(t))
            try:
                return {"mul": lambda x, y: x * y, "mod": lambda x, y: x % y, "floordiv": lambda x, y: x // y,
                        "add": lambda x, y: x + y, "sub": lambda x, y: x - y, "neg": lambda x: -x, "band": lambda x, y: x & y,
                        "bor": lambda x, y: x | y, "shl": lambda x, y: x << y, "shr": lambda x, y: x >> y,
                        "lshift": lambda x, y: x << y, "rshift": lambda x, y: x >> y,
                        "pow": lambda x, y: x ** y, "div": lambda x, y: x / y}[o](*vs)
            except Exception:
                raise Cannot(show(t))
        if o == "and" or o == "or":
            xs = a[0] if len(a) == 1 and isinstance(a[0], tuple) else a
            last = None
            for x in xs:
                last = ev(x)
                if self.tv(last) == (o == "or"):
                    return last
            return last
        if o == "ite" or o == "ifexp":
            return ev(a[1]) if self.truth(a[0]) else ev(a[2])
        if o == "slice":
            vs = [ev(x) for x in a]
            if any(isinstance(v, Val) for v in vs):
                raise Cannot(show(t))
            return slice(*vs)
        if o == "call" and a[0].op == "meth" and a[0].a[1] == "indices" and len(a[1]) == 1:
            x, n = ev(a[0].a[0]), ev(a[1][0])
            if isinstance(x, slice) and isinstance(n, int) and n >= 0:
                return x.indices(n)
            raise Cannot(show(t))
        if o == "view":
            x = ev(a[1])
            d = x.items if isinstance(x, Val) and x.mapping else x if isinstance(x, dict) else None
            if d is None:
                raise Cannot(show(t))
            return tuple(d) if a[0] == "keys" else tuple(d.values()) if a[0] == "values" else tuple(d.items())
        if o == "obj":
            f = self.stable(t)
            if f is not None:
                return ev(f)
            raise Cannot(show(t))
        if o == "firstof":
            x = ev(a[0])
            xs = x.elems if isinstance(x, Val) else x
            if not isinstance(xs, (list, tuple)):
                raise Cannot(show(t))
            return xs[0] if xs else ev(a[1])
        if o in ("list", "set", "map"):
            out = self.segs(a[0])
            if o == "set":
                ded = []
                for x in out:
                    if not any(self.equal(x, y) for y in ded):
                        ded.append(x)
                out = ded
            return dict(out) if o == "map" else tuple(out)
        if o == "lout":
            root = self
            while isinstance(root, Bound):
                root = root.parent
            cur = getattr(root, "cur", None)
            info = loop_infos(cur.events).get(a[-1]) if cur is not None else None
            if info is not None:
                for k, EB, E2 in iterations(info, self, loop_infos(cur.events)):
                    if k == "end" and t in E2.bind:
                        return E2.bind[t]
            raise Cannot(show(t))
        if o == "join":
            sep, xs = ev(a[0]), ev(a[1])
            xs = xs.elems if isinstance(xs, Val) else xs
            if isinstance(sep, (str, bytes)) and isinstance(xs, (list, tuple)) and all(isinstance(x, type(sep)) for x in xs):
                return sep.join(xs)
            raise Cannot(show(t))
        if o == "fmt":
            vs = [ev(x) for x in a[0]]
            if not isinstance(vs[0], str) or any(isinstance(v, Val) or isinstance(v, T) for v in vs):
                raise Cannot(show(t))
            try:
                return vs[0].format(*vs[1:])
            except (TypeError, ValueError, IndexError, KeyError):
                raise Cannot(show(t))
        if o == "call" and a[0].op == "builtin" and not a[2]:
            n = a[0].a[0]
            if n == "next" and len(a[1]) == 1:
                x = ev(a[1][0])
                xs = iterable(x)
                if isinstance(xs, (list, tuple)):
                    if not xs:
                        raise Raised("StopIteration")
                    return xs[0]
                raise Cannot(show(t))
            if n in ("reversed", "list", "tuple", "iter") and len(a[1]) == 1:
                x = ev(a[1][0])
                xs = iterable(x)
                if isinstance(xs, (list, tuple)):
                    return tuple(reversed(xs)) if n == "reversed" else tuple(xs)
                raise Cannot(show(t))
            if n in ("min", "max", "int", "abs", "bool", "len", "sum", "tuple", "sorted", "float"):
                vs = [ev(x) for x in a[1]]
                if any(isinstance(v, Val) or v is None for v in vs):
                    raise Cannot(show(t))
                try:
                    return {"min": min, "max": max, "int": int, "abs": abs, "bool": bool, "len": len, "sum": sum, "tuple": tuple,
                            "sorted": sorted, "float": float}[n](*vs)
                except TypeError:
                    raise Cannot(show(t))
        if o == "call" and a[0] is B("sorted") and len(a[1]) == 1 and all(k in ("key", "reverse") for k, v in a[2]):
            kw = dict(a[2])
            xs = iterable(ev(a[1][0]))
            if not isinstance(xs, (list, tuple)):
                raise Cannot(show(t))
            kf = kw.get("key", NONE)
            ks = [x if kf is NONE else self.apply(kf, [x]) for x in xs]
            if any(plain_key(k) is None for k in ks):
                raise Cannot(show(t))
            try:
                order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(ev(kw["reverse"])) if "reverse" in kw else False)
            except TypeError:
                raise Raised("TypeError")
            return tuple(xs[i] for i in order)
        if o == "call" and a[0] is B("dict") and len(a[1]) == 1:
            x = ev(a[1][0])
            x = dict(x.items) if isinstance(x, Val) and x.mapping else x
            try:
                return {**dict(x), **{k: ev(v) for k, v in a[2] if not k.startswith("*")}}
            except (TypeError, ValueError):
                raise Cannot(show(t))
        if o == "call" and a[0].op in ("meth", "bound", "vmeth") and not a[2]:
            nm = a[0].a[1] if isinstance(a[0].a[1], str) else None
            if nm is not None:
                x = ev(a[0].a[0])
                if isinstance(x, (str, bytes)) and nm in STRM:
                    vs = [ev(y) for y in a[1]]
                    if not any(isinstance(v, (Val, T)) or isinstance(v, (list, tuple)) and any(isinstance(z, (Val, T)) for z in v) for v in vs):
                        try:
                            return getattr(x, nm)(*vs)
                        except Exception as z:
                            raise Raised(type(z).__name__)
                if isinstance(x, Val):
                    return self.user_call(x, nm, [ev(y) for y in a[1]])
        raise Cannot(show(t))

    def apply(self, f, args):
        """the function value f applied to values: its path summaries evaluated in this region"""
        if f.op == "builtin" and len(args) == 1 and f.a[0] in ("str", "len", "int", "float", "bool", "abs", "repr", "bytes"):
            x = args[0]
            if isinstance(x, (Val, T)) or x is None and f.a[0] != "str":
                raise Cannot("%s of %r" % (f.a[0], x))
            return {"str": str, "len": len, "int": int, "float": float, "bool": bool, "abs": abs, "repr": repr, "bytes": bytes}[f.a[0]](x)
        root = self
        while isinstance(root, Bound):
            root = root.parent
        p, en = getattr(root, "cur", None), self.en or root.en
        if f.op != "clo" or p is None or en is None:
            raise Cannot("call of %s" % show(f)[:60])
        from evalx import Ctx
        names = [mk("sym", "%%arg%d" % i, None) for i in range(len(args))]
        c = en.codes[f.a[0]]
        n0, e0 = len(p.st.guards), len(p.st.events)
        E2 = Bound(self, dict(zip(names, args)))
        for st, v in en.call_clo(f, list(names), {}, p.st.fork(), Ctx(c.module, c.cls, c.qual, 0, c.node), c.node):
            if any(e.kind in ("setitem", "setattr", "mut", "loop") for e in st.events[e0:]) or isinstance(v, tuple):
                raise Cannot("call of %s" % show(f)[:60])
            if all(E2.truth(g) == b for g, b in st.guards[n0:]):
                return E2.ev(v)
        raise Cannot("call of %s" % show(f)[:60])

    def stable(self, t):
        """contents of a container built along the current path and not changed after its construction"""
        root = self
        while isinstance(root, Bound):
            root = root.parent
        p, en = getattr(root, "cur", None), self.en or root.en
        if p is None or en is None or t.a[1] not in ("list", "set", "dict", "gen"):
            return None
        from effects import events
        for e, nest in events(p.events):
            if e.kind in ("mut", "setitem", "delitem") and isinstance(e.a[0], T) and any(z is t for z in walk(e.a[0])):
                return None
        f = en.freeze(t, p.st)
        return f if f.op in ("list", "set", "map") else None

    def part(self, t):
        """a member of a container being built; a container itself where these are objects of their own"""
        if t.op in ("set", "list", "map"):
            root = self
            while isinstance(root, Bound):
                root = root.parent
            make = getattr(root, "making", None)
            if make is not None:
                return make(t, self)
        return self.ev(t)

    def segs(self, segs):
        """contents of a container built along the path, its loops unrolled over this region's elements"""
        out = []
        for z in segs:
            if z.op == "one":
                out.append(self.part(z.a[0]) if len(z.a) == 1 else (self.ev(z.a[0]), self.part(z.a[1])))
                continue
            if z.op != "for":
                raise Cannot("contents %s" % show(z)[:80])
            L, dom, alts = z.a
            root = self
            while isinstance(root, Bound):
                root = root.parent
            cur = getattr(root, "cur", None)
            infos = loop_infos(cur.events) if cur is not None else {}
            info = infos.get(L)
            if info is not None and info.updates:
                rounds = [EB for k, EB, E2 in iterations(info, self, infos) if k == "iter"]
                if info.dom is not dom:
                    bds = domain(dom, L, self)
                    if len(bds) != len(rounds):
                        raise Cannot("rounds of %s" % show(dom)[:80])
                    rounds = [Bound(x, bd) for x, bd in zip(rounds, bds)]
            else:
                rounds = [Bound(self, bd) for bd in domain(dom, L, self)]
                for o in sorted(ORIGINS.get(L, ()), key=str):
                    src = infos.get(o)
                    if src is None or not src.updates:
                        continue
                    its = [x for k, x, E2 in iterations(src, self, infos) if k == "iter"]
                    if len(its) == len(rounds):
                        rounds = [Bound(a, {mk("lvar", *k.a[:-1], L): v for k, v in b.bind.items() if k.op == "lvar" and k.a[-1] == o})
                                  for a, b in zip(rounds, its)]
            for EB in rounds:
                for guards, ss in alts:
                    if any(g.op in LOOPG and g.op != "loopdone" for g, b in guards):
                        raise Cannot("nested loop in contents")
                    if all(EB.truth(g) == b for g, b in guards if g.op not in LOOPG):
                        out.extend(EB.segs(ss))
                        break
        return out

    def equal(self, x, y):
        if isinstance(x, Val) or isinstance(y, Val):
            if x is y:
                return True
            if x is None or y is None:
                return False
            a, b = (x, y) if isinstance(x, Val) else (y, x)
            return self.user_eq(a, b)
        if isinstance(x, T) or isinstance(y, T):
            return x is y
        return x == y

    def key_of(self, k, items):
        return k

    def user_eq(self, a, b):
        """equality defined by the class of a: its __eq__ summary evaluated in this region"""
        r = self.user_call(a, "__eq__", [b])
        if not isinstance(r, bool):
            raise Cannot("equality of %r, %r" % (a, b))
        return r

    def user_call(self, a, meth, args):
        """a.meth(*args) for an effect-free method of docria: its path summary evaluated in this region"""
        for n in sorted(a.classes):
            c = self.prog.classes.get(n) if self.prog is not None else None
            f = c.find(meth) if c is not None else None
            if f is None:
                continue
            cache = self.prog.__dict__.setdefault("_call_cache", {})
            if (f, n) not in cache:
                from psi import Engine
                en = Engine(self.prog)
                cache[(f, n)] = None
                cache[(f, n)] = (en.run(f, self_cls=c), [x for x, k, d in en._params(f.node)])
            if cache[(f, n)] is None:
                break
            ps, pn = cache[(f, n)]
            if len(pn) != 1 + len(args):
                break
            bind = dict(zip(pn, [a] + list(args)))
            E = Evaluator(lambda t, ev: bind.get(t.a[0], NotImplemented) if t.op == "sym" else NotImplemented, self.prog)
            rs = []
            for (k, v), p in results(ps, E):
                if (k, v) not in [(x, y) for x, y in rs if y is v or not isinstance(y, Val) and not isinstance(v, Val)]:
                    rs.append((k, v))
            if len(rs) == 1:
                if rs[0][0] == "raise":
                    raise Raised(rs[0][1])
                return rs[0][1]
            break
        raise Cannot("%s of %r" % (meth, a))

    def tv(self, v):
        if isinstance(v, Val):
            if v.truth is None:
                raise Cannot("truth of %r" % v)
            return v.truth
        return bool(v)

    def truth(self, t):
        return self.tv(self.ev(t))

    def isinst(self, v, c):
        if c.op == "tuple":
            return any(self.isinst(v, x) for x in c.a[0])
        if c.op == "builtin":
            p = PYT.get(c.a[0])
            if p is None:
                raise Cannot("isinstance %s" % c.a[0])
            if isinstance(v, Val):
                return c.a[0] in v.classes
            return isinstance(v, p)
        if c.op == "class":
            if isinstance(v, Val):
                if self.prog is not None:
                    return any(n in self.prog.classes and self.prog.classes[c.a[0]] in self.prog.classes[n].mro() for n in v.classes)
                return c.a[0] in v.classes
            return False
        if c.op == "ext":
            if isinstance(v, Val):
                return c.a[0].split(".")[-1] in v.classes
            n = c.a[0].split(".")[-1]
            if n in ("Integral", "Number", "Real"):
                return isinstance(v, (int, float)) if n != "Integral" else isinstance(v, int)
            return False
        raise Cannot("isinstance %s" % show(c))


LOOPG = ("loopdone", "inloop", "loopbroke")


_INFOS = {}


def loop_infos(events, out=None):
    if out is None:
        # remembered: the same events are asked for in every round of their loops
        k = _INFOS.get(id(events))
        if k is not None and k[0] is events and k[1] == len(events):
            return k[2]
        out = {}
        _INFOS[id(events)] = (events, len(events), out)
    for e in events:
        if e.kind == "loop":
            out[e.a[0].L] = e.a[0]
            for p in e.a[0].paths:
                loop_infos(p.events, out)
    return out


def plain_key(k):
    """a sort key Python can order by value"""
    if isinstance(k, tuple):
        return k if all(plain_key(x) is not None for x in k) else None
    return k if isinstance(k, (int, float, str, bytes)) else None


class Bound(Evaluator):
    """evaluator with some loop elements fixed"""
    unsure = None           # why it is not known that the loop gets to its end

    def __init__(self, parent, bind):
        Evaluator.__init__(self, parent.base, parent.prog)
        self.parent = parent
        self.bind = dict(getattr(parent, "bind", {}))
        self.bind.update(bind)

    def ev(self, t):
        if t in self.bind:
            return self.bind[t]
        if t.op == "elem":
            u = strip_clo(t)
            if u is not t or any(strip_clo(k) is not k for k in self.bind if k.op == "elem" and k.a[-1] == t.a[-1]):
                for k, v in self.bind.items():
                    if k.op == "elem" and k.a[-1] == t.a[-1] and strip_clo(k) is u:
                        return v
        return Evaluator.ev(self, t)


def strip_clo(t):
    """the term with the renamings recorded in closures dropped"""
    if not any(x.op == "clo" and x.a[2] for x in walk(t)):
        return t
    return subst(t, lambda x: mk("clo", x.a[0], x.a[1], ()) if x.op == "clo" else None)


def iterable(x):
    """elements in iteration order, or the value itself"""
    if isinstance(x, Val):
        if x.attrs.get("fails"):
            raise Raised(x.attrs["fails"])
        return tuple(x.items) if x.elems is None and x.mapping else x.elems
    return tuple(x) if isinstance(x, dict) else x


def count(n):
    if isinstance(n, float) and n.is_integer():
        n = int(n)
    if isinstance(n, Val) and n.classes & {"list", "dict", "set", "tuple", "str", "bytes", "float"} or isinstance(n, (str, bytes, tuple, list, type(None))):
        raise Raised("TypeError")
    if not isinstance(n, int):
        raise Cannot("range of %r" % (n,))
    return n


def domain(dom, L, E):
    """[(binding)] for every element of the loop domain in this region"""
    if dom.op == "rng":
        n = count(E.ev(dom.a[0]))
        return [{mk("idx", L): i} for i in range(n)]
    if dom.op == "zip":
        cols = []
        for d in dom.a[0]:
            if d.op == "rng":
                n = count(E.ev(d.a[0]))
                cols.append((None, list(range(n))))
            else:
                x = E.ev(d)
                x = (list(x.items) if x.elems is None and x.mapping else getattr(x, "elems", None)) if isinstance(x, Val) else x
                if x is None:
                    raise Cannot("elements of %s" % show(d))
                cols.append((d, list(x)))
        out = []
        for i in range(min(len(c) for d, c in cols)):
            b = {mk("idx", L): i}
            b.update({mk("elem", d, L): c[i] for d, c in cols if d is not None})
            out.append(b)
        return out
    if dom.op == "view" and dom.a[0] == "keys":
        x = E.ev(dom.a[1])
        ks = x.items.keys() if isinstance(x, Val) else x.keys() if isinstance(x, dict) else None
        if ks is None:
            raise Cannot("keys of %s" % show(dom))
        return [{mk("elem", dom, L): k} for k in ks]
    x = E.ev(dom)
    if isinstance(x, Val):
        x = list(x.items) if x.elems is None and x.mapping else getattr(x, "elems", None)
        if x is None:
            raise Cannot("elements of %s" % show(dom))
    try:
        return [{mk("elem", dom, L): v, mk("idx", L): i} for i, v in enumerate(x)]
    except TypeError:
        raise Cannot("elements of %s" % show(dom))


def feasible(guards, E, infos):
    """Does the region admit a run taking exactly these branch decisions?  Raises Cannot when undetermined."""
    return bool(solve(tuple(guards), E, infos))


def solve(guards, E, infos, pend=None):
    """[evaluator] one per way the region is consistent with the guards (loop elements and loop variables bound)"""
    for j in range(len(guards)):
        g, b = guards[j]
        if g.op in LOOPG:
            info = infos.get(g.a[0])
            if info is None:
                raise Cannot("loop %s" % g.a[0])
            if g.op == "loopdone" and not info.updates and all(p.outcome == "next" for p in info.paths):
                continue
            if g.op == "loopdone" and any(x.op in ("elem", "idx") and x not in getattr(E, "bind", ()) for x in walk(info.dom)):
                # completion of a loop of another round (contents of a container filled there): assumed where it ran
                try:
                    domain(info.dom, info.L, E)
                except Cannot:
                    continue
            its = iterations(info, E, infos)
            if g.op == "loopdone":
                try:
                    last = None
                    for k, EB, E2 in its:
                        if k == "end":
                            last = E2
                        elif E2 is None:
                            return []
                    if last is None:
                        return []
                    if last.unsure is not None and not all(p.outcome == "next" for p in info.paths):
                        pend = pend or last.unsure
                    E = last
                except Cannot as x:
                    # a loop that always completes: only what it leaves behind is unknown
                    if not all(p.outcome == "next" for p in info.paths):
                        pend = pend or x
                continue
            out = []
            for k, EB, E2 in its:
                if k == "iter":
                    out.extend(solve(guards[j + 1:], EB, infos, pend))
            return out
        try:
            if E.truth(g) != b:
                return []
        except Raised:
            return []
        except Cannot as x:
            pend = pend or x
    if pend is not None:
        raise pend
    return [E]


def lkey(op, name, init, L):
    if isinstance(name, str):
        return mk(op, name, init if init is not None else NONE, L)
    b, n = name
    return mk(op, show(mk("attr", b, str(n), 0)), (init or NONE) if op == "lvar" else NONE, L)


def iterations(info, E, infos):
    """Walk the loop's finite element domain: yields ("iter", evaluator at the start of the iteration, evaluator after it or None if it
    cannot be passed) and finally ("end", None, evaluator after the loop)."""
    vars_ = {}
    for name, (init, vals) in info.updates.items():
        vars_[name] = (init, init)
    cur = {}
    for name, (init, _) in vars_.items():
        if init is not None:
            try:
                cur[name] = E.ev(init)
            except (Cannot, Raised):
                pass
    nxt = [p for p in info.paths if p.outcome == "next"]
    unsure = None
    for bd in domain(info.dom, info.L, E):
        lv = {lkey("lvar", n, vars_[n][0], info.L): v for n, v in cur.items()}
        EB = Bound(E, {**bd, **lv})
        step = None
        unk = None
        for p in nxt:
            try:
                sols = solve(p.guards, EB, infos)
            except Cannot as x:
                unk = x
                continue
            for ES in sols[:1]:
                new = {}
                for n in vars_:
                    vs = [v for g, v in info.updates[n][1] if g is p.guards or g == p.guards]
                    if len(vs) >= 1 and vs[0] is not None:
                        try:
                            new[n] = ES.ev(vs[0])
                        except Cannot:
                            pass
                        except Raised:
                            yield ("iter", EB, None)
                            return
                if step is not None and step != new:
                    unk = Cannot("two ways through the loop body")
                step = new
        if step is None and unk is None:
            yield ("iter", EB, None)
            return
        if unk is not None:
            # how it is passed, if it is, is undetermined
            if step is None:
                unsure = unsure or unk
            step = {} if vars_ else (step or {})
            yield ("iter", EB, EB)
            if vars_:
                cur = {}
                continue
            cur = {}
            continue
        yield ("iter", EB, EB)
        cur = step
    lo = {lkey("lout", n, vars_[n][0], info.L): v for n, v in cur.items()}
    last = Bound(E, lo)
    last.unsure = unsure
    yield ("end", None, last)


def choices(p, E):
    """evaluators (with loop elements bound) under which the path is feasible"""
    return solve(tuple(p.guards), E, loop_infos(p.events))


def outcomes(paths, E):
    """[(path, evaluator)] consistent with the region described by E."""
    r = []
    for p in paths:
        if E.en is not None:
            E.cur = p
            E.memo = {}
        r.extend((p, e) for e in choices(p, E))
    return r


def results(paths, E):
    """set of results: ("raise", class name) or ("ret", value)"""
    out = []
    for p, e in outcomes(paths, E):
        if E.en is not None:
            E.cur = p
        if p.raises:
            v = ("raise", exc_name(p.outcome[1]))
        else:
            try:
                v = ("ret", e.ev(p.outcome[1]))
            except Raised:
                v = ("raise", "AttributeError")
        out.append((v, p))
    if not out and paths:
        for p in paths:
            for g, b in p.guards:
                if g.op in LOOPG:
                    break
                try:
                    if E.truth(g) != b:
                        break
                except Raised:
                    return [(("raise", "AttributeError"), p)]
                except Cannot:
                    break
    return out


def mentions(li, keep):
    return any(mentions(e.a[0], keep) if e.kind == "loop" else keep(e) for lp in li.paths for e in lp.events)


def occurrences(events, E, infos=None, keep=None):
    """[(event, evaluator)] of the events outside branches the region excludes, loops unrolled over the region's elements
    (only loops that contain an event for which keep holds, if given)"""
    infos = loop_infos(events) if infos is None else infos
    for e in events:
        if e.kind != "loop":
            yield e, E
            continue
        li = e.a[0]
        last = E
        if keep is not None and not mentions(li, keep):
            continue
        for k, EB, E2 in iterations(li, E, infos):
            if k == "end":
                last = E2
                continue
            for lp in li.paths:
                sols = solve(lp.guards, EB, infos)
                if sols:
                    sols[0].rounds = getattr(E, "rounds", ()) + (li.L,)
                    yield from occurrences(lp.events, sols[0], infos, keep)
                    break
        E = last


def exc_name(t):
    if t.op in ("class", "builtin", "ext"):
        return t.a[0].split(".")[-1]
    return "?"
