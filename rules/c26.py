"""C26: XML export handles every type and stays well-formed."""
import re
from rules.common import *
from effects import events, path_root
try:
    import re._parser as sre
except ImportError:
    import sre_parse as sre

NODES = {
    "I32": ("int",), "I64": ("int",), "F64": ("float", "int"), "BOOL": ("bool",), "STRING": ("str",), "BINARY": ("bytes",), "SPAN": ("TextSpan",),
    "NODEREF": ("Node",), "NODEREF_MANY": ("list",), "NODEREF_SPAN": ("NodeSpan",), "EXT": ("ExtData", "bytes"),
}
CLASSES = {"bool": {"bool", "int"}, "Node": {"Node", "dict"}}
LEGAL = [(0x9, 0xA), (0xD, 0xD), (0x20, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF)]


def legal_char(c):
    return any(a <= c <= b for a, b in LEGAL)


def charset(pattern, flags):
    """[(lo, hi)] of the characters a single-character pattern matches, or None"""
    tree = sre.parse(pattern, flags)
    items = list(tree)
    if len(items) == 1 and str(items[0][0]) in ("MAX_REPEAT", "MIN_REPEAT") and items[0][1][0] == 1:
        items = list(items[0][1][2])
    if len(items) != 1:
        return None
    op, av = items[0]
    if str(op) == "SUBPATTERN":
        items = list(av[-1])
        if len(items) != 1:
            return None
        op, av = items[0]
    op = str(op)
    if op == "LITERAL":
        return [(av, av)]
    if op == "NOT_LITERAL":
        return invert([(av, av)])
    if op != "IN":
        return None
    out, neg = [], False
    for o, v in av:
        o = str(o)
        if o == "NEGATE":
            neg = True
        elif o == "LITERAL":
            out.append((v, v))
        elif o == "RANGE":
            out.append(tuple(v))
        else:
            return None
    return invert(out) if neg else sorted(out)


def invert(rs):
    out, p = [], 0
    for a, b in sorted(rs):
        if a > p:
            out.append((p, a - 1))
        p = max(p, b + 1)
    if p <= 0x10FFFF:
        out.append((p, 0x10FFFF))
    return out


def covers(rs, c):
    return any(a <= c <= b for a, b in rs)


ESCAPED = ("ElementTree", "Element", "SubElement")


class Bad(Exception):
    pass


def elements(en, p):
    """[(what, value term, event)]: text put into the XML tree"""
    for e, nest in events(p.events):
        if e.kind == "call":
            n = show(e.a[0]).rsplit(".", 1)[-1]
            if n in ("Element", "SubElement"):
                args, kws = list(e.a[1]), dict(e.a[2])
                d = args[1 if n == "Element" else 2] if len(args) > (1 if n == "Element" else 2) else kws.pop("attrib", None)
                if d is not None:
                    yield "attrs", d, e, nest
                for k, v in kws.items():
                    if k not in ("tag", "parent", "**"):
                        yield "value", v, e, nest
            elif e.a[0].op in ("meth", "vmeth") and "set" in e.a[0].a and len(e.a[1]) == 2 and "Element" in show(e.a[0].a[0])[:60]:
                yield "value", e.a[1][1], e, nest
        elif e.kind == "setattr" and e.a[1] in ("text", "tail") and e.a[0].op in ("call", "item") and "Element" in show(e.a[0])[:80]:
            yield "value", e.a[2], e, nest


class Content:
    """can the text of a term contain characters of document content that were not filtered?"""

    def __init__(self, R, en, p, kind, patterns, ev=None):
        self.R, self.en, self.p, self.kind_, self.patterns, self.ev = R, en, p, kind, patterns, ev
        self.memo = {}

    def possible(self, guards):
        """False when a branch decision certainly fails for this class of value; None when some are undecided"""
        r = True
        for g, w in guards:
            if g.op in LOOPG:
                continue
            try:
                if self.ev.truth(g) != w:
                    return False
            except Raised:
                return False
            except Cannot:
                r = None
        return r

    def alts(self, t):
        return [(v, self.possible(g)) for v, g in resolve(self.en, self.p.st, t) if self.ev is None or self.possible(g) is not False]

    def dirty(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = ""
            r = self.memo[t] = self._dirty(t) or ""
        return r

    def any(self, ts):
        for t in ts:
            if isinstance(t, T):
                r = self.dirty(t)
                if r:
                    return r
        return ""

    def is_value(self, t):
        """a field value of a node of the document"""
        if t.op not in ("dget", "item") or t.a[0].op != "elem":
            return False
        r, acc = path_root(t)
        return r.op == "sym" and acc.split("[")[0].lstrip("._") == "layers"

    def _dirty(self, t):
        o, a = t.op, t.a
        if o == "const":
            if a[0] == "str" and any(not legal_char(ord(c)) for c in a[1]):
                return "the constant %r" % a[1]
            return ""
        if o in ("idx", "len", "lin", "rng", "enum", "class", "eq", "lt", "is", "not", "in", "slice", "isinst"):
            return ""
        if o in ("fmt", "pct", "tuple"):
            return self.any(a[0])
        if o == "join":
            return self.any(a)
        if o in ("lvar", "lout"):
            return ""  if len(a) == 3 and isinstance(a[1], T) and a[1].op == "const" and a[1].a[0] == "int" else self.give_up(t)
        if o in ("list", "set"):
            return self.any([m for m, g in seg_members(a[0])])
        if o == "map":
            return self.any([x for m, g in seg_members(a[0]) for x in m])
        if o == "call":
            f, args = a[0], a[1]
            n = f.a[0] if f.op in ("builtin", "ext") else None
            if n in ("len", "int", "float", "bool", "abs", "sum", "id", "hash", "ord"):
                return ""
            if n in ("str", "repr", "format", "ascii", "min", "max", "sorted", "list", "tuple", "reversed", "bytes"):
                return self.any(args)
            if n and n.split(".")[0] in ("base64", "binascii") or n in ("hex",):
                return ""
            if n and n.endswith("re.sub") or n == "re.sub":
                pat = self.pattern(args[0])
                return self.subbed(pat, args[1], args[2], t)
            if f.op in ("meth", "vmeth", "bound"):
                nm = next((x for x in a[0].a if isinstance(x, str)), None)
                base = f.a[0]
                if nm == "sub" and len(args) >= 2:
                    return self.subbed(self.pattern(base), args[0], args[1], t)
                if nm in ("decode", "encode", "strip", "lower", "upper", "join", "format", "replace", "split", "get", "rstrip", "lstrip", "__str__"):
                    return self.any([base] + list(args))
                if nm == "hex":
                    return ""
                if f.op == "bound":
                    g = next((self.en.func_of(x) for x in f.a if isinstance(x, T) and x.op == "func"), None)
                    if g is not None and g.node.name == "encode":
                        return "the type options %s" % show(t)[:80]
            return self.give_up(t)
        if o == "attr":
            if a[1] in ("_id", "i", "start", "stop", "_start", "_stop", "num"):
                return ""
            if a[1] in ("name",):
                return ""       # names are identifiers chosen by the program
            if a[1] == "text":
                return "the text %s" % show(t)[:80]
            r, acc = path_root(t)
            return self.give_up(t)
        if o in ("item", "dget", "elem"):
            if self.is_value(t):
                return "the string %s" % show(t)[:80] if self.kind_ in ("STRING", "SPAN", "EXT", "BINARY") else ""
            try:
                rs = self.alts(t)
            except Cannot:
                return self.give_up(t)
            if not rs:
                return ""
            if any(v is not t for v, g in rs):
                return self.any([v for v, g in rs])
            r, acc = path_root(t)
            if r.op == "sym" and acc.startswith(".props"):
                return "the property %s" % show(t)[:60]
            if r.op == "call" and r.a[0].op == "bound":
                g = next((self.en.func_of(x) for x in r.a[0].a if isinstance(x, T) and x.op == "func"), None)
                if g is not None and g.qual == "Document.compile":
                    return ""
                if g is not None and g.node.name == "encode":
                    # an encoded type: its name is a vocabulary word, its options hold default values
                    if t.op == "elem" or is_const(t.a[1], "type"):
                        return ""
                    return "the type option %s" % show(t)[:80]
            if t.op == "elem" and t.a[0].op == "view" and t.a[0].a[0] == "keys":
                return ""       # names of layers, fields, texts
            if t.op == "item" and t.a[0].op in ("attr", "item", "join", "call"):
                b = self.dirty(t.a[0])
                return b
            return self.give_up(t)
        if o == "sym":
            return ""
        return self.give_up(t)

    def give_up(self, t):
        raise Cannot(show(t)[:120])

    def pattern(self, t):
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "re.compile" and t.a[1] and is_const(t.a[1][0]):
            return t.a[1][0].a[1]
        if is_const(t) and t.a[0] == "str":
            return t.a[1]
        raise Cannot("pattern %s" % show(t)[:80])

    def subbed(self, pat, repl, s, t):
        if not (is_const(repl) and repl.a[0] == "str"):
            raise Cannot("replacement %s" % show(repl)[:60])
        if any(not legal_char(ord(c)) for c in repl.a[1]):
            return "the replacement %r" % repl.a[1]
        self.patterns.add(pat)
        # whether the pattern removes the right characters is a rule of its own
        return ""


def text_typed(en, st, t):
    """False when t is certainly not a str, True when it is, None when unknown"""
    if t.op in ("fmt", "join"):
        return True
    if t.op == "const":
        return t.a[0] == "str"
    if t.op in ("lin", "len", "idx", "list", "map", "tuple", "set", "rng", "enum"):
        return False
    if t.op == "call" and t.a[0].op == "builtin":
        return True if t.a[0].a[0] in ("str", "repr") else False if t.a[0].a[0] in ("int", "float", "bool", "len", "sum", "bytes") else None
    s = en.tstr(t)
    if s in ("int", "bytes", "float", "bool"):
        return False
    if t.op == "attr" and t.a[1] in ("_id", "num"):
        return False
    return None


def tag_of(t):
    """the tag of a detached element"""
    if t.op == "call" and show(t.a[0]).endswith(".Element") and t.a[1]:
        return ("element", t.a[1][0])
    return t


def encoded_type(en, t):
    """an encoded type written as it is: its name (an encoded type with options is a mapping and cannot be an attribute value)"""
    return t.op == "call" and t.a[0].op == "bound" and any(x.op == "func" and en.func_of(x).qual.endswith("DataType.encode") for x in t.a[0].a if isinstance(x, T))


def check(R):
    R.rule("every-type", "for each declarable field type and each class of value it holds, the export encodes it and no path raises, in every mode")
    R.rule("represented", "a set value of each field type puts something into its node's output")
    R.rule("clean", "all text, property, option and string content written into the tree is filtered of forbidden characters; attribute values are strings")
    R.rule("charset", "the filter removes exactly the characters XML 1.0 forbids")
    prog = R.prog
    tree = prog.func("XmlCodec.encode_tree")
    prog.func("XmlCodec.encode_intermediate")
    patterns = set()
    noin = ("Document.compile", "MsgpackCodec.encode", "DataType.encode")

    def one(kind, cls):
        cons = "%s value of class %s" % (kind, cls)
        en, ps = R.paths(tree, attr_hook=kind_hook(kind), no_inline=noin)
        V = Val("a %s" % cls, CLASSES.get(cls, {cls}), {}, truth=True)
        S = {"str": Val("text", {"str"}), "list": Val("list", {"list"}), "tuple": Val("tuple", {"tuple"})}
        cont = Content(R, en, ps[0], kind, set())

        def base_for(p):
            def base(t, ev):
                if cont.is_value(t):
                    return V
                if t.op == "sym" or t.op == "elem" and t.a[0].op == "view":
                    return NotImplemented
                if t.op == "nonempty" and t.a[0].op in ("map", "list", "set"):
                    for m, gs in seg_members(t.a[0].a[0]):
                        if all(ev.truth(g) == w for g, w in gs):
                            return True
                    return False
                if t.op in ("fmt", "join") or t.op == "call" and t.a[0].op == "builtin" and t.a[0].a[0] in ("str", "repr"):
                    return S["str"]
                if t.op in ("list", "set"):
                    return S["list"]
                if t.op == "call" and t.a[0].op in ("meth", "vmeth") and t.a[0].a[1] in ("sub", "decode", "join", "format", "replace"):
                    return S["str"]
                if t.op in ("item", "dget", "elem") and not cont.is_value(t):
                    outs = []
                    for v, gs in resolve(en, p.st, t):
                        if v is t:
                            return NotImplemented
                        if all(ev.truth(g) == b for g, b in gs):
                            r = ev.ev(v) if v.op != "tuple" else S["tuple"]
                            if not any(r is x for x in outs):
                                outs.append(r)
                    if len(outs) == 1:
                        return outs[0]
                    raise Cannot("%d values for %s" % (len(outs), show(t)[:80]))
                return NotImplemented
            return base
        modes = [dict(zip(("verbose", "verbose_node_spans", "document_id"), m)) for m in ((False, False, ""), (True, False, ""), (False, True, ""), (True, True, "id"))]
        und = None
        n = 0
        for mode in modes:
            mname = ", ".join("%s=%r" % m for m in mode.items())
            for p in ps:
                b = base_for(p)
                ev = Evaluator(lambda t, e: mode.get(t.a[0], NotImplemented) if t.op == "sym" and t.a[0] in mode else b(t, e), prog)
                C = Content(R, en, p, kind, patterns, ev)
                if p.raises:
                    try:
                        gs = [(g, ev.truth(g) == w) for g, w in p.guards if g.op not in LOOPG]
                    except Cannot as x:
                        und = und or str(x)
                        continue
                    except Raised:
                        continue
                    if all(ok for g, ok in gs) and gs:
                        return R.bad("every-type", cons, "the export (%s) raises %s" % (mname, exc_name(p.outcome[1])), tree.loc, trace(p))
                    continue
                if not p.returns or C.possible(p.guards) is False:
                    continue
                shown = None
                attached = set()
                for e, nest in events(p.events):
                    if e.kind == "mut" and not e.a[0].op == "obj":
                        xs = list(e.a[2])
                    elif e.kind == "call":
                        xs = [y for y in e.a[1]] + [v for k, v in e.a[2]]
                    else:
                        continue
                    if C.possible(tuple(g for li, lp in nest for g in lp.guards)) is False:
                        continue
                    for x in xs:
                        if isinstance(x, T):
                            try:
                                for v, g in resolve(en, p.st, x):
                                    v = en.freeze(v, p.st)
                                    attached.add(tag_of(v))
                                    if v.op in ("list", "set"):
                                        attached |= {tag_of(m) for m, g in seg_members(v.a[0])}
                            except Cannot:
                                attached.add(None)
                for what, v, e, nest in elements(en, p):
                    gs = tuple(g for li, lp in nest for g in lp.guards)
                    here = C.possible(gs)
                    if here is False:
                        continue
                    vals = []
                    if what == "attrs":
                        for m, g in C.alts(v):
                            if m.op != "map":
                                raise Cannot("attributes %s" % show(m)[:80])
                            vals += [x[1] for x, gs2 in seg_members(m.a[0]) if C.possible(gs2) is not False]
                    else:
                        vals = [v]
                    for x in vals:
                        al = C.alts(x)
                        if not al:
                            continue
                        n += 1
                        if any(encoded_type(en, y) for y, g in al):
                            d = next((r for r in (C.dirty(y) for y, g in al if not encoded_type(en, y)) if r), "")
                        else:
                            d = C.dirty(x) if not encoded_type(en, x) else ""
                        if d:
                            return R.bad("clean", cons, "%s is written into the XML tree without filtering forbidden characters (%s)" % (d, mname), e.loc, trace(p, 6))
                        if all(text_typed(en, p.st, y) is False for y, g in al):
                            return R.bad("clean", cons, "%s is not a string: the tree cannot be serialised (%s)" % (show(x)[:100], mname), e.loc, trace(p, 6))
                        if any(C.is_value(z) for y, g in al for z in walk(y)):
                            fixed = not show(e.a[0]).endswith(".Element") or None in attached or tag_of(e.a[3]) in attached
                            if fixed:
                                shown = shown if shown is True else (here if all(g for y, g in al) else None)
                                if shown is None:
                                    shown = "maybe"
                if shown is None and not any(g.op in ("loopbroke",) for g, w in p.guards):
                    if any(e.kind == "loop" for e in p.events):
                        return R.bad("represented", cons, "nothing in the tree is computed from it (%s)" % mname, tree.loc, trace(p, 8))
                if shown == "maybe":
                    und = und or "its output is written conditionally"
        for rule in ("every-type", "represented", "clean"):
            if und and rule != "clean":
                R.unknown(rule, cons, und, tree.loc)
            else:
                R.good(rule, cons, "4 modes, %d attribute values" % n, tree.loc)
    for k in sorted(NODES):
        for c in NODES[k]:
            R.guarded("every-type", "%s value of class %s" % (k, c), lambda k=k, c=c: one(k, c))

    def chars():
        if not patterns:
            return R.unknown("charset", "filter", "no character filter found", tree.loc)
        for pat in sorted(patterns):
            rs = charset(pat, 0)
            if rs is None:
                R.unknown("charset", "filter", "pattern %r is not one character class" % pat, tree.loc)
                continue
            bounds = sorted({x for a, b in LEGAL + rs for x in (a - 1, a, b, b + 1) if 0 <= x <= 0x10FFFF})
            for c in bounds:
                if covers(rs, c) and legal_char(c):
                    return R.bad("charset", "filter", "the permitted character U+%04X is replaced" % c, tree.loc)
                if not covers(rs, c) and not legal_char(c):
                    return R.bad("charset", "filter", "the forbidden character U+%04X is kept" % c, tree.loc)
            R.good("charset", "filter %r" % pat, "%d boundary characters" % len(bounds), tree.loc)
    R.guarded("charset", "filter", chars)
