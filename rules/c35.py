"""C35: the Python and the Java implementation write and read the same format."""
import os
from rules.c14 import *
import rules.store as store
import java
from java import Java, NoJava, statements, calls, args, literal

QE, QD = "MsgpackCodec.encode", "MsgpackCodec.decode"
KIND_OF = {"INT": "I32", "LONG": "I64", "DOUBLE": "F64", "BOOL": "BOOL", "STRING": "STRING", "BINARY": "BINARY", "SPAN": "SPAN", "EXT": "EXT",
           "NODE": "NODEREF", "NODE_ARRAY": "NODEREF_MANY", "NODE_SPAN": "NODEREF_SPAN"}
WIRE = {"packInt": "int", "packLong": "int", "packShort": "int", "packByte": "int", "packString": "str", "packBoolean": "bool", "packNil": "nil", "packArrayHeader": "array",
        "packMapHeader": "map", "packDouble": "float", "packFloat": "float", "packBinaryHeader": "bin", "writePayload": "raw", "addPayload": "raw",
        "unpackInt": "int", "unpackLong": "int", "unpackShort": "int", "unpackByte": "int", "unpackString": "str", "unpackBoolean": "bool", "unpackNil": "nil", "unpackArrayHeader": "array",
        "unpackMapHeader": "map", "unpackDouble": "float", "unpackFloat": "float", "unpackBinaryHeader": "bin", "readPayload": "raw", "tryUnpackNil": "try-nil", "unpackValue": "value"}
SECTIONS = {"Properties": "properties", "Schema": "schema", "Texts": "texts", "LayerData": "layers", "Layer": "layers"}


def check(R):
    R.rule("types", "every type has the same name in both implementations, and the names are read back as the types they were written for")
    R.rule("magic", "both implementations write the same document magic and the same collection magic, and accept what the other writes")
    R.rule("java-reads", "a document as the Python encoder lays it out, read section by section and value by value as the Java decoder reads, is the document")
    R.rule("java-writes", "a document laid out as the Java encoder lays it out is read by the Python decoder and partial reader as the document")
    J = Sources(R)
    R.guarded("types", "DataTypeName", lambda: types(R, J))
    R.guarded("magic", "collection", lambda: collection(R, J))
    F = None
    try:
        F = Facts(J)
    except NoJava as x:
        for r in ("java-reads", "java-writes", "magic"):
            R.unknown(r, "MsgpackCodec.java", "Java source outside the analysed subset: %s" % x, None)
    if F is not None:
        R.guarded("magic", "document", lambda: document_magic(R, J, F))
        for s in list(specs()):
            R.guarded("java-reads", s.name, lambda: java_reads(R, F, s))
            R.guarded("java-writes", s.name, lambda: java_writes(R, F, s))


class Sources:
    """the Java sources next to the Python package"""

    def __init__(self, R):
        self.files = {}
        self.root = None
        d = os.path.abspath(R.prog.root)
        for i in range(4):
            for sub in ("java/core/src/main/java/se/lth/cs/docria", "../java/core/src/main/java/se/lth/cs/docria"):
                p = os.path.normpath(os.path.join(d, sub))
                if self.root is None and os.path.isdir(p):
                    self.root = p
            d = os.path.dirname(d)
        if self.root is None:
            p = "/repo/java/core/src/main/java/se/lth/cs/docria"
            if os.path.isdir(p):
                self.root = p

    def __call__(self, name):
        if name not in self.files:
            if self.root is None or not os.path.exists(os.path.join(self.root, name)):
                raise NoJava("no %s" % name)
            self.files[name] = Java(os.path.join(self.root, name), "java/core/src/main/java/se/lth/cs/docria/" + name)
        return self.files[name]

    def all(self):
        if self.root is None:
            raise NoJava("no Java sources")
        for d, ds, fs in os.walk(self.root):
            for f in sorted(fs):
                if f.endswith(".java"):
                    yield self(os.path.relpath(os.path.join(d, f), self.root))


def type_names(J):
    """Java constant -> (type name, location)"""
    j = J("DataTypeName.java")
    ts, out = j.ts, {}
    for i, t in enumerate(ts[:-3]):
        if t.kind == "id" and t in set(KIND_OF) | {"NULL"} and ts[i + 1] == "(" and ts[i + 3] == ")" and ts[i + 4] in (",", ";", "{"):
            if literal(ts[i + 2]) is not None:
                out[str(t)] = (literal(ts[i + 2]), "%s:%d" % (j.shown, t.line))
    if not set(KIND_OF) <= set(out):
        raise NoJava("constants %s" % sorted(set(KIND_OF) - set(out)))
    return out


def types(R, J):
    try:
        names = type_names(J)
    except NoJava as x:
        raise Cannot("Java: %s" % x)
    f, = need(R, "DataType.encode")
    for c, K in KIND_OF.items():
        n, loc = names[c]
        m = docs_machine(R)
        got = m.run(f, [Val("type", ["DataType"], {"typename": E(K), "options": dict_val({})})], {})
        if not isinstance(got, str):
            raise Cannot("type name %r" % (got,))
        if got != n:
            R.bad("types", K, "%s is written as %r by the Python and as %r (%s) by the Java implementation" % (K, got, n, loc), f.loc)
        else:
            R.good("types", K, "%r" % n, f.loc)


def magics(j, name=None):
    """(literal compared or written as the magic, location) in a Java file or one method"""
    out = []
    for m in j.methods:
        if name is None or m.name == name:
            for r, n, a, line in calls(m.body):
                if n in ("writePayload", "addPayload") and len(a) >= 2 and literal(a[0]) is not None and "getBytes" in a:
                    out.append(("write", literal(a[0]), "%s:%d" % (j.shown, line)))
                if n == "equals" and r == "Arrays":
                    for x in a:
                        if literal(x) is not None:
                            out.append(("read", literal(x), "%s:%d" % (j.shown, line)))
    return out


def collection(R, J):
    try:
        found = [x for j in J.all() if os.path.basename(os.path.dirname(j.shown)) == "io" for x in magics(j)]
    except NoJava as x:
        raise Cannot("Java: %s" % x)
    if not found:
        raise Cannot("no magic in the Java stream readers and writers")
    m = store.machine(R, {"MsgpackCodec.encode": store.encode})
    s = store.Stream("file", (), ("RawIOBase", "IOBase"))
    f, = need(R, "MsgpackDocumentWriter.__init__")
    g, = need(R, "MsgpackDocumentReader.__init__")
    w = m.new("MsgpackDocumentWriter", s, 2, m.codecs["zip"])
    m.invoke(w, "write", store.document(0))
    m.invoke(w, "flush")
    head, blocks = store.layout(s, m.codecs)
    for how, lit, loc in found:
        b = lit.encode("utf8")
        if how == "read":
            if head[0] == b:
                R.good("magic", "read at %s" % loc, "%r" % lit, f.loc)
            else:
                R.bad("magic", "MsgpackDocumentWriter", "a collection starts with %r where the Java reader at %s expects %r" % (head[0], loc, b), f.loc)
        else:
            m2 = store.machine(R)
            fl = store.File(m2, [[store.Doc("doc0")]], magic=b).stream
            try:
                m2.new("MsgpackDocumentReader", fl)
                R.good("magic", "written at %s" % loc, "%r" % lit, g.loc)
            except Fail as x:
                R.bad("magic", "MsgpackDocumentReader", "a collection that starts with %r, as written at %s, is refused: %s" % (b, loc, x.name), g.loc)


# ------------------------------------------------------------------ facts of the Java codec
class Op:
    def __init__(self, name, a, var, line, expr):
        self.name, self.wire, self.args, self.var, self.line, self.expr = name, WIRE[name], a, var, line, expr


class Lin:
    """a linear form: symbol -> factor"""

    def __init__(self, d):
        self.d = {k: v for k, v in d.items() if v}

    def at(self, env):
        return sum(v * (env[k] if k else 1) for k, v in self.d.items())


def lin(ts, env, reads):
    """the linear form of an expression; each read of an integer is the next of reads"""
    out, sign, i, cur = {}, 1, 0, []

    def flush():
        nonlocal cur
        if not cur:
            raise NoJava("expression %s" % java.text(ts))
        t = java.text(cur)
        cs = [n for r, n, a, l in calls(cur)]
        while cur[0] == "(" and java.close(cur, 0) == len(cur) - 1:
            cur = cur[1:-1]
            t = java.text(cur)
        if len(cur) > 1 and any(x in ("+", "-") for x in cur) and not cs:
            d = lin(cur, env, reads).d
        elif len(cs) == 1 and WIRE.get(cs[0]) == "int" and not any(x in cur for x in ("*", "/")):
            d = {reads.pop(0): 1}
        elif t in env:
            d = env[t].d
        elif t.isdigit():
            d = {"": int(t)}
        else:
            raise NoJava("expression %s" % t)
        for k, v in d.items():
            out[k] = out.get(k, 0) + sign * v
        cur = []
    while i < len(ts):
        if ts[i] in ("+", "-") and cur:
            flush()
            sign = 1 if ts[i] == "+" else -1
            i += 1
            continue
        j = java.close(ts, i) + 1 if ts[i] in ("(", "[") else i + 1
        cur += ts[i:j]
        i = j
    flush()
    return Lin(out)


def simple(ts):
    """(variable or None, expression) of a statement"""
    d = 0
    for i, t in enumerate(ts):
        if t in ("(", "[", "{"):
            d += 1
        elif t in (")", "]", "}"):
            d -= 1
        elif t == "=" and not d and i and ts[i - 1].kind == "id":
            return str(ts[i - 1]), ts[i + 1:]
    return None, ts


def ops(st):
    """the operations of a straight piece of code, in order"""
    out = []
    for x in st:
        if x[0] != "expr":
            raise NoJava("not straight")
        var, e = simple(x[1])
        for r, n, a, line in calls(e):
            if n in WIRE:
                out.append(Op(n, a, var, line, e))
    return out


def flat(st):
    """all operations of a piece of code in textual order, whatever the control flow"""
    out = []
    for x in st:
        if x[0] == "expr":
            var, e = simple(x[1])
            out += [Op(n, a, var, line, e) for r, n, a, line in calls(e) if n in WIRE]
        elif x[0] == "switch":
            for l, b in x[2]:
                out += flat(b)
        elif x[0] == "if":
            out += [Op(n, a, None, line, x[1]) for r, n, a, line in calls(x[1]) if n in WIRE] + flat(x[2]) + flat(x[3])
        else:
            out += flat(x[2])
    return out


def inner_switch(st):
    for x in st:
        if x[0] == "switch":
            return x
        if x[0] in ("loop", "if"):
            r = inner_switch(x[2])
            if r is not None:
                return r
            if x[0] == "if":
                r = inner_switch(x[3])
                if r is not None:
                    return r


def loop_in(st):
    for x in st:
        if x[0] == "loop":
            return x
        if x[0] == "if":
            for b in (x[2], x[3]):
                if loop_in(b):
                    return loop_in(b)


class Facts:
    def __init__(self, J):
        self.j = j = J("MsgpackCodec.java")
        self.enc, self.dec = j.find("encode"), [m for m in j.methods if m.name == "decode" and m.params[:1] == ["MessageUnpacker"]]
        if len(self.dec) != 1:
            raise NoJava("no decode(MessageUnpacker)")
        self.dec = self.dec[0]
        self.magics = [x for x in magics(j)]
        try:
            self.magics += magics(J("MsgpackDocument.java"))
        except NoJava:
            pass
        w = [x for x in self.magics if x[0] == "write"]
        if len(w) != 1:
            raise NoJava("document magic")
        self.magic = w[0][1].encode("utf8")
        self.order_w = self.sections(self.enc, "encode")
        self.order_r = self.sections(self.dec, "decode")
        first = flat(statements(self.enc.body))[:1]
        if not first or first[0].wire != "raw":
            raise NoJava("start of encode")
        # how the sections are laid out
        self.seq("encodeProperties", ["map", "str"], sized=True)
        self.schema_w = self.seq("encodeSchema", ["array", "str", "int", "str", "bool", "str", "bool", "str", "map", "str"])
        self.seq("encodeTexts", ["map", "str", "array", "str"], sized=True)
        self.seq("decodeTexts", ["int", "map", "str", "array", "str"])
        self.seq("decodeSchema", ["array", "str", "int", "str", "bool", "str", "map", "str", "value"])
        self.names = type_names(J)
        # columns
        lw = statements(j.find("encodeLayerData").body)
        head = [o.wire for o in flat(lw) if o.wire in ("int", "bool")][:2]
        if head != ["int", "bool"] or "size" not in flat(lw)[0].args:
            raise NoJava("start of a layer")
        sw = inner_switch(lw)
        if sw is None:
            raise NoJava("columns")
        sp = [b for l, b in sw[2] if "SPAN" in l]
        if len(sp) != 1:
            raise NoJava("columns of spans")
        o = flat(sp[0])
        if [x.wire for x in o] != ["array", "nil", "nil", "int", "int"] or java.text(o[0].args).replace("layer.size()", "n") not in ("n*2", "2*n"):
            raise NoJava("columns of spans")
        self.span_w = [self.offsets(x.args) for x in o[3:]]
        vw = lambda p: flat(statements(j.find("accept", "ValueWriter", p).body))
        o = vw("NodeSpan")
        if [x.wire for x in o] != ["array", "int", "int"] or java.text(o[0].args) != "2":
            raise NoJava("writing node spans")
        env = {}
        for p in ("value.", "value.get", "value."):
            for s in ("left", "right"):
                for t in ("value.%s.id", "value.%s().id", "value.%s.id()"):
                    env[t % s] = Lin({s: 1})
        self.nodespan_w = [lin(x.args, env, []) for x in o[1:]]
        o = vw("Node")
        if [x.wire for x in o] != ["int"]:
            raise NoJava("writing references")
        self.node_w = lin(o[0].args, {"value.id": Lin({"id": 1})}, [])
        o = vw("NodeArrayValue")
        if [x.wire for x in o] != ["array", "int"]:
            raise NoJava("writing arrays of references")
        self.array_w = lin(o[1].args, {"nodes[i].id": Lin({"id": 1}), "node.id": Lin({"id": 1}), "nodes[k].id": Lin({"id": 1})}, [])
        lr = statements(j.find("decodeLayer").body)
        o = flat(lr)
        if [x.wire for x in o[:4]] != ["int", "int", "bool", "array"]:
            raise NoJava("reading layers")
        sw = inner_switch(lr)
        case = lambda c: [b for l, b in sw[2] if c in l]
        self.span_r = self.reader(case("SPAN"), ("unsafeSpanFromOffset",), True)
        self.nodespan_r = self.reader(case("NODE_SPAN"), ("NodeSpanPlaceholder", "NodeSpan"), False)
        self.node_r = case("NODE")
        o = flat(self.node_r[0]) if self.node_r else []
        if [x.wire for x in o] != ["try-nil", "int"]:
            raise NoJava("reading references")
        a = [y for r, n, y, l in calls(o[1].expr) if n == "put"]
        if len(a) != 1:
            raise NoJava("reading references")
        self.node_r = lin(args(a[0])[1], {}, ["r0"])
        o = flat(case("NODE_ARRAY")[0])
        if [x.wire for x in o] != ["try-nil", "array", "int"]:
            raise NoJava("reading arrays of references")
        self.array_r = lin(o[2].expr if o[2].var or "=" not in o[2].expr else o[2].expr[o[2].expr.index("=") + 1:], {}, ["r0"])

    def sections(self, m, p):
        out = []
        for r, n, a, line in calls(m.body):
            if r is None and n.startswith(p) and n[len(p):] in SECTIONS:
                out.append(SECTIONS[n[len(p):]])
        if sorted(out) != ["layers", "properties", "schema", "texts"]:
            raise NoJava("sections of %s: %s" % (m.name, out))
        return out

    def seq(self, name, want, sized=False):
        o = flat(statements(self.j.find(name).body))
        got = [x.wire for x in o]
        if got != want + (["int", "raw"] if sized else []):
            raise NoJava("operations of %s: %s" % (name, got))
        return o

    def offsets(self, a):
        t = java.text(a)
        for s in ("start", "stop"):
            if t in ("span.%sOffset().id" % s, "span.%s.id" % s, "span.%s().id" % s):
                return Lin({s: 1})
        return lin(a, {"span.%sOffset().id" % s: Lin({s: 1}) for s in ("start", "stop")}, [])

    def reader(self, bodies, ctor, flat2):
        """how two integers read become the two ends"""
        if len(bodies) != 1:
            raise NoJava("case")
        lp = loop_in(bodies[0])
        if lp is None:
            raise NoJava("loop")
        i = [x for x in lp[2] if x[0] == "if"]
        if len(i) != 1 or java.text(i[0][1]) not in ("!unpacker.tryUnpackNil()",):
            raise NoJava("reading %s" % ctor[0])
        nils = [x.wire for x in flat(i[0][3])]
        if nils != (["nil"] if flat2 else []):
            raise NoJava("unset values of %s" % ctor[0])
        env, n, want = {}, 0, (["int", "int"] if flat2 else ["array", "int", "int"])
        if [x.wire for x in flat(i[0][2])] != want:
            raise NoJava("reading %s" % ctor[0])
        for x in i[0][2]:
            if x[0] != "expr":
                raise NoJava("reading %s" % ctor[0])
            var, e = simple(x[1])
            cs = [c for c in calls(e) if c[1] in WIRE]
            if var and cs and WIRE[cs[0][1]] == "int":
                env[var] = lin(e, env, ["r%d" % (n + k) for k in range(len(cs))])
                n += len(cs)
            for r, nm, a, l in calls(e):
                if nm in ctor:
                    out = []
                    for y in args(a):
                        g = [c for c in calls(y) if c[1] == "get"]
                        out.append(lin(g[0][2] if g else y, env, ["r%d" % (n + k) for k in range(2)]))
                    if len(out) == 2:
                        return out
        raise NoJava("reading %s" % ctor[0])


def document_magic(R, J, F):
    f, = need(R, QE)
    m = docs_machine(R)
    r = as_parts(m.run(f, [Spec("empty").build()], {}))
    got, n = b"", 0
    for x in r:
        if not (x.raw and isinstance(x.value, bytes)):
            break
        got += x.value
    if not got:
        raise Cannot("no magic in the encoded document")
    for how, lit, loc in F.magics:
        b = lit.encode("utf8")
        if how == "read":
            (R.good if got == b else R.bad)("magic", "document read at %s" % loc if got == b else QE,
                                            "%r" % b if got == b else "a document starts with %r where %s expects %r" % (got, loc, b), f.loc)


# ------------------------------------------------------------------ the Java decoder
def java_reads(R, F, s):
    f, = need(R, QE)
    m = docs_machine(R)
    m.last = None
    try:
        data = m.run(f, [s.build()], {})
    except Fail as x:
        raise Cannot("encoding fails with %s" % x.name)
    its = []
    for x in as_parts(data):
        if x.raw and its and its[-1].raw and isinstance(x.value, bytes):
            its[-1] = Item(its[-1].value + x.value, its[-1].width + x.width, raw=True)
        else:
            its.append(x)
    try:
        why = read(m, F, s, its)
    except Wrong as x:
        why = str(x)
    if why:
        return R.bad("java-reads", QE, "%s: %s" % (s.name, why), f.loc, trace=tr(m))
    R.good("java-reads", s.name, "%d items" % len(its), f.loc)


class Reading:
    def __init__(self, its):
        self.its, self.at = its, 0

    def take(self, kind, what):
        if self.at >= len(self.its):
            raise Wrong("the document ends before %s" % what)
        x = self.its[self.at]
        self.at += 1
        v = x.value
        ok = {"int": isinstance(v, int) and not isinstance(v, bool), "str": isinstance(v, str), "bool": isinstance(v, bool), "map": isinstance(v, Hdr),
              "array": isinstance(v, Val) and v.elems is not None or isinstance(v, (list, tuple)), "any": True}[kind]
        if x.raw or not ok:
            if not x.raw and isinstance(v, (Val, T)) and kind != "array" and not (isinstance(v, Val) and (v.elems is not None or v.mapping)):
                raise Cannot("%s: %r" % (what, v))
            raise Wrong("%s is %s where the Java decoder reads %s" % (what, describe(x), kind))
        return elements(v) if kind == "array" else v


def read(m, F, s, its):
    r = Reading(its)
    if not its or not its[0].raw or its[0].value != F.magic:
        raise Wrong("no magic %r at the start" % (F.magic,))
    r.at = 1
    names, cuts = None, s.cuts()
    spans = {}
    fields = {}
    for sec in F.order_r:
        if sec == "properties":
            r.take("int", "the length of the properties")
            n = r.take("map", "the properties").n
            got = {r.take("str", "a property name"): r.take("any", "a property value") for i in range(n)}
            if got != s.props:
                raise Wrong("the properties %s instead of %s" % (got, s.props))
        elif sec == "schema":
            names = r.take("array", "the layer names")
            if list(names) != list(s.layers):
                raise Wrong("the layers %s instead of %s" % (names, list(s.layers)))
            for l in names:
                n = r.take("int", "the number of fields of %s" % l)
                fields[l] = []
                for i in range(n):
                    k = r.take("str", "a field name of %s" % l)
                    ext = r.take("bool", "the argument flag of %s.%s" % (l, k))
                    t = r.take("str", "the type of %s.%s" % (l, k))
                    a = {}
                    if ext:
                        for q in range(r.take("map", "the type arguments of %s.%s" % (l, k)).n):
                            key = r.take("str", "a type argument of %s.%s" % (l, k))
                            a[key] = r.take("any", "a type argument of %s.%s" % (l, k))
                    fields[l].append((k, t, a))
                want = [(k, F.names[{v: c for c, v in KIND_OF.items()}[K]][0], o) for k, (K, o) in s.layers[l][0].items()]
                if fields[l] != want:
                    raise Wrong("the fields %s of layer %s instead of %s" % (fields[l], l, want))
        elif sec == "texts":
            r.take("int", "the length of the texts")
            n = r.take("map", "the texts").n
            for i in range(n):
                k = r.take("str", "a text name")
                ps = r.take("array", "the pieces of text %s" % k)
                if not all(isinstance(p, str) for p in ps):
                    raise Cannot("pieces %r" % (ps,))
                at = [0]
                for p in ps:
                    at.append(at[-1] + len(p))
                spans[k] = at
                if "".join(ps) != s.texts.get(k):
                    raise Wrong("text %s is %r" % (k, "".join(ps)))
        else:
            if names is None:
                raise Wrong("the layers are read before their schema")
            for l in names:
                r.take("int", "the length of layer %s" % l)
                n = r.take("int", "the node count of layer %s" % l)
                fs, ns = s.layers[l]
                if n != len(ns):
                    raise Wrong("layer %s has %d nodes instead of %d" % (l, n, len(ns)))
                for k in fs:
                    if r.take("bool", "the column flag of %s.%s" % (l, k)):
                        raise Wrong("column %s.%s is marked as specialized" % (l, k))
                    col = [elements(v) if isinstance(v, Val) and v.elems is not None else v for v in r.take("array", "column %s.%s" % (l, k))]
                    w = column_wrong(F, s, spans, fs[k], [x.get(k) for x in ns], col)
                    if w:
                        return "column %s.%s: %s" % (l, k, w)
    if r.at < len(its):
        raise Wrong("%s follows the last layer" % describe(its[r.at]))


def column_wrong(F, s, spans, ty, want, col):
    K, o = ty
    if K == "SPAN":
        at, i = spans[o["context"]], 0
        for n, v in enumerate(want):
            if i + 1 >= len(col):
                return "ends before the span of node %d" % n
            a, b = col[i:i + 2]
            i += 2
            if a is None or v is None:
                if not (a is None and b is None and v is None):
                    return "node %d has the offsets %r, %r" % (n, a, b)
                continue
            got = ints((a, b), F.span_r)
            if any(x < 0 or x >= len(at) for x in got) or tuple(at[x] for x in got) != tuple(v):
                return "the Java decoder reads %s, %s of node %d as the offsets %s of %s, not the span %d:%d" % (a, b, n, got, at, v[0], v[1])
        return "%d values too many" % (len(col) - i) if i < len(col) else None
    if len(col) != len(want):
        return "%d values for %d nodes" % (len(col), len(want))
    for n, (v, x) in enumerate(zip(want, col)):
        if x is None or v is None:
            if x is None and v is None or K == "NODEREF_MANY" and not v and not x:
                continue
            return "node %d has %r instead of %r" % (n, x, v)
        if K == "NODEREF":
            got = F.node_r.at({"r0": ints((x,))[0]})
        elif K == "NODEREF_MANY":
            got = [F.array_r.at({"r0": y}) for y in ints(x)]
        elif K == "NODEREF_SPAN":
            if not isinstance(x, (list, tuple)) or len(x) != 2:
                return "node %d has %r for a node span" % (n, x)
            got = tuple(ints(x, F.nodespan_r))
        elif K == "EXT" or isinstance(v, Spec):
            continue
        else:
            got = x
        if got != v:
            return "the Java decoder reads %r of node %d as %r instead of %r" % (x, n, got, v)


def ints(xs, forms=None):
    if not isinstance(xs, (list, tuple)):
        raise Wrong("%r where the Java decoder reads an array" % (xs,))
    for x in xs:
        if isinstance(x, (Val, T)):
            raise Cannot("value %r" % (x,))
        if not isinstance(x, int):
            raise Wrong("%r where the Java decoder reads an integer" % (x,))
    return [f.at({"r%d" % i: x for i, x in enumerate(xs)}) for f in forms] if forms else list(xs)


# ------------------------------------------------------------------ the Java encoder
def written(m, F, s):
    cuts = s.cuts()
    it = lambda v: Item(v, m.width(frozen_list(v)))
    const = {v: c for c, v in KIND_OF.items()}

    def block(its):
        n = sum(x.width for x in its)
        return [Item(n, m.width(n))] + its
    out = [Item(F.magic, len(F.magic), raw=True)]
    for sec in F.order_w:
        if sec == "properties":
            out += block(items_of(m, dict_val(s.props)))
        elif sec == "schema":
            out.append(it(list_val(list(s.layers))))
            for l, (fs, ns) in s.layers.items():
                out.append(it(len(fs)))
                for k, (K, o) in fs.items():
                    out += [it(k), it(bool(o)), it(F.names[const[K]][0])]
                    if o:
                        out += items_of(m, dict_val(o))
        elif sec == "texts":
            out += block(items_of(m, dict_val({k: list_val([t[a:b] for a, b in zip(cuts[k], cuts[k][1:])]) for k, t in s.texts.items()})))
        else:
            for l, (fs, ns) in s.layers.items():
                its = [it(len(ns))]
                for k, (K, o) in fs.items():
                    its.append(it(False))
                    its.append(it(list_val(java_column(F, K, o, [n.get(k) for n in ns], cuts))))
                out += block(its)
    return Data(out)


def java_column(F, K, o, vs, cuts):
    out = []
    for v in vs:
        if K == "SPAN":
            if v is None:
                out += [None, None]
            else:
                env = {"start": cuts[o["context"]].index(v[0]), "stop": cuts[o["context"]].index(v[1])}
                out += [x.at(env) for x in F.span_w]
        elif v is None:
            out.append(None)
        elif K == "NODEREF":
            out.append(F.node_w.at({"id": v}))
        elif K == "NODEREF_MANY":
            out.append(list_val([F.array_w.at({"id": i}) for i in v]))
        elif K == "NODEREF_SPAN":
            out.append(list_val([x.at({"left": v[0], "right": v[1]}) for x in F.nodespan_w]))
        else:
            out.append(v)
    return out


def java_writes(R, F, s):
    f, = need(R, QD)
    if F.order_w != F.order_r:
        return R.bad("java-writes", QD, "the Java encoder writes the sections in the order %s, the decoders read %s" % (", ".join(F.order_w), ", ".join(F.order_r)), F.j.loc(F.enc))
    for q, loc in ((QD, f.loc), (QP, loc_of(R, QP))):
        m = docs_machine(R)
        data = written(m, F, s)

        def back():
            return s.wrong(m, m.run(f, [data], {}) if q == QD else m.invoke(m.new(QP, data), "document"))
        why = judged(m, back)
        if why:
            R.bad("java-writes", q, "%s as written by the Java encoder: read with %s" % (s.name, why), loc, trace=tr(m))
        else:
            R.good("java-writes", s.name, q, loc)
