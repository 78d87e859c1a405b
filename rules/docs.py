"""abstract documents: a specification, the document it describes, and what a decoded document lacks of it"""
import base64
import builtins
from rules.c01 import *

NAMES = {"I32": "i32", "I64": "i64", "F64": "f64", "BOOL": "i1", "STRING": "str", "BINARY": "bin", "SPAN": "span", "NODEREF": "noderef",
         "NODEREF_MANY": "noderef_array", "NODEREF_SPAN": "nodespan", "EXT": "ext"}


class Spec:
    """props; texts: name -> characters; layers: (name, {field: (kind, options)}, [{field: value}])

    values: constants; SPAN (start, stop); NODEREF i; NODEREF_MANY [i]; NODEREF_SPAN (i, j); EXT bytes"""

    def __init__(self, name, props=None, texts=None, layers=()):
        self.name, self.props, self.texts = name, dict(props or {}), dict(texts or {})
        self.layers = {l: (fs, ns) for l, fs, ns in layers}

    def build(self):
        texts = {k: Val("text %s" % k, ["Text"], {"name": k, "text": s}, length=len(s)) for k, s in self.texts.items()}
        nodes = {l: [Val("%s[%d]" % (l, i), ["Node"], {"_id": i, "i": i}, items={}, truth=None) for i in range(len(ns))] for l, (fs, ns) in self.layers.items()}
        layers = {}
        for l, (fs, ns) in self.layers.items():
            types = dict_val({f: Val("type %s" % K, ["DataType"], {"typename": E(K), "options": dict_val(o)}) for f, (K, o) in fs.items()}, "fields of %s" % l)
            sch = Val("schema of %s" % l, ["NodeLayerSchema"], {"fields": types, "name": l})
            slots = list_val(nodes[l], "nodes of %s" % l)
            c = layers[l] = Val("layer %s" % l, ["NodeLayerCollection"], {"name": l, "num": len(ns), "fieldtypes": types, "_schema": sch, "schema": sch, "_nodes": slots},
                                elems=nodes[l], length=len(ns))
            for x, n in zip(nodes[l], ns):
                x.attrs["collection"] = c
                x.items = {f: self.value(fs[f], v, texts, nodes) for f, v in n.items() if v is not None}
                x.mapping, x.length = True, len(x.items)
        ls, ts = dict_val(layers, "layers"), dict_val(texts, "texts")
        return Val("document", ["Document"], {"_layers": ls, "layers": ls, "_texts": ts, "texts": ts, "props": dict_val(self.props, "properties")})

    def value(self, ty, v, texts, nodes):
        K, o = ty
        if K == "SPAN":
            return Val("span %d:%d" % v, ["TextSpan"], {"text": texts[o["context"]], "start": v[0], "stop": v[1], "_start": v[0], "_stop": v[1],
                                                       "start_offset": v[0], "stop_offset": v[1]}, length=v[1] - v[0])
        if K == "NODEREF":
            return nodes[o["layer"]][v]
        if K == "NODEREF_MANY":
            return list_val([nodes[o["layer"]][i] for i in v], "references")
        if K == "NODEREF_SPAN":
            t = nodes[o["layer"]]
            return Val("node span %d:%d" % v, ["NodeSpan"], {"left": t[v[0]], "right": t[v[1]]}, length=v[1] - v[0] + 1)
        if isinstance(v, Spec):
            return v.build()
        if K == "EXT":
            return Val("extension data", ["ExtData"], {"data": v, "type": o["type"]})
        return v

    def cuts(self):
        """text -> boundary offsets in use, with 0 and the length"""
        out = {k: {0, len(s)} for k, s in self.texts.items()}
        for fs, ns in self.layers.values():
            for n in ns:
                for f, v in n.items():
                    if v is not None and fs[f][0] == "SPAN":
                        out[fs[f][1]["context"]].update(v)
        return {k: sorted(s) for k, s in out.items()}

    def wrong(self, m, doc, order=True):
        """None or what is wrong with the document, given what it should be"""
        if not isinstance(doc, Val) or "Document" not in doc.classes:
            raise Cannot("decoded document %r" % (doc,))
        self.m = m
        g = entries(get(m, doc, "props"))
        if dict(g) != self.props:
            return "the properties %s instead of %s" % (show_map(g), show_map(self.props))
        ts = entries(get(m, doc, "texts"))
        r = keys_wrong("texts", ts, self.texts, order)
        if r:
            return r
        for k, t in ts.items():
            s = t.attrs.get("text")
            if isinstance(s, Val):
                raise Cannot("text %r" % (s,))
            if s != self.texts[k]:
                return "text %s is %r instead of %r" % (k, s, self.texts[k])
            if t.attrs.get("name") != k:
                return "text %s has the name %r" % (k, t.attrs.get("name"))
        ls = entries(get(m, doc, "layers"))
        r = keys_wrong("layers", ls, self.layers, order)
        if r:
            return r
        nodes = {l: elements(v.attrs["_nodes"]) for l, v in ls.items()}
        for l, v in ls.items():
            fs, ns = self.layers[l]
            types = entries(v.attrs["schema"].attrs["fields"])
            r = keys_wrong("fields of layer %s" % l, types, fs, order)
            if r:
                return r
            for f, t in types.items():
                if not isinstance(t, Val) or "typename" not in t.attrs:
                    raise Cannot("type of a field: %r" % (t,))
                if t.attrs["typename"] != E(fs[f][0]):
                    return "field %s.%s has the type %s" % (l, f, t.attrs["typename"])
                if dict(entries(t.attrs["options"])) != fs[f][1]:
                    return "field %s.%s has the type options %s instead of %s" % (l, f, show_map(entries(t.attrs["options"])), show_map(fs[f][1]))
            if v.attrs["schema"].attrs.get("name") != l:
                return "layer %s has the name %r" % (l, v.attrs["schema"].attrs.get("name"))
            if len(nodes[l]) != len(ns):
                return "layer %s has %d nodes instead of %d" % (l, len(nodes[l]), len(ns))
            if v.attrs.get("num") != len(ns):
                return "layer %s counts %s nodes instead of %d" % (l, v.attrs.get("num"), len(ns))
            for i, (x, n) in enumerate(zip(nodes[l], ns)):
                if not isinstance(x, Val) or "Node" not in x.classes:
                    raise Cannot("node %r" % (x,))
                if x.attrs.get("collection") is not v:
                    return "node %d of layer %s does not belong to its layer" % (i, l)
                if x.attrs.get("_id") != i:
                    return "node %d of layer %s has the number %r" % (i, l, x.attrs.get("_id"))
                for f, ty in fs.items():
                    r = self.value_wrong(ty, n.get(f), x.items.get(f, ABSENT), ts, nodes)
                    if r:
                        return "field %s of node %d of layer %s %s" % (f, i, l, r)
                extra = set(x.items) - set(fs)
                if extra:
                    return "node %d of layer %s has the field %s" % (i, l, sorted(extra)[0])

    def value_wrong(self, ty, want, got, texts, nodes):
        K, o = ty
        if want is None or K == "NODEREF_MANY" and not want:
            if got is ABSENT or got is None or K == "NODEREF_MANY" and isinstance(got, Val) and got.elems == []:
                return None
            return "has the value %r instead of none" % (got,)
        if got is ABSENT:
            return "has no value"
        if K == "SPAN":
            if not isinstance(got, Val) or "TextSpan" not in got.classes:
                return "is not a span: %r" % (got,)
            if got.attrs.get("text") is not texts[o["context"]]:
                return "is a span of another text"
            a = got.attrs.get("start"), got.attrs.get("stop")
            return None if a == tuple(want) else "is the span [%s:%s] instead of [%d:%d]" % (a + tuple(want))
        if K == "NODEREF":
            return None if got is nodes[o["layer"]][want] else "refers to %r instead of node %d" % (got, want)
        if K == "NODEREF_MANY":
            xs = elements(got)
            return None if len(xs) == len(want) and all(x is nodes[o["layer"]][i] for x, i in zip(xs, want)) else "refers to %r instead of the nodes %r" % (xs, want)
        if K == "NODEREF_SPAN":
            if not isinstance(got, Val) or "NodeSpan" not in got.classes:
                return "is not a node span: %r" % (got,)
            a = got.attrs.get("args") or (got.attrs.get("left"), got.attrs.get("right"))
            t = nodes[o["layer"]]
            return None if len(a) == 2 and a[0] is t[want[0]] and a[1] is t[want[1]] else "is the node span %r instead of %d:%d" % (a, want[0], want[1])
        if isinstance(want, Spec):
            if isinstance(got, Val) and "MsgpackDocumentExt" in got.classes:
                got = self.m.invoke(got, "decode")
            r = want.wrong(self.m, got)
            return "is a document with %s" % r if r else None
        if K == "EXT":
            if not isinstance(got, Val) or "ExtData" not in got.classes:
                return "is not extension data: %r" % (got,)
            a = got.attrs.get("args") or (got.attrs.get("type"), got.attrs.get("data"))
            if len(a) == 2 and a[1] == want and isinstance(a[0], (str, dict)) and a[0] in (o["type"], None):
                return None
            if len(a) != 2 or a[1] != want:
                return "has the data %r instead of %r" % (a[-1], want)
            return None
        if type(got) is type(want) and got == want:
            return None
        if isinstance(got, Val):
            raise Cannot("value %r" % (got,))
        return "is %r instead of %r" % (got, want)


class Absent:
    def __repr__(self):
        return "none"


ABSENT = Absent()


def show_map(d):
    return "{%s}" % ", ".join("%s: %r" % (k, v) for k, v in d.items())


def keys_wrong(what, got, want, order):
    if set(got) != set(want):
        return "the %s %s instead of %s" % (what, sorted(map(str, got)), sorted(want))
    if order and list(got) != list(want):
        return "the %s in the order %s instead of %s" % (what, list(got), list(want))


# ------------------------------------------------------------------ sample documents
def every_kind():
    """a document with every declarable type, set and unset"""
    tok = [{"s": "NN", "at": (0, 2)}, {"at": (2, 5)}, {"s": "", "at": (5, 5)}, {"s": "x"}]
    fs = {"i": ("I32", {}), "l": ("I64", {}), "f": ("F64", {}), "b": ("BOOL", {}), "s": ("STRING", {}), "y": ("BINARY", {}), "at": ("SPAN", {"context": "main"}),
          "r": ("NODEREF", {"layer": "token"}), "rs": ("NODEREF_MANY", {"layer": "token"}), "ns": ("NODEREF_SPAN", {"layer": "token"}), "e": ("EXT", {"type": "x"})}
    a = {"i": 7, "l": 2 ** 40, "f": 1.5, "b": True, "s": "\u00e5", "y": b"\x00\xff", "at": (0, 5), "r": 2, "rs": [3, 0, 0], "ns": (1, 3), "e": b"\x01q"}
    b = {"i": 0, "l": 0, "f": 0.0, "b": False, "s": "", "y": b"", "at": (0, 0), "r": 0, "rs": [], "ns": (0, 0), "e": b""}
    return Spec("every kind", {"lang": "sv", "id": 3}, {"main": "abcde"}, [("token", {"s": ("STRING", {}), "at": ("SPAN", {"context": "main"})}, tok), ("all", fs, [a, {}, b, a])])


def specs():
    S = ("STRING", {})
    ref = lambda l, K="NODEREF": (K, {"layer": l})
    at = lambda t: ("SPAN", {"context": t})
    yield Spec("empty document")
    yield Spec("properties only", {"lang": "en", "n": 1, "none": None, "zero": 0, "blank": "", "false": False})
    yield Spec("texts only", {}, {"main": "abc", "title": ""})
    yield Spec("no nodes", {"a": "b"}, {"t": "x"}, [("one", {}, []), ("two", {"s": S, "r": ref("one")}, [])])
    yield Spec("no fields", {}, {}, [("one", {}, [{}, {}]), ("two", {}, [{}])])
    yield every_kind()
    yield Spec("forward reference", {}, {"main": "abcd", "other": "xyz"},
               [("zz", {"r": ref("aa"), "m": ref("aa", "NODEREF_MANY"), "t": at("other")}, [{"r": 1, "m": [1, 0], "t": (1, 2)}, {"m": [0]}]),
                ("aa", {"own": ref("aa"), "back": ref("zz", "NODEREF_SPAN"), "t": at("main")}, [{"own": 1, "t": (1, 3)}, {"back": (0, 1), "own": 1, "t": (3, 4)}])])
    yield Spec("spans", {}, {"main": "aabbaab", "empty": ""},
               [("a", {"x": at("main"), "y": at("empty"), "z": at("main")}, [{"x": (0, 3), "y": (0, 0), "z": (7, 7)}, {"x": (2, 6)}, {"z": (0, 7)}])])
    yield Spec("defaults", {}, {"main": "ab"}, [("a", {"s": ("STRING", {"default": "d"}), "n": ("I32", {"default": 4})}, [{"s": "x", "n": 0}, {}])])
    yield Spec("many", {}, {"t": "abcdefghij"}, [("l%d" % i, {"s": S, "n": ("I32", {}), "p": ref("l%d" % ((i + 1) % 3))}, [{"s": "v%d" % k, "n": k, "p": k % 2} for k in range(2 + i)]) for i in range(3)])


# ------------------------------------------------------------------ the library
class Json:
    """a JSON text: the value it says"""

    def __init__(self, value):
        self.value = value

    def __repr__(self):
        return "JSON text"

    def __deepcopy__(self, memo):
        return self


def json_value(v, sort=False, path="the document"):
    """the value as JSON data, a new one"""
    if v is None or isinstance(v, (bool, int, float, str)) or isinstance(v, Coded) and v.text:
        return v
    if isinstance(v, Val) and v.mapping and "dict" in v.classes or isinstance(v, dict):
        its = v if isinstance(v, dict) else v.items
        out = {}
        for k, x in its.items():
            if not (k is None or isinstance(k, (str, int, float, bool))):
                if isinstance(k, (bytes, tuple)):
                    raise NotJson("the key %r in %s" % (k, path))
                raise Cannot("JSON key %r" % (k,))
            k = k if isinstance(k, str) else {None: "null", True: "true", False: "false"}.get(k, str(k)) if not isinstance(k, int) or isinstance(k, bool) else str(k)
            out[k] = json_value(x, sort, "%s, %s" % (path, k))
        return dict_val({k: out[k] for k in sorted(out)} if sort else out)
    if isinstance(v, Val) and v.elems is not None and "list" in v.classes:
        return list_val([json_value(x, sort, path) for x in v.elems])
    if isinstance(v, (list, tuple)):
        return list_val([json_value(x, sort, path) for x in v])
    if isinstance(v, Val) and {"set", "frozenset"} & set(v.classes):
        raise NotJson("%s: a set" % path)
    if isinstance(v, (bytes, bytearray, Data, Coded, set, frozenset)) or isinstance(v, Val) and v.classes and set(v.classes) & {"Node", "TextSpan", "Text", "NodeSpan", "ExtData", "Document", "NodeLayerCollection", "DataType"} \
            or isinstance(v, T) and v.op == "enum":
        raise NotJson("%s: %r" % (path, v))
    raise Cannot("JSON of %r" % (v,))


class Coded(Lib):
    """base64 of bytes that are not known"""

    def __init__(self, name, data, text=False):
        Lib.__init__(self, name, ["str" if text else "bytes"])
        self.data, self.text = data, text

    def m_decode(self, m, *a, **kw):
        return Coded("base64 text", self.data, True)

    def m_encode(self, m, *a, **kw):
        return Coded("base64 data", self.data)


class NotJson(Exception):
    """a value JSON has no form for"""


def conversion(n):
    fn = getattr(builtins, n)

    def go(m, *a):
        if all(isinstance(x, (int, float, str, bytes, type(None))) for x in a):
            try:
                return fn(*a)
            except Exception as x:
                raise Fail(type(x).__name__)
        if n == "bytes" and len(a) == 1 and isinstance(a[0], Data):
            return a[0]
        raise Cannot("%s of %r" % (n, a))
    return go


def other(x):
    raise Cannot("base64 of %r" % (x,))


def b64(n):
    fn = getattr(base64, n)

    def go(m, x, *a):
        if isinstance(x, (str, bytes)):
            try:
                return fn(x)
            except Exception as e:
                raise Fail(type(e).__name__)
        if isinstance(x, (Data, Coded)):
            return Coded("base64 data", x) if isinstance(x, Data) and "enc" in n else x.data if isinstance(x, Coded) and "dec" in n else other(x)
        if x is None or isinstance(x, (int, float)) or isinstance(x, Val) and ("ExtData" in x.classes or x.elems is not None or x.mapping):
            raise Fail("TypeError")
        raise Cannot("%s of %r" % (n, x))
    return go


def dumps(m, v, **kw):
    if set(kw) - {"ensure_ascii", "indent", "separators", "sort_keys", "allow_nan"}:
        raise Cannot("json.dumps with %s" % ", ".join(sorted(kw)))
    try:
        return Json(json_value(v, kw.get("sort_keys") is True))
    except NotJson as x:
        m.not_json = str(x)
        raise Fail("TypeError")


def loads(m, s, **kw):
    if kw:
        raise Cannot("json.loads with %s" % ", ".join(sorted(kw)))
    if isinstance(s, Json):
        return json_value(s.value)
    if s is None or isinstance(s, (int, list, dict)):
        raise Fail("TypeError")
    raise Cannot("json.loads of %r" % (s,))


def docs_machine(R, hooks=None, **opts):
    def ext(m, v, type, data):
        v.attrs.update(type=type, data=data, args=(type, data))

    h = {"NodeLayerCollection.validate": lambda m, *a: True, "Document._verify_references": lambda m, *a: None, "NodeLayerCollection.compact": lambda m, v: v, "new:ExtData": ext}
    h.update(hooks or {})
    m = machine1(R, h, **opts)
    m.externals.update({n: conversion(n) for n in ("int", "str", "float", "bytes", "bool")})
    m.externals.update({"base64." + n: b64(n) for n in ("standard_b64encode", "standard_b64decode", "b64encode", "b64decode")})
    m.externals.update({"json.dumps": dumps, "json.loads": loads})
    return m
