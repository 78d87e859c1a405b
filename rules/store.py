"""The abstract collection file the collection rules are evaluated on."""
import copy
from rules.common import *
from machine import *


class Doc(Val):
    """the encoded form of one document"""

    def __init__(self, name):
        Val.__init__(self, name, ["bytes"], length=None)

    def __deepcopy__(self, memo):
        return self


class Packed(Lib):
    """what a compression codec makes of some data"""

    def __init__(self, codec, payload):
        Lib.__init__(self, "%s(%r)" % (codec, payload), ["bytes"])
        self.codec, self.payload = codec, payload

    def __deepcopy__(self, memo):
        return self


def codec(name, dec=None):
    """a compression codec; its inverse is the codec registered under its name"""
    def comp(m, x):
        for k, v in made.items():
            if k[0] == name and same(v.payload, x):
                return v
        v = made[(name, len(made))] = Packed(name, x)
        return v

    def decomp(m, x):
        if not isinstance(x, Packed):
            raise Fail("error")
        if x.codec != name:
            raise Fail("error")
        return x.payload
    made = {}
    return Val("codec %s" % name, ["CompressionCodec"], {"name": name, "compress": Fn("compress", comp), "decompress": Fn("decompress", decomp)})


NAMES = ("zip", "lzma")


def codecs():
    return {n: codec(n) for n in NAMES}


class File:
    """a file holding blocks of documents, with the true position of everything"""

    def __init__(self, m, blocks, cname="zip", ndocs=2, magic=b"Dmf1", advanced=False, codec_of=None):
        self.m = m
        self.codecs = m.codecs
        parts = [Item(magic, len(magic), raw=True)] + [Item(v, m.width(v)) for v in (cname, ndocs, advanced)]
        pos = sum(x.width for x in parts)
        self.first = pos
        self.where = {}          # doc -> (block position, position in block)
        self.blocks = []         # (position, [docs])
        for docs in blocks:
            inner, at = [], 0
            for d in docs:
                w = m.width(d)
                self.where[d] = (pos, at)
                inner.append(Item(d, w))
                at += w
            self.blocks.append((pos, list(docs)))
            v = self.codecs[cname if cname in self.codecs else "zip"].attrs["compress"].fn(m, Data(inner))
            x = Item(v, m.width(v))
            parts.append(x)
            pos += x.width
        self.end = pos
        self.stream = Stream("file", parts, ("RawIOBase", "IOBase"))


def machine(R, hooks=None, **opts):
    cs = codecs()

    def get_codec(m, name, no_except=False):
        if name in cs:
            return cs[name]
        if no_except:
            return None
        raise Fail("NotImplementedError")

    def doc(m, v, data=None, ref=None, **kw):
        m.put(v, "data", data)
        m.put(v, "ref", ref)
    h = {"get_codec": get_codec, "new:MsgpackDocument": doc, "default:codec": cs["zip"]}
    h.update(hooks or {})
    m = Machine(R, h, opaque_new=("MsgpackDocument",), **opts)
    m.codecs = cs
    return m


def key_of(v, seen=None, d=0):
    """the part of an abstract state that can influence later operations"""
    if isinstance(v, Stream):
        return ("stream", v.name, v.attrs["pos"], v.attrs["closed"], tuple(repr(x) for x in v.attrs["items"]))
    if isinstance(v, Unpacker):
        s = v.attrs["stream"]
        stale = v.attrs["base"] is not None and isinstance(s, Stream) and v.attrs["epoch"] != s.attrs["epoch"]
        return ("unpacker", key_of(s), v.attrs["base"], v.attrs["used"], stale)
    if isinstance(v, (Doc, Packed, Fn)):
        return v.name
    if isinstance(v, Val):
        if d > 6:
            raise Cannot("depth of the state")
        return (v.name, tuple(sorted(v.classes)), tuple((k, key_of(x, seen, d + 1)) for k, x in sorted(v.attrs.items())),
                tuple((key_of(k), key_of(x, seen, d + 1)) for k, x in v.items.items()), None if v.elems is None else tuple(key_of(x, seen, d + 1) for x in v.elems))
    if isinstance(v, (tuple, list)):
        return tuple(key_of(x, seen, d + 1) for x in v)
    if isinstance(v, T):
        return show(v)
    return (type(v).__name__, repr(v))


class Raw(Lib):
    def __init__(self, doc):
        Lib.__init__(self, "raw %s" % doc, ["BytesIO", "IOBase"], doc=doc, at0=False)

    def m_getvalue(self, m):
        return self.attrs["doc"]

    def m_read(self, m, n=-1):
        # its position is wherever the last partial access left it
        if n not in (-1, None):
            raise Cannot("partial read")
        if not self.attrs["at0"]:
            return GARBAGE
        m.put(self, "at0", False)
        return self.attrs["doc"]

    def m_seek(self, m, pos, whence=0):
        m.put(self, "at0", pos == 0)
        return pos

    def m_tell(self, m):
        raise Cannot("position of the document")

    def m_getbuffer(self, m):
        return self.attrs["doc"]


def encode(m, doc, **kw):
    if "encoded" in doc.attrs:
        return doc.attrs["encoded"]
    raise Cannot("encoding %r" % (doc,))


def document(i, raw=False):
    """a document to write, given decoded or encoded; its encoded form is doc.attrs["encoded"]"""
    d = Doc("doc%d" % i)
    if raw:
        return Val("encoded doc%d" % i, ["MsgpackDocument"], {"rawdata": Raw(d), "encoded": d})
    return Val("document %d" % i, ["Document"], {"encoded": d})


def layout(stream, codecs, header=True):
    """(header values, [[docs] per block]) of what is in the file; raises Wrong"""
    its = list(stream.attrs["items"])
    if not its or not its[0].raw:
        raise Wrong("the file does not start with the magic")
    magic = its.pop(0).value
    if len(its) < 3 or any(x.raw for x in its):
        raise Wrong("the file holds %s after the magic" % (its,))
    head = (magic,) + tuple(x.value for x in its[:3])
    out = []
    for x in its[3:]:
        v = x.value
        if not isinstance(v, Packed):
            raise Wrong("a block is stored as %r" % (v,))
        if v.codec != head[1]:
            raise Wrong("a block is compressed with %s in a file of codec %s" % (v.codec, head[1]))
        docs = []
        for y in as_parts(v.payload):
            if not isinstance(y.value, Doc) or y.raw:
                raise Wrong("a block holds %r" % (y.value,))
            docs.append(y.value)
        out.append(docs)
    return head, out


class Wrong(Exception):
    pass
