"""C23: pickling a document, or an encoded document, and unpickling it gives the same document, fresh for use."""
from rules.c14 import *
from machine import known

QDOC = "Document"


def check(R):
    R.rule("document", "what a pickled document keeps, restored into an empty object, is the same document: properties, texts, layers, and nothing a new document has is missing")
    R.rule("encoded", "what a pickled encoded document keeps, after any use of it, restored into an empty object, has the same bytes and reference and answers every access from its start")
    R.rule("original", "pickling leaves the pickled document usable")
    for s in list(specs()) + [nested()]:
        R.guarded("document", QDOC, lambda: document(R, s))
    for s in list(specs())[:3] + [every_kind()]:
        for used in uses(s):
            R.guarded("encoded", QP, lambda: encoded_doc(R, s, used))


def pickled(m, obj):
    """the object pickle restores: only what the state methods carry over"""
    cls = next(c for c in (QDOC, QP) if c in obj.classes)
    if m.method(obj, "__getstate__")[0] is None or m.method(obj, "__setstate__")[0] is None:
        raise Cannot("%s is pickled without state methods" % cls)
    for n in ("__reduce__", "__reduce_ex__", "__getnewargs__"):
        if m.method(obj, n)[0] is not None:
            raise Cannot("%s has %s" % (cls, n))
    state = m.invoke(obj, "__getstate__")
    new = Val("unpickled %s" % cls, [cls])
    new.whole = known(m.prog.classes[cls])
    if state is False or state is None or isinstance(state, Val) and state.mapping and not state.items:
        return new                        # pickle does not call __setstate__
    m.invoke(new, "__setstate__", copied(state))
    return new


def copied(v):
    if isinstance(v, Val) and v.mapping and "dict" in v.classes:
        return dict_val({k: copied(x) for k, x in v.items.items()})
    if isinstance(v, Val) and v.elems is not None and "list" in v.classes:
        return list_val([copied(x) for x in v.elems])
    if isinstance(v, dict):
        return {k: copied(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(copied(x) for x in v)
    if v is None or isinstance(v, (bool, int, float, str, bytes, Data)) or isinstance(v, Val) and v.name == "reference":
        return v
    raise Cannot("pickling of %r" % (v,))


def document(R, s):
    loc = loc_of(R, QDOC)
    m = docs_machine(R)

    def go():
        d = s.build()
        new = pickled(m, d)
        r = s.wrong(m, new)
        if r:
            return r
        r = s.wrong(m, d)
        if r:
            return "the pickled document itself has then " + r
        have = set(m.new(QDOC).attrs)
        if have - set(new.attrs):
            return "no attribute %s" % sorted(have - set(new.attrs))[0]
    why = judged(m, go)
    if why:
        return R.bad("document", QDOC, "%s: the unpickled document %s" % (s.name, why if why.startswith(("fails", "gives")) else "has " + why), loc, trace=tr(m))
    R.good("document", QDOC, s.name, loc)


def uses(s):
    yield ()
    yield ("properties",)
    yield ("schema",)
    yield ("document",)
    yield ("texts", "properties")
    yield ("document", "properties", "texts")


def encoded_doc(R, s, used):
    loc = loc_of(R, QP)
    for source in ("bytes", "document"):
        m = docs_machine(R)
        ref = Val("reference", ["object"])
        e, = need(R, "MsgpackCodec.encode")

        def access(d, what, who):
            r = m.invoke(d, what)
            if what == "document":
                w = s.wrong(m, r)
            elif what == "properties":
                w = None if dict(entries(r)) == s.props else "the properties %s" % show_map(entries(r))
            elif what == "texts":
                w = None if {k: "".join(elements(v)) for k, v in entries(r).items()} == s.texts else "the texts %s" % show_map(entries(r))
            elif what == "schema":
                a, b = r if isinstance(r, tuple) else elements(r)
                w = None if elements(a) == list(s.layers) else "the layers %s" % elements(a)
            else:
                w = None if as_parts(r) == want else "other bytes"
            if w:
                raise Wrong("%s of %s: %s" % (what, who, w))

        def go():
            nonlocal want
            data = m.run(e, [s.build()], {}) if source == "bytes" else s.build()
            d = m.new(QP, data, ref)
            want = as_parts(data if source == "bytes" else m.invoke(d, "binary"))
            for what in used:
                access(d, what, "the encoded document")
            new = pickled(m, d)
            if get(m, new, "ref") is not ref:
                return "loses the reference"
            for what in ("binary", "texts", "document", "properties", "schema", "binary"):
                access(new, what, "the unpickled document")
            for first in ("schema", "document", "texts"):
                access(pickled(m, d), first, "an unpickled document")
            again = pickled(m, new)
            if get(m, again, "ref") is not ref:
                return "loses the reference"
            for what in ("document", "binary"):
                access(again, what, "the document unpickled again")
            for what in ("properties", "texts", "document", "binary"):
                access(d, what, "the encoded document, after pickling")
        want = None
        why = judged(m, go)
        if why:
            rule = "original" if "after pickling" in why else "encoded"
            return R.bad(rule, QP, "%s, made from %s, %s: %s" % (s.name, source, "after " + ", ".join(used) if used else "not yet used", why), loc, trace=tr(m))
    R.good("encoded", QP, "%s: %s" % (s.name, ", ".join(used) or "not used"), loc)
    R.good("original", QP, "%s: %s" % (s.name, ", ".join(used) or "not used"), loc)
