"""C14: the JSON form: everything in it has a JSON form, every section written is read, anything else is rejected."""
from rules.docs import *

QE, QO, QD = "JsonCodec.encode", "JsonCodec.encode_object", "JsonCodec.decode"


def check(R):
    R.rule("representable", "for documents with fields of every declarable type, set and unset, the encoded object consists of what JSON has a form for")
    R.rule("sections", "decoding the encoded text gives every section back: properties, texts, layers with their schema, nodes and values")
    R.rule("rejected", "a JSON text that is not an object, or an object without the marker, is rejected with an error")
    for q, fn in (("representable", representable), ("sections", sections), ("rejected", rejected)):
        R.guarded(q, {"representable": QO}.get(q, QD), lambda: fn(R))


def need(R, *qs):
    fs = [R.prog.func(q) for q in qs]
    for q, f in zip(qs, fs):
        if f is None:
            raise Cannot("no %s" % q)
    return fs


def nested():
    """documents as extension values"""
    inner = Spec("inner", {"k": "v"}, {"t": "xyz"}, [("w", {"at": ("SPAN", {"context": "t"})}, [{"at": (1, 2)}])])
    return Spec("nested document", {}, {}, [("parts", {"doc": ("EXT", {"type": "doc"}), "raw": ("EXT", {"type": "y"})}, [{"doc": inner}, {}, {"raw": b"\x02"}])])


def representable(R):
    f, = need(R, QO)
    for s in list(specs()) + [nested()]:
        R.guarded("representable", QO, lambda: has_form(R, f, s))


def has_form(R, f, s):
    m = docs_machine(R)
    try:
        r = m.run(f, [s.build()], {})
    except Fail as x:
        return R.bad("representable", QO, "%s: fails with %s" % (s.name, x.name), f.loc, trace=tr(m))
    try:
        json_value(r)
    except NotJson as x:
        return R.bad("representable", QO, "%s: JSON has no form for %s" % (s.name, x), f.loc, trace=tr(m))
    R.good("representable", QO, s.name, f.loc)


def sections(R):
    e, f = need(R, QE, QD)
    for s in list(specs()) + [nested()]:
        R.guarded("sections", QD, lambda: comes_back(R, e, f, s))


def comes_back(R, e, f, s):
    m = docs_machine(R)
    try:
        text = m.run(e, [s.build()], {})
    except Fail as x:
        return R.bad("sections", QE, "%s: encoding fails with %s" % (s.name, x.name), e.loc, trace=tr(m))
    why = judged(m, lambda: s.wrong(m, m.run(f, [text], {}), order=False))
    if why:
        return R.bad("sections", QD, "%s: decoding the encoded document %s" % (s.name, why if why.startswith(("fails", "gives", "reads")) else "gives " + why), f.loc, trace=tr(m))
    R.good("sections", QD, s.name, f.loc)


def rejected(R):
    e, f = need(R, QO, QD)
    m = docs_machine(R)
    full = json_value(m.run(e, [every_kind().build()], {}))
    if not (isinstance(full, Val) and full.mapping and len(full.items) == 1):
        raise Cannot("the encoded object %r" % (full,))
    marker, body = next(iter(full.items.items()))
    cases = [("a number", 5), ("nothing (null)", None), ("true", True), ("a text", "x"), ("the marker as a text", marker), ("a text with the marker", "a %s b" % marker), ("an empty array", list_val([])),
             ("an array with the marker", list_val([marker])), ("an array with a document", list_val([full])), ("an empty object", dict_val({})),
             ("the document without the marker", body), ("a document under another marker", dict_val({marker[:-1] + "1": body})),
             ("a document under the marker in lower case", dict_val({marker.lower(): body})), ("an object with the marker as a value", dict_val({"type": marker, "doc": body})),
             ("a fraction", 0.5), ("false", False), ("an empty text", ""), ("zero", 0)]
    for name, v in cases:
        R.guarded("rejected", QD, lambda: refused(R, f, name, v))


def refused(R, f, name, v):
    m = docs_machine(R)
    try:
        m.run(f, [Json(v)], {})
    except (Fail, Raised) as x:
        return R.good("rejected", QD, "%s: %s" % (name, x), f.loc)
    R.bad("rejected", QD, "%s is taken for a document" % name, f.loc, trace=tr(m))
