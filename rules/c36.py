"""C36: decoding an encoded document gives the document back, through every codec and way of access."""
from rules.c14 import *


def check(R):
    R.rule("binary", "encoding with the MessagePack codec and decoding gives the same properties, texts, layers, schema, nodes and values, in the same order")
    R.rule("partial", "the same through the partially decoding document")
    R.rule("json", "the same through the JSON codec")
    for rule, e, d in (("binary", "MsgpackCodec.encode", "MsgpackCodec.decode"), ("json", QE, QD), ("partial", "MsgpackCodec.encode", None)):
        R.guarded(rule, e, lambda: trip(R, rule, e, d))


def trip(R, rule, qe, qd):
    e, = need(R, qe)
    f = need(R, qd)[0] if qd else None
    for s in list(specs()) + [nested()] + more_specs(R.tier):
        R.guarded(rule, qd or QP, lambda: one(R, rule, e, f, s))


def one(R, rule, e, f, s):
    q, loc = (f.qual, f.loc) if f else (QP, loc_of(R, QP))
    m = docs_machine(R)
    try:
        data = m.run(e, [s.build()], {})
    except Fail as x:
        return R.bad(rule, e.qual, "%s: encoding fails with %s" % (s.name, x.name), e.loc, trace=tr(m))

    def back():
        if f is not None:
            return s.wrong(m, m.run(f, [data], {}))
        return s.wrong(m, m.invoke(m.new(QP, data), "document"))
    why = judged(m, back)
    if why:
        return R.bad(rule, q, "%s: after a round trip %s" % (s.name, why), loc, trace=tr(m))
    R.good(rule, q, s.name, loc)


def more_specs(tier):
    out = []
    if tier == "thorough":
        for k in range(1, 5):
            text = "abcdefgh"[:k]
            spans = [{"x": (i, j), "p": (i * 7 + j) % 3} for i in range(k + 1) for j in range(i, k + 1)]
            out.append(Spec("all spans of %d characters" % k, {"k": k}, {"t": text, "u": text[::-1]},
                            [("s", {"x": ("SPAN", {"context": "t"}), "p": ("NODEREF", {"layer": "n"})}, spans),
                             ("n", {"q": ("NODEREF_SPAN", {"layer": "s"}), "m": ("NODEREF_MANY", {"layer": "s"})},
                              [{"q": (i, len(spans) - 1), "m": list(range(i, -1, -1))} for i in range(min(len(spans), 3))] + [{}] * 2)]))
    return out
