"""C15: a collection file is the header followed by the compressed blocks, and the reader takes in exactly that."""
from rules.store import *

W, RD = "MsgpackDocumentWriter", "MsgpackDocumentReader"


def check(R):
    R.rule("written", "the file is the magic, then the codec name, the documents per block and a false advanced flag as items, then one item per block: "
           "the compressed concatenation of the packed documents, in writing order")
    R.rule("read-back", "from what the writer emitted, for every codec and block size, the readers hand out every document once, in writing order")
    R.rule("rejected", "a stream that does not start with the magic, names an unknown codec or is marked advanced is rejected by the reader")
    R.rule("named-codec", "a block is decompressed with the codec the header names, whatever the reader was last used for")
    for n in (1, 2, 3):
        for c in NAMES + ("alias",):
            R.guarded("written", "%d documents per block, codec %s" % (n, c), lambda: write_read(R, n, c))
    R.guarded("rejected", RD, lambda: rejected(R))
    R.guarded("named-codec", RD, lambda: named(R))


def the_codec(m, c):
    # a codec registered under another name than the one it writes, as the variants of one compression do
    return codec("zip") if c == "alias" else m.codecs[c]


def write_read(R, n, c):
    what = "%d documents per block, codec %s" % (n, c)
    f = R.prog.func(W + ".__init__")
    g = R.prog.func(RD + ".__next__")
    if f is None or g is None:
        raise Cannot("no writer")
    m = machine(R, {"MsgpackCodec.encode": encode})
    cd = the_codec(m, c)
    docs = [document(i, raw=i == 1) for i in range(5)]
    want = [d.attrs["encoded"] for d in docs]
    s = Stream("file", (), ("RawIOBase", "IOBase"))
    m.last = None
    try:
        w = m.new(W, s, n, cd)
        for i, d in enumerate(docs):
            m.invoke(w, "write", d)
        m.invoke(w, "flush")
    except Fail as z:
        return R.bad("written", what, "writing fails with %s" % z.name, f.loc, trace=trace(m.last) if m.last else None)
    if c == "alias":
        m.codecs["zip"] = cd
    try:
        head, blocks = layout(s, m.codecs)
    except Wrong as x:
        return R.bad("written", what, str(x), f.loc)
    exp = (b"Dmf1", cd.attrs["name"], n, False)
    if [type(x) for x in head] != [type(x) for x in exp] or head != exp:
        return R.bad("written", what, "the header is %s, not %s" % (head, exp), f.loc)
    got = [d for b in blocks for d in b]
    if got != want:
        return R.bad("written", what, "the documents %s are stored as %s" % (want, blocks), R.prog.func(W + ".write").loc)
    if any(len(b) > n for b in blocks):
        return R.bad("written", what, "a block holds more than %d documents: %s" % (n, blocks), R.prog.func(W + ".write").loc)
    R.good("written", what, "%d blocks" % len(blocks), f.loc)
    R.guarded("read-back", what, lambda: read_back(R, m, s, want, what, g))


def data_of(v):
    if not isinstance(v, Val) or "data" not in v.attrs:
        raise Cannot("result %r" % (v,))
    return v.attrs["data"]


def at_start(m, s):
    x = copy.deepcopy(s)
    x.attrs["pos"] = 0
    m.log = []
    return x


def drain(m, rd, limit, take):
    out = []
    for i in range(limit):
        try:
            v = m.next(rd)
        except Fail as z:
            if z.name != "StopIteration":
                raise
            return out
        out.append(take(v))
    return out


def read_back(R, m, s, want, what, g):
    n = 0

    def decode(m, v, *a, **kw):
        return v
    m.hooks["MsgpackDocument.document"] = decode
    ways = {}
    try:
        rd = m.new(RD, at_start(m, s))
        ways["iterating"] = drain(m, rd, len(want) + 2, data_of)
    except Fail as z:
        return R.bad("read-back", what, "reading what was written fails with %s" % z.name, g.loc, trace=trace(m.last) if m.last else None)
    b = R.prog.func(RD + ".blocks")
    if b is not None:
        rd = m.new(RD, at_start(m, s))
        bl, failed = m.generate(b, [rd], {}, RD)
        if failed:
            return R.bad("read-back", what, "reading the blocks fails with %s" % failed, b.loc)
        ways["reading the blocks"] = [x for v in bl for x in drain(m, v, len(want) + 2, data_of)]
    for q in ("DocumentIO.readfile", "MsgpackDocumentIO.readfile"):
        f = R.prog.func(q)
        if f is None:
            continue
        try:
            rd = m.run(f, [at_start(m, s)])
            ways[q] = drain(m, rd, len(want) + 2, data_of)
        except Fail as z:
            return R.bad("read-back", what, "%s fails with %s" % (q, z.name), f.loc)
    for how, got in ways.items():
        if got != want:
            return R.bad("read-back", what, "%s hands out %s of the written documents %s" % (how, got, want), g.loc)
    R.good("read-back", what, ", ".join(ways), g.loc)


def rejected(R):
    f = R.prog.func(RD + ".__init__")
    if f is None:
        raise Cannot("no reader")
    cases = {"another magic": dict(magic=b"Dmf2"), "a longer magic that differs": dict(magic=b"Dmg1"), "a file without a magic": None,
             "an unknown codec": dict(cname="nosuch"), "the advanced flag": dict(advanced=True)}
    for what, kw in cases.items():
        m = machine(R)
        if kw is None:
            s = Stream("file", (), ("RawIOBase", "IOBase"))
        else:
            s = File(m, [[Doc("doc0")]], **kw).stream
        try:
            m.new(RD, s)
            R.bad("rejected", what, "the reader accepts a stream with %s" % what if kw else "the reader accepts an empty file", f.loc)
        except Fail as z:
            R.good("rejected", what, "raises %s" % z.name, f.loc)
        except Cannot as x:
            R.unknown("rejected", what, str(x)[:200], f.loc)


def named(R):
    """two files of different codecs read alternately; seeking keeps the codec"""
    g = R.prog.func(RD + ".readblock") or R.prog.func(RD + ".__next__")
    m = machine(R)
    docs = [Doc("doc%d" % i) for i in range(4)]
    fs = [File(m, [docs[0:1], docs[1:2]], cname=NAMES[0]), File(m, [docs[2:3], docs[3:4]], cname=NAMES[1])]
    try:
        rds = [m.new(RD, x.stream) for x in fs]
        got = [data_of(m.next(rds[i % 2])) for i in range(4)]
        if got != [docs[0], docs[2], docs[1], docs[3]]:
            return R.bad("named-codec", RD, "reading two files alternately hands out %s" % (got,), g.loc)
        for r, f in zip(rds, fs):
            m.invoke(r, "seek", f.blocks[1][0])
            if data_of(m.next(r)) is not f.blocks[1][1][0]:
                return R.bad("named-codec", RD, "after seeking to a block another document is handed out", g.loc)
    except Fail as z:
        return R.bad("named-codec", RD, "reading two files of different codecs fails with %s" % z.name, g.loc)
    R.good("named-codec", RD, "two files of different codecs", g.loc)
