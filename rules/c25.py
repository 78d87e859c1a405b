"""C25: readers and writers release their files."""
from rules.store import *
from rules.c16 import Tar, Broken, encode as encode_

NI = ("MsgpackCodec.decode", "MsgpackCodec.decode_property", "MsgpackDocument.properties", "MsgpackDocument.__init__", "MsgpackDocument.document",
      "MsgpackDocumentBlock.__init__", "get_codec")
ROOTS = ("DocumentFileIndex.build", "DocumentFileIndex.search", "DocumentIndex.save", "DocumentIndex.load", "DocumentIndex.search", "build_msgpack_fileindex",
         "_build_file_index")
SAFE = ("close", "get", "append", "setdefault", "items", "keys", "values", "join", "add", "update", "tell", "intersection_update", "extend", "insert", "pop",
        "intersection", "sort", "copy", "push", "callback", "enter_context", "pop_all")


def check(R):
    R.rule("owner", "leaving the with-block, normally or by an exception, or calling close, closes the file the reader or writer works on")
    R.rule("own", "every path out of an indexing, searching, saving or loading function - returning, failing at any operation, or the consumer stopping early - has closed the files opened on it")
    for cls in ("_BoundaryReader", "_BoundaryWriter", "MsgpackDocumentReader", "DocumentReader", "MsgpackDocumentWriter", "TarMsgpackReader", "TarMsgpackWriter"):
        for bypath in (False, True):
            if bypath and cls in ("_BoundaryReader", "_BoundaryWriter", "DocumentReader") or not bypath and cls.startswith("Tar"):
                continue
            R.guarded("owner", "%s over a %s" % (cls, "path" if bypath else "file object"), lambda: owner(R, cls, bypath))
    n = 0
    for q in ROOTS:
        f = R.prog.func(q)
        if f is not None:
            R.guarded("own", q, lambda: own(R, f))
            n += 1
    if not n:
        raise Cannot("no function opening files")


# ------------------------------------------------------------- the owner of a file
def owner(R, cls, bypath):
    k = R.prog.cls(cls)
    if k is None:
        raise Cannot("no %s" % cls)
    m = machine(R, {"MsgpackCodec.encode": encode_, "MsgpackDocument.document": lambda m, d: Val("document", ["Document"])}, exc=failing)
    opened = []

    def make(m, *a, **kw):
        s = content(m)
        opened.append(s)
        return s

    def content(m):
        if cls.startswith("Tar"):
            return Tar()
        if cls == "_BoundaryReader":
            return Stream("file", [Item(b"\x14", 1, raw=True), Item("payload", 100)], ("RawIOBase", "IOBase"))
        if cls.endswith("Writer"):
            return Broken("file", (), ("RawIOBase", "IOBase"))
        return File(m, [[Doc("d1"), Doc("d2")]]).stream
    m.externals["open"] = m.externals["io.open"] = m.externals["tarfile.open"] = make
    m.externals["tarfile.TarInfo"] = lambda m, name="", **kw: __import__("rules.c16", fromlist=["TarInfo"]).TarInfo(name)
    if cls == "_BoundaryWriter":
        m.externals["bytes"] = lambda m, *a: Data([Item("boundary", 1)])
    m.externals["time.time"] = lambda m: 0.0
    m.externals["os.path.join"] = lambda m, *a: "/".join(a)
    bad = []
    n = 0
    for used in (False, True):
        for how in ("close", "leave", "leave-exc", "close-fails", "leave-fails"):
            fails = how.endswith("-fails")
            if fails and (cls not in ("MsgpackDocumentWriter",) or not used):
                continue
            act = "__exit__" if how.startswith("leave") else "close"
            del opened[:]
            src = "some/path" if bypath else make(m)
            if cls == "MsgpackDocumentWriter":
                w = m.new(cls, src, 3, m.codecs["lzma"])
            elif cls == "DocumentReader":
                w = m.new(cls, m.new("MsgpackDocumentReader", src))
            else:
                w = m.new(cls, src)
            if k.find(act) is None:
                if act != "__exit__" or "RawIOBase" not in [str(b).split(".")[-1] for b in k.mro()]:
                    continue
                call = "close"      # what leaving the with-block of an io object does
            else:
                call = act
            s = opened[-1] if opened else None
            if s is None:
                raise Cannot("the file")
            if used:
                if cls.endswith("DocumentWriter") or cls == "TarMsgpackWriter":
                    d = document(0)
                    if cls.startswith("Tar"):
                        d.attrs["encoded"] = Data([Item("payload", 10)])
                    m.invoke(w, "write", d)
                elif cls == "MsgpackDocumentReader" or cls == "DocumentReader":
                    m.next(w)
                else:
                    continue
            if fails:
                s.attrs["broken"] = True
            e = Val("exception", ["ValueError"])
            try:
                m.invoke(w, call, *(([e] * 3 if how == "leave-exc" else [None] * 3) if call == "__exit__" else []))
            except Fail as z:
                if not fails:
                    bad.append((m, cls, act, how, "fails with %s" % z.name))
                    continue
            n += 1
            if not s.attrs["closed"]:
                bad.append((m, cls, act, how, "leaves the file open"))
    if not n and not bad:
        raise Cannot("no way of closing")
    if bad:
        m, cls, act, how, why = bad[0]
        f = R.prog.func("%s.%s" % (cls, act)) or k.methods.get(act)
        txt = {"close": "calling close", "leave": "leaving the with-block", "leave-exc": "leaving the with-block by an exception",
               "close-fails": "calling close when the last write fails", "leave-fails": "leaving the with-block when the last write fails"}[how]
        R.bad("owner", "%s.%s" % (cls, act), "%s %s" % (txt, why), getattr(f, "loc", None))
    else:
        R.good("owner", "%s over a %s" % (cls, "path" if bypath else "file object"), "%d ways of closing" % n, getattr(k, "loc", None))


# ------------------------------------------------------------- files for own use
def is_open(f):
    return f.op in ("builtin", "ext") and f.a[0].split(".")[-1] == "open"


def opened_before(st):
    return any(e.kind == "call" and is_open(e.a[0]) for e in st.events)


def exc(en, f, args, kw, st):
    """operations that may fail once a file is open"""
    if f.op == "builtin" or is_open(f):
        return False
    if not opened_before(st):
        return False
    if f.op == "func":
        return en.func_of(f).qual in NI
    if f.op in ("meth", "attr") and f.a[1] in SAFE:
        return False
    if f.op == "ext" and f.a[0].split(".")[-1] in ("closing", "ExitStack", "join", "suppress", "nullcontext"):
        return False
    return f.op in ("meth", "attr", "ext", "vmeth")


def strip(t):
    """the file behind contextlib.closing(file)"""
    while t.op in ("callres", "call", "extcall") and t.a and getattr(t.a[0], "op", None) == "ext" and t.a[0].a[0].split(".")[-1] == "closing":
        t = t.a[1][0] if isinstance(t.a[1], tuple) else t.a[1]
    return t


def own(R, f):
    en, paths = R.paths(f, exc=exc, gen_exit=True, no_inline=NI)
    exits = files = 0
    for p in paths:
        if any(b and g.op == "isinst" and mentions(g.a[0], is_opened) and g.a[0].op != "obj" and "str" in show(g.a[1]) for g, b in p.guards):
            continue
        st = {}
        if scan(p.events, st):
            return R.unknown("own", f.qual, "resources in a form that is not followed", f.loc)
        exits += 1
        files += len(st)
        left = [r for r, s in st.items() if s == "open"]
        kind, v = p.outcome[0], p.outcome[1] if len(p.outcome) > 1 else None
        if not left:
            continue
        if kind in ("ret", "n") and any(escapes(r, v, p.events) for r in left):
            continue
        how = "returning" if kind in ("ret", "n") else "the consumer stopping early" if isinstance(v, T) and v.op == "genexit" else "failing"
        what = next((e for e in reversed(list(flatten(p.events))) if e.kind in ("excall", "raise")), None) if how == "failing" else None
        return R.bad("own", f.qual, "the file opened by %s is still open after %s%s" % (show(left[0])[:60], how, " in %s" % (what.loc or show(what.a[0])[:60]) if what is not None else ""), f.loc,
                     trace=trace(p) if kind != "raise" or True else None)
    if not exits:
        raise Cannot("no path")
    R.good("own", f.qual, "%d ways out, %d of them with a file opened" % (exits, files), f.loc)


def flatten(evs):
    for e in evs:
        yield e
        if e.kind == "loop":
            for lp in e.a[0].paths:
                yield from flatten(lp.events)


def is_opened(t):
    return t.op not in ("meth", "attr") and getattr(t, "a", None) and isinstance(t.a[0], T) and is_open(t.a[0])


def mentions(t, pred):
    if not isinstance(t, T):
        return any(mentions(x, pred) for x in t) if isinstance(t, (tuple, list)) else False
    return pred(t) or any(mentions(x, pred) for x in t.a)


def scan(evs, st):
    """state of every file opened on the path; True when something is not understood"""
    for e in evs:
        if e.kind == "call" and is_open(e.a[0]):
            st[e.a[3]] = "open"
        elif e.kind == "exit":
            r = strip(e.a[0])
            if r in st:
                st[r] = "closed"
            elif st and mentions(r, lambda t: t in st):
                for x in list(st):
                    if mentions(r, lambda t: t == x):
                        return True
            elif st and any(s == "open" for s in st.values()) and r.op != "obj":
                return True
        elif e.kind == "call" and e.a[0].op in ("meth", "attr") and e.a[0].a[1] in ("close", "__exit__"):
            r = strip(e.a[0].a[0])
            if r in st:
                st[r] = "closed"
            elif any(s == "open" for s in st.values()) and r.op not in ("obj",):
                return True
        elif e.kind == "excall" and st and e.a[0].op in ("meth", "attr") and e.a[0].a[1] == "close":
            return True
        elif e.kind == "call" and e.a[0].op == "func" and any(s == "open" for s in st.values()) and any(x in st for x in e.a[1] if isinstance(x, T)):
            return True
        elif e.kind == "loop":
            for lp in e.a[0].paths:
                inner = dict(st)
                if scan(lp.events, inner):
                    return True
                for r, s in inner.items():
                    if r not in st and s == "open" and lp.outcome[0] in ("n", "c"):
                        return True
                    if r in st and st[r] == "open" and s == "closed" and lp.outcome[0] in ("n", "c"):
                        return True
    return False


def escapes(r, v, evs):
    if isinstance(v, T) and mentions(v, lambda t: t == r):
        return True
    return any(e.kind in ("setattr", "setitem") and mentions(e.a[2], lambda t: t == r) for e in flatten(evs))
