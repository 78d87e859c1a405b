"""C16: every written document is stored exactly once."""
from rules.store import *

W = "MsgpackDocumentWriter"


def check(R):
    R.rule("stored", "whatever sequence of write and flush came before, the written blocks followed by the buffer hold every accepted document once, in order")
    R.rule("full", "a block is written out as soon as it holds the configured number of documents, never with more, and never empty")
    R.rule("closed", "closing, directly or by leaving the with-block with or without an exception, writes the remaining documents, then closes the file, and does not swallow the exception")
    R.rule("failed", "when writing a block fails the documents stay buffered, and closing still closes the file")
    R.rule("refused", "a writer given a path opens it in exclusive mode unless told otherwise")
    R.rule("tar", "the tar writer stores each document as one file of its own name and size, and the tar reader hands them out in order")
    f = R.prog.func(W + ".write")
    if f is None:
        raise Cannot("no writer")
    for n in (1, 2, 3):
        R.guarded("stored", "%s, %d documents per block" % (W, n), lambda: histories(R, n, f))
    R.guarded("failed", W, lambda: failing_flush(R))
    R.guarded("refused", W, lambda: exclusive(R))
    R.guarded("tar", "TarMsgpackWriter", lambda: tar(R))


def buffered(m, w, f, before):
    """documents still to be written: those a flush adds to the file"""
    x = copy.deepcopy(w)
    n = len(m.log)
    m.invoke(x, "flush")
    return x


def histories(R, n, f):
    m = machine(R, {"MsgpackCodec.encode": encode})
    docs = [document(i, raw=i % 2 == 1) for i in range(4)]
    s = Stream("file", (), ("RawIOBase", "IOBase"))
    w = m.new(W, s, n, m.codecs["lzma"])
    steps = [0]
    found = {}
    c = "%s, %d documents per block" % (W, n)

    def note(rule, why):
        found.setdefault(rule, (why, trace(m.last) if getattr(m, "last", None) else None))

    def judge(w, hist, flushed):
        """hist: documents accepted so far; flushed: number of documents in blocks forced out"""
        steps[0] += 1
        want = [d.attrs["encoded"] for d in hist]
        st = stream_of(w, s)
        head, blocks = layout(st, m.codecs)
        inside = [d for b in blocks for d in b]
        if inside != want[:len(inside)]:
            note("stored", "after writing %s the file holds %s" % (want, blocks))
            return False
        if len(inside) < flushed:
            note("stored", "flushing leaves %s of %s in the file" % (inside, want))
            return False
        if any(len(b) > n for b in blocks):
            note("full", "a block of %d documents is written with %d per block" % (max(map(len, blocks)), n))
            return False
        if any(not b for b in blocks):
            note("full", "an empty block is written")
            return False
        if len(want) - len(inside) >= n:
            note("full", "%d documents are held back with %d per block" % (len(want) - len(inside), n))
            return False
        # flushing a copy must bring out exactly the rest
        x = copy.deepcopy(w)
        m.invoke(x, "flush")
        got = [d for b in layout(stream_of(x, s), m.codecs)[1] for d in b]
        if got != want:
            note("stored", "after writing %s a flush leaves %s in the file" % (want, got))
            return False
        if len(layout(stream_of(x, s), m.codecs)[1]) != len(blocks) + (len(want) > len(inside)):
            note("full", "flushing %d buffered documents writes %d blocks" % (len(want) - len(inside), len(layout(stream_of(x, s), m.codecs)[1]) - len(blocks)))
            return False
        for how in ("close", "exit", "exit-exc"):
            x = copy.deepcopy(w)
            try:
                if how == "close":
                    m.invoke(x, "close")
                else:
                    e = Val("exception", ["ValueError"])
                    r = m.invoke(x, "__exit__", *([None] * 3 if how == "exit" else [e, e, e]))
                    if how == "exit-exc" and (r is True or isinstance(r, int) and r):
                        note("closed", "leaving the with-block by an exception swallows it")
                        return False
            except Fail as z:
                note("closed", "%s fails with %s" % ("closing" if how == "close" else "leaving the with-block", z.name))
                return False
            st = stream_of(x, s)
            got = [d for b in layout(st, m.codecs)[1] for d in b]
            hw = {"close": "closing", "exit": "leaving the with-block", "exit-exc": "leaving the with-block by an exception"}[how]
            if got != want:
                note("closed", "%s after writing %s leaves %s in the file" % (hw, want, got))
                return False
            if not st.attrs["closed"]:
                note("closed", "%s does not close the file" % hw)
                return False
        return True

    def walk_(w, hist, flushed, d):
        if found or not judge(w, hist, flushed):
            return
        if d == 0:
            return
        if len(hist) < len(docs):
            x = copy.deepcopy(w)
            m.last = None
            m.invoke(x, "write", docs[len(hist)])
            walk_(x, hist + [docs[len(hist)]], flushed, d - 1)
        x = copy.deepcopy(w)
        m.invoke(x, "flush")
        walk_(x, hist, len(hist), d - 1)
    und = None
    try:
        walk_(w, [], 0, 5)
    except Wrong as x:
        note("stored", str(x))
    except Fail as x:
        note("stored", "writing fails with %s" % x.name)
    except Cannot as x:
        und = x
    for rule in ("stored", "full", "closed"):
        if rule in found:
            R.bad(rule, c, found[rule][0], f.loc, trace=found[rule][1])
        elif und is not None or found:
            R.unknown(rule, c, str(und)[:200] if und else "other violation", f.loc)
        else:
            R.good(rule, c, "%d abstract writer states" % steps[0], f.loc)


def stream_of(w, s):
    """the file of this copy of the writer"""
    for v in w.attrs.values():
        if isinstance(v, Stream) and v.name == s.name:
            return v
    raise Cannot("file of the writer")


def failing_flush(R):
    g = R.prog.func(W + ".flush")
    h = R.prog.func(W + ".close")
    if g is None or h is None:
        raise Cannot("no flush")
    found = []
    n = 0
    for where in ("compressing", "writing"):
        m = machine(R, {"MsgpackCodec.encode": encode}, exc=failing)
        docs = [document(i) for i in range(2)]
        s = Broken("file", (), ("RawIOBase", "IOBase"))
        cd = codec("lzma")
        good = cd.attrs["compress"]
        state = {"bad": False}

        def comp(m, x):
            if state["bad"] and where == "compressing":
                raise Fail("error")
            return good.fn(m, x)
        cd.attrs["compress"] = Fn("compress", comp)
        w = m.new(W, s, 3, cd)
        for d in docs:
            m.invoke(w, "write", d)
        want = [d.attrs["encoded"] for d in docs]
        state["bad"] = True
        f = stream_of(w, s)
        if where == "writing":
            f.attrs["broken"] = True
        x = copy.deepcopy(w)
        try:
            m.invoke(x, "flush")
            continue
        except Fail:
            pass
        state["bad"] = False
        stream_of(x, s).attrs["broken"] = False
        m.invoke(x, "flush")
        got = [d for b in layout(stream_of(x, s), m.codecs)[1] for d in b]
        n += 1
        if got != want:
            found.append((g, "when %s a block fails and is repeated, %s of the documents %s are in the file" % (where, got, want)))
        for how in ("close", "__exit__"):
            state["bad"] = True
            x = copy.deepcopy(w)
            try:
                m.invoke(x, how, *([None] * 3 if how == "__exit__" else []))
            except Fail:
                pass
            state["bad"] = False
            n += 1
            if not stream_of(x, s).attrs["closed"]:
                found.append((h, "when %s the last block fails, %s leaves the file open" % (where, "closing" if how == "close" else "leaving the with-block")))
    if not n:
        raise Cannot("no failing step")
    if found:
        R.bad("failed", found[0][0].qual, found[0][1], found[0][0].loc)
    else:
        R.good("failed", W, "%d failing steps" % n, g.loc)


class Broken(Stream):
    def m_write(self, m, v):
        if self.attrs.get("broken"):
            raise Fail("OSError")
        return Stream.m_write(self, m, v)


def exclusive(R):
    m = machine(R, {"MsgpackCodec.encode": encode})
    f = R.prog.func(W + ".__init__")
    if f is None:
        raise Cannot("no constructor")
    modes = []

    def open_(m, path, mode="r", *a, **kw):
        modes.append((path, mode))
        return Stream("file", (), ("RawIOBase", "IOBase"))
    m.externals["open"] = m.externals["io.open"] = open_
    for kw in ({}, {"num_docs_per_block": 5}):
        m.new(W, "some/path", **kw)
    if not modes:
        raise Cannot("no file opened")
    bad = [x for x in modes if not isinstance(x[1], str) or "x" not in x[1]]
    if bad:
        return R.bad("refused", f.qual, "a path is opened with mode %r, which overwrites an existing file" % (bad[0][1],), f.loc)
    R.good("refused", f.qual, "default mode %r" % modes[0][1], f.loc)


# ------------------------------------------------------------------ tar
class Tar(Lib):
    def __init__(self):
        Lib.__init__(self, "tar", ["TarFile"], files=(), closed=False, at=0)

    def m_addfile(self, m, ti, fileobj=None):
        if self.attrs["closed"]:
            raise Fail("OSError")
        data = None
        if fileobj is not None:
            data = fileobj.call(m, "read", [], {})
        m.put(self, "files", self.attrs["files"] + ((ti.attrs["name"], ti.attrs["size"], ti.attrs["type"], data),))

    def m_close(self, m):
        m.put(self, "closed", True)

    def m_next(self, m):
        i = self.attrs["at"]
        if i >= len(self.attrs["files"]):
            return None
        m.put(self, "at", i + 1)
        n, s, t, d = self.attrs["files"][i]
        return TarInfo(n, s, t, d)

    def m_extractfile(self, m, ti):
        return Stream("member", [] if ti.attrs["data"] is None else as_parts(ti.attrs["data"]))


class TarInfo(Lib):
    def __init__(self, name, size=0, type=None, data=None):
        Lib.__init__(self, "tarinfo", ["TarInfo"], name=name, size=size, type=type, data=data, mtime=0)

    def m_isfile(self, m):
        return self.attrs["type"] is None

    def m_isreg(self, m):
        return self.attrs["type"] is None

    def m_isdir(self, m):
        return self.attrs["type"] is not None


class Bytes(Doc):
    pass


def tar(R):
    f = R.prog.func("TarMsgpackWriter.write")
    g = R.prog.func("TarMsgpackReader.__next__")
    if f is None or g is None:
        raise Cannot("no tar writer")
    n = 0
    for root in (None, "dir"):
        docs = [document(i, raw=i % 2 == 1) for i in range(4)]
        for d in docs:
            b = Data([Item(d.attrs["encoded"], 10 + n)])
            d.attrs["encoded"] = b
            if "rawdata" in d.attrs:
                d.attrs["rawdata"].attrs["doc"] = b
            n += 1
        m = machine(R, {"MsgpackCodec.encode": encode})
        t = Tar()
        m.externals["tarfile.open"] = lambda m, *a, **kw: t
        m.externals["tarfile.TarInfo"] = lambda m, name="", **kw: TarInfo(name)
        m.externals["time.time"] = lambda m: 0.0
        m.externals["os.path.join"] = lambda m, *a: "/".join(a)
        w = m.new("TarMsgpackWriter", "path", rootdir=root)
        for d in docs:
            m.invoke(w, "write", d)
        m.invoke(w, "__exit__", None, None, None)
        if not t.attrs["closed"]:
            return R.bad("tar", "TarMsgpackWriter.__exit__", "leaving the with-block does not close the archive", f.loc)
        files = [x for x in t.attrs["files"] if x[2] is None]
        if [x[3] for x in files] != [d.attrs["encoded"] for d in docs] and not all(same(x[3], d.attrs["encoded"]) for x, d in zip(files, docs)) or len(files) != len(docs):
            return R.bad("tar", f.qual, "%d documents are stored as %s" % (len(docs), [x[3] for x in files]), f.loc)
        names = [x[0] for x in files]
        if len(set(names)) != len(names):
            return R.bad("tar", f.qual, "documents are stored under the same name: %s" % names, f.loc)
        for x, d in zip(files, docs):
            if x[1] != d.attrs["encoded"].length:
                return R.bad("tar", f.qual, "%d bytes are stored with the size %s" % (d.attrs["encoded"].length, x[1]), f.loc)
        t.attrs["closed"] = False
        rd = m.new("TarMsgpackReader", "path")
        got = []
        while len(got) <= len(docs):
            try:
                v = m.next(rd)
            except Fail as z:
                if z.name != "StopIteration":
                    return R.bad("tar", g.qual, "reading the archive fails with %s" % z.name, g.loc)
                break
            if v is None:
                return R.bad("tar", g.qual, "after %d of %d documents nothing is handed out" % (len(got), len(docs)), g.loc)
            got.append(v.attrs.get("data"))
        if len(got) != len(docs) or not all(same(a, d.attrs["encoded"]) for a, d in zip(got, docs)):
            return R.bad("tar", g.qual, "%d stored documents are read as %s" % (len(docs), got), g.loc)
    R.good("tar", "TarMsgpackWriter", "%d documents written and read, with and without a root directory" % n, f.loc)
