"""C19: the boundary stream has a marker at every multiple of the block size, and nowhere else; reader and writer agree on it."""
import itertools, struct
from rules.store import *

QW, QR = "_BoundaryWriter", "_BoundaryReader"
MW = 4


def check(R):
    R.rule("layout", "over histories of writes and splits the stream is the block size, then the data in order, with one marker at every positive multiple of the block size that data follows, and no other")
    R.rule("markers", "a marker holds the distance back to the last split point, never ahead of the marker, and can be stored however far away the split point is")
    R.rule("range", "writer and reader accept the block sizes 12 to 30 and refuse all others")
    R.rule("reader", "on a stream laid out like that the reader gives the data without the markers, in any chunks and from any offset, and tells its offset")
    w = World(R)
    R.guarded("layout", QW, lambda: layout(R, w))
    R.guarded("markers", QW, lambda: markers(R, w))
    R.guarded("range", QW, lambda: accepted(R, w))
    R.guarded("reader", QR, lambda: reader(R, w))


class Run(Lib):
    """a bytes value: pieces of the data that was written, and literal bytes"""

    def __init__(self, parts):
        ps = []
        for s, a, b in parts:
            if a == b:
                continue
            if ps and not isinstance(s, bytes) and ps[-1][0] is s and ps[-1][2] == a:
                ps[-1] = (s, ps[-1][1], b)
            elif ps and isinstance(s, bytes) and isinstance(ps[-1][0], bytes):
                x = ps[-1][0][ps[-1][1]:ps[-1][2]] + s[a:b]
                ps[-1] = (x, 0, len(x))
            else:
                ps.append((s, a, b))
        Lib.__init__(self, "data", ["bytes"])
        self.parts = tuple(ps)
        self.length = sum(b - a for s, a, b in ps)
        self.truth = self.length > 0

    def __deepcopy__(self, memo):
        return self

    def cut(self, lo, hi):
        out, at = [], 0
        for s, a, b in self.parts:
            x, y = max(lo, at), min(hi, at + b - a)
            if x < y:
                out.append((s, a + x - at, a + y - at))
            at += b - a
        return Run(out)

    def m___getitem__(self, m, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Cannot("step of a slice")
            a, b, _ = i.indices(self.length)
            return self.cut(a, b)
        if not isinstance(i, int):
            raise Cannot("index %r" % (i,))
        if not -self.length <= i < self.length:
            raise Fail("IndexError")
        x = self.cut(i % self.length, i % self.length + 1).parts[0]
        if isinstance(x[0], bytes):
            return x[0][x[1]]
        raise Cannot("one byte of the data")

    def m_tobytes(self, m):
        return self

    def m_concat(self, other, front=False):
        o = run_of(other).parts
        return Run(o + self.parts if front else self.parts + o)

    def m_release(self, m):
        return None

    m_cast = m_toreadonly = lambda self, m, *a: self


def run_of(v):
    if isinstance(v, Run):
        return v
    if isinstance(v, (bytes, bytearray)):
        return Run([(bytes(v), 0, len(v))])
    if isinstance(v, Buf):
        return Run(v.attrs["parts"])
    raise Cannot("data %r" % (v,))


class Buf(Lib):
    """a bytearray that is being filled"""

    def __init__(self, parts=()):
        Lib.__init__(self, "bytearray", ["bytearray"], parts=tuple(parts))

    length = property(lambda self: Run(self.attrs["parts"]).length, lambda self, v: None)
    truth = property(lambda self: self.length > 0, lambda self, v: None)

    def m_extend(self, m, v):
        m.put(self, "parts", self.attrs["parts"] + run_of(v).parts)

    m_write = m_extend

    def m_append(self, m, v):
        self.m_extend(m, bytes([v]))

    def m___getitem__(self, m, i):
        return Run(self.attrs["parts"]).m___getitem__(m, i)

    def m_getvalue(self, m):
        return Run(self.attrs["parts"])

    m_getbuffer = m_getvalue

    def m_tell(self, m):
        return self.length


class Sink(Lib):
    """the file that is written to"""
    most = 40       # no history here has that many blocks

    def __init__(self):
        Lib.__init__(self, "output file", ["RawIOBase", "IOBase"], parts=(), closed=False)

    def m_write(self, m, v):
        r = run_of(v)
        if len(self.attrs["parts"]) > self.most:
            raise Fail("endless output")
        m.put(self, "parts", self.attrs["parts"] + r.parts)
        return r.length

    def m_flush(self, m):
        return None

    def m_tell(self, m):
        return self.data().length

    def m_close(self, m):
        m.put(self, "closed", True)

    def data(self):
        return Run(self.attrs["parts"])


class Source(Lib):
    """the file that is read from"""

    def __init__(self, data):
        Lib.__init__(self, "input file", ["RawIOBase", "IOBase"], pos=0)
        self.data = data

    def m_read(self, m, n=-1):
        if n is not None and not isinstance(n, int):
            raise Cannot("read(%r)" % (n,))
        a = self.attrs["pos"]
        b = self.data.length if n is None or n < 0 else min(a + n, self.data.length)
        m.put(self, "pos", max(a, b))
        r = self.data.cut(a, b)
        if not r.parts:
            return b""
        if len(r.parts) == 1 and isinstance(r.parts[0][0], bytes):
            s, x, y = r.parts[0]
            return s[x:y]
        return r

    def m_seek(self, m, pos, whence=0):
        if whence not in (0, 1, 2):
            raise Cannot("whence %r" % (whence,))
        pos += (0, self.attrs["pos"], self.data.length)[whence]
        if pos < 0:
            raise Fail("ValueError")
        m.put(self, "pos", pos)
        return pos

    def m_tell(self, m):
        return self.attrs["pos"]

    def m_seekable(self, m):
        return True

    def m_close(self, m):
        return None


def pack(m, fmt, *vs):
    try:
        return struct.pack(fmt, *vs)
    except struct.error:
        raise Fail("error")


def unpack(m, fmt, v):
    v = run_of(v)
    if len(v.parts) > 1 or any(not isinstance(x[0], bytes) for x in v.parts):
        raise Cannot("the value of data bytes")
    try:
        return struct.unpack(fmt, v.parts[0][0][v.parts[0][1]:v.parts[0][2]] if v.parts else b"")
    except struct.error:
        raise Fail("error")


def as_bytes(m, v=b"", *a):
    if isinstance(v, (Run, Buf, bytes)):
        return run_of(v)
    if isinstance(v, int):
        return bytes(v)
    if isinstance(v, Val) and v.elems is not None:
        v = v.elems
    if isinstance(v, (list, tuple)) and all(isinstance(x, int) for x in v):
        try:
            return bytes(v)
        except ValueError:
            raise Fail("ValueError")
    raise Cannot("bytes(%r)" % (v,))


class World:
    def __init__(self, R):
        self.R = R
        for q in (QW, QR):
            if q not in R.prog.classes:
                raise Cannot("no %s" % q)
        self.m = Machine(R, {"meth:__init__": lambda m, *a: None}, store=True)
        self.m.externals.update({"struct.pack": pack, "struct.unpack": unpack, "bytes": as_bytes, "memoryview": lambda m, v: v,
                                 "bytearray": lambda m, v=b"", *a: Buf(run_of(as_bytes(m, v)).parts), "io.BytesIO": lambda m, v=b"": Buf(run_of(v).parts)})
        self.loc = {q: "%s:%d" % (R.prog.classes[q].module.rel, R.prog.classes[q].node.lineno) for q in (QW, QR)}
        self.n = 0

    def trace(self):
        p = getattr(self.m, "last", None)
        return trace(p) if p else None

    def writer(self, boundary, ops):
        """(what is in the file, None or what failed, the data, expectations on the markers)"""
        self.n += 1
        m = self.m
        m.last = None
        out = Sink()
        w = m.new(QW, out, boundary)
        return out, w

    def history(self, boundary, ops):
        out, w = self.writer(boundary, ops)
        spec = Spec(boundary)
        fails = None
        try:
            for i, o in enumerate(ops):
                if o is None:
                    self.m.invoke(w, "split")
                    spec.split()
                else:
                    s = Val("data%d" % i, ["bytes"])
                    self.m.invoke(w, "write", Run([(s, 0, o)]))
                    spec.write(s, o)
        except Fail as x:
            fails = "%s fails with %s" % ("split" if o is None else "write of %d bytes" % o, x.name)
        return out.data(), fails, spec


class Spec:
    """the stream as it has to be"""

    def __init__(self, boundary):
        self.size = 1 << boundary
        self.parts = [bytes([boundary])]      # literal bytes, data pieces (source, lo, hi), markers {allowed split points}
        self.pos, self.last, self.at = 1, 1, 1
        self.data = []

    def split(self):
        self.last = self.pos

    def write(self, s, n):
        a = 0
        if n:
            self.data.append((s, 0, n))
        while a < n:
            if self.pos % self.size == 0:
                self.parts.append(("marker", self.pos, {self.last, self.at}))
                self.pos += MW
            k = min(self.size - self.pos % self.size, n - a)
            self.parts.append((s, a, a + k))
            a += k
            self.pos += k
            if self.pos % self.size == 0:
                self.at = self.last     # the split point when the boundary was reached

    def stream(self):
        """the stream as one value"""
        out = []
        for p in self.parts:
            if isinstance(p, bytes):
                out.append((p, 0, len(p)))
            elif p[0] == "marker":
                v = struct.pack(">i", max(-0x80000000, min(p[2]) - p[1]))
                out.append((v, 0, MW))
            else:
                out.append(p)
        return Run(out)

    def compare(self, got, values=True):
        """None or how the stream is different"""
        at = 0
        for p in self.parts:
            if isinstance(p, bytes):
                x = got.cut(at, at + len(p))
                if x.parts != ((p, 0, len(p)),) and (not x.parts or not isinstance(x.parts[0][0], bytes) or x.parts[0][0][x.parts[0][1]:x.parts[0][2]] != p):
                    return "the stream does not begin with the block size"
                at += len(p)
            elif p[0] == "marker":
                x = got.cut(at, at + MW)
                if len(x.parts) != 1 or not isinstance(x.parts[0][0], bytes) or x.length != MW:
                    return "at position %d, a multiple of the block size %d, %s instead of a marker" % (at, self.size, "there is data" if x.length else "the stream ends")
                if values:
                    s, a, b = x.parts[0]
                    v, = struct.unpack(">i", s[a:b])
                    if v > 0:
                        return "the marker at %d points %d bytes ahead" % (at, v)
                    if v not in {y - p[1] for y in p[2]} and not (min(p[2]) - p[1] < -0x80000000 and v < 0):
                        return "the marker at %d holds %d, the last split point is at %d" % (at, v, max(p[2]))
                at += MW
            else:
                n = p[2] - p[1]
                x = got.cut(at, at + n)
                if x.parts != (p,):
                    lit = [y for y in x.parts if isinstance(y[0], bytes)]
                    return "at position %d, %s" % (at, "there is a marker within a block" if lit else "%d bytes of the data are missing" % (n - x.length) if x.length < n else "there is other data than was written")
                at += n
        rest = got.length - at
        if rest and not (rest == MW and at % self.size == 0):
            return "%d bytes too many at the end, position %d" % (rest, at)
        return None


B = 12
S = 1 << B


def histories():
    """writes (lengths) and splits (None)"""
    first = [0, 1, S - 2, S - 1, S, 2 * S - 1 - MW, 2 * S - MW, 2 * S - 5, 2 * S + 17, 3 * S - 1 - 2 * MW, 10000]
    for a in first:
        yield (a,)
        for b in (0, 1, S - MW, S - 1, S):
            yield (a, b)
            yield (a, None, b)
        yield (a, 0, 1)
        yield (None, a, None, 1, None, S)
    yield (S - 2, 1, 1, None, S - MW - 1, 1, 1)
    yield (100,) * 3 + (None,) + (S - 301,) + (2 * S - 2 * MW, 3)


def say(ops):
    return ", ".join("split" if o is None else "write of %d" % o for o in ops)


def layout(R, w):
    n = 0
    for ops in histories():
        got, fails, spec = w.history(B, ops)
        why = fails or spec.compare(got, values=False)
        n += 1
        if why:
            return R.bad("layout", QW, "blocks of %d: %s: %s" % (S, say(ops), why), w.loc[QW], trace=w.trace())
    R.good("layout", QW, "%d histories" % n, w.loc[QW])


def markers(R, w):
    n = 0
    G = 1 << 30
    far = [(3 * G,), (G, None, 2 * G), (3 * G, None, 2 * G), (2 * G - 1, 1), (2 * G - 9, 1, 1, 1)]
    for b, ops in [(B, x) for x in histories()] + [(30, x) for x in far] + [(20, (5 << 20,)), (20, (1 << 20, None, 3 << 20))]:
        got, fails, spec = w.history(b, ops)
        why = fails or spec.compare(got, values=True)
        if why and "marker at" not in why and "fails" not in why:
            continue
        n += 1
        if why:
            return R.bad("markers", QW, "blocks of %d: %s: %s" % (1 << b, say(ops), why), w.loc[QW], trace=w.trace())
    R.good("markers", QW, "%d histories" % n, w.loc[QW])


def accepted(R, w):
    for q in (QW, QR):
        for b in (0, 1, 11, 12, 13, 20, 21, 29, 30, 31, 62, 255):
            w.n += 1
            w.m.last = None
            try:
                if q == QW:
                    w.writer(b, ())
                else:
                    w.m.new(QR, Source(Run([(bytes([b]), 0, 1)])))
                ok = True
            except Fail:
                ok = False
            if ok != (12 <= b <= 30):
                return R.bad("range", q, "%s a block size of 2^%d" % ("accepts" if ok else "refuses", b), w.loc[q], trace=w.trace())
    R.good("range", QW + ", " + QR, "12 values each", w.loc[QW])


def reading(w, stream, data, seqs):
    """None or what the reader does wrong on the stream"""
    total = data.length
    for ops in seqs:
        w.n += 1
        w.m.last = None
        done = []
        r = w.m.new(QR, Source(stream))
        at = 0
        try:
            for k, x in ops:
                done.append("%s(%s)" % (k, x))
                if k == "seek":
                    if x > total:
                        x = total
                    w.m.invoke(r, "seek", x)
                    at = x
                else:
                    v = run_of(w.m.invoke(r, "read", *([] if x is None else [x])))
                    to = total if x is None or x < 0 else min(total, at + x)
                    want = data.cut(at, to)
                    if v.parts != want.parts:
                        how = "markers among the data" if any(isinstance(y[0], bytes) for y in v.parts) else "%d instead of %d bytes" % (v.length, want.length) if v.length != want.length else "other bytes"
                        return "%s in a stream of %d bytes of data: %s" % (", ".join(done), total, how)
                    at = to
                t = w.m.invoke(r, "tell")
                if t != at:
                    return "%s in a stream of %d bytes of data: tells %s, not %d" % (", ".join(done), total, t, at)
        except Fail as x:
            return "%s in a stream of %d bytes of data: fails with %s" % (", ".join(done), total, x.name)
    return None


EDGES = (0, 1, S - 2, S - 1, S, S + 1, 2 * S - 1 - MW, 2 * S - MW, 2 * S, 3 * S - 2 * MW - 1, 3 * S)


def sequences(total):
    yield [("read", None), ("read", 1)]
    yield [("read", S), ("read", S), ("read", None)]
    yield [("read", 0), ("read", 1), ("read", S - 2), ("read", 1), ("read", S - MW), ("read", 3)]
    yield [("read", total), ("read", 1)]
    yield [("read", 5000), ("seek", 17), ("read", 4079), ("read", 1), ("read", 4091)]
    for k in EDGES:
        if k <= total:
            yield [("seek", k), ("read", 5), ("read", 2 * S)]
            yield [("read", 10), ("seek", k), ("read", None), ("seek", 1), ("read", 2)]
            yield [("read", k), ("read", 2), ("seek", k), ("read", 1)]


def reader(R, w):
    for total in (0, 1, S - 2, S - 1, S, 2 * S - 1 - MW, 2 * S, 3 * S + 100):
        spec = Spec(B)
        s = Val("data", ["bytes"])
        spec.write(s, total)
        data = Run([(s, 0, total)])
        why = reading(w, spec.stream(), data, sequences(total))
        if why:
            return R.bad("reader", QR, why, w.loc[QR], trace=w.trace())
    R.good("reader", QR, "%d evaluations" % w.n, w.loc[QR])
