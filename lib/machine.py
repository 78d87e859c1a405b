"""Composition of method summaries over an abstract store.

A summary (the path set of a method, see evalx) is applied to an abstract state: docria objects are records of abstract values, the
library objects they use (files, buffers, packers, unpackers, codecs) are the abstract models below, whose data are sequences of
items with a width but without bytes.  Exactly one path of a summary is consistent with a state; its effects give the next state.
Rules use this to check that an invariant of a class holds initially and is preserved by every operation (a fixpoint over a finite
abstract state space), not to run the program.
"""
import ast
import builtins
from terms import *
from decide import *


class Unbound(Cannot):
    """the term refers to a result that has not been produced yet on the path"""


class Fail(Exception):
    """an operation raises"""

    def __init__(self, name):
        Exception.__init__(self, name)
        self.name = name


EXTCONST = {"%s.SEEK_%s" % (m, n): i for m in ("io", "os") for i, n in enumerate(("SET", "CUR", "END"))}


class Lib(Val):
    """a library object; its state lives in attrs and is changed only through Machine.put"""

    def __init__(self, name_, classes_, **attrs):
        Val.__init__(self, name_, classes_, attrs)

    def call(self, m, name, args, kw):
        f = getattr(self, "m_" + name, None)
        if f is None:
            raise Cannot("%s.%s" % (self.name, name))
        if kw:
            g, n = m.method(self, name)
            if g is not None:
                args, kw = positional(g, args, kw, 0 if g.static else 1)
        return f(m, *args, **kw)


class Item:
    """one stored item: a value and how many bytes it takes"""

    def __init__(self, value, width, raw=False):
        self.value, self.width, self.raw = value, width, raw

    def __repr__(self):
        return "%s<%d>" % (self.value, self.width)

    def __eq__(self, o):
        return isinstance(o, Item) and self.raw == o.raw and self.width == o.width and same(self.value, o.value)

    __hash__ = None


def failing(en, f, args, kw, st):
    """engine option: calls of library objects can fail"""
    return f.op in ("meth", "attr") and f.a[1] not in ("tell", "getvalue", "getbuffer", "get", "keys", "items", "values")


def any_failing(en, f, args, kw, st):
    """engine option: every call can fail"""
    return f.op in ("func", "bound", "ext") or failing(en, f, args, kw, st)


def handles(types, name):
    """a handler naming these types takes an exception of this name"""
    import builtins
    b = getattr(builtins, name, None)
    for t in types:
        h = t.a[0].split(".")[-1].split(":")[-1] if isinstance(t, T) and t.op in ("builtin", "ext", "class") else None
        hb = getattr(builtins, h or "", None)
        if h is None or h == name or h in ("Exception", "BaseException"):
            return True
        if isinstance(b, type) and isinstance(hb, type) and issubclass(b, hb):
            return True
    return False


def same(a, b):
    if isinstance(a, Data) and isinstance(b, Data):
        return a.parts == b.parts
    if isinstance(a, (Val, T)) or isinstance(b, (Val, T)):
        return a is b
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


class Data(Lib):
    """a bytes value: the concatenation of items, or compressed data"""

    def __init__(self, parts):
        Lib.__init__(self, "data%r" % (tuple(parts),), ["bytes"])
        self.parts = list(parts)
        self.length = sum(x.width for x in parts)
        self.truth = self.length > 0

    def m___getitem__(self, m, i):
        if not isinstance(i, slice) or i.step not in (None, 1):
            raise Cannot("part of %s" % self.name)
        a, b, _ = i.indices(self.length)
        out, at = [], 0
        for x in self.parts:
            if a <= at and at + x.width <= b:
                out.append(x)
            elif at < b and a < at + x.width:
                out.append(Item(GARBAGE, min(b, at + x.width) - max(a, at)))
            at += x.width
        return as_value(out)

    def m_tobytes(self, m):
        return self

    def m_release(self, m):
        return None


class Fixed(Lib):
    def __deepcopy__(self, memo):
        return self


GARBAGE = Fixed("misplaced data", ["bytes"])


def as_parts(v):
    if isinstance(v, Data):
        return v.parts
    if isinstance(v, (bytes, bytearray)):
        return [Item(bytes(v), len(v), raw=True)] if v else []
    if v is GARBAGE:
        return [Item(GARBAGE, 1)]
    if isinstance(v, Val) and "bytes" in v.classes:
        return [Item(v, 1, raw=True)]       # bytes put there as they are, without being an item of their own
    raise Cannot("written value %r" % (v,))


def as_value(parts):
    if all(isinstance(x.value, bytes) and x.raw for x in parts):
        return b"".join(x.value for x in parts)
    return Data(parts)


class Stream(Lib):
    """a file or an in-memory buffer"""

    def __init__(self, name, parts=(), classes=("BytesIO", "IOBase", "RawIOBase")):
        Lib.__init__(self, name, classes, items=tuple(parts), pos=0, closed=False, epoch=0)

    def size(self):
        return sum(x.width for x in self.attrs["items"])

    def index(self, pos):
        """index of the item that starts at the position; None inside an item"""
        at = 0
        for i, x in enumerate(self.attrs["items"]):
            if at == pos:
                return i
            at += x.width
        return len(self.attrs["items"]) if pos >= at else None

    def alive(self):
        if self.attrs["closed"]:
            raise Fail("ValueError")

    def m_write(self, m, v):
        self.alive()
        its = self.attrs["items"]
        parts = as_parts(v)
        n = sum(x.width for x in parts)
        if self.attrs["pos"] == self.size():
            m.put(self, "items", its + tuple(parts))
            m.put(self, "pos", self.size())
            return n
        i = self.index(self.attrs["pos"])
        if i is None or i >= len(its):
            raise Cannot("writing inside %s" % self.name)
        # overwrites what is there; what it cuts through is lost
        rest, left = list(its[i:]), n
        while rest and left >= rest[0].width:
            left -= rest.pop(0).width
        if rest and left:
            rest[0] = Item(GARBAGE, rest[0].width - left)
        m.put(self, "items", its[:i] + tuple(parts) + tuple(rest))
        m.put(self, "pos", self.attrs["pos"] + n)
        return n

    def m_getvalue(self, m):
        self.alive()
        return as_value(self.attrs["items"])

    m_getbuffer = m_getvalue

    def m_tell(self, m):
        self.alive()
        return self.attrs["pos"]

    def m_seek(self, m, pos, whence=0):
        self.alive()
        w = whence.a[0].split(".")[-1] if isinstance(whence, T) and whence.op == "ext" else whence
        if w in (2, "SEEK_END"):
            pos += self.size()
        elif w in (1, "SEEK_CUR"):
            pos += self.attrs["pos"]
        elif w not in (0, "SEEK_SET"):
            raise Cannot("whence %r" % (whence,))
        if not isinstance(pos, int):
            raise Fail("TypeError")
        m.put(self, "pos", pos)
        m.put(self, "epoch", self.attrs["epoch"] + 1)
        return pos

    def m_read(self, m, n=-1):
        self.alive()
        i = self.index(self.attrs["pos"])
        if n is None or not isinstance(n, int):
            raise Cannot("read of %r" % (n,))
        if i is None:
            return GARBAGE
        out, got = [], 0
        for x in self.attrs["items"][i:]:
            if 0 <= n < got + x.width:
                break
            out.append(x)
            got += x.width
        if 0 <= n and got != n and i + len(out) < len(self.attrs["items"]):
            return GARBAGE
        m.put(self, "pos", self.attrs["pos"] + got)
        return as_value(out)

    def m_close(self, m):
        m.put(self, "closed", True)

    def m_flush(self, m):
        self.alive()

    def m_seekable(self, m):
        return True

    def m___enter__(self, m):
        return self

    def m_truncate(self, m, size=None):
        self.alive()
        size = self.attrs["pos"] if size is None else size
        i = self.index(size)
        if i is None:
            raise Cannot("truncating inside an item")
        m.put(self, "items", self.attrs["items"][:i])
        return size


class Packer(Lib):
    def __init__(self, m):
        Lib.__init__(self, "packer", ["Packer"], buf=())

    def m_pack(self, m, v):
        return Data([Item(v, m.width(v))])


class Cut(Fixed):
    """the beginning of an item whose rest is missing"""

    def __init__(self):
        Lib.__init__(self, "incomplete item", ["bytes"])


class Unpacker(Lib):
    """takes items from a stream; reads ahead, so afterwards the position of the stream itself says nothing"""

    def __init__(self, stream):
        Lib.__init__(self, "unpacker", ["Unpacker"], stream=stream, base=None, used=0, epoch=None)

    def m_tell(self, m):
        return self.attrs["used"]

    def m_next(self, m):
        s = self.attrs["stream"]
        if s is None:
            raise Cannot("fed unpacker")
        if not isinstance(s, Stream):
            raise Cannot("unpacker over %r" % (s,))
        s.alive()
        if self.attrs["base"] is None:
            m.put(self, "base", s.attrs["pos"])
            m.put(self, "epoch", s.attrs["epoch"])
        elif self.attrs["epoch"] != s.attrs["epoch"]:
            # the stream was moved behind the unpacker's back: what follows is not defined by the position
            m.misread = True
            return GARBAGE
        i = s.index(self.attrs["base"] + self.attrs["used"])
        m.put(s, "pos", max(s.size(), s.attrs["pos"]))
        if i is None:
            m.misread = True
            return GARBAGE
        if i >= len(s.attrs["items"]):
            raise Fail("StopIteration")
        x = s.attrs["items"][i]
        if isinstance(x.value, Cut):
            raise Fail("StopIteration")
        if x.raw:
            m.misread = True
            return GARBAGE
        m.put(self, "used", self.attrs["used"] + x.width)
        return x.value

    def m_unpack(self, m):
        try:
            return self.m_next(m)
        except Fail:
            raise Fail("OutOfData")

    def m_skip(self, m):
        self.m_unpack(m)

    def m_read_bytes(self, m, n):
        s = self.attrs["stream"]
        s.alive()
        if self.attrs["base"] is None:
            m.put(self, "base", s.attrs["pos"])
            m.put(self, "epoch", s.attrs["epoch"])
        i = s.index(self.attrs["base"] + self.attrs["used"])
        if i is not None and isinstance(n, int) and n > 0 and s.size() - self.attrs["base"] - self.attrs["used"] < n:
            m.put(s, "pos", s.size())
            raise Fail("OutOfData")
        if i is not None and i < len(s.attrs["items"]) and isinstance(s.attrs["items"][i].value, Cut) and isinstance(n, int) and n < s.attrs["items"][i].width:
            return Data([Item(GARBAGE, n)])
        if i is None or i >= len(s.attrs["items"]) or s.attrs["items"][i].width != n:
            return GARBAGE
        m.put(self, "used", self.attrs["used"] + n)
        m.put(s, "pos", s.size())
        x = s.attrs["items"][i]
        return x.value if x.raw else Data([x])


class Fn(Lib):
    """a callable value"""

    def __init__(self, name, fn):
        Lib.__init__(self, name, ["function"])
        self.fn = fn


class DictOf(Lib):
    """the __dict__ of an object"""

    def __init__(self, obj):
        Lib.__init__(self, "__dict__ of %r" % obj, ["dict"])
        self.mapping, self.items, self.length, self.truth = True, obj.attrs, len(obj.attrs), bool(obj.attrs)
        self.obj = obj

    def m_update(self, m, *args, **kw):
        for a in args + (kw,):
            d = a.items if isinstance(a, Val) and a.mapping else a
            if not isinstance(d, dict):
                raise Cannot("update with %r" % (a,))
            for k, v in list(d.items()):
                m.put(self.obj, k, v)

    def m_copy(self, m):
        v = Val("dict", ["dict"], items=dict(self.items), length=len(self.items), truth=bool(self.items))
        return v

    def m_get(self, m, k, d=None):
        return self.items.get(k, d)


class Machine:
    def __init__(self, R, hooks=None, **opts):
        self.R, self.prog = R, R.prog
        self.opts = dict(opts, containers=True, effects=("tell", "getvalue", "getbuffer"))
        self.hooks = hooks or {}
        self.opts["no_inline"] = tuple(sorted(set(opts.get("no_inline", ())) | {k for k in self.hooks if ":" not in k}))
        self.log = []
        self.widths = {}
        self.cache = R.__dict__.setdefault("_machine_cache", {})
        self.tr = []
        self.clo_cache = {}
        self.raised = None      # why a condition could not be evaluated
        self.depth = 0
        self.yields = None
        self.consts = []
        self.building = []      # instances of classes that extend a built-in sequence whose __init__ is running
        self.misread = False    # something was read from a place where no item begins
        self.externals = {"io.BytesIO": self.new_buffer, "msgpack.Packer": lambda *a, **k: Packer(self),
                          "msgpack.Unpacker": self.new_unpacker, "msgpack.unpacker": self.new_unpacker}

    # -------------------------------------------------------------- store
    def put(self, obj, name, v):
        if type(v) is dict:
            v = Val("dict", ["dict"], items=v, length=len(v), truth=bool(v))
        self.log.append((obj.attrs, name, obj.attrs.get(name, self)))
        obj.attrs[name] = v

    def undo(self, n):
        while len(self.log) > n:
            d, k, v = self.log.pop()
            if callable(k):
                k()
            elif v is self:
                d.pop(k, None)
            else:
                d[k] = v

    def width(self, v):
        """an abstract encoded size: the same for the same value, different for different values"""
        k = v.parts if isinstance(v, Data) else v
        for q, w in self.widths.get(type(v), ()):
            if same(q, v):
                return w
        if isinstance(v, (bool, type(None))):
            w = 1
        else:
            w = 3 + 7 * sum(map(len, self.widths.values())) + (v.length if isinstance(v, Data) and v.length else 0)
        self.widths.setdefault(type(v), []).append((v, w))
        return w

    def new_buffer(self, m, v=b""):
        s = Stream("buffer", as_parts(v))
        return s

    def new_unpacker(self, m, stream=None, **kw):
        return Unpacker(stream)

    # -------------------------------------------------------------- calls
    def generate(self, f, args, kw=None, cls=None):
        """([what the generator yields], None or the name of the exception that ends it)"""
        if not f.is_gen:
            try:
                v = self.run(f, args, kw, cls)
            except Fail as x:
                return [], x.name
            xs = iterable(v)
            if not isinstance(xs, (list, tuple)):
                raise Cannot("elements of %r" % (v,))
            return list(xs), v.attrs.get("fails") if isinstance(v, Val) else None
        old, self.yields = self.yields, []
        try:
            try:
                self.run(f, args, kw, cls, gen=True)
            except Fail as x:
                return self.yields, x.name
            return self.yields, None
        finally:
            self.yields = old

    def paths(self, f, cls=None, exc=None):
        opts = self.opts if exc is None else dict(self.opts, exc=exc)
        key = (f.qual, f.module.name, cls, repr(sorted(opts.items(), key=str)))
        if key not in self.cache:
            self.cache[key] = self.R.paths(f, self_cls=self.prog.classes.get(cls) if cls else None, **opts)
        return self.cache[key]

    def method(self, obj, name):
        for n in sorted(obj.classes):
            c = self.prog.classes.get(n)
            f = c.find(name) if c is not None else None
            if f is not None:
                return f, n
        return None, None

    def new(self, cls, *args, **kw):
        c = self.prog.classes[cls]
        v = self.blank(cls)
        f = c.find("__init__")
        if f is not None:
            self.run(f, [v] + list(args), kw, cls)
        v.whole = known(c)
        return v

    def blank(self, cls):
        """an instance before its __init__"""
        v = Val("%s object" % cls, [cls])
        bases = set(self.prog.classes[cls].ext_bases()) if cls in self.prog.classes else ()
        if "dict" in bases:
            v.classes = set(v.classes) | {"dict"}
            v.items, v.mapping, v.length, v.truth = {}, True, 0, False
        elif "list" in bases:
            v.classes = set(v.classes) | {"list"}
            v.elems, v.length, v.truth = [], 0, False
        return v

    def construct(self, cls, args, kw):
        """an instance of a class that extends a built-in sequence, holding the given elements"""
        c = self.prog.classes[cls]
        xs = iterable(args[0]) if args else []
        if not isinstance(xs, (list, tuple)):
            xs = self.drain(args[0])
        xs = list(xs)
        names = {cls, "list"} | {k.split(".")[-1] for k in c.mro() if isinstance(k, str)}
        v = Val(cls, sorted(names), elems=xs, length=len(xs), truth=bool(xs))
        f = c.find("__init__")
        if f is not None:
            self.building.append(v)
            try:
                self.run(f, [v] + list(args), kw, cls)
            finally:
                self.building.pop()
        return v

    def drain(self, v):
        """the elements that iterating a value gives"""
        xs = iterable(v)
        if isinstance(xs, (list, tuple)):
            return list(xs)
        if isinstance(v, Val) and not isinstance(v, Lib):
            f, n = self.method(v, "__iter__")
            if f is not None:
                return self.drain(self.run(f, [v], {}, n))
        if v is None or isinstance(v, (int, float)):
            raise Fail("TypeError")
        raise Cannot("elements of %r" % (v,))

    def callable(self, obj):
        return not isinstance(obj, Lib) and bool(obj.classes & set(self.prog.classes)) and self.method(obj, "__call__")[0] is not None

    def invoke(self, obj, name, *args, **kw):
        """obj.name(*args): value; raises Fail"""
        if isinstance(obj, Lib):
            return obj.call(self, name, list(args), kw)
        if isinstance(obj, Val):
            f, n = self.method(obj, name)
            if f is not None:
                return self.run(f, ([] if f.static else [obj]) + list(args), kw, n)
            r = pure(obj, name, args)
            if r is None:
                r = self.mapped(obj, name, args, kw)
            if r is not None:
                return r[0]
        raise Cannot("%s of %r" % (name, obj))

    def mapped(self, obj, name, args, kw):
        """(result,) of a dictionary's own operation, as a user calls it"""
        if not obj.mapping or getattr(obj, "factory", None) is not None or not all(isinstance(a, (str, int)) for a in args[:1]) and name != "update":
            return None
        k = args[0] if args else None
        d = obj.items
        if name == "__contains__":
            return (k in d,)
        if name == "__len__":
            return (len(d),)
        if name in ("keys", "__iter__"):
            return (made("list", list(d)),)
        if name == "values":
            return (made("list", list(d.values())),)
        if name == "items":
            return (made("list", [(x, y) for x, y in d.items()]),)
        if name in ("__getitem__", "__delitem__", "pop") and k not in d and len(args) < 2:
            raise Fail("KeyError")
        if name == "__getitem__":
            return (d[k],)
        new, r = dict(d), None
        if name == "__setitem__":
            new[k] = args[1]
        elif name == "__delitem__":
            del new[k]
        elif name == "pop":
            r = new.pop(k, *args[1:])
        elif name == "setdefault":
            r = new.setdefault(k, args[1] if len(args) > 1 else None)
        elif name == "update":
            new = filled(d, args, kw)
        elif name == "clear":
            new = {}
        else:
            return None
        old = (obj.items, obj.length, obj.truth)

        def back():
            obj.items, obj.length, obj.truth = old
        self.log.append((None, back, None))
        obj.items, obj.length = new, len(new)
        if obj.truth is not None:
            obj.truth = bool(new)
        return (r,)

    def invoke_fn(self, f, *args):
        """f(*args)"""
        if isinstance(f, Fn):
            return f.fn(self, *args)
        if isinstance(f, Val) and self.callable(f):
            return self.invoke(f, "__call__", *args)
        raise Cannot("call of %r" % (f,))

    def next(self, v):
        if isinstance(v, Lib):
            return v.call(self, "next", [], {})
        if isinstance(v, Val) and v.elems is None:
            return self.invoke(v, "__next__")
        if isinstance(v, Val) and v.classes & {"generator", "iterator"}:
            if not v.elems:
                raise Fail(v.attrs.pop("fails", "StopIteration"))
            old = v.elems

            def back():
                v.elems = old
            self.log.append((None, back, None))
            v.elems = old[1:]
            return old[0]
        if v is None:
            raise Fail("TypeError")
        raise Cannot("next of %r" % (v,))

    def bindings(self, en, f, args, kw):
        b = {}
        ps = list(en._params(f.node))
        args = list(args)
        kw = dict(kw)
        missing = []
        for n, k, d in ps:
            if k == "var":
                b[n] = tuple(args)
                args = []
            elif k == "kw":
                b[n] = Val("**" + n, ["dict"], items=dict(kw), length=len(kw), truth=bool(kw))
                kw = {}
            elif args and k == "pos":
                b[n] = args.pop(0)
            elif n in kw:
                b[n] = kw.pop(n)
            else:
                missing.append(n)
        if args or kw:
            raise Fail("TypeError")
        return b, missing

    def run(self, f, args, kw=None, cls=None, gen=False):
        h = self.hooks.get(f.qual)
        if h is not None:
            args, kw = positional(f, args, kw)
            return h(self, *args, **kw)
        if f.is_gen and not gen:
            # taken as a whole where it is created: the rules on laziness do not go through here
            out, failed = self.generate(f, args, kw, cls)
            if failed is not None:
                return Val("generator", ["generator"], {"fails": failed}, elems=out, length=len(out), truth=True)
            return Val("generator", ["generator"], elems=out, length=len(out), truth=True)
        self.depth += 1
        try:
            if self.depth > 12:
                raise Cannot("nesting of calls")
            return self._run(f, args, kw or {}, cls)
        finally:
            self.depth -= 1

    def _run(self, f, args, kw, cls):
        try:
            en, ps = self.paths(f, cls)
            b, missing = self.bindings(en, f, args, kw)
            return self.choose(ps, lambda p: Replay(self, en, p, b, missing, f), f.qual)
        except InTry:
            if self.opts.get("exc"):
                raise
        # a call fails inside a try statement: the paths on which calls fail are needed as well
        en, ps = self.paths(f, cls, any_failing)
        b, missing = self.bindings(en, f, args, kw)
        return self.choose(ps, lambda p: Replay(self, en, p, b, missing, f, any_failing), f.qual)

    def choose(self, ps, replay, what):
        """the outcome of the path that is taken"""
        why = None
        n0 = len(self.log)
        outer, self.raised = self.raised, None
        try:
            return self._choose(ps, replay, what, n0, why)
        finally:
            self.raised = outer

    def _choose(self, ps, replay, what, n0, why):
        for p in ps:
            try:
                r = replay(p).go()
            except Cannot as x:
                why = why or x
                self.undo(n0)
                continue
            if r is None:
                self.undo(n0)
                continue
            if r[0] == "raise":
                self.last = p
                raise Fail(r[1])
            return r[1]
        if why is not None:
            raise why
        if self.raised is not None:
            raise Fail(str(self.raised).split(":")[0])
        raise Cannot("no path of %s fits" % what)


KNOWN_EXC = {"KeyError", "IndexError", "ValueError", "TypeError", "AttributeError", "StopIteration", "AssertionError", "NotImplementedError", "FileNotFoundError",
             "ModuleNotFoundError", "ImportError", "RuntimeError", "ZeroDivisionError", "UnicodeDecodeError", "UnicodeEncodeError", "EOFError"}


class InTry(Cannot):
    """a failure that a handler of the summary may take"""


class Part:
    """one path of a nested function"""

    def __init__(self, guards, events, outcome, st):
        self.guards, self.events, self.outcome, self.st = guards, events, outcome, st


class Replay:
    """one path of a summary applied to the current store"""

    def __init__(self, m, en, p, bind, missing, f, exc=None):
        self.m, self.en, self.p, self.f = m, en, p, f
        self.exc = exc or m.opts.get("exc")
        self.params, self.missing = bind, missing
        self.bind = {}
        self.clos = {}
        self.now = {}           # id(container) -> its version
        self.snaps = {}         # (id(container), version) -> the container as it was
        self.reached = set()    # versions that exist already
        self.by = {}            # id(container) -> terms it was changed through
        self.entry = {}         # (id(obj), name) -> value at the start of the path
        self.written = set()    # attribute names written so far
        self.kept = []
        self.puts = {}          # (id(obj), name) -> how often it was written
        self.tries = []         # what the handlers of the try statements around the current point take
        self.rounds = {}        # loop -> what was changed in the current round: values at its start
        self.defaults = {}
        self.E = REv(self)
        self.failed = None

    def closure(self, t):
        """a function made on the path: it sees the variables of its frame as they are when it is called"""
        if t not in self.clos:
            self.clos[t] = []
        for seen, fn in self.clos[t]:
            if seen == self.bind:
                return fn
        seen = dict(self.bind)
        code = self.en.codes[t.a[0]]
        ar = code.node.args
        if any(not isinstance(d, ast.Constant) for d in list(ar.defaults) + [d for d in ar.kw_defaults if d is not None]):
            raise Cannot("default of a nested function")
        fn = Fn("function", lambda m, *a, **kw: self.call_closure(t, code, seen, a, kw))
        self.clos[t].append((seen, fn))
        return fn

    def call_closure(self, t, code, seen, args, kw):
        m, en = self.m, self.en
        key = (self.p, t, len(args), tuple(sorted(kw)))
        ps = [n for n, k, d in en._params(code.node) if k == "pos"]
        names = [mk("sym", "%%arg%d" % i, en._ann_of(code, ps[i], "pos") if i < len(ps) and not isinstance(code.node, ast.Lambda) else None) for i in range(len(args))]
        kws = {k: mk("sym", "%%kw_%s" % k, None) for k in kw}
        if key not in m.clo_cache:
            st = self.p.st.fork()
            n0, e0 = len(st.guards), len(st.events)
            m.clo_cache[key] = [(Part(s.guards[n0:], s.events[e0:], v if isinstance(v, tuple) else ("ret", v), s))
                                for s, v in en.run_clo(t, names, kws, st)]
        vals = dict(zip(names, args))
        vals.update({kws[k]: v for k, v in kw.items()})

        def replay(p):
            r = Replay(m, en, p, self.params, self.missing, self.f, self.exc)
            r.bind = dict(self.bind)
            r.bind.update(seen)
            r.bind.update(vals)
            r.written = set(p.st.epoch)
            r.clos = self.clos
            return r
        if code.is_gen:
            old, m.yields = m.yields, []
            try:
                try:
                    m.choose(m.clo_cache[key], replay, code.qual)
                    failed = {}
                except Fail as x:
                    failed = {"fails": x.name}
                return Val("generator", ["generator"], failed, elems=m.yields, length=len(m.yields), truth=True)
            finally:
                m.yields = old
        m.depth += 1
        try:
            if m.depth > 12:
                raise Cannot("nesting of calls")
            return m.choose(m.clo_cache[key], replay, code.qual)
        finally:
            m.depth -= 1

    def forks(self, f):
        return self.exc(self.en, f, (), {}, None)

    def default(self, name):
        if name not in self.defaults:
            st_v = None
            for n, k, d in self.en._params(self.f.node):
                if n == name:
                    st_v = d
            if st_v is None:
                raise Fail("TypeError")
            try:
                self.defaults[name] = ast.literal_eval(st_v)
            except (ValueError, TypeError):
                h = self.m.hooks.get("default:%s" % name)
                if h is None and isinstance(st_v, (ast.Name, ast.Attribute)):
                    from evalx import Ctx
                    r = self.en.ev(st_v, self.en.const_state, Ctx(self.f.module, self.f.cls, self.f.qual, 0, None))
                    if len(r) == 1 and isinstance(r[0][1], T):
                        h = self.ev(r[0][1])
                if h is None:
                    raise Cannot("default of %s" % name)
                self.defaults[name] = h
        return self.defaults[name]

    def ev(self, t):
        self.E.memo = {}
        return self.E.ev(t)

    def go(self):
        """None when the path is not the one taken; ("ret", value) or ("raise", class name)"""
        try:
            pend = self.seq(self.p.events, self.p.guards)
            if pend is None:
                return None
            if self.p.outcome[0] == "raise":
                n = exc_name(self.p.outcome[1])
                return ("raise", n if n != "?" or self.failed is None else self.failed.name)
            v = self.p.outcome[1]
            return ("ret", self.ev(v) if isinstance(v, T) else v)
        except Fail as x:
            return ("raise", x.name)
        except Raised as x:
            return ("raise", str(x).split(":")[0].split()[0] if str(x) else "Exception")

    def check(self, pend):
        """the guards still undecided; None when one is violated"""
        left = []
        for g, b in pend:
            try:
                if g.op in LOOPG:
                    k = self.bind.get(("loop", g.a[0]))
                    if k is None:
                        left.append((g, b))
                    elif k != g.op:
                        return None
                    continue
                self.E.memo = {}
                if self.E.truth(g) != b:
                    return None
            except Unbound:
                left.append((g, b))
            except Raised as x:
                self.m.raised = x
                return None
        return left

    def seq(self, events, guards):
        pend = self.check(list(guards))
        if pend is None:
            return None
        for e in events:
            n0 = len(self.tries)
            try:
                if self.event(e, guards) is False:
                    return None
            except (Fail, Raised) as x:
                n = x.name if isinstance(x, Fail) else str(x).split(":")[0].split()[0] if str(x) else "?"
                if any(self.handles(t, n) for t in self.tries[:n0]):
                    raise InTry("%s inside a try statement" % n)
                raise
            pend = self.check(pend)
            if pend is None:
                return None
        for g, b in pend:
            raise Cannot("undecided: %s" % show(g)[:100])
        return pend

    def version(self, t, x, ver):
        """the container x, denoted by the term t, as it was at the version"""
        if not isinstance(x, Val):
            return x
        if looped(ver):
            return self.rounds.get(ver[1], {}).get((id(x), "[]"), x)
        if not isinstance(ver, int):
            return x
        if ver == 0:
            return self.snaps.get((id(x), 0), x) if t in self.by.get(id(x), ()) else x
        if ver not in self.reached and ver in versions(self.p):
            raise Unbound(show(t)[:80])
        return self.snaps.get((id(x), ver), x)

    def defaulted(self, x, k):
        """a missing key of a defaultdict"""
        if k not in x.made:
            if k in x.items:
                raise Unbound("key %r" % (k,))
            fn = x.factory
            if isinstance(fn, Fn):
                v = fn.fn(self.m)
            elif isinstance(fn, T) and fn.op == "builtin" and fn.a[0] in ("list", "dict", "set"):
                v = Val(fn.a[0], [fn.a[0]], elems=None if fn.a[0] == "dict" else [], items={} if fn.a[0] == "dict" else None, length=0, truth=False)
            elif isinstance(fn, T) and fn.op == "builtin" and fn.a[0] in ("int", "bool", "str"):
                v = {"int": 0, "bool": False, "str": ""}[fn.a[0]]
            else:
                raise Cannot("defaultdict of %r" % (fn,))
            old = (dict(x.items), x.length, x.truth)

            def back():
                x.items, x.length, x.truth = old
                x.made.pop(k, None)
            self.m.log.append((None, back, None))
            x.made[k] = v
            x.items = dict(x.items)
            x.items[k] = v
            x.length = len(x.items)
            x.truth = True
        return x.made[k]

    def handles(self, names, n):
        """may a handler take the failure (and go on)?"""
        return bool(names) and (bool(set(names) & {"*", "Exception", "BaseException", n}) or any(
            x in ("LookupError", "ArithmeticError", "OSError", "IOError", "EnvironmentError") or x not in KNOWN_EXC for x in names))

    def put(self, obj, name, v):
        if not isinstance(obj, Val):
            raise Cannot("attribute of %r" % (obj,))
        self.entry.setdefault((id(obj), name), obj.attrs.get(name, self))
        for r in self.rounds.values():
            r.setdefault((id(obj), name), obj.attrs.get(name, self))
        self.kept.append(obj)
        self.puts[id(obj), name] = self.puts.get((id(obj), name), 0) + 1
        self.written.add(name)
        self.m.put(obj, name, v)

    def event(self, e, guards):
        k, a, m = e.kind, e.a, self.m
        if k == "loop":
            return self.loop(a[0], guards)
        if self.exc and k == "call":
            try:
                self.bind[a[3]] = self.called(a[0], a[1], a[2], e)
            except Fail:
                if self.forks(a[0]):
                    return False     # the path on which the call fails is another one
                raise
        elif k == "excall":
            try:
                self.called(a[0], a[1], (), e)
            except Fail as x:
                self.failed = x
                return None
            return False
        elif k == "setattr":
            self.put(self.ev(a[0]), a[1], self.ev(a[2]))
        elif k == "delattr":
            v = self.ev(a[0])
            if not isinstance(v, Val) or isinstance(v, Lib) or a[1] not in v.attrs:
                raise Cannot("removal of attribute %s of %r" % (a[1], v))
            self.put(v, a[1], None)
            del v.attrs[a[1]]
        elif k == "new":
            v = self.bind[a[0]] = m.blank(a[1].a[0])
            self.kept.append(v)
            self.puts[id(v), "%new"] = 1
            h = m.hooks.get("new:" + a[1].a[0])
            if h is not None:
                av, kv = [self.ev(x) for x in a[2]], self.kwargs(a[3])
                init = m.prog.classes[a[1].a[0]].find("__init__") if a[1].a[0] in m.prog.classes else None
                if init is not None:
                    av, kv = positional(init, av, kv, 1)
                h(m, v, *av, **kv)
            elif a[1].a[0] in m.prog.classes and a[1].a[0] not in m.opts.get("opaque_new", ()):
                v.whole = known(m.prog.classes[a[1].a[0]])
        elif k == "extinit":
            v = self.ev(a[0])
            av, kv = self.args(a[1]), self.kwargs(a[2])
            if not isinstance(v, Val):
                raise Cannot("contents of %r" % (v,))
            if v.mapping:
                v.items = filled({}, av, kv)
                v.length, v.truth = len(v.items), bool(v.items)
            elif not any(v is y for y in m.building):
                v.elems = m.drain(av[0]) if av else []
                v.length, v.truth = len(v.elems), bool(v.elems)
        elif k == "alias":
            v = self.bind[a[0]] = self.ev(a[1])
            for key in [key for key in self.snaps if key[0] == id(v)]:
                del self.snaps[key]
            self.now.pop(id(v), None)
        elif k == "newc":
            try:
                self.bind[a[0]] = self.container(a[0], a[1])
                if len(a) > 2:
                    self.bind[a[0]].factory, self.bind[a[0]].made = self.ev(a[2]), {}
            except Cannot:
                if a[0].a[1] != "gen":
                    raise
                self.bind.pop(a[0], None)       # a view whose elements are taken one by one by the loop over it
        elif k == "call":
            self.bind[a[3]] = self.called(a[0], a[1], a[2], e)
        elif k == "nonext":
            try:
                m.next(self.ev(a[0]))
            except Fail as x:
                if x.name != "StopIteration":
                    raise
                self.bind[a[1]] = False
                return None
            return False
        elif k == "next":
            v = self.ev(a[0])
            try:
                self.bind[a[2]] = m.next(v)
                if len(a) > 3:
                    self.bind[a[3]] = True
            except Fail as x:
                if x.name == "StopIteration" and len(a) > 3:
                    return False
                if x.name == "StopIteration" and a[1]:
                    self.bind[a[2]] = self.ev(a[1][0])
                else:
                    raise
        elif k in ("mut", "setitem", "delitem"):
            self.mutate(k, a, e.ver)
        elif k == "enter":
            v = self.ev(a[0])
            self.bind[mk("entered", a[0])] = v.call(m, "__enter__", [], {}) if isinstance(v, Lib) and hasattr(v, "m___enter__") else v
        elif k == "exit":
            v = self.ev(a[0])
            if isinstance(v, Lib):
                v.call(m, "close", [], {})
            elif isinstance(v, Val) and m.method(v, "__exit__")[0] is not None:
                m.invoke(v, "__exit__", None, None, None)
        elif k == "yield":
            if m.yields is None:
                raise Cannot("yield")
            m.yields.append(self.ev(a[0]))
            m.log.append((None, m.yields.pop, None))
        elif k == "try":
            self.tries.append(a[1])
        elif k == "endtry":
            self.tries.pop()
        elif k == "caught":
            if self.failed is not None and isinstance(a[0], T) and a[0].op == "anyexc" and len(a) > 1 and a[1] is not None and not handles(a[1], self.failed.name):
                return False     # a handler of other exceptions
        elif k == "uncaught":
            if self.failed is not None and isinstance(a[0], T) and a[0].op == "anyexc" and (a[1] is None or handles(a[1], self.failed.name)):
                return False     # the handler takes it
        elif k in ("raise", "iter", "enterfn"):
            pass
        else:
            raise Cannot("effect %s" % k)

    def args(self, xs):
        out = []
        for x in xs:
            if x.op == "star":
                v = iterable(self.ev(x.a[0]))
                if not isinstance(v, (list, tuple)):
                    raise Cannot("unpacked %r" % (v,))
                out.extend(v)
            else:
                out.append(self.ev(x))
        return out

    def kwargs(self, kws):
        out = {}
        for k, v in kws:
            v = self.ev(v)
            if k.startswith("*"):
                out.update(v.items if isinstance(v, Val) and v.mapping else v if isinstance(v, dict) else {})
            else:
                out[k] = v
        return out

    def container(self, oid, content):
        self.E.memo = {}
        self.E.making = lambda t, ev: self.collected({"map": "dict"}.get(t.op, t.op), ev.segs(t.a[0]))
        try:
            xs = self.E.segs(content) if content else []
        finally:
            self.E.making = None
        return self.collected(oid.a[1], xs)

    def collected(self, kind, xs):
        v = Val(kind, [{"gen": "generator"}.get(kind, kind)])
        if kind in ("dict", "defaultdict"):
            v.items, v.mapping = dict(xs), True
            v.length = len(v.items)
        else:
            if kind == "set":
                ys = []
                for x in xs:
                    if not any(self.E.equal(x, y) for y in ys):
                        ys.append(x)
                xs = ys
            v.elems = list(xs)
            v.length = len(xs)
        v.truth = v.length > 0
        return v

    def mutate(self, k, a, ver=None):
        m = self.m
        b = self.ev(a[0])
        if isinstance(b, Lib) and k == "mut":
            self.bind[a[3]] = b.call(m, a[1], [self.ev(x) for x in a[2]], {})
            return
        if not isinstance(b, Val):
            raise Cannot("change of %r" % (b,))
        if k == "mut":
            args = [self.ev(x) for x in a[2]]
            name = a[1]
        else:
            name = k
            if isinstance(a[1], T) and a[1].op == "slice":
                args = [slice(*[self.ev(y) if isinstance(y, T) else y for y in a[1].a])] + [self.ev(x) for x in a[2:3]]
            else:
                args = [self.ev(x) for x in a[1:3]] if k == "setitem" else [self.ev(a[1])]
        old = (dict(b.items), None if b.elems is None else list(b.elems), b.length, b.truth)

        def back():
            b.items, b.elems, b.length, b.truth = old
        snap = Val(b.name, b.classes, b.attrs, old[3], old[0] if b.mapping else None, old[2], old[1])
        snap.factory, snap.made = getattr(b, "factory", None), getattr(b, "made", None)
        self.snaps.setdefault((id(b), self.now.get(id(b), 0)), snap)
        self.by[id(b)] = self.by.get(id(b), ()) + (a[0],)
        if ver is not None:
            self.reached.add(ver)
            self.now[id(b)] = ver
            self.snaps.pop((id(b), ver), None)
        for r in self.rounds.values():
            r.setdefault((id(b), "[]"), snap)
        self.kept.append(b)
        m.log.append((None, back, None))
        r = None
        if b.mapping:
            b.items = dict(b.items)
            if args and name in ("setitem", "__setitem__", "delitem", "__delitem__", "setdefault", "pop"):
                args[0] = self.E.key_of(args[0], b.items)
            if name == "setitem" or name == "__setitem__":
                b.items[args[0]] = args[1]
            elif name in ("delitem", "__delitem__"):
                if args[0] not in b.items:
                    raise Fail("KeyError")
                del b.items[args[0]]
            elif name == "setdefault":
                r = b.items.setdefault(args[0], args[1] if len(args) > 1 else None)
            elif name == "pop":
                if args[0] not in b.items and len(args) < 2:
                    raise Fail("KeyError")
                r = b.items.pop(args[0], args[1] if len(args) > 1 else None)
            elif name == "update" and len(args) <= 1:
                b.items = filled(b.items, args, self.kwargs(a[4]) if len(a) > 4 else {})
            elif name == "clear":
                b.items = {}
            else:
                raise Cannot("%s of a dictionary" % name)
            b.length = len(b.items)
        elif b.elems is not None:
            xs = list(b.elems)
            isset = "set" in b.classes

            def seq(x):
                x = iterable(x)
                if not isinstance(x, (list, tuple)):
                    raise Cannot("elements of %r" % (x,))
                return list(x)

            def pos(x):
                for i, y in enumerate(xs):
                    if self.E.equal(x, y):
                        return i
            if name == "append":
                xs.append(args[0])
            elif name == "add" and isset:
                if pos(args[0]) is None:
                    xs.append(args[0])
            elif name == "extend":
                xs.extend(seq(args[0]))
            elif name == "update" and isset:
                for x in seq(args[0]):
                    if pos(x) is None:
                        xs.append(x)
            elif name == "intersection_update" and isset:
                ys = seq(args[0])
                xs = [x for x in xs if any(self.E.equal(x, y) for y in ys)]
            elif name in ("difference_update",) and isset:
                ys = seq(args[0])
                xs = [x for x in xs if not any(self.E.equal(x, y) for y in ys)]
            elif name in ("remove", "discard"):
                i = pos(args[0])
                if i is not None:
                    xs.pop(i)
                elif name == "remove":
                    raise Fail("KeyError" if isset else "ValueError")
            elif name == "insert":
                xs.insert(args[0], args[1])
            elif name == "pop" and not isset:
                if not xs:
                    raise Fail("IndexError")
                r = xs.pop(*args)
            elif name == "popleft":
                if not xs:
                    raise Fail("IndexError")
                r = xs.pop(0)
            elif name == "appendleft":
                xs.insert(0, args[0])
            elif name == "clear":
                xs = []
            elif name == "reverse":
                xs.reverse()
            elif name == "sort":
                kw = dict(a[4]) if len(a) > 4 else {}
                t = mk("call", B("sorted"), (a[0],), tuple(sorted(kw.items())))
                self.E.memo = {}
                xs = list(self.E.ev(t))
            elif name in ("delitem", "__delitem__") and isinstance(args[0], slice):
                del xs[args[0]]
            elif name in ("delitem", "__delitem__") and isinstance(args[0], int):
                if not -len(xs) <= args[0] < len(xs):
                    raise Fail("IndexError")
                del xs[args[0]]
            elif name in ("setitem", "__setitem__") and isinstance(args[0], int):
                if not -len(xs) <= args[0] < len(xs):
                    raise Fail("IndexError")
                xs[args[0]] = args[1]
            else:
                kd = kind_of(b)
                if kd is not None and not hasattr(BUILTIN[kd], name):
                    raise Fail("AttributeError")
                raise Cannot("%s of a %s" % (name, b.name))
            b.elems = xs
            b.length = len(xs)
        else:
            raise Cannot("%s of %r" % (name, b))
        b.truth = b.length > 0
        if k == "mut" and a[3] is not NONE:
            self.bind[a[3]] = r

    def called(self, f, args, kws, e):
        m = self.m
        av = self.args(args)
        kv = self.kwargs(kws)
        if f.op == "umeth" and f.a[:2] == ("dict", "fromkeys") and av:
            ks = iterable(av[0])
            if isinstance(ks, (list, tuple)):
                v = Val("dict", ["dict"], items={k: av[1] if len(av) > 1 else None for k in ks})
                v.length, v.truth, v.mapping = len(v.items), bool(v.items), True
                return v
        if f.op in ("meth", "vmeth", "bound", "attr"):
            b = self.ev(f.a[0])
            if f.op == "bound":
                return m.run(self.en.func_of(f.a[1]), [b] + av, kv)
            name = f.a[1]
            x = b.attrs.get(name) if isinstance(b, Val) else None
            if isinstance(x, Fn):
                return x.fn(m, *av, **kv)
            if isinstance(x, Val) and m.callable(x):
                return m.invoke(x, "__call__", *av, **kv)
            if name == "__init__" and any(b is y for y in m.building):
                return None     # the initialiser of the built-in class
            if b is None:
                raise Fail("AttributeError")
            if name == "__iter__" and not av:
                return b
            if name == "__next__" and not av:
                return m.next(b)
            if isinstance(b, Val):
                h = m.hooks.get("meth:" + name)
                if h is not None and not isinstance(b, Lib):
                    g, n = m.method(b, name)
                    if g is not None:
                        av, kv = positional(g, av, kv, 0 if g.static else 1)
                    return h(m, b, *av, **kv)
                return m.invoke(b, name, *av, **kv)
            if isinstance(b, bytes) and name == "join" and len(av) == 1:
                return joined(b, av[0])
            if isinstance(b, (str, bytes, int, tuple, dict)) and name in STRM | {"to_bytes"} and plain_args(av):
                try:
                    return getattr(b, name)(*av, **kv)
                except Exception as x:
                    raise Fail(type(x).__name__)
            if isinstance(b, T) and b.op == "builtin" and av and isinstance(av[0], Val) and b.a[0] in av[0].classes:
                return m.invoke(av[0], name, *av[1:], **kv)
            raise Cannot("%s of %r" % (name, b))
        if f.op == "umeth":
            if av and isinstance(av[0], Val) and f.a[0] in av[0].classes:
                return m.invoke(av[0], f.a[1], *av[1:], **kv)
            if not av:
                raise Fail("TypeError")
            raise Cannot("%s of %r" % (f.a[1], av))
        if f.op == "func":
            return m.run(self.en.func_of(f), av, kv)
        if f.op == "class":
            raise Fail(f.a[0]) if False else Cannot("construction of %s" % f.a[0])
        if f.op in ("ext", "builtin"):
            h = m.externals.get(f.a[0])
            if h is not None:
                return h(m, *av, **kv)
            x = getattr(builtins, f.a[0], None) if f.op == "builtin" else None
            if isinstance(x, type) and issubclass(x, BaseException):
                return Val(f.a[0], [f.a[0]], {"args": tuple(av)})
            t = mk("call", f, args, kws)
            return self.ev(t)
        v = self.ev(f)
        if isinstance(v, Fn):
            return v.fn(m, *av, **kv)
        if isinstance(v, Val) and m.callable(v):
            return m.invoke(v, "__call__", *av, **kv)
        raise Cannot("call of %s" % show(f)[:60])

    # -------------------------------------------------------------- loops
    def loop(self, li, guards):
        m = self.m
        L = li.L
        kind = [g.op for g, b in guards if g.op in LOOPG and g.a[0] == L]
        want = kind[0] if kind else "loopdone"
        cur = {}
        for name, (init, vals) in li.updates.items():
            if init is not None:
                try:
                    cur[name] = self.ev(init)
                except (Cannot, Raised):
                    pass
            elif not isinstance(name, str):
                pass
        src = self.source(li)
        rounds = 0
        while True:
            bd = next(src, None)
            if bd is None:
                # the elements are used up
                for n, v in cur.items():
                    self.bind[lkey("lout", n, li.updates[n][0], L)] = v
                for n in li.updates:
                    if not isinstance(n, str) and n not in cur and not rounds:
                        b = self.ev(n[0])
                        if isinstance(b, Val) and n[1] in b.attrs:
                            self.bind[lkey("lout", n, li.updates[n][0], L)] = b.attrs[n[1]]
                self.bind[("loop", L)] = "loopdone"
                self.ended(li)
                return want == "loopdone"
            rounds += 1
            if rounds > (60 if li.dom.op == "while" else 1000):
                raise Cannot("loop without end")
            self.bind.update(bd)
            for n, v in cur.items():
                self.bind[lkey("lvar", n, li.updates[n][0], L)] = v
            for n in li.updates:
                if not isinstance(n, str) and n not in cur:
                    b = self.ev(n[0])
                    if isinstance(b, Val) and n[1] in b.attrs:
                        self.bind[lkey("lvar", n, li.updates[n][0], L)] = b.attrs[n[1]]
            self.forget(li)
            self.rounds[L] = {}
            raised, self.m.raised = self.m.raised, None
            step = self.round(li, cur)
            raised, self.m.raised = self.m.raised, raised
            if step is None and raised is not None:
                # a condition of the round fails on every path
                if any(e.kind == "try" for lp in li.paths for e in lp.events):
                    raise Cannot("%s inside a loop with a try statement" % raised)
                raise Fail(str(raised).split(":")[0].split()[0] if str(raised) else "Exception")
            if step == "exit":
                self.forget(li)
                # the remaining events of the path are those of the round that leaves the loop
                if want == "loopdone":
                    return False
                self.bind[("loop", L)] = want
                return None
            if step is None and li.dom.op == "while":
                # the condition no longer holds
                self.forget(li)
                for n, v in cur.items():
                    self.bind[lkey("lout", n, li.updates[n][0], L)] = v
                self.bind[("loop", L)] = "loopdone"
                self.ended(li)
                return want == "loopdone"
            if step is None:
                raise Cannot("no way through a round of the loop")
            cur = step

    def ended(self, li):
        for nm, v in li.vers.items():
            self.reached.add(v)
            if isinstance(nm, tuple):
                try:
                    b = self.ev(nm[1])
                except (Cannot, Raised):
                    continue
                self.now[id(b)] = v
                self.kept.append(b)

    def forget(self, li):
        """results of the previous round"""
        for lp in li.paths:
            for e in lp.events:
                if e.ver is not None:
                    self.reached.discard(e.ver)
                elif e.kind == "loop":
                    self.reached -= set(e.a[0].vers.values())
                if e.kind == "loop":
                    n = e.a[0].L
                    self.bind.pop(("loop", n), None)
                    for k in [k for k in self.bind if isinstance(k, T) and k.op in ("elem", "idx", "lvar", "lout") and k.a[-1] == n]:
                        del self.bind[k]
                    self.forget(e.a[0])
                else:
                    t = {"call": 3, "next": 2, "mut": 3, "new": 0, "newc": 0, "alias": 0}.get(e.kind)
                    if t is not None:
                        self.bind.pop(e.a[t], None)

    def source(self, li):
        dom, L = li.dom, li.L
        if dom.op == "while":
            while True:
                yield {}
        try:
            v = self.ev(dom)
        except Unbound:
            raise
        except (Cannot, Raised):
            v = None
        if isinstance(v, Val) and v.attrs.get("fails"):
            for i, x in enumerate(v.elems):
                yield {mk("elem", dom, L): x, mk("idx", L): i}
            raise Fail(v.attrs["fails"])
        if isinstance(v, Val) and v.elems is None and not v.mapping:
            i = 0
            if not isinstance(v, Lib):
                f, n = self.m.method(v, "__iter__")
                if f is not None:
                    v = self.m.run(f, [v], {}, n)
            if isinstance(v, Val) and v.elems is not None and not v.classes & {"generator", "iterator"}:
                for i, x in enumerate(list(v.elems)):
                    yield {mk("elem", dom, L): x, mk("idx", L): i}
                return
            while True:
                try:
                    x = self.m.next(v)
                except Fail as z:
                    if z.name == "StopIteration":
                        return
                    raise
                yield {mk("elem", dom, L): x, mk("idx", L): i}
                i += 1
        else:
            self.E.memo = {}
            yield from domain(dom, L, self.E)

    def round(self, li, cur):
        """variables after the round; "exit" when the round leaves the loop"""
        m = self.m
        n0 = len(m.log)
        def save():
            return dict(self.bind), dict(self.entry), set(self.written), dict(self.now), dict(self.snaps), set(self.reached), dict(self.by), list(self.tries)

        def back(s):
            b, e, w, n, sn, r, by, tr = s
            self.tries = list(tr)
            self.bind, self.entry, self.written = dict(b), dict(e), set(w)
            self.now, self.snaps, self.reached, self.by = dict(n), dict(sn), set(r), dict(by)
        s0 = save()
        why = None
        exits = False
        for lp in li.paths:
            back(s0)
            try:
                ok = self.seq(lp.events, lp.guards) is not None
            except Cannot as x:
                why = why or x
                ok = False
            except (Fail, Raised) as x:
                # a library operation fails during the round: the same failure ends every way through it
                fl = x
                ok = False
                m.undo(n0)
                back(s0)
                raise
            if ok and lp.outcome == "next":
                new = {}
                for n, (init, vals) in li.updates.items():
                    vs = [v for g, v in vals if g is lp.guards or g == lp.guards]
                    if vs and vs[0] is not None:
                        try:
                            new[n] = self.ev(vs[0])
                        except Unbound:
                            pass        # not assigned in this round
                return new
            m.undo(n0)
            if ok:
                exits = True
                break
        back(s0)
        if exits:
            return "exit"
        if why is not None:
            raise why
        return None


def looped(v):
    """the version of a value at the start of a round of a loop"""
    return isinstance(v, tuple) and len(v) == 2 and v[0] == "L"


def versions(p):
    """versions of containers made on the path"""
    if not hasattr(p, "versions"):
        out = set()

        def go(es):
            for e in es:
                if e.ver is not None:
                    out.add(e.ver)
                if e.kind == "loop":
                    out.update(e.a[0].vers.values())
                    for lp in e.a[0].paths:
                        go(lp.events)
        go(p.events)
        p.versions = out
    return p.versions


ABCS = {"Sized", "Container", "ABC"}


def positional(f, args, kw, skip=0):
    """keyword arguments that follow the given ones in the order of the signature, as positional arguments"""
    args, kw = list(args), dict(kw or {})
    a = f.node.args
    for p in (a.posonlyargs + a.args)[len(args) + skip:]:
        if p.arg not in kw:
            break
        args.append(kw.pop(p.arg))
    return args, kw


def known(c):
    """every attribute of an object of the class is set on the object or found in the classes of the repository"""
    return c.find("__getattr__") is None and c.find("__getattribute__") is None and not [b for b in c.ext_bases() if b != "object" and b.split(".")[-1] not in ABCS] \
        and not any(k.attrs for k in c.mro() if not isinstance(k, str))


BUILTIN = {"list": list, "set": set, "frozenset": frozenset, "dict": dict, "tuple": tuple}
SETOPS = {"union", "intersection", "difference", "issubset", "issuperset", "isdisjoint", "copy", "symmetric_difference"}
OPS = {"bitand": "intersection", "bitor": "union", "bitxor": "symmetric_difference", "sub": "difference", "lin": "difference"}


def kind_of(v):
    for k in BUILTIN:
        if isinstance(v, Val) and k in v.classes:
            return k


def made(kind, xs):
    return Val(kind, [kind], elems=list(xs), length=len(xs), truth=bool(xs))


def pure(obj, name, args):
    """(result,) of an operation of a built-in container that leaves it as it was"""
    k = kind_of(obj)
    if k is None:
        return None
    if not hasattr(BUILTIN[k], name):
        raise Fail("AttributeError")
    if obj.mapping:
        if name == "copy" and not args:
            v = Val("dict", ["dict"], items=dict(obj.items), length=len(obj.items), truth=bool(obj.items))
            v.mapping = True
            return (v,)
        if name == "get":
            return (obj.items.get(args[0], args[1] if len(args) > 1 else None),)
        return None
    if obj.elems is None:
        return None
    xs = obj.elems
    if name == "copy" and not args:
        return (made(k, xs),)
    if name == "__len__":
        return (len(xs),)

    def has(ys, x):
        return any(same_value(x, y) for y in ys)
    if k in ("set", "frozenset") and name in SETOPS:
        yss = []
        for a in args:
            y = iterable(a)
            if not isinstance(y, (list, tuple)):
                return None
            yss.append(list(y))
        if name == "union":
            out = list(xs)
            for ys in yss:
                out += [y for y in ys if not has(out, y)]
            return (made(k, out),)
        if name == "intersection":
            return (made(k, [x for x in xs if all(has(ys, x) for ys in yss)]),)
        if name == "difference":
            return (made(k, [x for x in xs if not any(has(ys, x) for ys in yss)]),)
        if name == "symmetric_difference":
            return (made(k, [x for x in xs if not has(yss[0], x)] + [y for y in yss[0] if not has(xs, y)]),)
        if name == "issubset":
            return (all(has(yss[0], x) for x in xs),)
        if name == "issuperset":
            return (all(has(xs, y) for y in yss[0]),)
        if name == "isdisjoint":
            return (not any(has(xs, y) for y in yss[0]),)
    if k in ("list", "tuple") and name in ("index", "count") and len(args) == 1:
        at = [i for i, x in enumerate(xs) if same_value(x, args[0])]
        if name == "count":
            return (len(at),)
        if not at:
            raise Fail("ValueError")
        return (at[0],)
    return None


def filled(d, args, kw):
    """what dict.update makes of d"""
    d = dict(d)
    for x in args:
        if isinstance(x, Val) and x.mapping:
            d.update(x.items)
        elif isinstance(x, dict):
            d.update(x)
        else:
            if not isinstance(iterable(x), (list, tuple)):
                raise Cannot("pairs %r" % (x,))
            for p in iterable(x):
                p = iterable(p)
                if not isinstance(p, (list, tuple)) or len(p) != 2:
                    raise Cannot("pairs %r" % (p,))
                d[p[0]] = p[1]
    d.update(kw)
    return d


def unhashable(v):
    return isinstance(v, Val) and not isinstance(v, Lib) and v.classes and v.classes <= {"list", "dict", "set"} or isinstance(v, tuple) and any(unhashable(x) for x in v)


def same_value(x, y):
    if isinstance(x, (Val, Lib)) or isinstance(y, (Val, Lib)):
        return x is y
    return type(x) is type(y) and x == y or x == y and isinstance(x, (int, float)) and isinstance(y, (int, float))


def plain_args(xs):
    return all(plain_args(x) if isinstance(x, (list, tuple)) else not isinstance(x, (Val, T)) for x in xs)


def joined(sep, xs):
    """concatenation of bytes values"""
    xs = iterable(xs)
    if sep != b"" or not isinstance(xs, (list, tuple)):
        raise Cannot("join")
    if any(hasattr(x, "m_concat") for x in xs):
        r = b""
        for x in xs:
            r = x.m_concat(r, True) if hasattr(x, "m_concat") and not hasattr(r, "m_concat") else r.m_concat(x) if hasattr(r, "m_concat") else r + x
        return r
    return as_value([p for x in xs for p in as_parts(x)])


class REv(Evaluator):
    def __init__(self, rp):
        Evaluator.__init__(self, self.look, rp.m.prog)
        self.exact = True
        self.rp = rp
        self.en = rp.en
        self.cur = rp.p

    def look(self, t, ev):
        rp = self.rp
        if t in rp.bind:
            return rp.bind[t]
        o = t.op
        if o == "sym" and t.a[0].startswith("cont:"):
            raise Unbound(show(t))
        if o == "sym":
            n = t.a[0].lstrip("*")
            for k in (t.a[0], n):
                if k in rp.params:
                    return rp.params[k]
            if n in rp.missing:
                return rp.default(n)
            h = rp.m.hooks.get("sym:" + t.a[0])
            if h is not None:
                return h
            return NotImplemented
        if o == "call":
            h = rp.m.hooks.get("term")
            if h is not None:
                r = h(rp.m, t, self)
                if r is not NotImplemented:
                    return r
            if len(t.a) > 3:
                raise Unbound(show(t)[:80])
            if t.a[0].op == "func":
                return rp.m.run(rp.en.func_of(t.a[0]), rp.args(t.a[1]), rp.kwargs(t.a[2]))
            if t.a[0].op == "class" and t.a[0].a[0] in rp.en.opts.get("opaque_classes", ("NodeList",)) and t.a[0].a[0] in rp.m.prog.classes:
                return rp.m.construct(t.a[0].a[0], rp.args(t.a[1]), rp.kwargs(t.a[2]))
            if t.a[0].op in ("meth", "vmeth", "bound") and isinstance(t.a[0].a[1], str):
                x = ev.ev(t.a[0].a[0])
                if kind_of(x) is not None and not isinstance(x, Lib) and len(t.a[0].a) > 2:
                    x = rp.version(t.a[0].a[0], x, t.a[0].a[2])
                if isinstance(x, (int, bytes)) and t.a[0].a[1] in ("to_bytes", "hex", "decode"):
                    av, kv = rp.args(t.a[1]), rp.kwargs(t.a[2])
                    if plain_args(av):
                        try:
                            return getattr(x, t.a[0].a[1])(*av, **kv)
                        except Exception as z:
                            raise Raised(type(z).__name__)
                if kind_of(x) is not None and not t.a[2] and (t.a[0].a[1] in SETOPS or t.a[0].a[1] in ("index", "count")):
                    r = pure(x, t.a[0].a[1], rp.args(t.a[1]))
                    if r is not None:
                        return r[0]
                y = x.attrs.get(t.a[0].a[1]) if isinstance(x, Val) else None
                if isinstance(y, Val) and rp.m.callable(y):
                    return rp.m.invoke(y, "__call__", *rp.args(t.a[1]), **rp.kwargs(t.a[2]))
                if isinstance(x, Lib) or isinstance(x, Val) and rp.m.method(x, t.a[0].a[1])[0] is not None:
                    return rp.m.invoke(x, t.a[0].a[1], *rp.args(t.a[1]), **rp.kwargs(t.a[2]))
            if t.a[0].op in ("ext", "builtin"):
                h = rp.m.externals.get(t.a[0].a[0])
                if h is not None:
                    return h(rp.m, *rp.args(t.a[1]), **rp.kwargs(t.a[2]))
            if t.a[0].op == "builtin" and len(t.a[1]) == 1 and not t.a[2]:
                r = self.builtin(t.a[0].a[0], t.a[1][0])
                if r is not None:
                    return r
            if t.a[0].op in ("sym", "attr", "item", "elem", "meth") and not any(x.op == "star" for x in t.a[1]):
                try:
                    v = ev.ev(t.a[0])
                except Unbound:
                    raise
                except Cannot:
                    v = None
                if isinstance(v, Fn) or isinstance(v, Val) and rp.m.callable(v):
                    av, kv = rp.args(t.a[1]), rp.kwargs(t.a[2])
                    return v.fn(rp.m, *av, **kv) if isinstance(v, Fn) else rp.m.invoke(v, "__call__", *av, **kv)
        if o == "obj":
            if t.a[1] == "inst":
                if (t, "options") in rp.en.const_state.heap or any(k[0] is t for k in rp.en.const_state.heap):
                    return self.constant(t)
                raise Unbound(show(t))
            c = rp.en.const_state.objs.get(t)
            if c is None:
                raise Unbound(show(t))
        if o == "clo":
            return rp.closure(t)
        if o == "bound":
            f, b = rp.en.func_of(t.a[1]), ev.ev(t.a[0])
            return Fn(f.qual, lambda m, *a, **kw: m.run(f, [b] + list(a), kw))
        if o in ("lvar", "lout", "elem", "idx", "hasnext"):
            raise Unbound(show(t)[:80])
        if o == "ext":
            return EXTCONST.get(t.a[0], t)
        if o == "meth" and t.a[0] is NONE and t.a[1] in ("__ne__", "__eq__"):
            # None's own comparison; NotImplemented, what it answers for other values, counts as true
            return Fn("None." + t.a[1], lambda m, x: x is not None if t.a[1] == "__ne__" else True)
        if o == "func":
            f = rp.en.func_of(t)
            return Fn(f.qual, lambda m, *a, **kw: m.run(f, list(a), kw))
        if o == "item":
            x = ev.ev(t.a[0])
            if x is None:
                raise Raised("TypeError")
            if isinstance(x, Val) and x.elems is None and not x.mapping and not x.items and (rp.m.method(x, "__getitem__")[0] is not None or hasattr(x, "m___getitem__")):
                k = t.a[1]
                return rp.m.invoke(x, "__getitem__", slice(*[ev.ev(y) if isinstance(y, T) else y for y in k.a]) if k.op == "slice" else ev.ev(k))
        if o in ("in", "notin"):
            y = ev.ev(t.a[1])
            if isinstance(y, Val) and (y.mapping or y.classes & {"set", "frozenset"}) and unhashable(ev.ev(t.a[0])):
                raise Raised("TypeError")
        if o in ("lt", "le", "gt", "ge"):
            x, y = ev.ev(t.a[0]), ev.ev(t.a[1])
            if (x is None or y is None) and all(v is None or isinstance(v, (int, float, str, bytes, tuple)) for v in (x, y)):
                raise Raised("TypeError")
            if all(isinstance(v, (int, float, str, bytes, tuple)) for v in (x, y)):
                try:
                    x < y
                except TypeError:
                    raise Raised("TypeError")
        k = ev.ev(t.a[1]) if o == "item" and t.a[1].op != "slice" else None
        if o == "item" and (t.a[1].op == "slice" or isinstance(k, slice)):
            x = ev.ev(t.a[0])
            if isinstance(x, Val) and x.elems is not None:
                k = [ev.ev(y) if isinstance(y, T) else y for y in t.a[1].a] if k is None else [k.start, k.stop, k.step]
                if all(isinstance(y, (int, type(None))) for y in k):
                    xs = x.elems[slice(*k)]
                    return Val("slice", ["list"], elems=xs, length=len(xs), truth=bool(xs))
        if o == "hasattr":
            try:
                ev.ev(mk("attr", *t.a))
            except Raised as x:
                if not str(x).startswith("AttributeError"):
                    raise
                return False
            return True
        if o == "attr":
            x = ev.ev(t.a[0])
            if isinstance(x, (bytes, bytearray, str, int, float, tuple, type(None))) and not hasattr(x, t.a[1]):
                raise Raised("AttributeError: %s" % t.a[1])
            if isinstance(x, Val):
                key = (id(x), t.a[1])
                base = rp.entry if t.a[2] == 0 else rp.rounds.get(t.a[2][1]) if looped(t.a[2]) else None
                if base is not None and key in base:
                    if base[key] is rp and (id(x), "%new") in rp.puts:
                        # made on this path: its attributes were set before anything could refer to it
                        if rp.puts.get(key) != 1:
                            raise Unbound(show(t)[:80])
                        return x.attrs[t.a[1]]
                    if base[key] is rp:
                        raise Raised("AttributeError: %s" % t.a[1])
                    return base[key]
                if t.a[2] != 0 and base is None and t.a[1] not in rp.written and not isinstance(x, Lib):
                    raise Unbound(show(t)[:80])
                if t.a[1] in x.attrs:
                    return x.attrs[t.a[1]]
                if t.a[1] == "__dict__" and not isinstance(x, Lib) and x.classes & set(rp.m.prog.classes):
                    return DictOf(x)
                h = rp.m.hooks.get("attr:" + t.a[1])
                if h is not None:
                    return h(rp.m, x)
                if not isinstance(x, Lib) and x.classes & set(rp.m.prog.classes):
                    f, n = rp.m.method(x, t.a[1])
                    if f is not None and f.prop:
                        return rp.m.run(f, [x], {}, n)
                    if f is None and getattr(x, "whole", False):
                        raise Raised("AttributeError: %s" % t.a[1])
                name = t.a[1]
                if kind_of(x) is not None and hasattr(BUILTIN[kind_of(x)], name):
                    return Fn(name, lambda m, *a, **kw: m.invoke(x, name, *a, **kw))
                if kind_of(x) is not None and not isinstance(x, Lib) and set(x.classes) <= set(BUILTIN):
                    raise Raised("AttributeError: %s" % name)
                raise Cannot("attribute %s of %r" % (t.a[1], x))
        if o == "join":
            sep = ev.ev(t.a[0])
            if isinstance(sep, bytes):
                return joined(sep, ev.ev(t.a[1]))
        if o == "fmt" and t.a[0][0].op == "const" and t.a[0][0].a[1].replace("{}", "") == "":
            # a sum whose operands were not known to be text
            vs = [ev.ev(x) for x in t.a[0][1:]]
            if any(hasattr(v, "m_concat") for v in vs):
                return joined(b"", vs)
            if any(isinstance(v, (Data, bytes)) for v in vs):
                return as_value([p for v in vs for p in as_parts(v)])
        if o in ("bitand", "bitor", "bitxor", "sub"):
            vs = [ev.ev(x) for x in t.a]
            if len(vs) == 2 and all(kind_of(v) in ("set", "frozenset") for v in vs):
                r = pure(vs[0], OPS[o], vs[1:])
                if r is not None:
                    return r[0]
            if o != "sub" and len(vs) == 2 and all(isinstance(v, int) for v in vs):
                return {"bitand": vs[0] & vs[1], "bitor": vs[0] | vs[1], "bitxor": vs[0] ^ vs[1]}[o]
        if o in ("add", "lin"):
            r = self.concat(t, ev)
            if r is not None:
                return r
        if o == "at" and len(t.a) == 2:
            return rp.version(t.a[0], ev.ev(t.a[0]), t.a[1])
        if o in ("item", "dget", "len", "nonempty"):
            return self.old(t, ev)
        return NotImplemented

    def segs(self, segs):
        for z in segs:
            if z.op == "for" and any(x.op == "sym" and x.a[0].startswith("cont:") and int(x.a[0][5:]) > z.a[0] for x in walk(z.a[2])):
                raise Unbound("contents made from values of a loop")
        return Evaluator.segs(self, segs)

    def constant(self, t):
        """an instance that a module or class body makes: one object, whichever summary refers to it"""
        m = self.rp.m
        attrs = {}
        for k, v in self.en.const_state.heap.items():
            if k[0] is t:
                if v.op == "obj" and v in self.en.const_state.objs:
                    v = self.en.freeze(v, self.en.const_state)
                x = self.ev(v)
                if v.op == "map" and (isinstance(x, dict) or isinstance(x, Val) and x.mapping):
                    x = dict(x if isinstance(x, dict) else x.items)
                    x = Val("dict", ["dict"], items=x, length=len(x), truth=bool(x))
                    x.mapping = True
                attrs[k[1]] = x
        sig = (t.a[2], sorted((k, repr(sorted(v.items.items(), key=str)) if isinstance(v, Val) else repr(v)) for k, v in attrs.items()))
        for s, v in m.consts:
            if s == sig:
                return v
        v = Val("%s constant" % t.a[2], [t.a[2]], attrs)
        m.consts.append((sig, v))
        return v

    def key_of(self, k, items):
        """the key of a dictionary that is equal to k, for instances of classes that define equality"""
        if not isinstance(k, Val) or isinstance(k, Lib) or k in items or "Node" in k.classes or self.rp.m.method(k, "__eq__")[0] is None:
            return k
        for y in items:
            if isinstance(y, Val) and not isinstance(y, Lib) and y.classes & set(self.rp.m.prog.classes) and self.equal(k, y):
                return y
        return k

    def equal(self, x, y):
        if x is not y and isinstance(x, Val) and isinstance(y, Val) and x.classes == y.classes == {"list"} and x.elems is not None and y.elems is not None:
            return len(x.elems) == len(y.elems) and all(self.equal(a, b) for a, b in zip(x.elems, y.elems))
        if x is not y and isinstance(x, Val) and isinstance(y, Val) and x.classes == y.classes == {"dict"} and x.mapping and y.mapping:
            return len(x.items) == len(y.items) and all(k in y.items and self.equal(v, y.items[k]) for k, v in x.items.items())
        for a, b in ((x, y), (y, x)):
            if isinstance(a, Val) and a.classes and a.classes <= {"list", "dict"} and isinstance(b, (int, float, str, bytes, tuple)):
                return False
        return Evaluator.equal(self, x, y)

    def user_eq(self, a, b):
        if not isinstance(a, Lib) and "Node" not in a.classes and self.rp.m.method(a, "__eq__")[0] is not None:
            r = self.rp.m.invoke(a, "__eq__", b)
            if not isinstance(r, bool):
                raise Cannot("equality of %r, %r" % (a, b))
            return r
        return Evaluator.user_eq(self, a, b)

    def apply(self, f, args):
        if isinstance(f, T) and f.op == "clo":
            return self.rp.closure(f).fn(self.rp.m, *args)
        return Evaluator.apply(self, f, args)

    def builtin(self, name, arg):
        if name == "callable":
            x = self.ev(arg)
            if isinstance(x, T):
                return True if x.op in ("class", "func", "builtin", "clo") else None
            return x is not None and (isinstance(x, Fn) or isinstance(x, Val) and self.rp.m.callable(x))
        if name == "type":
            x = self.ev(arg)
            if x is None or isinstance(x, (bool, int, float, str, bytes, tuple)):
                return mk("builtin", type(x).__name__ if x is not None else "NoneType")
            if isinstance(x, Val) and not isinstance(x, Lib) and len(x.classes) == 1:
                n = next(iter(x.classes))
                return mk("class", n) if n in self.rp.m.prog.classes else mk("builtin", n) if n in BUILTIN else None
            return None
        if name == "bool":
            x = self.ev(arg)
            return x.truth if isinstance(x, Val) and isinstance(x.truth, bool) else bool(x) if not isinstance(x, (Val, T)) else None
        if name == "dict":
            x = self.ev(arg)
            v = Val("dict", ["dict"], items=filled({}, [x], {}))
            v.length, v.truth, v.mapping = len(v.items), bool(v.items), True
            return v
        if name not in ("sorted", "list", "tuple", "set", "frozenset", "iter", "reversed", "sum", "min", "max"):
            return None
        v = self.ev(arg)
        x = iterable(v)
        if isinstance(x, Val) and x.mapping:
            x = list(x.items)
        if name == "iter" and isinstance(v, Val) and (v.classes & {"generator", "iterator"} or isinstance(v, Lib) or not isinstance(x, (list, tuple, dict))):
            f, n = (None, None) if isinstance(v, Lib) else self.rp.m.method(v, "__iter__")
            return v if f is None else self.rp.m.run(f, [v], {}, n)
        if isinstance(x, dict):
            x = list(x)
        if not isinstance(x, (list, tuple)):
            return None
        x = list(x)
        if name in ("sorted", "sum", "min", "max"):
            if not plain_args(x):
                return None
            try:
                x = {"sorted": sorted, "sum": sum, "min": min, "max": max}[name](x)
            except (TypeError, ValueError) as z:
                raise Raised(type(z).__name__)
            if name != "sorted":
                return x
        if name == "tuple":
            return tuple(x)
        if name in ("set", "frozenset"):
            ys = []
            for y in x:
                if unhashable(y):
                    raise Raised("TypeError")
                if not any(self.equal(y, z) for z in ys):
                    ys.append(y)
            x = ys
        if name == "reversed":
            x.reverse()
        kind = {"sorted": "list", "iter": "iterator", "reversed": "iterator"}.get(name, name)
        return Val(kind, [kind], elems=x, length=len(x), truth=bool(x) or kind == "iterator")

    def concat(self, t, ev):
        """a sum of bytes values"""
        if t.op == "add":
            vs = [ev.ev(x) for x in t.a]
        else:
            if t.a[0] != 0 or any(c != 1 for x, c in t.a[1]):
                return None
            vs = [ev.ev(x) for x, c in t.a[1]]
        if any(isinstance(v, Data) for v in vs) and t.op == "add":
            return as_value([p for v in vs for p in as_parts(v)])

    def old(self, t, ev):
        """reads of a container that was changed on the path: as it was when the term was formed"""
        rp = self.rp
        x = ev.ev(t.a[0])
        if not isinstance(x, Val):
            return NotImplemented
        y = rp.version(t.a[0], x, t.a[-1])
        if t.op == "item" and getattr(x, "factory", None) is not None:
            k = ev.ev(t.a[1])
            if k not in y.items:
                return rp.defaulted(x, k)
        if y is x:
            return NotImplemented
        bind = ev.bind if isinstance(ev, Bound) else rp.bind
        new = {t.a[0]: y}
        for k in t.a[1:-1]:
            # the key may read the same container in another of its versions
            if isinstance(k, T) and k not in bind and any(z == t.a[0] for z in walk(k)):
                new[k] = ev.ev(k)
        had = {k: bind.get(k, self) for k in new}
        bind.update(new)
        ev.memo = {}
        try:
            return ev._ev(t)
        finally:
            ev.memo = {}
            for k, v in had.items():
                if v is self:
                    del bind[k]
                else:
                    bind[k] = v
