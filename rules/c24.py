"""C24: searching an index hands out exactly the documents that meet the conditions, from the files below the base directory."""
import itertools
import posixpath
from rules.store import *

PROPS = ("p", "q", "s")
# (file, block sizes, properties of the documents)
TABLE = [
    ("a.docria", (2, 3), [{"p": "x", "q": 1, "s": 7}, {"p": "y", "q": 1}, {"p": "x"}, {"q": 2, "s": 7}, {"p": "x", "q": 1}]),
    ("b.docria", (1, 1, 1), [{}, {"p": "y", "q": 2}, {"p": "x", "q": 1, "r": "x"}]),
    ("c.docria", (2,), [{"p": "z"}, {"p": "z", "q": 3, "s": 7}]),
]
CONDS = [{"p": "x"}, {"p": "y"}, {"q": 1}, {"q": 2}, {"p": "x", "q": 1}, {"q": 1, "p": "x"}, {"p": "y", "q": 1}, {"p": "x", "q": 2}, {"p": "z"},
         {"p": "nosuch"}, {"nosuch": 1}, {"p": "x", "nosuch": 1}, {"nosuch": 1, "p": "x"}, {"p": "nosuch", "q": 1}, {"q": 1, "p": "nosuch"}, {"r": "x"}, {"p": 1}, {"s": 7}, {"p": "x", "q": 1, "s": 7}, {"s": 7, "q": 1, "p": "x"}, {"q": 1, "s": 7, "p": "x"}]


def check(R):
    R.rule("hits", "an index built over a collection hands out, for every set of conditions, exactly the documents meeting all of them, each once, lazily and decoded")
    R.rule("again", "searching again, and searching with other conditions in between, hands out the same documents")
    R.rule("located", "files are opened below the base directory, whatever the current directory is when the index is built, extended and searched")
    R.rule("directory", "indexing a directory indexes every collection file in it, once")
    R.guarded("hits", "DocumentFileIndex", lambda: one_file(R))
    R.guarded("located", "DocumentIndex", lambda: many_files(R))
    R.guarded("directory", "build_msgpack_directory_fileindex", lambda: directory(R))


APART = ("MsgpackDocumentReader", "MsgpackDocumentBlock", "MsgpackDocumentIO", "DocumentFileIndex")


class World:
    def __init__(self, R, root="/data"):
        self.R = R
        self.cwd = "/home"
        self.opened = []
        # the collection readers are taken by their own summaries
        apart = [f.qual for f in R.prog.funcs if f.cls is not None and f.cls.name in APART and f.name not in ("__init__", "__enter__", "__exit__")]
        m = self.m = machine(R, no_inline=tuple(apart), store=True, hooks={"MsgpackDocument.properties": lambda m, v, *a: self.props(m, v, *a), "MsgpackCodec.decode": self.decode,
                                 "MsgpackDocument.document": lambda m, v, *a, **kw: self.decode(m, v.attrs["data"])})
        self.files = {}
        self.props_of = {}
        self.docs = []
        for name, sizes, props in TABLE:
            ds = [Doc("%s#%d" % (name[0], i)) for i in range(len(props))]
            for d, p in zip(ds, props):
                self.props_of[d] = p
            self.docs += ds
            it = iter(ds)
            self.files[posixpath.join(root, name)] = File(m, [[next(it) for _ in range(n)] for n in sizes], cname="zip")
            self.files[posixpath.join(root, name)].docs = ds

        def open_(m, path, mode="r", *a, **kw):
            p = posixpath.normpath(posixpath.join(self.cwd, path))
            self.opened.append((path, p))
            if p not in self.files:
                raise Fail("FileNotFoundError")
            s = copy.deepcopy(self.files[p].stream)
            m.put(s, "pos", 0)
            return s
        m.externals["open"] = m.externals["io.open"] = open_
        P = posixpath
        ext = {"os.path.join": P.join, "os.path.abspath": lambda p: P.normpath(P.join(self.cwd, p)), "os.path.normpath": P.normpath, "os.path.basename": P.basename,
               "os.path.realpath": lambda p: P.normpath(P.join(self.cwd, p)), "os.path.dirname": P.dirname, "os.path.isabs": P.isabs, "os.getcwd": lambda: self.cwd,
               "os.path.relpath": lambda p, start=None: P.relpath(P.join(self.cwd, p), P.join(self.cwd, start or "."))}
        for k, f in ext.items():
            m.externals[k] = self.path(f)

    def path(self, f):
        def go(m, *a, **kw):
            if not all(isinstance(x, (str, type(None))) for x in list(a) + list(kw.values())):
                raise Cannot("path %r" % (a,))
            return f(*a, **kw)
        return go

    def props(self, m, v, *asked):
        d = v.attrs["data"]
        if d is GARBAGE:
            raise Fail("Exception")
        p = {k: x for k, x in self.props_of[d].items() if not asked or k in asked}
        return dict_val("properties of %s" % d, p)

    def decode(self, m, x, *a, **kw):
        if isinstance(x, Val) and "data" in x.attrs:
            x = x.attrs["data"]
        return Val("decoded %s" % x, ["Document"], {"data": x, "decoded": True})

    def matching(self, conds, docs):
        return [d for d in docs if all(k in self.props_of[d] and type(self.props_of[d][k]) is type(v) and self.props_of[d][k] == v for k, v in conds.items())]


def dict_val(name, items):
    v = Val(name, ["dict"], items=dict(items), length=len(items), truth=bool(items))
    v.mapping = True
    return v


def result(v, lazy):
    if not isinstance(v, Val) or "data" not in v.attrs:
        raise Cannot("result %r" % (v,))
    if bool(v.attrs.get("decoded")) == lazy:
        return None
    return v.attrs["data"]


def ask(w, f, obj, conds, lazy, cls):
    m = w.m
    m.last = None
    out, failed = m.generate(f, [obj, dict_val("conditions", conds)], {"lazy": lazy} if lazy else {}, cls)
    if failed:
        return None, "fails with %s" % failed
    got = [result(v, lazy) for v in out]
    if None in got:
        return None, "hands out %s documents" % ("decoded" if lazy else "undecoded")
    return got, None


def wrong(conds, got, want, lazy):
    what = "searching%s for %s" % (" lazily" if lazy else "", conds)
    if len(set(map(id, got))) != len(got):
        return "%s hands out a document twice: %s" % (what, got)
    a, b = [x for x in want if x not in got], [x for x in got if x not in want]
    if a or b:
        return "%s hands out %s, the documents meeting the conditions are %s" % (what, got, want)


def one_file(R):
    w = World(R)
    m = w.m
    f = R.prog.func("DocumentFileIndex.search")
    g = R.prog.func("DocumentFileIndex.build")
    if f is None or g is None:
        raise Cannot("no index")
    n = 0
    path = "/data/a.docria"
    try:
        ix = m.run(g, [path] + list(PROPS))
    except Fail as z:
        return R.bad("hits", g.qual, "building the index fails with %s" % z.name, g.loc, trace=trace(m.last) if m.last else None)
    docs = w.files[path].docs
    for conds in CONDS:
        if any(k not in PROPS for k in conds):
            want = []
        else:
            want = w.matching(conds, docs)
        for lazy in (False, True):
            got, why = ask(w, f, ix, conds, lazy, "DocumentFileIndex")
            n += 1
            why = "searching%s for %s %s" % (" lazily" if lazy else "", conds, why) if why else wrong(conds, got, want, lazy)
            if why:
                return R.bad("hits", f.qual, why, f.loc, trace=trace(m.last) if m.last else None)
    R.good("hits", f.qual, "%d searches" % n, f.loc)
    for conds in CONDS[:6]:
        want = w.matching(conds, docs)
        got, why = ask(w, f, ix, conds, False, "DocumentFileIndex")
        why = why or wrong(conds, got, want, False)
        if why:
            return R.bad("again", f.qual, "after other searches, " + why, f.loc)
    R.good("again", f.qual, "searches repeated", f.loc)


def many_files(R):
    f = R.prog.func("DocumentIndex.search")
    g = R.prog.func("DocumentIndex.add")
    b = R.prog.func("DocumentFileIndex.build")
    if f is None or g is None or b is None:
        raise Cannot("no index over files")
    # (current directory when made, base, directory prefix used for the files, current directory when searched)
    ways = [("/home", "/data", "/data", "/home"), ("/data", ".", "", "/elsewhere"), ("/", "data", "data", "/data"), ("/data/sub", "..", "..", "/"),
            ("/", "/", "data", "/elsewhere"), ("/data", "/other", ".", "/other")]
    n = 0
    for at, base, pre, later in ways:
        w = World(R)
        m = w.m
        w.cwd = at
        try:
            ix = m.new("DocumentIndex", base)
            for name, _, _ in TABLE:
                m.run(g, [ix, m.run(b, [posixpath.join(pre, name)] + list(PROPS))], {}, "DocumentIndex")
            w.cwd = later
            w.opened = []
            for conds in CONDS:
                want = [] if any(k not in PROPS for k in conds) else w.matching(conds, w.docs)
                for lazy in (False, True):
                    got, why = ask(w, f, ix, conds, lazy, "DocumentIndex")
                    n += 1
                    if why and w.opened and w.opened[-1][1] not in w.files:
                        return R.bad("located", f.qual, "an index with base %s made in %s, searched in %s, opens %s" % (base, at, later, w.opened[-1][0]), f.loc,
                                     trace=trace(m.last) if m.last else None)
                    why = "searching%s for %s %s" % (" lazily" if lazy else "", conds, why) if why else wrong(conds, got, want, lazy)
                    if why:
                        return R.bad("hits", f.qual, why, f.loc, trace=trace(m.last) if m.last else None)
        except Fail as z:
            return R.bad("located", g.qual, "adding a file index fails with %s" % z.name, g.loc)
    R.good("located", f.qual, "%d searches of %d indices" % (n, len(ways)), f.loc)
    R.good("hits", f.qual, "%d searches over %d files" % (n, len(TABLE)), f.loc)


class Pool(Lib):
    def __init__(self, w):
        Lib.__init__(self, "pool", ["Pool"])
        self.w = w

    def m_map(self, m, fn, xs, *a, **kw):
        out = []
        for x in iterable(xs):
            if isinstance(fn, Fn):
                out.append(fn.fn(m, x))
            elif isinstance(fn, T) and fn.op == "func":
                out.append(m.run(R_func(m, fn), [x]))
            else:
                raise Cannot("mapped function %r" % (fn,))
        return Val("results", ["list"], elems=out, length=len(out), truth=bool(out))

    m_imap = m_map

    def m_imap_unordered(self, m, fn, xs, *a, **kw):
        v = self.m_map(m, fn, xs)
        v.elems.reverse()
        return v

    def m_close(self, m):
        pass

    m_join = m_terminate = m_close


def R_func(m, t):
    return m.prog_func(t)


class Bar(Lib):
    def __init__(self):
        Lib.__init__(self, "progress", ["tqdm"])

    def m_update(self, m, n=1):
        pass

    def m_close(self, m):
        pass

    m_set_description = m_update


class Pattern(Lib):
    """a constant regular expression: which names it accepts is a property of the constant"""

    def __init__(self, p, flags=0):
        import re
        Lib.__init__(self, "pattern %s" % p, ["Pattern"])
        self.p = re.compile(p)

    def hit(self, r):
        return None if r is None else Val("match", ["Match"], truth=True)

    def m_fullmatch(self, m, s):
        return self.hit(self.p.fullmatch(s))

    def m_match(self, m, s):
        return self.hit(self.p.match(s))

    def m_search(self, m, s):
        return self.hit(self.p.search(s))


def directory(R):
    f = R.prog.func("build_msgpack_directory_fileindex")
    s = R.prog.func("DocumentIndex.search")
    if f is None or s is None:
        raise Cannot("no directory index")
    n = 0
    for tq in (False, True):
        for at, path, base, later in (("/home", "/data", "/data", "/"), ("/", "data", ".", "/data"), ("/data", ".", ".", "/home")):
            w = World(R)
            m = w.m
            w.cwd = at
            m.hooks["_module_available"] = lambda m, name: tq
            m.opts["no_inline"] = tuple(sorted(set(m.opts["no_inline"]) | {"_module_available"}))
            m.externals["os.listdir"] = lambda m, p=".": Val("names", ["list"], elems=["readme.txt"] + [t[0] for t in TABLE] + ["notes.docria.bak"], length=5, truth=True)
            m.externals["re.compile"] = lambda m, p, *a: Pattern(p)
            m.externals["multiprocessing.Pool"] = lambda m, *a, **kw: Pool(w)
            m.externals["multiprocessing.cpu_count"] = lambda m: 2
            m.externals["tqdm.tqdm"] = lambda m, *a, **kw: Bar()
            try:
                ix = m.run(f, [path] + list(PROPS), {"basepath": base})
            except Fail as z:
                return R.bad("directory", f.qual, "indexing a directory fails with %s" % z.name, f.loc, trace=trace(m.last) if m.last else None)
            w.cwd = later
            for conds in CONDS:
                want = [] if any(k not in PROPS for k in conds) else w.matching(conds, w.docs)
                got, why = ask(w, s, ix, conds, False, "DocumentIndex")
                n += 1
                why = why or wrong(conds, got, want, False)
                if why:
                    return R.bad("directory", f.qual, "in the index of a directory, %s" % why, f.loc)
    R.good("directory", f.qual, "%d searches" % n, f.loc)
