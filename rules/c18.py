"""C18: every registered compression codec is inverted by the codec whose name it writes; names are registered once."""
import ast
from rules.store import *
from program import Func

LIBS = ("zlib", "gzip", "bz2", "lzma", "lz4.frame", "zstd", "snappy", "brotli", "blosc")


def check(R):
    R.rule("inverse", "the decompression of a registered codec undoes its compression, decided on the composed terms by the algebra of the compression libraries")
    R.rule("resolvable", "the name a codec writes into the file header is registered, and the codec registered under it undoes the compression")
    R.rule("registry", "registering makes exactly the given codec available under the name; a second registration and an unknown name raise and change nothing")
    R.guarded("inverse", "registered codecs", lambda: codecs_of(R))
    R.guarded("registry", "register_codec", lambda: registry(R))


# ------------------------------------------------------------------ the registrations in the module body
def registrations(R):
    """[(call, module, statements before it, enclosing statements)] of the calls of register_codec executed on import"""
    reg = R.prog.func("register_codec")
    if reg is None:
        raise Cannot("no register_codec")
    out = []

    def scan(mod, stmts, pre, outer):
        pre = list(pre)
        for s in stmts:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                if outer:
                    pre.append(s)
            elif isinstance(s, ast.Assign) and outer:
                pre.append(s)
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                if outer:
                    pre.append(s)
            elif isinstance(s, ast.If):
                scan(mod, s.body, pre, outer + [(s, "body")])
                scan(mod, s.orelse, pre, outer + [(s, "else")])
            elif isinstance(s, ast.Try):
                scan(mod, s.body, pre, outer + [(s, "body")])
                for h in s.handlers:
                    scan(mod, h.body, pre, outer + [(h, "body")])
                scan(mod, s.orelse, pre, outer + [(s, "body")])
                scan(mod, s.finalbody, pre, outer)
            elif isinstance(s, ast.For) and not s.orelse:
                els = literal(mod, s.iter)
                if els is None:
                    if any(called(c) for c in ast.walk(s)):
                        raise Cannot("registration in a loop over %s" % ast.dump(s.iter)[:80])
                    continue
                for e in els:
                    a = ast.copy_location(ast.Assign([s.target], e), s)
                    scan(mod, s.body, pre + [a], outer + [(s, "body")])
            elif isinstance(s, ast.Expr):
                for c in ast.walk(s.value):
                    if called(c):
                        out.append((c, mod, list(pre), list(outer)))

    def called(c):
        return isinstance(c, ast.Call) and (isinstance(c.func, ast.Name) and c.func.id == reg.name or isinstance(c.func, ast.Attribute) and c.func.attr == reg.name)

    def literal(mod, e):
        if isinstance(e, (ast.List, ast.Tuple)):
            return e.elts
        if isinstance(e, ast.Name):
            for s in mod.tree.body:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == e.id:
                    return literal(mod, s.value)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "items" and not e.args:
            d = e.func.value
            if isinstance(d, ast.Name):
                for s in mod.tree.body:
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == d.id:
                        d = s.value
            if isinstance(d, ast.Dict):
                return [ast.copy_location(ast.Tuple([k, v], ast.Load()), k) for k, v in zip(d.keys, d.values)]
        return None
    for name, mod in sorted(R.prog.modules.items()):
        scan(mod, mod.tree.body, [], [])
    return reg, out


def argument(reg, call, name, default=None):
    names = [a.arg for a in reg.node.args.args]
    for k in call.keywords:
        if k.arg == name:
            return k.value
    i = names.index(name)
    if i < len(call.args):
        return call.args[i]
    return default


def synth(R, mod, pre, expr, params=()):
    """outcomes of 'def f(params): pre; return expr' in the module"""
    f = ast.FunctionDef("f", ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, []), list(pre) + [ast.Return(expr)], [], None)
    f.type_params = []
    ast.copy_location(f, expr)
    ast.fix_missing_locations(f)
    en = R.engine()
    fn = Func("codec", mod, None, f)
    return [(p, en.freeze(p.outcome[1], p.st) if p.outcome[0] == "ret" else None) for p in en.run(fn)]


def constant(R, mod, pre, expr):
    ps = synth(R, mod, pre, expr)
    vs = {show(v): v for p, v in ps if v is not None}
    if len(vs) != 1:
        raise Cannot("codec name")
    v = list(vs.values())[0]
    if v is NONE:
        return None
    if v.op != "const" or v.a[0] != "str":
        raise Cannot("codec name %s" % show(v))
    return v.a[1]


def apply(f, x):
    return ast.copy_location(ast.Call(f, [x], []), f)


class Irreducible(Exception):
    pass


def opts(t):
    """options of a library call: positional ones after the data, and keywords"""
    return list(t.a[1][1:]), {k: v for k, v in t.a[2]}


def lib_call(t):
    if t.op == "call" and t.a[0].op == "ext" and t.a[1]:
        lib, _, fn = t.a[0].a[0].rpartition(".")
        if lib in LIBS and fn in ("compress", "decompress"):
            return lib, fn
    return None, None


def reduce(t):
    """the data behind the term; Irreducible when the term is known not to be the data, Cannot when it is not understood"""
    lib, fn = lib_call(t)
    if t.op == "sym":
        return t
    if t.op == "call" and t.a[0].op == "builtin" and t.a[0].a[0] in ("bytes", "bytearray", "memoryview") and len(t.a[1]) == 1:
        return reduce(t.a[1][0])
    if t.op in ("slice", "item"):
        x = reduce(t.a[0])
        if t.op == "slice" and show(t).replace(" ", "").endswith("[:]"):
            return x
        raise Irreducible(show(t))
    if fn is None:
        raise Cannot("term %s" % show(t)[:100])
    x = reduce(t.a[1][0])
    if fn == "compress":
        return mk("call", t.a[0], (x,) + tuple(t.a[1][1:]), t.a[2])
    l2, f2 = lib_call(x)
    if f2 != "compress":
        raise Irreducible(show(t))
    if l2 != lib:
        raise Irreducible(show(t))
    pc, kc = opts(x)
    pd, kd = opts(t)
    if lib == "zlib":
        wc = kc.get("wbits", pc[1] if len(pc) > 1 else None)
        wd = kd.get("wbits", pd[0] if pd else None)
        if wc != wd:
            vals = [v.a[1] if v is not None and v.op == "const" else None if v is None else "?" for v in (wc, wd)]
            vals = [15 if v is None else v for v in vals]
            if all(isinstance(v, int) for v in vals):
                kind = ["raw" if v < 0 else "gzip" if 16 < v < 32 else "zlib" if v < 16 else "auto" for v in vals]
                if kind[0] != kind[1] and not (kind[1] == "auto" and kind[0] != "raw"):
                    raise Irreducible(show(t))
                if abs(vals[1]) % 16 < abs(vals[0]) % 16 and vals[1] % 16:
                    raise Irreducible(show(t))
            else:
                raise Cannot("window of %s" % show(t))
    if lib == "lzma":
        fc = kc.get("format", pc[0] if pc else None)
        fd = kd.get("format", pd[0] if pd else None)
        if fc is not None or fd is not None or "filters" in kc or "filters" in kd:
            nc = show(fc).split(".")[-1] if fc is not None else "FORMAT_XZ"
            nd = show(fd).split(".")[-1] if fd is not None else "FORMAT_AUTO"
            if not {nc, nd} <= {"FORMAT_XZ", "FORMAT_ALONE", "FORMAT_AUTO", "FORMAT_RAW"}:
                raise Cannot("format of %s" % show(t))
            if nd != nc and (nd != "FORMAT_AUTO" or nc == "FORMAT_RAW"):
                raise Irreducible(show(t))
            if nc == "FORMAT_RAW" and (kc.get("filters") is None or kc.get("filters") != kd.get("filters")):
                raise Cannot("filters of %s" % show(t))
    return x.a[1][0]


def inverse(R, rule, construct, mod, pre, comp, dec, loc, why):
    x = ast.copy_location(ast.Name("x", ast.Load()), comp)
    n = 0
    for p, v in synth(R, mod, pre, apply(dec, apply(comp, x)), ("x",)):
        if v is None:
            return R.bad(rule, construct, "%s raises" % why, loc, trace=trace(p))
        try:
            r = reduce(v)
        except Irreducible as z:
            return R.bad(rule, construct, "%s gives %s, which is not the data" % (why, show(v)), loc, trace=trace(p))
        if r.op != "sym" or r.a[0] != "x":
            return R.bad(rule, construct, "%s gives %s, which is not the data" % (why, show(v)), loc, trace=trace(p))
        n += 1
    if not n:
        raise Cannot("no path")
    R.good(rule, construct, "reduces to the data", loc)


def codecs_of(R):
    reg, calls = registrations(R)
    if not calls:
        raise Cannot("no registration found")
    names = [a.arg for a in reg.node.args.args]
    if not {"name", "compress", "decompress"} <= set(names):
        raise Cannot("parameters of register_codec")
    table = {}
    for c, mod, pre, outer in calls:
        loc = "%s:%d" % (mod.rel, c.lineno)

        def one():
            name = constant(R, mod, pre, argument(reg, c, "name"))
            comp, dec = argument(reg, c, "compress"), argument(reg, c, "decompress")
            cn = argument(reg, c, "codec_name") if "codec_name" in names else None
            table[name] = (mod, pre, comp, dec, loc, constant(R, mod, pre, cn) if cn is not None else None, outer)
            inverse(R, "inverse", name, mod, pre, comp, dec, loc, "decompressing what codec %s compressed" % name)
        R.guarded("inverse", loc, one)
    for name, (mod, pre, comp, dec, loc, cn, outer) in sorted(table.items()):
        if cn is None or cn == name:
            continue
        if cn not in table:
            if len(table) == len(calls):
                R.bad("resolvable", name, "codec %s writes the name %s, which is not registered" % (name, cn), loc)
            else:
                R.unknown("resolvable", name, "names of the other codecs", loc)
            continue
        t = table[cn]
        R.guarded("resolvable", name, lambda: inverse(R, "resolvable", name, t[0], t[1], comp, t[3], loc, "decompressing with codec %s what codec %s compressed" % (cn, name)))


# ------------------------------------------------------------------ the registry functions
def registry(R):
    fs = {n: R.prog.func(n) for n in ("register_codec", "get_codec", "unregister_codec")}
    if fs["register_codec"] is None or fs["get_codec"] is None:
        raise Cannot("no registry")
    reg, get, unreg = fs["register_codec"], fs["get_codec"], fs["unregister_codec"]
    store = Val("registry", ["dict"], items={}, length=0, truth=False)
    store.mapping = True
    hooks = {}
    for f in fs.values():
        if f is None:
            continue
        en, ps = R.paths(f)
        for p in ps:
            terms = [g for g, b in p.guards] + [x for e in p.events for x in e.a if isinstance(x, T)] + [p.outcome[1]]
            for t in terms:
                for x in walk(t) if isinstance(t, T) else ():
                    if x.op == "sym" and x.a[0].startswith("global:"):
                        hooks["sym:" + x.a[0]] = store
    if len(hooks) != 1:
        raise Cannot("registry kept in %s" % sorted(hooks))
    m = Machine(R, hooks)
    c = {k: Fn(k, None) for k in ("compress a", "decompress a", "compress b", "decompress b")}
    A, Bb = (c["compress a"], c["decompress a"]), (c["compress b"], c["decompress b"])

    def run(f, *args, **kw):
        try:
            return m.run(f, list(args), kw)
        except Fail as z:
            return z

    def is_codec(v, name, pair):
        return isinstance(v, Val) and v.attrs.get("name") == name and v.attrs.get("compress") is pair[0] and v.attrs.get("decompress") is pair[1]
    steps = []

    def expect(ok, f, why):
        steps.append(f)
        if not ok:
            R.bad("registry", f.qual, why, f.loc, trace=trace(m.last) if getattr(m, "last", None) else None)
        else:
            R.good("registry", "%s, step %d" % (f.qual, len(steps)), why and "as expected", f.loc)
        return ok
    m.last = None
    if not expect(isinstance(run(get, "a"), Fail), get, "requesting an unregistered codec does not raise"):
        return
    r = run(reg, "a", *A)
    if not expect(not isinstance(r, Fail), reg, "registering a new name raises"):
        return
    if not expect(is_codec(run(get, "a"), "a", A), get, "the codec registered under a name is not the one returned for it"):
        return
    if not expect(isinstance(run(reg, "a", *Bb), Fail), reg, "registering a name twice does not raise"):
        return
    if not expect(is_codec(run(get, "a"), "a", A), reg, "a refused second registration replaces the codec"):
        return
    if not expect(isinstance(run(get, "nosuch"), Fail), get, "requesting an unknown codec does not raise"):
        return
    if "no_except" in [a.arg for a in get.node.args.args]:
        if not expect(run(get, "nosuch", no_except=True) is None, get, "requesting an unknown codec without exceptions does not give nothing"):
            return
        if not expect(is_codec(run(get, "a", no_except=True), "a", A), get, "requesting a known codec without exceptions does not give it"):
            return
    if "codec_name" in [a.arg for a in reg.node.args.args]:
        run(reg, "b:high", *Bb, codec_name="b")
        if not expect(is_codec(run(get, "b:high"), "b", Bb), reg, "a codec registered with another name to write does not write it"):
            return
        if not expect(isinstance(run(reg, "b:high", *Bb, codec_name="c"), Fail), reg, "registering a name twice does not raise when another name to write is given"):
            return
        if not expect(isinstance(run(get, "b"), Fail), get, "the name a codec writes is registered by itself"):
            return
        if not expect(not isinstance(run(reg, "b", *Bb), Fail), reg, "registering a name another codec writes raises"):
            return
    if unreg is not None:
        run(unreg, "a")
        if not expect(isinstance(run(get, "a"), Fail), unreg, "an unregistered codec is still available"):
            return
        expect(not isinstance(run(reg, "a", *Bb), Fail), reg, "registering a name again after it was removed raises")
