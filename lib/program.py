"""Program model: parses the package under analysis (never imports it)."""
import ast
import desugar
import os

SRC = os.environ.get("DOCRIA_SRC", "/repo/py/docria")


class AnalysisBroken(Exception):
    """An anchor of a rule has vanished: the check cannot give an answer."""


class Func:
    def __init__(self, name, module, cls, node, outer=None):
        self.name = name
        self.module = module
        self.cls = cls
        self.node = node
        self.outer = outer
        self.qual = (cls.name + "." + name) if cls is not None else ((outer + ".<locals>." + name) if outer else name)
        decs = getattr(node, "decorator_list", [])
        self.static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in decs)
        self.classm = any(isinstance(d, ast.Name) and d.id == "classmethod" for d in decs)
        self.prop = any((isinstance(d, ast.Name) and d.id in ("property", "cached_property")) or
                        (isinstance(d, ast.Attribute) and d.attr == "cached_property") for d in decs)
        self.setter = any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in decs)
        self.is_gen = _has_yield(node)

    def __repr__(self):
        return "<%s.%s>" % (self.module.name, self.qual)

    @property
    def loc(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)


def _has_yield(node):
    body = node.body if isinstance(node.body, list) else [node.body]
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


BUILTIN_BASES = {"list": list, "dict": dict, "set": set}


class Class:
    def __init__(self, name, module, node):
        self.name = name
        self.module = module
        self.node = node
        self.methods = {}
        self.setters = {}
        self.attrs = {}
        self.anns = {}
        self.bases = []       # Class or dotted string
        self._mro = None

    def mro(self):
        if self._mro is None:
            out = [self]
            for b in self.bases:
                for c in (b.mro() if isinstance(b, Class) else [b]):
                    if c in out:
                        out.remove(c)
                    out.append(c)
            self._mro = out
        return self._mro

    def find(self, name, skip=None):
        seen = skip is None
        for c in self.mro():
            if not seen:
                seen = c is skip
                continue
            if isinstance(c, Class) and name in c.methods:
                return c.methods[name]
            if c in BUILTIN_BASES and name in vars(BUILTIN_BASES[c]):
                return None
        return None

    def find_setter(self, name):
        for c in self.mro():
            if isinstance(c, Class) and name in c.setters:
                return c.setters[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if isinstance(c, Class) and name in c.attrs:
                return c, c.attrs[name]
        return None

    def derives(self, other):
        return other in self.mro()

    def ext_bases(self):
        return [c for c in self.mro() if isinstance(c, str)]

    @property
    def is_enum(self):
        return any(b in ("enum.Enum", "enum.IntEnum") for b in self.ext_bases())

    def __repr__(self):
        return "<class %s>" % self.name


class Module:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, os.path.dirname(os.path.dirname(os.path.dirname(path))))
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        self.tree = desugar.loops(ast.parse(self.source, path))
        self.lines = self.source.splitlines()
        self.names = {}
        self.stars = []
        self.toplevel = []


class Program:
    def __init__(self, root=None):
        self.root = root or SRC
        self.modules = {}
        pkg = os.path.basename(self.root)
        self.pkg = pkg
        for dp, dn, fn in os.walk(self.root):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                    name = pkg if rel == "__init__" else pkg + "." + (rel[:-9] if rel.endswith(".__init__") else rel)
                    self.modules[name] = Module(name, p)
        self.classes = {}
        self.funcs = []
        for m in self.modules.values():
            self._collect(m)
        for m in self.modules.values():
            for s in m.stars:
                if s in self.modules:
                    for k, v in self.modules[s].names.items():
                        m.names.setdefault(k, v)
        for c in self.classes.values():
            for b in c.node.bases:
                c.bases.append(self._resolve_base(c.module, b))
        self.by_method = {}
        for c in self.classes.values():
            for n, f in c.methods.items():
                self.by_method.setdefault(n, []).append(f)

    def subclasses(self, cls):
        return [c for c in self.classes.values() if c is not cls and cls in c.mro()]

    def _resolve_base(self, m, b):
        d = dotted(b)
        if d is None:
            return "?"
        r = self.lookup_dotted(m, d)
        return r if r is not None else d

    def lookup_dotted(self, m, d):
        parts = d.split(".")
        e = m.names.get(parts[0])
        if e is None:
            return d
        return self._follow(e, parts[1:], d)

    def _follow(self, e, rest, d):
        kind = e[0]
        if kind == "class":
            return e[1] if not rest else d
        if kind == "import":
            full = ".".join([e[1]] + rest)
            for mn in sorted(self.modules, key=len, reverse=True):
                if full == mn:
                    return self.modules[mn]
                if full.startswith(mn + "."):
                    sub = full[len(mn) + 1:].split(".")
                    ee = self.modules[mn].names.get(sub[0])
                    if ee is not None:
                        return self._follow(ee, sub[1:], d)
            return full
        if kind == "func":
            return e[1]
        return d

    def _imports(self, m, node, names):
        if isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    names[a.asname] = ("import", a.name)
                else:
                    names[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
        elif isinstance(node, ast.ImportFrom):
            base = node.module or ""
            if node.level:
                pk = m.name.split(".")
                if not m.path.endswith("__init__.py"):
                    pk = pk[:-1]
                pk = pk[:len(pk) - (node.level - 1)]
                base = ".".join(pk + ([node.module] if node.module else []))
            for a in node.names:
                if a.name == "*":
                    m.stars.append(base)
                else:
                    names[a.asname or a.name] = ("import", base + "." + a.name)

    def _collect(self, m):
        def stmts(body):
            for n in body:
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    self._imports(m, n, m.names)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(n.name, m, None, n)
                    self.funcs.append(f)
                    m.names[n.name] = ("func", f)
                elif isinstance(n, ast.ClassDef):
                    c = Class(n.name, m, n)
                    self.classes[n.name] = c
                    m.names[n.name] = ("class", c)
                    self._class(c)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            m.names[t.id] = ("expr", n.value)
                    m.toplevel.append(n)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    if n.value is not None:
                        m.names[n.target.id] = ("expr", n.value)
                    m.toplevel.append(n)
                elif isinstance(n, ast.If):
                    m.toplevel.append(n)
                    stmts(n.body)
                    stmts(n.orelse)
                elif isinstance(n, ast.Try):
                    m.toplevel.append(n)
                    stmts(n.body)
                    for h in n.handlers:
                        stmts(h.body)
                    stmts(n.orelse)
                    stmts(n.finalbody)
                else:
                    m.toplevel.append(n)
        stmts(m.tree.body)

    def _class(self, c):
        for n in c.node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(n.name, c.module, c, n)
                self.funcs.append(f)
                if f.setter:
                    c.setters[n.name] = f
                else:
                    c.methods[n.name] = f
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = n.value
                # alias of a method:  boolean = bool
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                if n.value is not None:
                    c.attrs[n.target.id] = n.value
                c.anns[n.target.id] = n.annotation

    # ---- anchors
    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisBroken("class %s not found" % name)
        return c

    def func(self, qual):
        """Module-level function 'f' or method 'Class.f' (through the MRO)."""
        if "." in qual:
            cn, fn = qual.rsplit(".", 1)
            f = self.cls(cn).find(fn)
            if f is None:
                a = self.cls(cn).find_attr(fn)
                if a is not None and isinstance(a[1], ast.Name):
                    return self.func(cn + "." + a[1].id)
                raise AnalysisBroken("method %s not found" % qual)
            return f
        for m in self.modules.values():
            e = m.names.get(qual)
            if e and e[0] == "func":
                return e[1]
        raise AnalysisBroken("function %s not found" % qual)

    def setter(self, qual):
        cn, fn = qual.rsplit(".", 1)
        f = self.cls(cn).find_setter(fn)
        if f is None:
            raise AnalysisBroken("setter %s not found" % qual)
        return f


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return None if b is None else b + "." + n.attr
    return None
