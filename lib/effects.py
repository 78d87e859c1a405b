"""Persistent writes of a function, from its path summaries: every event that changes an object which existed before the call."""
import ast
from terms import *
from names import LIST_MUT

WR = {"setattr", "setitem", "delitem", "delattr", "mut"}


def events(evs, nest=()):
    st = [(e, ()) for e in reversed(list(evs))]
    while st:
        e, n = st.pop()
        yield e, n
        if e.kind == "loop":
            li = e.a[0]
            for p in reversed(li.paths):
                for x in reversed(p.events):
                    st.append((x, n + ((li, p),)))


def path_root(t):
    """(root, access path) of an object-denoting term"""
    acc = []
    while True:
        if t.op == "attr":
            acc.append("." + str(t.a[1]))
            t = t.a[0]
        elif t.op in ("item", "dget"):
            acc.append("[]")
            t = t.a[0]
        elif t.op == "elem":
            acc.append("*")
            t = t.a[0]
        elif t.op == "view":
            acc.append("<%s>" % t.a[0])
            t = t.a[1]
        elif t.op in ("at", "sdef"):
            t = t.a[0]
        elif t.op in ("lvar", "lout") and len(t.a) == 3 and isinstance(t.a[1], T) and t.a[1] is not NONE:
            t = t.a[1]
        else:
            return t, "".join(reversed(acc))


def fresh(t, en):
    r, _ = path_root(t)
    return r.op == "obj" and r not in en.const_state.objs


def persistent(en, ps):
    """[(event, base term, path)]: writes whose base is not an object created by the call"""
    seen = set()
    for p in ps:
        for e, nest in events(p.events):
            if e.kind in WR and isinstance(e.a[0], T):
                b = e.a[0]
                if b.op == "obj" and b not in en.const_state.objs:
                    continue
                k = (e.kind, b, e.a[1] if len(e.a) > 1 else None, e.loc)
                if k in seen:
                    continue
                seen.add(k)
                yield e, b, p


def _plain(n):
    return n is None or isinstance(n, ast.Constant) or isinstance(n, (ast.Dict, ast.List, ast.Set, ast.Tuple)) and not (getattr(n, "elts", None) or getattr(n, "keys", None)) \
        or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("dict", "list", "set") and not n.args and not n.keywords


def cache_attr(prog, name):
    """whether the attribute may be a memo: all writes of contents to it are in one function, no constructor among them"""
    memo = prog.__dict__.setdefault("_memos", {})
    if name not in memo:
        memo[name] = name is not None and _cache_attr(prog, name)
    return memo[name]


def _cache_attr(prog, name):
    fs = set()
    for m in prog.modules.values():
        for f in ast.walk(m.tree):
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            for n in ast.walk(f):
                val = [(t, n.value) for t in n.targets] if isinstance(n, ast.Assign) else [(n.target, n)] if isinstance(n, ast.AugAssign) else \
                    [(n.target, n.value)] if isinstance(n, ast.AnnAssign) else [(n, n)] if isinstance(n, ast.Call) else []
                for t, v in val:
                    if isinstance(t, (ast.Tuple, ast.List)):
                        ts = [(x, n) for x in t.elts]
                    else:
                        ts = [(t, v)]
                    for x, v in ts:
                        if isinstance(x, ast.Call):
                            if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == name and x.func.attr in LIST_MUT:
                                fs.add(f.name)
                            continue
                        sub = False
                        while isinstance(x, (ast.Subscript, ast.Starred)):
                            x, sub = x.value, True
                        if isinstance(x, ast.Attribute) and x.attr == name and (sub or not _plain(v)):
                            fs.add(f.name)
    return len(fs) == 1 and not fs & {"__init__", "__setstate__", "__new__"}


def attr_of(e, b):
    """name of the attribute an event writes, or whose contents it changes"""
    if e.kind in ("setattr", "delattr"):
        return e.a[1] if isinstance(e.a[1], str) else None
    while isinstance(b, T) and b.op in ("item", "dget", "elem", "each"):
        b = b.a[0]
    return b.a[1] if isinstance(b, T) and b.op == "attr" else None
