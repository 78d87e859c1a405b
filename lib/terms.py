"""Interned terms: the value domain of the dataflow engine.

A term names *where a value comes from* (a parameter, an attribute of it, the generic element of a collection, the
result of a call ...).  Terms carry no concrete run-time data except literals found in the source.
"""
import itertools
import re
import string


class T:
    __slots__ = ("op", "a", "_h", "_str")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __reduce__(self):
        return (mk, (self.op,) + self.a)


_table = {}


def mk(op, *a):
    k = (op, a)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t._h = hash(k)
        t._str = None
        _table[k] = t
    return t


def const(v):
    return mk("const", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t, *vals):
    if not isinstance(t, T) or t.op != "const":
        return False
    if not vals:
        return True
    return any(type(v).__name__ == t.a[0] and v == t.a[1] for v in vals)


def cval(t):
    return t.a[1]


def sym(name, cls=None):
    return mk("sym", name, cls)


def attr(b, n, ver=0):
    return mk("attr", b, n, ver)


def item(b, k, ver=0):
    return mk("item", b, k, ver)


_ids = itertools.count(1)


def fresh_id():
    return next(_ids)


def walk(t):
    """All sub-terms of t (pre-order), looking through plain tuples."""
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            yield x
            st.extend(reversed(x.a))
        elif isinstance(x, tuple):
            st.extend(reversed(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def mentions(t, sub):
    return any(x is sub for x in walk(t))


def subst(t, f, memo=None):
    """Rewrite bottom-up-stopping: f(sub) returns a replacement or None."""
    if memo is None:
        memo = {}
    return _subst(t, f, memo)


def _subst(t, f, memo):
    if isinstance(t, T):
        r = memo.get(t)
        if r is not None:
            return r
        r = f(t)
        if r is None:
            if t.op == "const":
                r = t
            else:
                na = tuple(_subst(x, f, memo) for x in t.a)
                r = t if all(x is y for x, y in zip(na, t.a)) else rebuild(t.op, na)
        memo[t] = r
        return r
    if isinstance(t, tuple):
        nt = tuple(_subst(x, f, memo) for x in t)
        return t if all(x is y for x, y in zip(nt, t)) else nt
    return t


def rebuild(op, a):
    return mk(op, *a)


ORIGINS = {}      # loop -> loops whose rounds it repeats


def subst_loop(t, old, new, elem=None):
    """Replace loop variable `old` (an int id) by `new` (an int id)."""
    if old != new:
        ORIGINS.setdefault(new, set()).add(old)
    def f(x):
        if x.op == "clo":
            code, fid, sub = x.a
            return mk("clo", code, fid, tuple(sub) + ((old, new),))
        if x.op in ("elem", "idx", "lvar", "lout") and x.a[-1] == old:
            return mk(x.op, *[(_subst(y, f, memo) if isinstance(y, (T, tuple)) else y) for y in x.a[:-1]], new)
        return None
    memo = {}
    return _subst(t, f, memo)


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
        return repr(t) if not isinstance(t, str) else t
    if t._str is not None:
        return t._str
    a = t.a
    o = t.op
    if d > 25:
        return "..."
    if o == "const":
        s = repr(a[1])
    elif o == "sym":
        s = a[0]
    elif o == "attr":
        s = "%s.%s" % (show(a[0], d + 1), a[1])
        if a[2]:
            s += "'%s" % (a[2] if isinstance(a[2], int) else show(a[2], d + 1),)
    elif o == "item":
        s = "%s[%s]" % (show(a[0], d + 1), show(a[1], d + 1))
        if a[2]:
            s += "'%s" % (a[2] if isinstance(a[2], int) else show(a[2], d + 1),)
    elif o == "elem":
        s = "each(%s)#%s" % (show(a[0], d + 1), a[1])
    elif o == "idx":
        s = "i#%s" % a[0]
    elif o == "enum":
        s = "%s.%s" % a
    elif o == "call":
        s = "%s(%s)" % (show(a[0], d + 1), ", ".join([show(x, d + 1) for x in a[1]] + ["%s=%s" % (k, show(v, d + 1)) for k, v in a[2]]))
    elif o in ("func", "class", "ext", "module", "builtin"):
        s = str(a[0])
    elif o == "lin":
        parts = []
        for x, c in a[1]:
            parts.append("%s%s" % ("" if c == 1 else "%s*" % c, show(x, d + 1)))
        if a[0] or not parts:
            parts.append(str(a[0]))
        s = "(" + " + ".join(parts) + ")"
    else:
        s = "%s(%s)" % (o, ", ".join(show(x, d + 1) for x in a))
    if d == 0:
        t._str = s
    return s


# ---------------------------------------------------------------- formatted text: fmt((template, value, ...)), template in str.format form with automatic fields
def _esc(s):
    return s.replace("{", "{{").replace("}", "}}")


def concat(parts):
    """text made of the parts one after the other (f-strings, +)"""
    tpl, vals = "", []
    for x in parts:
        if x.op == "const" and x.a[0] == "str":
            tpl += _esc(x.a[1])
        elif x.op == "fmt" and x.a[0][0].op == "const" and x.a[0][0].a[0] == "str":
            tpl += x.a[0][0].a[1]
            vals.extend(x.a[0][1:])
        else:
            tpl += "{}"
            vals.append(x)
    return mk("fmt", (const(tpl),) + tuple(vals)) if vals else const(tpl.format())


def percent(a, args):
    if a.op == "const" and a.a[0] == "str":
        out, n = "", 0
        for lit, spec in re.findall(r"([^%]+)|%([-+ #0]*\d*(?:\.\d+)?[a-zA-Z%])", a.a[1]):
            if lit:
                out += _esc(lit)
            elif spec == "%":
                out += "%"
            else:
                n += 1
                out += "{}" if spec in ("s", "d", "i") else "{!r}" if spec == "r" else "{:%s}" % spec
        if n == len(args) and not any(x.op in ("star", "kwstar") for x in args):
            return mk("fmt", (const(out),) + tuple(args))
    return mk("pct", (a,) + tuple(args))


def braces(a, args, kw):
    if a.op == "const" and a.a[0] == "str" and not any(x.op in ("star", "kwstar") for x in args):
        out, vals, auto = "", [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(a.a[1]):
                out += _esc(lit or "")
                if field is None:
                    continue
                if field == "":
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                else:
                    v = kw[field]
                vals.append(v)
                out += "{%s%s}" % ("!" + conv if conv else "", ":" + spec if spec else "")
            return mk("fmt", (const(out),) + tuple(vals))
        except (ValueError, IndexError, KeyError):
            pass
    return mk("pct", (a,) + tuple(args) + tuple(v for _, v in sorted(kw.items())))


def pieces(t):
    """[str | term] of a fmt term: literal text and inserted values in order"""
    out, i = [], 1
    for lit, field, spec, conv in string.Formatter().parse(t.a[0][0].a[1]):
        if lit:
            out.append(lit)
        if field is not None:
            v = t.a[0][i]
            out.append(mk("call", mk("builtin", "repr"), (v,), ()) if conv == "r" else v)
            i += 1
    return out


# ---------------------------------------------------------------- linear integer forms
def lin_parts(t):
    """(constant, {atom: coefficient}) for an integer-valued term."""
    if t.op == "const" and t.a[0] in ("int", "bool"):
        return int(t.a[1]), {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    if t.op == "add":
        return _lin_comb(t.a[0], t.a[1], 1)
    if t.op == "sub":
        return _lin_comb(t.a[0], t.a[1], -1)
    if t.op == "neg":
        c, d = lin_parts(t.a[0])
        return -c, {k: -v for k, v in d.items()}
    if t.op == "mul":
        for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
            if x.op == "const" and x.a[0] == "int":
                c, d = lin_parts(y)
                return c * x.a[1], {k: v * x.a[1] for k, v in d.items()}
    if t.op == "call" and t.a[0].op == "builtin" and t.a[0].a[0] == "int" and len(t.a[1]) == 1:
        return lin_parts(t.a[1][0])
    return 0, {t: 1}


def _lin_comb(x, y, s):
    c1, d1 = lin_parts(x)
    c2, d2 = lin_parts(y)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + s * v
        if d[k] == 0:
            del d[k]
    return c1 + s * c2, d


def lin(t):
    """Canonical linear form of an integer-valued term."""
    c, d = lin_parts(t)
    return lin_make(c, d)


def lin_make(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return const(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk("lin", c, tuple(sorted(d.items(), key=lambda kv: show(kv[0]))))


def lin_add(x, y, s=1):
    return lin_make(*_lin_comb(x, y, s))
