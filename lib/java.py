"""A small reader of Java sources: tokens, methods, statement trees, and the sequences of reads or writes a method performs."""
import re

TOK = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|(?P<str>"(?:\\.|[^"\\])*")|(?P<chr>'(?:\\.|[^'\\])*')|(?P<num>\d[\w.]*)|(?P<id>[A-Za-z_$][\w$]*)|(?P<op>->|::|\+\+|--|&&|\|\||[-+*/%&|^=!<>]=|[^\s\w])''', re.S)


class Tok(str):
    line = 0
    kind = ""


class NoJava(Exception):
    pass


def tokens(src):
    out, i = [], 0
    while i < len(src):
        m = TOK.match(src, i)
        if not m:
            raise NoJava("character %d" % i)
        if m.lastgroup:
            t = Tok(m.group())
            t.kind, t.line = m.lastgroup, src.count("\n", 0, i) + 1
            out.append(t)
        i = m.end()
    return out


def close(ts, i):
    """index of the bracket that closes the one at i"""
    o = ts[i]
    c = {"(": ")", "{": "}", "[": "]"}[o]
    d = 0
    for j in range(i, len(ts)):
        if ts[j] == o and ts[j].kind == "op":
            d += 1
        elif ts[j] == c and ts[j].kind == "op":
            d -= 1
            if not d:
                return j
    raise NoJava("bracket at line %d is not closed" % ts[i].line)


class Method:
    def __init__(self, name, cls, params, body, line):
        self.name, self.cls, self.params, self.body, self.line = name, cls, params, body, line


class Java:
    """one source file"""

    def __init__(self, path, shown):
        self.shown = shown
        self.ts = tokens(open(path, encoding="utf8").read())
        self.methods = []
        self.scan(self.ts, None)

    def scan(self, ts, cls):
        i = 0
        while i < len(ts):
            t = ts[i]
            if t in ("class", "enum", "interface") and t.kind == "id" and i + 1 < len(ts) and ts[i + 1].kind == "id":
                name = str(ts[i + 1])
                j = i
                while ts[j] != "{":
                    j += 1
                k = close(ts, j)
                self.scan(ts[j + 1:k], name)
                i = k + 1
                continue
            if t == "(" and i and ts[i - 1].kind == "id":
                k = close(ts, i)
                j = k + 1
                while j < len(ts) and (ts[j].kind == "id" or ts[j] in (",", ".")):
                    j += 1
                if j < len(ts) and ts[j] == "{" and (j == k + 1 or ts[k + 1] == "throws"):
                    e = close(ts, j)
                    self.methods.append(Method(str(ts[i - 1]), cls, ts[i + 1:k], ts[j + 1:e], ts[i - 1].line))
                    i = e + 1
                    continue
                i = k + 1
                continue
            if t == "{":
                i = close(ts, i) + 1
                continue
            i += 1

    def find(self, name, cls=None, ptype=None, first=None):
        for m in self.methods:
            if m.name == name and (cls is None or m.cls == cls) and (ptype is None or m.params[:1] == [ptype]):
                return m
        raise NoJava("no method %s in %s" % (name, self.shown))

    def loc(self, m):
        return "%s:%d" % (self.shown, m.line)


# ------------------------------------------------------------------ statements
def statements(ts):
    """[("expr", tokens) | ("loop", head, body) | ("if", cond, then, else) | ("switch", subject, [(labels, body)]) | ("try", body)]"""
    out, i = [], 0
    while i < len(ts):
        st, i = statement(ts, i)
        out += st
    return out


def statement(ts, i):
    t = ts[i]
    if t == ";":
        return [], i + 1
    if t == "{":
        k = close(ts, i)
        return statements(ts[i + 1:k]), k + 1
    if t == "if":
        k = close(ts, i + 1)
        a, j = statement(ts, k + 1)
        b = []
        if j < len(ts) and ts[j] == "else":
            b, j = statement(ts, j + 1)
        return [("if", ts[i + 2:k], a, b)], j
    if t in ("for", "while"):
        k = close(ts, i + 1)
        a, j = statement(ts, k + 1)
        return [("loop", ts[i + 2:k], a)], j
    if t == "do":
        a, j = statement(ts, i + 1)
        while ts[j] != ";":
            j += 1
        return [("loop", [], a)], j + 1
    if t == "switch":
        k = close(ts, i + 1)
        e = close(ts, k + 1)
        return [("switch", ts[i + 2:k], cases(ts[k + 2:e]))], e + 1
    if t == "try":
        j = i + 1
        out = []
        if ts[j] == "(":
            k = close(ts, j)
            out.append(("expr", ts[j + 1:k]))
            j = k + 1
        a, j = statement(ts, j)
        out += a
        while j < len(ts) and ts[j] in ("catch", "finally"):
            if ts[j] == "catch":
                j = close(ts, j + 1) + 1
                _, j = statement(ts, j)
            else:
                b, j = statement(ts, j + 1)
                out += b
        return out, j
    if t == "synchronized" and ts[i + 1] == "(":
        return statement(ts, close(ts, i + 1) + 1)
    j = i
    while j < len(ts) and ts[j] != ";":
        j = close(ts, j) + 1 if ts[j] in ("(", "{", "[") and ts[j].kind == "op" else j + 1
    return [("expr", ts[i:j])], j + 1


def cases(ts):
    out, i, labels, body = [], 0, [], []
    while i < len(ts):
        if ts[i] in ("case", "default"):
            if body:
                out.append((labels, statements(body)))
                labels, body = [], []
            j = i + 1
            while ts[j] != ":":
                j += 1
            labels.append(str(ts[i + 1]) if ts[i] == "case" else "default")
            i = j + 1
            continue
        j = close(ts, i) + 1 if ts[i] in ("{", "(") else i + 1
        body += ts[i:j]
        i = j
    if labels:
        out.append((labels, statements(body)))
    return out


def calls(ts):
    """(receiver, name, argument tokens, line) of the calls of an expression, inner calls first"""
    out = []
    for i, t in enumerate(ts):
        if t == "(" and i and ts[i - 1].kind == "id":
            k = close(ts, i)
            r = str(ts[i - 3]) if i > 2 and ts[i - 2] == "." else None
            out.append((k, r, str(ts[i - 1]), ts[i + 1:k], t.line))
    out.sort(key=lambda x: x[0])
    return [x[1:] for x in out]


def args(ts):
    out, cur, i = [], [], 0
    while i < len(ts):
        if ts[i] == ",":
            out.append(cur)
            cur = []
            i += 1
            continue
        j = close(ts, i) + 1 if ts[i] in ("(", "{", "[") and ts[i].kind == "op" else i + 1
        cur += ts[i:j]
        i = j
    return out + [cur] if cur or out else out


def text(ts):
    return "".join(str(t) for t in ts)


def literal(t):
    return str(t)[1:-1] if getattr(t, "kind", "") == "str" else None
