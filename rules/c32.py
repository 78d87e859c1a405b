"""C32: presentation limits read back, reject values below their minimum, can be disabled, and are honoured by tables."""
import itertools
from rules.common import *

SETTINGS = {"max_rows": (1, 1), "max_columns": (1, 1), "max_column_width": (6, 8), "max_display_width": (10, 12)}
PRINT = ("truncate", "Table._compile_text", "Table._compile_html", "Table.render_text", "Table.render_html", "Table.format_text", "Table.format_html")


def check(R):
    R.rule("settings", "each setting: None and every integer from its minimum on is stored and read back, lower integers raise, and nothing else changes")
    R.rule("none-disables", "no limit is used in arithmetic or an order comparison on a path that has not established that it is not None")
    R.rule("rows", "a table with at most max_rows rows is shown completely; otherwise an equal number of its first and last rows, within the limit, in order, each with its true position, and exactly one omission mark between them")
    R.rule("index", "a row is labelled with its own index when it has one and with its position otherwise")
    R.rule("mark", "rendering emits visible output for the omission mark and for each row")
    prog = R.prog

    def setting(name):
        fg, fs = prog.func("PrintOptions." + name), prog.setter("PrintOptions." + name)
        en, gs = R.paths(fg)
        en2, ss = R.paths(fs, engine=en)
        me, arg = params(en2, fs)[:2]
        gme = params(en, fg)[0]
        vals = list(range(-3, 40)) + [100, 1000]
        acc, rej = [], []
        for v in [None] + vals:
            ev = Evaluator(lambda t, e: v if t.op == "sym" and t.a[0] == arg else NotImplemented, prog)
            oc = outcomes(ss, ev)
            if not oc:
                return R.unknown("settings", name, "no path for %s" % v, fs.loc)
            for p, e in oc:
                wr = {n: x for (o, n), x in p.st.heap.items() if o.op == "sym" and o.a[0] == me}
                touched = [x for x in p.events if x.kind == "setattr" and x.a[0].op == "sym" and x.a[0].a[0] == me]
                if p.raises:
                    if touched:
                        return R.bad("settings", name, "setting %s raises after changing %s" % (v, touched[0].a[1]), touched[0].loc, trace(p))
                    if v is None:
                        return R.bad("settings", name, "None is refused", fs.loc, trace(p))
                    rej.append(v)
                    continue
                # read back through the getter
                back = []
                for g in gs:
                    if g.returns:
                        def gb(t, e2, wr=wr, e=e):
                            if t.op == "attr" and t.a[0].op == "sym" and t.a[0].a[0] == gme:
                                if t.a[1] in wr:
                                    return e.ev(wr[t.a[1]])
                                return ("unset", t.a[1])
                            return NotImplemented
                        ge = Evaluator(gb, prog)
                        if all(ge.truth(c) == b for c, b in g.guards):
                            back.append(ge.ev(g.outcome[1]))
                if back != [v]:
                    return R.bad("settings", name, "after setting %s it reads %s" % (v, "its previous value" if back and isinstance(back[0], tuple) else back), fs.loc, trace(p))
                if v is not None:
                    acc.append(v)
                # other settings untouched
                for other in SETTINGS:
                    if other == name:
                        continue
                    for o in {x.a[1] for q in R.paths(prog.func("PrintOptions." + other), engine=en)[1] for x in walk(q.outcome[1]) if x.op == "attr"}:
                        if o in wr:
                            return R.bad("settings", name, "also changes %s" % other, fs.loc, trace(p))
        lo, hi = SETTINGS[name]
        m = min(acc) if acc else None
        if m is None:
            return R.bad("settings", name, "every integer is refused", fs.loc)
        if any(r > m for r in rej):
            return R.bad("settings", name, "%d is refused although %d is accepted" % (max(rej), m), fs.loc)
        if m < lo:
            return R.bad("settings", name, "accepts %d, below its minimum" % m, fs.loc)
        if m > hi:
            return R.bad("settings", name, "refuses %d" % (m - 1), fs.loc)
        R.good("settings", name, "minimum %d; %d values" % (m, len(vals) + 1), fs.loc)
    for n in SETTINGS:
        R.guarded("settings", n, lambda n=n: setting(n))

    # the attributes behind the settings
    back = {}
    for n in SETTINGS:
        try:
            en, ps = R.paths(prog.func("PrintOptions." + n))
            for p in ps:
                for x in walk(p.outcome[1]):
                    if x.op == "attr":
                        back[x.a[1]] = n
        except Exception:
            pass

    def optattr(t):
        return t.op == "attr" and t.a[1] in back and "options" in show(t.a[0])

    noin = {"Table.render_text": ("Table._compile_text", "truncate", "Table._get_column_format"), "Table.render_html": ("Table._compile_html", "truncate"),
            "Table._compile_text": ("Table.format_text",), "Table._compile_html": ("Table.format_html",), "Table.format_text": ("truncate",), "Table.format_html": ("truncate",)}

    def disabled(q):
        f = prog.func(q)
        en, ps = R.paths(f, no_inline=noin.get(q, ()))
        uses = 0

        def known(guards):
            k = set()
            for g, b in guards:
                if g.op == "is" and NONE in g.a and not b:
                    k |= {x for x in g.a if optattr(x)}
                if g.op == "isnot" and NONE in g.a and b:
                    k |= {x for x in g.a if optattr(x)}
                if b and (g.op in ("truth", "nonempty") and optattr(g.a[0]) or optattr(g)):
                    k |= {x for x in walk(g) if optattr(x)}
            return k

        def operands(t):
            """limits used as a number directly inside t (short-circuiting terms are not entered)"""
            for x in walk(t):
                if x.op in ("lt", "le", "gt", "ge"):
                    for y in x.a:
                        if isinstance(y, T) and optattr(y):
                            yield x, y
                elif x.op == "lin":
                    for y, c in x.a[1]:
                        if optattr(y):
                            yield x, y
                elif x.op in ("mul", "mod", "floordiv", "rshift", "lshift", "rng"):
                    for y in x.a:
                        if isinstance(y, T) and optattr(y):
                            yield x, y
                elif x.op == "call" and x.a[0].op == "builtin" and x.a[0].a[0] in ("min", "max", "int", "range", "abs"):
                    for y in x.a[1]:
                        if isinstance(y, T) and optattr(y):
                            yield x, y

        def scan(paths, outer):
            nonlocal uses
            for p in paths:
                gs = list(p.guards)
                for i, (g, b) in enumerate(gs):
                    k = outer | known(gs[:i])
                    for x, y in operands(g):
                        uses += 1
                        if y not in k:
                            return x, y, p
                k = outer | known(gs)
                for e in p.events:
                    if e.kind == "loop":
                        r = scan(e.a[0].paths, k)
                        if r:
                            return r
                vals = [p.outcome[1]] if len(p.outcome) > 1 and isinstance(p.outcome[1], T) and p.outcome[0] == "ret" else []
                for v in vals:
                    if v.op in ("list", "join", "map"):
                        continue
                    for x, y in operands(v):
                        if any(z.op in ("and", "or", "ite", "for") for z in walk(v)):
                            continue
                        uses += 1
                        if y not in k:
                            return x, y, p
            return None
        r = scan(ps, frozenset())
        if r:
            return R.bad("none-disables", q, "%s is used as a number (%s) although it may be None" % (back[r[1].a[1]], show(r[0])[:100]), f.loc, trace=[("" if b else "not ") + show(g)[:200] for g, b in r[2].guards])
        R.good("none-disables", q, "%d uses of a limit, each guarded" % uses, f.loc)
    for q in PRINT:
        R.guarded("none-disables", q, lambda q=q: disabled(q))

    # ---- the row limit
    def rows(q, fmt):
        f = prog.func(q)
        en, ps = R.paths(f, no_inline=(fmt,))
        ps = frozen(en, ps)
        me = params(en, f)[0]
        fp = params(en, prog.func(fmt))[1:]
        n = 0
        sizes = range(0, 9) if R.tier == "quick" else range(0, 14)
        limits = (None, 1, 2, 3, 4, 5, 6, 7) if R.tier == "quick" else (None,) + tuple(range(1, 14))
        for size, lim in itertools.product(sizes, limits):
            rws = [Val("row%d" % i, {"TableRow"}, {"index": None, "elems": ()}, truth=True) for i in range(size)]
            head = Val("header", {"TableRow"}, {"index": "#", "elems": ()}, truth=True)

            def base(t, ev):
                if optattr(t):
                    return lim if back[t.a[1]] == "max_rows" else 30
                if t.op == "attr" and t.a[0].op == "sym" and t.a[0].a[0] == me:
                    if t.a[1] == "body":
                        return tuple(rws)
                    if t.a[1] == "header":
                        return head
                if t.op == "call" and t.a[0].op == "bound" and show(t.a[0]).endswith(fmt + ")"):
                    a = dict(zip(fp, t.a[1]))
                    a.update(dict(t.a[2]))
                    return ("row", ev.ev(a["row"]), ev.ev(a["index"]) if "index" in a else None)
                return NotImplemented
            rs = results(ps, Evaluator(base, prog))
            if not rs:
                return R.unknown("rows", q, "no path for %d rows, limit %s" % (size, lim), f.loc)
            for (k, v), p in rs:
                what = "%d rows with limit %s" % (size, lim)
                if k == "raise":
                    return R.bad("rows", q, "%s: raises %s" % (what, v), f.loc, trace(p))
                body = list(v[1])
                n += 1
                real = [x for x in body if isinstance(x, tuple) and x and x[0] == "row"]
                marks = [i for i, x in enumerate(body) if not (isinstance(x, tuple) and x and x[0] == "row")]
                for x in real:
                    if x[2] != rws.index(x[1]):
                        return R.bad("rows", q, "%s: row %d is labelled %s" % (what, rws.index(x[1]), x[2]), f.loc, trace(p))
                ids = [rws.index(x[1]) for x in real]
                if lim is None or size <= lim:
                    if ids != list(range(size)) or marks:
                        return R.bad("rows", q, "%s: shows rows %s%s" % (what, ids, " and an omission mark" if marks else ""), f.loc, trace(p))
                    continue
                if len(marks) != 1:
                    return R.bad("rows", q, "%s: %d omission marks" % (what, len(marks)), f.loc, trace(p))
                top, low = ids[:marks[0]], ids[marks[0]:]
                if top != list(range(len(top))) or low != list(range(size - len(low), size)):
                    return R.bad("rows", q, "%s: shows rows %s and %s" % (what, top, low), f.loc, trace(p))
                if len(top) != len(low):
                    return R.bad("rows", q, "%s: shows the first %d and the last %d rows" % (what, len(top), len(low)), f.loc, trace(p))
                if len(ids) > lim or lim >= 2 and not ids:
                    return R.bad("rows", q, "%s: shows %d rows" % (what, len(ids)), f.loc, trace(p))
        R.good("rows", q, "%d combinations of table size and limit" % n, f.loc)
    for q, fmt in (("Table._compile_text", "Table.format_text"), ("Table._compile_html", "Table.format_html")):
        R.guarded("rows", q, lambda q=q, fmt=fmt: rows(q, fmt))

    def label(q):
        f = prog.func(q)
        en, ps = R.paths(f, no_inline=("truncate",))
        ps = frozen(en, ps)
        pn = params(en, f)
        n = 0
        for ri, pos in itertools.product((None, 0, 3, "#"), (0, 5)):
            row = Val("row", {"TableRow"}, {"index": ri, "elems": ()}, truth=True)

            def base(t, ev):
                if t.op == "sym":
                    return {pn[1]: row, pn[2]: pos}.get(t.a[0], NotImplemented)
                if t.op == "call" and t.a[0].op == "builtin" and t.a[0].a[0] == "str":
                    return str(ev.ev(t.a[1][0]))
                if t.op == "fmt" or t.op == "str":
                    return str(ev.ev(t.a[0])) if t.op == "str" else NotImplemented
                return NotImplemented
            for (k, v), p in results(ps, Evaluator(base, prog)):
                want = str(ri) if ri is not None else str(pos)
                if k == "raise" or not v or str(v[0]) != want:
                    return R.bad("index", q, "a row with index %s at position %s is labelled %s" % (ri, pos, v[0] if k != "raise" and v else v), f.loc, trace(p))
                n += 1
        R.good("index", q, "%d combinations" % n, f.loc) if n else R.unknown("index", q, "no path", f.loc)
    for q in ("Table.format_text", "Table.format_html"):
        R.guarded("index", q, lambda q=q: label(q))

    def cut():
        f = prog.func("truncate")
        en, ps = R.paths(f)
        arg = params(en, f)[0]
        n = 0
        widths = (None, 7, 8, 9, 10, 13, 30)
        disp = (None, 11, 12, 20, 120)
        for w, d, size in itertools.product(widths, disp, (0, 1, 2, 3, 5, 6, 7, 8, 9, 20, 31, 200)):
            text = "".join(chr(33 + i % 90) for i in range(size))

            def base(t, ev):
                if optattr(t):
                    return {"max_column_width": w, "max_display_width": d}.get(back[t.a[1]], 5)
                return text if t.op == "sym" and t.a[0] == arg else NotImplemented
            for (k, v), p in results(ps, Evaluator(base, prog)):
                n += 1
                what = "a value of %d characters, column limit %s, display limit %s" % (size, w, d)
                if k == "raise" or not isinstance(v, str):
                    return R.bad("cut", "truncate", "%s: %s" % (what, v), f.loc, trace(p))
                if w is None and d is None and v != text:
                    return R.bad("cut", "truncate", "%s: cut although no limit is set" % what, f.loc, trace(p))
                if w is not None and len(v) > w or w is not None and size <= w - 5 and (d is None or size <= d - 5) and v != text:
                    return R.bad("cut", "truncate", "%s: shown as %d characters" % (what, len(v)), f.loc, trace(p))
        R.good("cut", "truncate", "%d combinations" % n, f.loc) if n else R.unknown("cut", "truncate", "no path", f.loc)
    R.rule("cut", "a value is shown unchanged when it fits or no limit is set, and never wider than the column limit")
    R.guarded("cut", "truncate", cut)

    def mark(q, comp):
        f = prog.func(q)
        en, ps = R.paths(f, no_inline=noin[q])
        seen = 0

        def loops(paths, out):
            for p in paths:
                for e in p.events:
                    if e.kind == "loop":
                        out.append(e.a[0])
                        loops(e.a[0].paths, out)
        out = []
        loops(ps, out)
        for li in out:
            d = li.dom
            if not (d.op == "item" and d.a[0].op == "call" and comp in show(d.a[0])):
                continue
            el = mk("elem", d, li.L)
            split = [p for p in li.paths if any(g.op == "is" and el in g.a and NONE in g.a for g, b in p.guards)]
            writes = any(e.kind == "mut" and e.a[0].op == "obj" and e.a[1] in ("append", "extend", "insert") for p in li.paths for e in p.events)
            if not split or not writes:
                continue
            for p in split:
                none = any(g.op == "is" and el in g.a and NONE in g.a and b for g, b in p.guards)
                wr = [e for e in p.events if e.kind == "mut" and e.a[0].op == "obj" and e.a[1] in ("append", "extend", "insert")]
                wr += [e for e in p.events if e.kind == "loop"]
                vis = [e for e in wr if e.kind == "loop" or any(x.op == "const" and isinstance(x.a[1], str) and "." in x.a[1] or x is el or x.op == "elem" for y in e.a[2] for x in walk(y))]
                seen += 1
                if none and any(e.kind == "loop" and e.a[0].dom is el for e in p.events):
                    return R.bad("mark", q, "the omission mark is iterated as if it were a row", f.loc, [("" if b else "not ") + show(g)[:200] for g, b in p.guards])
                if not (vis if none else wr):
                    return R.bad("mark", q, "%s produces no output" % ("the omission mark" if none else "a row"), f.loc, [("" if b else "not ") + show(g)[:200] for g, b in p.guards])
        if seen:
            R.good("mark", q, "%d loop paths" % seen, f.loc)
        else:
            R.unknown("mark", q, "row loop not recognised", f.loc)
    R.guarded("mark", "Table.render_text", lambda: mark("Table.render_text", "_compile_text"))
    R.guarded("mark", "Table.render_html", lambda: mark("Table.render_html", "_compile_html"))
