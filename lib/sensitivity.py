"""Sensitivity of the rules: single-construct changes of the analysed functions are made in a scratch copy of the source
and the rules are run again on each copy (still statically).  Only reported as evidence; never part of the verdict."""
import ast
import copy
import importlib
import os
import shutil
import tempfile
import time

from program import Program, AnalysisBroken

CMPS = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
        ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def sites(fn):
    """[(description, mutator(node in copied tree))] for one function node"""
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMPS:
            out.append((n, "cmp", lambda m: setattr(m, "ops", [CMPS[type(m.ops[0])]()])))
        elif isinstance(n, ast.Compare):
            for i in range(len(n.ops)):
                if type(n.ops[i]) in CMPS:
                    out.append((n, "cmp%d" % i, lambda m, i=i: m.ops.__setitem__(i, CMPS[type(m.ops[i])]())))
        elif isinstance(n, ast.BoolOp):
            out.append((n, "boolop", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())))
            for i in range(len(n.values)):
                out.append((n, "drop-operand%d" % i, lambda m, i=i: m.values.pop(i) if len(m.values) > 2 else m.values.__setitem__(i, m.values[1 - i])))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((n, "unnot", lambda m: setattr(m, "op", None)))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            out.append((n, "negate", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test))))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            out.append((n, "arith", lambda m: setattr(m, "op", ast.Sub() if isinstance(m.op, ast.Add) else ast.Add())))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            out.append((n, "const+1", lambda m: setattr(m, "value", m.value + 1)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((n, "constnot", lambda m: setattr(m, "value", not m.value)))
        if hasattr(n, "body") and isinstance(n.body, list):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(n, fld, None)
                if not b:
                    continue
                for i, s in enumerate(b):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    if isinstance(s, (ast.Import, ast.ImportFrom, ast.Pass, ast.FunctionDef)):
                        continue
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Assert, ast.If, ast.For, ast.Return, ast.Delete, ast.Continue, ast.Break)):
                        out.append((n, "del-%s[%d]" % (fld, i), lambda m, fld=fld, i=i: getattr(m, fld).__setitem__(i, ast.copy_location(ast.Pass(), getattr(m, fld)[i]))))
                    if isinstance(s, ast.Continue):
                        out.append((n, "cont->break", lambda m, fld=fld, i=i: getattr(m, fld).__setitem__(i, ast.copy_location(ast.Break(), getattr(m, fld)[i]))))
                    if isinstance(s, ast.Break):
                        out.append((n, "break->cont", lambda m, fld=fld, i=i: getattr(m, fld).__setitem__(i, ast.copy_location(ast.Continue(), getattr(m, fld)[i]))))
                for i in range(len(b) - 1):
                    if isinstance(b[i], (ast.Expr, ast.Assign, ast.AugAssign)) and isinstance(b[i + 1], (ast.Expr, ast.Assign, ast.AugAssign)) \
                            and not (isinstance(b[i], ast.Expr) and isinstance(b[i].value, ast.Constant)):
                        out.append((n, "swap-%s[%d]" % (fld, i), lambda m, fld=fld, i=i: getattr(m, fld).__setitem__(slice(i, i + 2), getattr(m, fld)[i:i + 2][::-1])))
    return out


class Fix(ast.NodeTransformer):
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        return n.operand if n.op is None else n


def mutants(prog, funcs):
    """yield (description, module, source)"""
    for f in funcs:
        m = f.module
        idx = {id(n): i for i, n in enumerate(ast.walk(m.tree))}
        for n, what, fn in sites(f.node):
            i = idx.get(id(n))
            if i is None:
                continue
            t = ast.parse(m.source)
            nodes = list(ast.walk(t))
            node = nodes[i]
            if type(node) is not type(n):
                continue
            fn(node)
            t = ast.fix_missing_locations(Fix().visit(t))
            try:
                src = ast.unparse(t)
            except Exception:
                continue
            if src != ast.unparse(m.tree):
                yield "%s:%d %s %s" % (m.rel, getattr(n, "lineno", 0), f.qual, what), m, src


def scratch(prog, m, src, base):
    for k, mm in prog.modules.items():
        p = os.path.join(base, os.path.relpath(mm.path, prog.root))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write(src if mm is m else mm.source)


def run_one(pid, root):
    from report import R
    mod = importlib.import_module("rules." + pid.lower())
    r = R(pid, "quick", Program(root))
    mod.check(r)
    return r


def measure(pid, r, limit=60, seconds=240):
    import random
    funcs = sorted({f for e in r.engines for f in e.inlined}, key=lambda f: (f.module.name, f.qual))
    ms = list(mutants(r.prog, funcs))
    random.Random(1).shuffle(ms)
    tmp = tempfile.mkdtemp(prefix="docria-sens-")
    base = os.path.join(tmp, "py", "docria")
    killed, quiet, noans, surv = 0, 0, 0, []
    t0 = time.time()
    n = 0
    try:
        for d, m, src in ms[:limit]:
            if time.time() - t0 > seconds:
                break
            n += 1
            scratch(r.prog, m, src, base)
            try:
                x = run_one(pid, base)
                if x.violations():
                    killed += 1
                else:
                    quiet += 1
                    surv.append(d)
            except AnalysisBroken:
                noans += 1
    finally:
        shutil.rmtree(tmp)
    return {"sensitivity": {"single_construct_changes_tried": n, "reported": killed, "not_reported": quiet, "no_answer": noans,
                            "note": "changes are arbitrary edits of analysed functions; many do not concern this property",
                            "not_reported_examples": surv[:20]}}
