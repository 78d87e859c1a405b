"""Developer aid: mutate.py C10 [func-substring] — list which single-construct changes the rules of a property report."""
import os, sys, tempfile, shutil
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path[:0] = [os.path.join(H, "lib"), H]
sys.dont_write_bytecode = True
import sensitivity as S
from report import R
import importlib
from program import Program, AnalysisBroken
from multiprocessing import Pool
def work(a):
    pid, d, mod, src, root = a
    prog = Program()
    m = prog.modules[mod]
    tmp = tempfile.mkdtemp(prefix="mut-")
    base = os.path.join(tmp, "py", "docria")
    try:
        S.scratch(prog, m, src, base)
        try:
            x = S.run_one(pid, base)
            v = x.violations()
            u = [o.construct for o in x.obs if o.ok is None]
            return d, ("KILLED " + v[0].key + " :: " + v[0].why[:90]) if v else ("quiet" + (" undecided:%s" % u[:4] if u else ""))
        except AnalysisBroken as e:
            return d, "noanswer " + str(e)
        except Exception as e:
            return d, "CRASH %s %s" % (type(e).__name__, e)
    finally:
        shutil.rmtree(tmp)
if __name__ == "__main__":
    pid = sys.argv[1]
    sub = sys.argv[2] if len(sys.argv) > 2 else ""
    prog = Program()
    if sub.startswith("="):
        funcs = [f for f in prog.funcs if any(f.qual == s or s[-1] == "*" and f.qual.startswith(s[:-1]) for s in sub[1:].split(","))]
    else:
        r = S.run_one(pid, prog.root)
        funcs = sorted({f for e in r.engines for f in e.inlined if sub in f.qual}, key=lambda f: f.qual)
        funcs = [f for f in prog.funcs if any(f.qual == g.qual and f.module.name == g.module.name for g in funcs)]
    js = [(pid, d, m.name, src, None) for d, m, src in S.mutants(prog, funcs)]
    verbose = "-v" in sys.argv
    k = 0
    with Pool(8) as p:
        for d, res in p.imap(work, js):
            if res.startswith("KILLED"):
                k += 1
                if not verbose: continue
            print(d, "->", res[:200])
    print("%d/%d killed" % (k, len(js)))
