"""Developer aid: print the path summary of one function.  usage: dump.py Class.method [key=val ...]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from psi import *
def dump_events(evs, ind="    "):
    for e in evs:
        if e.kind == "loop":
            li = e.a[0]
            print(ind + "loop #%s over %s @%s" % (li.L, show(li.dom), e.loc))
            for p in li.paths:
                print(ind + "  path [%s] -> %s" % (", ".join(("" if b else "!") + show(g) for g, b in p.guards), p.outcome))
                dump_events(p.events, ind + "      ")
        elif e.kind in ("enterfn",):
            continue
        else:
            print(ind + repr(e))
if __name__ == "__main__":
    opts = {}
    for a in sys.argv[2:]:
        k, v = a.split("=")
        opts[k] = eval(v)
    import time
    t = time.time()
    en = Engine(**opts)
    f = en.prog.func(sys.argv[1])
    ps = en.run(f)
    for i, p in enumerate(ps):
        print("PATH", i, p.outcome[0], show(en.freeze(p.outcome[1], p.st)) if len(p.outcome) > 1 and isinstance(p.outcome[1], T) else "")
        print("  guards:", "; ".join(("" if b else "!") + show(g) for g, b in p.guards))
        dump_events(p.events)
    print(len(ps), "paths", en.steps, "steps", "%.2fs" % (time.time() - t), en.opaque[:5])
