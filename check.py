#!/usr/bin/env python3
"""Run the static rules of one property (or all) against the current source of /repo.

usage: check.py C05 [--tier quick|thorough]      exit 0: held on everything analysed, 1: VIOLATION, 2: no answer
"""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from report import R, EVID          # noqa: E402
from program import AnalysisBroken  # noqa: E402


def known():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            l = l.strip()
            if l.startswith("finding:"):
                d = dict(x.split("=", 1) for x in l[8:].split(None, 2)[:2])
                out.setdefault(d["property"], {})[d["key"].replace("%20", " ")] = l
    return out


def run(pid, tier="quick", prog=None):
    mod = importlib.import_module("rules." + pid.lower())
    r = R(pid, tier, prog)
    mod.check(r)
    return r


def emit(r, seed, tier, broken=None, extra=None):
    os.makedirs(EVID, exist_ok=True)
    kf = known().get(r.pid, {})
    vs = r.violations()
    new = [o for o in vs if o.key not in kf]
    old = [o for o in vs if o.key in kf]
    n_ok = sum(1 for o in r.obs if o.ok is True)
    n_un = sum(1 for o in r.obs if o.ok is None)
    funcs = sorted({repr(f) for e in r.engines for f in e.inlined} | {repr(f) for f in getattr(r, "walked", [])})
    rules = {}
    for o in r.obs:
        d = rules.setdefault(o.rule, {"text": r.rules.get(o.rule, ""), "ok": 0, "violation": 0, "unknown": 0})
        d["ok" if o.ok else "unknown" if o.ok is None else "violation"] += 1
    for k, t in r.rules.items():
        rules.setdefault(k, {"text": t, "ok": 0, "violation": 0, "unknown": 0})
    replay = os.path.join(EVID, r.pid + ".replay.json")
    ev = {
        "property": r.pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "static analysis of the source of %s: %d functions walked, %d path summaries, %d rule instances "
                           "(obligations): %d discharged, %d violated, %d undecided (construct outside the analysed subset; "
                           "neither a pass nor a finding)" % (r.prog.root, len(funcs), sum(e.npaths for e in r.engines),
                                                            len(r.obs), n_ok, len(vs), n_un),
            "obligations": len(r.obs), "discharged": n_ok, "undecided": n_un,
            "functions_analysed": len(funcs), "functions": funcs,
            "paths": sum(e.npaths for e in r.engines), "engine_steps": sum(e.steps for e in r.engines),
            "rules": rules,
            "undecided_instances": [{"rule": o.rule, "construct": o.construct, "why": o.why} for o in r.obs if o.ok is None][:60],
            "discharged_instances": [{"rule": o.rule, "construct": o.construct} for o in r.obs if o.ok is True][:400],
        },
        "wall_s": round(time.time() - r.t0, 3),
        "violations": len(new),
        "assumptions": getattr(r, "assumptions", []) or [
            "built-in containers, strings, slices, io streams and msgpack behave as documented",
            "user code does not reach into private attributes of library objects"],
    }
    if extra:
        ev["coverage"].update(extra)
    if broken:
        ev["coverage"]["explanation"] = "no answer: " + broken
    with open(os.path.join(EVID, r.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d functions, %d paths, %d obligations: %d ok, %d undecided, %d violated (%.1fs)"
          % (r.pid, len(funcs), sum(e.npaths for e in r.engines), len(r.obs), n_ok, n_un, len(vs), time.time() - r.t0))
    for o in r.obs:
        if o.ok is None:
            print("  undecided: [%s] %s: %s" % (o.rule, o.construct, o.why[:200]))
    for o in old:
        print("KNOWN-FINDING: property=%s [%s] %s: %s" % (r.pid, o.rule, o.construct, o.why[:300]))
    for o in new:
        print("  [%s] %s at %s: %s" % (o.rule, o.construct, o.loc, o.why[:600]))
    if new:
        with open(replay, "w") as f:
            json.dump([{"rule": o.rule, "rule_text": r.rules.get(o.rule, ""), "construct": o.construct, "location": o.loc,
                        "why": o.why, "trace": o.trace, "key": o.key} for o in new], f, indent=1, default=str)
        for o in new:
            print("VIOLATION property=%s replay=%s" % (r.pid, replay))
        return 1
    if os.path.exists(replay):
        os.remove(replay)
    if broken:
        print("NO-ANSWER property=%s: %s" % (r.pid, broken))
        return 2
    if n_ok == 0:
        print("NO-ANSWER property=%s: no rule instance could be decided" % r.pid)
        return 2
    return 0


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if pid == "all":
        rc = 0
        for f in sorted(os.listdir(os.path.join(HERE, "rules"))):
            if f[0] == "c" and f.endswith(".py"):
                p = f[:-3].upper()
                os.environ.get("X")
                rc = max(rc, one(p, tier, seed))
        return rc
    return one(pid, tier, seed)


def one(pid, tier, seed):
    mod = importlib.import_module("rules." + pid.lower())
    r = R(pid, tier)
    broken = None
    try:
        mod.check(r)
    except AnalysisBroken as x:
        broken = str(x)
    extra = None
    if tier == "thorough" and not r.violations() and not broken:
        try:
            import sensitivity
            extra = sensitivity.measure(pid, r)
        except ImportError:
            pass
    return emit(r, seed, tier, broken, extra)


if __name__ == "__main__":
    sys.exit(main(sys.argv))
