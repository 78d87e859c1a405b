"""Obligation ledger shared by the rules: every rule instance is recorded as ok / violation / unknown."""
import json
import os
import time

from decide import Cannot, Raised
from program import Program, AnalysisBroken
from names import Limit
from psi import Engine
import terms

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("DOCRIA_EVIDENCE", os.path.join(HERE, "evidence"))


class Ob:
    __slots__ = ("rule", "construct", "ok", "why", "loc", "trace")

    def __init__(self, rule, construct, ok, why, loc, trace):
        self.rule, self.construct, self.ok, self.why, self.loc, self.trace = rule, construct, ok, why, loc, trace

    @property
    def key(self):
        return "%s|%s" % (self.rule, self.construct)


class R:
    """One run of the rules of one property."""

    def __init__(self, pid, tier="quick", prog=None):
        self.pid = pid
        self.tier = tier
        self.prog = prog or Program()
        self.obs = []
        self.rules = {}
        self.engines = []
        self.t0 = time.time()
        self.notes = []

    # ---- declaring rules and obligations
    def rule(self, name, text, level=None):
        self.rules[name] = text

    def ob(self, rule, construct, ok, why="", loc=None, trace=None):
        if rule not in self.rules:
            self.rules[rule] = ""
        self.obs.append(Ob(rule, construct, ok, why if isinstance(why, str) else repr(why), loc, trace))
        return ok

    def good(self, rule, construct, why="", loc=None):
        return self.ob(rule, construct, True, why, loc)

    def bad(self, rule, construct, why, loc=None, trace=None):
        return self.ob(rule, construct, False, why, loc, trace)

    def unknown(self, rule, construct, why, loc=None):
        return self.ob(rule, construct, None, why, loc)

    def note(self, s):
        self.notes.append(s)

    # ---- engine access
    def engine(self, **opts):
        e = Engine(self.prog, **opts)
        self.engines.append(e)
        return e

    def paths(self, func, args=None, self_cls=None, engine=None, st=None, **opts):
        """Path summary of a public function; Limit propagates to `guarded`."""
        e = engine or self.engine(**opts)
        f = self.prog.func(func) if isinstance(func, str) else func
        c = self.prog.cls(self_cls) if isinstance(self_cls, str) else self_cls
        ps = e.run(f, args=args, self_cls=c, st=st)
        e.inlined.add(f)
        e.npaths += len(ps)
        return e, ps

    def guarded(self, rule, construct, fn):
        """Run one rule instance; an exceeded analysis bound makes it unknown, never a finding."""
        try:
            return fn()
        except AnalysisBroken:
            raise
        except Limit as x:
            self.unknown(rule, construct, "analysis bound: %s" % x)
        except RecursionError:
            self.unknown(rule, construct, "analysis bound: recursion")
        except (Cannot, Raised) as x:
            self.unknown(rule, construct, "outside the vocabulary: %s" % x)
        except Exception as x:
            if os.environ.get("DOCRIA_DEBUG"):
                raise
            self.unknown(rule, construct, "construct outside the analysed subset: %s: %s" % (type(x).__name__, x))

    # ---- result
    def violations(self):
        seen, out = set(), []
        for o in self.obs:
            if o.ok is False and o.key not in seen:
                seen.add(o.key)
                out.append(o)
        return out
