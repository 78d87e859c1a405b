"""C37: what the boundary reader gives back is what the boundary writer was given."""
from rules.c19 import *


def check(R):
    R.rule("whole", "over histories of writes and splits, reading the written stream from the start gives the data in order, in chunks of any size")
    R.rule("seek", "after seeking to any offset, repeatedly and out of order, the data from that offset on")
    w = World(R)
    R.guarded("whole", QR, lambda: trip(R, w, "whole", whole))
    R.guarded("seek", QR, lambda: trip(R, w, "seek", seeks))


def whole(total):
    yield [("read", None), ("read", 1)]
    yield [("read", -1)]
    for k in (1000, S - 1, S, 2 * S - 9):
        yield [("read", k)] * (total // k + 2)
    yield [("read", 1), ("read", 0), ("read", S - 2), ("read", 1), ("read", None)]


def seeks(total):
    for k in (0, 1, S - 2, S - 1, S, 2 * S - 1 - MW, 2 * S - MW, 2 * S, 3 * S - 2 * MW - 1, total - 1, total):
        if 0 <= k <= total:
            yield [("seek", k), ("read", 1), ("read", S)]
            yield [("read", None), ("seek", k), ("read", None)]
            yield [("seek", min(total, 7)), ("seek", k), ("read", 2), ("seek", k), ("read", 2)]


def trip(R, w, rule, seqs):
    n = 0
    for i, (b, ops) in enumerate([(B, x) for x in histories()] + [(13, (20000, None, 5)), (16, (65535, 65532, 1, None, 3))]):
        if rule == "seek" and (sum(o or 0 for o in ops) < S or i % 3 and R.tier != "thorough"):
            continue
        got, fails, spec = w.history(b, ops)
        if fails:
            return R.bad(rule, QW, "blocks of %d: %s: %s" % (1 << b, say(ops), fails), w.loc[QW], trace=w.trace())
        data = Run(spec.data)
        why = reading(w, got, data, seqs(data.length))
        n += 1
        if why:
            return R.bad(rule, QR, "blocks of %d, after %s: %s" % (1 << b, say(ops), why), w.loc[QR], trace=w.trace())
    R.good(rule, QR, "%d histories" % n, w.loc[QR])
