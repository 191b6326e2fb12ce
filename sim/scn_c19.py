"""C19: streams made with the shipped symbol table play correctly on this tree's player."""
import e2e
import play
from core import Violation
from env import load_transcoder


def setup(tier):
    load_transcoder("committed")


def scenario(run):
    ch = run.ch
    n = ch.weighted([(1024, 3), (2048, 3), (200, 1), (10, 1)], "n") + ch.draw(40, "n2")
    log = []
    if ch.chance(1, 5, "real-encode"):
        import numpy as np
        rec = e2e.Recorder(want_diffs=False)
        spec, m = e2e.movie(run, size=60, audio="noise")
        ops = []

        def hook(mv, op):
            ops.append((type(op).__name__, getattr(op, "content", None),
                        getattr(op, "offsets", None)))
        data = e2e.encode(run, spec, m, hook).stream
        kind = "encode"
    else:
        spec, data = e2e.synthetic(run, n, cover=n >= 200, log=log)
        kind = "synthetic"
    writes = []

    def prep(p):
        def on_display(bank, a, v):
            writes.append((len(p.apple.ops) - 1, bank, a, v))
        p.apple.on_display = on_display
    p = e2e.play_through(run, data, level=ch.weighted([(0, 2), (1, 1)], "net"), setup=prep,
                         containment=False)
    ap = p.apple
    by = p.ops.by_addr
    # what the hardware did for every executed operation
    got = {}
    for i, bank, a, v in writes:
        got.setdefault(i, []).append((bank, a, v))
    ticks, j, nt, aux = ap.ticks, 0, len(ap.ticks), 1 if spec.mode == "DHGR" else 0
    bank = 0
    k = 0
    for i, (c, a, _) in enumerate(ap.ops):
        while j < nt and ticks[j] < c:
            j += 1
        op = by[a]
        if op[0] == "ack":
            bank ^= aux
            continue
        if op[0] != "tick":
            continue
        duty = ticks[j + 1] - ticks[j]
        w = got.get(i, [])
        if kind == "synthetic":
            if k >= len(log):
                raise Violation("extra-op", "the player executes more drawing operations than the "
                                "transcoder emitted (%d)" % len(log))
            t, page, content, offs = log[k]
            if abs(duty - t) > 1:
                raise Violation("wrong-pulse", "operation %d, emitted with pulse width %d, is "
                                "played with width %d" % (k, t, duty))
            want = [(bank, ((page - 32) << 8) + o, content) for o in offs]
            if w != want:
                raise Violation("wrong-store", "operation %d (pulse %d, page $%02X, content $%02X, "
                                "offsets %s, %s bank) stores %s" % (
                                    k, t, page, content, list(offs), ("main", "aux")[bank],
                                    [("%s:$%04X=$%02X" % (("main", "aux")[b], x + 0x2000, v))
                                     for b, x, v in w]))
        else:
            if len(w) != 4 or len(set(x >> 8 for _, x, _ in w)) != 1 or w[0][0] != bank:
                raise Violation("wrong-store", "operation %d stores %s" % (k, w))
        k += 1
    if kind == "synthetic" and k != len(log):
        raise Violation("missing-op", "the player executes %d of %d drawing operations" % (
            k, len(log)))
    run.note(kind, spec.mode, len(data), k)
    run.count("operations", k)
    run.count("distinct_ops", len(set(x[:2] for x in log)))
    run.nontrivial = k >= 1000
    run.state(kind, spec.mode, k)
