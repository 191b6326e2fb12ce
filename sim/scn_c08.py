"""C08: the player modifies only the display, its own operands and its I/O devices."""
import e2e
import play
from core import Violation
from env import load_transcoder

ALLOWED_IO = {0xC000, 0xC010, 0xC054, 0xC055}


def setup(tier):
    load_transcoder()


def scenario(run):
    ch = run.ch
    if ch.chance(3, 5, "real-encode"):
        # full pictures, garbage in the unused bytes of the picture files
        spec = e2e.spec_common(run)
        spec, m = e2e.movie(run, spec, size=ch.pick((60, 400, 3000), "size"),
                            pics=[("noise", 3), ("blocks", 3), ("greys", 2), ("sparse", 2),
                                  ("blank", 1)], holes=True)
        data = e2e.encode(run, spec, m, None).stream
        kind = "encode"
    else:
        n = ch.weighted([(300, 2), (1500, 3), (4000, 2), (11000, 1)], "n") + ch.draw(300, "n2")
        spec, data = e2e.synthetic(run, n, cover=ch.chance(1, 2, "cover"))
        kind = "synthetic"
    writes = [0, 0]

    def prep(p):
        def on_display(bank, a, v):
            writes[bank] += 1
        p.apple.on_display = on_display

        def first(apple, t):
            p.user_dispatch = None
            snap.append((bytes(apple.bus.main), bytes(apple.bus.aux)))
            apple.io_seen.clear()
        p.user_dispatch = first
    snap = []
    p = e2e.play_through(run, data, setup=prep, containment=True)
    ap = p.apple
    bad = set(ap.io_seen) - ALLOWED_IO
    if bad:
        raise Violation("wild-io", "the player accesses I/O locations %s while playing" % (
            ", ".join("$%04X" % a for a in sorted(bad))))
    # everything outside the display and the operands is as it was at the first operation
    for bank, (old, new) in enumerate(zip(snap[0], (ap.bus.main, ap.bus.aux))):
        for lo, hi in ((0, 0x2000), (0x4000, 0x10000)):
            if old[lo:hi] != bytes(new[lo:hi]):
                for a in range(lo, hi):
                    if old[a] != new[a] and not (bank == 0 and ap.bus.writable[a]):
                        raise Violation("wild-write", "$%04X of the %s bank changed from $%02X to "
                                        "$%02X" % (a, ("main", "aux")[bank], old[a], new[a]))
        for a in range(0x2000, 0x4000):
            if (a & 127) >= 120 and old[a] != new[a]:
                raise Violation("hole-write", "unused display byte $%04X changed" % a)
    if spec.mode == "HGR" and writes[1]:
        raise Violation("wild-write", "a single-hi-res movie writes %d bytes into the auxiliary "
                        "bank" % writes[1])
    run.note(kind, spec.mode, len(data), writes)
    run.digest(bytes(ap.bus.main))
    run.count("display_writes", sum(writes))
    run.count("dispatches", len(ap.ops))
    run.nontrivial = len(ap.ops) > 100
    run.state(kind, spec.mode, len(ap.ops), writes[0], writes[1])
