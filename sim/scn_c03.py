"""C03: the player reads every byte once, in order, never ahead of the network."""
import e2e
import play
from core import Violation
from env import load_transcoder

SIZES = ((300, 2), (1500, 3), (4000, 2), (11000, 1))


def setup(tier):
    load_transcoder()


def scenario(run):
    ch = run.ch
    kind, spec, data = e2e.any_stream(run, SIZES)
    pauses = []
    if ch.chance(1, 3, "pauses"):
        for _ in range(ch.range(1, 3, "np")):
            t = ch.draw(3000, "pause-at") * play.MS
            pauses.append((t, t + (1 + ch.draw(30, "pause-len")) * 100 * play.MS))

    def setup_keys(p):
        for t0, t1 in pauses:
            p.k.at(t0, p.apple.key)
            p.k.at(t1, p.apple.key)

        if pauses:
            p.k.at(max(t for _, t in pauses) + 500 * play.MS, p.keep_unpaused)
    p = e2e.play_through(run, data, setup=setup_keys, containment=False)
    exp = play.expected_ops(data, p.ops)
    play.check_trace(p.apple, exp, True)
    # every byte up to the terminate operation read exactly once
    if p.chip.nread != exp[-1][0]:
        raise Violation("read-count", "the player read %d bytes, the operations take %d" % (
            p.chip.nread, exp[-1][0]))
    acks = sum(1 for e in exp if e[2][0] == "ack")
    if p.chip.rd_committed != 2048 * acks:
        raise Violation("released", "%d bytes handed back after %d acknowledge operations" % (
            p.chip.rd_committed, acks))
    run.note(kind, spec.mode, len(data), "ended", p.ended_at, "segments", p.link.sent)
    run.digest(repr(p.apple.ops[-50:]))
    run.count("bytes_played", len(data))
    run.count("ring_wraps", len(data) // 8192)
    run.count("pointer_wraps", len(data) // 65536)
    run.nontrivial = acks > 0
    run.state(kind, spec.mode, len(data) // 2048, p.ended_at)
