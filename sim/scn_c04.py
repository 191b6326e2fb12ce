"""C04: playback always reaches the end and the server is free for the next client."""
import e2e
import net as netmod
import play
from core import Violation
from env import load_transcoder
from play import MS, SEC

SIZES = ((300, 2), (1500, 3), (3000, 2), (8000, 1))


def setup(tier):
    load_transcoder()


def scenario(run):
    ch = run.ch
    kind, spec, data = e2e.any_stream(run, SIZES)
    cfg = play.fault_config(ch)
    net, host, chip, knobs = cfg
    until = ch.pick((8, 2, 30), "faults-until") * SEC
    npause = ch.weighted([(0, 3), (1, 2), (2, 1)], "pauses")
    pauses = []
    for _ in range(npause):
        long = ch.weighted([(0, 4), (30, 1), (600, 1), (7200, 1)], "long") * SEC
        pauses.append((ch.draw(4000, "at") * MS, (1 + ch.draw(40, "len")) * 200 * MS + long))
    with e2e.Session(run, data, cfg=cfg, until=until, containment=False) as p:
        p.start_server()
        p.k.clock_jumps(20 * 10 ** 9)
        p.power_on()
        for t, d in pauses:
            p.k.at(t, p.apple.key)
            p.k.at(t + d, p.apple.key)
        stop_pauses = max([t + d for t, d in pauses] + [0])
        nops = len(p_ops(data, p))
        nominal = nops * 73000 + 600 * MS
        # generous but finite: connection retries (6 x 32 s) only if faults hit the handshake,
        # then per 1 KB one probe timeout and some round trips
        rtt = 2 * net["latency"] + 60 * MS
        bound = max(until, stop_pauses) + 70 * SEC + 2 * nominal + \
            (len(data) // 512 + 20) * (2 * host["rto"] + rtt)
        if pauses:
            p.k.at(stop_pauses + 500 * MS, p.keep_unpaused)
        p.advance(bound, lambda: p.ended_at is not None or p.apple.halted)
        f = p.server_failed()
        if f:
            raise Violation("server-died", "the server ended: %r" % (f,))
        if p.ended_at is None:
            raise Violation("stuck", "faults stopped at %d s but the player has not reached the "
                            "end of the video after %d s: %d of %d bytes read, last operation at "
                            "%.3f s, receive ring %d bytes, server buffer %s" % (
                                until // SEC, p.k.now // SEC, p.chip.nread, len(data),
                                (p.apple.ops[-1][0] if p.apple.ops else 0) / 1e6,
                                p.chip.rx_total - p.chip.rd_committed,
                                [len(c.buf) for c in p.stack.conns.values()]))
        # the server closes this connection ...
        end = p.k.now
        closed = p.advance(end + 40 * SEC + (len(data) // 512 + 20) * (2 * host["rto"] + rtt),
                           lambda: p.chip.sr in (0x1C, 0))
        if not closed:
            raise Violation("not-closed", "the server has not closed the finished connection "
                            "(socket status $%02X, ring %d)" % (
                                p.chip.sr, p.chip.rx_total - p.chip.rd_committed))
        # ... and serves the next client
        p.link.loss = p.link.dup = p.link.reorder = p.link.big_delay = p.link.jitter = 0
        p.link.partitions = []
        c = netmod.Client(p.k, run, p.link, "10.0.0.77", 40000, play.SERVER_IP, 1977)
        c.connect()
        p.advance(p.k.now + 60 * SEC + len(data) // 512 * rtt, lambda: c.eof)
        if not c.eof or bytes(c.data) != data:
            raise Violation("next-client", "the next client got %d of %d bytes (%s)" % (
                len(c.data), len(data), c.state))
        margin = (bound - p.ended_at) / float(bound)
        run.sim_ns += p.k.now
        run.note(kind, len(data), "ended", p.ended_at, "bound", bound, "pauses", npause)
        run.count("time_used_pct", int(100 * (1 - margin)))
        run.count("segments", p.link.sent)
        run.count("pauses", npause)
        run.nontrivial = sum(v for k, v in run.stats.items() if k.startswith("fault:")) + npause > 0
        run.state(kind, len(data) // 2048, p.ended_at)


def p_ops(data, p):
    return play.expected_ops(data, p.ops)
