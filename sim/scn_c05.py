"""C05: constant 73-cycle cadence whatever the content."""
import os
import shutil
import tempfile

import e2e
import net as netmod
import play
from core import Violation
from env import load_transcoder

SIZES = ((1200, 3), (3000, 2), (12000, 2))


def setup(tier):
    load_transcoder()


CHUNK_NS = 21459904         # 2048 bytes: 292 operations and a hand-over of 146 cycles


class Watcher:
    """A ][ reduced to its network side: an 8 KB buffer of which the player takes 2 KB
    every 21 ms, from a quarter of a second after the connection on."""

    def __init__(self, s, i, want):
        ch = s.ch
        self.s, self.i, self.want = s, i, want
        self.c = netmod.Client(s.k, s.run, s.link, "10.0.0.%d" % (100 + i), 40000 + i,
                               play.SERVER_IP, s.port, 8192)
        self.c.reading = False
        self.c.on_data = self.on_data
        self.kind = "good" if i == 0 else ch.weighted([("good", 3), ("frozen", 1), ("vanish", 1)],
                                                      "kind")
        self.at = 0 if i == 0 else ch.draw(40, "when") * 100 * play.MS
        self.started = None
        self.taken = 0
        self.waiting = None
        self.waits = []
        s.k.at(self.at, self.c.connect)

    def on_data(self, c):
        if self.started is None:
            self.started = self.s.k.now
            self.s.k.after(250 * play.MS, self.take)
        elif self.waiting is not None and len(c.inbuf) >= 2048:
            self.waits.append((self.waiting, self.s.k.now))
            self.waiting = None
            self.take()

    def take(self):
        c = self.c
        if self.kind != "good" and self.taken >= 100:
            self.s.run.count("fault:watcher-" + self.kind)
            if self.kind == "vanish":
                c.vanish()
            return
        if self.taken * 2048 >= self.want:
            return
        if len(c.inbuf) < 2048:
            self.waiting = self.s.k.now
            return
        self.taken += 1
        c.read(2048)
        if c.state == "ESTABLISHED":
            c.out("A", c.snd_nxt)
        self.s.k.after(CHUNK_NS, self.take)


class Scn:
    pass


def watch(run):
    """A long movie at the player's pace, perhaps with other viewers, on a perfect network:
    the server has every buffer ready in time."""
    ch = run.ch
    nchunks = ch.weighted([(800, 3), (100, 1), (2000, 1), (6000, 0 if run.tier == "quick" else 1)],
                          "chunks")
    data = ch.bulk("content").randbytes(2048) * nchunks
    nview = ch.weighted([(1, 2), (2, 1), (6, 1)], "viewers")
    net, host, chip, knobs = play.fault_config(ch, 0)
    net["latency"] = 150000
    host.update(mss=1460, sndbuf=ch.pick((262144, 87380), "sndbuf"))
    root = tempfile.mkdtemp(prefix="iiv05-")
    try:
        path = os.path.join(root, "movie.bin")
        with open(path, "wb") as f:
            f.write(data)
        with play.Play(run, path, net, chip, host, knobs) as p:
            s = Scn()
            s.run, s.ch, s.k, s.link, s.port = run, ch, p.k, p.link, 1977
            p.start_server()
            vs = [Watcher(s, i, len(data)) for i in range(nview)]
            good = [v for v in vs if v.kind == "good"]

            def done():
                return all(v.taken == nchunks for v in good)
            p.advance(4500 * play.MS + 2 * nchunks * CHUNK_NS, done)
            run.sim_ns += p.k.now
            f = p.server_failed()
            if f:
                raise Violation("server-died", "the server ended: %r" % (f,))
            for v in good:
                if v.taken < nchunks or len(v.waits) > 1:
                    raise Violation(
                        "starved", "%d of %d buffers of a viewer that keeps pace were not there in "
                        "time on a perfect network with %d viewers%s" % (
                            len(v.waits) + (v.taken < nchunks), v.taken, nview,
                            ", the first after %.2f s for %.1f ms" % (
                                (v.waits[0][0] - v.started) / 1e9,
                                (v.waits[0][1] - v.waits[0][0]) / 1e6) if v.waits else ""))
            run.note("watched", nchunks, nview, [len(v.waits) for v in good])
            run.count("buffers_watched", nchunks * len(good))
            run.nontrivial = True
            run.state("watch", nchunks, nview, len(good), max(len(v.waits) for v in good))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def scenario(run):
    ch = run.ch
    if ch.chance(1, 4, "watch"):
        return watch(run)
    if ch.chance(1, 3, "real-encode"):
        spec, m = e2e.movie(run, size=60)
        data = e2e.encode(run, spec, m, None).stream
        kind = "encode"
    else:
        n = ch.weighted(list(SIZES), "n") + ch.draw(300, "n2")
        spec, data = e2e.synthetic(run, n, cover=ch.chance(2, 3, "cover"))
        kind = "synthetic"
    lvl = ch.weighted([(0, 3), (1, 1)], "lvl")
    cfg = play.fault_config(ch, lvl)
    if lvl == 0:      # a network that keeps the buffer filled
        cfg[0]["latency"] = 150000
        cfg[1].update(mss=1460, sndbuf=262144)
        cfg[2]["wnd_update"] = "always"

    def prep(p):
        p.chip.rsr_log = []
    p = e2e.play_through(run, data, cfg=cfg, setup=prep, containment=False)
    exp = play.expected_ops(data, p.ops)
    play.check_trace(p.apple, exp, True)
    ap = p.apple
    by = p.ops.by_addr
    ops, ticks = ap.ops, ap.ticks
    # first speaker access of each operation
    j = 0
    n = len(ticks)
    nt = nfull = nwait = 0
    starts = []
    for c, a, _ in ops:
        while j < n and ticks[j] < c:
            j += 1
        starts.append(j)
    polls = p.chip.rsr_log
    k = 0
    for i in range(len(ops) - 1):
        c, a, _ = ops[i]
        op = by[a]
        t0 = ticks[starts[i]]
        nxt = by[ops[i + 1][1]]
        t1 = ticks[starts[i + 1]] if nxt[0] in ("tick", "ack") else ops[i + 1][0] + 3
        if t0 != c + 3:
            raise Violation("cadence", "operation %s does not begin with a speaker toggle" % (op,))
        if op[0] == "tick":
            nt += 1
            if t1 - t0 != 73:
                raise Violation("cadence", "operation %s (number %d) takes %d cycles, not 73" % (
                    op, i, t1 - t0))
        elif op[0] == "ack":
            while k < len(polls) and polls[k][0] <= c:
                k += 1
            if k < len(polls) and polls[k][1] >= 8:
                nfull += 1
                if t1 - t0 != 146:
                    raise Violation("hand-over", "buffer hand-over takes %d cycles with data "
                                    "available, not 146" % (t1 - t0))
                end = starts[i + 1]
                st = ticks[starts[i]:end] + [t1]
                gaps = [y - x for x, y in zip(st, st[1:])]
                if gaps != [34, 39, 34, 39]:
                    raise Violation("hand-over", "speaker toggles %s cycles apart during the "
                                    "buffer hand-over, not two neutral pulses" % (gaps,))
            else:
                nwait += 1
        else:
            raise Violation("cadence", "a %s operation inside the stream" % op[0])
    if lvl == 0 and nwait > 1:
        # such a connection always has the next buffer ready; one hiccup is forgiven
        raise Violation("starved", "%d of %d hand-overs waited for data on a perfect network" % (
            nwait, nwait + nfull))
    run.note(kind, "ticks", nt, "full", nfull, "waited", nwait)
    run.digest(repr(ticks[-200:]))
    run.count("tick_ops", nt)
    run.count("handovers_full", nfull)
    run.count("handovers_waited", nwait)
    run.nontrivial = nfull > 0
    run.state(kind, lvl, nt, nfull, nwait)
