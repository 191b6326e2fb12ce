"""Encode with the real transcoder (model recorded per operation), play on the real player."""
import os
import shutil

import numpy as np

import media as media_mod
import play
import transcode as tc
from core import Violation
from env import E
from play import SEC


class Recorder:
    """Watches the encoder's screen model: which bytes changed with each operation."""

    def __init__(self, want_diffs=True, hook=None):
        self.ops = []          # (duty, page, content, offsets, aux) or None for the header
        self.diffs = []        # per op: list of (bank, address, value)
        self.prev = None
        self.want = want_diffs
        self.hook = hook

    def __call__(self, mv, op):
        v = mv.video
        if self.want:
            maps = [v.memory_map.page_offset]
            if mv.video_mode.name == "DHGR":
                maps.append(v.aux_memory_map.page_offset)
            if self.prev is None:
                self.prev = [np.zeros((32, 256), dtype=np.uint8) for _ in maps]
            d = []
            for b, m in enumerate(maps):
                p = self.prev[b]
                if m.tobytes() != p.tobytes():
                    ys, xs = np.nonzero(m != p)
                    for y, x in zip(ys.tolist(), xs.tolist()):
                        d.append((b, y * 256 + x, int(m[y, x])))
                    self.prev[b] = m.copy()
            self.diffs.append(d)
        if self.hook is not None:
            self.hook(mv, op)


def audio_for(m, ch, nsamp, rng, kind=None):
    """Mono audio of nsamp samples at the output rate."""
    kind = kind or ch.pick(("noise", "silence", "square", "ramp"), "audio")
    if kind == "silence":
        a = np.zeros(nsamp, dtype=np.int16)
    elif kind == "noise":
        a = np.frombuffer(rng.getrandbits(16 * max(1, nsamp)).to_bytes(2 * max(1, nsamp), "little"),
                          dtype="<i2")[:nsamp]
    elif kind == "square":
        n = np.arange(nsamp)
        a = np.where(n // 17 % 2, 30000, -30000).astype(np.int16)
    else:
        a = ((np.arange(nsamp) * 131) % 65536 - 32768).astype(np.int16)
    m.samples = np.array([a], dtype=np.int16)
    return kind


def spec_common(run, modes=("DHGR", "HGR"), preempt=(0, 40, 4)):
    ch = run.ch
    spec = tc.Spec()
    spec.mode = ch.pick(modes, "mode")
    spec.palette = ch.pick(("NTSC", "IIGS"), "palette")
    spec.random_seed = ch.draw(1000, "random")
    spec.switch_den = ch.pick(preempt, "preempt")
    return spec


DEFAULT_PICS = [("sparse", 3), ("blank", 1), ("blocks", 2), ("greys", 2), ("noise", 2)]


def movie(run, spec=None, nsamp=None, pics=DEFAULT_PICS, size=80, fps=None, npics=None,
          holes=False, audio=None, nudged=None):
    """A random small movie: (spec, media)."""
    ch = run.ch
    spec = spec or spec_common(run)
    rate = None
    if fps is None and ch.chance(1, 5, "block-rate"):
        # a picture every 292 operations, as many as fit in 2 KB: pictures fall due exactly
        # at the buffer hand-overs and bank switches
        d = ch.pick((292, 146, 584), "block-rate-ops")
        rate = "%d/%d" % (spec.bitrate, d)
        fps = spec.bitrate / float(d)
    if nsamp is None:
        nsamp = ch.weighted([(900, 3), (1800, 3), (3500, 2), (20, 1)], "len") + ch.draw(300, "len2")
    fps = fps or ch.pick((10, 30, 4, 60), "fps")
    npics = npics or ch.range(1, 4, "npics")
    rng = ch.bulk("pics")
    nfr = int(nsamp / 14700. * fps) + 2
    m = tc.make_media(run, spec, npics, max(nfr, 1), pics, size, rng, holes=holes, nudged=nudged)
    m.rate = rate or "%d/1" % fps
    audio_for(m, ch, nsamp, rng, audio)
    return spec, m


def encode(run, spec, m, rec, ops=None):
    root = tc.scratch()
    try:
        res = tc.run_transcode(run, spec, m, root, rec, ops=ops)
        tc.must_succeed(res)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return res


class Session:
    """Plays one stream start to end; returns the Play object's final state."""

    def __init__(self, run, data, cfg=None, level=None, until=8 * SEC, **kw):
        self.run = run
        self.data = data
        self.dir = tc.scratch()
        self.path = os.path.join(self.dir, "movie.a2m")
        with open(self.path, "wb") as f:
            f.write(data)
        net, host, chip, knobs = cfg or play.fault_config(run.ch, level)
        net.setdefault("faults_until", until)
        self.seed = run.ch.draw(1 << 16, "ram")
        self.p = play.Play(run, self.path, net, chip, host, knobs, seed=self.seed, **kw)

    def __enter__(self):
        self.p.__enter__()
        return self.p

    def __exit__(self, *a):
        self.p.__exit__(*a)
        shutil.rmtree(self.dir, ignore_errors=True)


def play_through(run, data, level=None, setup=None, cfg=None, containment=True, slack=400):
    """Plays data to its end over a (possibly faulty) network.  Returns the Play."""
    with Session(run, data, cfg=cfg, level=level, containment=containment) as p:
        p.start_server()
        p.power_on()
        if setup:
            setup(p)
        p.advance(slack * SEC, lambda: p.ended_at is not None or p.apple.halted)
        run.sim_ns += p.k.now
        run.count("player_cycles", p.apple.cpu.processorCycles)
        run.count("segments", p.link.sent)
        f = p.server_failed()
        if f:
            raise Violation("server-died", "the server ended: %r" % (f,))
        if p.ended_at is None:
            raise Violation("stuck", "the player has not finished after %d simulated s "
                            "(%d of %d bytes read, %s%s)" % (
                                p.k.now // SEC, p.chip.nread, len(data),
                                "halted: %s " % p.apple.halted if p.apple.halted else "running",
                                p.apple.text()))
    return p


def visible_offset(rng):
    return rng.randrange(2) * 128 + rng.randrange(120)


def synthetic(run, n, mode=None, cover=False, log=None):
    """A stream of n random drawing operations framed and written by the real transcoder.

    cover: every one of the 1024 operations occurs once per 1024."""
    ch = run.ch
    spec = tc.Spec()
    spec.mode = mode or ch.pick(("DHGR", "HGR"), "mode")
    rng = ch.bulk("ops")
    m = tc.make_media(run, spec, 1, 1, [("blank", 1)], 1, rng)
    m.samples = np.zeros((1, 1), dtype=np.int16)
    top = 128 if spec.mode == "DHGR" else 256
    keys = [(t, p) for t in range(4, 68, 2) for p in range(32, 64)]

    def ops(mv):
        yield E.opcodes.Header(mode=mv.video_mode)
        order = []
        for _ in range(n):
            if cover:
                if not order:
                    order = list(keys)
                    rng.shuffle(order)
                key = order.pop()
            else:
                key = keys[rng.randrange(1024)]
            c = rng.randrange(top)
            offs = [visible_offset(rng) for _ in range(4)]
            if log is not None:
                log.append((key[0], key[1], c, tuple(offs)))
            yield E.opcodes.TICK_OPCODES[key](c, offs)
    res = encode(run, spec, m, None, ops=ops)
    return spec, res.stream


def any_stream(run, sizes=((300, 2), (1500, 3), (3000, 2), (10000, 1)), real=(1, 4)):
    """A stream: mostly synthetic operations (cheap, long), sometimes a real encode."""
    ch = run.ch
    if ch.chance(real[0], real[1], "real-encode"):
        spec, m = movie(run, size=40, pics=[("sparse", 3), ("blank", 1), ("greys", 1)])
        res = encode(run, spec, m, None)
        return "encode", spec, res.stream
    n = ch.weighted(list(sizes), "n") + ch.draw(300, "n2")
    if ch.chance(1, 6, "tiny"):
        n = ch.draw(4, "n3")
    elif ch.chance(1, 6, "edge"):
        # ends on, just before or just after the end of a 2 KB block
        n = ch.range(1, max(1, n // 292), "blocks") * 292 - 1 + ch.range(-1, 1, "d")
    spec, data = synthetic(run, n)
    return "synthetic", spec, data
