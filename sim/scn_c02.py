"""C02: every audio sample is one speaker pulse, in order, of the right width."""
import math
from fractions import Fraction

import numpy as np

import e2e
import play
from core import Violation
from env import E, load_transcoder


def setup(tier):
    load_transcoder()


def pulses(apple, by_addr):
    """[(duty from the table, measured interval)] of every drawing operation executed."""
    out = []
    ticks, ops = apple.ticks, apple.ops
    j = 0
    n = len(ticks)
    for i, (c, a, _) in enumerate(ops):
        end = ops[i + 1][0] if i + 1 < len(ops) else 1 << 62
        while j < n and ticks[j] < c:
            j += 1
        mine = []
        while j < n and ticks[j] < end:
            mine.append(ticks[j])
            j += 1
        op = by_addr[a]
        if op[0] == "tick":
            if len(mine) != 2:
                raise Violation("pulse-shape", "operation %d toggles the speaker %d times" % (
                    i, len(mine)))
            out.append((op[1], mine[1] - mine[0]))
    return out


def exact_mono(samples):
    """Mean over channels, as exact fractions."""
    n = samples.shape[0]
    return [Fraction(int(x), n) for x in samples.astype(np.int64).sum(axis=0)]


def percentile(vals, q):
    s = sorted(vals)
    pos = (len(s) - 1) * q / 100.
    lo = int(math.floor(pos))
    hi = min(lo + 1, len(s) - 1)
    return float(s[lo]) + (float(s[hi]) - float(s[lo])) * (pos - lo)


def levels(vals, norm):
    """Reference quantiser: [(set of admissible levels)]"""
    out = []
    for v in vals:
        x = float(v) * norm / 1024.
        eps = max(1e-3, abs(x) * 1e-5)
        out.append({max(-15, min(16, math.trunc(y))) for y in (x - eps, x, x + eps)})
    return out


def make_audio(ch, rng, channels, n):
    kind = ch.pick(("noise", "silence", "quiet", "loud", "rare", "ramp", "peaks"), "audio")
    r = np.random.RandomState(rng.randrange(1 << 30))
    if kind == "silence":
        a = np.zeros((channels, n))
    elif kind == "noise":
        a = r.randint(-32768, 32768, size=(channels, n))
    elif kind == "quiet":
        a = r.randint(-300, 301, size=(channels, n))
    elif kind == "loud":
        a = r.choice([-32768, 32767, 0, 16384, -16384], size=(channels, n))
    elif kind == "peaks":
        # far above the 99.5th percentile: clipped whatever the normalisation
        a = r.randint(-600, 601, size=(channels, n))
        for _ in range(max(1, n // 400)):
            a[:, r.randint(n)] = r.choice([-32768, 32767, 20000, -9000])
    elif kind == "rare":
        a = np.zeros((channels, n))
        for _ in range(max(1, n // 500)):
            a[:, r.randint(n)] = r.randint(-32768, 32768)
    else:
        a = np.tile((np.arange(n) * 67) % 65536 - 32768, (channels, 1))
    return kind, a.astype(np.int16)


def block_sizes(ch, channels):
    k = ch.weighted([("default", 2), ("frames", 2), ("any", 3), ("tiny", 1)], "blocks")
    if k == "default":
        return k, None
    if k == "frames":
        return k, [2 * channels * (1 + ch.draw(1500, "bs")) for _ in range(ch.range(1, 4, "nb"))]
    if k == "any":
        return k, [1 + ch.draw(6000, "bs") for _ in range(ch.range(1, 4, "nb"))]
    return k, [1 + ch.draw(40, "bs")]


def scenario(run):
    ch = run.ch
    spec = e2e.spec_common(run)
    rng = ch.bulk("content")
    channels = ch.pick((1, 2, 6, 3), "channels")
    rate = ch.pick((0, 0, 3, 2, 48000, 32000, 44100), "rate")   # 0: same as the output rate
    spec.bitrate = ch.pick((14700, 22500), "bitrate")
    nout = ch.weighted([(300, 2), (900, 3), (2500, 2), (5, 1)], "n") + ch.draw(200, "n2")
    spec.normalization = ch.pick((1.0, None, 2.5, 0.37, 11.0, 90.0), "norm")
    spec, m = e2e.movie(run, spec, nsamp=nout, size=30, fps=ch.pick((10, 4), "fps"), npics=2,
                        pics=[("blank", 4), ("sparse", 1)], audio="silence")
    # enough pictures that audio is never cut short
    m.frames += [m.frames[-1]] * 4
    m.samplerate = spec.bitrate if rate == 0 else spec.bitrate * rate if rate < 10 else rate
    up = m.samplerate / float(spec.bitrate)
    n = nout * m.samplerate // spec.bitrate
    nout = -(-n * spec.bitrate // m.samplerate)
    kind, m.samples = make_audio(ch, rng, channels, n)
    period = 60
    if up > 1 and kind != "silence":
        kind = "sine"
        period = ch.pick((60, 41, 150), "period")
        w = np.sin(2 * np.pi * np.arange(n) / (period * up)) * 15000
        m.samples = np.tile(w, (channels, 1)).astype(np.int16)
    bk, m.blocks = block_sizes(ch, channels)
    if up > 1 and bk in ("tiny", "any"):
        m.blocks = [max(b, 64 * channels) for b in m.blocks]
    res = e2e.encode(run, spec, m, None)
    p = e2e.play_through(run, res.stream, level=ch.pick((0, 0, 1), "lvl"))
    play.check_trace(p.apple, play.expected_ops(res.stream, p.ops), True)
    got = pulses(p.apple, p.ops.by_addr)
    for i, (duty, real) in enumerate(got):
        if abs(duty - real) > 1:
            raise Violation("pulse-width", "pulse %d measures %d cycles, its operation stands for "
                            "%d" % (i, real, duty))
    run.digest(repr(got))
    run.note(kind, "channels", channels, "rate", m.samplerate, "blocks", bk, "norm", spec.normalization,
             "pulses", len(got), "of", nout)
    mono = exact_mono(m.samples)
    if spec.normalization is None:
        norm = None
    else:
        norm = spec.normalization
    if up == 1:
        if norm is None:
            pk = max(abs(percentile(mono, .5)), abs(percentile(mono, 99.5)))
            norm = 16384. / pk if pk else None
        if len(got) != nout:
            raise Violation("pulse-count", "%d samples became %d pulses" % (nout, len(got)))
        if norm is None:
            # nothing but (near) silence: zero samples must stay neutral
            want = [{0} if v == 0 else set(range(-15, 17)) for v in mono]
        else:
            want = levels(mono, norm)
        for i, (w, (duty, real)) in enumerate(zip(want, got)):
            if (duty - 34) // 2 not in w:
                raise Violation("pulse-level", "sample %d (%s after mixing) became level %d, "
                                "expected %s" % (i, float(mono[i]), (duty - 34) // 2, sorted(w)))
    else:
        # resampled: the count must be right whatever the blocks; values are the resampler's,
        # checked where they are known (silence)
        if abs(len(got) - nout) > 1:
            raise Violation("pulse-count", "%d samples at %d Hz became %d pulses at %d Hz, not %d"
                            % (n, m.samplerate, len(got), spec.bitrate, nout))
        if kind == "silence":
            for i, (duty, real) in enumerate(got):
                if duty != 34:
                    raise Violation("pulse-level", "silence became level %d" % ((duty - 34) // 2))
        elif kind == "sine" and len(got) >= 100:
            correlate(run, got, period)
    run.count("pulses", len(got))
    run.count("audio:" + kind)
    run.count("blocks:" + bk)
    run.nontrivial = len(got) > 50 and kind != "silence"
    run.state(kind, channels, m.samplerate, bk, spec.normalization, spec.mode)


def correlate(run, got, period):
    """The pulses follow the (slow) input wave, whatever the resampler does at block edges."""
    g = np.array([(d - 34) // 2 for d, _ in got], dtype=float)
    w = np.sin(2 * np.pi * np.arange(len(g)) / period)
    big = np.abs(w) > .5
    agree = (np.sign(g[big]) == np.sign(w[big])).mean()
    if agree < .9:
        raise Violation("pulse-level", "only %d%% of the pulses have the sign of the resampled "
                        "wave" % (100 * agree))
