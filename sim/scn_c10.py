"""C10: pictures stay in step with the audio regardless of decoder timing."""
import shutil
from fractions import Fraction

import numpy as np

import media as media_mod
import transcode as tc
from core import Violation
from env import Ops, load_transcoder, parse_stream

CPU_BUDGET_S = 200
RATES = ("30/1", "25/1", "24000/1001", "30000/1001", "10/1", "60/1", "12000/1001", "7/2", "1/1",
         "50/3", "120/1", "15/2")
BITRATES = (14700, 22500, 8000, 14700, 11025, 14701)
# values that look different from each other and from 0 in every mode and palette
VALUES = (0x11, 0x7F, 0x33, 0x03, 0x78, 0x44, 0x1E, 0x61, 0x0C, 0x77, 0x19, 0x46, 0x70)


def setup(tier):
    global OPS
    load_transcoder()
    OPS = Ops("player/iivision.dbg")


def pictures(run, spec, nframes, page, width):
    """Picture k fills a few visible bytes of one page with a value of its own."""
    m = media_mod.Media()
    palv = {"IIGS": 0, "NTSC": 5}[spec.palette]
    off = run.ch.pick((0, 40, 80, 128, 168), "row")
    per = len(VALUES)
    for i in range(per):
        a = np.zeros(8192, dtype=np.uint8)
        a[(page - 32) * 256 + off:(page - 32) * 256 + off + width] = VALUES[i]
        m.pictures[(i + 1, spec.mode, palv)] = (a.tobytes(), a.tobytes())
    m.frames = [1 + k % per for k in range(nframes)]
    return m, lambda k: VALUES[k % per]


def transcode(run, spec, m, slow):
    ch = run.ch
    root = tc.scratch()
    m.frames_read = m.tool_calls = 0
    kern = []

    def before(k, s):
        kern.append(k)
    waits = []

    def on_frame(i):
        if slow and kern[0].current is not None and ch.chance(1, slow, "slow-frame"):
            d = ch.pick((0.01, 0.2, 3.0, 65.0), "decode-time")
            run.count("fault:slow-decoder")
            waits.append(d)
            kern[0].sleep(d)
    m.on_frame = on_frame
    try:
        res = tc.run_transcode(run, spec, m, root, before=before)
        tc.must_succeed(res)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return res.stream, sum(waits)


def scenario(run):
    ch = run.ch
    spec = tc.Spec()
    spec.mode = ch.pick(("HGR", "DHGR"), "mode")
    spec.palette = ch.pick(("NTSC", "IIGS"), "palette")
    spec.random_seed = ch.draw(1000, "random")
    spec.bitrate = ch.pick(BITRATES, "bitrate")
    spec.every_n = ch.weighted([(1, 3), (2, 3), (3, 1), (5, 1), (4, 1)], "every_n")
    rate = ch.pick(RATES, "fps")
    page = ch.pick((37, 33, 63, 50), "page")
    width = ch.pick((6, 2, 20), "width")
    nsamp = ch.weighted([(1500, 3), (4000, 3), (15000, 2), (40000 if run.tier == "quick" else 200000, 1)],
                        "len") + ch.draw(600, "len2")
    tpf = Fraction(spec.bitrate) / Fraction(rate)
    # bound the drawing work, which is what costs time
    cost = nsamp / float(tpf) / spec.every_n * width
    if cost > 1500:
        width = max(2, int(width * 1500 / cost))
    nfr = int(nsamp / tpf) + 2
    if ch.chance(1, 4, "short"):
        nfr = max(1, nfr - ch.range(1, 3, "short-by"))
    m, value = pictures(run, spec, nfr, page, width)
    m.rate = rate
    rng = ch.bulk("audio")
    m.samples = np.array([np.frombuffer(rng.getrandbits(16 * nsamp).to_bytes(2 * nsamp, "little"),
                                        dtype="<i2")])
    m.samplerate = spec.bitrate
    spec.switch_den = 0
    data, _ = transcode(run, spec, m, 0)
    m.spread = 0
    check(run, spec, data, tpf, nfr, nsamp, page, value)
    # the same movie with the decoder thread running at another pace
    spec.switch_den = ch.pick((3, 30, 0), "preempt")
    again, waited = transcode(run, spec, m, ch.pick((3, 20, 0), "slow"))
    if again != data:
        i = next((i for i, (x, y) in enumerate(zip(data, again)) if x != y),
                 min(len(data), len(again)))
        raise Violation("schedule-dependent", "the stream depends on how fast the pictures are "
                        "decoded: byte %d differs (lengths %d and %d)" % (i, len(data), len(again)))
    run.digest(data)
    run.note(spec.mode, rate, spec.bitrate, "every", spec.every_n, "samples", nsamp, "frames", nfr)
    run.sim_ns = int(nsamp * 1e9 / spec.bitrate)
    run.count("pictures_due", nfr)
    run.count("samples", nsamp)
    run.nontrivial = nsamp > 2 * tpf
    run.state(spec.mode, rate, spec.bitrate, spec.every_n, nsamp // 1000)


def check(run, spec, data, tpf, nfr, nsamp, page, value):
    """Walk the drawing operations; t counts audio samples from 1."""
    n = spec.every_n
    t = 0
    starts = {}          # picture -> first operation that draws it
    working = set()
    last = -1
    try:
        for pos, op, payload in parse_stream(data, OPS):
            if op[0] != "tick":
                continue
            t += 1
            if op[2] != page or payload[0] == 0:
                if op[2] == page:
                    working.add(t)
                continue
            working.add(t)
            v = payload[0]
            # newest picture due at sample t; a float may put it one sample either way when the
            # due time falls exactly on a sample
            k = min(t / tpf // 1, nfr - 1)
            ok = {k - k % n}
            if k * tpf == t and k:
                ok.add(k - 1 - (k - 1) % n)
            if v not in [value(int(x)) for x in ok]:
                raise Violation("wrong-picture", "operation %d draws byte $%02X, which is not in "
                                "the picture due then (number %d; %s fps at %d Hz, every %d)" % (
                                    t, v, max(ok), tpf and spec.bitrate / tpf, spec.bitrate, n))
            kk = int([x for x in ok if value(int(x)) == v][0])
            if kk < last:
                raise Violation("order", "operation %d goes back to picture %d after %d" % (
                    t, kk, last))
            if kk > last:
                starts[kk] = t
            last = kk
    except ValueError as e:
        raise Violation("malformed", str(e))
    total = t
    # how many samples must be there
    due_end = nfr * tpf           # a further picture would be due: the movie is over
    import math
    want = {nsamp}
    if due_end <= nsamp:
        e = math.ceil(due_end)
        want = {e - 1, e} if due_end == e else {e - 1}
        want = {min(w, nsamp) for w in want}
    if total not in want:
        raise Violation("length", "%d drawing operations for %d samples and %d pictures, expected "
                        "%s" % (total, nsamp, nfr, sorted(want)))
    # every picture is started on the sample it is due
    for k in range(0, nfr, n):
        if k == 0:
            due = 1
        else:
            due = math.ceil(k * tpf)
        if due > total:
            break
        slack = 1 if k and due == k * tpf else 0
        if not any(d in working for d in range(due, due + slack + 1) if d <= total) and \
                due + slack <= total:
            raise Violation("late-picture", "picture %d is due at operation %d, but that operation "
                            "does not draw it (it starts at %s)" % (k, due, starts.get(k)))
        if due + 4 <= total:
            s = starts.get(k)
            if s is None or not due <= s <= due + slack + 3:
                raise Violation("late-picture", "picture %d is due at operation %d and starts at "
                                "%s" % (k, due, s))
    run.count("pictures_started", len(starts))
