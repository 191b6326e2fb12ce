"""C24: no part of the picture is put off for ever while other parts keep changing."""
import math

import numpy as np

import e2e
import media as media_mod
from core import Violation
from env import Ops, load_transcoder, parse_stream
from scn_c12 import BASE, WHERE, colour_row

CPU_BUDGET_S = 240
# what the constant part shows: a few dots, so that the changing parts differ by more
QUIET = {"HGR": (0x03, 0x01, 0x40, 0x0c, 0x60, 0x08, 0x06, 0x2a, 0x82, 0x83),
         "DHGR": (0x01, 0x40, 0x08, 0x07, 0x0e, 0x70, 0x33)}
FACTOR = 3


def setup(tier):
    load_transcoder()


def scenario(run):
    ch = run.ch
    spec = e2e.spec_common(run)
    mode = spec.mode
    spec.every_n = every = ch.pick((1, 1, 2), "every")
    fps = ch.pick((60, 120, 60, 30), "fps")
    top = 128 if mode == "DHGR" else 256
    banks = (0, 1) if mode == "DHGR" else (0,)
    palv = {"IIGS": 0, "NTSC": 5}[spec.palette]
    tpf = 14700. / fps * every
    nmoving = ch.weighted([(24, 4), (48, 2), (120, 0 if run.tier == "quick" else 2)], "moving")
    if mode == "DHGR":
        nmoving //= 2
    nquiet = ch.pick((1, 2, 4), "quiet-rows")
    rng = np.random.RandomState(ch.draw(1 << 20, "content:bulk"))
    rows = [int(y) for y in rng.permutation(192)]
    quiet, moving = rows[:nquiet], rows[nquiet:nquiet + nmoving]
    since = ch.pick((0, 0, 1, 4), "since")          # the picture from which the part is constant
    width = ch.pick((40, 40, 7, 1), "width")
    what = ch.pick(QUIET[mode], "what")
    before = ch.pick((0, 0x7f, 0x2a), "before")
    nvals = ch.pick((6, 3, 12), "values")
    vals = rng.randint(0, top, size=nvals)
    m = media_mod.Media()
    left = int(rng.randint(0, 41 - width))
    npics = 5

    def part(a, v):
        for y in quiet:
            a[BASE[y] + left:BASE[y] + left + width] = v
    for i in range(npics + since):
        pic = []
        for _ in range(2):
            a = np.zeros(8192, dtype=np.uint8)
            for y in moving:
                a[BASE[y]:BASE[y] + 40] = vals[rng.randint(0, nvals, size=40)]
            part(a, what if i >= since else before)
            pic.append(a.tobytes())
        if mode == "HGR":
            pic[1] = bytes(8192)
        m.pictures[(i + 1, mode, palv)] = tuple(pic)
    nbytes = nmoving * 40 * len(banks)
    nq = nquiet * width * len(banks)
    first = max(1, math.ceil(since * tpf))
    bound = int(FACTOR * (nbytes + nq) + 4 * tpf + 1000)
    nsamp = first + bound + 600
    nfr = int(nsamp / tpf) + 3
    m.frames = []
    for i in range(nfr):
        p = i + 1 if i < since else since + 1 + int(rng.randint(0, npics))
        if i > since and p == m.frames[-1]:
            p = since + 1 + (p - since) % npics
        m.frames += [p] * every
    m.rate = "%d/1" % fps
    m.samples = np.zeros((1, nsamp), dtype=np.int16)
    data = e2e.encode(run, spec, m, None).stream
    run.digest(data)
    still = m.pictures[(since + 1, mode, palv)]
    done = check(run, spec, data, still, quiet, first, bound)
    run.note(mode, spec.palette, fps, every, "changing", nbytes, "constant", nq, hex(what), "since",
             first, "drawn after", done - first + 1, "of", bound)
    run.count("ops_to_draw", max(0, done - first + 1))
    run.count("bound_ops", bound)
    run.count("pictures", nfr)
    run.sim_ns = int(nsamp * 1e9 / 14700)
    run.nontrivial = done > first + tpf
    run.state(mode, spec.palette, fps, every, nbytes, nq, what, since, done)


def check(run, spec, data, still, quiet, first, bound):
    """Draws the stream on a screen of our own and looks at the constant rows."""
    ops = Ops("player/iivision.dbg")
    screen = [bytearray(8192), bytearray(8192)]

    def show(b, y):
        return colour_row(spec.mode, spec.palette, b[0], b[1], y)
    target = {y: show(still, y) for y in quiet}
    bank = t = done = 0
    dirty, bad = set(), set(quiet)
    try:
        for pos, op, payload in parse_stream(data, ops):
            if op[0] == "ack":
                bank = payload[0] & 1 if spec.mode == "DHGR" else 0
                continue
            if op[0] != "tick":
                continue
            t += 1
            base = (op[2] - 32) << 8
            s = screen[bank]
            v = payload[0]
            for o in payload[1:]:
                a = base + o
                if s[a] != v:
                    s[a] = v
                    if WHERE.get(a) in target:
                        dirty.add(WHERE[a])
            if t < first:
                continue
            if t == first:
                dirty = set(quiet)
            for y in dirty:
                (bad.discard if show(screen, y) == target[y] else bad.add)(y)
            dirty.clear()
            if bad:
                done = t
                if t > first + bound:
                    y = min(bad)
                    now = show(screen, y)
                    d = [i for i in range(560) if now[i] != target[y][i]]
                    raise Violation(
                        "put-off", "%d operations after a part of the picture became constant %d of "
                        "its %d rows do not show it, while other parts keep changing: row %d has %d "
                        "wrong dots" % (t - first, len(bad), len(quiet), y, len(d)))
    except ValueError as e:
        raise Violation("malformed", str(e))
    if t < first + bound:
        raise Violation("short", "the stream ends after %d of %d operations" % (t, first + bound))
    return done
