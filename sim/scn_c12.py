"""C12: a still picture is always completely drawn, and then left alone."""
import math

import numpy as np

import e2e
import media as media_mod
import transcode as tc
from core import Violation
from env import Ops, load_transcoder, parse_stream

CPU_BUDGET_S = 200
WHERE = {}          # (page-relative address) -> row
for _y in range(192):
    _a, _d = divmod(_y, 64)
    _b, _c = divmod(_d, 8)
    for _x in range(40):
        WHERE[1024 * _c + 128 * _b + 40 * _a + _x] = _y
BASE = {y: min(a for a, r in WHERE.items() if r == y) for y in range(192)}


def setup(tier):
    load_transcoder()


def double(b):
    """The 14 dots of the 7 bits of a hi-res byte."""
    r = 0
    for i in range(7):
        if b >> i & 1:
            r |= 3 << 2 * i
    return r


DOUBLE = [double(b & 127) for b in range(256)]


def row_dots(mode, main, aux, y):
    """The dots of one screen row, leftmost in bit 0 (560 of them, black to the right)."""
    base = BASE[y]
    d = 0
    if mode == "DHGR":
        for x in range(40):
            d |= (aux[base + x] & 127) << 14 * x | (main[base + x] & 127) << 14 * x + 7
        return d
    for x in range(40):
        b = main[base + x]
        delayed = b >> 7
        at = 14 * x + delayed
        # a byte replaces everything from its first dot on; the last dot of its predecessor
        # stays on screen until then
        d &= (1 << at) - 1
        d |= DOUBLE[b] << at
        if b & 64:
            d |= 1 << at + 14
    return d & (1 << 560) - 1


def colour_row(mode, palette, main, aux, y):
    """The colour of each of the 560 dot positions: the 4-dot window in the phase of the colour
    clock; the two greys of the NTSC palette are the same colour."""
    d = row_dots(mode, main, aux, y)
    out = bytearray(560)
    for i in range(560):
        w = d >> i & 15
        p = i & 3
        c = (w << p | w >> 4 - p) & 15
        if c == 10 and palette == "NTSC":
            c = 5
        out[i] = c
    return bytes(out)


def bound_for(ndiff, slack_ops):
    """Operations within which a still picture must be drawn: every byte may be stored and
    spoiled by a shared store and stored again, in passes cut up by pictures and bank switches."""
    return 2 * ndiff + slack_ops


def scenario(run):
    ch = run.ch
    spec = e2e.spec_common(run)
    fps = ch.pick((30, 10, 60, 5), "fps")
    every = ch.pick((1, 2, 3), "every")
    spec.every_n = every
    size = ch.pick((60, 150, 20), "size")
    kinds = [("greys", 4), ("blocks", 3), ("sparse", 2), ("noise", 2), ("blank", 1)]
    npics = ch.range(1, 4, "npics")
    rng = ch.bulk("pics")
    tpf = 14700. / fps
    hold = [ch.pick((1, 2, 4), "hold") for _ in range(npics - 1)]
    hold = [h * every for h in hold]
    while hold and sum(hold) * tpf > 6000:
        hold = [every] * (len(hold) - 1)
    npics = len(hold) + 1
    still_at = sum(hold)
    m = tc.make_media(run, spec, npics, 1, kinds, size, rng, holes=ch.chance(1, 3, "holes"),
                      nudged=(1, 2))
    palv = {"IIGS": 0, "NTSC": 5}[spec.palette]
    still = m.pictures[(npics, spec.mode, palv)]
    banks = [0] if spec.mode == "HGR" else [0, 1]
    # at most all bytes that any of the pictures changes differ
    ndiff = 0
    for b in banks:
        pics = [np.frombuffer(m.pictures[(i + 1, spec.mode, palv)][b], dtype=np.uint8)
                for i in range(npics)]
        touched = np.zeros(8192, dtype=bool)
        for p in pics:
            touched |= p != 0
        ndiff += int(touched[media_mod.VISIBLE].sum())
    first = max(1, math.ceil(still_at * tpf))
    # a hi-res pass is cut short by each new picture (and a finished one is only repeated with
    # it), a double-hi-res one by each bank switch
    slack = 3000 + int((3 if spec.mode == "HGR" else 1) * every * tpf)
    bound = bound_for(ndiff, slack)
    nsamp = first + bound + 1500
    nfr = int(nsamp / tpf) + 3
    frames = []
    for i, h in enumerate(hold):
        frames += [i + 1] * h
    m.frames = frames + [npics] * (nfr - len(frames))
    m.rate = "%d/1" % fps
    m.samples = np.zeros((1, nsamp), dtype=np.int16)
    data = e2e.encode(run, spec, m, None).stream
    run.digest(data)
    last_bad, worst = check(run, spec, data, still, first, bound)
    run.note(spec.mode, spec.palette, fps, every, m.kinds, "differ", ndiff, "still from", first,
             "drawn after", last_bad - first + 1, "of", bound)
    run.count("still_ops", nsamp - first)
    run.count("ops_to_draw", max(0, last_bad - first + 1))
    run.count("bound_ops", bound)
    run.count("bytes_to_draw", ndiff)
    run.nontrivial = last_bad >= first
    run.sim_ns = int(nsamp * 1e9 / 14700)
    run.state(spec.mode, spec.palette, fps, every, tuple(m.kinds), last_bad)


def check(run, spec, data, still, first, bound):
    """Draws the stream's operations on a screen of our own; op number 1 is the first."""
    ops = Ops("player/iivision.dbg")
    screen = [bytearray(8192), bytearray(8192)]
    target = {y: colour_row(spec.mode, spec.palette, still[0], still[1], y) for y in range(192)}
    bank = 0
    dirty = set()
    bad = None
    t = 0
    last_bad = 0
    deadline = first + bound
    try:
        for pos, op, payload in parse_stream(data, ops):
            if op[0] == "ack":
                bank = payload[0] & 1 if spec.mode == "DHGR" else 0
                continue
            if op[0] != "tick":
                continue
            t += 1
            base = (op[2] - 32) << 8
            s = screen[bank]
            v = payload[0]
            for o in payload[1:]:
                a = base + o
                if s[a] != v:
                    s[a] = v
                    if a in WHERE:
                        dirty.add(WHERE[a])
            if t < first:
                continue
            if bad is None:
                bad = set()
                dirty = set(range(192))
            for y in dirty:
                now = colour_row(spec.mode, spec.palette, screen[0], screen[1], y)
                (bad.discard if now == target[y] else bad.add)(y)
            dirty.clear()
            if bad:
                last_bad = t
                if t > deadline:
                    y = min(bad)
                    now = colour_row(spec.mode, spec.palette, screen[0], screen[1], y)
                    d = [i for i in range(560) if now[i] != target[y][i]]
                    raise Violation(
                        "not-drawn", "%d operations after the picture became still %d rows do not "
                        "show it: row %d has %d wrong dots, the first at %d (colour %d instead of "
                        "%d)" % (t - first, len(bad), y, len(d), d[0], now[d[0]], target[y][d[0]]))
    except ValueError as e:
        raise Violation("malformed", str(e))
    if t < deadline:
        raise Violation("short", "the stream ends after %d of %d operations" % (t, deadline))
    return last_bad, bad
