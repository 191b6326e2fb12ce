"""C11: the encoder's incremental picture model never drifts from the screen it models."""
import numpy as np

import e2e
import media as media_mod
from core import Violation
from env import E, load_transcoder

HOLES = np.zeros((32, 256), dtype=bool)
HOLES.reshape(-1)[media_mod.HOLE_MASK] = True
# a column does not continue its neighbour where a screen row begins or ends
FIRST = [0, 20, 40, 60, 64, 84, 104, 124]
LAST = [c - 1 for c in FIRST[1:]] + [127]
VIS = [(int(a) // 256, int(a) % 256) for a in media_mod.VISIBLE]


def setup(tier):
    load_transcoder()


def pack(mode, main, aux):
    """Our own packing of screen bytes into columns of two bytes per bank (documented in
    screen.py: 3 bits of the column to the left, the column, 3 bits of the column to the right)."""
    m = main.astype(np.uint64)
    z = np.zeros((32, 1), dtype=np.uint64)
    if mode == "HGR":
        e, o = m[:, 0::2], m[:, 1::2]
        body = e * 8 + (o // 128) * 2 ** 11 + (o % 128) * 2 ** 12
        head = (o // 32) % 8              # bits 5, 6 and the palette bit
        foot = (e // 128) * 2 ** 19 + (e % 4) * 2 ** 20
    else:
        x = aux.astype(np.uint64) % 128
        m = m % 128
        body = x[:, 0::2] * 2 ** 3 + m[:, 0::2] * 2 ** 10 + x[:, 1::2] * 2 ** 17 + \
            m[:, 1::2] * 2 ** 24
        head = m[:, 1::2] // 16
        foot = x[:, 0::2] % 8 * 2 ** 31
    head = np.concatenate([z, head[:, :-1]], axis=1)
    foot = np.concatenate([foot[:, 1:], z], axis=1)
    head[:, FIRST] = 0
    foot[:, LAST] = 0
    return (body + head + foot).astype(np.uint64)


def scratch_bitmap(mode, palette, main, aux):
    mm = lambda a: E.screen.MemoryMap(screen_page=1, page_offset=a.copy())
    if mode == "HGR":
        return E.screen.HGRBitmap(palette=palette, main_memory=mm(main))
    return E.screen.DHGRBitmap(palette=palette, main_memory=mm(main), aux_memory=mm(aux))


def compare(mode, bm, main, aux, what):
    want = pack(mode, main, aux)
    got = np.asarray(bm.packed)
    if got.shape != want.shape or not np.array_equal(got, want):
        p, c = [int(x[0]) for x in np.nonzero(got != want)]
        raise Violation("drift", "%s: the pixel model of column %d of page %d is %s, the screen "
                        "bytes give %s" % (what, c, p, bin(int(got[p, c])), bin(int(want[p, c]))))


def encoder_history(run):
    ch = run.ch
    spec = e2e.spec_common(run)
    spec, m = e2e.movie(run, spec, size=ch.pick((60, 200, 500), "size"),
                        pics=[("sparse", 3), ("blocks", 3), ("greys", 2), ("noise", 2), ("blank", 1)],
                        holes=ch.chance(1, 2, "holes"), npics=ch.range(2, 6, "npics"))
    spec.every_n = ch.pick((1, 2), "every")
    n = [0]
    step = ch.pick((1, 3), "step")

    def hook(mv, op):
        n[0] += 1
        if n[0] % step and n[0] > 50:
            return
        v = mv.video
        main = v.memory_map.page_offset
        aux = v.aux_memory_map.page_offset if spec.mode == "DHGR" else None
        what = "after operation %d of the encoder" % (n[0] - 1)
        for name, a in (("main", main), ("auxiliary", aux)):
            if a is not None and a[HOLES].any():
                p, o = [int(x[0]) for x in np.nonzero(HOLES & (a != 0))]
                raise Violation("hole-store", "%s the %s screen model holds $%02X in the unused "
                                "byte $%02X%02X" % (what, name, int(a[p, o]), p + 32, o))
        offs = getattr(op, "offsets", None)
        compare(spec.mode, v.pixelmap, main, aux, what)
        if n[0] % 97 == 0:
            sb = scratch_bitmap(spec.mode, v.pixelmap.palette, main,
                                aux if aux is not None else main)
            if not np.array_equal(sb.packed, v.pixelmap.packed):
                raise Violation("drift", "%s the pixel model differs from one built from the "
                                "screen bytes" % what)
    data = e2e.encode(run, spec, m, hook).stream
    run.digest(data)
    check_no_hole_ops(data)
    run.count("encoder_ops", n[0])
    run.nontrivial = n[0] > 200
    run.note("encode", spec.mode, spec.palette, n[0])
    run.state("encode", spec.mode, spec.palette, tuple(m.kinds), n[0])


def check_no_hole_ops(data):
    from env import Ops, parse_stream
    ops = Ops("player/iivision.dbg")
    try:
        for pos, op, payload in parse_stream(data, ops):
            if op[0] == "tick":
                for o in payload[1:]:
                    if HOLES[op[2] - 32, o]:
                        raise Violation("hole-store", "the operation at byte %d stores into the "
                                        "unused display byte $%02X%02X" % (pos, op[2], o))
    except ValueError as e:
        raise Violation("malformed", str(e))


def direct_history(run):
    """Stores applied straight to the model, in clusters so that neighbours interact."""
    ch = run.ch
    mode = ch.pick(("DHGR", "HGR"), "mode")
    pal = E.palette.Palette[ch.pick(("NTSC", "IIGS"), "palette")]
    rng = ch.bulk("stores")
    top = 128 if mode == "DHGR" else 256
    main = np.zeros((32, 256), dtype=np.uint8)
    aux = np.zeros((32, 256), dtype=np.uint8)
    start = ch.pick(("blank", "noise"), "start")
    if start == "noise":
        r = np.random.RandomState(rng.randrange(1 << 30))
        main[~HOLES] = r.randint(0, top, size=int((~HOLES).sum()))
        aux[~HOLES] = r.randint(0, top, size=int((~HOLES).sum()))
    bm = scratch_bitmap(mode, pal, main, aux)
    compare(mode, bm, main, aux, "a new %s model" % mode)
    n = ch.pick((300, 1500, 4000), "n")
    pages = [rng.randrange(32) for _ in range(ch.pick((1, 3, 32), "pages"))]
    cluster = ch.pick((4, 16, 256), "cluster")
    base = rng.randrange(256)
    last = []
    for i in range(n):
        if rng.random() < .02:
            base = rng.choice((0, 112, 124, 128, 236, 240, 244, 252, rng.randrange(256)))
        p = rng.choice(pages)
        o = (base + rng.randrange(cluster)) & 255
        if HOLES[p, o]:
            continue
        is_aux = mode == "DHGR" and rng.random() < .5
        v = rng.choice((0, top - 1, rng.randrange(top), rng.randrange(top), 1 << rng.randrange(7)))
        bm.apply(p, o, is_aux, np.uint8(v))
        (aux if is_aux else main)[p, o] = v
        last.append((p, o, is_aux, v))
        what = "after %d direct stores (the last: page %d offset %d %s value $%02X)" % (
            len(last), p, o, "aux" if is_aux else "main", v)
        compare_page(mode, bm, main, aux, p, what)
        if i % 200 == 0 or i == n - 1:
            compare(mode, bm, main, aux, what)
            mm, am = bm.main_memory.page_offset, aux
            if mode == "DHGR":
                am = bm.aux_memory.page_offset
            if not np.array_equal(mm, main) or not np.array_equal(am, aux):
                raise Violation("memory", "%s: the screen model does not hold the stored bytes" % what)
    run.digest(repr(last[-20:]))
    run.count("direct_stores", len(last))
    run.nontrivial = len(last) > 100
    run.note("direct", mode, pal.name, len(last))
    run.state("direct", mode, pal.name, start, n, len(pages), cluster)


def compare_page(mode, bm, main, aux, p, what):
    m = [int(x) for x in main[p]]
    x = [int(x) & 127 for x in aux[p]]
    row = bm.packed[p].tolist()
    for c in range(128):
        if mode == "HGR":
            e, o = m[2 * c], m[2 * c + 1]
            w = e << 3 | (o >> 7) << 11 | (o & 127) << 12
            if c not in FIRST:
                w |= m[2 * c - 1] >> 5
            if c not in LAST:
                f = m[2 * c + 2]
                w |= (f >> 7) << 19 | (f & 3) << 20
        else:
            w = x[2 * c] << 3 | (m[2 * c] & 127) << 10 | x[2 * c + 1] << 17 | \
                (m[2 * c + 1] & 127) << 24
            if c not in FIRST:
                w |= (m[2 * c - 1] & 127) >> 4
            if c not in LAST:
                w |= (x[2 * c + 2] & 7) << 31
        if w != int(row[c]):
            raise Violation("drift", "%s: the pixel model of column %d of page %d is %s, the "
                            "screen bytes give %s" % (what, c, p, bin(int(row[c])), bin(w)))


def scenario(run):
    if run.ch.chance(1, 2, "direct"):
        direct_history(run)
    else:
        encoder_history(run)
