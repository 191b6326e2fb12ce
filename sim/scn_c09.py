"""C09: stream framing and output size limit."""
import shutil

import numpy as np

from core import Violation
from env import E, Ops, load_transcoder, parse_stream
import transcode as tc

CPU_BUDGET_S = 200


def setup(tier):
    global OPS
    load_transcoder()
    OPS = Ops("player/iivision.dbg")


def spec_common(run, modes=("DHGR", "HGR")):
    ch = run.ch
    spec = tc.Spec()
    spec.mode = ch.pick(modes, "mode")
    spec.palette = ch.pick(("NTSC", "IIGS"), "palette")
    spec.random_seed = ch.draw(1000, "random")
    spec.switch_den = ch.pick((0, 4, 40), "preempt")
    return spec


def check_framing(data, mode, ops_emitted, limit_bytes, total_ops):
    """Clause by clause reference check of one stream."""
    want_hdr = b"\xff" * 6 + bytes([1 if mode == "DHGR" else 0])
    if data[:7] != want_hdr:
        raise Violation("header", "stream starts with %s, not the %s header" % (
            data[:7].hex(), mode))
    if len(data) % 2048:
        raise Violation("padding", "stream length %d is not a multiple of 2048" % len(data))
    aux = False
    ntick = 0
    end_pos = None
    acks = 0
    last = 0
    try:
        for pos, op, payload in parse_stream(data, OPS):
            if op[0] == "header":
                continue
            size = {"tick": 7, "ack": 4, "terminate": 2, "nop": 2}[op[0]]
            if op[0] == "ack":
                acks += 1
                if (pos + 4) % 2048:
                    raise Violation("ack-position",
                                    "acknowledge at byte %d does not end a 2 KB block" % pos)
                if mode == "DHGR":
                    aux = not aux
                want = 0x55 if aux else 0x54
                if payload[0] != want:
                    raise Violation("bank", "acknowledge at byte %d selects $C0%02X, not $C0%02X"
                                    % (pos, payload[0], want))
            else:
                if pos // 2048 != (pos + size - 1) // 2048 or (
                        (pos + size) % 2048 == 0 and op[0] != "terminate"):
                    raise Violation("missing-ack", "%s at byte %d runs over the end of a 2 KB "
                                    "block without an acknowledge" % (op, pos))
            if op[0] == "nop":
                raise Violation("nop", "unexpected no-operation at byte %d" % pos)
            if op[0] == "tick":
                ntick += 1
                last = pos
            if op[0] == "terminate":
                end_pos = pos
                if any(payload):
                    raise Violation("padding", "non-zero bytes after the terminate operation")
                if len(payload) >= 2048:
                    raise Violation("padding", "%d bytes of padding" % len(payload))
    except ValueError as e:
        raise Violation("malformed", str(e))
    if end_pos is None:
        raise Violation("no-terminate", "no terminate operation")
    if limit_bytes:
        if end_pos < limit_bytes:
            if ntick != total_ops:
                raise Violation("limit", "closed at byte %d, before the limit of %d, with %d of "
                                "%d operations" % (end_pos, limit_bytes, ntick, total_ops))
        elif last >= limit_bytes:
            raise Violation("limit", "closed at byte %d although an operation ended at byte %d, at "
                            "or beyond the limit of %d" % (end_pos, last, limit_bytes))
    elif ntick != total_ops:
        raise Violation("dropped", "%d of %d operations are in the stream" % (ntick, total_ops))
    return ntick, acks, end_pos


def scenario(run):
    ch = run.ch
    spec = spec_common(run)
    nsamp = ch.range(0, 2600, "samples")
    if ch.chance(1, 3, "edge"):
        # lengths that put the end of the movie on or next to a block boundary
        nsamp = ch.range(1, 8, "blocks") * 292 - 1 + ch.range(-2, 2, "d")
    rate = ch.pick((30, 10, 100, 3), "fps")
    npics = ch.range(1, 3, "npics")
    rng = ch.bulk("pics")
    nfr = int(nsamp / 14700. * rate) + 2
    if ch.chance(1, 4, "short"):
        nfr = max(1, nfr - ch.range(1, 3, "short_by"))
    m = tc.make_media(run, spec, npics, nfr, [("blank", 2), ("sparse", 3), ("solid", 1), ("noise", 1)],
                      60, rng)
    m.rate = "%d/1" % rate
    m.samples = np.array([[rng.randrange(-20000, 20000) for _ in range(nsamp)]], dtype=np.int16)
    limit = 0
    if ch.chance(1, 2, "limited"):
        limit = ch.weighted([(ch.range(1, 20000, "limit"), 2),
                             (ch.range(1, 8, "lb") * 2048 + ch.range(-9, 9, "ld"), 3)], "lk")
        spec.max_mb = limit / 1048576.
    counted = [0]
    limit_bytes = 1024. * 1024 * spec.max_mb

    def record(mv, op):
        counted[0] += 1
    root = tc.scratch()
    try:
        res = tc.run_transcode(run, spec, m, root, record)
        tc.must_succeed(res)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    # operations the pipeline produced: header not counted; the one at which the limit
    # struck is produced but legitimately not emitted
    produced = counted[0] - 1
    expect_all = expected_ticks(spec, m, nsamp, rate, len(m.frames))
    data = res.stream
    run.digest(data)
    ntick, acks, end = check_framing(data, spec.mode, produced, limit_bytes, expect_all)
    run.note("mode", spec.mode, "samples", nsamp, "frames", nfr, "limit", limit, "bytes",
             len(data), "acks", acks)
    run.count("ops", ntick)
    run.count("blocks", len(data) // 2048)
    run.count("limited" if limit_bytes else "unlimited")
    run.count("hit_limit", 1 if limit_bytes and end >= limit_bytes else 0)
    run.nontrivial = acks > 0
    run.state(spec.mode, end % 2048, len(data) // 2048, bool(limit_bytes))
    run.sim_ns = int(ntick * 73e3)


def expected_ticks(spec, m, nsamp, rate, nframes):
    """Operations a movie must have: one per sample, until a picture is due and none left."""
    # picture k (0-based) is pulled at the first sample t (1-based) with t >= k*tpf
    tpf = float(spec.bitrate) / (float(rate))
    t_end = None
    k = nframes
    # first sample at which frame number k (0-based) is due
    import math
    t = max(1, math.ceil(tpf * k - 1e-9))
    # two pictures can become due at the same sample only if tpf < 1
    if tpf < 1:
        t = None
    if t is not None and t <= nsamp:
        return t - 1
    return nsamp
