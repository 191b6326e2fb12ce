"""C16: the output file is a complete stream or the run fails visibly."""
import errno
import math
import shutil

import e2e
import media as media_mod
import transcode as tc
from core import Violation
from env import E, Ops, load_transcoder
from kernel import StepBudget
from scn_c09 import check_framing
import scn_c09

NOT_OUTPUT = (".BIN", ".AUX", ".bmp", ".BMP")


def setup(tier):
    global OPS, ADDR
    load_transcoder()
    OPS = scn_c09.OPS = Ops("player/iivision.dbg")
    ADDR = {op: a for a, op in OPS.by_addr.items()}


def reference(mode, ticks, limit):
    """The stream for a list of drawing operations, from the format's description alone."""
    out = bytearray(b"\xff" * 6 + bytes([1 if mode == "DHGR" else 0]))
    bank = 0
    first = True
    for t, page, content, offs in ticks:
        if limit and len(out) >= limit:
            break
        a = ADDR[("tick", t, page)]
        out += bytes([a >> 8, a & 255, content]) + bytes(offs)
        if len(out) % 2048 >= 2044:
            if mode == "DHGR":
                bank ^= 1
            a = ADDR[("ack",)]
            out += bytes([a >> 8, a & 255, 0x54 + bank, 0xff])
            assert len(out) % 2048 == 0
    a = ADDR[("terminate",)]
    out += bytes([a >> 8, a & 255])
    out += bytes(-len(out) % 2048 or 2048)
    return bytes(out)


def same(got, want):
    """Equal, up to the dummy byte of acknowledges; the position of the first difference."""
    n = min(len(got), len(want))
    if got[:n] != want[:n]:
        for i in range(n):
            if got[i] != want[i] and not (i % 2048 == 2047 and i + 1 < len(want)):
                return i
    return None if len(got) == len(want) else n


def output_fault(ch, run, nbytes):
    """A plan for the calls that touch the output file."""
    kind = ch.pick(("err", "full", "short", "shorts", "close"), "fault")
    last = nbytes // 8192 + 3
    at = last if kind == "close" else ch.draw(last + 1, "at")
    e = ch.pick((errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG, errno.EACCES), "errno")
    part = ch.pick((0, 1, 2000, 8000), "partial")
    seen = [0]
    state = {"hard": False}

    def plan(op, name, i, size):
        if op not in ("open-w", "write", "close-w", "fsync", "rename", "replace") or \
                name.upper().endswith(NOT_OUTPUT):
            return None
        j = seen[0]
        seen[0] += 1
        if kind == "close":
            if op != "close-w":
                return None
        elif kind == "shorts":
            if op == "write" and size and size > 1:
                return ("short", 1 + (j * 997) % size)
            return None
        elif j < at:
            return None
        if kind == "short":
            return ("short", max(1, part)) if op == "write" and j == at else None
        if kind == "full":
            if op not in ("write", "fsync"):
                return None
            if j == at and part and op == "write" and size and size > part:
                return ("short", part)
            state["hard"] = True
            return ("err", errno.ENOSPC)
        if kind == "err" and j > at:
            return None
        state["hard"] = True
        return ("err", e)
    plan.state = state
    return kind, plan


def decoder_fault(ch, run, spec, m, nsamp, fps):
    """Break an input while it is still needed.  Returns what broke."""
    tpf = spec.bitrate / float(fps)
    needed = min(len(m.frames), int(math.floor((nsamp - 1) / tpf)) + 1)
    kind = ch.pick(("frames", "audio", "converter"), "input")
    if kind == "audio":
        total = m.samples.size * 2
        m.audio_fail_at = ch.draw(total, "fail-at")
    elif kind == "frames":
        m.frame_fail_at = ch.draw(needed, "fail-at")
    else:
        m.tool[ch.draw(needed, "fail-at")] = ch.pick(("missing", "fail", "crash", "short"), "tool")
    run.count("fault:input-" + kind)
    return kind


def scenario(run):
    ch = run.ch
    spec = e2e.spec_common(run)
    limit = 0
    if ch.chance(1, 4, "limited"):
        limit = ch.range(1, 16000, "limit")
        spec.max_mb = limit / 1048576.
    prior = ch.pick((None, "longer", "shorter", "partial"), "prior")
    spec.output = ch.pick(("out.a2m", None), "output")
    spec.name = ch.pick(("clip.mp4", "my.clip.v2.mp4", "sub.d/clip.x.mp4", "clip 1.MP4", "clip", "sub.d/clip"),
                        "name")
    spec.relative = ch.pick((None, "", "./"), "relative")
    what = ch.weighted([("none", 1), ("output", 5), ("input", 2)], "faulty")
    if what == "input":
        limit = spec.max_mb = 0
    rng = ch.bulk("content")
    log = []
    ops = None
    if what == "input" or ch.chance(1, 6, "real-encode"):
        fps = ch.pick((30, 60, 15), "fps")
        nsamp = ch.range(600, 2400, "samples")
        spec, m = e2e.movie(run, spec, nsamp=nsamp, pics=[("sparse", 2), ("blank", 1)], size=20,
                            fps=fps, npics=2)
        m.blocks = [ch.pick((4096, 512, 100), "block")]
        root = tc.scratch()
        try:
            ref = tc.run_transcode(run, spec, m, root)
            tc.must_succeed(ref)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        want = ref.stream
        check_framing(want, spec.mode, 0, 1024. * 1024 * spec.max_mb,
                      scn_c09.expected_ticks(spec, m, nsamp, fps, len(m.frames)))
        m.frames_read = m.tool_calls = m.audio_opens = 0
    else:
        n = ch.weighted([(300, 3), (2000, 3), (6000, 1), (0, 1)], "n")
        n += ch.draw(300, "n2") if n else 0
        m = tc.make_media(run, spec, 1, 1, [("blank", 1)], 1, rng)
        import numpy as np
        m.samples = np.zeros((1, 1), dtype=np.int16)
        top = 128 if spec.mode == "DHGR" else 256
        log = [(4 + 2 * rng.randrange(32), 32 + rng.randrange(32), rng.randrange(top),
                [e2e.visible_offset(rng) for _ in range(4)]) for _ in range(n)]

        def ops(mv):
            yield E.opcodes.Header(mode=mv.video_mode)
            for t, page, c, offs in log:
                yield E.opcodes.TICK_OPCODES[(t, page)](c, offs)
        want = reference(spec.mode, log, 1024. * 1024 * spec.max_mb)
    if prior == "longer":
        spec.prior_output = bytes(rng.getrandbits(8) for _ in range(len(want) + 5000))
    elif prior == "shorter":
        spec.prior_output = bytes(rng.getrandbits(8) for _ in range(777))
    elif prior == "partial":
        spec.prior_output = want[:len(want) * 2 // 3]
    kind, plan = "none", None
    if what == "output":
        kind, plan = output_fault(ch, run, len(want))
    elif what == "input":
        kind = decoder_fault(ch, run, spec, m, nsamp, fps)
    root = tc.scratch()
    try:
        res = tc.run_transcode(run, spec, m, root, plan=plan, ops=ops)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    desc = "%d bytes of %s, %s fault %s, earlier output %s" % (len(want), spec.mode, what, kind, prior)
    run.note(desc, type(res.exc).__name__, len(res.stream or b""), res.os.fired[:4])
    run.digest(res.stream or b"")
    run.sim_ns = res.kernel.now
    run.count("prior:%s" % prior)
    run.nontrivial = kind != "none" or prior is not None
    run.state(spec.mode, what, kind, prior, spec.output, type(res.exc).__name__, len(want) // 2048,
              tuple(f[1:3] for f in res.os.fired[:3]), bool(limit))
    if res.deadlock or isinstance(res.exc, StepBudget):
        raise Violation("hang", "%s: the run never ends: %s" % (desc, res.deadlock))
    hard = (plan is not None and plan.state["hard"]) or what == "input"
    if res.exc is not None:
        if not hard:
            raise Violation("needless-failure", "%s: %s: %s" % (desc, type(res.exc).__name__, res.exc))
        run.count("failed_visibly")
        return
    if hard:
        raise Violation("silent", "%s: the run reports success (%d bytes written); injected: %s" % (
            desc, len(res.stream or b""), res.os.fired[:3] or kind))
    if res.stream is None:
        raise Violation("no-file", "%s: success without an output file" % desc)
    d = same(res.stream, want)
    if d is not None:
        raise Violation("wrong-file", "%s: the file has %d bytes and differs from the stream at byte "
                        "%d" % (desc, len(res.stream), d))
    run.count("bytes_compared", len(want))
