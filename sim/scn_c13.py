"""C13: the picture pipeline delivers every picture once, in order, or fails loudly."""
import errno
import shutil

import numpy as np

import env
import media as media_mod
import transcode as tc
from core import Violation
from env import E, load_transcoder
from kernel import StepBudget

LOOKAHEAD = 32          # generous: "a bounded number are buffered ahead"


def setup(tier):
    load_transcoder()


def make(run, spec, nframes, npics):
    """Picture k of the movie is recognisable by its bytes (picture ids repeat)."""
    m = media_mod.Media()
    palv = {"IIGS": 0, "NTSC": 5}[spec.palette]
    top = 128 if spec.mode == "DHGR" else 256
    r = np.random.RandomState(run.ch.draw(1 << 20, "pictures:bulk"))
    for i in range(npics):
        main = np.zeros(8192, dtype=np.uint8)
        aux = np.zeros(8192, dtype=np.uint8)
        for a in (main, aux):
            a[r.choice(media_mod.VISIBLE, 40)] = r.randint(1, top, 40)
            a[media_mod.VISIBLE[0]] = i % top
            a[media_mod.VISIBLE[1]] = i // top
        m.pictures[(i + 1, spec.mode, palv)] = (main.tobytes(), aux.tobytes())
    order = list(range(npics))
    m.frames = [1 + order[k % npics] for k in range(nframes)]
    m.expect = [m.pictures[(pid, spec.mode, palv)] for pid in m.frames]
    return m


def fault(run, m, nframes):
    """Breaks the decoder or the converter at one picture.  Returns (picture index, what)."""
    ch = run.ch
    at = ch.draw(nframes, "fail-at")
    kind = ch.pick(("decoder", "missing", "fail", "crash", "noaux", "short", "disk", "decoder-end"),
                   "fault")
    run.count("fault:" + kind)
    if kind == "decoder":
        m.frame_fail_at = at
    elif kind == "decoder-end":
        m.frame_fail_at = at = nframes
    elif kind == "disk":
        return at, kind
    else:
        m.tool[at] = kind
    return at, kind


def disk_plan(ch, at, k0):
    """Disk errors while picture `at` is converted."""
    eno = ch.pick((errno.ENOSPC, errno.EIO, errno.EDQUOT), "errno")
    which = ch.pick(("write", "open-w", "close-w", "spawn"), "op")
    seen = [0]

    def plan(op, name, i, size):
        if name.startswith("%08d" % at) and op == which or \
                op == which == "spawn" and k0.tool_calls == at:
            seen[0] += 1
            return ("err", eno)
        return None
    plan.seen = seen
    return plan


def scenario(run):
    ch = run.ch
    spec = tc.Spec()
    spec.mode = ch.pick(("DHGR", "HGR"), "mode")
    spec.palette = ch.pick(("NTSC", "IIGS"), "palette")
    spec.switch_den = ch.pick((5, 2, 20, 0), "preempt")
    spec.demote = ch.chance(1, 2, "demote")
    nframes = ch.weighted([(3, 2), (25, 3), (60, 2), (1, 1), (0, 1)], "frames")
    if nframes:
        nframes += ch.draw(12, "frames2")
    m = make(run, spec, nframes, max(1, min(nframes, ch.pick((70, 3), "npics"))))
    failing = nframes and ch.chance(1, 2, "failing")
    at = kind = plan = None
    if failing:
        at, kind = fault(run, m, nframes)
        if kind == "disk":
            plan = disk_plan(ch, at, m)
        # identical pictures are converted once per frame number, so `at` counts conversions too
    # how the encoder and the decoders are paced
    slow_c = ch.pick((0, 4, 30), "slow-consumer")
    slow_p = ch.pick((0, 4, 30), "slow-producer")
    pauses = ch.pick(((.001, .5, 30.), (.5, 300., 7200.), (5., 10., 60.)), "pauses")
    stop_after = ch.weighted([(None, 3), (nframes // 2, 1)], "stop")
    if stop_after is not None and failing and stop_after >= at:
        stop_after = None
    slow_last = nframes - 1 if ch.chance(1, 2, "slow-last") else None
    k = []
    m.on_frame = lambda i: k[0].sleep(ch.pick(pauses, "decode-s")) \
        if slow_p and (i == slow_last or ch.chance(1, slow_p, "slow-frame")) else None
    got = []
    lead = [0]
    m.samples = np.zeros((1, 1), dtype=np.int16)

    def ops(mv):
        yield E.opcodes.Header(mode=mv.video_mode)
        it = mv.frame_grabber.frames()
        for main, aux in it:
            got.append((main, aux))
            lead[0] = max(lead[0], m.frames_read - len(got))
            k[0].point("consume")
            if slow_c and ch.chance(1, slow_c, "slow-encoder"):
                k[0].sleep(ch.pick(pauses, "encode-s"))
            lead[0] = max(lead[0], m.frames_read - len(got))
            if len(got) == stop_after:
                break

    lines = spec.switch_den and ch.chance(1, 3, "lines")

    def before(kern, s):
        k.append(kern)
        kern.clock_jumps(60 * 10 ** 9)
        if lines:
            kern.trace_lines(env.REPO + "/transcoder")
            run.count("line_level_runs")
    root = tc.scratch()
    try:
        res = tc.run_transcode(run, spec, m, root, plan=plan, before=before, ops=ops)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    what = "%d %s pictures, %s" % (nframes, spec.mode, "picture %d: %s" % (at, kind) if failing
                                  else "no failure")
    fired = failing and (kind != "disk" or plan.seen[0] > 0)
    if kind == "noaux" and spec.mode == "HGR":
        fired = False        # nothing to leave out
    run.note(what, "delivered", len(got), "switches", len(res.kernel.sched_log), "exc",
             type(res.exc).__name__, "lead", lead[0])
    run.digest(repr(res.kernel.sched_log))
    run.count("pictures", len(got))
    run.count("thread_slices", len(res.kernel.sched_log))
    run.sim_ns = res.kernel.now
    run.nontrivial = len(res.kernel.sched_log) > 2
    run.state(tuple(res.kernel.sched_log[:400]))
    if res.deadlock:
        raise Violation("hang", "%s: after %d pictures the transcode never ends: %s" % (
            what, len(got), res.deadlock))
    if isinstance(res.exc, StepBudget):
        raise Violation("hang", "%s: endless loop after %d pictures" % (what, len(got)))
    for i, (main, aux) in enumerate(got):
        if i >= nframes:
            raise Violation("extra", "%s: %d pictures delivered" % (what, len(got)))
        wm, wa = m.expect[i]
        for bank, g, w in (("main", main, wm), ("auxiliary", aux, wa)):
            if bank == "auxiliary" and spec.mode == "HGR":
                continue
            g = np.asarray(g.page_offset, dtype=np.uint8).reshape(-1)[media_mod.VISIBLE]
            w = np.frombuffer(w, dtype=np.uint8)[media_mod.VISIBLE]
            if not np.array_equal(g, w):
                raise Violation("wrong-picture", "%s: delivery %d is not picture %d (%s bank, %d "
                                "bytes differ)" % (what, i, i, bank, int((g != w).sum())))
    if lead[0] > LOOKAHEAD:
        raise Violation("look-ahead", "%s: the decoder runs %d pictures ahead of the encoder" % (
            what, lead[0]))
    if fired:
        if stop_after is not None:
            return
        if res.exc is None:
            raise Violation("silent", "%s: the transcode ends without an error after %d pictures" % (
                what, len(got)))
        if len(got) != at:
            raise Violation("lost-before-failure", "%s: only %d pictures were delivered before the "
                            "error" % (what, len(got)))
    else:
        tc.must_succeed(res, what)
        want = nframes if stop_after is None else min(nframes, max(stop_after, 0))
        if stop_after == 0:
            want = nframes
        if len(got) != want:
            raise Violation("truncated", "%s: %d of %d pictures were delivered" % (
                what, len(got), want))
