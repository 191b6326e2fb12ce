"""C14: an interrupted transcode never poisons the picture cache."""
import errno
import hashlib
import os
import shutil

import numpy as np

import media as media_mod
import proc
import transcode as tc
from core import Choices, Run, Violation
from env import E, load_transcoder
from kernel import StepBudget

COMBOS = [(m, p) for m in ("DHGR", "HGR") for p in ("NTSC", "IIGS")]
PALV = {"IIGS": 0, "NTSC": 5}


def setup(tier):
    load_transcoder()


def digest(main, aux, mode):
    h = hashlib.sha1()
    for b in (main, aux)[:2 if mode == "DHGR" else 1]:
        a = np.frombuffer(bytes(b), dtype=np.uint8)[media_mod.VISIBLE]
        h.update(a.tobytes())
    return h.hexdigest()[:16]


def make_movie(rng, base, nframes):
    """Pictures are different for every picture id, mode and palette."""
    m = media_mod.Media()
    m.frames = [base + k for k in range(nframes)]
    m.want = {}
    for mode, pal in COMBOS:
        top = 128 if mode == "DHGR" else 256
        for pid in m.frames:
            r = np.random.RandomState(rng.randrange(1 << 30))
            main = np.zeros(8192, dtype=np.uint8)
            aux = np.zeros(8192, dtype=np.uint8)
            for a in (main, aux):
                # content in every part of the file, so that a cut-off one is a different picture
                a[r.choice(media_mod.VISIBLE, 300)] = r.randint(1, top, 300)
                a[media_mod.VISIBLE[-8:]] = r.randint(1, top, 8)
            m.pictures[(pid, mode, PALV[pal])] = (main.tobytes(), aux.tobytes())
        m.want[(mode, pal)] = [digest(*m.pictures[(pid, mode, PALV[pal])], mode)
                               for pid in m.frames]
    m.samples = np.zeros((1, 1), dtype=np.int16)
    return m


def fault_plan(ch, run, nframes, m):
    """(kind, plan): what happens to this incarnation."""
    kind = ch.weighted([("kill", 5), ("full", 3), ("err", 2), ("tool", 3), ("orphan", 2), ("short", 1)],
                       "fault")
    i0 = ch.draw(16 * nframes + 6, "at")
    m.tool = {}
    if kind == "kill":
        return kind, lambda op, name, i, size: ("kill",) if i == i0 else None
    if kind == "orphan":
        # the transcoder dies, its converter lives on
        m.tool = {"die-after": min(i0 // 16, nframes - 1)}
        return kind, None
    if kind == "tool":
        f = ch.pick(("fail", "crash", "short", "noaux", "missing"), "tool-fault")
        m.tool = {min(i0 // 16, nframes - 1): f}
        return "tool-" + f, None
    m.tool = {"ignores_errors": ch.chance(1, 2, "tool-ignores-errors")}
    if kind == "full":
        ops = ch.pick((("write",), ("write", "open-w", "mkdir"), ("write", "open-w", "close-w")),
                      "full-ops")
        first = ch.pick((None, 100, 4000), "partial")

        def plan(op, name, i, size):
            if i < i0 or op not in ops:
                return None
            if i == i0 and first and op == "write" and size and size > first:
                return ("short", first)
            return ("err", errno.ENOSPC)
        return kind, plan
    if kind == "short":
        n = ch.pick((1, 500, 4000), "short-n")
        return kind, lambda op, name, i, size: ("short", n) if op == "write" and i == i0 else None
    e = ch.pick((errno.EIO, errno.EACCES, errno.EMFILE, errno.EINTR), "errno")
    return kind, lambda op, name, i, size: ("err", e) if i == i0 else None


def incarnation(run, spec, m, root, plan, seed, nframes, tier):
    """One transcode of movie m in its own process."""
    def child():
        r2 = Run(Choices(seed=seed), tier)
        got = []
        tool = m.bmp2dhr

        def bmp2dhr(s, args, kw):
            last = m.tool.get("die-after") == m.tool_calls
            if last:
                s.enabled = False
            rc = tool(s, args, kw)
            if last:
                os._exit(proc.KILLED)
            return rc
        m.bmp2dhr = bmp2dhr

        def ops(mv):
            yield E.opcodes.Header(mode=mv.video_mode)
            for main, aux in mv.frame_grabber.frames():
                a = np.asarray(main.page_offset, dtype=np.uint8).tobytes()
                b = np.asarray(aux.page_offset, dtype=np.uint8).tobytes() \
                    if spec.mode == "DHGR" else b""
                got.append(digest(a, b, spec.mode))
        res = tc.run_transcode(r2, spec, m, root, plan=plan, ops=ops)
        return {"got": got, "exc": repr(res.exc) if res.exc is not None else None,
                "budget": isinstance(res.exc, StepBudget), "deadlock": res.deadlock,
                "ops": res.os.oplog[:400], "fired": res.os.fired, "stats": r2.stats}
    return proc.run_child(child, what="a transcode")


def scenario(run):
    ch = run.ch
    rng = ch.bulk("pictures")
    nframes = ch.pick((1, 2, 4), "frames")
    movies = [("clip.mp4", make_movie(rng, 1, nframes))]
    other = ch.pick((None, "none", "clip2.mp4", "sub/clip.mp4", "clip.b.mp4", "clip.avi", "replaced",
                     "no-suffix"), "other-movie")
    if other == "no-suffix":        # and names with dots elsewhere
        movies = [("take.1/first", movies[0][1])]
        other = "take.2/second"
    if other not in (None, "none"):
        movies.append((other, make_movie(rng, 100, nframes)))
    chunk = ch.pick((4096, 1024, 8192), "chunk")
    main_combo = ch.pick(COMBOS, "combo")
    n = ch.range(1, 4, "incarnations")
    done = []            # (movie, combo) that ran before
    root = tc.scratch()
    killed = 0
    try:
        for j in range(n + 1):
            final = j == n
            spec = tc.Spec()
            mi = 0 if final or len(movies) == 1 else ch.draw(2, "movie")
            name, m = movies[mi]
            combo = main_combo if final or ch.chance(2, 3, "same") else ch.pick(COMBOS, "combo")
            spec.mode, spec.palette = combo
            spec.pid = 4000 + j
            spec.relative = ch.pick((None, "", "./"), "relative")
            spec.name = "clip.mp4" if name == "replaced" else name
            spec.switch_den = ch.pick((0, 10, 3), "preempt")
            m.chunk = chunk
            m.tool_calls = m.frames_read = 0
            m.tool = {}
            kind, plan = "none", None
            if not final and ch.chance(3, 4, "faulty"):
                kind, plan = fault_plan(ch, run, nframes, m)
            seed = ch.draw(1 << 20, "schedule")
            code, res = incarnation(run, spec, m, root, plan, seed, nframes, run.tier)
            run.count("incarnations")
            what = "run %d (%s %s %s%s)" % (j + 1, spec.name, spec.mode, spec.palette,
                                           ", " + kind if kind != "none" else "")
            if code == proc.KILLED:
                run.note(what, "killed")
                run.count("fault:" + kind)
                killed += 1
                done.append((name, combo))
                continue
            for k, v in res["stats"].items():
                run.count(k, v)
            run.note(what, "delivered", len(res["got"]), res["exc"], res["fired"][:3])
            run.digest(repr(res["ops"]))
            if res["deadlock"] or res["budget"]:
                raise Violation("hang", "%s never ends: %s" % (what, res["deadlock"]))
            want = m.want[combo]
            fired = bool(res["fired"]) or kind.startswith("tool-")
            for i, g in enumerate(res["got"]):
                if i < len(want) and g == want[i]:
                    continue
                key = "wrong-picture"
                for name2, m2 in movies:
                    if (name2 in ("clip.avi", "replaced") or name in ("clip.avi", "replaced")) \
                            and (name2, combo) in done and i < nframes and m2 is not m \
                            and {name, name2} <= {"clip.mp4", "clip.avi", "replaced"} \
                            and g == m2.want[combo][i]:
                        key = "shared-stem"
                raise Violation("wrong-picture", "%s delivers a wrong picture %d; earlier runs: %s" % (
                    what, i, done), key=key)
            if not fired:
                if res["exc"]:
                    raise Violation("poisoned", "%s fails although nothing is wrong any more: %s; "
                                    "earlier runs: %s" % (what, res["exc"], done))
                if len(res["got"]) != len(want):
                    raise Violation("truncated", "%s delivers %d of %d pictures; earlier runs: %s" % (
                        what, len(res["got"]), len(want), done))
            elif not res["exc"] and len(res["got"]) != len(want):
                raise Violation("silent", "%s delivers %d of %d pictures without an error" % (
                    what, len(res["got"]), len(want)))
            if fired and kind.startswith("tool-"):
                run.count("fault:" + kind)
            done.append((name, combo))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    run.nontrivial = n > 0 and (killed > 0 or any(k.startswith("fault:") for k in run.stats))
    run.count("kills", killed)
    run.state(tuple(run.trace[:6]))
