"""C22: transcodes of the same movie running at once do not spoil each other's pictures.

Every transcode is a process of its own (forked); a system call of one is one step, and the
scheduler here decides whose step comes next, so that the interleaving of the processes over
the shared picture cache is chosen by the run's seed.
"""
import json
import os
import select
import shutil
import signal

import numpy as np

import proc
import transcode as tc
from core import Choices, Run, Violation
from env import E, load_transcoder
from kernel import StepBudget
from scn_c14 import COMBOS, digest, make_movie

_read, _write, _close, _exit, _kill = os.read, os.write, os.close, os._exit, os.kill


def setup(tier):
    load_transcoder()


class Process:
    """One transcode, advanced one system call at a time."""

    def __init__(self, run, spec, m, root, seed, tier):
        self.spec, self.m = spec, m
        self.steps = 0
        self.state = "waiting"       # waiting for a grant, "done", "killed"
        self.orphan = False
        self.result = None
        self.ops = []
        c_r, self.w = os.pipe()
        self.r, c_w = os.pipe()
        self.buf = b""
        self.pid = os.fork()
        if self.pid == 0:
            code = 3
            try:
                _close(self.w)
                _close(self.r)
                out = transcode(spec, m, root, seed, tier, c_r, c_w)
                data = b"R" + json.dumps(out).encode() + b"\n"
                while data:
                    data = data[_write(c_w, data):]
                code = 0
            except BaseException:
                import traceback
                _write(c_w, b"R" + json.dumps(
                    {"harness": traceback.format_exc()[-3000:]}).encode() + b"\n")
            finally:
                _exit(code)
        _close(c_r)
        _close(c_w)
        self.receive()

    def receive(self):
        """Until the process stands before its next call, or has ended."""
        end = proc._clock() + 120
        while b"\n" not in self.buf:
            left = end - proc._clock()
            if left <= 0 or not select.select([self.r], [], [], left)[0]:
                self.close()
                raise Violation("hang", "a transcode makes no system call for 120 s")
            b = _read(self.r, 65536)
            if not b:
                self.state = "killed"
                self.reap()
                return
            self.buf += b
        line, self.buf = self.buf.split(b"\n", 1)
        if line[:1] == b"R":
            self.result = json.loads(line[1:])
            self.state = "done"
            self.reap()
            if "harness" in self.result:
                raise RuntimeError("in the child: " + self.result["harness"])
        else:
            self.ops.append(line.decode())

    def grant(self, what=b"g"):
        self.steps += 1
        if what == b"o":
            self.orphan = True
        _write(self.w, what)
        self.receive()

    def reap(self):
        if self.pid:
            os.waitpid(self.pid, 0)
            _close(self.w)
            _close(self.r)
            self.pid = None

    def close(self):
        if self.pid:
            _kill(self.pid, signal.SIGKILL)
            self.reap()


def transcode(spec, m, root, seed, tier, c_r, c_w):
    """In the child."""
    r2 = Run(Choices(seed=seed), tier)
    got = []
    me = {"tool": None, "orphan": False, "k": None}

    def gate(op):
        k = me["k"]
        if me["orphan"] and k.current is not me["tool"]:
            k.block("killed")
        _write(c_w, op.encode() + b"\n")
        g = _read(c_r, 1)
        if g == b"k" or not g or g == b"o" and me["tool"] is None:
            _exit(proc.KILLED)
        if g == b"o":
            me["orphan"] = True
            if k.current is not me["tool"]:
                k.block("killed")
    real_tool = m.bmp2dhr

    def bmp2dhr(s, args, kw):
        me["tool"] = me["k"].current
        try:
            gate("tool")
            return real_tool(s, args, kw)
        finally:
            if me["orphan"]:
                _exit(proc.KILLED)
            me["tool"] = None
    m.bmp2dhr = bmp2dhr

    def ops(mv):
        yield E.opcodes.Header(mode=mv.video_mode)
        for main, aux in mv.frame_grabber.frames():
            a = np.asarray(main.page_offset, dtype=np.uint8).tobytes()
            b = np.asarray(aux.page_offset, dtype=np.uint8).tobytes() \
                if spec.mode == "DHGR" else b""
            got.append(digest(a, b, spec.mode))

    def before(k, s):
        me["k"] = k
        s.gate = gate
    gate.__name__ = "gate"
    _write(c_w, b"start\n")
    if _read(c_r, 1) != b"g":
        _exit(proc.KILLED)
    res = tc.run_transcode(r2, spec, m, root, ops=ops, before=before)
    return {"got": got, "exc": repr(res.exc) if res.exc is not None else None,
            "budget": isinstance(res.exc, StepBudget), "deadlock": res.deadlock}


def scenario(run):
    ch = run.ch
    rng = ch.bulk("pictures")
    nframes = ch.pick((1, 2, 4), "frames")
    m = make_movie(rng, 1, nframes)
    combo = ch.pick(COMBOS, "combo")
    n = ch.pick((2, 2, 3), "processes")
    chunk = ch.pick((4096, 1024, 8192), "chunk")
    root = tc.scratch()
    with open(os.path.join(root, "clip.mp4"), "wb") as f:
        f.write(b"media")
    plans, procs = [], []
    for j in range(n + 1):
        spec = tc.Spec()
        spec.mode, spec.palette = combo if j in (0, n) or ch.chance(3, 4, "same") else \
            ch.pick(COMBOS, "combo")
        spec.pid = 4000 + j
        spec.output = "out%d.a2m" % j
        spec.switch_den = ch.pick((0, 10, 3), "preempt")
        start = ch.pick((0, 0, 10, 40), "start") if j < n else 0
        if start:
            start += ch.draw(40, "start2")
        fault = None
        if j < n and ch.chance(1, 4, "faulty"):
            fault = (ch.pick(("kill", "orphan", "tool"), "fault"), ch.draw(24 * nframes, "at"))
        plans.append((spec, start, fault, ch.draw(1 << 20, "seed")))
    den = ch.pick((2, 1, 5, 25), "switch")
    faulted = {}
    order = []
    try:
        def launch(j):
            spec, start, fault, seed = plans[j]
            mj = m
            mj.chunk = chunk
            mj.tool = {}
            if fault and fault[0] == "tool":
                f = ch.pick(("fail", "crash", "short", "noaux", "missing"), "tool-fault")
                mj.tool = {fault[1] % nframes: f}
                faulted[j] = "converter: " + f
                run.count("fault:tool-" + f)
            p = Process(run, spec, mj, root, seed, run.tier)
            p.j = j
            procs.append(p)
            return p
        total = 0
        todo = sorted(range(n), key=lambda j: plans[j][1])
        cur = None
        while True:
            while todo and (plans[todo[0]][1] <= total or
                            not any(p.state == "waiting" for p in procs)):
                launch(todo.pop(0))
            live = [p for p in procs if p.state == "waiting"]
            if not live:
                break
            if cur not in live or len(live) > 1 and (den == 1 or ch.chance(1, den, "switch")):
                cur = live[ch.draw(len(live), "next")]
            f = plans[cur.j][2]
            what = b"g"
            if f and cur.j not in faulted and f[0] in ("kill", "orphan") and cur.steps == f[1]:
                what = b"k" if f[0] == "kill" else b"o"
                faulted[cur.j] = f[0]
                run.count("fault:" + f[0])
            cur.grant(what)
            order.append(cur.j)
            total += 1
            if total > 20000:
                raise Violation("hang", "the transcodes do not end")
        what = "%d transcodes at once, %s" % (n, ", ".join(
            "%s %s%s" % (s.mode, s.palette, " (%s)" % faulted[j] if j in faulted else "")
            for j, (s, _, _, _) in enumerate(plans[:n])))
        run.note(what, "frames", nframes, "steps", total)
        run.digest(repr(order) + repr([p.ops for p in procs]))
        run.count("processes", n)
        run.count("interleaved_calls", total)
        switches = sum(1 for a, b in zip(order, order[1:]) if a != b)
        run.count("process_switches", switches)
        for p in procs:
            if p.state == "done":
                judge(m, nframes, p.spec, p.result, faulted.get(p.j), "%s: number %d" % (what, p.j + 1))
            elif p.j not in faulted:
                raise RuntimeError("a transcode vanished")
        # afterwards everything is as good as new
        spec, _, _, seed = plans[n]
        m.tool = {}
        p = Process(run, spec, m, root, seed, run.tier)
        procs.append(p)
        while p.state == "waiting":
            p.grant()
        judge(m, nframes, spec, p.result, None, "after %s: a last one" % what)
    finally:
        for p in procs:
            p.close()
        shutil.rmtree(root, ignore_errors=True)
    run.nontrivial = switches > 3
    run.state(tuple(order))


def judge(m, nframes, spec, res, fault, what):
    if res["deadlock"] or res["budget"]:
        raise Violation("hang", "%s never ends: %s" % (what, res["deadlock"]))
    want = m.want[(spec.mode, spec.palette)]
    for i, g in enumerate(res["got"]):
        if i >= len(want) or g != want[i]:
            raise Violation("wrong-picture", "%s gets a wrong picture %d" % (what, i))
    if res["exc"]:
        if not fault:
            raise Violation("disturbed", "%s fails: %s" % (what, res["exc"]))
    elif len(res["got"]) != len(want):
        raise Violation("truncated", "%s gets %d of %d pictures without an error" % (
            what, len(res["got"]), len(want)))
