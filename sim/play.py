"""Whole playback system: real server.py, host TCP, faulty link, W5100, real player binary."""
import os
import sys
import types

import env
from apple import Apple
from core import HarnessError, Violation
from env import Ops, build_dir, load_dbg, parse_stream
from kernel import Kernel, StepBudget
from net import MS, HostStack, Link
import simsock
from w5100 import W5100

SERVER_IP = "10.0.0.1"
APPLE_IP = "10.0.65.2"
SEC = 1000 * MS

_img = {}


def player_image():
    if "img" not in _img:
        d = os.path.join(build_dir(), "player")
        raw = open(os.path.join(d, "iivision"), "rb").read()
        _img["img"] = raw[0x3A:]
        _img["ops"] = Ops(os.path.join(d, "iivision.dbg"))
    return _img["img"], _img["ops"]


def load_server():
    p = os.path.join(env.REPO, "server")
    if p not in sys.path:
        sys.path.insert(0, p)
    import server
    return server


class Play:
    def __init__(self, run, path, net=None, chip=None, host=None, knobs=None, seed=0,
                 containment=True, start=True, server=True, port=None, apple_at=0,
                 kernel=None):
        self.run = run
        self.k = kernel or Kernel(run.ch, run)
        self.link = Link(self.k, run, net or {})
        self.stack = HostStack(self.k, run, self.link, SERVER_IP, host or {})
        self.path = path
        self.knobs = dict(knobs or {}, run=run)
        self.image, self.ops = player_image()
        self.chip = W5100(self.k, run, self.link, chip or {})
        self.apple = None
        self.seed = seed
        self.containment = containment
        self.ended_at = None
        self.first_op_at = None
        self.server_mod = load_server()
        self.port = port
        self.server_threads = []
        self.apple_at = apple_at
        self.term = self.ops.sym["op_terminate"]
        self.user_dispatch = None

    def __enter__(self):
        self.undo = simsock.install(self.k, self.stack, self.run.ch, self.knobs)
        self.k.install()
        return self

    def __exit__(self, *a):
        self.k.shutdown()
        self.undo()
        self.k.uninstall()
        return False

    def start_server(self):
        argv = [self.path]
        if self.port is not None:
            argv += ["--port", str(self.port)]
        args = self.server_mod.parser.parse_args(argv)
        t = self.k.spawn(lambda: self.server_mod.main(args), "server")
        self.server_threads.append(t)
        return t

    def kill_server(self, interrupt):
        """SIGINT or SIGKILL.  What happens to the process's threads and sockets follows."""
        k, main = self.k, self.server_threads[-1]
        mine = [t for t in k.threads if t.tid > main.tid]
        if interrupt:
            k.kill(main, KeyboardInterrupt())
            if main.state != "done" or any(t.state != "done" and not t.daemon for t in mine):
                self.run.count("second_sigint")     # it waits for something: the user insists
        self.knobs["exiting"] = True
        for t in [main] + mine:
            k.kill(t)
        for s in list(self.knobs.get("open", ())):
            s.close()
        self.knobs["exiting"] = False

    def server_alive(self):
        return any(t.state != "done" for t in self.server_threads)

    def power_on(self):
        self.apple = Apple(self.k, self.run, self.image, self.ops.sym, self.ops.by_addr,
                           self.chip, self.seed, self.containment)
        self.apple.on_dispatch = self._dispatch
        return self.apple

    def _dispatch(self, apple, t):
        if self.first_op_at is None:
            self.first_op_at = apple.now()
        if t == self.term and self.ended_at is None:
            self.ended_at = apple.now()
            apple.brk = True
        if self.user_dispatch is not None:
            self.user_dispatch(apple, t)

    def advance(self, limit_ns, stop=None):
        """Run everything until limit_ns or stop() is true.  Returns True if stopped."""
        k = self.k
        while True:
            k.run_threads()
            if stop is not None and stop():
                return True
            nxt = k.next_event()
            if nxt is None or nxt > limit_ns:
                nxt = limit_ns
            ap = self.apple
            if ap is not None and not ap.halted and ap.now() < nxt:
                ap.run_until(nxt)
                if ap.brk and ap.now() < nxt:
                    k.now = max(k.now, ap.now())
                    continue
            k.now = max(k.now, nxt)
            if k.now >= limit_ns and (k.next_event() is None or k.next_event() > limit_ns):
                if stop is not None and stop():
                    return True
                return False
            k.fire_due()

    def paused(self):
        """The player sits in its pause loop (BIT $C000 / BPL back) with no key pending."""
        m, pc = self.apple.bus.main, self.apple.cpu.pc
        if self.apple.kbd & 0x80 or not self.apple.strobes:
            return False
        return any(m[q:q + 5] == b"\x2c\x00\xc0\x10\xfb" for q in (pc, pc - 3))

    def keep_unpaused(self):
        """A key that fell into another hand-over than its pair leaves the player paused; that
        is the viewer's doing, so the viewer presses again."""
        if self.ended_at is None and not self.apple.halted:
            if self.paused():
                self.apple.key()
            self.k.after(500 * MS, self.keep_unpaused)

    def server_failed(self):
        """An exception that ended the server, if any."""
        for t in self.server_threads:
            if t.state == "done":
                return t.exc or "returned"
        return None


def expected_ops(data, ops):
    """[(dispatch read count, address, op, payload)] the player must execute for a stream."""
    out = []
    for pos, op, payload in parse_stream(data, ops):
        if op[0] == "header":
            continue
        out.append((pos + 2, data[pos] << 8 | data[pos + 1], op, payload))
    return out


def check_trace(apple, exp, complete):
    """The executed operations are a prefix of (or all of) the stream's operations."""
    got = apple.ops
    n = min(len(got), len(exp))
    for i in range(n):
        c, a, nread = got[i]
        if a != exp[i][1] or nread != exp[i][0]:
            raise Violation("op-sequence", "operation %d executed at $%04X after %d bytes; the "
                            "stream has $%04X at byte %d" % (i, a, nread, exp[i][1],
                                                            exp[i][0] - 2))
    if len(got) > len(exp):
        raise Violation("op-sequence", "the player executes %d operations, the stream has %d" % (
            len(got), len(exp)))
    if complete and len(got) < len(exp):
        raise Violation("op-sequence", "the player executed %d of %d operations" % (
            len(got), len(exp)))


def tick_intervals(apple, i):
    """Speaker stamps belonging to the i-th dispatched operation."""
    raise NotImplementedError


def fault_config(ch, level=None):
    """A random link/host/chip configuration.  level 0: perfect network."""
    lv = ch.weighted([(0, 2), (1, 3), (2, 3)], "netlevel") if level is None else level
    net = {"latency": ch.pick((150000, 1000000, 20 * MS), "latency")}
    host = {"mss": ch.pick((1460, 536, 100, 1460), "mss"),
            "sndbuf": ch.pick((87380, 16384, 2048, 262144), "sndbuf"),
            "sws": ch.chance(1, 2, "sws"),
            "rto": ch.pick((200, 1000), "rto") * MS}
    chip = {"wnd_update": ch.pick(("always", "small", "never"), "wupd")}
    knobs = {"short_den": ch.pick((0, 0, 4), "short-sends")}
    if lv:
        net["jitter"] = ch.pick((0, 500000, 5 * MS), "jitter")
        net["loss"] = ch.pick((0, 50, 10, 4), "loss")
        net["dup"] = ch.pick((0, 30, 5), "dup")
        net["reorder"] = ch.pick((0, 20, 4), "reorder")
    if lv > 1:
        net["big_delay"] = ch.pick((0, 50, 10), "bigdelay")
        np = ch.draw(3, "nparts")
        net["partitions"] = []
        for _ in range(np):
            t0 = ch.draw(6000, "part-at") * MS
            net["partitions"].append((t0, t0 + (1 + ch.draw(40, "part-len")) * 100 * MS,
                                      ch.pick((None, SERVER_IP, APPLE_IP), "part-dir")))
    return net, host, chip, knobs
