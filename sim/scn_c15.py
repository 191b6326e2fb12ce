"""C15: the server gives every client the exact file, whatever other clients do."""
import os
import shutil
import tempfile

import net as netmod
import play
from core import Violation
from kernel import Kernel, StepBudget
from play import MS, SEC

KINDS = ("good", "slow", "half-close", "reset", "reset-queued", "vanish", "talk", "frozen")
GOOD = ("good", "slow", "half-close")


def setup(tier):
    play.load_server()
    play.player_image()


class Viewer:
    """One client and what it does."""

    def __init__(self, s, i):
        ch, k = s.ch, s.k
        self.s, self.i = s, i
        self.at = ch.draw(60, "when") * 100 * MS
        self.kind = ch.weighted([("good", 5), ("slow", 2), ("half-close", 1), ("reset", 2),
                                 ("reset-queued", 1), ("vanish", 1), ("talk", 1), ("frozen", 1)], "kind")
        self.rcvbuf = ch.pick((65535, 8192, 1460, 300), "rcvbuf")
        self.c = netmod.Client(k, s.run, s.link, "10.0.0.%d" % (100 + i),
                               ch.pick((40000, 1025, 65535), "port"), play.SERVER_IP, s.port,
                               self.rcvbuf)
        self.after = ch.pick((2000, 0, 300, 8000, 40000, 150000), "after")  # bytes before it acts
        self.stall = ch.pick((0, 3, 20, 90, 1500), "stall") * SEC
        self.nstalls = ch.range(1, 3, "stalls")
        self.lost = None          # why nothing is promised to this one
        c = self.c
        c.on_data = self.on_data
        c.on_connect = self.on_connect
        self.acted = 0
        k.at(self.at, self.go)

    def go(self):
        self.c.connect()
        self.s.run.note("%.3f s viewer %d (%s) connects" % (self.s.k.now / 1e9, self.i, self.kind))

    def on_connect(self, c):
        if self.kind == "reset-queued":
            self.act("resets right after connecting", c.reset)
        elif self.kind == "half-close" and self.after in (0, 300):
            self.act("closes its side at once", c.close)
        elif self.kind == "talk":
            c.out("A", c.snd_nxt, b"GET / HTTP/1.0\r\n\r\n")
            c.snd_nxt += 18
            self.fault("talks")

    def fault(self, what):
        self.s.run.count("fault:viewer-" + self.kind)
        self.s.run.note("%.3f s viewer %d %s after %d bytes" % (
            self.s.k.now / 1e9, self.i, what, len(self.c.data) + len(self.c.inbuf)))

    def act(self, what, fn):
        self.acted += 1
        self.fault(what)
        fn()

    def on_data(self, c):
        if len(c.data) + len(c.inbuf) < self.after * (1 + self.acted) or c.eof:
            return
        if self.kind == "reset" and not self.acted:
            self.act("resets", c.reset)
        elif self.kind == "vanish" and not self.acted:
            self.act("vanishes", c.vanish)
        elif self.kind == "half-close" and not self.acted:
            self.act("closes its side", c.close)
        elif self.kind == "frozen" and not self.acted:
            self.act("stops reading for good", lambda: setattr(c, "reading", False))
        elif self.kind == "slow" and self.acted < self.nstalls and c.reading:
            self.act("stops reading", lambda: setattr(c, "reading", False))
            self.s.k.after(self.stall, c.resume)


class Scn:
    pass


def scenario(run):
    ch = run.ch
    root = tempfile.mkdtemp(prefix="iiv15-")
    try:
        history(run, ch, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def history(run, ch, root):
    path = os.path.join(root, "movie.bin")
    rng = ch.bulk("content")
    size = ch.weighted([(2048, 4), (0, 3), (1, 2), (6144, 3), (40960, 3), (200704, 3), (65536, 3),
                        (131072, 2), (1 << 20, 1), ((1 << 20) + 2048, 1)], "size")
    big = size >= 1 << 20
    data = content(rng, size)
    with open(path, "wb") as f:
        f.write(data)
    versions = [(0, data)]          # (since, contents or None)
    net, host, chip, knobs = play.fault_config(ch)
    until = ch.pick((10, 30), "faults-until") * SEC
    net["faults_until"] = until
    net["partitions"] = [(a, min(b, until), d) for a, b, d in net.get("partitions", []) if a < until]
    knobs["accept_fail"] = ch.pick((0, 0, 3), "accept-fail-den")
    k = Kernel(ch, run, switch_den=ch.pick((0, 4, 20), "preempt"))
    k.demote = ch.chance(1, 3, "demote")
    k.clock_jumps(20 * SEC)
    port = ch.pick((None, 6502), "port")
    with play.Play(run, path, net, chip, host, knobs, port=port, kernel=k) as p:
        p.link.drop_filter = None
        s = Scn()
        s.run, s.ch, s.k, s.link, s.port = run, ch, k, p.link, port or 1977
        p.start_server()
        killed = []

        def restart():
            if killed and killed[-1][1] is None:
                p.start_server()
                killed[-1] = (killed[-1][0], k.now)
                run.note("%.3f s server starts again" % (k.now / 1e9))

        def kill():
            if killed and killed[-1][1] is None:
                return
            check_alive(p, killed)
            run.count("fault:server-kill")
            run.note("%.3f s server is killed" % (k.now / 1e9))
            p.kill_server(how_kill)
            killed.append((k.now, None))
            k.after(delay, restart)

        def replace(new):
            def go():
                if new is None:
                    if versions[-1][1] is not None:
                        os.rename(path, path + ".away")
                        run.count("fault:file-missing")
                else:
                    with open(path + ".new", "wb") as f:
                        f.write(new)
                    os.replace(path + ".new", path)
                    run.count("replacements")
                versions.append((k.now, new))
                run.note("%.3f s the file becomes %s" % (k.now / 1e9, new if new is None else len(new)))
            return go
        for _ in range(ch.weighted([(0, 3), (1, 3), (3, 1)], "replacements")):
            t = ch.draw(80, "replace-at") * 100 * MS
            n = ch.pick((4096, 2048, 0, 81920, 65536, size), "new-size")
            new = content(rng, n)
            k.at(t, replace(new))
            if ch.chance(1, 4, "missing-first"):
                k.at(max(0, t - 700 * MS), replace(None))
        how_kill = delay = 0
        for _ in range(ch.weighted([(0, 3), (1, 2), (2, 1)], "kills")):
            how_kill = ch.draw(2, "interrupt")
            delay = ch.pick((0, 1, 2000), "restart-delay") * MS
            k.at(ch.draw(100, "kill-at") * 100 * MS, kill)
        viewers = [Viewer(s, i) for i in range(ch.range(1, 2 if big else 7, "viewers"))]
        crowd = []
        if not big and ch.chance(1, 8, "crowd"):
            for i in range(ch.pick((4, 8, 16, 40), "crowd-size")):
                v = Viewer(s, 20 + i)
                v.kind = "frozen" if ch.chance(4, 5, "frozen") else "vanish"
                v.rcvbuf, v.c.rcvbuf, v.after = 300, 300, 0
                crowd.append(v)
        if big:
            for v in viewers:
                v.rcvbuf = v.c.rcvbuf = 65535
        # everybody is served within the time it takes to serve all, one after the other
        rtt = 2 * net["latency"] + 60 * MS
        total = max(len(v[1]) if v[1] else 0 for v in versions) if versions else 0
        total = max(total, 81920, size)
        xfer = 20 * SEC + (total // 512 + 20) * (rtt + 5 * MS)
        small = sum(total // max(1, v.rcvbuf) * (rtt + 2 * host["rto"]) for v in viewers
                    if v.rcvbuf < 2000)
        free = until + 20 * SEC + len(viewers) * xfer + small
        bound = free + sum(v.stall * v.nstalls if v.kind == "slow" else 0 for v in viewers)

        def settled():
            for v in viewers:
                if v.kind in GOOD and not v.c.eof and v.c.state not in (
                        "REFUSED", "TIMEDOUT", "RESET"):
                    return False
            return k.now >= 10100 * MS and not (killed and killed[-1][1] is None)
        run_to(p, bound, settled)
        check_alive(p, killed)
        for v in viewers:
            judge(run, v, versions, killed, p.knobs, until, bound)
            late = free + (v.stall * v.nstalls if v.kind == "slow" else 0)
            if v.kind in GOOD and v.c.eof and v.c.eof_at > late:
                raise Violation("kept-waiting", "viewer %d (%s) has to wait for others: it has all "
                                "at %.1f s, not by %.1f s" % (v.i, v.kind, v.c.eof_at / 1e9, late / 1e9))
        # a last viewer
        last = Viewer(s, 90)
        last.kind, last.at = "good", k.now
        last.rcvbuf = last.c.rcvbuf = 65535
        end = k.now
        pend = 60 * SEC + small + len(viewers) * xfer
        p.knobs["accept_fail"] = 0
        run_to(p, end + pend, lambda: last.c.eof or last.c.state in ("REFUSED", "RESET", "TIMEDOUT"))
        check_alive(p, killed)
        judge(run, last, versions, killed, p.knobs, until, end + pend)
        if not last.c.eof:
            raise Violation("next-client", "afterwards a new viewer gets %d of %d bytes (%s)" % (
                len(last.c.data), len(versions[-1][1] or b""), last.c.state))
        # nothing is kept of clients that are gone
        run_to(p, k.now + 65 * SEC, lambda: False)
        check_alive(p, killed)
        kept = [x for x in p.knobs["open"] if x.conn is not None and x.conn.ended_at is not None and
                k.now - x.conn.ended_at > 60 * SEC]
        if kept:
            raise Violation("kept-open", "the server still holds %d connection(s) that ended more than "
                            "a minute ago (client %s)" % (len(kept), kept[0].conn.peer))
        run.sim_ns = k.now
        run.count("viewers", len(viewers) + 1)
        run.count("segments", p.link.sent)
        run.nontrivial = any(x.startswith("fault:") for x in run.stats)
        run.state(tuple(x.split(" s ", 1)[-1] for x in run.trace if " s viewer" in x or
                        " s server" in x or " s the file" in x))


def content(rng, n):
    return rng.getrandbits(8 * n + 8).to_bytes(n + 1, "little")[:n]


def run_to(p, limit, stop):
    try:
        p.advance(limit, stop)
    except StepBudget:
        raise Violation("hang", "the server is in an endless loop")


def check_alive(p, killed):
    dead = [t for t in p.server_threads if t.state == "done"]
    if len(dead) > len(killed):
        t = dead[-1]
        raise Violation("server-died", "the server ended: %r" % (t.exc or "returned",))


def judge(run, v, versions, killed, knobs, until, bound):
    c = v.c
    got = bytes(c.data) + bytes(c.inbuf)
    who = "viewer %d (%s)" % (v.i, v.kind)
    run.note(who, c.state, len(got), "connected", c.connected_at, "first", c.first_at, "eof", c.eof_at)
    c0 = c.connected_at
    if c0 is None:
        if c.state in ("REFUSED", "TIMEDOUT"):
            down = any(t0 <= v.at + 70 * SEC and (t1 is None or t1 >= v.at) for t0, t1 in killed)
            if c.state == "REFUSED" and not down:
                raise Violation("refused", "%s was refused although the server was up" % who)
        return
    t1 = c.first_at
    if t1 is None:
        t1 = run_now = bound
    cur = []
    for j, (t, b) in enumerate(versions):
        nxt = versions[j + 1][0] if j + 1 < len(versions) else 1 << 62
        if t <= t1 and nxt >= c0:
            cur.append(b)
    hit = any(t >= v.at and t <= (c.eof_at or bound) for t, _ in killed)
    if (c.ip, c.port) in knobs.get("aborted", ()):
        hit = True
    ok_prefix = any((b or b"")[:len(got)] == got for b in cur)
    if not ok_prefix:
        n = max([common(b or b"", got) for b in cur] or [0])
        raise Violation("wrong-bytes", "%s received %d bytes that are not the file's: they differ "
                        "from offset %d" % (who, len(got), n))
    if hit or v.kind not in GOOD:
        return
    if c.state == "RESET":
        raise Violation("cut-off", "%s lost its connection after %d bytes although it kept it" % (
            who, len(got)))
    if not c.eof:
        raise Violation("starved", "%s connected at %.1f s and has %d of %d bytes and no end of "
                        "stream at %.1f s" % (who, c0 / 1e9, len(got), len(cur[-1] or b""),
                                              bound / 1e9))
    if None in cur:
        return
    if got not in cur:
        raise Violation("truncated", "%s got end of stream after %d of %s bytes" % (
            who, len(got), [len(b) for b in cur]))


def common(a, b):
    n = min(len(a), len(b))
    for i in range(n):
        if a[i] != b[i]:
            return i
    return n
