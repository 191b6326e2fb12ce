"""A small packet network: faulty link, host TCP stack (server side), TCP client halves.

All times are nanoseconds of Kernel time.  Sequence numbers are unbounded integers.
"""
import errno

MS = 1000000


class Seg:
    __slots__ = ("src", "sport", "dst", "dport", "seq", "ack", "flags", "data", "wnd")

    def __init__(self, src, sport, dst, dport, seq, ack, flags, data, wnd):
        self.src, self.sport, self.dst, self.dport = src, sport, dst, dport
        self.seq, self.ack, self.flags, self.data, self.wnd = seq, ack, flags, data, wnd

    def __repr__(self):
        return "%s:%d>%s:%d %s seq=%d ack=%s len=%d wnd=%d" % (
            self.src, self.sport, self.dst, self.dport, self.flags, self.seq, self.ack,
            len(self.data), self.wnd)


class Link:
    """Delivers segments by destination address, with faults drawn per packet."""

    def __init__(self, k, run, cfg):
        self.k, self.run, self.ch = k, run, run.ch
        self.latency = cfg.get("latency", 300000)
        self.jitter = cfg.get("jitter", 0)
        self.loss = cfg.get("loss", 0)          # 1/loss packets
        self.dup = cfg.get("dup", 0)
        self.reorder = cfg.get("reorder", 0)
        self.big_delay = cfg.get("big_delay", 0)
        self.partitions = cfg.get("partitions", [])   # [(t0, t1, direction or None)]
        self.faults_until = cfg.get("faults_until", 1 << 62)
        self.fault_budget = cfg.get("fault_budget", 1 << 30)
        self.hosts = {}
        self.log = []
        self.sent = 0
        self.drop_filter = None
        self.byte_ns = cfg.get("byte_ns", 800)      # serialisation: 10 Mbit/s
        self.busy = {}

    def attach(self, ip, handler):
        self.hosts[ip] = handler

    def send(self, seg):
        k = self.k
        self.sent += 1
        now = k.now
        faulty = now < self.faults_until and self.fault_budget > 0
        for t0, t1, d in self.partitions:
            if t0 <= now < t1 and (d is None or d == seg.dst):
                self.run.count("fault:partition-drop")
                self.run.note("%.3f ms partition drops %r" % (now / 1e6, seg))
                return
        if self.drop_filter and self.drop_filter(seg):
            return
        key = seg.dst
        start = max(now, self.busy.get(key, 0))
        self.busy[key] = start + (len(seg.data) + 58) * self.byte_ns
        t = self.busy[key] + self.latency
        if faulty:
            if self.loss and self.ch.chance(1, self.loss, "loss"):
                self.run.count("fault:loss")
                self.run.note("%.3f ms loss %r" % (now / 1e6, seg))
                self.fault_budget -= 1
                return
            if self.jitter:
                t += self.ch.draw(16, "jitter") * self.jitter // 16
            if self.reorder and self.ch.chance(1, self.reorder, "reorder"):
                self.run.count("fault:reorder")
                self.run.note("%.3f ms reorder %r" % (now / 1e6, seg))
                self.fault_budget -= 1
                t += (1 + self.ch.draw(20, "reorder-by")) * MS
            if self.big_delay and self.ch.chance(1, self.big_delay, "delay"):
                self.run.count("fault:delay")
                self.run.note("%.3f ms delay %r" % (now / 1e6, seg))
                self.fault_budget -= 1
                t += (1 + self.ch.draw(30, "delay-by")) * 100 * MS
            if self.dup and self.ch.chance(1, self.dup, "dup"):
                self.run.count("fault:dup")
                self.run.note("%.3f ms dup %r" % (now / 1e6, seg))
                self.fault_budget -= 1
                k.at(t + (1 + self.ch.draw(40, "dup-by")) * MS, lambda: self.deliver(seg))
        k.at(t, lambda: self.deliver(seg))

    def deliver(self, seg):
        h = self.hosts.get(seg.dst)
        if h is not None:
            h(seg)


class Cond:
    """Wait queue for simulated threads."""

    def __init__(self, k):
        self.k = k
        self.waiters = []

    def wait(self, what, timeout=None):
        t = self.k.current
        self.waiters.append(t)
        ok = self.k.block(what, timeout)
        if t in self.waiters:
            self.waiters.remove(t)
        return ok

    def notify(self):
        w, self.waiters = self.waiters, []
        for t in w:
            self.k.wake(t)


class Pipe:
    """Bytes in order: appended at the end, dropped from the start, without much copying."""

    def __init__(self):
        self.parts = []         # (bytes)
        self.skip = 0           # of the first part
        self.n = 0

    def __len__(self):
        return self.n

    def __iadd__(self, b):
        if b:
            self.parts.append(bytes(b))
            self.n += len(b)
        return self

    def __getitem__(self, s):
        a, b, _ = s.indices(self.n)
        out = []
        a += self.skip
        b += self.skip
        for p in self.parts:
            if b <= 0:
                break
            if a < len(p):
                out.append(p[max(a, 0):b])
            a -= len(p)
            b -= len(p)
        return b"".join(out)

    def __delitem__(self, s):
        assert s.start is None
        n = min(s.stop, self.n)
        self.n -= n
        self.skip += n
        i = 0
        while i < len(self.parts) and self.skip >= len(self.parts[i]):
            self.skip -= len(self.parts[i])
            i += 1
        del self.parts[:i]


# Linux drops an orphaned connection (one the application has closed) once it has probed a
# closed window with its timeout backed off to 120 s: after five to eight minutes.
ORPHAN_NS = 400000 * MS


class HostConn:
    """Server side of one TCP connection (enough of Linux's behaviour to matter)."""

    def __init__(self, stack, ip, port, peer, pport, iss, irs, wnd):
        self.stack, self.k = stack, stack.k
        self.ip, self.port, self.peer, self.pport = ip, port, peer, pport
        self.state = "SYN_RCVD"
        self.iss = iss
        self.una = iss          # oldest unacknowledged
        self.nxt = iss          # next to send
        self.maxnxt = iss       # highest sequence ever sent + 1
        self.buf = Pipe()       # bytes from una (data only)
        self.rcv_nxt = irs + 1
        self.wnd = wnd
        self.maxwnd = wnd
        self.sndbuf = stack.cfg.get("sndbuf", 87380)
        self.mss = stack.cfg.get("mss", 1460)
        self.rto = stack.cfg.get("rto", 200 * MS)
        self.rto0 = self.rto
        self.retries = 0
        self.timer = None
        self.fin_queued = False
        self.fin_sent = False
        self.error = None
        self.cond = Cond(self.k)
        self.accepted = False
        self.closed_by_app = False
        self.shut_since = None  # since when the peer's window has been closed
        self.ended_at = None    # when this end of the connection ceased to exist
        self.stuck_since = None # since when there is no answer
        self.user_timeout = None    # TCP_USER_TIMEOUT
        self.rx = bytearray()
        self.peer_fin = False
        self.sent_total = 0
        self.closed_at = None

    # -- helpers
    def out(self, flags, seq, data=b""):
        self.stack.link.send(Seg(self.ip, self.port, self.peer, self.pport, seq,
                                 self.rcv_nxt, flags, bytes(data), 65535))

    def arm(self, dt):
        tok = self.timer = object()

        def fire():
            if self.timer is tok:
                self.timer = None
                self.on_timer()
        self.k.after(dt, fire)

    def data_end(self):
        return self.una_data() + len(self.buf)

    def una_data(self):
        # sequence number of the first byte in buf
        return max(self.una, self.iss + 1)

    def pump(self):
        """Send what the window allows."""
        if self.state not in ("ESTABLISHED", "FIN_WAIT"):
            return
        base = self.una_data()
        lim = base + min(self.wnd, 10 * self.mss)
        while self.nxt < self.data_end() and self.nxt < lim:
            n = min(self.mss, self.data_end() - self.nxt, lim - self.nxt)
            if n < min(self.mss, self.maxwnd // 2) and n < self.data_end() - self.nxt and \
                    self.stack.cfg.get("sws"):
                break   # silly-window avoidance: wait for a larger window or the timer
            off = self.nxt - base
            self.out("A", self.nxt, self.buf[off:off + n])
            self.nxt += n
        self.maxnxt = max(self.maxnxt, self.nxt)
        if self.fin_queued and self.nxt == self.data_end() and not self.fin_sent:
            self.out("FA", self.nxt)
            self.fin_sent = True
            self.nxt += 1
            self.maxnxt = max(self.maxnxt, self.nxt)
        if self.timer is None and (self.nxt > self.una or self.nxt < self.data_end()):
            self.arm(self.rto)

    def on_timer(self):
        if self.state == "SYN_RCVD":
            self.retries += 1
            if self.retries > self.stack.cfg.get("synack_retries", 15):
                return self.stack.drop(self)
            self.out("SA", self.iss)
            self.rto = min(self.rto * 2, self.stack.cfg.get("rto_max", 8000 * MS))
            return self.arm(self.rto)
        if self.state not in ("ESTABLISHED", "FIN_WAIT"):
            return
        if self.closed_by_app and self.shut_since is not None and \
                self.k.now - self.shut_since > ORPHAN_NS:
            # nobody owns this connection any more, and its peer takes nothing
            self.stack.run.count("tcp_orphans_dropped")
            self.out("RA", self.nxt)
            return self.fail(errno.ETIMEDOUT)
        if self.nxt > self.una and self.stuck_since is None:
            self.stuck_since = self.k.now
        if self.user_timeout and any(
                t is not None and self.k.now - t >= self.user_timeout
                for t in (self.shut_since if len(self.buf) else None, self.stuck_since)):
            self.stack.run.count("tcp_user_timeouts")
            return self.fail(errno.ETIMEDOUT)
        base = self.una_data()
        if self.nxt > self.una:            # retransmit
            self.retries += 1
            if self.retries > self.stack.cfg.get("max_retries", 15):
                return self.fail(errno.ETIMEDOUT)
            self.stack.run.count("tcp_retransmits")
            self.nxt = self.una
            self.fin_sent = False
            if self.wnd == 0 and len(self.buf):
                self.out("A", base, self.buf[:1])
                self.nxt = base + 1
                self.maxnxt = max(self.maxnxt, self.nxt)
            else:
                self.pump_rexmit()
        elif len(self.buf):                # window probe
            self.stack.run.count("tcp_window_probes")
            off = self.nxt - base
            self.out("A", self.nxt, self.buf[off:off + 1])
            self.nxt += 1
            self.maxnxt = max(self.maxnxt, self.nxt)
        self.rto = min(self.rto * 2, self.stack.cfg.get("rto_max", 8000 * MS))
        if self.timer is None:
            self.arm(self.rto)

    def pump_rexmit(self):
        base = self.una_data()
        n = min(self.mss, len(self.buf), max(1, self.wnd))
        if n:
            self.out("A", base, self.buf[:n])
            self.nxt = base + n
        elif self.fin_queued:
            self.out("FA", self.data_end())
            self.fin_sent = True
            self.nxt = self.data_end() + 1

    def fail(self, err):
        if self.state == "SYN_RCVD":
            self.listener.pending -= 1
        self.state = "CLOSED"
        self.error = err
        self.timer = None
        self.buf = Pipe()
        self.stack.gone(self)
        self.cond.notify()

    def receive(self, s):
        if "R" in s.flags:
            if self.state == "TIME_WAIT" or s.seq != self.rcv_nxt:
                return          # not in sequence: ignored (RFC 5961)
            return self.fail(errno.ECONNRESET)
        if "S" in s.flags:
            if self.state == "SYN_RCVD":
                self.out("SA", self.iss)
            elif self.state == "TIME_WAIT" and s.seq > self.rcv_nxt:
                # a new connection, not a stray duplicate of the old handshake
                self.stack.gone(self)
                self.state = "CLOSED"
                self.stack.syn(s)
            else:
                self.out("A", self.maxnxt)        # challenge acknowledgement
            return
        if self.state == "SYN_RCVD":
            if s.ack == self.iss + 1:
                self.state = "ESTABLISHED"
                self.una = self.nxt = self.maxnxt = self.iss + 1
                self.timer = None
                self.rto = self.rto0
                self.retries = 0
                self.stack.established(self)
            else:
                self.stack.rst(s)
                return
        if s.ack is not None:
            self.retries = 0            # the peer is alive
            self.stuck_since = None
        if s.ack is not None and self.una < s.ack <= self.maxnxt:
            acked = s.ack - self.una
            base = self.una_data()
            nd = min(s.ack - base, len(self.buf)) if s.ack > base else 0
            del self.buf[:nd]
            self.una = s.ack
            self.nxt = max(self.nxt, self.una)
            if self.fin_queued and s.ack == self.maxnxt and self.fin_sent and not self.buf:
                self.finish()
            self.retries = 0
            self.rto = self.rto0
            self.timer = None
            self.cond.notify()
        if s.ack is not None:
            if s.wnd > self.wnd or s.ack >= self.una:
                self.wnd = s.wnd
                self.maxwnd = max(self.maxwnd, s.wnd)
                if self.wnd:
                    self.shut_since = None
                elif self.shut_since is None:
                    self.shut_since = self.k.now
        if self.wnd > 0 and s.ack is not None and s.ack == self.una and self.rto > self.rto0:
            # window opened while backing off
            self.rto = self.rto0
            self.timer = None
            if self.buf and self.nxt > self.una and self.una + 1 == self.nxt:
                self.nxt = self.una      # probe byte was refused: resend from there
        if s.data:
            if s.seq == self.rcv_nxt:
                self.rcv_nxt += len(s.data)
                self.rx += s.data
                self.cond.notify()
            self.out("A", self.nxt)
        if "F" in s.flags and s.seq + len(s.data) == self.rcv_nxt and not self.peer_fin:
            self.rcv_nxt += 1
            self.peer_fin = True
            self.out("A", self.nxt)
            self.cond.notify()
        self.pump()

    def finish(self):
        if self.state == "FIN_WAIT":
            self.state = "TIME_WAIT"
            self.closed_at = self.k.now
            self.timer = None
            self.k.after(60000 * MS, self.expire)

    def expire(self):
        if self.state == "TIME_WAIT":
            self.state = "CLOSED"
            self.stack.gone(self)

    # -- application side
    def app_send(self, data):
        if self.error:
            e, = (self.error,)
            self.error = errno.EPIPE
            raise OSError(e, "connection failed")
        if self.state != "ESTABLISHED" or self.fin_queued:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        room = self.sndbuf - len(self.buf)
        n = min(room, len(data))
        if n > 0:
            self.buf += data[:n]
            self.sent_total += n
            self.pump()
        return n

    def app_close(self):
        if self.closed_by_app:
            return
        self.closed_by_app = True
        if self.state == "ESTABLISHED":
            if self.rx:
                # unread data at close: reset (as Linux does)
                self.out("RA", self.nxt)
                self.state = "CLOSED"
                self.stack.gone(self)
                return
            self.app_shutdown()
        elif self.state == "FIN_WAIT" and self.rx:
            self.out("RA", self.nxt)
            self.state = "CLOSED"
            self.stack.gone(self)

    def app_abort(self):
        """close() with SO_LINGER of zero seconds."""
        if self.closed_by_app:
            return
        self.closed_by_app = True
        if self.state in ("ESTABLISHED", "FIN_WAIT"):
            self.out("RA", self.nxt)
            self.state = "CLOSED"
            self.stack.gone(self)

    def app_shutdown(self):
        if self.state == "ESTABLISHED" and not self.fin_queued:
            self.fin_queued = True
            self.state = "FIN_WAIT"
            self.pump()


class HostStack:
    """TCP of the serving host: listeners, connections, port bookkeeping."""

    def __init__(self, k, run, link, ip, cfg):
        self.k, self.run, self.link, self.ip, self.cfg = k, run, link, ip, cfg
        self.listeners = {}     # port -> Listener
        self.conns = {}         # (port, peer, pport) -> HostConn
        self.issn = 1000
        link.attach(ip, self.receive)

    def syn(self, s):
        lst = self.listeners.get(s.dport)
        if lst is None:
            self.rst(s)
            return
        if len(lst.queue) + lst.pending >= lst.backlog + 1:
            self.run.count("backlog_drops")
            return
        if lst.drop_syn and lst.drop_syn(s):
            return
        self.issn += 100000
        c = HostConn(self, self.ip, s.dport, s.src, s.sport, self.issn, s.seq, s.wnd)
        c.listener = lst
        lst.pending += 1
        self.conns[(s.dport, s.src, s.sport)] = c
        c.out("SA", c.iss)
        c.maxnxt = c.nxt = c.iss + 1
        c.arm(c.rto)

    def rst(self, s):
        self.link.send(Seg(self.ip, s.dport, s.src, s.sport, s.ack or 0,
                           s.seq + len(s.data) + 1, "RA", b"", 0))

    def receive(self, s):
        c = self.conns.get((s.dport, s.src, s.sport))
        if c is not None:
            return c.receive(s)
        if "R" in s.flags:
            return
        if "S" in s.flags:
            return self.syn(s)
        self.rst(s)

    def established(self, c):
        c.listener.pending -= 1
        if self.listeners.get(c.port) is not c.listener:
            c.out("RA", c.nxt)
            c.state = "CLOSED"
            return self.gone(c)
        c.listener.queue.append(c)
        c.listener.cond.notify()

    def drop(self, c):
        if c.state == "SYN_RCVD":
            c.listener.pending -= 1
        c.state = "CLOSED"
        self.gone(c)

    def gone(self, c):
        c.ended_at = self.k.now
        key = (c.port, c.peer, c.pport)
        if self.conns.get(key) is c:
            del self.conns[key]

    def port_busy(self, port):
        """Connections that make bind() fail without address reuse."""
        return any(p == port for (p, _, _) in self.conns)


class Listener:
    def __init__(self, k, backlog):
        self.backlog = backlog
        self.queue = []
        self.pending = 0
        self.cond = Cond(k)
        self.drop_syn = None


class Client:
    """A plain TCP client (other viewers): receives, reads at its own pace, may misbehave."""

    def __init__(self, k, run, link, ip, port, server, sport, rcvbuf=65535):
        self.k, self.run, self.link = k, run, link
        self.ip, self.port, self.server, self.sport = ip, port, server, sport
        self.state = "CLOSED"
        self.iss = 5000
        self.rcv_nxt = None
        self.rcvbuf = rcvbuf
        self.inbuf = bytearray()
        self.data = bytearray()
        self.reading = True
        self.eof = False
        self.reset_seen = False
        self.retries = 0
        self.timer = None
        self.on_data = None
        self.on_connect = None
        self.connected_at = None
        self.first_at = None
        self.eof_at = None
        self.snd_nxt = self.iss + 1
        self.fin_sent = False
        self.gone = False
        link.attach(ip, self.receive)

    def wnd(self):
        return max(0, self.rcvbuf - len(self.inbuf))

    def out(self, flags, seq, data=b""):
        if self.gone:
            return
        self.link.send(Seg(self.ip, self.port, self.server, self.sport, seq,
                           self.rcv_nxt, flags, data, self.wnd()))

    def connect(self):
        self.state = "SYN_SENT"
        self.rto = 1000 * MS
        self.out("S", self.iss)
        self.arm(self.rto)

    def arm(self, dt):
        tok = self.timer = object()

        def fire():
            if self.timer is tok:
                self.timer = None
                if self.state == "SYN_SENT":
                    self.retries += 1
                    if self.retries > 6:
                        self.state = "TIMEDOUT"
                        return
                    self.out("S", self.iss)
                    self.rto = min(self.rto * 2, 8000 * MS)
                    self.arm(self.rto)
                elif self.state == "ESTABLISHED" and self.wnd() > 0:
                    pass
        self.k.after(dt, fire)

    def receive(self, s):
        if self.gone or s.dport != self.port:
            return
        if "R" in s.flags:
            if self.state == "SYN_SENT":
                self.state = "REFUSED"
            elif self.state in ("ESTABLISHED", "CLOSE_WAIT"):
                if not self.rcv_nxt <= s.seq <= self.rcv_nxt + self.wnd():
                    return      # outside the window (an old one): ignored
                self.reset_seen = True
                self.state = "RESET"
            return
        if self.state == "SYN_SENT":
            if "S" in s.flags and s.ack == self.iss + 1:
                self.rcv_nxt = s.seq + 1
                self.state = "ESTABLISHED"
                self.connected_at = self.k.now
                self.timer = None
                self.out("A", self.iss + 1)
                if self.on_connect:
                    self.on_connect(self)
            return
        if self.state in ("CLOSED", "REFUSED", "RESET", "TIMEDOUT"):
            if self.state == "RESET" or self.state == "CLOSED":
                self.link.send(Seg(self.ip, self.port, s.src, s.sport, s.ack or 0, None, "R",
                                   b"", 0))
            return
        if "S" in s.flags:
            self.out("A", self.snd_nxt)
            return
        if self.fin_sent and s.ack is not None and s.ack < self.snd_nxt:
            self.out("FA", self.snd_nxt - 1)        # the close got lost
        d = s.data
        if d or "F" in s.flags:
            if self.first_at is None:
                self.first_at = self.k.now
            if s.seq <= self.rcv_nxt <= s.seq + len(d):
                new = d[self.rcv_nxt - s.seq:][:self.wnd()]
                self.rcv_nxt += len(new)
                self.inbuf += new
                full = s.seq + len(d) == self.rcv_nxt
                if "F" in s.flags and full and not self.eof:
                    self.rcv_nxt += 1
                    self.eof = True
                    self.eof_at = self.k.now
                    self.state = "CLOSE_WAIT"
                if self.reading:
                    self.read()
                if self.on_data:
                    self.on_data(self)
            self.out("A", self.snd_nxt)

    def read(self, n=None):
        n = len(self.inbuf) if n is None else n
        was = self.wnd()
        self.data += self.inbuf[:n]
        del self.inbuf[:n]
        if self.state == "ESTABLISHED" and was < min(1460, self.rcvbuf // 2) <= self.wnd():
            self.out("A", self.snd_nxt)

    def resume(self):
        self.reading = True
        self.read()

    def reset(self):
        if self.state in ("ESTABLISHED", "CLOSE_WAIT"):
            self.out("RA", self.snd_nxt)
        self.state = "RESET_BY_US"

    def close(self):
        """Half-close towards the server (FIN), keep acknowledging."""
        if self.state == "ESTABLISHED" and not self.fin_sent:
            self.out("FA", self.snd_nxt)
            self.fin_sent = True
            self.snd_nxt += 1

    def vanish(self):
        self.gone = True
