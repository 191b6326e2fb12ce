"""WIZnet W5100 (Uthernet II, slot 1): indirect bus interface, socket 0 TCP client.

The chip checks the player's side of the contract as it runs: every read of the receive
ring must be the next byte of the stream and must have arrived, and RECV may only hand
back space for bytes that were read.
"""
from core import Violation
from net import MS, Seg

INIT, SYNSENT, EST, CLOSE_WAIT = 0x13, 0x15, 0x17, 0x1C


class W5100:
    def __init__(self, k, run, link, cfg, apple=None):
        self.k, self.run, self.link, self.cfg = k, run, link, cfg
        self.apple = apple
        self.open_refusals = list(cfg.get("open_refusals", ()))
        self.wnd_update = cfg.get("wnd_update", "always")   # always | small | never
        self.isn = 0x1000
        self.lock_open = 0
        self.ip = None
        self.rsr_log = None
        self.syns = []             # (time, src, sport, dst, dport)
        self.opens = 0
        self.connects = 0
        self.recvs = 0
        self.version = 0
        self.chip_reset()

    # ---- chip state
    def chip_reset(self):
        if self.ip is not None and self.link.hosts.get(self.ip) == self.receive:
            del self.link.hosts[self.ip]
        self.regs = bytearray(0x800)
        self.mode = 0
        self.adr = 0
        self.sr = 0
        self.rx = bytearray(0x2000)
        self.tx = bytearray(0x2000)
        self.rx_total = 0         # bytes accepted from the network
        self.rd_committed = 0     # bytes handed back by RECV
        self.nread = 0            # bytes the processor has read
        self.rx_rd_reg = 0
        self.timer = None
        self.rcv_nxt = None
        self.gen = getattr(self, "gen", 0) + 1
        self.last_adv = 0
        self.ip = None
        self.regs[0x1A] = self.regs[0x1B] = 0x55

    def rxsize(self):
        return 1024 << (self.regs[0x1A] & 3)

    def free(self):
        return self.rxsize() - (self.rx_total - self.rd_committed)

    # ---- bus
    def bus_read(self, a):
        if a == 0xC094:
            return self.mode
        if a == 0xC095:
            return self.adr >> 8
        if a == 0xC096:
            return self.adr & 0xFF
        if not self.mode & 1:
            return 0xFF
        v = self.mem_read(self.adr)
        self.bump()
        return v

    def bus_write(self, a, v):
        if a == 0xC094:
            self.version += 1
            if v & 0x80:
                self.chip_reset()
            else:
                self.mode = v
        elif a == 0xC095:
            self.adr = (self.adr & 0xFF) | (v << 8)
        elif a == 0xC096:
            self.adr = (self.adr & 0xFF00) | v
        elif self.mode & 1:
            self.version += 1
            self.mem_write(self.adr, v)
            self.bump()

    def bump(self):
        if self.mode & 2:
            a = self.adr
            if a == 0x7FFF:
                self.adr = 0x6000
            elif a == 0x5FFF:
                self.adr = 0x4000
            else:
                self.adr = (a + 1) & 0xFFFF

    def mem_read(self, a):
        if 0x6000 <= a < 0x8000:
            return self.read_ring(a)
        if a == 0x403:
            return self.sr
        if a == 0x426:
            if self.rsr_log is not None:
                self.rsr_log.append((self.apple.cpu.processorCycles,
                                     (self.rx_total - self.rd_committed) >> 8))
            return (self.rx_total - self.rd_committed) >> 8
        if a == 0x427:
            return (self.rx_total - self.rd_committed) & 0xFF
        if a == 0x428:
            return self.rx_rd_reg >> 8
        if a == 0x429:
            return self.rx_rd_reg & 0xFF
        if a < 0x800:
            return self.regs[a]
        if 0x4000 <= a < 0x6000:
            return self.tx[a & 0x1FFF]
        return 0

    def read_ring(self, a):
        want = 0x6000 + (self.nread & 0x1FFF)
        if a != want:
            raise Violation("read-order", "the player reads ring address $%04X, but the next "
                            "unread stream byte (%d) is at $%04X" % (a, self.nread, want))
        if self.nread >= self.rx_total:
            raise Violation("read-ahead", "the player reads stream byte %d, only %d have arrived"
                            % (self.nread, self.rx_total))
        if self.nread - self.rd_committed >= 0x2000:
            raise Violation("read-ahead", "the player reads past the ring")
        self.nread += 1
        self.version += 1
        return self.rx[a & 0x1FFF]

    def mem_write(self, a, v):
        if a == 0x401:
            return self.command(v)
        if a == 0x428:
            self.rx_rd_reg = (self.rx_rd_reg & 0xFF) | v << 8
        elif a == 0x429:
            self.rx_rd_reg = (self.rx_rd_reg & 0xFF00) | v
        elif a < 0x800:
            self.regs[a] = v
        elif 0x4000 <= a < 0x6000:
            self.tx[a & 0x1FFF] = v
        elif 0x6000 <= a < 0x8000:
            self.rx[a & 0x1FFF] = v

    # ---- socket commands
    def command(self, c):
        if self.apple is not None:
            self.k.now = max(self.k.now, self.apple.now())
            self.apple.brk = True
        if c == 0x01:
            self.opens += 1
            n = self.open_refusals.pop(0) if self.open_refusals else 0
            if n:
                self.run.count("fault:open-refused")
                self.sr = 0
                return
            if self.regs[0x400] & 0xF == 1:
                self.sr = INIT
                self.rx_rd_reg = 0
                self.rx_total = self.rd_committed = self.nread = 0
            else:
                self.sr = 0
        elif c == 0x04:
            if self.sr == INIT:
                self.connect()
        elif c == 0x08:
            self.sr = 0
        elif c == 0x10:
            self.sr = 0
        elif c == 0x40:
            self.recv_command()

    def connect(self):
        self.connects += 1
        r = self.regs
        self.ip = "%d.%d.%d.%d" % tuple(r[0x0F:0x13])
        self.port = r[0x404] << 8 | r[0x405]
        self.dst = "%d.%d.%d.%d" % tuple(r[0x40C:0x410])
        self.dport = r[0x410] << 8 | r[0x411]
        self.link.attach(self.ip, self.receive)
        self.isn += 0x10000
        self.seq = self.isn
        self.sr = SYNSENT
        self.retry = 0
        self.rto = 200 * MS
        self.send_syn()

    def send_syn(self):
        self.syns.append((self.k.now, self.ip, self.port, self.dst, self.dport))
        self.send("S", self.seq, None)
        gen, retry = self.gen, self.retry

        def timeout():
            if self.gen != gen or self.sr != SYNSENT or self.retry != retry:
                return
            self.retry += 1
            self.version += 1
            if self.retry > 8:
                self.run.count("connect-timeouts")
                self.sr = 0
                return
            self.rto = min(self.rto * 2, 6500 * MS)
            self.send_syn()
        self.k.after(self.rto, timeout)

    def send(self, flags, seq, ack):
        w = self.free()
        self.last_adv = w
        self.link.send(Seg(self.ip, self.port, self.dst, self.dport, seq, ack, flags, b"", w))

    def receive(self, s):
        if s.dport != self.port or s.src != self.dst or s.sport != self.dport:
            return
        self.version += 1
        if "R" in s.flags:
            if self.sr == SYNSENT and s.ack == self.seq + 1:
                self.run.count("connect-refused")
                self.sr = 0
            elif self.sr in (EST, CLOSE_WAIT) and s.seq == self.rcv_nxt:
                self.sr = 0
            return
        if self.sr == SYNSENT:
            if s.ack != self.seq + 1:
                if s.ack is not None:
                    self.link.send(Seg(self.ip, self.port, s.src, s.sport, s.ack, None, "R",
                                       b"", 0))
                return
            if "S" in s.flags:
                self.rcv_nxt = s.seq + 1
                self.seq += 1
                self.sr = EST
                self.established_at = self.k.now
                self.send("A", self.seq, self.rcv_nxt)
            return
        if self.sr not in (EST, CLOSE_WAIT):
            self.link.send(Seg(self.ip, self.port, s.src, s.sport, s.ack or 0, None, "R", b"", 0))
            return
        if "S" in s.flags:
            self.send("A", self.seq, self.rcv_nxt)
            return
        d = s.data
        if d or "F" in s.flags:
            if s.seq <= self.rcv_nxt:
                new = d[self.rcv_nxt - s.seq:][:self.free()]
                w = self.rx_total & 0x1FFF
                for b in new:
                    self.rx[w] = b
                    w = (w + 1) & 0x1FFF
                self.rx_total += len(new)
                self.rcv_nxt += len(new)
                if "F" in s.flags and s.seq + len(d) == self.rcv_nxt and self.sr == EST:
                    self.rcv_nxt += 1
                    self.sr = CLOSE_WAIT
            self.send("A", self.seq, self.rcv_nxt)

    def recv_command(self):
        self.recvs += 1
        adv = (self.rx_rd_reg - self.rd_committed) & 0xFFFF
        if self.rd_committed + adv > self.nread:
            raise Violation("released-unread", "the player hands back stream bytes up to %d but "
                            "has read only %d" % (self.rd_committed + adv, self.nread))
        self.rd_committed += adv
        if self.sr == EST and (self.wnd_update == "always" or
                               (self.wnd_update == "small" and self.last_adv < 1460)):
            self.send("A", self.seq, self.rcv_nxt)
