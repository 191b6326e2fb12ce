"""An Apple //e running the player: 6502 (py65), bus with 80STORE banking, ROM stubs."""
import random

from py65.devices.mpu6502 import MPU

from core import Violation

CYCLE_NS = 1000


class CPU(MPU):
    instruct = list(MPU.instruct)
    cycletime = list(MPU.cycletime)


def _jmp(self):
    pc = self.pc
    m = self.memory
    t = m.main[pc] | m.main[pc + 1] << 8
    self.pc = t
    if m.site[pc]:
        m.apple.dispatch(t, pc)


def _jsr(self):
    m = self.memory
    t = m.main[self.pc] | m.main[self.pc + 1] << 8
    if t >= 0xBF00:
        self.pc += 2
        m.apple.rom(t)
        return
    MPU.instruct[0x20](self)


def _brk(self):
    self.memory.apple.halt("brk")


def _bad(self):
    raise Violation("wild-execution", "illegal instruction $%02X at $%04X" % (
        self.memory.main[self.pc - 1], self.pc - 1))


CPU.instruct[0x4C] = _jmp
CPU.instruct[0x20] = _jsr
CPU.instruct[0x00] = _brk
for _i, _f in enumerate(MPU.instruct):
    if getattr(_f, "__name__", "") == "inst_not_implemented":
        CPU.instruct[_i] = _bad

HOLE = bytearray(8192)
for _i in range(8192):
    HOLE[_i] = (_i & 127) >= 120


class Bus:
    def __init__(self, apple):
        self.apple = apple
        self.main = bytearray(65536)
        self.aux = bytearray(65536)
        self.site = bytearray(65536)       # dispatch jump instructions (operand address)
        self.writable = bytearray(65536)   # bytes the player may modify while playing

    def __getitem__(self, a):
        if 0xC000 <= a < 0xC100:
            return self.apple.io_read(a)
        if 0x2000 <= a < 0x4000 and self.apple.aux_hgr:
            return self.aux[a]
        return self.main[a]

    def __setitem__(self, a, v):
        if 0xC000 <= a < 0xC100:
            self.apple.io_write(a, v)
        elif 0x2000 <= a < 0x4000:
            bank = 1 if self.apple.aux_hgr else 0
            (self.aux if bank else self.main)[a] = v
            self.apple.display_write(bank, a, v)
        elif a < 0xC000:
            if self.apple.playing and not self.writable[a] and self.apple.containment:
                self.apple.bad_write(a, v)
            if self.main[a] != v:
                self.apple.version += 1
            self.main[a] = v
        elif a != 0xFFFF and self.apple.playing and self.apple.containment:
            self.apple.bad_write(a, v)
        # ROM: writes ignored

    def __len__(self):
        return 65536


class Apple:
    """The player program on the machine, with its observation points."""

    def __init__(self, k, run, image, sym, by_addr, w5100, seed=0, containment=True):
        self.k, self.run = k, run
        self.w = w5100
        w5100.apple = self
        self.by_addr = by_addr
        self.containment = containment
        self.sw = dict(store80=0, page2=0, hires=0, text=1, mixed=1, col80=0, dhires=0)
        self.aux_hgr = False
        self.kbd = 0
        self.playing = False
        self.brk = False
        self.halted = None
        self.text_out = []
        self.ops = []            # (cycle, address, bytes read so far) of each dispatch
        self.ticks = []          # speaker access stamps
        self.idle_ticks = 0
        self.skipped = []        # (cycle from, cycle to, pc) idle time skipped
        self.version = 0
        self.on_dispatch = None
        self.on_display = None
        self.io_seen = {}
        self.strobes = []
        self.pauses = 0
        self.resets = 0
        self.quit_at = None
        self._loop_state = None
        self.sym = sym
        bus = self.bus = Bus(self)
        r = random.Random(seed)
        for bank in (bus.main, bus.aux):      # power-on garbage
            bank[:] = r.getrandbits(8 * 65536).to_bytes(65536, "little")
        bus.main[0x800:0x800 + len(image)] = image
        nop = sym["op_nop"]
        for a in range(0x800, 0x800 + len(image) - 2):
            if bus.main[a] == 0x4C and bus.main[a + 1] == nop & 255 and bus.main[a + 2] == nop >> 8:
                bus.site[a + 1] = 1
                bus.writable[a + 1] = bus.writable[a + 2] = 1
        a = sym["op_ack"]
        i = a
        while not (bus.main[i] == 0x8D and bus.main[i + 1] == 0xFF and bus.main[i + 2] == 0xC0):
            i += 1
        bus.writable[i + 1] = 1
        for a in (0x06, 0x08):
            bus.writable[a] = 1
        self.cpu = CPU(bus, pc=0x800)
        self.cpu.sp = 0xFF
        self.cpu.processorCycles = k.now // CYCLE_NS

    def now(self):
        return self.cpu.processorCycles * CYCLE_NS

    # ---- events from outside
    def key(self, code=0xA0):
        self.kbd = code | 0x80
        self.version += 1

    def reset(self):
        self.resets += 1
        self.version += 1
        m = self.bus.main
        self.sw.update(store80=0, page2=0, text=1, col80=0)
        self.aux_hgr = False
        self.cpu.processorCycles += 100000
        if m[0x3F4] == m[0x3F3] ^ 0xA5:
            self.cpu.pc = m[0x3F2] | m[0x3F3] << 8
            self.cpu.sp = 0xFF
            self.playing = False
        else:
            self.halt("cold-boot")
        self._loop_state = None

    def halt(self, why):
        self.halted = why
        self.brk = True

    # ---- bus callbacks
    def io_read(self, a):
        if 0xC094 <= a <= 0xC097:
            return self.w.bus_read(a)
        self.io_seen[a] = self.io_seen.get(a, 0) + 1
        if a < 0xC010:
            return self.kbd
        if a == 0xC010:
            v = self.kbd
            self.kbd &= 0x7F
            self.strobes.append(self.cpu.processorCycles)
            self.version += 1
            return v
        if a == 0xC030:
            self.ticks.append(self.cpu.processorCycles + 3)
            return 0
        self.switch(a, False)
        return 0

    def io_write(self, a, v):
        if 0xC094 <= a <= 0xC097:
            return self.w.bus_write(a, v)
        if a == 0xC030:
            self.ticks.append(self.cpu.processorCycles + 3)
            return
        self.io_seen[a] = self.io_seen.get(a, 0) + 1
        if a == 0xC010:
            self.kbd &= 0x7F
            self.version += 1
            return
        self.switch(a, True)

    def switch(self, a, wr):
        sw = self.sw
        self.version += 1
        if a in (0xC000, 0xC001) and wr:
            sw["store80"] = a & 1
        elif a in (0xC00C, 0xC00D) and wr:
            sw["col80"] = a & 1
        elif a in (0xC050, 0xC051):
            sw["text"] = a & 1
        elif a in (0xC052, 0xC053):
            sw["mixed"] = a & 1
        elif a in (0xC054, 0xC055):
            sw["page2"] = a & 1
        elif a in (0xC056, 0xC057):
            sw["hires"] = a & 1
        elif a in (0xC05E, 0xC05F):
            sw["dhires"] = 1 - (a & 1)
        elif self.containment:
            raise Violation("wild-io", "the player accesses I/O location $%04X" % a)
        self.aux_hgr = bool(sw["store80"] and sw["page2"] and sw["hires"])

    def bad_write(self, a, v):
        raise Violation("wild-write", "the player writes $%02X to $%04X while playing (pc $%04X)"
                        % (v, a, self.cpu.pc))

    def display_write(self, bank, a, v):
        self.version += 1
        if self.playing:
            if self.containment and HOLE[a & 0x1FFF]:
                raise Violation("hole-write", "the player writes $%02X into the unused display "
                                "byte $%04X (%s bank)" % (v, a, ("main", "aux")[bank]))
            if self.on_display is not None:
                self.on_display(bank, a & 0x1FFF, v)

    def dispatch(self, t, pc):
        self.version += 1
        self.playing = True
        self.ops.append((self.cpu.processorCycles + 3, t, self.w.nread))
        if t not in self.by_addr:
            raise Violation("wild-jump", "the player jumps to $%04X, which is not the entry of "
                            "an operation (stream byte %d)" % (t, self.w.nread))
        if self.on_dispatch is not None:
            self.on_dispatch(self, t)

    def rom(self, t):
        self.version += 1
        if t == 0xF3F2:
            base = self.bus.main[0xE6] << 8
            bank = self.bus.aux if self.aux_hgr and base == 0x2000 else self.bus.main
            bank[base:base + 0x2000] = bytes(0x2000)
            self.bus.main[0x1A] = self.bus.main[0x1C] = 0
            self.bus.main[0x1B] = (base >> 8) + 0x20
            self.cpu.processorCycles += 260000
            self.cpu.a = 0
            self.cpu.y = 0
        elif t == 0xFDED:
            self.text_out.append(self.cpu.a & 0x7F)
            self.cpu.processorCycles += 300
        elif t == 0xBF00:
            call = self.bus.main[self.cpu.pc]
            self.quit_at = self.cpu.processorCycles
            self.halt("quit" if call == 0x65 else "mli-%02x" % call)
        else:
            raise Violation("wild-execution", "call to $%04X" % t)

    def text(self):
        return bytes(c for c in self.text_out if 32 <= c < 127).decode()

    # ---- execution
    def run_until(self, limit_ns):
        """Execute until the cycle clock reaches limit_ns or a device wants attention."""
        cpu = self.cpu
        limit = -(-limit_ns // CYCLE_NS)
        self.brk = False
        step = cpu.step
        self._loop_state = None
        while cpu.processorCycles < limit and not self.brk:
            pc = cpu.pc
            step()
            if cpu.pc < pc and pc - cpu.pc < 64:
                self._loop(limit)

    def _loop(self, limit):
        """A backward jump: if nothing changed since the last time round, skip ahead."""
        c = self.cpu
        st = (c.pc, c.a, c.x, c.y, c.p, c.sp, self.w.adr, self.version, self.w.version)
        if self._loop_state is not None and self._loop_state[0] == st:
            period = c.processorCycles - self._loop_state[1]
            n = (limit - c.processorCycles) // period - 1
            nt = len(self.ticks) - self._loop_state[2]
            if n > 0:
                self.skipped.append((c.processorCycles, c.processorCycles + n * period, c.pc))
                self.idle_ticks += n * nt
                c.processorCycles += n * period
                self._loop_state = None
                return
        self._loop_state = (st, c.processorCycles, len(self.ticks))
