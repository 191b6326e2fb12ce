"""C18: the bundled emulator's devices behave like the hardware over any history."""
import os
import shutil
import subprocess
import sys

import env
import transcode as tc
from core import Violation

# name: (off, on, status, reads switch too)
SWITCHES = {
    "80Store": (0xc000, 0xc001, 0xc018, False), "RamRd": (0xc002, 0xc003, 0xc013, False),
    "RamWrt": (0xc004, 0xc005, 0xc014, False), "IntCxROM": (0xc006, 0xc007, 0xc015, False),
    "AltZP": (0xc008, 0xc009, 0xc016, False), "SlotC3ROM": (0xc00a, 0xc00b, 0xc017, False),
    "80Col": (0xc00c, 0xc00d, 0xc01f, False), "AltCharSet": (0xc00e, 0xc00f, 0xc01e, False),
    "Text": (0xc050, 0xc051, 0xc01a, True), "Mixed": (0xc052, 0xc053, 0xc01b, True),
    "Page2": (0xc054, 0xc055, 0xc01c, True), "Hires": (0xc056, 0xc057, 0xc01d, True)}
UNIMPLEMENTED = ("80Store", "RamRd", "RamWrt", "IntCxROM", "AltZP", "SlotC3ROM")
SLOT = 0xc094
DEFINED = {0xc030, 0xc094, 0xc095, 0xc096, 0xc097} | {a for s in SWITCHES.values() for a in s[:3]}
UNDEFINED = [a for a in range(0xc000, 0xc100) if a not in DEFINED]
RAM = [(0x0000, 0x02ff), (0x0400, 0x07ff), (0x0900, 0x3fff), (0x6000, 0xbfff)]
ROM = [(0xc100, 0xc7ff), (0xd000, 0xffff)]
READ_ONLY = ROM + [(0x4000, 0x4fff)]
CODE = 0x0300           # where programs of the run are put (also RAM)
OUT = 0x0800
# registers of the card that hold what is written to them
PLAIN = list(range(0x01, 0x13)) + [0x1a, 0x1b, 0x404, 0x405] + list(range(0x40c, 0x412)) + \
    list(range(0x426, 0x42a))
BAD_REGS = [0x13, 0x14, 0x1e, 0x20, 0x27, 0x417, 0x41f, 0x42a, 0x500, 0x7ff]


def setup(tier):
    global apple2, uthernet, simulator
    sys.path.insert(0, os.path.join(env.REPO, "simulator"))
    import apple2
    import uthernet
    import simulator


class Model:
    def __init__(self, ram, card):
        self.ram = bytearray(ram)       # what reads return, where specified
        self.card = bytearray(card)
        self.sw = {n: False for n in SWITCHES}
        self.ptr = 0


class Trapped(Exception):
    pass


class Rig:
    def __init__(self, run):
        self.run = run
        rng = run.ch.bulk("memory")
        if run.ch.chance(1, 25, "start-up"):
            self.start_up(rng)
            return
        self.u = uthernet.Uthernet(b"")
        self.a = apple2.AppleII(self.u)
        ram = bytes(rng.getrandbits(8) for _ in range(0x10000))
        card = bytearray(rng.getrandbits(8) for _ in range(0x8000))
        card[0:0x4000] = bytes(0x4000)
        for lo, hi in ((0, 0xbfff), (0xc100, 0xffff)):
            self.a.memory.write(lo, list(ram[lo:hi + 1]))
        self.u.memory.write(0x4000, list(card[0x4000:]))
        self.a.memory_manager.enable()
        self.a.cpu.reset()
        self.m = Model(ram, card)

    def start_up(self, rng):
        """The emulator's own main program, with made-up ROM and player images."""
        ch = self.run.ch
        rom = bytes(rng.getrandbits(8) for _ in range(0x8000))
        n = ch.pick((300, 3, 0x4000, 0x3fff, 0x2001), "player-size")
        player = bytes([0x4c, 0x00, 0x80] + [rng.getrandbits(8) for _ in range(n - 3)])
        d = tc.scratch()
        got = []
        init = apple2.AppleII.__init__

        def record(self, *a, **kw):
            got.append(self)
            init(self, *a, **kw)
        real = {x: getattr(subprocess, x) for x in ("run", "call", "check_call")}

        def extract(args, *a, **kw):
            with open(os.path.join(d, "ethernet/ethernet/ethernet.bin"), "wb") as f:
                f.write(player)
            return 0
        cwd = os.getcwd()
        try:
            for n in ("simulator", "ethernet/ethernet"):
                os.makedirs(os.path.join(d, n))
            for n, b in (("simulator/APPLE2E.ROM", rom), ("out.bin", b"stream")):
                with open(os.path.join(d, n), "wb") as f:
                    f.write(b)
            os.chdir(d)
            apple2.AppleII.__init__ = record
            subprocess.call = subprocess.check_call = extract
            subprocess.run = lambda a, **kw: subprocess.CompletedProcess(a, extract(a))
            simulator.main()
        finally:
            os.chdir(cwd)
            apple2.AppleII.__init__ = init
            for x, f in real.items():
                setattr(subprocess, x, f)
            shutil.rmtree(d, ignore_errors=True)
        if len(got) != 1:
            raise Violation("start-up", "%d machines were started" % len(got))
        self.a = got[0]
        self.u = self.a.uthernet
        ram = bytearray(0x10000)
        ram[0xc600:0xc700] = rom[0x600:0x700]
        ram[0xd000:] = rom[0x5000:]
        ram[0x8000:0x8000 + len(player)] = player
        ram[0x36:0x38] = b"\xf0\xfd"
        self.m = Model(ram, bytes(0x8000))
        for lo, hi in RAM + ROM:
            for a in range(lo, hi + 1):
                if self.a.memory[a] != ram[a]:
                    raise Violation("start-up", "after the ROM and the player were loaded $%04X "
                                    "holds $%02X instead of $%02X" % (a, self.a.memory[a], ram[a]))
        self.run.count("start-ups")

    # -- one access, by the processor or directly on the bus
    def do(self, how, addr, value=None):
        a = self.a
        try:
            if how == 0:
                if value is None:
                    return a.memory[addr]
                a.memory[addr] = value
                return None
            code = [0xad if value is None else 0x8d, addr & 255, addr >> 8]
            a.memory.write(CODE, code)
            self.m.ram[CODE:CODE + 3] = bytes(code)
            a.cpu.pc = CODE
            a.cpu.a = 0 if value is None else value
            a.cpu.step()
            return a.cpu.a if value is None else None
        except Exception as e:
            raise Trapped("%s: %s" % (type(e).__name__, e))


def step(run, r, log):
    ch, m = run.ch, r.m
    how = ch.draw(2, "by-processor")
    kind = ch.weighted([("status", 5), ("switch", 5), ("data-read", 5), ("data-write", 4),
                        ("high", 3), ("low", 3), ("addr", 3), ("ram-write", 4), ("ram-read", 4),
                        ("rom-write", 2), ("undefined", 2), ("speaker", 1), ("register", 3),
                        ("bad-register", 1), ("mode", 1), ("text", 1), ("status-write", 1),
                        ("port-read", 1), ("socket", 1)], "access")

    def go(addr, value=None, may_trap=False):
        log.append("%s $%04X%s" % ("read" if value is None else "write", addr,
                                   "" if value is None else " = $%02X" % value))
        try:
            v = r.do(how, addr, value)
        except Trapped as e:
            log[-1] += " !"
            if may_trap:
                run.count("fault:reported")
                return e
            raise Violation("trapped", "%s is refused: %s; after %s" % (log[-1][:-2], e, tail(log)))
        return v

    def expect(got, want, what):
        if got != want:
            raise Violation(kind, "%s returns %s instead of $%02X; history: %s" % (
                what, "$%02X" % got if isinstance(got, int) else got, want, tail(log)))

    def must_trap(addr, value, what):
        if not isinstance(go(addr, value, True), Trapped):
            raise Violation("unreported", "%s is not reported; history: %s" % (what, tail(log)))
    run.count("access:" + kind)
    if kind == "status":
        n = ch.pick(sorted(SWITCHES), "switch")
        if m.sw[n] is None:
            return
        v = go(SWITCHES[n][2])
        if not isinstance(v, int) or bool(v & 0x80) != m.sw[n]:
            raise Violation("switch", "the status of %s at $%04X reads %s although it is %s; history: "
                            "%s" % (n, SWITCHES[n][2], v, "on" if m.sw[n] else "off", tail(log)))
    elif kind == "switch":
        n = ch.pick(sorted(SWITCHES), "switch")
        on = ch.draw(2, "on")
        rd = ch.draw(2, "by-read")
        addr = SWITCHES[n][on]
        if rd and not SWITCHES[n][3]:
            must_trap(addr, None, "reading $%04X" % addr)
            return
        if n in UNIMPLEMENTED:
            if isinstance(go(addr, 0, True), Trapped):
                m.sw[n] = None
                return
        else:
            go(addr, None if rd else ch.pick((0, 1, 255), "value"))
        m.sw[n] = bool(on)
    elif kind in ("high", "low", "addr"):
        if kind == "addr":
            # the usual ways to point somewhere interesting, in either order
            t = ch.pick((0x4000, 0x6000), "bank") + ch.pick((0, 0x7f, 0x80, 0xff, 0x100), "at") + \
                256 * ch.draw(31, "page") if ch.chance(3, 4, "memory") else ch.pick(PLAIN, "reg")
            parts = [("high", t >> 8), ("low", t & 255)]
            if ch.draw(2, "low-first"):
                parts.reverse()
        else:
            parts = [(kind, ch.range(0x40, 0x7f, "v") if kind == "high" else ch.draw(256, "v"))]
        for k, v in parts:
            go(SLOT + 1 if k == "high" else SLOT + 2, v)
            m.ptr = v << 8 | m.ptr & 255 if k == "high" else m.ptr & 0xff00 | v
    elif kind in ("data-read", "data-write"):
        for _ in range(ch.pick((1, 2, 5), "n")):
            p = m.ptr
            if not 0x4000 <= p <= 0x7fff and p not in PLAIN:
                return
            if kind == "data-read":
                v = go(SLOT + 3)
                expect(v, m.card[p], "reading the data port at $%04X of the card" % p)
            else:
                v = ch.draw(256, "v")
                go(SLOT + 3, v)
                m.card[p] = v
            if p in (0x5fff, 0x7fff):
                # end of a buffer: where the port points next is the card's business
                for a, v in ((SLOT + 1, 0x60), (SLOT + 2, 0)):
                    go(a, v)
                m.ptr = 0x6000
            else:
                m.ptr = p + 1
    elif kind == "register":
        reg = ch.pick(PLAIN, "reg")
        v = ch.draw(256, "v")
        go(SLOT + 1, reg >> 8)
        go(SLOT + 2, reg & 255)
        go(SLOT + 3, v)
        m.card[reg] = v
        go(SLOT + 2, reg & 255)
        m.ptr = reg
        go(SLOT + 1, reg >> 8)
        expect(go(SLOT + 3), v, "register $%04X" % reg)
        m.ptr = reg + 1
    elif kind == "bad-register":
        reg = ch.pick(BAD_REGS, "reg")
        go(SLOT + 1, reg >> 8)
        go(SLOT + 2, reg & 255)
        m.ptr = reg
        wr = ch.draw(2, "write")
        must_trap(SLOT + 3, ch.pick((1, 255), "v") if wr else None,
                  "an access to the undefined card register $%04X" % reg)
    elif kind == "status-write":
        addr = SWITCHES[ch.pick(sorted(SWITCHES), "switch")][2]
        must_trap(addr, ch.pick((1, 0x80, 255), "v"), "a write to the read-only status location $%04X" % addr)
    elif kind == "port-read":
        addr = SLOT + ch.pick((1, 2), "port")
        must_trap(addr, None, "reading the write-only port $%04X" % addr)
    elif kind == "socket":
        # open a TCP socket, and perhaps connect it: the status register follows
        last = None
        for reg, v, status in ((0x400, 0x21, None), (0x401, 1, 0x13), (0x401, 4, 0x17))[
                :ch.pick((3, 2), "steps")]:
            for a, b in ((SLOT + 1, 4), (SLOT + 2, reg & 255), (SLOT + 3, v)):
                go(a, b)
            m.ptr = reg + 1
            last = status
            if last and ch.draw(2, "look"):
                go(SLOT + 2, 3)
                expect(go(SLOT + 3), last, "the socket's status register")
                m.ptr = 0x404
        if m.ptr != 0x404:
            go(SLOT + 1, 4)
            go(SLOT + 2, 3)
            expect(go(SLOT + 3), last, "the socket's status register")
            m.ptr = 0x404
    elif kind == "mode":
        v = ch.pick((3, 2), "v")
        go(SLOT, v)
        expect(go(SLOT), v, "the mode register")
    elif kind in ("ram-write", "ram-read"):
        lo, hi = ch.pick(RAM, "where")
        addr = ch.pick((lo, hi, None), "edge")
        if addr is None:
            addr = lo + ch.draw(hi - lo + 1, "addr")
        if kind == "ram-write":
            v = ch.draw(256, "v")
            go(addr, v)
            m.ram[addr] = v
        expect(go(addr), m.ram[addr], "memory at $%04X" % addr)
    elif kind == "text":
        addr = 0x400 + ch.draw(0x400, "addr")
        v = ch.draw(256, "v")
        go(addr, v)
        m.ram[addr] = v
        expect(go(addr), v, "the text page at $%04X" % addr)
    elif kind == "rom-write":
        lo, hi = ch.pick(READ_ONLY, "where")
        addr = ch.pick((lo, hi, None), "edge")
        if addr is None:
            addr = lo + ch.draw(hi - lo + 1, "addr")
        must_trap(addr, m.ram[addr] ^ ch.pick((0xff, 1, 0), "flip"), "a write to the ROM at $%04X" % addr)
        expect(go(addr), m.ram[addr], "the ROM at $%04X" % addr)
    elif kind == "undefined":
        addr = ch.pick(UNDEFINED, "addr")
        must_trap(addr, ch.pick((None, 0, 0x80, 255), "value"), "an access to $%04X" % addr)
    elif kind == "speaker":
        go(0xc030, None if ch.draw(2, "read") else 0)


def tail(log):
    return "; ".join(log[-12:])


def program(run, r, log):
    """A program of status reads, switch changes and port reads, run by the emulator's own loop."""
    ch, m = run.ch, r.m
    code, want = [], []
    for _ in range(ch.range(1, 12, "len")):
        k = ch.draw(4, "what")
        if k == 0:
            n = ch.pick([x for x in sorted(SWITCHES) if x not in UNIMPLEMENTED], "switch")
            on = ch.draw(2, "on")
            code += [0x8d, SWITCHES[n][on] & 255, 0xc0]
            m.sw[n] = bool(on)
            log.append("turn %s %s" % (n, "on" if on else "off"))
        elif k == 1:
            n = ch.pick([x for x in sorted(SWITCHES) if m.sw[x] is not None], "switch")
            code += [0xad, SWITCHES[n][2] & 255, 0xc0, 0x29, 0x80,
                     0x8d, (OUT + len(want)) & 255, OUT >> 8]
            want.append((0x80 if m.sw[n] else 0, "status of %s" % n))
        elif k == 2 and 0x4000 <= m.ptr < 0x7fff and m.ptr != 0x5fff:
            code += [0xad, (SLOT + 3) & 255, 0xc0, 0x8d, (OUT + len(want)) & 255, OUT >> 8]
            want.append((m.card[m.ptr], "card memory $%04X" % m.ptr))
            m.ptr += 1
        else:
            hi, lo = ch.range(0x40, 0x7e, "hi"), ch.draw(256, "lo")
            order = [(0xa9, hi, 0x8d, (SLOT + 1) & 255, 0xc0), (0xa9, lo, 0x8d, (SLOT + 2) & 255, 0xc0)]
            if ch.draw(2, "low-first"):
                order.reverse()
            code += [b for o in order for b in o]
            m.ptr = hi << 8 | lo
            log.append("point to $%04X" % m.ptr)
    end = CODE + len(code)
    code += [0x4c, end & 255, end >> 8]
    r.a.memory.write(CODE, code)
    m.ram[CODE:CODE + len(code)] = bytes(code)
    try:
        r.a.Run(CODE)
    except Exception as e:
        raise Violation("trapped", "a program using only defined locations is stopped: %s: %s; "
                        "history: %s" % (type(e).__name__, e, tail(log)))
    run.count("programs")
    for i, (w, what) in enumerate(want):
        g = r.a.memory[OUT + i]
        m.ram[OUT + i] = g
        if g != w:
            raise Violation("program", "a program reads %s as $%02X instead of $%02X; history: %s" % (
                what, g, w, tail(log)))


def scenario(run):
    ch = run.ch
    r = Rig(run)
    log = []
    n = ch.pick((30, 5, 150), "accesses")
    for _ in range(n):
        if ch.chance(1, 10, "program"):
            program(run, r, log)
        else:
            step(run, r, log)
    run.count("accesses", len(log))
    run.note(*log)
    # everything that was not written is as it was
    for lo, hi in RAM + ROM:
        g = bytes(r.a.memory[a] for a in (lo, hi, (lo + hi) // 2))
        if g != bytes(m for m in (r.m.ram[lo], r.m.ram[hi], r.m.ram[(lo + hi) // 2])):
            raise Violation("memory", "memory around $%04X changed without being written" % lo)
    run.sim_ns = r.a.cpu.processorCycles * 980
    run.nontrivial = len(log) > 20
    run.state(tuple(x.split(" =")[0] for x in log))
