"""C01: the picture on the player's screen is the picture in the encoder's model."""
import e2e
import play
from core import Violation
from env import E, load_transcoder


def setup(tier):
    load_transcoder()


class Compare:
    """Steps the encoder's model along with the player's operations."""

    def __init__(self, rec, mode):
        self.rec = rec
        self.mode = mode
        self.model = [bytearray(8192), bytearray(8192)]
        self.bad = {}
        self.n = 0             # encoder operations absorbed (0 = header)
        self.apple = None
        self.checked = 0

    def attach(self, p):
        self.p = p
        self.apple = p.apple
        p.apple.on_display = self.display
        p.user_dispatch = self.dispatch

    def display(self, bank, a, v):
        self.touch(bank, a)

    def touch(self, bank, a):
        b = self.apple.bus
        real = (b.aux if bank else b.main)[0x2000 + a]
        if real != self.model[bank][a]:
            self.bad[(bank, a)] = (real, self.model[bank][a])
        else:
            self.bad.pop((bank, a), None)

    def absorb(self):
        for bank, a, v in self.rec.diffs[self.n]:
            self.model[bank][a] = v
            self.touch(bank, a)
        self.n += 1

    def dispatch(self, apple, t):
        """Called at the start of each player operation: everything before it is done."""
        op = self.p.ops.by_addr[t]
        if self.n == 0:
            self.absorb()                       # header: initial state
            self.initial()
        if self.bad:
            (bank, a), (real, want) = sorted(self.bad.items())[0]
            raise Violation("screen-differs", "after %d operations the %s screen byte $%04X is "
                            "$%02X on the player and $%02X in the encoder's model" % (
                                self.n - 1, ("main", "auxiliary")[bank], 0x2000 + a, real, want))
        self.switches()
        self.checked += 1
        if op[0] == "tick":
            if self.n >= len(self.rec.diffs):
                raise Violation("extra-operation", "the stream has more drawing operations than "
                                "the encoder produced")
            self.absorb()

    def initial(self):
        b = self.apple.bus
        for bank, mem in ((0, b.main), (1, b.aux)):
            if bank and self.mode != "DHGR":
                continue
            for a in range(8192):
                if mem[0x2000 + a] != self.model[bank][a]:
                    raise Violation("initial-screen", "the %s screen byte $%04X is $%02X when the "
                                    "first operation starts, $%02X in the encoder's model" % (
                                        ("main", "auxiliary")[bank], 0x2000 + a, mem[0x2000 + a],
                                        self.model[bank][a]))

    def switches(self):
        s = self.apple.sw
        d = self.mode == "DHGR"
        # with 80STORE on, PAGE2 steers writes and does not select the displayed page
        ok = (not s["text"] and s["hires"] and not s["mixed"] and
              (s["store80"] or not s["page2"]) and bool(s["dhires"] and s["col80"]) == d)
        if not ok:
            raise Violation("display-mode", "display switches %s while playing a %s movie" % (
                s, self.mode))


def scenario(run):
    ch = run.ch
    holes = ch.chance(1, 3, "holes")
    spec, m = e2e.movie(run, holes=holes, nudged=(1, 4))
    if ch.chance(1, 4, "limited"):
        spec.max_mb = ch.range(100, 20000, "limit") / 1048576.
    if ch.chance(1, 3, "every"):
        spec.every_n = ch.range(2, 3, "every_n")
    rec = e2e.Recorder()
    res = e2e.encode(run, spec, m, rec)
    cmp = Compare(rec, spec.mode)
    p = e2e.play_through(run, res.stream, setup=cmp.attach)
    exp = play.expected_ops(res.stream, p.ops)
    play.check_trace(p.apple, exp, True)
    run.digest(res.stream)
    run.digest(bytes(p.apple.bus.main))
    run.note(spec.mode, spec.palette, "ops", len(rec.diffs), "compared", cmp.checked, "end",
             p.ended_at)
    run.count("ops_compared", cmp.checked)
    run.count("banks_flipped", sum(1 for e in exp if e[2][0] == "ack"))
    stores = sum(1 for d in rec.diffs if d)
    run.count("ops_changing_screen", stores)
    run.nontrivial = stores > 0 and cmp.checked > 300
    run.state(spec.mode, spec.palette, tuple(m.kinds), len(res.stream) // 2048, bool(spec.max_mb))
