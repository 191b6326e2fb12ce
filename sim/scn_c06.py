"""C06: connection set-up survives transient failures and gives up cleanly."""
import e2e
import play
from core import Violation
from env import load_transcoder
from net import MS, Seg
from play import SEC

KINDS = [("rst", 4), ("blackhole", 1), ("no-synack", 1), ("rst-for-synack", 3)]


def setup(tier):
    load_transcoder()


def scenario(run):
    ch = run.ch
    kind, spec, data = e2e.any_stream(run, ((20, 3), (600, 3), (1500, 1)), real=(1, 12))
    nfail = ch.weighted([(0, 2), (1, 2), (3, 2), (5, 2), (6, 3)], "failures")
    plan = [ch.weighted(KINDS, "outcome") for _ in range(nfail)]
    softloss = ch.draw(4, "lost-handshake-packets")
    delay = ch.pick((0, 0, 50, 400), "handshake-delay") * MS
    refuse_open = ch.draw(7, "refused-open") if ch.chance(1, 5, "open-fails") else None
    server_at = 0
    if not plan and refuse_open is None and ch.chance(1, 3, "server-late"):
        server_at = ch.pick((60, 450, 330, 360, 2000), "server-at") * MS
    cycles = 0
    if server_at == 0 and refuse_open is None and ch.chance(1, 3, "power-cycle"):
        cycles = 1 + ch.draw(2, "cycles")
    cfg = play.fault_config(ch, 0)
    if refuse_open is not None:
        cfg[2]["open_refusals"] = [0] * refuse_open + [1]
    with e2e.Session(run, data, cfg=cfg, containment=False) as p:
        lost = [softloss]
        base = [0]

        def flt(seg):
            k = p.chip.connects - base[0] - 1
            out = plan[k] if 0 <= k < len(plan) else "ok"
            if "R" in seg.flags:
                return False
            syn, synack = "S" in seg.flags and seg.ack is None, "S" in seg.flags and seg.ack is not None
            if not (syn or synack):
                return False
            if out == "ok":
                if lost[0] and (syn or synack):
                    lost[0] -= 1
                    run.count("fault:handshake-loss")
                    return True
                if synack and delay:
                    run.count("fault:handshake-delay")
                    p.k.after(delay, lambda: p.link.deliver(seg))
                    return True
                return False
            if out == "blackhole" or (out == "no-synack" and synack):
                run.count("fault:" + out)
                return True
            if out == "rst" and syn or out == "rst-for-synack" and synack:
                run.count("fault:" + out)
                a = seg.seq + 1 if syn else seg.ack
                r = Seg(play.SERVER_IP, 1977, play.APPLE_IP, 0xC000, 0, a, "RA", b"", 0)
                p.k.after(300000, lambda: p.link.deliver(r))
                return True
            return False
        p.link.drop_filter = flt
        if server_at:
            p.k.at(server_at, p.start_server)
        else:
            p.start_server()
        for i in range(cycles):
            # an earlier session of the same viewer, cut off in the middle of the movie
            save, plan[:] = list(plan), []
            p.power_on()
            cut = p.k.now + ch.pick((300, 320, 700, 1500), "cut-at") * MS + ch.draw(40, "cut") * MS
            p.advance(cut, lambda: p.apple.halted)
            run.count("fault:power-cycle")
            run.note("power cycle at", p.k.now, "bytes read", p.chip.nread)
            plan[:] = save
            p.chip.chip_reset()
            p.k.now += ch.pick((0, 50, 3000), "off") * MS
            base[0] = p.chip.connects
            p.chip.syns = []
            p.chip.opens = 0
            p.ended_at = None
            lost[0] = softloss
        ap = p.power_on()
        p.chip.est = []
        nominal = len(data) // 7 * 75000 + 600 * MS
        p.advance(p.k.now + 6 * 40 * SEC + 20 * SEC + 3 * nominal,
                  lambda: p.ended_at is not None or ap.halted)
        run.sim_ns += p.k.now
        attempts = p.chip.connects - base[0]
        txt = ap.text()
        run.note("plan", plan, "attempts", attempts, "halted", ap.halted, "text", txt)
        f = p.server_failed()
        if f:
            raise Violation("server-died", "the server ended: %r" % (f,))
        for t, src, sport, dst, dport in p.chip.syns:
            if (src, dst, dport) != ("10.0.65.2", "10.0.0.1", 1977):
                raise Violation("address", "the player connects from %s to %s:%d" % (
                    src, dst, dport))
        exp = play.expected_ops(data, p.ops)
        if attempts > 6:
            raise Violation("attempts", "%d connection attempts" % attempts)
        if refuse_open is not None and (refuse_open <= nfail and refuse_open < 6):
            if ap.halted != "brk" or "COULD NOT OPEN SOCKET" not in txt or ap.ops:
                raise Violation("open-refused", "the card refuses to open a socket: player %s, "
                                "text %r, %d operations executed" % (ap.halted, txt, len(ap.ops)))
            outcome = "open-refused"
        elif nfail >= 6 or (server_at and attempts == 6 and not ap.ops):
            if ap.halted != "brk" or "COULD NOT CONNECT" not in txt or ap.ops:
                raise Violation("give-up", "six attempts failed: player %s, text %r, %d "
                                "operations executed" % (ap.halted, txt, len(ap.ops)))
            if attempts != 6:
                raise Violation("attempts", "gave up after %d attempts" % attempts)
            outcome = "gave-up"
        else:
            if p.ended_at is None:
                raise Violation("not-playing", "attempt %d should succeed (%s), but after %d "
                                "attempts and %d s: %s, text %r, %d of %d bytes read" % (
                                    nfail + 1, plan, attempts, p.k.now // SEC,
                                    ap.halted or "running", txt, p.chip.nread, len(data)))
            play.check_trace(ap, exp, True)
            if "COULD NOT" in txt:
                raise Violation("not-playing", "error message %r during playback" % txt)
            outcome = "played"
            if not server_at and attempts != nfail + 1 and not cycles:
                raise Violation("attempts", "%d attempts for %d failures" % (attempts, nfail))
    run.digest(txt)
    run.count("outcome:" + outcome)
    run.count("attempts", attempts)
    run.nontrivial = nfail + softloss + delay + cycles + server_at > 0 or refuse_open is not None
    run.state(outcome, tuple(plan), softloss, delay, refuse_open, server_at, cycles)
