"""C07: pausing, resuming, quitting and resetting at any instant never corrupt playback."""
import e2e
import play
from core import Violation
from env import load_transcoder
from play import MS, SEC

SIZES = ((300, 2), (1500, 3), (4000, 2))


def setup(tier):
    load_transcoder()


def scenario(run):
    ch = run.ch
    kind, spec, data = e2e.any_stream(run, SIZES, real=(1, 8))
    lvl = ch.weighted([(0, 2), (1, 1), (2, 1)], "net")
    cfg = play.fault_config(ch, lvl)
    nominal_ms = 300 + len(data) // 7 * 73 // 1000
    nkeys = ch.draw(7, "keys")
    keys = []
    for _ in range(nkeys):
        # after start-up (100 cycles), to a resolution of one cycle
        t = 100000 + ch.draw(max(1, nominal_ms + 500), "key-ms") * MS + ch.draw(1000, "key-us") * 1000
        keys.append((t, ch.draw(128, "code")))
        if ch.chance(1, 4, "long-pause"):
            t2 = t + ch.pick((2, 20, 130, 1000, 4000), "pause-s") * SEC + ch.draw(1 << 20, "us") * 1000
            keys.append((t2, ch.draw(128, "code")))
    keys.sort()
    reset_at = None
    if ch.chance(1, 4, "reset"):
        reset_at = 100000 + ch.draw(nominal_ms + 300, "reset-ms") * MS + ch.draw(1000, "reset-us") * 1000
    end_reset = ch.chance(1, 3, "reset-at-end")
    log = []       # (cycle, "key"/...)
    with e2e.Session(run, data, cfg=cfg, until=8 * SEC, containment=False) as p:
        p.start_server()
        p.k.clock_jumps(60 * 10 ** 9)
        ap = p.power_on()

        def press(code):
            if not ap.halted and p.ended_at is None:
                log.append((ap.now() // 1000, ap.kbd >> 7, p.paused(), len(ap.ops)))
                ap.key(code)
                run.count("fault:key")
        for t, code in keys:
            p.k.at(t, lambda code=code: press(code))
        last = max([t for t, _ in keys] + [0])

        def unpause():
            if p.ended_at is None and not ap.halted:
                if p.paused():
                    press(0x20)
                p.k.after(500 * MS, unpause)
        if keys:
            p.k.at(last + 500 * MS, unpause)
        did_reset = [False]
        if reset_at is not None:
            def reset():
                if not ap.halted:
                    did_reset[0] = True
                    run.count("fault:reset")
                    run.note("reset at", ap.now(), "ops", len(ap.ops), "ended", p.ended_at)
                    ap.reset()
            p.k.at(reset_at, reset)
        bound = last + 400 * SEC
        p.advance(bound, lambda: p.ended_at is not None or ap.halted or did_reset[0])
        exp = play.expected_ops(data, p.ops)
        f = p.server_failed()
        if f:
            raise Violation("server-died", "the server ended: %r" % (f,))
        if did_reset[0]:
            p.advance(p.k.now + 2 * SEC, lambda: ap.halted)
            if ap.halted != "quit":
                raise Violation("reset", "after a reset at %.3f ms the player does not return to "
                                "the operating system (%s)" % (reset_at / 1e6, ap.halted))
            play.check_trace(ap, exp, False)
            outcome = "reset"
        else:
            if p.ended_at is None:
                raise Violation("stuck", "after the last key at %.3f s the player has not finished "
                                "by %d s: %s, %d of %d bytes read, paused %s" % (
                                    last / 1e9, p.k.now // SEC, ap.halted or "running",
                                    p.chip.nread, len(data), p.paused()))
            play.check_trace(ap, exp, True)
            check_pauses(run, p, ap, log)
            # the end of the video waits for a key
            t = p.k.now + ch.pick((0, 1, 1000, 100000), "wait-ms") * MS + ch.draw(2000, "us") * 1000
            p.advance(t, lambda: ap.halted)
            if ap.halted and not did_reset[0]:
                raise Violation("early-exit", "the player leaves the finished video (%s) before "
                                "any key" % ap.halted)
            if did_reset[0]:
                end_reset = True
            elif end_reset:
                ap.reset()
            else:
                p.advance(p.k.now + MS, lambda: ap.halted)     # strobe cleared at the end
                ap.key(ch.draw(128, "code"))
            p.advance(p.k.now + 2 * SEC, lambda: ap.halted)
            if ap.halted != "quit":
                raise Violation("exit", "%s after the end of the video does not return to the "
                                "operating system (%s)" % (
                                    "a reset" if end_reset else "a key", ap.halted))
            outcome = "ended"
        run.sim_ns += p.k.now
    run.note(kind, len(data), outcome, "keys", len(log), "strobes", len(ap.strobes))
    run.digest(repr(ap.strobes))
    run.count("pauses", len(ap.strobes) // 2)
    run.nontrivial = len(log) > 0 or did_reset[0]
    run.state(outcome, tuple(ap.strobes[:8]), len(log))


def check_pauses(run, p, ap, log):
    """Every key takes effect at the next hand-over; every pause lasts until the next key."""
    acks = [c for c, a, _ in ap.ops if p.ops.by_addr[a][0] == "ack"]
    end = p.ended_at // 1000
    strobes = [c for c in ap.strobes if c <= end]
    opc = [c for c, _, _ in ap.ops]
    import bisect
    # replay the keyboard: pending flag, alternately "pause" and "resume" strobes
    ev = [(c, 0, pend, paused) for c, pend, paused, _ in log] + [(c, 1, 0, 0) for c in strobes]
    ev.sort()
    pending = None
    state = "play"
    paused_at = None
    for c, what, pend, was_paused in ev:
        if what == 0:
            pending = c if pending is None else pending
            continue
        if pending is None:
            raise Violation("phantom-key", "the player acts on a key that was not pressed (cycle "
                            "%d)" % c)
        if state == "play":
            n = bisect.bisect_left(acks, c) - bisect.bisect_right(acks, pending)
            if n > 1:
                raise Violation("late-pause", "a key pressed at cycle %d pauses only at cycle %d, "
                                "%d buffer hand-overs later" % (pending, c, n))
            state = "pause"
            paused_at = c
        else:
            n = bisect.bisect_left(opc, c) - bisect.bisect_right(opc, paused_at)
            if n:
                raise Violation("not-paused", "%d operations executed during a pause" % n)
            if c - pending > 100 and pending > paused_at:
                raise Violation("late-resume", "a key pressed during a pause at cycle %d resumes "
                                "only at cycle %d" % (pending, c))
            i = bisect.bisect_right(opc, c)
            if i < len(opc) and opc[i] - c > 300:
                raise Violation("late-resume", "playback resumes %d cycles after the key" % (
                    opc[i] - c))
            state = "play"
        pending = None
    if state == "pause":
        raise Violation("early-end", "end of video during a pause")
    if pending is not None:
        n = len(acks) - bisect.bisect_right(acks, pending)
        if n > 1:
            raise Violation("lost-key", "a key pressed at cycle %d is ignored although %d buffer "
                            "hand-overs follow" % (pending, n))
