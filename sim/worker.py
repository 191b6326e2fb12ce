"""Worker process: runs scenarios for a list of seeds, shrinks violations, replays files.

    worker.py run PROPERTY TIER SEED INDEX NWORKERS NRUNS WALL_S
    worker.py replay FILE
One JSON line per event on the original stdout; everything printed by the code under
test goes to /dev/null (or stderr with VERIF_VERBOSE).
"""
import gc
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
OUT = os.fdopen(os.dup(1), "w", buffering=1)
if os.environ.get("VERIF_VERBOSE"):
    os.dup2(2, 1)
else:
    _n = os.open(os.devnull, os.O_WRONLY)
    os.dup2(_n, 1)
import warnings  # noqa
warnings.simplefilter("ignore")

from core import Choices, HarnessError, Run, Violation  # noqa

_clock = time.monotonic
_sleep = time.sleep


def emit(d):
    OUT.write(json.dumps(d) + "\n")
    OUT.flush()


class CpuBudget(Exception):
    pass


def _on_cpu(sig, frame):
    raise CpuBudget()


def crash_of(e):
    """An exception raised by (or below) the code under test is a violation; one raised by
    the simulator is not."""
    import env
    tb = traceback.extract_tb(e.__traceback__)
    repo = [f for f in tb if f.filename.startswith(env.REPO + "/")]
    if not repo:
        return None
    if tb[-1].filename.startswith(env.VERIF + "/") and isinstance(
            e, (AttributeError, NotImplementedError, ImportError, AssertionError)):
        return None         # something a stub does not have
    return Violation("crash", "%s: %s (at %s:%s)" % (
        type(e).__name__, e, os.path.basename(repo[-1].filename), repo[-1].name))


def execute(scn, ch, tier, budget_s=None):
    """One simulated execution.  Returns (run, violation or None)."""
    run = Run(ch, tier)
    budget = budget_s or getattr(scn, "CPU_BUDGET_S", 150)
    signal.signal(signal.SIGPROF, _on_cpu)
    signal.setitimer(signal.ITIMER_PROF, budget)
    try:
        scn.scenario(run)
        v = None
    except Violation as e:
        v = e
    except CpuBudget:
        v = Violation("hang", "no end after %d s of processor time (endless loop)" % budget)
        run.stuck = True
    except HarnessError:
        raise
    except Exception as e:
        v = crash_of(e)
        if v is None:
            raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    if v is not None:
        run.note("VIOLATION", v.kind, v.detail)
    return run, v


def shrink(scn, tier, log, kind, wall):
    """Minimise a choice list while the same kind of violation persists."""
    t0 = _clock()
    best = list(log)
    tries = 0

    def fails(c):
        nonlocal tries
        tries += 1
        ch = Choices(replay=c)
        try:
            run, v = execute(scn, ch, tier)
        except Exception:
            return None
        if v is not None and v.kind == kind and not getattr(run, "stuck", False):
            used = ch.log
            while used and used[-1] == 0:
                used.pop()
            return used
        return None

    def left():
        return _clock() - t0 < wall
    r = fails(best)
    if r is None:
        return None, tries
    best = r
    improved = True
    while improved and left():
        improved = False
        # delete chunks, then zero chunks
        for op in ("del", "zero"):
            size = max(1, len(best) // 2)
            while size >= 1 and left():
                i = 0
                while i < len(best) and left():
                    if op == "del":
                        c = best[:i] + best[i + size:]
                    else:
                        if not any(best[i:i + size]):
                            i += size
                            continue
                        c = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                    r = fails(c)
                    if r is not None and (len(r), r) < (len(best), best):
                        best = r
                        improved = True
                    else:
                        i += size
                size //= 2
        # reduce values
        i = 0
        while i < len(best) and left():
            v = best[i]
            for nv in (v // 2, v - 1):
                if 0 <= nv < v:
                    c = list(best)
                    c[i] = nv
                    r = fails(c)
                    if r is not None and (len(r), r) < (len(best), best):
                        best = r
                        improved = True
                        break
            else:
                i += 1
                continue
            if i >= len(best):
                break
    return best, tries


def load(prop):
    return importlib.import_module("scn_" + prop.lower())


def do_run(prop, tier, seed, index, nworkers, nruns, wall):
    scn = load(prop)
    scn.setup(tier)
    t0 = _clock()
    i = index
    known = json.loads(os.environ.get("VERIF_KNOWN", "[]"))
    while i < nruns:
        if _clock() - t0 > wall:
            emit({"ev": "wall", "next": i})
            break
        rs = "%d/%s/%d" % (seed, prop, i)
        ch = Choices(seed=rs)
        c0 = _clock()
        try:
            run, v = execute(scn, ch, tier)
        except Exception as e:
            emit({"ev": "harness", "i": i, "seed": rs, "err": traceback.format_exc()[-3000:],
                  "choices": ch.log[:20000]})
            return
        d = {"ev": "run", "i": i, "seed": rs, "digest": run.h.hexdigest(), "stats": run.stats,
             "states": sorted(run.states), "nontrivial": run.nontrivial, "sim_ns": run.sim_ns,
             "cpu": round(_clock() - c0, 3), "draws": len(ch.log), "soft": run.soft}
        if i < 6:
            d["sample"] = run.sample or run.trace[:12]
        if v is not None and v.key in known:
            d["soft"] = run.soft + [[v.key, v.detail]]
            v = None
        emit(d)
        if v is not None:
            emit({"ev": "violation", "i": i, "seed": rs, "kind": v.kind, "detail": v.detail,
                  "choices": ch.log, "trace": run.trace[-200:]})
            best, tries = None, 0
            if not getattr(run, "stuck", False):
                best, tries = shrink(scn, tier, ch.log, v.kind,
                                     float(os.environ.get("VERIF_SHRINK_S", "45")))
            if best is not None:
                ch2 = Choices(replay=best)
                run2, v2 = execute(scn, ch2, tier)
                if v2 is not None:
                    emit({"ev": "shrunk", "i": i, "seed": rs, "kind": v2.kind,
                          "detail": v2.detail, "choices": best, "tries": tries,
                          "labels": ch2.labels[:len(best)], "digest": run2.h.hexdigest(),
                          "trace": run2.trace[-400:]})
            emit({"ev": "end"})
            OUT.flush()
            os._exit(0)
        if i % 16 == index % 16:
            gc.collect()
        i += nworkers
    emit({"ev": "end"})
    OUT.flush()
    os._exit(0)


def do_replay(path):
    rp = json.load(open(path))
    scn = load(rp["property"])
    scn.setup(rp["tier"])
    ch = Choices(replay=rp["choices"])
    run, v = execute(scn, ch, rp["tier"])
    emit({"ev": "replay", "violation": v is not None, "kind": v.kind if v else None,
          "detail": v.detail if v else None, "digest": run.h.hexdigest(),
          "trace": run.trace[-400:], "key": v.key if v else None})
    OUT.flush()
    os._exit(0)


if __name__ == "__main__":
    try:
        if sys.argv[1] == "run":
            do_run(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]),
                   int(sys.argv[6]), int(sys.argv[7]), float(sys.argv[8]))
        else:
            do_replay(sys.argv[2])
    except Exception:
        emit({"ev": "harness", "err": traceback.format_exc()[-3000:]})
        OUT.flush()
        os._exit(3)
