"""C17: an interrupted table build never leaves a wrong table that looks finished."""
import errno
import os
import shutil
import sys
import tempfile

import numpy as np

import env
import proc
from core import Violation
from osfault import OSSim

INT = {"n": 0, "at": None, "how": None}     # interruption of the computation itself
BITS = 5        # tables of 2^10 entries instead of 2^26 and 2^28: same code, same files


def setup(tier):
    global screen, palette, mdt, KEYS, WANT
    sys.path.insert(0, os.path.join(env.REPO, "transcoder"))
    os.chdir(os.path.join(env.build_dir(), "cwd_fresh"))
    import screen
    import palette
    import make_data_tables as mdt
    import dist
    for c in (screen.HGRBitmap, screen.DHGRBitmap):
        c.MASKED_BITS = np.uint64(BITS)
    real = mdt.edit_distance
    memo = {}

    def edit_distance(edp, a, b, error=False):
        INT["n"] += 1
        if INT["n"] == INT["at"]:
            if INT["how"] == "kill":
                os._exit(proc.KILLED)
            raise {"interrupt": KeyboardInterrupt, "memory": MemoryError}[INT["how"]]()
        c = edp.__dict__.get("_sim_key")
        if c is None:
            c = edp._sim_key = hash(edp.substitute_costs.tobytes())
        k = (c, a, b, error)
        r = memo.get(k)
        if r is None:
            r = memo[k] = real(edp, a, b, error)
        return r
    mdt.edit_distance = edit_distance      # the same values, without recomputing them in every run
    if hasattr(mdt, "compute_diff_matrix"):
        real_dm = mdt.compute_diff_matrix
        dms = {}

        def compute_diff_matrix(pal):
            if pal not in dms:
                dms[pal] = real_dm(pal)
            return dms[pal].copy()
        mdt.compute_diff_matrix = compute_diff_matrix
    KEYS = [(c, p) for c in (screen.HGRBitmap, screen.DHGRBitmap) for p in palette.PALETTES]
    WANT = {}
    n = 1 << (2 * BITS)
    for c, p in KEYS:
        t = dist.table(c, p)
        WANT[(c, p)] = [np.array([r.one(k) for k in range(n)], dtype=np.uint16) for r in t]
    # fill the memo once, in a throw-away directory
    d = tempfile.mkdtemp(dir=os.path.join(env.build_dir(), "runs"))
    os.makedirs(d + "/transcoder")
    os.chdir(d)
    try:
        mdt.main()
    except Exception:
        pass                    # judged in the runs
    finally:
        os.chdir(os.path.join(env.build_dir(), "cwd_fresh"))
        shutil.rmtree(d, ignore_errors=True)


def fault_plan(ch, bufsize):
    kind = ch.weighted([("kill", 5), ("full", 3), ("err", 3), ("short", 1), ("interrupt", 2),
                        ("computing", 3)], "fault")
    if kind == "computing":
        total = sum((1 << BITS) * ((1 << BITS) - 1) // 2 * len(c.BYTE_MASKS) for c, _ in KEYS)
        return ch.pick(("kill", "interrupt", "memory"), "how"), 1 + ch.draw(total, "pair")
    i0 = ch.draw(70 if bufsize < 500 else 26, "at")
    if kind == "kill":
        part = ch.pick((0, 1, 200), "partial")

        def plan(op, name, i, size):
            if part and i == i0 and op == "write" and size and size > part:
                return ("short", part)
            return ("kill",) if i >= i0 else None
        return kind, plan
    if kind == "full":
        part = ch.pick((0, 1, 200), "partial")
        room = ch.chance(1, 4, "room-again")

        def plan(op, name, i, size):
            if i < i0 or op not in ("write", "mkdir", "fsync") or (room and i > i0 + 2):
                return None
            if i == i0 and part and op == "write" and size and size > part:
                return ("short", part)
            return ("err", errno.ENOSPC)
        return kind, plan
    if kind == "short":
        n = ch.pick((1, 100), "n")
        return kind, lambda op, name, i, size: ("short", n) if op == "write" and i >= i0 else None
    if kind == "interrupt":
        return kind, lambda op, name, i, size: ("exc", KeyboardInterrupt()) if i == i0 else None
    e = ch.pick((errno.EIO, errno.EACCES, errno.EDQUOT), "errno")
    return kind, lambda op, name, i, size: ("err", e) if i == i0 else None


def generate(root, plan, bufsize, kind=None):
    """The generator in its own process."""
    def child():
        os.chdir(root)
        INT["n"], INT["at"] = 0, None
        if isinstance(plan, int):
            INT["at"], INT["how"] = plan, kind
        s = OSSim(root, plan=None if isinstance(plan, int) else plan)
        s.bufsize = bufsize
        s.install()
        exc = None
        try:
            mdt.main()
        except (Exception, KeyboardInterrupt) as e:
            exc = "%s: %s" % (type(e).__name__, e)
        except SystemExit as e:
            exc = "exit %s" % e.code
        import gc
        gc.collect()            # as at the end of the process
        gc.collect()
        s.uninstall()
        fired = s.fired or ([kind] if INT["at"] and INT["n"] >= INT["at"] else [])
        return {"exc": exc, "ops": s.oplog, "fired": fired}
    return proc.run_child(child, what="the table generator")


def consult(root):
    """What an encoder started now finds, per table: "error ...", "ok" or "wrong ..."."""
    def child():
        os.chdir(root)
        out = []
        for c, p in KEYS:
            what = "%s %s" % (c.NAME, p.name)
            try:
                t = c.edit_distances(p)
            except Exception as e:
                out.append([what, "error", type(e).__name__])
                continue
            bad = None
            if t is None:
                bad = "no table and no error"
            else:
                for o, w in enumerate(WANT[(c, p)]):
                    try:
                        g = np.asarray(t[o])
                    except Exception as e:
                        bad = "byte offset %d missing" % o
                        break
                    if g.shape != w.shape or not np.array_equal(g, w):
                        bad = "%d of %d values differ at byte offset %d" % (
                            int((g != w).sum()) if g.shape == w.shape else -1, len(w), o)
                        break
            out.append([what, "wrong" if bad else "ok", bad])
        return out
    return proc.run_child(child, what="loading the tables")[1]


def scenario(run):
    ch = run.ch
    rng = ch.bulk("garbage")
    root = tempfile.mkdtemp(dir=os.path.join(env.build_dir(), "runs"))
    os.makedirs(root + "/transcoder")
    data = os.path.join(root, "transcoder/data")
    bufsize = ch.pick((512, 8192, 128), "buffer")
    n = ch.range(1, 3, "incarnations")
    damaged = 0
    try:
        before = ch.pick((None, "empty-dir", "complete", "damaged"), "before")
        if before is not None:
            os.makedirs(data)
        if before in ("complete", "damaged"):
            code, r = generate(root, None, 8192)
            if r["exc"]:
                raise Violation("generator-fails", "a run without faults fails: %s" % r["exc"])
        if before == "damaged":
            for f in sorted(os.listdir(data)):
                p = os.path.join(data, f)
                how = ch.pick(("keep", "cut", "empty", "garbage"), "damage")
                with open(p, "rb") as f:
                    b = f.read()
                if how == "cut":
                    b = b[:ch.draw(len(b), "cut")]
                elif how == "empty":
                    b = b""
                elif how == "garbage":
                    b = bytes(rng.getrandbits(8) for _ in range(300))
                with open(p, "wb") as f:
                    f.write(b)
                damaged += how != "keep"
                run.count("damage:" + how)
        for j in range(n + 1):
            kind, plan = "none", None
            if j < n:
                kind, plan = fault_plan(ch, bufsize)
            code, r = generate(root, plan, bufsize, kind)
            run.count("incarnations")
            if code == proc.KILLED:
                run.count("fault:kill")
                run.note("run", j, "killed")
            else:
                run.digest(repr(r["ops"]))
                run.note("run", j, kind, r["exc"], r["fired"][:3])
                if r["fired"]:
                    run.count("fault:" + kind)
                    run.count("fault_calls", len(r["fired"]))
                if r["exc"] and not r["fired"]:
                    raise Violation("generator-fails", "run %d fails although nothing is wrong: %s "
                                    "(before: %s)" % (j + 1, r["exc"], before))
            found = consult(root)
            run.note("tables", [x[1] for x in found])
            for what, st, detail in found:
                if st == "wrong":
                    raise Violation("wrong-table", "after run %d (%s) the encoder takes a wrong %s "
                                    "table: %s" % (j + 1, kind, what, detail))
                run.count("table_" + st)
                if st == "error" and j == n:
                    raise Violation("not-repaired", "running the generator again leaves the %s table "
                                    "unusable (%s)" % (what, detail))
                if st == "error" and code == 0 and not r["fired"] and plan is not None:
                    raise Violation("not-repaired", "an undisturbed run leaves the %s table "
                                    "unusable (%s)" % (what, detail))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    run.nontrivial = damaged > 0 or any(k.startswith("fault:") for k in run.stats)
    run.state(before, tuple(run.trace))
