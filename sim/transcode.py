"""Runs the real transcoder (main.main and everything below it) under the simulator."""
import os
import random
import shutil
import sys
import tempfile

import numpy as np

import media as media_mod
from core import Violation
from env import E
from kernel import Kernel, Deadlock, StepBudget
from osfault import OSSim

TOOL = "/usr/local/bin/bmp2dhr"


class Spec:
    mode = "DHGR"
    palette = "NTSC"
    every_n = 1
    bitrate = 14700
    normalization = 1.0
    max_mb = 0
    switch_den = 0
    demote = False
    random_seed = 0
    name = "clip.mp4"
    prior_output = None
    output = "out.a2m"      # None: let the transcoder choose
    relative = None         # "" or "./": the user names the files relative to their directory
    pid = 4000              # process number the transcoder sees


class Result:
    pass


def scratch():
    d = tempfile.mkdtemp(prefix="run", dir=os.path.join(os.environ["VERIF_BUILD"], "runs"))
    return d


def run_transcode(run, spec, m, root, record=None, plan=None, before=None, limit_ns=None,
                  kernel=None, ops=None):
    """Transcode media m in directory root.  record(movie, op) is called for every
    operation the encoder yields; ops(movie), if given, replaces the encoder's operations
    (framing, file output and everything else stay real).  Returns Result(exc, stream, deadlock)."""
    ch = run.ch
    k = kernel or Kernel(ch, run, switch_den=spec.switch_den)
    k.demote = k.demote or spec.demote
    res = Result()
    res.kernel = k
    res.movie = None
    src = os.path.join(root, spec.name)
    if not os.path.exists(src):
        os.makedirs(os.path.dirname(src), exist_ok=True)
        with open(src, "wb") as f:
            f.write(b"media")
    out = os.path.join(root, spec.output or os.path.splitext(spec.name)[0] + ".a2m")
    if spec.prior_output is not None:
        with open(out, "wb") as f:
            f.write(spec.prior_output)
    m.point = k.point
    m.install(E.skv, E.ar)
    s = OSSim(root, k, run, plan, tools={TOOL: m.bmp2dhr})
    res.os = s
    Movie = E.movie.Movie
    real_encode = Movie.encode

    def encode(self, *a, **kw):
        res.movie = self
        for op in (real_encode(self, *a, **kw) if ops is None else ops(self)):
            if record is not None:
                record(self, op)
            yield op
    args = arguments(spec, src, out) if spec.relative is None else \
        arguments(spec, spec.relative + spec.name, spec.relative + (spec.output or ""))
    random.seed(spec.random_seed)
    np.random.seed(spec.random_seed)
    res.deadlock = res.exc = None
    ids = identity(spec.pid)
    cwd = os.getcwd()
    if spec.relative is not None:
        os.chdir(root)
    k.install()
    s.install()
    Movie.encode = encode
    if before:
        before(k, s)
    try:
        t = k.spawn(lambda: E.main.main(args), "main")
        try:
            k.run_until_done(t, limit_ns)
        except Deadlock as e:
            res.deadlock = str(e)
        res.exc = t.exc
    finally:
        Movie.encode = real_encode
        k.shutdown()
        s.uninstall()
        k.uninstall()
        ids()
        os.chdir(cwd)
    res.stream = open(out, "rb").read() if os.path.exists(out) else None
    run.count("preemption_points", k.steps)
    run.count("fs_ops", s.n)
    return res


def identity(pid):
    """What a process is told about itself: its number and its random temporary names."""
    rng = random.Random(pid)
    saved = os.getpid, os.urandom, tempfile._name_sequence

    class Names:
        def __iter__(self):
            return self

        def __next__(self):
            return "%d_%06d" % (pid, rng.randrange(10 ** 6))
    os.getpid = lambda: pid
    os.urandom = lambda n: bytes(rng.getrandbits(8) for _ in range(n))
    tempfile._name_sequence = Names()

    def undo():
        os.getpid, os.urandom, tempfile._name_sequence = saved
    return undo


def arguments(spec, src, out):
    argv = [src, "--max_output_mb", repr(spec.max_mb), "--audio_bitrate", str(spec.bitrate),
            "--every_n_video_frames", str(spec.every_n), "--video_mode", spec.mode,
            "--palette", spec.palette]
    if spec.output is not None:
        argv += ["--output", out]
    if spec.normalization is not None:
        argv += ["--audio_normalization", repr(spec.normalization)]
    try:
        return E.main.parser.parse_args(argv)
    except SystemExit:
        raise Violation("usage", "the transcoder rejects the arguments %s" % argv[1:])


def must_succeed(res, what="transcoding a valid input"):
    if res.deadlock:
        raise Violation("hang", "%s never finishes: %s" % (what, res.deadlock))
    if isinstance(res.exc, StepBudget):
        raise Violation("hang", "%s exceeds its step budget" % what)
    if res.exc is not None:
        import traceback
        tb = traceback.extract_tb(res.exc.__traceback__)
        last = next((f for f in reversed(tb) if E_repo(f.filename)), tb[-1] if tb else None)
        raise Violation("crash", "%s raised %s: %s (at %s)" % (
            what, type(res.exc).__name__, res.exc,
            "%s:%s" % (os.path.basename(last.filename), last.name) if last else "?"))


def E_repo(fn):
    import env
    return fn.startswith(env.REPO)


# ---- picture generators (raw screen content, holes zero) ----

def blank():
    return bytes(8192)


def solid(b):
    a = np.zeros(8192, dtype=np.uint8)
    a[media_mod.VISIBLE] = b
    return a.tobytes()


def sparse(rng, n, top):
    a = np.zeros(8192, dtype=np.uint8)
    for _ in range(n):
        a[media_mod.VISIBLE[rng.randrange(len(media_mod.VISIBLE))]] = rng.randrange(top)
    return a.tobytes()


def blocks(rng, n, top):
    """Runs of equal or striped bytes on a few rows."""
    a = np.zeros(8192, dtype=np.uint8)
    V = media_mod.VISIBLE
    for _ in range(n):
        i = rng.randrange(len(V))
        ln = rng.randrange(1, 60)
        c1 = rng.randrange(top)
        c2 = c1 if rng.random() < .5 else rng.randrange(top)
        for j in range(i, min(len(V), i + ln)):
            a[V[j]] = c1 if j % 2 else c2
    return a.tobytes()


def greys(rng, n, top):
    """Runs of the two greys and palette-bit twins: visually equal, different bytes."""
    pats = ([0x2a, 0x55, 0x00, 0x7f] if top == 128 else
            [0x2a, 0x55, 0xaa, 0xd5, 0x00, 0x80, 0x7f, 0xff])
    a = np.zeros(8192, dtype=np.uint8)
    V = media_mod.VISIBLE
    for _ in range(n):
        i = rng.randrange(len(V)) if rng.random() < .7 else 0
        ln = rng.randrange(1, 80)
        c1, c2 = rng.choice(pats), rng.choice(pats)
        for j in range(i, min(len(V), i + ln)):
            a[V[j]] = c1 if j % 2 else c2
    return a.tobytes()


def noise(rng, n, top):
    a = np.zeros(8192, dtype=np.uint8)
    V = media_mod.VISIBLE
    r = np.random.RandomState(rng.randrange(1 << 30))
    lo = rng.randrange(len(V))
    hi = min(len(V), lo + n)
    a[V[lo:hi]] = r.randint(0, top, size=hi - lo)
    return a.tobytes()


GENS = [("blank", lambda rng, n, top: blank()), ("solid", lambda rng, n, top: solid(rng.randrange(top))),
        ("sparse", sparse), ("blocks", blocks), ("greys", greys), ("noise", noise)]


def gen_picture(ch, rng, top, weights, size):
    kind = ch.weighted(weights, "picture")
    f = dict(GENS)[kind]
    return kind, f(rng, size, top)


def nudge(rng, b, n, top):
    """The same picture with single dots turned on or off, or a palette bit: the smallest
    differences there are."""
    a = np.frombuffer(b, dtype=np.uint8).copy()
    V = media_mod.VISIBLE
    lit = V[a[V] != 0]
    for _ in range(n):
        if len(lit) and rng.random() < .9:
            i = lit[rng.randrange(len(lit))]
        else:
            i = V[rng.randrange(len(V))]
        a[i] ^= 1 << rng.randrange(7 if top == 128 else 8)
    return a.tobytes()


def make_media(run, spec, npics, nframes, weights, size, rng, holes=False, nudged=None):
    """Pictures for the spec's mode/palette, random frame order."""
    ch = run.ch
    m = media_mod.Media()
    top = 128 if spec.mode == "DHGR" else 256
    palv = {"IIGS": 0, "NTSC": 5}[spec.palette]
    kinds = []
    for i in range(npics):
        kind, main = gen_picture(ch, rng, top, weights, size)
        _, aux = gen_picture(ch, rng, top, [(kind, 3)] + weights, size) \
            if spec.mode == "DHGR" else (None, blank())
        if nudged and i and ch.chance(nudged[0], nudged[1], "nudged"):
            kind = "nudged"
            n = ch.pick((size, 5, 1), "dots")
            main, aux = m.pictures[(i, spec.mode, palv)]
            main = nudge(rng, main, n, top)
            aux = nudge(rng, aux, n, top) if spec.mode == "DHGR" else aux
        if holes:
            main, aux = with_holes(rng, main), with_holes(rng, aux)
        m.pictures[(i + 1, spec.mode, palv)] = (main, aux)
        kinds.append(kind)
    m.frames = [1 + (i if i < npics else ch.draw(npics, "frame")) for i in range(nframes)]
    m.kinds = kinds
    return m


def with_holes(rng, b):
    """The converter's files carry arbitrary bytes in the screen holes."""
    a = np.frombuffer(b, dtype=np.uint8).copy()
    n = int(media_mod.HOLE_MASK.sum())
    r = np.random.RandomState(rng.randrange(1 << 30))
    a[media_mod.HOLE_MASK] = r.randint(0, 128, size=n)
    return a.tobytes()
