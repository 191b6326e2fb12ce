"""Helpers of the demonstrations: transcodes made-up movies with stand-in decoders.

Run with the repository as working directory.  All files go to a scratch directory.
"""
import os
import random
import shutil
import subprocess
import sys
import tempfile
import types

import warnings
warnings.simplefilter("ignore")
import numpy as np

REPO = os.getcwd()
sys.path.insert(0, os.path.join(REPO, "transcoder"))

SCRATCH = tempfile.mkdtemp(prefix="demo")
import atexit
atexit.register(shutil.rmtree, SCRATCH, True)

lib = types.ModuleType("librosa")
core = types.ModuleType("librosa.core")


def _to_mono(y):
    return np.mean(y, axis=0) if y.ndim > 1 else y


def _resample(y, orig_sr=None, target_sr=None, **kw):
    import scipy.signal
    if orig_sr == target_sr:
        return y
    n = int(np.ceil(y.shape[-1] * float(target_sr) / orig_sr))
    return scipy.signal.resample(y, n, axis=-1).astype(y.dtype)


core.to_mono = lib.to_mono = _to_mono
core.resample = lib.resample = _resample
lib.core = core
sys.modules["librosa"] = lib
sys.modules["librosa.core"] = core

import skvideo.io
import audioread


class Media:
    """frames: list of (main, aux) arrays of 8192 bytes; samples: channels x n int16."""
    frames = []
    rate = "30/1"
    samples = np.zeros((1, 3000), dtype=np.int16)
    samplerate = 14700
    on_frame = staticmethod(lambda i: None)
    on_audio = staticmethod(lambda pos: None)
    block = 4096
    converter = None        # (index, bmp path, mode) -> None to continue, or exit status


M = Media()


class Reader:
    def __init__(self, fn, *a, **kw):
        pass

    def nextFrame(self):
        for i in range(len(M.frames)):
            M.on_frame(i)
            yield np.tile(np.array([i % 32 * 8 + 4, i // 32 % 32 * 8 + 4, 0], dtype=np.uint8),
                          (6, 8, 1))

    def close(self):
        pass


class Sound:
    def __init__(self):
        self.channels = M.samples.shape[0]
        self.samplerate = M.samplerate
        self.duration = M.samples.shape[1] / M.samplerate

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def read_data(self, *a, **kw):
        raw = M.samples.T.astype("<i2").tobytes()
        for i in range(0, len(raw), M.block):
            M.on_audio(i)
            yield raw[i:i + M.block]

    __iter__ = read_data


skvideo.io.FFmpegReader = Reader
skvideo.io.ffprobe = lambda fn: {"video": {"@r_frame_rate": M.rate}}
audioread.audio_open = lambda fn, *a, **kw: Sound()
_call = subprocess.call


def write(path, data):
    with open(path, "wb") as f:
        f.write(bytes(bytearray(data)))


def bmp2dhr(args, *a, **kw):
    import PIL.Image
    bmp = args[1]
    with open(bmp, "rb") as f:
        px = PIL.Image.open(f).convert("RGB").getpixel((140, 96))
    i = int(round((px[0] - 4) / 8.0)) + 32 * int(round((px[1] - 4) / 8.0))
    mode = "DHGR" if "dhgr" in args else "HGR"
    if M.converter:
        r = M.converter(i, bmp, mode)
        if r is not None:
            return r
    main, aux = M.frames[i]
    base = os.path.splitext(bmp)[0]
    if mode == "HGR":
        write(base + "C.BIN", main)
    else:
        write(base + ".BIN", main)
        write(base + ".AUX", aux)
    return 0


subprocess.call = bmp2dhr
subprocess.run = lambda args, *a, **kw: subprocess.CompletedProcess(args, bmp2dhr(args))

import screen  # noqa
import main as main_mod  # noqa
import movie as movie_mod  # noqa

_DIST = {}


class Row:
    """A simple distance between masked values: 20 per differing bit."""

    def __init__(self, bits):
        self.bits = bits
        self.pop = np.array([bin(i).count("1") * 20 for i in range(1 << bits)], dtype=np.uint16)

    def __getitem__(self, ix):
        a = np.asarray(ix).astype(np.int64)
        r = self.pop[(a >> self.bits) ^ (a & ((1 << self.bits) - 1))]
        return r if isinstance(ix, np.ndarray) else np.uint16(r)


def distances(cls, palette_id):
    if cls.NAME not in _DIST:
        _DIST[cls.NAME] = [Row(int(cls.MASKED_BITS)) for _ in cls.BYTE_MASKS]
    return _DIST[cls.NAME]


screen.Bitmap.edit_distances = classmethod(distances)


def picture(seed, aux=True, density=None, high=False):
    r = np.random.RandomState(seed)
    out = []
    for _ in range(2):
        p = r.randint(0, 256 if high else 128, 8192).astype(np.uint8)
        if density is not None:
            p[r.random_sample(8192) > density] = 0
        out.append(p)
    return out[0], out[1] if aux else None


def blank():
    return np.zeros(8192, dtype=np.uint8), np.zeros(8192, dtype=np.uint8)


def arguments(*argv, name="clip.mp4", out="out.a2m"):
    src = os.path.join(SCRATCH, name)
    if not os.path.exists(src):
        write(src, b"media")
    return main_mod.parser.parse_args([src, "--output", os.path.join(SCRATCH, out)] + list(argv))


def quiet():
    if not os.environ.get("VERBOSE"):
        sys.stdout.flush()
        sys.stdout = open(os.devnull, "w")


_calls = [0]


def transcode(*argv, keep=False, seed=0, **kw):
    if not keep:        # a source of its own, so that no cached picture is found
        _calls[0] += 1
        kw.setdefault("name", "clip%d.mp4" % _calls[0])
    random.seed(seed)
    np.random.seed(seed)
    a = arguments(*argv, **kw)
    main_mod.main(a)
    with open(a.output, "rb") as f:
        return f.read()


def symbols():
    out = {}
    with open(os.path.join(REPO, "player", "iivision.dbg")) as f:
        for line in f:
            if line.startswith("sym") and '"op_' in line:
                d = dict(kv.split("=", 1) for kv in line.split("\t")[1].strip().split(","))
                out[int(d["val"], 16)] = d["name"].strip('"')[3:]
    return out


def parse(data):
    """[(position, name, operands)], name as in the player's symbol table."""
    sym = symbols()
    ops = [(0, "header", data[:7])]
    i = 7
    while True:
        name = sym.get(data[i] << 8 | data[i + 1])
        if name is None:
            raise ValueError("no operation at byte %d" % i)
        n = 7 if name.startswith("tick") else 4 if name == "ack" else 2
        ops.append((i, name, data[i + 2:i + n]))
        if name == "terminate":
            return ops, data[i + 2:]
        i += n


def play(data):
    """Screen after each operation: yields (name, operands, screens, bank)."""
    mem = [bytearray(8192), bytearray(8192)]
    bank = 0
    for pos, name, arg in parse(data)[0]:
        if name == "ack":
            bank = arg[0] - 0x54
        elif name.startswith("tick"):
            page = int(name.split("_")[3])
            for o in arg[1:]:
                mem[bank][(page - 32) * 256 + o] = arg[0]
        yield name, arg, mem, bank


def widths(data):
    return [int(n.split("_")[1]) for _, n, _ in parse(data)[0] if n.startswith("tick")]


HOLES = np.ones(8192, dtype=bool)
for _y in range(192):
    _a, _d = divmod(_y, 64)
    _b, _c = divmod(_d, 8)
    _s = 1024 * _c + 128 * _b + 40 * _a
    HOLES[_s:_s + 40] = False


def check(ok, what):
    if not ok:
        sys.stderr.write("BROKEN: %s\n" % what)
        sys.exit(1)
