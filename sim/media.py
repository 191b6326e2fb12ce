"""Stand-ins for the decoders: ffmpeg frame reader, ffprobe, audioread, librosa, bmp2dhr."""
import math
import os
import sys
import types

import numpy as np

import osfault

HOLE_MASK = np.ones(8192, dtype=bool)
for _y in range(192):
    _a, _d = divmod(_y, 64)
    _b, _c = divmod(_d, 8)
    _base = 1024 * _c + 128 * _b + 40 * _a
    HOLE_MASK[_base:_base + 40] = False
VISIBLE = np.nonzero(~HOLE_MASK)[0]


class DecodeError(Exception):
    pass


class Media:
    """The content of one input file as the decoders deliver it."""

    def __init__(self):
        self.pictures = {}      # (id, mode, palette) -> (main bytes, aux bytes)
        self.frames = []        # picture id of each frame
        self.rate = "30/1"
        self.samples = np.zeros((1, 0), dtype=np.int16)   # channels x n
        self.samplerate = 14700
        self.blocks = None      # list of block byte sizes, cycled; None = 4096
        self.frame_fail_at = None
        self.audio_fail_at = None
        self.on_frame = None    # callback(idx)
        self.frames_read = 0
        self.tool = {}          # picture index -> fault for the converter
        self.point = lambda tag: None
        self.palette_of = None
        self.chunk = 4096
        self.tool_calls = 0
        self.audio_opens = 0

    # -- frames
    def rgb(self, pid):
        return ((pid % 32) * 8 + 4, (pid // 32 % 32) * 8 + 4, (pid // 1024 % 32) * 8 + 4)

    def reader(self):
        m = self

        class FFmpegReader:
            def __init__(self, filename, *a, **kw):
                if not os.path.exists(filename):
                    raise DecodeError("no such file %s" % filename)
                self.filename = filename
                self.inputframenum = len(m.frames)

            def getShape(self):
                return (len(m.frames), 6, 8, 3)

            def nextFrame(self):
                for i, pid in enumerate(m.frames):
                    m.point("frame")
                    if m.frame_fail_at is not None and i == m.frame_fail_at:
                        raise DecodeError("injected decoder failure at frame %d" % i)
                    m.frames_read = i + 1
                    if m.on_frame:
                        m.on_frame(i)
                    yield np.tile(np.array(m.rgb(pid), dtype=np.uint8), (6, 8, 1))
                if m.frame_fail_at is not None and m.frame_fail_at >= len(m.frames):
                    raise DecodeError("injected decoder failure at end of input")

            def close(self):
                pass
        return FFmpegReader

    # -- audio
    def audio_open(self, filename, *a, **kw):
        m = self
        m.audio_opens += 1
        if not os.path.exists(filename):
            raise DecodeError("no such file")

        class AF:
            channels = m.samples.shape[0]
            samplerate = m.samplerate
            duration = m.samples.shape[1] / float(m.samplerate)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def close(self):
                pass

            def read_data(self, *a, **kw):
                raw = m.samples.T.astype("<i2").tobytes()
                i = n = 0
                blocks = m.blocks or [4096]
                while i < len(raw):
                    b = blocks[n % len(blocks)]
                    m.point("audio")
                    if m.audio_fail_at is not None and i + b > m.audio_fail_at:
                        raise DecodeError("injected audio decoder failure")
                    yield raw[i:i + b]
                    i += b
                    n += 1

            __iter__ = read_data
        return AF()

    # -- converter
    def bmp2dhr(self, s, args, kw):
        """The converter: reads the .bmp, writes raw screen files next to it."""
        import PIL.Image
        m = self
        m.tool_calls += 1
        call = m.tool_calls - 1
        fault = m.tool.get(call)
        if fault == "missing":
            raise FileNotFoundError(2, "No such file or directory", args[0])
        bmp = args[1]
        rest = [a.upper() for a in args[2:]]
        mode = "DHGR" if "DHGR" in rest else ("HGR" if "HGR" in rest else None)
        pal = [int(a[1:]) for a in rest if a[:1] == "P" and a[1:].lstrip("-").isdigit()]
        if mode is None:
            return 1
        try:
            with osfault._real_open(bmp, "rb") as f:
                im = PIL.Image.open(f)
                im.load()
        except Exception:
            return 1
        if im.size != (280, 192):
            return 1
        px = im.convert("RGB").getpixel((140, 96))
        pid = sum(int(round((c - 4) / 8.0)) * 32 ** i for i, c in enumerate(px))
        key = (pid, mode, pal[0] if pal else 0)
        if key not in m.pictures:
            return 1
        main, aux = m.pictures[key]
        base = os.path.splitext(bmp)[0]
        if fault == "fail":
            return 1
        if fault == "crash":        # killed by a signal half way
            _tool_write(s, base + ("C.BIN" if mode == "HGR" else ".BIN"), main[:2048], m.chunk)
            return -11
        try:
            if mode == "HGR":
                data = main[:5000] if fault == "short" else main
                _tool_write(s, base + "C.BIN", data, m.chunk)
            elif "A" in rest:
                _tool_write(s, base + ".BIN", main, m.chunk)
                if fault == "noaux":
                    return 1
                data = aux[:5000] if fault == "short" else aux
                _tool_write(s, base + ".AUX", data, m.chunk)
            else:
                _tool_write(s, base + ".A2FC", aux + main, m.chunk)
        except OSError:
            return 1 if not m.tool.get("ignores_errors") else 0
        return 0

    def probe(self, fn):
        n, d = (self.rate + "/1").split("/")[:2]
        return {"video": {"@r_frame_rate": self.rate, "@avg_frame_rate": self.rate,
                          "@width": "8", "@height": "6", "@nb_frames": str(len(self.frames)),
                          "@duration": repr(len(self.frames) * float(d) / float(n))}}

    def install(self, skv, ar):
        """The stand-ins behind the trampolines deliver this movie from now on."""
        _current[0] = (self, self.reader())


_current = [None]


def trampolines(skv, ar):
    """Put in place before the code under test is imported, so that it does not matter how it
    refers to the decoders."""
    class FFmpegReader:
        def __new__(cls, *a, **kw):
            return _current[0][1](*a, **kw)
    skv.FFmpegReader = FFmpegReader
    skv.ffprobe = lambda fn, *a, **kw: _current[0][0].probe(fn)
    ar.audio_open = lambda *a, **kw: _current[0][0].audio_open(*a, **kw)


def _tool_write(s, path, data, chunk):
    osfault.tool_write(s, path, bytes(data), chunk)


def install_librosa():
    """A stand-in for librosa with the two functions used, same definitions."""
    import scipy.signal
    lib = types.ModuleType("librosa")
    core = types.ModuleType("librosa.core")

    def to_mono(y):
        y = np.asarray(y)
        return np.mean(y, axis=tuple(range(y.ndim - 1))) if y.ndim > 1 else y

    def resample(y, orig_sr=None, target_sr=None, res_type="kaiser_best", fix=True, scale=False, **kw):
        if orig_sr == target_sr:
            return y
        ratio = float(target_sr) / orig_sr
        n = int(np.ceil(y.shape[-1] * ratio))
        out = scipy.signal.resample(y, n, axis=-1)
        if scale:
            out /= np.sqrt(ratio)
        return np.asarray(out, dtype=y.dtype)
    core.to_mono = to_mono
    core.resample = resample
    lib.core = core
    lib.to_mono = to_mono
    lib.resample = resample
    sys.modules["librosa"] = lib
    sys.modules["librosa.core"] = core
    return lib
