"""Loads the code under test from the repository tree, once per worker process."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Env:
    pass


E = Env()


def build_dir():
    return os.environ["VERIF_BUILD"]      # scratch directory made by the driver


def enter_build(table="fresh"):
    """cwd such that the transcoder's relative paths resolve: freshly assembled symbols."""
    d = os.path.join(build_dir(), "cwd_" + table)
    os.chdir(d)


def load_transcoder(table="fresh", main=True):
    enter_build(table)
    import media
    sys.path.insert(0, os.path.join(REPO, "transcoder"))
    media.install_librosa()
    import numpy  # noqa
    import dist
    import skvideo.io
    import audioread
    E.skv, E.ar = skvideo.io, audioread
    media.trampolines(E.skv, E.ar)
    import colours
    import frame_grabber
    import opcodes
    import palette
    import screen
    import video
    import video_mode
    for m in (colours, frame_grabber, opcodes, palette, screen, video, video_mode):
        setattr(E, m.__name__, m)
    if main:
        import audio
        import movie
        import main as main_mod
        E.audio, E.movie, E.main = audio, movie, main_mod
    dist.install()
    E.dist = dist
    return E


def load_dbg(path):
    """name -> address for all labels (our own parser of the cc65 debug file)."""
    out = {}
    for line in open(path):
        if line.startswith("sym"):
            f = dict(kv.split("=", 1) for kv in line.split("\t")[1].strip().split(",")
                     if "=" in kv)
            if "val" in f and f.get("type") == "lab":
                out[f["name"].strip('"')] = int(f["val"], 16)
    return out


class Ops:
    """Reference view of the operation table: address -> meaning."""

    def __init__(self, dbg):
        self.sym = load_dbg(dbg)
        self.by_addr = {}
        for n, a in self.sym.items():
            if n.startswith("op_tick_"):
                _, _, t, _, p = n.split("_")
                self.by_addr[a] = ("tick", int(t), int(p))
            elif n in ("op_ack", "op_terminate", "op_nop", "op_header"):
                self.by_addr[a] = (n[3:],)


def parse_stream(data, ops):
    """Reference parser.  Yields (pos, op, payload); raises ValueError if malformed."""
    if len(data) < 7:
        raise ValueError("stream shorter than its header")
    yield 0, ("header",), data[:7]
    i = 7
    n = len(data)
    while True:
        if i + 2 > n:
            raise ValueError("stream ends without a terminate operation at %d" % i)
        a = data[i] << 8 | data[i + 1]
        op = ops.by_addr.get(a)
        if op is None:
            raise ValueError("byte %d: $%04X is not an operation" % (i, a))
        if op[0] == "tick":
            if i + 7 > n:
                raise ValueError("byte %d: operation cut off" % i)
            yield i, op, data[i + 2:i + 7]
            i += 7
        elif op[0] == "ack":
            if i + 4 > n:
                raise ValueError("byte %d: operation cut off" % i)
            yield i, op, data[i + 2:i + 4]
            i += 4
        elif op[0] == "terminate":
            yield i, op, data[i + 2:]
            return
        elif op[0] == "nop":
            yield i, op, b""
            i += 2
        else:
            raise ValueError("byte %d: %s inside the stream" % (i, op[0]))
