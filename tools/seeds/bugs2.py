bug("c11-sticky-header", "C11",
    "a store into the last byte of a column that leaves some of the dots next to the following "
    "column lit and turns others off",
    "dots once lit are never turned off in what the following column knows about its neighbour",
    [("transcoder/screen.py", """        column_right &= np.uint64(
            (2 ** (self.BODY_BITS + self.FOOTER_BITS) - 1)) << self.HEADER_BITS
        column_right ^= self._make_header(column)
""", """        header = self._make_header(column)
        column_right |= header
        if not np.any(header):
            column_right &= np.uint64(
                (2 ** (self.BODY_BITS + self.FOOTER_BITS) - 1)) << self.HEADER_BITS
""")],
    '''
from demolib import *
import palette
r = random.Random(5)
for mode in ("HGR", "DHGR"):
    main = screen.MemoryMap(screen_page=1)
    aux = screen.MemoryMap(screen_page=1)

    def make():
        if mode == "HGR":
            return screen.HGRBitmap(palette=palette.Palette.NTSC, main_memory=main)
        return screen.DHGRBitmap(palette=palette.Palette.NTSC, main_memory=main, aux_memory=aux)
    b = make()
    for i in range(3000):
        p, o = r.randrange(32), r.randrange(256)
        if HOLES[p * 256 + o]:
            continue
        mem = main
        is_aux = mode == "DHGR" and r.random() < .5
        if is_aux:
            mem = aux
        old = int(mem.page_offset[p, o])
        if mode == "HGR":
            new = r.choice((r.randrange(256), old ^ 0x80, old ^ 4))
        else:
            new = r.choice((r.randrange(128), old ^ 4, old ^ 0x10))
        # the packed pictures hold the row and page of memory as it is shown
        b.apply(p, o, is_aux, np.uint8(new))
        mem.page_offset[p, o] = new
        if i % 50 == 0:
            check((make().packed == b.packed).all(), "%s after %d stores" % (mode, i))
''')

bug("c12-ignore-small", "C12",
    "a still picture that differs from the screen in a single dot of a byte whose edit distance is "
    "below 57, the smallest there is (double hi-res only; the usual distance is 60 and more)",
    "the smallest differences are not drawn, so a still picture stays wrong for ever",
    [("transcoder/video.py", """        diff_weights[screen.SCREEN_HOLES] = 0
""", """        diff_weights[screen.SCREEN_HOLES] = 0
        # Nor with differences nobody will notice
        diff_weights[diff_weights < 57] = 0
""")],
    '''
from demolib import *


class Fine(Row):
    """52 per differing dot, the smallest edit distance in the real tables."""

    def __init__(self, bits):
        Row.__init__(self, bits)
        self.pop = (self.pop // 20 * 52).astype(np.uint16)


def distances(cls, palette_id):
    if cls.NAME not in _DIST:
        _DIST[cls.NAME] = [Fine(int(cls.MASKED_BITS)) for _ in cls.BYTE_MASKS]
    return _DIST[cls.NAME]


_DIST = {}
screen.Bitmap.edit_distances = classmethod(distances)
a = blank()
b = blank()
for i in (0x80, 0x81, 0x385, 0x1000):
    a[0][i] = a[1][i] = 0x00
    b[0][i] = b[1][i] = 0x08
M.frames = [a] * 3 + [b] * 8
M.samples = np.zeros((1, 5300), dtype=np.int16)
quiet()
for name, arg, mem, bank in play(transcode("--audio_normalization", "1", "--video_mode", "DHGR",
                                           "--every_n_video_frames", "1")):
    pass
check(bytes(mem[0]) == b[0].tobytes() and bytes(mem[1]) == b[1].tobytes(),
      "the still picture is not drawn")
''')

bug("c13-put-timeout", "C13",
    "an encoder that needs more than ten seconds for the pictures waiting in the queue",
    "the picture thread gives up although nothing is wrong, and the transcode ends with an error",
    [("transcoder/frame_grabber.py", "        q = queue.Queue(maxsize=10)\n",
      "        q = FrameQueue(maxsize=10)\n"),
     ("transcoder/frame_grabber.py", "class FrameGrabber:\n", """class FrameQueue(queue.Queue):
    \"\"\"Does not leave a producer behind when its consumer has gone away.\"\"\"

    def put(self, item, block=True, timeout=10):
        super().put(item, block, timeout)


class FrameGrabber:
""")],
    '''
from demolib import *
import time
import frame_grabber
import palette
import video_mode
M.frames = [picture(i) for i in range(14)]
write(os.path.join(SCRATCH, "a.mp4"), b"")
quiet()
g = frame_grabber.FileFrameGrabber(os.path.join(SCRATCH, "a.mp4"), video_mode.VideoMode.HGR,
                                   palette.Palette.NTSC)
n = 0
try:
    for i, (main, aux) in enumerate(g.frames()):
        check(main.page_offset.tobytes() == M.frames[i][0].tobytes(), "picture %d" % i)
        n += 1
        if i == 0:
            time.sleep(12)
except Exception as e:
    check(False, "%s after %d pictures" % (type(e).__name__, n))
check(n == 14, "%d pictures" % n)
''')

bug("c13-get-timeout", "C13",
    "a decoder or converter that stalls for more than five seconds",
    "the encoder takes the stall for the end of the movie and silently truncates it",
    [("transcoder/frame_grabber.py", """            main, aux = q.get()
            if main is None:
                break
""", """            try:
                main, aux = q.get(timeout=5)
            except queue.Empty:
                # Nothing more to come
                return
            if main is None:
                break
""")],
    '''
from demolib import *
import time
import frame_grabber
import palette
import video_mode
M.frames = [picture(i) for i in range(5)]
M.on_frame = lambda i: time.sleep(7 if i == 3 else 0)
write(os.path.join(SCRATCH, "a.mp4"), b"")
quiet()
g = frame_grabber.FileFrameGrabber(os.path.join(SCRATCH, "a.mp4"), video_mode.VideoMode.DHGR,
                                   palette.Palette.NTSC)
check(len(list(g.frames())) == 5, "pictures are missing")
''')

bug("c14-main-only", "C14",
    "double hi-res, and a transcode killed after the main half of a picture has been put in the "
    "cache and before the other half has",
    "every later run of the same movie finds only half of the picture and fails",
    [("transcoder/frame_grabber.py", """                os.stat(mainfile)
                os.stat(auxfile)
""", """                os.stat(mainfile)
""")],
    '''
from demolib import *
M.frames = [picture(i) for i in range(4)]
M.samples = np.zeros((1, 1800), dtype=np.int16)
a = ("--audio_normalization", "1", "--every_n_video_frames", "1")
quiet()
first = transcode(*a, keep=True)
for keep in (".BIN", ".AUX"):
    # what a run leaves behind that was killed between the two files
    for d, _, names in os.walk(SCRATCH):
        for n in names:
            if "00000002" in n and not n.endswith(keep):
                os.remove(os.path.join(d, n))
    try:
        again = transcode(*a, keep=True)
    except Exception as e:
        check(False, "the second run fails: %r" % e)
    check(again == first, "the second run differs")
''')

bug("c15-same-size", "C15",
    "the movie file replaced by another one of the same length while the server runs",
    "clients get the old file",
    [("server/server.py", """    def handler():
        class ChunkHandler""", """    def handler():
        cache = {}

        class ChunkHandler"""),
     ("server/server.py", """                with open(serve_file, "rb") as f:
                    data = f.read()
                    print("Sending %d bytes" % len(data))
                    self.request.sendall(data)
""", """                size = os.stat(serve_file).st_size
                if size not in cache:
                    cache.clear()
                    with open(serve_file, "rb") as f:
                        cache[size] = f.read()
                data = cache[size]
                print("Sending %d bytes" % len(data))
                self.request.sendall(data)
"""), ("server/server.py", "import argparse\n", "import argparse\nimport os\n")],
    '''
import os
import shutil
import socket
import subprocess
import sys
import tempfile
import time
d = tempfile.mkdtemp()
port = 20000 + os.getpid() % 20000
p = None


def fetch():
    for _ in range(200):
        try:
            s = socket.create_connection(("127.0.0.1", port), 5)
            break
        except OSError:
            time.sleep(.05)
    with s:
        out = b""
        while True:
            b = s.recv(65536)
            if not b:
                return out
            out += b


try:
    f = os.path.join(d, "movie.a2m")
    for content in (b"a" * 5000, b"b" * 7000, b"c" * 7000, b"a" * 5000, b"d" * 5000):
        with open(f + ".new", "wb") as o:
            o.write(content)
        os.replace(f + ".new", f)
        if p is None:
            p = subprocess.Popen([sys.executable, "server/server.py", "--port", str(port), f],
                                 stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if fetch() != content:
            sys.stderr.write("BROKEN: stale file served\\n")
            raise SystemExit(1)
finally:
    if p:
        p.kill()
        p.wait()
    shutil.rmtree(d)
''')

bug("c16-unbuffered", "C16",
    "a write that the system performs only in part",
    "the rest of the block is lost without any error",
    [("transcoder/main.py", """    with open(out_filename, "wb") as out:
        for bytes_out, b in enumerate(m.emit_stream(m.encode())):
            out.write(bytearray([b]))
""", """    # Collect the stream in large blocks, there is no need for another buffer
    with open(out_filename, "wb", buffering=0) as out:
        block = bytearray()
        for b in m.emit_stream(m.encode()):
            block.append(b)
            if len(block) == 65536:
                out.write(block)
                block.clear()
        out.write(block)
""")],
    '''
from demolib import *
import resource
import signal
M.samples = np.zeros((1, 3000), dtype=np.int16)
M.frames = [picture(i, density=.05) for i in range(7)]
quiet()
full = transcode("--audio_normalization", "1", "--video_mode", "HGR", keep=True)
check(len(full) > 20000, "stream")
# a file size limit makes the system accept a write in part
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
random.seed(0)
np.random.seed(0)
a = arguments("--audio_normalization", "1", "--video_mode", "HGR", out="short.a2m")
resource.setrlimit(resource.RLIMIT_FSIZE, (15000, resource.RLIM_INFINITY))
ok = True
try:
    # pictures have been converted before
    main_mod.main(a)
except Exception as e:
    ok = False
resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
if ok:
    with open(a.output, "rb") as f:
        check(f.read() == full, "an incomplete file is reported as success")
''')

bug("c18-page-wrap", "C18",
    "reading through the data port of the emulated network card across a page boundary of its "
    "memory",
    "the address wraps within the page when reading, not when writing",
    [("simulator/uthernet.py", """        val = self.memory[self.ptr]
        self.ptr = (self.ptr + 1) & 0x7fff
""", """        val = self.memory[self.ptr]
        self.ptr = (self.ptr & 0x7f00) | ((self.ptr + 1) & 0xff)
""")],
    '''
import os
import sys
sys.path.insert(0, os.path.join(os.getcwd(), "simulator"))
import apple2
import uthernet
out = sys.stdout
sys.stdout = open(os.devnull, "w")
u = uthernet.Uthernet(b"")
a = apple2.AppleII(u)
a.memory_manager.enable()
m = a.memory


def point(x):
    m[0xc095] = x >> 8
    m[0xc096] = x & 255


point(0x60f0)
for i in range(40):
    m[0xc097] = i + 1
point(0x60f0)
got = [m[0xc097] for i in range(40)]
if got != list(range(1, 41)):
    sys.stderr.write("BROKEN: %s\\n" % got)
    sys.exit(1)
''')

bug("c18-last-byte", "C18",
    "a write to the last byte of a read-only or intercepted region of the emulated memory",
    "the write goes through without being reported",
    [("simulator/memory.py", "        addr_range = range(region.start, region.end + 1)\n",
      "        addr_range = range(region.start, region.end)\n")],
    '''
import os
import sys
sys.path.insert(0, os.path.join(os.getcwd(), "simulator"))
import apple2
import uthernet
sys.stdout = open(os.devnull, "w")
a = apple2.AppleII(uthernet.Uthernet(b""))
a.memory_manager.enable()
for addr in (0xc1ff, 0xc3ff, 0xd000, 0xe123, 0xffff):
    try:
        a.memory[addr] = 0x12
    except Exception:
        continue
    sys.stderr.write("BROKEN: write to $%04X\\n" % addr)
    sys.exit(1)
''')

bug("c19-short-operation", "C19",
    "a pulse of 12 cycles (sample level -11)",
    "these operations are taken to be at the address of the 10 cycle ones, which are very short",
    [("transcoder/opcodes.py", """    for op, start in _OPCODE_ADDRS:
        cls = _OPCODE_CLASSES[op]
        cls._START = start
""", """    previous = 0
    for op, start in _OPCODE_ADDRS:
        cls = _OPCODE_CLASSES[op]
        # Shorter entries are labels within an opcode
        if start - previous < 14 and op.name.startswith("TICK"):
            start = previous
        cls._START = start
        previous = start
""")],
    '''
from demolib import *
import opcodes
sym = {v: k for k, v in symbols().items()}
for (t, p), cls in opcodes.TICK_OPCODES.items():
    op = cls(1, (2, 3, 4, 5))
    b = bytes(opcodes.Machine().emit(op))
    want = sym["tick_%d_page_%d" % (t, p)]
    check(b == bytes([want >> 8, want & 255, 1, 2, 3, 4, 5]), "operation %d on page %d" % (t, p))
''')

bug("c01-already-there", "C01",
    "double hi-res: a byte stored in auxiliary memory that main memory happens to hold at the same "
    "place",
    "the encoder takes the byte for one that is on the screen already and does not record it",
    [("transcoder/video.py", """                self.pixelmap.apply(page, o, is_aux, content)
                if p:
""", """                if self.memory_map.page_offset[page, o] != content:
                    self.pixelmap.apply(page, o, is_aux, content)
                if p:
""")],
    '''
from demolib import *
M.rate = "30/1"
M.samples = np.zeros((1, 3000), dtype=np.int16)
same = np.full(8192, 0x2a, dtype=np.uint8)
M.frames = [(same, same)] * 8
quiet()
snap = []
enc = movie_mod.Movie.encode


def encode(self):
    for op in enc(self):
        v = self.video
        snap.append((v.memory_map.page_offset.tobytes(), v.aux_memory_map.page_offset.tobytes()))
        yield op


movie_mod.Movie.encode = encode
n = 0
for name, arg, mem, bank in play(transcode("--audio_normalization", "1", "--video_mode", "DHGR")):
    if name != "ack" and name != "terminate":
        check((bytes(mem[0]), bytes(mem[1])) == snap[n], "screen after operation %d" % n)
        n += 1
check(n == len(snap), "number of operations")
''')
