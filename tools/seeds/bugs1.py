bug("c01-flip-on-frame", "C01",
    "double hi-res, every_n_video_frames > 1 and a skipped picture that falls due on the very "
    "operation after a bank switch",
    "the operation after the bank switch is still taken from the sequence of the other bank: it is "
    "stored into the wrong bank",
    [("transcoder/movie.py", "            if self.aux_memory_bank != last_memory_bank:\n",
      "            elif self.aux_memory_bank != last_memory_bank:\n")],
    '''
from demolib import *
# 50 pictures per second at 14600 Hz: one every 292 operations, as many as fit in 2 KB
M.rate = "50/1"
M.samplerate = 14600
M.samples = np.zeros((1, 2400), dtype=np.int16)
M.frames = [picture(1)] * 12
quiet()
snap = []
enc = movie_mod.Movie.encode


def encode(self):
    for op in enc(self):
        v = self.video
        snap.append((v.memory_map.page_offset.tobytes(), v.aux_memory_map.page_offset.tobytes()))
        yield op


movie_mod.Movie.encode = encode
data = transcode("--every_n_video_frames", "2", "--audio_bitrate", "14600",
                 "--audio_normalization", "1", "--video_mode", "DHGR")
n = 0
for name, arg, mem, bank in play(data):
    if name != "ack" and name != "terminate":
        check((bytes(mem[0]), bytes(mem[1])) == snap[n], "screen after operation %d" % n)
        n += 1
check(n == len(snap), "number of operations")
''')

bug("c02-int8-clip", "C02",
    "a sample louder than 8 times full scale after normalisation (a peak far above the 99.5th "
    "percentile, or a large explicit normalisation)",
    "samples are converted to 8 bits before they are clipped: the loudest peaks wrap round to the "
    "opposite sign",
    [("transcoder/audio.py", "a = (a * 16).astype(np.int)", "a = (a * 16).astype(np.int8)")],
    '''
from demolib import *
s = np.zeros((1, 2000), dtype=np.int16)
s[0, ::7] = 1500
s[0, 5::7] = -1500
s[0, 100] = 32767
s[0, 107] = -32767
s[0, 114] = 20000
M.samples = s
M.frames = [blank()] * 6
quiet()
for norm in (5., 10., 17.):
    w = widths(transcode("--audio_normalization", str(norm), "--video_mode", "HGR"))
    want = [34 + 2 * max(-15, min(16, int(x / 16384. * norm * 16))) for x in s[0].tolist()]
    check(len(w) > 1000 and w == want[:len(w)], "widths with normalization %s" % norm)
''')

bug("c04-no-padding-on-boundary", "C04",
    "a stream whose operations end exactly with a full 2 KB block",
    "the final block then holds nothing but two bytes, so the player, which waits for 2 KB, never "
    "sees the end of the video",
    [("transcoder/movie.py", "        for _ in range(2048 - (self.stream_pos % 2048)):\n",
      "        for _ in range(-self.stream_pos % 2048 if self.stream_pos % 2048 > 2 else 0):\n")],
    '''
from demolib import *
M.samples = np.zeros((1, 8000), dtype=np.int16)
M.frames = [picture(1)] * 20
quiet()
for kb in (2, 4, 6, 7, 8):
    data = transcode("--audio_normalization", "1", "--max_output_mb", repr(kb / 1024.))
    check(len(data) % 2048 == 0, "length with a limit of %d KB" % kb)
    ops, rest = parse(data)
    check(not any(rest), "padding")
''')

bug("c08-fill-hole", "C08",
    "the encoder runs out of work before the next picture or bank switch",
    "filler operations store into a screen hole, which belongs to the firmware of the slot cards",
    [("transcoder/video.py", "            yield 32, content, [0, 0, 0, 0]\n",
      "            yield 32, content, [0x78, 0x78, 0x78, 0x78]\n")],
    '''
from demolib import *
M.samples = np.zeros((1, 3000), dtype=np.int16)
M.frames = [picture(i, density=.05) for i in range(7)]
quiet()
for mode in ("HGR", "DHGR"):
    for pos, name, arg in parse(transcode("--audio_normalization", "1", "--video_mode", mode))[0]:
        if name.startswith("tick"):
            p = int(name.split("_")[3]) - 32
            for o in arg[1:]:
                check(not HOLES[p * 256 + o], "store into $%04X" % (0x2000 + p * 256 + o))
''')

bug("c09-limit-off-by-one", "C09",
    "an output limit that is reached exactly by an operation (any multiple of 2 KB)",
    "one operation too many is put out before the stream is closed",
    [("transcoder/movie.py", "self.stream_pos >= self.max_bytes_out",
      "self.stream_pos > self.max_bytes_out")],
    '''
from demolib import *
M.samples = np.zeros((1, 8000), dtype=np.int16)
M.frames = [picture(1)] * 20
quiet()
for limit in (2048, 2100, 4096, 5000, 6144, 7 * 300, 7 * 500 + 4):
    ops, rest = parse(transcode("--audio_normalization", "1", "--max_output_mb",
                                repr(limit / 1048576.), "--video_mode", "HGR"))
    end = ops[-1][0]
    before = [p for p, n, a in ops if p < end and n != "ack"]
    check(end >= limit and before[-1] < limit, "stream limited to %d ends at %d" % (limit, end))
''')

bug("c10-whole-ticks", "C10",
    "a movie whose frame rate does not divide the audio rate (29.97 frames per second), some "
    "seconds into it",
    "pictures are scheduled every whole number of samples, so they run away from the sound",
    [("transcoder/video.py", "if ticks >= (self.ticks_per_frame * self.frame_number):",
      "if ticks >= int(self.ticks_per_frame) * self.frame_number:")],
    '''
from demolib import *
M.rate = "30000/1001"
n = 40
M.frames = [blank()] * n
M.samples = np.zeros((1, 490 * n + 2000), dtype=np.int16)
at = {}
enc = screen.HGRBitmap
quiet()
import video
seen = []
real = video.Video.encode_frame


def encode_frame(self, *a, **kw):
    seen.append(mv[0].ticks)
    return real(self, *a, **kw)


video.Video.encode_frame = encode_frame
mv = []
init = movie_mod.Movie.__init__


def __init__(self, *a, **kw):
    init(self, *a, **kw)
    mv.append(self)


movie_mod.Movie.__init__ = __init__
transcode("--audio_normalization", "1", "--video_mode", "HGR", "--every_n_video_frames", "1")
import math
tpf = 14700 * 1001 / 30000.
want = [max(1, int(math.ceil(k * tpf))) for k in range(n)]
check(seen == want, "pictures start at %s, should be %s" % (seen[-5:], want[-5:]))
''')

bug("c10-skipped-target", "C10",
    "double hi-res with every_n_video_frames > 1, at a bank switch after a skipped picture",
    "after the bank switch the encoder draws the picture that was to be skipped",
    [("transcoder/movie.py", """                if should_encode_frame:
                    if self.video_mode == VideoMode.DHGR:
                        target_pixelmap = screen.DHGRBitmap(
                            main_memory=main,
                            aux_memory=aux,
                            palette=self.palette
                        )
                    else:
                        target_pixelmap = screen.HGRBitmap(
                            main_memory=main,
                            palette=self.palette
                        )

                    print(""", """                if self.video_mode == VideoMode.DHGR:
                    target_pixelmap = screen.DHGRBitmap(
                        main_memory=main,
                        aux_memory=aux,
                        palette=self.palette
                    )
                else:
                    target_pixelmap = screen.HGRBitmap(
                        main_memory=main,
                        palette=self.palette
                    )

                if should_encode_frame:
                    print(""")],
    '''
from demolib import *
M.rate = "30/1"
M.samples = np.zeros((1, 2900), dtype=np.int16)
# pictures to be skipped are all white, the others have few dots
white = np.full(8192, 0x7f, dtype=np.uint8)
few = np.full(8192, 0x11, dtype=np.uint8)
M.frames = [(few, few), (white, white)] * 4
quiet()
for name, arg, mem, bank in play(transcode("--audio_normalization", "1",
                                           "--every_n_video_frames", "2")):
    if name.startswith("tick"):
        check(arg[0] != 0x7f, "a byte of a skipped picture is drawn")
''')

bug("c10-decoder-late", "C10",
    "a picture that is not converted yet when it falls due",
    "the encoder goes on with the picture before and is one picture behind from then on, "
    "depending on how fast the decoder happens to run",
    [("transcoder/frame_grabber.py", """        while True:
            main, aux = q.get()
            if main is None:
                break
""", """        previous = None
        while True:
            try:
                main, aux = q.get(block=previous is None)
            except queue.Empty:
                # Conversion is lagging behind, keep the previous picture
                yield previous
                continue
            if main is None:
                break
"""), ("transcoder/frame_grabber.py", "            yield (main_map, aux_map)\n",
       "            previous = (main_map, aux_map)\n            yield previous\n")],
    '''
from demolib import *
import time
M.samples = np.zeros((1, 3000), dtype=np.int16)
M.frames = [picture(i, density=.02) for i in range(6)]
quiet()
a = transcode("--audio_normalization", "1", "--video_mode", "HGR")


def slow(i):
    time.sleep(.6 if i == 2 else .02)


M.on_frame = slow
b = transcode("--audio_normalization", "1", "--video_mode", "HGR")
check(a == b, "the stream depends on the speed of the decoder")
''')
