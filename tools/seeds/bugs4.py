bug("c05-throttle", "C05",
    "a stream longer than the first chunk, played without a pause",
    "the player runs dry at hand-overs again and again and the cadence breaks",
    [("server/server.py", SRV, '''                    print("Sending %d bytes" % len(data))
                    # Leave some bandwidth to others: ]['s play 32 KB in about 1/3 s
                    for pos in range(0, len(data), 32768):
                        self.request.sendall(data[pos:pos + 32768])
                        time.sleep(.35)
'''), ("server/server.py", "import argparse\n", "import argparse\nimport time\n")],
    SERVE + '''
# 292 operations of 73 cycles and one hand-over of 146 take 2048 bytes, at 1020484 Hz
rate = 2048 / ((292 * 73 + 146) / 1020484.)
data = os.urandom(48 << 16)
p = serve(data)
s = connect()
t = time.time()
n = 0
late = 0
while True:
    b = s.recv(65536)
    if not b:
        break
    n += len(b)
    late = max(late, time.time() - t - n / rate)
done(p, "the movie arrives %.1f s later than it is played" % late if late > .7 else
     None if n == len(data) else "incomplete")
''')

bug("c07-user-timeout", "C07",
    "a pause of more than half a minute while the server still has data to send",
    "the server's system drops the connection and playback does not resume",
    [("server/server.py", SRV, '''                    # Notice when the client is gone
                    self.request.setsockopt(
                        socket.IPPROTO_TCP, socket.TCP_USER_TIMEOUT, 30000)
''' + SRV)],
    SERVE + '''
data = os.urandom(16 << 20)
p = serve(data)
s = connect(4096)
got = s.recv(1000)
time.sleep(100)
got = drain(s, got)
done(p, None if got == data else "received %d of %d bytes after a pause" % (len(got), len(data)))
''')

bug("c15-four-at-once", "C15",
    "four clients that stall at the same time, and then another one",
    "the fifth client has to wait until one of the others goes on",
    [("server/server.py", SRV, '''                    with slots:
                        print("Sending %d bytes" % len(data))
                        self.request.sendall(data)
'''), ("server/server.py", "    serve_file = args.input\n",
       "    serve_file = args.input\n    # Do not overload the network\n"
       "    slots = threading.Semaphore(4)\n"),
     ("server/server.py", "import socketserver\n", "import socketserver\nimport threading\n")],
    SERVE + '''
data = os.urandom(16 << 20)
p = serve(data)
stalled = []
for i in range(5):
    s = connect(4096)
    s.recv(100)
    stalled.append(s)
    time.sleep(.3)
s = connect()
s.settimeout(20)
got = drain(s)
done(p, None if got == data else "received %d of %d bytes while others stall" % (len(got), len(data)))
''')

bug("c23-late-cleanup", "C23",
    "a movie of more than a few pictures",
    "all bitmaps of the movie pile up on the disk until the transcode ends",
    [("transcoder/frame_grabber.py", '''                    "D9"  # Buckels dither
                ])

                os.remove(bmpfile)
                _publish(outfile)
''', '''                    "D9"  # Buckels dither
                ])

                _publish(outfile)
'''), ("transcoder/frame_grabber.py", '''                    "D9"  # Buckels dither
                ])

                os.remove(bmpfile)
                _publish(mainfile, auxfile)
''', '''                    "D9"  # Buckels dither
                ])

                _publish(mainfile, auxfile)
''')],
    '''
from demolib import *
n = 100
M.frames = [blank()] * n
M.samples = np.zeros((1, 14700), dtype=np.int16)
M.rate = "100/1"
worst = [0]


def count(i):
    names = [f for _, _, names in os.walk(SCRATCH) for f in names]
    worst[0] = max(worst[0], len(names) - len([f for f in names if f.endswith((".BIN", ".AUX"))]))


M.on_frame = count
quiet()
for mode in ("HGR", "DHGR"):
    transcode("--audio_normalization", "1", "--video_mode", mode)
check(worst[0] < 20, "%d intermediate files at once" % worst[0])
''')

bug("c23-read-ahead", "C23",
    "a schedule in which the audio decoder is faster than the encoder",
    "all of the audio of the movie is decoded into memory",
    [("transcoder/audio.py", '''        with audioread.audio_open(self.filename) as f:
            # Resample in blocks''', '''        with ReadAhead(self.filename) as f:
            # Resample in blocks'''),
     ("transcoder/audio.py", "class Audio:\n", '''class ReadAhead:
    """Decodes audio in the background."""

    def __init__(self, filename: str):
        self._file = audioread.audio_open(filename)
        self.channels = self._file.channels
        self.samplerate = self._file.samplerate

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self._file.close()

    def read_data(self, block_samples: int = 1024) -> Iterator[bytes]:
        q = queue.Queue()

        def _read():
            try:
                for data in self._file.read_data(block_samples):
                    q.put(data)
            except Exception as e:
                q.put(e)
            q.put(None)

        threading.Thread(target=_read, daemon=True).start()

        for data in iter(q.get, None):
            if isinstance(data, Exception):
                raise data
            yield data


class Audio:
'''), ("transcoder/audio.py", "import math\n", "import math\nimport queue\nimport threading\n")],
    '''
from demolib import *
import time
seconds = 12
M.samples = np.zeros((1, 14700 * seconds), dtype=np.int16)
M.frames = [blank()] * (seconds + 1)
M.rate = "1/1"
ahead = [0]
out = os.path.join(SCRATCH, "out.a2m")


def progress(pos):
    # a slow encoder, or a fast decoder
    done = os.path.getsize(out) / 7. if os.path.exists(out) else 0
    ahead[0] = max(ahead[0], pos / 2 - done)


M.on_audio = progress
quiet()
transcode("--audio_normalization", "1", "--video_mode", "HGR")
check(ahead[0] < 14700 * 6, "%d s of audio are decoded in advance" % (ahead[0] // 14700))
''')
