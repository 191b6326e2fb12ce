SERVE = '''
import atexit
import os
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import time
d = tempfile.mkdtemp()
port = 20000 + os.getpid() % 20000
path = os.path.join(d, "movie.a2m")


def serve(content):
    with open(path, "wb") as o:
        o.write(content)
    p = subprocess.Popen([sys.executable, "server/server.py", "--port", str(port), path],
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    atexit.register(p.kill)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(1))
    return p


def connect(rcvbuf=None):
    for _ in range(400):
        s = socket.socket()
        s.settimeout(60)
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        try:
            s.connect(("127.0.0.1", port))
            return s
        except OSError:
            s.close()
            time.sleep(.05)
    sys.exit("cannot connect")


def drain(s, out=b""):
    out = bytearray(out)
    try:
        while True:
            b = s.recv(65536)
            if not b:
                return bytes(out)
            out += b
    except OSError:
        return bytes(out)


def done(p, bad):
    p.kill()
    p.wait()
    shutil.rmtree(d)
    if bad:
        sys.stderr.write("BROKEN: %s\\n" % bad)
    sys.exit(1 if bad else 0)


'''
SRV = '''                    print("Sending %d bytes" % len(data))
                    self.request.sendall(data)
'''

bug("c03-send-once", "C03",
    "a viewer (or network) slow enough that one send() call takes only part of a chunk",
    "bytes in the middle of the stream are dropped and the player executes something else",
    [("server/server.py", SRV, '''                    print("Sending %d bytes" % len(data))
                    self.request.settimeout(3600)
                    for pos in range(0, len(data), 1 << 20):
                        self.request.send(data[pos:pos + (1 << 20)])
''')],
    SERVE + '''
data = b"".join(struct.pack(">I", i) for i in range(1 << 21))
p = serve(data)
s = connect(4096)
s.recv(10, socket.MSG_PEEK)
time.sleep(1)
got = bytearray()
while True:
    b = s.recv(3000)
    if not b:
        break
    got += b
done(p, None if got == data else "received %d of %d bytes" % (len(got), len(data)))
''')

bug("c04-hang-up", "C04",
    "the end of the stream still being on its way when the server closes the connection",
    "the connection is reset, the rest of the movie is lost and the player waits for ever",
    [("server/server.py", SRV, SRV + '''                    # Do not leave the port in TIME_WAIT
                    self.request.setsockopt(
                        socket.SOL_SOCKET, socket.SO_LINGER,
                        struct.pack("ii", 1, 0))
''')],
    SERVE + '''
data = os.urandom(300000)
p = serve(data)
s = connect(8192)
time.sleep(1)
got = bytearray()
try:
    while len(got) < 100000:
        b = s.recv(2000)
        if not b:
            break
        got += b
        time.sleep(.002)
    while True:
        b = s.recv(2000)
        if not b:
            break
        got += b
except OSError as e:
    print(e)
done(p, None if got == data else "received %d of %d bytes" % (len(got), len(data)))
''')

bug("c06-active-clients", "C06",
    "a viewer switched off in the middle of a movie and then started again",
    "the server believes it is still serving that viewer and hangs up on it",
    [("server/server.py", SRV, '''                    client = self.client_address[0]
                    if client in active:
                        print("Already sending to %s" % client)
                        return
                    active.add(client)
                    print("Sending %d bytes" % len(data))
                    self.request.sendall(data)
                    active.discard(client)
'''), ("server/server.py", "    serve_file = args.input\n", "    serve_file = args.input\n    active = set()\n")],
    SERVE + '''
data = os.urandom(8 << 20)
p = serve(data)
bad = None
if drain(connect()) != data:
    bad = "first viewer"
for i in range(3):
    s = connect(4096)
    s.recv(1000)
    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    s.close()
    s = connect()
    if drain(s) != data and not bad:
        bad = "a viewer that comes back is not served"
    s.close()
done(p, bad)
''')

bug("c07-idle-timeout", "C07",
    "a pause of more than half a minute while the server still has data to send",
    "the server drops the viewer and playback does not resume",
    [("server/server.py", SRV, '''                    print("Sending %d bytes" % len(data))
                    # Do not let a dead client block all the others
                    self.request.settimeout(30)
                    view = memoryview(data)
                    while view:
                        view = view[self.request.send(view[:65536]):]
''')],
    SERVE + '''
data = os.urandom(16 << 20)
p = serve(data)
s = connect(4096)
got = bytearray(s.recv(1000))
time.sleep(36)
got = drain(s, got)
done(p, None if got == data else "received %d of %d bytes after a pause" % (len(got), len(data)))
''')

bug("c22-check-then-create", "C22",
    "two transcodes of the same movie started at the same moment for the first time",
    "one of them fails because the other one has just created the cache directory",
    [("transcoder/frame_grabber.py", "        os.makedirs(frame_dir, exist_ok=True)\n",
      "        if not os.path.isdir(frame_dir):\n            os.makedirs(frame_dir)\n")],
    '''
from demolib import *
M.frames = [picture(i) for i in range(3)]
M.samples = np.zeros((1, 1200), dtype=np.int16)
a = ("--audio_normalization", "1", "--every_n_video_frames", "1")
quiet()
alone = transcode(*a, name="movie.mp4")
shutil.rmtree(os.path.join(SCRATCH, "movie"))
real = os.mkdir
other = []


def mkdir(path, *b, **kw):
    # the other transcode is a little faster
    if str(path).endswith("NTSC") and not other:
        other.append(1)
        real(path)
    return real(path, *b, **kw)


os.mkdir = mkdir
try:
    both = transcode(*a, name="movie.mp4")
except Exception as e:
    check(False, "a transcode fails because another one started: %r" % e)
check(both == alone, "different output")
''')

bug("c22-clean-start", "C22",
    "a transcode started while another one of the same movie is converting a picture",
    "the files the other one works on disappear",
    [("transcoder/frame_grabber.py", "        os.makedirs(frame_dir, exist_ok=True)\n",
      """        os.makedirs(frame_dir, exist_ok=True)
        # Sweep up what interrupted runs left behind
        for name in os.listdir(frame_dir):
            path = os.path.join(frame_dir, name)
            if os.path.isdir(path):
                shutil.rmtree(path, ignore_errors=True)
""")],
    '''
from demolib import *
M.frames = [picture(i) for i in range(6)]
M.samples = np.zeros((1, 2400), dtype=np.int16)
a = ("--audio_normalization", "1", "--every_n_video_frames", "1")
quiet()
alone = transcode(*a, name="movie.mp4")
shutil.rmtree(os.path.join(SCRATCH, "movie"))
state = {"n": 0, "other": None}


def converter(i, bmp, mode):
    state["n"] += 1
    if state["n"] == 2:        # a second transcode begins (and ends) now
        M.converter = None
        state["other"] = transcode(*a, name="movie.mp4", out="other.a2m")
        M.converter = converter


M.converter = converter
try:
    first = transcode(*a, name="movie.mp4")
except Exception as e:
    check(False, "a transcode fails because another one runs: %r" % e)
check(first == alone or len(first) == len(alone), "different output")
check(state["other"] is not None, "the second transcode failed")
''')
