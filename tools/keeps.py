"""A campaign of edits that keep the behaviour: every check named must stay quiet on each.

    python3 tools/keeps.py [NAME...]         (environment: RUNS, default 300 per check)
Prints one line per edit and check.  Works on scratch copies only.
"""
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = []
V, S, MO, O = ("transcoder/video.py", "transcoder/screen.py", "transcoder/movie.py",
               "transcoder/opcodes.py")
A, F, MA, D = ("transcoder/audio.py", "transcoder/frame_grabber.py", "transcoder/main.py",
               "transcoder/make_data_tables.py")
SV, SM, MEM, AP, UT = ("server/server.py", "simulator/machine.py", "simulator/memory.py",
                       "simulator/apple2.py", "simulator/uthernet.py")
TOP = "C01 C02 C08 C09 C10 C11 C12 C13 C16"
SEND = '''                    print("Sending %d bytes" % len(data))
                    self.request.sendall(data)
'''
READ = '''                with open(serve_file, "rb") as f:
                    data = f.read()
'''


def keep(name, props, *edits):
    K.append((name, props.split(), edits))


# -- server
keep("sv-wfile", "C04 C07 C15", (SV, "BaseRequestHandler", "StreamRequestHandler"),
     (SV, "self.request.sendall(data)", "self.wfile.write(data)"))
keep("sv-sendfile", "C07 C15", (SV, READ + SEND, '''                with open(serve_file, "rb") as f:
                    self.request.sendfile(f)
'''))
keep("sv-chunks", "C04 C07 C15", (SV, SEND, '''                view = memoryview(data)
                for i in range(0, len(view), 65536):
                    self.request.sendall(view[i:i + 65536])
'''))
keep("sv-send-loop", "C04 C07 C15", (SV, SEND, '''                sent = 0
                while sent < len(data):
                    sent += self.request.send(data[sent:sent + 4096])
'''))
keep("sv-copyfileobj", "C07 C15", (SV, READ + SEND, '''                import shutil
                with open(serve_file, "rb") as f, self.request.makefile("wb") as out:
                    shutil.copyfileobj(f, out)
'''))
keep("sv-copyfileobj-unbuffered", "C07 C15", (SV, "BaseRequestHandler", "StreamRequestHandler"),
     (SV, READ + SEND, '''                import shutil
                with open(serve_file, "rb") as f:
                    shutil.copyfileobj(f, self.wfile)
'''))
SERVE = '''    # A paused client must not keep others waiting
    with socketserver.ThreadingTCPServer(
            ("0.0.0.0", args.port), handler(),
            bind_and_activate=False) as server:
        server.allow_reuse_address = True
        server.daemon_threads = True
        server.server_bind()
        server.server_activate()
        server.serve_forever()
'''
keep("sv-class-attr", "C07 C15", (SV, SERVE, '''    class Server(socketserver.ThreadingTCPServer):
        allow_reuse_address = True
        daemon_threads = True

    server = Server(("0.0.0.0", args.port), handler())
    try:
        server.serve_forever(poll_interval=0.1)
    finally:
        server.server_close()
'''))
keep("sv-pathlib", "C07 C15", (SV, READ, '''                import pathlib
                if True:
                    data = pathlib.Path(serve_file).read_bytes()
'''))
keep("sv-mixin", "C07 C15", (SV, "socketserver.ThreadingTCPServer(", "Server("), (SV, '''def main(args):
''', '''class Server(socketserver.ThreadingMixIn, socketserver.TCPServer):
    """Serves every client in a thread of its own."""
    block_on_close = False


def main(args):
'''))
keep("sv-shutdown", "C04 C07 C15", (SV, SEND, SEND + '''                    self.request.shutdown(socket.SHUT_WR)
'''))
keep("sv-os-read", "C07 C15", (SV, READ + SEND, '''                import os
                fd = os.open(serve_file, os.O_RDONLY)
                try:
                    while True:
                        data = os.read(fd, 8192)
                        if not data:
                            break
                        self.request.sendall(data)
                finally:
                    os.close(fd)
'''))
keep("sv-mmap", "C07 C15", (SV, READ + SEND, '''                import mmap
                import os
                with open(serve_file, "rb") as f:
                    n = os.fstat(f.fileno()).st_size
                    if n:
                        with mmap.mmap(f.fileno(), n, access=mmap.ACCESS_READ) as mm:
                            self.request.sendall(mm)
'''))
keep("sv-raw-socket", "C04 C07 C15", (SV, SERVE, '''    import threading

    def serve(conn):
        try:
            with conn:
                conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                                struct.pack("ii", 1, 32767))
                with open(serve_file, "rb") as f:
                    conn.sendall(f.read())
        except OSError as e:
            print(e)

    listener = socket.socket()
    listener.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    listener.bind(("0.0.0.0", args.port))
    listener.listen(5)
    while True:
        try:
            conn, _ = listener.accept()
        except OSError:
            continue
        threading.Thread(target=serve, args=(conn,), daemon=True).start()
'''))
keep("sv-wait-eof", "C04 C07 C15", (SV, SEND, SEND + '''                    self.request.shutdown(socket.SHUT_WR)
                    while self.request.recv(4096):
                        pass
'''))
# -- frame grabber
keep("fg-run", "C12 C13 C14 C22", (F, '''                subprocess.call([
                    "/usr/local/bin/bmp2dhr", bmpfile, "hgr",''', '''                subprocess.run([
                    "/usr/local/bin/bmp2dhr", bmpfile, "hgr",'''),
     (F, '''                subprocess.call([
                    "/usr/local/bin/bmp2dhr", bmpfile, "dhgr",  # "v",''', '''                subprocess.run([
                    "/usr/local/bin/bmp2dhr", bmpfile, "dhgr",  # "v",'''))
keep("fg-popen", "C12 C13 C14 C22", (F, '''                subprocess.call([
                    "/usr/local/bin/bmp2dhr", bmpfile, "dhgr",  # "v",
                    self._palette_arg(),
                    "A",  # Output separate .BIN and .AUX files
                    "D9"  # Buckels dither
                ])
''', '''                with subprocess.Popen([
                    "/usr/local/bin/bmp2dhr", bmpfile, "dhgr",  # "v",
                    self._palette_arg(),
                    "A",  # Output separate .BIN and .AUX files
                    "D9"  # Buckels dither
                ], stdout=subprocess.DEVNULL) as p:
                    p.communicate()
'''))
keep("fg-pathlib", "C12 C13 C14 C16 C22", (F, "import os\n", "import os\nimport pathlib\n"),
     (F, '''                os.stat(mainfile)
                os.stat(auxfile)
''', '''                pathlib.Path(mainfile).stat()
                pathlib.Path(auxfile).stat()
'''), (F, "os.replace(tmpfile, outfile)", "pathlib.Path(tmpfile).replace(outfile)"),
     (F, "os.makedirs(frame_dir, exist_ok=True)", "pathlib.Path(frame_dir).mkdir(parents=True, exist_ok=True)"),
     (F, '''            _main = np.fromfile(mainfile, dtype=np.uint8)
''', '''            _main = np.frombuffer(pathlib.Path(mainfile).read_bytes(), dtype=np.uint8)
'''))
keep("fg-exists", "C12 C13 C14 C22", (F, '''            try:
                os.stat(mainfile)
                os.stat(auxfile)
            except FileNotFoundError:
''', '''            if not (os.path.exists(mainfile) and os.path.exists(auxfile)):
'''))
keep("fg-none-sentinel", "C12 C13 C14 C22", (F, "            q.put((None, None))\n", "            q.put(end)\n"),
     (F, "        error = []\n", "        error = []\n        end = object()\n"),
     (F, '''            main, aux = q.get()
            if main is None:
                break
''', '''            item = q.get()
            if item is end:
                break
            main, aux = item
'''))
keep("fg-from-queue", "C12 C13 C22", (F, "import queue\n", "from queue import Queue\n"),
     (F, "queue.Queue(maxsize=10)", "Queue(maxsize=10)"))
keep("fg-from-threading", "C12 C13 C22", (F, "import threading\n", "from threading import Thread\n"),
     (F, "threading.Thread(", "Thread("))
keep("fg-queue-20", "C12 C13 C22", (F, "maxsize=10", "maxsize=20"))
keep("fg-thread-class", "C12 C13", (F, '''        t = threading.Thread(target=worker, daemon=True)
        t.start()
''', '''        class Worker(threading.Thread):
            def run(self):
                worker()

        t = Worker()
        t.daemon = True
        t.start()
'''))
keep("fg-executor", "C12 C13", (F, '''        t = threading.Thread(target=worker, daemon=True)
        t.start()
''', '''        import concurrent.futures
        pool = concurrent.futures.ThreadPoolExecutor(max_workers=1)
        t = pool.submit(worker)
'''), (F, "        t.join()\n", "        t.result()\n        pool.shutdown()\n"))
keep("fg-condition", "C12 C13 C16 C22", (F, "q = queue.Queue(maxsize=10)", '''class Channel:
            def __init__(self, n):
                self.cond = threading.Condition()
                self.items = []
                self.n = n

            def put(self, item):
                with self.cond:
                    while len(self.items) >= self.n:
                        self.cond.wait()
                    self.items.append(item)
                    self.cond.notify_all()

            def get(self):
                with self.cond:
                    self.cond.wait_for(lambda: self.items)
                    item = self.items.pop(0)
                    self.cond.notify_all()
                    return item

            def task_done(self):
                pass

        q = Channel(10)'''))
keep("fg-semaphore", "C12 C13", (F, "q = queue.Queue(maxsize=10)", '''import collections

        class Channel:
            def __init__(self, n):
                self.free = threading.BoundedSemaphore(n)
                self.used = threading.Semaphore(0)
                self.items = collections.deque()

            def put(self, item):
                self.free.acquire()
                self.items.append(item)
                self.used.release()

            def get(self):
                self.used.acquire()
                item = self.items.popleft()
                self.free.release()
                return item

            def task_done(self):
                pass

        q = Channel(10)'''))
keep("fg-sync", "C12 C14 C16 C22", (F, '''        t = threading.Thread(target=worker, daemon=True)
        t.start()

        while True:
            main, aux = q.get()
            if main is None:
                break
''', '''        decode = (
            _dhgr_decode if self.video_mode == VideoMode.DHGR else
            _hgr_decode
        )
        for main, aux in (decode(i, f) for i, f in enumerate(self._frame_grabber())):
'''), (F, '''            q.task_done()

        t.join()
''', ""))
keep("fg-tempdir", "C13 C14 C22", (F, 'tmp_dir = tempfile.mkdtemp(prefix="tmp", dir=frame_dir)',
     'tmp_obj = tempfile.TemporaryDirectory(prefix="conv", dir=frame_dir)\n        tmp_dir = tmp_obj.name'),
     (F, "shutil.rmtree(tmp_dir, ignore_errors=True)", "tmp_obj.cleanup()"))
keep("fg-bmp-bytesio", "C12 C13 C14 C22", (F, '''                _frame = _frame.resize((280, 192), resample=Image.LANCZOS)
                _frame.save(bmpfile)

                subprocess.call([
                    "/usr/local/bin/bmp2dhr", bmpfile, "hgr",''', '''                import io
                buf = io.BytesIO()
                _frame.resize((280, 192), Image.LANCZOS).save(buf, "BMP")
                with open(bmpfile, "wb") as f:
                    f.write(buf.getvalue())

                subprocess.call([
                    "/usr/local/bin/bmp2dhr", bmpfile, "hgr",'''))
# -- main
keep("ma-chunks", "C16 C09 C12", (MA, '''        for bytes_out, b in enumerate(m.emit_stream(m.encode())):
            out.write(bytearray([b]))
''', '''        stream = m.emit_stream(m.encode())
        while True:
            block = bytes(itertools.islice(stream, 2048))
            if not block:
                break
            out.write(block)
'''), (MA, "import argparse\n", "import argparse\nimport itertools\n"))
keep("ma-tempfile", "C16 C09 C12", (MA, '''    with open(out_filename, "wb") as out:
        for bytes_out, b in enumerate(m.emit_stream(m.encode())):
            out.write(bytearray([b]))
''', '''    with open(out_filename + ".part", "wb") as out:
        for bytes_out, b in enumerate(m.emit_stream(m.encode())):
            out.write(bytearray([b]))
        out.flush()
        os.fsync(out.fileno())
    os.replace(out_filename + ".part", out_filename)
'''), (MA, "import argparse\n", "import argparse\nimport os\n"))
keep("ma-osopen", "C16 C09", (MA, '''    with open(out_filename, "wb") as out:
''', '''    fd = os.open(out_filename, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)
    with os.fdopen(fd, "wb") as out:
'''), (MA, "import argparse\n", "import argparse\nimport os\n"))
keep("ma-pathlib", "C16 C12", (MA, '''    with open(out_filename, "wb") as out:
        for bytes_out, b in enumerate(m.emit_stream(m.encode())):
            out.write(bytearray([b]))
''', '''    pathlib.Path(out_filename).write_bytes(bytes(m.emit_stream(m.encode())))
'''), (MA, "import argparse\n", "import argparse\nimport pathlib\n"))
keep("ma-bytearray", "C16", (MA, '''    with open(out_filename, "wb") as out:
        for bytes_out, b in enumerate(m.emit_stream(m.encode())):
            out.write(bytearray([b]))
''', '''    out = open(out_filename, "wb")
    try:
        for b in m.emit_stream(m.encode()):
            out.write(b.to_bytes(1, "big") if isinstance(b, int) else bytes([int(b)]))
    finally:
        out.close()
'''))
# -- movie
keep("mo-ops-list", TOP, (MO, '''            yield opcodes.TICK_OPCODES[(tick, page)](content, offsets)
''', '''            op_cls = opcodes.TICK_OPCODES[(tick, page)]
            op = op_cls(content=content, offsets=tuple(offsets))
            yield op
'''))
keep("mo-helper", TOP, (MO, '''                    if self.video_mode == VideoMode.DHGR:
                        target_pixelmap = screen.DHGRBitmap(
                            main_memory=main,
                            aux_memory=aux,
                            palette=self.palette
                        )
                    else:
                        target_pixelmap = screen.HGRBitmap(
                            main_memory=main,
                            palette=self.palette
                        )
''', '''                    target_pixelmap = self._target(main, aux)
'''), (MO, '''    def _emit_bytes(self''', '''    def _target(self, main, aux):
        if self.video_mode != VideoMode.DHGR:
            return screen.HGRBitmap(palette=self.palette, main_memory=main)
        return screen.DHGRBitmap(
            palette=self.palette, main_memory=main, aux_memory=aux)

    def _emit_bytes(self'''))
keep("mo-modulo", TOP, (MO, '''            socket_pos = self.stream_pos % 2048
            if socket_pos >= 2044:
''', '''            room = 2048 - (self.stream_pos & 2047)
            if room <= 4:
'''))
keep("mo-emit-bytes", TOP, (MO, '''        for b in self.state.emit(_op):
            yield b
            self.stream_pos += 1
''', '''        data = list(self.state.emit(_op))
        self.stream_pos += len(data)
        yield from data
'''))
keep("mo-done", TOP, (MO, '''        for _ in range(2048 - (self.stream_pos % 2048)):
            yield 0x00
''', '''        padding = 2048 - (self.stream_pos % 2048)
        self.stream_pos += padding
        yield from bytes(padding)
'''))
keep("mo-count-frames", TOP, (MO, '''        for au in self.audio.audio_stream():
            self.ticks += 1
''', '''        for self.ticks, au in enumerate(self.audio.audio_stream(), self.ticks + 1):
'''))
keep("mo-int-tick", TOP, (MO, '''            tick = au * 2  # -30 .. 32 (step=2)
            tick += 34  # 4 .. 66 (step=2)
''', '''            tick = 34 + 2 * int(au)
'''))
keep("mo-lazy-audio", "C02 C10 C16", (MO, "        for au in self.audio.audio_stream():\n",
     "        samples = self.audio.audio_stream()\n        for au in samples:\n"))
# -- audio
keep("au-wave", "C02 C10 C16", (A, '''        raw = bytearray()
        with audioread.audio_open(self.filename) as f:
            for buf in self._whole_frames(f, f.read_data()):
                raw.extend(bytearray(buf))
                if len(raw) > read_bytes:
                    break
        a = self._decode(f, raw)
''', '''        parts = []
        size = 0
        with audioread.audio_open(self.filename) as f:
            for buf in self._whole_frames(f, f.read_data()):
                parts.append(buf)
                size += len(buf)
                if size > read_bytes:
                    break
            a = self._decode(f, b"".join(parts))
'''))
keep("au-int64", "C02 C10 C16", (A, '''                a = (a * 16).astype(np.int)
                a = np.clip(a, -15, 16)

                yield from a
''', '''                for v in np.clip((a * 16).astype(np.int64), -15, 16).tolist():
                    yield v
'''))
keep("au-float64", "C02", (A, '''                a /= 16384  # normalize to -1.0 .. 1.0
                a *= self.normalization
''', '''                a = a / 16384  # normalize to -1.0 .. 1.0
                a = a * self.normalization
'''))
keep("au-pending-loop", "C02 C10", (A, '''            size = len(pending) // block_size * block_size
            if size:
                yield bytes(pending[:size])
                del pending[:size]
''', '''            while len(pending) >= block_size * 100:
                yield bytes(pending[:block_size * 100])
                pending = pending[block_size * 100:]
'''))
keep("au-whole", "C02 C10", (A, '''            for buf in self._whole_frames(
                    f, f.read_data(128 * 1024), frames):
''', '''            for buf in self._whole_frames(f, f.read_data(), frames):
'''))
# -- video
keep("vi-split", TOP, (V, '''            # Pad to 4 if we didn't find enough
            for _ in range(len(offsets), 4):
                offsets.append(offsets[0])
            yield page + 32, content, offsets
''', '''            # Pad to 4 if we didn't find enough
            offsets += [offsets[0]] * (4 - len(offsets))
            yield 32 + page, content, offsets
'''))
keep("vi-heap", TOP, (V, '''        pages, offsets = update_priority.nonzero()
        priorities = [tuple(data) for data in np.stack((
            -update_priority[pages, offsets],
            # Don't use deterministic order for page, offset.  Otherwise,
            # we get the "venetian blind" effect when filling large blocks of
            # colour.
            np.random.randint(0, 2 ** 8, size=pages.shape[0]),
            pages,
            offsets)
        ).T.tolist()]
''', '''        priorities = []
        for page, offset in zip(*(x.tolist() for x in update_priority.nonzero())):
            priorities.append((-int(update_priority[page, offset]),
                               random.getrandbits(8), page, offset))
'''))
keep("vi-sorted", TOP, (V, '''        heapq.heapify(deltas)

        while deltas:
            pri, _, offset = heapq.heappop(deltas)
            assert pri < 0
            assert 0 <= offset <= 255

            yield -pri, offset
''', '''        for pri, _, offset in sorted(deltas):
            assert pri < 0
            assert 0 <= offset <= 255

            yield -pri, offset
'''))
keep("vi-rng", TOP, (V, "            (priorities[i], random.getrandbits(8), candidate_offsets[i])\n",
     "            (priorities[i], random.random(), candidate_offsets[i])\n"))
keep("vi-tick", TOP, (V, '''        if ticks >= (self.ticks_per_frame * self.frame_number):
            self.frame_number += 1
            return True
        return False
''', '''        due = ticks >= (self.ticks_per_frame * self.frame_number)
        if due:
            self.frame_number += 1
        return due
'''))
keep("vi-clear-order", TOP, (V, '''            update_priority[page, offset] = 0
            diff_weights[page, offset] = 0

            # Update memory maps
            self.pixelmap.apply(page, offset, is_aux, content)
''', '''            # Update memory maps
            self.pixelmap.apply(page, offset, is_aux, content)

            diff_weights[page, offset] = 0
            update_priority[page, offset] = 0
'''))
# -- screen
keep("sc-apply-order", TOP, (S, '''        byte_offset = self.byte_offset(offset, is_aux)
        packed_offset = offset // 2

        self.packed[page, packed_offset] = self.masked_update(
            byte_offset, self.packed[page, packed_offset], value)
        self._fix_scalar_neighbours(page, packed_offset, byte_offset)

        if is_aux:
            self.aux_memory.write(page, offset, value)
        else:
            self.main_memory.write(page, offset, value)
''', '''        memory = self.aux_memory if is_aux else self.main_memory
        memory.write(page, offset, value)

        byte_offset = self.byte_offset(offset, is_aux)
        packed_offset = offset // 2

        self.packed[page, packed_offset] = self.masked_update(
            byte_offset, self.packed[page, packed_offset], value)
        self._fix_scalar_neighbours(page, packed_offset, byte_offset)
'''))
keep("sc-repack", "C01 C02 C12", (S, '''        self.packed[page, packed_offset] = self.masked_update(
            byte_offset, self.packed[page, packed_offset], value)
        self._fix_scalar_neighbours(page, packed_offset, byte_offset)

        if is_aux:
            self.aux_memory.write(page, offset, value)
        else:
            self.main_memory.write(page, offset, value)
''', '''        if is_aux:
            self.aux_memory.write(page, offset, value)
        else:
            self.main_memory.write(page, offset, value)
        old = self.packed
        self._pack()
        old[page, :] = self.packed[page, :]
        self.packed = old
'''))
keep("sc-no-cache", "C01 C08 C11 C12 C17", (S, "    @functools.lru_cache(10 ** 6)\n", ""))
keep("sc-load", "C11 C17 C01", (S, "        dist = np.load(data)['edit_distance']\n",
     "        with np.load(data) as npz:\n            dist = npz['edit_distance']\n"))
keep("sc-transpose", "C11 C17 C01", (S, '''        for i in range(dist.shape[0]):
            dist[i, transpose] += dist[i, identity]

        return dist
''', '''        n = 2 ** int(cls.MASKED_BITS)
        full = np.empty_like(dist)
        for i in range(dist.shape[0]):
            m = dist[i].reshape((n, n))
            full[i] = (m + m.T).reshape(-1)
        return full
'''))
# -- opcodes
keep("op-split", "C03 C09 C19 C01", (O, '''        yield opcode._START >> 8
        yield opcode._START & 0xff
''', '''        yield from opcode._START.to_bytes(2, "big")
'''))
keep("op-lookup", "C03 C09 C19", (O, '''        for op in OpcodeCommand:
            if op.name.lower() != op_name:
                continue
            opcode_addrs.append((op, addrs["start"]))
''', '''        if op_name.upper() in OpcodeCommand.__members__:
            opcode_addrs.append((OpcodeCommand[op_name.upper()], addrs["start"]))
'''))
# -- data tables
keep("dt-atomic", "C17 C11", (D, '''    np.savez_compressed(data, edit_distance=dist)
''', '''    tmp = data + ".tmp"
    with open(tmp, "wb") as f:
        np.savez_compressed(f, edit_distance=dist)
    os.replace(tmp, data)
'''))
keep("dt-makedirs", "C17", (D, '''    try:
        os.mkdir(DATA_DIR, mode=0o755)
    except FileExistsError:
        pass
''', '''    os.makedirs(DATA_DIR, mode=0o755, exist_ok=True)
'''))
keep("dt-isdir", "C17", (D, '''    try:
        os.mkdir(DATA_DIR, mode=0o755)
    except FileExistsError:
        pass
''', '''    if not os.path.isdir(DATA_DIR):
        os.mkdir(DATA_DIR, mode=0o755)
'''))
keep("dt-no-bar", "C17 C11", (D, '''                if cnt % 100000 == 0:
                    bar.numerator = cnt
                    print(bar, end='\\r')
                    sys.stdout.flush()
''', '''                if not cnt % 50000:
                    sys.stdout.write(".")
'''))
keep("dt-main-order", "C17", (D, '''        make_edit_distance(p, edp, screen.HGRBitmap, colours.HGRColours)
        make_edit_distance(p, edp, screen.DHGRBitmap, colours.DHGRColours)
''', '''        for bitmap, nominal in ((screen.DHGRBitmap, colours.DHGRColours),
                                (screen.HGRBitmap, colours.HGRColours)):
            make_edit_distance(p, edp, bitmap, nominal)
'''))
# -- simulator
keep("si-io-get", "C18", (SM, '''        try:
            (mode, name, callback) = self.io_map[address]

            if access''', '''        try:
            mode, name, callback = self.io_map[int(address)]

            if access'''))


def run(name, props, edits, runs):
    t = tempfile.mkdtemp(prefix="keep")
    try:
        shutil.copytree("/repo", t + "/r", symlinks=True)
        for fn, old, new in edits:
            p = os.path.join(t, "r", fn)
            s = open(p).read()
            if s.count(old) != 1:
                print(name, "BAD EDIT (%d matches of %r)" % (s.count(old), old[:60]), flush=True)
                return
            open(p, "w").write(s.replace(old, new))
        for prop in props:
            t0 = time.time()
            r = subprocess.run([os.path.join(HERE, "check"), prop, "quick"], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT,
                               env=dict(os.environ, VERIF_REPO=t + "/r", VERIF_SHRINK_S="3",
                                        VERIF_RUNS=str(runs)))
            o = r.stdout.decode().strip().splitlines()
            what = {0: "quiet", 1: "ALARM"}.get(r.returncode, "ERROR %d" % r.returncode)
            print(name, prop, "%s in %.0f s: %s" % (what, time.time() - t0, " / ".join(o[-2:])[:400]),
                  flush=True)
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    for name, props, edits in K:
        if not a or name in a or any(x.endswith("-") and name.startswith(x) for x in a):
            run(name, props, edits, int(os.environ.get("RUNS", "300")))
