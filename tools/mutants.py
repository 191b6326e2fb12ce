"""A campaign of small plausible mistakes: runs the quick check of a property on each.

    python3 tools/mutants.py [-t] [NAME...]     -t: also run the repository's tests
Prints one line per mutant.  Works on scratch copies only.
"""
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = []


def mut(name, prop, *edits):
    M.append((name, prop, edits))


V, S, MO, O = ("transcoder/video.py", "transcoder/screen.py", "transcoder/movie.py",
               "transcoder/opcodes.py")
A, F, MA, D = ("transcoder/audio.py", "transcoder/frame_grabber.py", "transcoder/main.py",
               "transcoder/make_data_tables.py")
SV = "server/server.py"
SEND = '''                    print("Sending %d bytes" % len(data))
                    self.request.sendall(data)
'''

# -- C01
mut("01-pad-from-main", "C01", (V, "content = source.page_offset[0, 0]",
                                "content = self.memory_map.page_offset[0, 0]"))
mut("01-pad-early", "C01", (V, "        content = source.page_offset[0, 0]\n", ""),
    (V, "        priorities = self._heapify_priorities(update_priority)\n",
     "        priorities = self._heapify_priorities(update_priority)\n"
     "        pad = source.page_offset[0, 0]\n"),
    (V, "            yield 32, content, [0, 0, 0, 0]", "            yield 32, pad, [0, 0, 0, 0]"))
mut("01-old-bank-on-frame", "C01", (MO, """                    op_seq = self.video.encode_frame(
                        target_pixelmap, is_aux=self.aux_memory_bank)
                    self.video""", """                    op_seq = self.video.encode_frame(
                        target_pixelmap, is_aux=last_memory_bank)
                    last_memory_bank = self.aux_memory_bank
                    self.video"""))
mut("01-apply-if-needed", "C01", (V, "                self.pixelmap.apply(page, o, is_aux, content)\n"
    "                if p:", "                if p < pri0:\n                    self.pixelmap.apply("
    "page, o, is_aux, content)\n                if p:"),
    (V, "                # Update priority for the offset we're emitting\n                update_p",
     "                pri0 = update_priority[page, o]\n                update_p"))
mut("01-mask-content", "C01", (O, "        yield self.content  # content",
                               "        yield self.content & 0x7f  # content"))
# -- C02
mut("02-clip-15", "C02", (A, "np.clip(a, -15, 16)", "np.clip(a, -15, 15)"))
mut("02-round", "C02", (A, "(a * 16).astype(np.int)", "np.round(a * 16).astype(np.int)"))
mut("02-norm-first-block", "C02", (A, "read_bytes=1024 * 1024 * 10", "read_bytes=1024"))
mut("02-order-c", "C02", (A, "reshape((f.channels, -1), order='F')",
                          "reshape((-1, f.channels)).T[:2]"))
mut("02-norm-max", "C02", (A, "[0.5, 99.5]", "[0.5, 99.9]"))
mut("02-positive-percentile", "C02", (A, "np.max(np.abs(np.percentile(a, [0.5, 99.5])))",
                                      "np.abs(np.percentile(a, 99.5))"))
mut("02-floor", "C02", (A, "(a * 16).astype(np.int)", "np.floor(a * 16).astype(np.int)"))
# -- C03..C07: server side and framing
mut("03-partial-send", "C03", (SV, SEND, '''                    while data:
                        self.request.send(data[:16384])
                        data = data[16384:]
'''))
mut("03-tail-chunk", "C03", (SV, '''                    data = f.read()
''' + SEND, '''                    while True:
                        data = f.read(65536)
                        if len(data) % 65536:
                            self.request.sendall(data)
                            break
                        self.request.sendall(data)
                        if f.tell() == 65536:
                            f.seek(0, 1)
                        if not data:
                            self.request.sendall(b"\\0")
                            break
'''))
mut("03-resend", "C03", (SV, SEND, '''                    while data:
                        n = self.request.send(data)
                        data = data[min(n, 65536):]
'''))
mut("04-timeout", "C04", (SV, SEND, '''                    self.request.settimeout(30)
                    self.request.sendall(data)
'''))
mut("07-timeout", "C07", (SV, SEND, '''                    self.request.settimeout(60)
                    self.request.sendall(data)
'''))
mut("04-linger", "C04", (SV, SEND, '''                    import socket, struct
                    self.request.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                                            struct.pack("ii", 1, 5))
                    self.request.sendall(data)
'''))
mut("04-linger0", "C04", (SV, SEND, '''                    import socket, struct
                    self.request.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                                            struct.pack("ii", 1, 0))
                    self.request.sendall(data)
'''))
mut("04-wait-client", "C04", (SV, SEND, '''                    self.request.sendall(data)
                    self.request.recv(1)
'''))
mut("05-nop", "C05", (MO, '''                yield from self._emit_bytes(opcodes.Ack(''', '''                yield from self._emit_bytes(opcodes.Ack(''' ),
    (MO, '''            # Keep track of where we are in TCP client socket buffer
''', '''            if self.stream_pos % 2048 == 1407:
                for _ in range(7):
                    yield from self._emit_bytes(opcodes.Nop())
'''))
mut("06-localhost", "C06", (SV, '"0.0.0.0"', '"localhost"'))
mut("06-port", "C06", (SV, "default=1977", "default=1978"))
mut("06-once", "C06", (SV, "server.serve_forever()", "server.handle_request()"))
mut("06-backlog", "C06", (SV, "        server.allow_reuse_address = True\n",
                          "        server.allow_reuse_address = True\n        server.request_queue_size = 0\n"))
mut("06-raise", "C06", (SV, "        server.server_bind()\n", '''        def handle_error(request, address):
            raise
        server.handle_error = handle_error
        server.server_bind()
'''))
# -- C08
mut("08-hole-mask-last", "C08", (S, "SCREEN_HOLES[page - 32, offset] = False",
                                 "SCREEN_HOLES[page - 32, offset:offset + 2] = False"))
mut("08-neighbour-hole", "C08", (V, "        diff_weights[screen.SCREEN_HOLES] = 0\n",
                                 "        if not is_aux:\n            diff_weights[screen.SCREEN_HOLES] = 0\n"))
# -- C09
mut("09-limit-gt", "C09", (MO, "self.stream_pos >= self.max_bytes_out",
                           "self.stream_pos > self.max_bytes_out"))
mut("09-mb-1000", "C09", (MA, "1024. * 1024 * args", "1000. * 1000 * args"))
mut("09-limit-after", "C09", (MO, '''            if self.max_bytes_out and self.stream_pos >= self.max_bytes_out:
                yield from self.done()
                return

            yield from self._emit_bytes(op)
''', '''            yield from self._emit_bytes(op)
            if self.max_bytes_out and self.stream_pos >= self.max_bytes_out:
                yield from self.done()
                return
'''))
mut("09-pad-wrap", "C09", (MO, "2048 - (self.stream_pos % 2048)", "-self.stream_pos % 2048"))
mut("09-flip-hgr", "C09", (MO, "if self.video_mode == VideoMode.DHGR:\n                    # Flip",
                           "if self.video_mode != VideoMode.HGR or self.max_bytes_out:\n                    # Flip"))
# -- C10
mut("10-int-tpf", "C10", (V, "self.ticks_per_second / frame_grabber.input_frame_rate",
                          "round(self.ticks_per_second / frame_grabber.input_frame_rate, 1)"))
mut("10-every-offset", "C10", (MO, "(self.video.frame_number - 1) %", "self.video.frame_number %"))
mut("10-queue-empty", "C10", (F, '''            main, aux = q.get()
            if main is None:''', '''            main, aux = q.get()
            while main is not None and q.qsize() > 9:
                main, aux = q.get()
            if main is None:'''))
mut("10-rate-int", "C10", (F, "rate_data[0]) / float(rate_data[1])", "rate_data[0]) // float(rate_data[1])"))
mut("10-mod-ticks", "C10", (V, "if ticks >= (self.ticks_per_frame * self.frame_number):",
                            "if ticks > (self.ticks_per_frame * self.frame_number):"))
mut("10-float32", "C10", (V, "if ticks >= (self.ticks_per_frame * self.frame_number):",
                          "if np.float32(ticks) >= np.float32(self.ticks_per_frame) * np.float32(self.frame_number):"))
# -- C11
mut("11-first-only-0", "C11", (S, "if byte_offset == 0 and offset not in FIRST_COLUMNS:",
                               "if byte_offset == 0 and offset > 0:"))
mut("11-skip-equal", "C11", (S, '''        self._fix_scalar_neighbours(page, packed_offset, byte_offset)

''', '''        if value:
            self._fix_scalar_neighbours(page, packed_offset, byte_offset)

'''))
mut("11-footer-mask", "C11", (S, "(2 ** (self.HEADER_BITS + self.BODY_BITS) - 1)",
                              "(2 ** (self.HEADER_BITS + self.BODY_BITS + 1) - 1)"))
mut("11-hgr-header", "C11", (S, "(col & np.uint64(0b11 << 17)) >> np.uint64(17))\n        )",
                             "(col & np.uint64(0b1 << 17)) >> np.uint64(17))\n        )"))
# -- C12
mut("12-same-target", "C12", (MO, '''                    print("Starting frame''', '''                    if op_seq is not None and np_eq(target_pixelmap, last_target):
                        continue_frame = True
                    last_target = target_pixelmap
                    print("Starting frame'''), (MO, '''class Movie:
''', '''def np_eq(a, b):
    return (a.packed == b.packed).all()


class Movie:
'''), (MO, '''                    op_seq = self.video.encode_frame(
                        target_pixelmap, is_aux=self.aux_memory_bank)
                    self.video''', '''                    if not (op_seq is not None and self.ticks > 1 and last_packed is not None and
                            (last_packed == target_pixelmap.packed).all()):
                        op_seq = self.video.encode_frame(
                            target_pixelmap, is_aux=self.aux_memory_bank)
                    last_packed = target_pixelmap.packed
                    self.video'''), (MO, "        op_seq = None\n", "        op_seq = None\n        last_packed = None\n        last_target = None\n"))
mut("12-no-repush", "C12", (V, "                if p:\n", "                if p > 100:\n"))
mut("12-p-zero", "C12", (V, "                update_priority[page, o] = p\n",
                         "                update_priority[page, o] = 0\n"))
mut("12-pixelmap-is-target", "C12", (V, "        diff_weights = target_pixelmap.diff_weights(self.pixelmap, is_aux)\n",
    "        diff_weights = target_pixelmap.diff_weights(self.pixelmap, is_aux)\n        if self.out_of_work[is_aux]:\n            diff_weights[:] = 0\n"),
    (MO, "self.video.out_of_work = {True: False, False: False}", "self.video.out_of_work = {True: False, False: self.video.out_of_work[False]}"))
mut("12-le-zero", "C12", (V, "cond = delta_page < 0", "cond = delta_page <= 0"))
mut("12-uint16", "C12", (V, "dtype=np.int32)\n        if self.mode", "dtype=np.uint16)\n        if self.mode"))
# -- C13
mut("13-unbounded", "C13", (F, "queue.Queue(maxsize=10)", "queue.Queue()"))
mut("13-not-daemon", "C13", (F, "daemon=True", "daemon=False"))
mut("13-drop-oldest", "C13", (F, "                    q.put(decode(_idx, _frame))\n", '''                    item = decode(_idx, _frame)
                    try:
                        q.put(item, timeout=600)
                    except queue.Full:
                        q.get()
                        q.put(item)
'''))
mut("13-ioerror-only", "C13", (F, "except Exception as e:", "except IOError as e:"))
mut("13-two-workers", "C13", (F, '''                for _idx, _frame in enumerate(self._frame_grabber()):
                    q.put(decode(_idx, _frame))
''', '''                prev = None
                for _idx, _frame in enumerate(self._frame_grabber()):
                    cur = threading.Thread(target=lambda i=_idx, f=_frame: q.put(decode(i, f)), daemon=True)
                    cur.start()
                    if prev is not None:
                        prev.join(5)
                    prev = cur
                if prev is not None:
                    prev.join()
'''))
# -- C14
mut("14-size-nonzero", "C14", (F, "!= 8192", "== 0"))
mut("14-write-through", "C14", (F, "os.replace(tmpfile, outfile)", "open(outfile, 'wb').write(open(tmpfile, 'rb').read())"))
TMP = 'tmp_dir = tempfile.mkdtemp(prefix="tmp", dir=frame_dir)'
mut("14-same-tmp", "C14", (F, TMP, 'tmp_dir = frame_dir'), (F, "shutil.rmtree(tmp_dir", "(lambda *a, **k: None)(tmp_dir"))
mut("22-fixed-dir", "C22", (F, TMP, 'tmp_dir = "%s/tmp" % frame_dir\n        os.makedirs(tmp_dir, exist_ok=True)'))
mut("22-fixed-dir-keep", "C22", (F, TMP, 'tmp_dir = "%s/tmp" % frame_dir\n        os.makedirs(tmp_dir, exist_ok=True)'),
    (F, "shutil.rmtree(tmp_dir", "(lambda *a, **k: None)(tmp_dir"))
mut("22-copy", "C22", (F, "os.replace(tmpfile, outfile)", "shutil.copyfile(tmpfile, outfile)"))
mut("22-link", "C22", (F, "os.replace(tmpfile, outfile)", "os.link(tmpfile, outfile)"))
mut("22-rm-frame-dir", "C22", (F, "        os.makedirs(frame_dir, exist_ok=True)\n", "        os.makedirs(frame_dir, exist_ok=True)\n        for d in os.listdir(frame_dir):\n            if d.startswith('tmp') and not os.listdir(frame_dir + '/' + d):\n                os.rmdir(frame_dir + '/' + d)\n"))
mut("22-no-exist-ok", "C22", (F, "os.makedirs(frame_dir, exist_ok=True)", "os.path.isdir(frame_dir) or os.makedirs(frame_dir)"))
# -- C15
mut("15-single-thread", "C15", (SV, "socketserver.ThreadingTCPServer(", "socketserver.TCPServer("))
mut("15-lock", "C15", (SV, "    def handler():\n", "    import threading\n    lock = threading.Lock()\n\n    def handler():\n"),
    (SV, SEND, '''                    with lock:
                        print("Sending %d bytes" % len(data))
                        self.request.sendall(data)
'''))
mut("07-no-linger", "C07", (SV, '''struct.pack("ii", 1, 32767)''', '''struct.pack("ii", 0, 0)'''))
mut("07-linger-60", "C07", (SV, '''struct.pack("ii", 1, 32767)''', '''struct.pack("ii", 1, 60)'''))
mut("15-read-at-start", "C15", (SV, "    def handler():\n", "    with open(serve_file, 'rb') as f:\n        data = f.read()\n\n    def handler():\n"),
    (SV, '''                with open(serve_file, "rb") as f:
                    data = f.read()
''' + SEND, '''                self.request.sendall(data)
'''))
mut("15-mtime-cache", "C15", (SV, '''                with open(serve_file, "rb") as f:
                    data = f.read()
''' + SEND, '''                import os
                t = int(os.stat(serve_file).st_mtime)
                if cache.get("t") != t:
                    with open(serve_file, "rb") as f:
                        cache["d"] = f.read()
                    cache["t"] = t
                self.request.sendall(cache["d"])
'''), (SV, "    def handler():\n", "    cache = {}\n\n    def handler():\n"))
mut("15-one-file-object", "C15", (SV, '''                with open(serve_file, "rb") as f:
                    data = f.read()
''' + SEND, '''                f.seek(0)
                data = f.read()
                self.request.sendall(data)
'''), (SV, "    def handler():\n", "    f = open(serve_file, 'rb')\n\n    def handler():\n"))
mut("15-reuse-late", "C15", (SV, '''        server.allow_reuse_address = True
        server.daemon_threads = True
        server.server_bind()
''', '''        server.daemon_threads = True
        server.server_bind()
        server.allow_reuse_address = True
'''))
mut("15-first-mb", "C15", (SV, "data = f.read()", "data = f.read(1 << 20)"))
mut("15-handle-error", "C15", (SV, "        server.server_bind()\n", '''        def handle_error(request, address):
            raise
        server.handle_error = handle_error
        server.server_bind()
'''))
mut("15-timeout", "C15", (SV, SEND, '''                    self.request.settimeout(20)
                    self.request.sendall(data)
'''))
mut("15-request-line", "C15", (SV, SEND, '''                    self.request.setblocking(False)
                    try:
                        if self.request.recv(64) == b"":
                            return
                    except BlockingIOError:
                        pass
                    self.request.setblocking(True)
                    self.request.sendall(data)
'''))
mut("15-swallow", "C15", (SV, SEND, '''                    for i in range(0, len(data), 1 << 16):
                        try:
                            self.request.sendall(data[i:i + (1 << 16)])
                        except InterruptedError:
                            pass
                    if len(data) % (1 << 16) == 0:
                        self.request.sendall(b"\\0")
'''))
# -- C16
mut("16-no-trunc", "C16", (MA, 'open(out_filename, "wb") as out:', 'open(out_filename, "r+b" if __import__("os").path.exists(out_filename) else "wb") as out:'))
mut("16-disk-full", "C16", (MA, '''            out.write(bytearray([b]))
''', '''            try:
                out.write(bytearray([b]))
            except OSError as e:
                print("Stopped: %s" % e)
                break
'''))
mut("16-not-closed", "C16", (MA, '''    with open(out_filename, "wb") as out:
        for bytes_out, b in enumerate(m.emit_stream(m.encode())):
            out.write(bytearray([b]))
''', '''    out = open(out_filename, "wb")
    for bytes_out, b in enumerate(m.emit_stream(m.encode())):
        out.write(bytearray([b]))
'''))
mut("16-close-error", "C16", (MA, '''    with open(out_filename, "wb") as out:
        for bytes_out, b in enumerate(m.emit_stream(m.encode())):
            out.write(bytearray([b]))
''', '''    out = open(out_filename, "wb")
    try:
        for bytes_out, b in enumerate(m.emit_stream(m.encode())):
            out.write(bytearray([b]))
    finally:
        try:
            out.close()
        except OSError:
            pass
'''))
mut("16-audio-swallow", "C16", (MO, '''        for au in self.audio.audio_stream():
''', '''        def _audio():
            try:
                yield from self.audio.audio_stream()
            except Exception as e:
                print("audio ends: %s" % e)

        for au in _audio():
'''))
mut("16-video-swallow", "C16", (MO, "                except StopIteration:\n", "                except Exception:\n"))
mut("16-same-stem", "C16", (MA, '".".join(filename.split(".")[:-1] + ["a2m"])', '".".join(filename.split(".")[:1] + ["a2m"])'))
# -- C17
mut("17-fallback", "C17", (S, "        dist = np.load(data)['edit_distance']\n", '''        try:
            dist = np.load(data)['edit_distance']
        except (OSError, ValueError):
            dist = np.zeros((len(cls.BYTE_MASKS), 2 ** (2 * int(cls.MASKED_BITS))), dtype=np.uint16)
'''))
mut("17-placeholder", "C17", (D, "    dist = compute_edit_distance(edp, bitmap_cls, nominal_colours)\n", '''    np.savez_compressed("%s/%s_palette_%d_edit_distance.npz" % (
        DATA_DIR, bitmap_cls.NAME, pal.ID.value), edit_distance=np.zeros(
            (len(bitmap_cls.BYTE_MASKS), 2 ** (2 * int(bitmap_cls.MASKED_BITS))), dtype=np.uint16))
    dist = compute_edit_distance(edp, bitmap_cls, nominal_colours)
'''))
mut("17-interrupt", "C17", (D, "    dist = compute_edit_distance(edp, bitmap_cls, nominal_colours)\n", '''    try:
        dist = compute_edit_distance(edp, bitmap_cls, nominal_colours)
    except KeyboardInterrupt:
        dist = np.zeros((len(bitmap_cls.BYTE_MASKS), 2 ** (2 * int(bitmap_cls.MASKED_BITS))), dtype=np.uint16)
'''))
mut("17-reuse-dir", "C17", (D, '''    except FileExistsError:
        pass
''', '''    except FileExistsError:
        if len(os.listdir(DATA_DIR)) >= 4:
            return
'''))
# -- C18
mut("18-zero-write", "C18", ("simulator/machine.py", '''            if value:
                raise TrapException(
                    address, 'Wrote %02X ("%s")' % (value, chr(value)))
            else:
                raise TrapException(address, 'Read')''', '''            if value:
                raise TrapException(
                    address, 'Wrote %02X ("%s")' % (value, chr(value)))
            elif value is None:
                raise TrapException(address, 'Read')'''))
mut("18-region-end", "C18", ("simulator/memory.py", "range(region.start, region.end + 1)", "range(region.start, region.end)"))
mut("18-ptr-wrap", "C18", ("simulator/uthernet.py", '''        val = self.memory[self.ptr]
        self.ptr = (self.ptr + 1) & 0x7fff''', '''        val = self.memory[self.ptr]
        self.ptr = (self.ptr & 0x7f00) | ((self.ptr + 1) & 0xff)'''))
mut("18-trap-order", "C18", ("simulator/memory.py", "raise WriteProtectedException(region.name, addr, value)", "print(WriteProtectedException(region.name, addr, value))"))
mut("18-read-mode", "C18", ("simulator/machine.py", "if access_mode & mode:", "if access_mode & mode or address >= 0xc050:"))
mut("18-connect-status", "C18", ("simulator/uthernet.py", "self.memory[0x403] = 0x17", "self.memory[0x403] = 0x13"))
mut("18-status-shared", "C18", ("simulator/machine.py", "        io_map[self.status_addr] = (\n            AccessMode.READ,", "        io_map[self.status_addr] = (\n            AccessMode.RW,"))
# -- C19
mut("19-prefix", "C19", (O, "            if op.name.lower() != op_name:\n", "            if not op_name.startswith(op.name.lower()):\n"))
mut("19-by-order", "C19", (O, "    for op, start in _OPCODE_ADDRS:\n        cls = _OPCODE_CLASSES[op]\n        cls._START = start\n", '''    _first = {}
    for op, start in _OPCODE_ADDRS:
        if op.name.startswith("TICK"):
            _first.setdefault(op.name.split("_")[3], start)
    for op, start in _OPCODE_ADDRS:
        cls = _OPCODE_CLASSES[op]
        cls._START = start
        if op.name.endswith("PAGE_63") and op.name.startswith("TICK_66"):
            cls._START = start - 1
'''))

# -- more of several
mut("05-throttle", "C05", (SV, SEND, '''                    import time
                    start = time.time()
                    for pos in range(0, len(data), 8192):
                        # about as fast as it is played
                        ahead = pos / 90000. - (time.time() - start)
                        if ahead > 1:
                            time.sleep(ahead - 1)
                        self.request.sendall(data[pos:pos + 8192])
'''))
mut("07-user-timeout", "C07", (SV, SEND, '''                    self.request.setsockopt(socket.IPPROTO_TCP, socket.TCP_USER_TIMEOUT, 60000)
                    self.request.sendall(data)
'''))
mut("07-sndtimeo", "C07", (SV, SEND, '''                    self.request.setsockopt(socket.SOL_SOCKET, socket.SO_SNDTIMEO, struct.pack("ll", 120, 0))
                    self.request.sendall(data)
'''))
mut("07-default-timeout", "C07", (SV, "    serve_file = args.input\n", "    serve_file = args.input\n    socket.setdefaulttimeout(90)\n"))
mut("15-user-timeout", "C15", (SV, SEND, '''                    self.request.setsockopt(socket.IPPROTO_TCP, socket.TCP_USER_TIMEOUT, 60000)
                    self.request.sendall(data)
'''))
mut("15-semaphore", "C15", (SV, "    def handler():\n", "    import threading\n    free = threading.BoundedSemaphore(5)\n\n    def handler():\n"),
    (SV, SEND, '''                    with free:
                        print("Sending %d bytes" % len(data))
                        self.request.sendall(data)
'''))
mut("15-one-per-address", "C15", (SV, "    def handler():\n", "    import threading\n    busy = {}\n\n    def handler():\n"),
    (SV, SEND, '''                    with busy.setdefault(len(data), threading.Lock()):
                        self.request.sendall(data)
'''))
mut("15-file-under-lock", "C15", (SV, "    def handler():\n", "    import threading\n    lock = threading.Lock()\n\n    def handler():\n"),
    (SV, '''                with open(serve_file, "rb") as f:
                    data = f.read()
''' + SEND, '''                lock.acquire()
                with open(serve_file, "rb") as f:
                    data = f.read()
                lock.release()
                self.request.sendall(data)
'''))
mut("15-keep-open", "C15", (SV, "            def handle(self):\n", "            def finish(self):\n                keep.append(self.request.dup() if hasattr(self.request, 'dup') else self.request)\n\n            def handle(self):\n"),
    (SV, "    def handler():\n", "    keep = []\n\n    def handler():\n"))
mut("15-no-close-on-error", "C15", (SV, "        server.daemon_threads = True\n", '''        server.daemon_threads = True

        def shutdown_request(request):
            try:
                request.shutdown(socket.SHUT_WR)
                request.close()
            except OSError:
                pass
        server.shutdown_request = shutdown_request
'''))
mut("13-alive-race", "C13", (F, "            main, aux = q.get()\n            if main is None:\n                break\n", '''            try:
                main, aux = q.get(timeout=5)
            except queue.Empty:
                if not t.is_alive():
                    break
                continue
            if main is None:
                break
'''))
mut("13-dead-worker", "C13", (F, "            main, aux = q.get()\n            if main is None:\n                break\n", '''            main = aux = None
            while t.is_alive():
                try:
                    main, aux = q.get(timeout=1)
                    break
                except queue.Empty:
                    pass
            if main is None:
                break
'''))
mut("13-raise-early", "C13", (F, "            main, aux = q.get()\n            if main is None:\n                break\n", '''            main, aux = q.get()
            if error or main is None:
                break
'''))
mut("13-sentinel-first", "C13", (F, "                error.append(e)\n\n            q.put((None, None))\n", "                q.put((None, None))\n                error.append(e)\n                return\n\n            q.put((None, None))\n"),
    (F, "        t.join()\n", ""))
mut("16-thread-writer", "C16", (MA, '''    with open(out_filename, "wb") as out:
        for bytes_out, b in enumerate(m.emit_stream(m.encode())):
            out.write(bytearray([b]))
''', '''    import queue
    import threading
    q = queue.Queue(64)

    def writer():
        with open(out_filename, "wb") as out:
            while True:
                data = q.get()
                if data is None:
                    break
                try:
                    out.write(data)
                except OSError as e:
                    print("%s: %s" % (out_filename, e))

    t = threading.Thread(target=writer)
    t.start()
    data = bytearray()
    try:
        for b in m.emit_stream(m.encode()):
            data.append(b)
            if len(data) == 4096:
                q.put(bytes(data))
                data.clear()
        q.put(bytes(data))
    finally:
        q.put(None)
        t.join()
'''))
mut("22-time-dir", "C22", (F, TMP, 'import time\n        tmp_dir = "%s/tmp%d" % (frame_dir, int(time.time()))\n        os.makedirs(tmp_dir, exist_ok=True)'))
mut("22-lockdir", "C22", (F, TMP, '''import time
        tmp_dir = "%s/tmp" % frame_dir
        while True:
            try:
                os.mkdir(tmp_dir)
                break
            except FileExistsError:
                time.sleep(1)'''))
mut("22-shared-clean", "C22", (F, "shutil.rmtree(tmp_dir, ignore_errors=True)", "for d in os.listdir(frame_dir):\n            if d.startswith('tmp'):\n                shutil.rmtree('%s/%s' % (frame_dir, d), ignore_errors=True)"))
mut("23-unbounded-queue", "C23", (F, "queue.Queue(maxsize=10)", "queue.Queue()"))
mut("23-big-queue", "C23", (F, "queue.Queue(maxsize=10)", "queue.Queue(maxsize=1000)"))
mut("23-list-audio", "C23", (A, "            for buf in self._whole_frames(\n                    f, f.read_data(128 * 1024), frames):\n", "            for buf in list(self._whole_frames(\n                    f, f.read_data(128 * 1024), frames)):\n"))
mut("23-join-out", "C23", (MA, '''    with open(out_filename, "wb") as out:
        for bytes_out, b in enumerate(m.emit_stream(m.encode())):
            out.write(bytearray([b]))
''', '''    data = bytearray(m.emit_stream(m.encode()))
    with open(out_filename, "wb") as out:
        out.write(data)
'''))
mut("23-keep-bmp", "C23", (F, '''                    self._palette_arg(),
                    "D9"  # Buckels dither
                ])

                os.remove(bmpfile)
''', '''                    self._palette_arg(),
                    "D9"  # Buckels dither
                ])

'''), (F, '''                    "A",  # Output separate .BIN and .AUX files
                    "D9"  # Buckels dither
                ])

                os.remove(bmpfile)
''', '''                    "A",  # Output separate .BIN and .AUX files
                    "D9"  # Buckels dither
                ])

'''))
mut("23-whole-norm", "C23", (A, "                if len(raw) > read_bytes:\n                    break\n", ""))
mut("23-thread-per-frame", "C23", (F, '''                for _idx, _frame in enumerate(self._frame_grabber()):
                    q.put(decode(_idx, _frame))
''', '''                for _idx, _frame in list(enumerate(self._frame_grabber())):
                    q.put(decode(_idx, _frame))
'''))

mut("17-skip-existing", "C17", (D, """    dist = compute_edit_distance(edp, bitmap_cls, nominal_colours)
    data = "%s/%s_palette_%d_edit_distance.npz" % (
        DATA_DIR, bitmap_cls.NAME, pal.ID.value)
    np.savez_compressed(data, edit_distance=dist)
""", """    data = "%s/%s_palette_%d_edit_distance.npz" % (
        DATA_DIR, bitmap_cls.NAME, pal.ID.value)
    if os.path.exists(data):
        print("%s is there already" % data)
        return
    dist = compute_edit_distance(edp, bitmap_cls, nominal_colours)
    np.savez_compressed(data, edit_distance=dist)
"""))
# -- C24
mut("24-no-carry", "C24", (V, "        update_priority += diff_weights\n",
                           "        update_priority[:] = diff_weights\n"))
mut("24-clear-all", "C24", (V, "        update_priority[diff_weights == 0] = 0\n",
                            "        update_priority[:] = 0\n"))
mut("24-cap", "C24", (V, "        update_priority += diff_weights\n",
                      "        update_priority[:] = np.minimum(update_priority, diff_weights)"
                      " + diff_weights\n"))
mut("24-order", "C24", (V, "            -update_priority[pages, offsets],\n",
                        "            update_priority[pages, offsets],\n"))
mut("24-stale-heap", "C24", (V, "        priorities = self._heapify_priorities(update_priority)\n",
                             "        priorities = self._heapify_priorities(diff_weights)\n"))
mut("24-top", "C24", (V, "        heapq.heapify(priorities)\n        return priorities\n",
                      "        return sorted(priorities)[:400]\n"))


def run(name, prop, edits, tests):
    t = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree("/repo", t + "/r", symlinks=True)
        for fn, old, new in edits:
            p = os.path.join(t, "r", fn)
            s = open(p).read()
            if s.count(old) != 1:
                return "BAD EDIT (%d matches of %r)" % (s.count(old), old[:50])
            open(p, "w").write(s.replace(old, new))
        out = ""
        if tests:
            r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-m", "pytest", "-q", "-p",
                                "no:cacheprovider", "transcoder"], cwd=t + "/r",
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = r.stdout.decode().strip().splitlines()[-1].split(" in ")[0] + "; "
        t0 = time.time()
        r = subprocess.run([os.path.join(HERE, "check"), prop, "quick"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT,
                           env=dict(os.environ, VERIF_REPO=t + "/r", VERIF_SHRINK_S="3"))
        o = r.stdout.decode().strip().splitlines()
        what = {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR")
        return out + "%s in %.0f s: %s" % (what, time.time() - t0, " / ".join(o[-2:])[:300])
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    tests = "-t" in a
    a = [x for x in a if x != "-t"]
    for name, prop, edits in M:
        if not a or name in a or any(x.endswith("-") and name.startswith(x) for x in a):
            print(name, prop, run(name, prop, edits, tests), flush=True)
