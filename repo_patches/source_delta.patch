From 5ec8c88e66edca21197e9f69437402ba93bc75c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 01/13] fix: pad with the byte on screen so that padding never
 changes the picture

---
 transcoder/video.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/transcoder/video.py b/transcoder/video.py
index fe90147..73c617f 100644
--- a/transcoder/video.py
+++ b/transcoder/video.py
@@ -245,8 +245,10 @@ class Video:
         #             target_pixelmap.packed[diff_p, diff_o]))
         #     assert False
 
-        # If we run out of things to do, pad forever
-        content = target.page_offset[0, 0]
+        # If we run out of things to do, pad forever with a store that does not
+        # change the screen.  This must be the byte we have on screen, which may
+        # be different from the (visually equivalent) one in the target.
+        content = source.page_offset[0, 0]
         while True:
             yield 32, content, [0, 0, 0, 0]
 
-- 
2.43.0


From e183d7aa0f93a247626f915219a282fd926d60f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 02/13] fix: do not divide by zero when normalizing silent
 audio

---
 transcoder/audio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transcoder/audio.py b/transcoder/audio.py
index f537be2..6254e21 100644
--- a/transcoder/audio.py
+++ b/transcoder/audio.py
@@ -78,6 +78,9 @@ class Audio:
                     break
         a = self._decode(f, raw)
         norm = np.max(np.abs(np.percentile(a, [0.5, 99.5])))
+        if not norm:
+            # (Almost) completely silent, there is nothing to normalize
+            return 1.
 
         return 16384. / norm
 
-- 
2.43.0


From 1bd16555aefe667af3c08c912e7f1b6860f2ffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 03/13] fix: carry incomplete audio sample frames over to the
 next decoder block

---
 transcoder/audio.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/transcoder/audio.py b/transcoder/audio.py
index 6254e21..9718674 100644
--- a/transcoder/audio.py
+++ b/transcoder/audio.py
@@ -1,6 +1,6 @@
 """Encodes input audio stream into sequence of speaker duty cycle counts."""
 
-from typing import Iterator
+from typing import Iterable, Iterator
 
 import audioread
 import librosa
@@ -61,6 +61,26 @@ class Audio:
 
         return a
 
+    def _whole_frames(
+            self, f, data: Iterable[bytes], frames: int = 1) -> Iterator[bytes]:
+        """Regroup decoded data into blocks of a multiple of N sample frames.
+
+        The decoder may split its output anywhere, including within a frame.
+        """
+        pending = bytearray()
+        block_size = 2 * f.channels * frames
+        for buf in data:
+            pending.extend(buf)
+            size = len(pending) // block_size * block_size
+            if size:
+                yield bytes(pending[:size])
+                del pending[:size]
+
+        # Whatever is left of the last block
+        size = len(pending) // (2 * f.channels) * (2 * f.channels)
+        if size:
+            yield bytes(pending[:size])
+
     def _normalization(self, read_bytes=1024 * 1024 * 10):
         """Read first read_bytes of audio stream and compute normalization.
 
@@ -72,7 +92,7 @@ class Audio:
         """
         raw = bytearray()
         with audioread.audio_open(self.filename) as f:
-            for buf in f.read_data():
+            for buf in self._whole_frames(f, f.read_data()):
                 raw.extend(bytearray(buf))
                 if len(raw) > read_bytes:
                     break
@@ -90,7 +110,7 @@ class Audio:
         :return:
         """
         with audioread.audio_open(self.filename) as f:
-            for buf in f.read_data(128 * 1024):
+            for buf in self._whole_frames(f, f.read_data(128 * 1024)):
                 a = self._decode(f, buf)
 
                 a /= 16384  # normalize to -1.0 .. 1.0
-- 
2.43.0


From af80ccd8e09dd4e52371901838fc41a0da13603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 04/13] fix: resample audio blocks to exactly the number of
 samples they stand for

---
 transcoder/audio.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/transcoder/audio.py b/transcoder/audio.py
index 9718674..ac66e6e 100644
--- a/transcoder/audio.py
+++ b/transcoder/audio.py
@@ -1,5 +1,6 @@
 """Encodes input audio stream into sequence of speaker duty cycle counts."""
 
+import math
 from typing import Iterable, Iterator
 
 import audioread
@@ -55,11 +56,14 @@ class Audio:
             'float32').reshape((f.channels, -1), order='F')
 
         a = librosa.core.to_mono(data)
+        # resample() rounds up with floating point precision, which may give us
+        # one sample too many
+        num_samples = -(-a.shape[-1] * int(self.sample_rate) // f.samplerate)
         a = librosa.resample(a, orig_sr=f.samplerate,
                              target_sr=self.sample_rate,
                              res_type='scipy', scale=True).flatten()
 
-        return a
+        return a[:num_samples]
 
     def _whole_frames(
             self, f, data: Iterable[bytes], frames: int = 1) -> Iterator[bytes]:
@@ -110,7 +114,13 @@ class Audio:
         :return:
         """
         with audioread.audio_open(self.filename) as f:
-            for buf in self._whole_frames(f, f.read_data(128 * 1024)):
+            # Resample in blocks that correspond to a whole number of output
+            # samples.  Otherwise each block is rounded up, and audio drifts
+            # out of sync with video.
+            frames = f.samplerate // math.gcd(
+                f.samplerate, int(self.sample_rate))
+            for buf in self._whole_frames(
+                    f, f.read_data(128 * 1024), frames):
                 a = self._decode(f, buf)
 
                 a /= 16384  # normalize to -1.0 .. 1.0
-- 
2.43.0


From c69b1dee8fcc1678d055f808dccfade04428c384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 05/13] fix: do not let screen rows leak into each other's
 pixel representation

---
 transcoder/screen.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/transcoder/screen.py b/transcoder/screen.py
index 780f45c..3779028 100644
--- a/transcoder/screen.py
+++ b/transcoder/screen.py
@@ -68,6 +68,12 @@ def _populate_mappings():
 
 _populate_mappings()
 
+# Columns (pairs of neighbouring screen bytes) that do not continue the column
+# before/after them, because a new screen row (or screen hole) begins there.
+FIRST_COLUMNS = [
+    half * 64 + row * 20 for half in range(2) for row in range(4)]
+LAST_COLUMNS = [(column - 1) % 128 for column in FIRST_COLUMNS]
+
 
 class FlatMemoryMap:
     """Linear 8K representation of HGR screen memory."""
@@ -187,9 +193,6 @@ class Bitmap:
             shape=(32, 128), dtype=np.uint64)  # type: np.ndarray
         self._pack()
 
-    # TODO: don't leak headers/footers across screen rows.  We should be using
-    # x-y representation rather than page-offset
-
     @staticmethod
     def _make_header(col: IntOrArray) -> IntOrArray:
         """Extract values to use as header of next column."""
@@ -213,15 +216,15 @@ class Bitmap:
         # decode the effective colours at the beginning of the 22-bit tuple
         prev_col = np.roll(body, 1, axis=1).astype(np.uint64)
         header = self._make_header(prev_col)
-        # Don't leak header across page boundaries
-        header[:, 0] = 0
+        # Don't leak header across screen rows
+        header[:, FIRST_COLUMNS] = 0
 
         # Append first 3 bits of next even byte so we can correctly
         # decode the effective colours at the end of the 22-bit tuple
         next_col = np.roll(body, -1, axis=1).astype(np.uint64)
         footer = self._make_footer(next_col)
-        # Don't leak footer across page boundaries
-        footer[:, -1] = 0
+        # Don't leak footer across screen rows
+        footer[:, LAST_COLUMNS] = 0
 
         self.packed = header ^ body ^ footer
 
@@ -280,12 +283,13 @@ class Bitmap:
             byte_offset: int) -> None:
         """Fix up column headers/footers when updating a (page, offset)."""
 
-        if byte_offset == 0 and offset > 0:
+        if byte_offset == 0 and offset not in FIRST_COLUMNS:
             self.packed[page, offset - 1] = self._fix_column_left(
                 self.packed[page, offset - 1],
                 self.packed[page, offset]
             )
-        elif byte_offset == (self.SCREEN_BYTES - 1) and offset < 127:
+        elif (byte_offset == (self.SCREEN_BYTES - 1) and
+              offset not in LAST_COLUMNS):
             # Need to also update the 3-bit header of the next column
             self.packed[page, offset + 1] = self._fix_column_right(
                 self.packed[page, offset + 1],
@@ -510,7 +514,7 @@ class Bitmap:
         ok = True
         if nz.size != 0:
             for p, o in nz.tolist():
-                if o == 0 or o == 127:
+                if o in FIRST_COLUMNS or o in LAST_COLUMNS:
                     continue
                 ok = False
                 print(p, o, bin(self.packed[p, o - 1]),
-- 
2.43.0


From 6410c287859bfe73628d3cc0c2aba6b7badd66c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:42 +0000
Subject: [PATCH 06/13] fix: end with an error when the frame decoder or
 converter fails

---
 transcoder/frame_grabber.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/transcoder/frame_grabber.py b/transcoder/frame_grabber.py
index 2940f1d..c9733df 100644
--- a/transcoder/frame_grabber.py
+++ b/transcoder/frame_grabber.py
@@ -64,6 +64,7 @@ class FileFrameGrabber(FrameGrabber):
         os.makedirs(frame_dir, exist_ok=True)
 
         q = queue.Queue(maxsize=10)
+        error = []
 
         def _hgr_decode(_idx, _frame):
             outfile = "%s/%08dC.BIN" % (frame_dir, _idx)
@@ -121,8 +122,12 @@ class FileFrameGrabber(FrameGrabber):
                 _dhgr_decode if self.video_mode == VideoMode.DHGR else
                 _hgr_decode
             )
-            for _idx, _frame in enumerate(self._frame_grabber()):
-                q.put(decode(_idx, _frame))
+            try:
+                for _idx, _frame in enumerate(self._frame_grabber()):
+                    q.put(decode(_idx, _frame))
+            except Exception as e:
+                # Raised by the consumer, once it has seen the frames up to here
+                error.append(e)
 
             q.put((None, None))
 
@@ -145,3 +150,5 @@ class FileFrameGrabber(FrameGrabber):
             q.task_done()
 
         t.join()
+        if error:
+            raise error[0]
-- 
2.43.0


From 7726a4f26036c5e45dab26810f77ebdd176771be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 07/13] fix: keep incomplete converted frames out of the
 picture cache

---
 transcoder/frame_grabber.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/transcoder/frame_grabber.py b/transcoder/frame_grabber.py
index c9733df..f766e18 100644
--- a/transcoder/frame_grabber.py
+++ b/transcoder/frame_grabber.py
@@ -63,12 +63,26 @@ class FileFrameGrabber(FrameGrabber):
             self.filename, self.video_mode, self.palette)
         os.makedirs(frame_dir, exist_ok=True)
 
+        # Frames are converted here and moved to frame_dir once complete, so that
+        # we never pick up the remains of an interrupted or failed conversion.
+        tmp_dir = "%s/tmp" % frame_dir
+        os.makedirs(tmp_dir, exist_ok=True)
+
         q = queue.Queue(maxsize=10)
         error = []
 
+        def _publish(*outfiles):
+            tmpfiles = [
+                "%s/%s" % (tmp_dir, os.path.basename(f)) for f in outfiles]
+            for tmpfile in tmpfiles:
+                if os.path.getsize(tmpfile) != 8192:
+                    raise IOError("Incomplete converted frame %s" % tmpfile)
+            for tmpfile, outfile in zip(tmpfiles, outfiles):
+                os.replace(tmpfile, outfile)
+
         def _hgr_decode(_idx, _frame):
             outfile = "%s/%08dC.BIN" % (frame_dir, _idx)
-            bmpfile = "%s/%08d.bmp" % (frame_dir, _idx)
+            bmpfile = "%s/%08d.bmp" % (tmp_dir, _idx)
 
             try:
                 os.stat(outfile)
@@ -83,6 +97,7 @@ class FileFrameGrabber(FrameGrabber):
                 ])
 
                 os.remove(bmpfile)
+                _publish(outfile)
 
             _main = np.fromfile(outfile, dtype=np.uint8)
 
@@ -92,7 +107,7 @@ class FileFrameGrabber(FrameGrabber):
             mainfile = "%s/%08d.BIN" % (frame_dir, _idx)
             auxfile = "%s/%08d.AUX" % (frame_dir, _idx)
 
-            bmpfile = "%s/%08d.bmp" % (frame_dir, _idx)
+            bmpfile = "%s/%08d.bmp" % (tmp_dir, _idx)
 
             try:
                 os.stat(mainfile)
@@ -109,6 +124,7 @@ class FileFrameGrabber(FrameGrabber):
                 ])
 
                 os.remove(bmpfile)
+                _publish(mainfile, auxfile)
 
             _main = np.fromfile(mainfile, dtype=np.uint8)
             _aux = np.fromfile(auxfile, dtype=np.uint8)
-- 
2.43.0


From 4dbeaa4ebf8b660fd6c8e6040d8153d6e2dde79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:51 +0000
Subject: [PATCH 08/13] fix: report the state of a soft switch in bit 7 of its
 status location

---
 simulator/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/machine.py b/simulator/machine.py
index bc6d076..4f4220f 100644
--- a/simulator/machine.py
+++ b/simulator/machine.py
@@ -73,7 +73,7 @@ class SoftSwitch:
     def get(self) -> int:
         Log(self.name, "Reading soft switch (%s)" % (
             "on" if self.state else "off"))
-        return 0x80 & self.state
+        return 0x80 if self.state else 0x00
 
     @staticmethod
     def unimplemented(_):
-- 
2.43.0


From ec4d83a5bed5d4c114e805871763da8932445600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:51 +0000
Subject: [PATCH 09/13] fix: keep all of the low address byte when the high one
 is written

---
 simulator/apple2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/apple2.py b/simulator/apple2.py
index 7ab06cd..ac73112 100644
--- a/simulator/apple2.py
+++ b/simulator/apple2.py
@@ -58,7 +58,7 @@ class AppleII(machine.Machine):
 
         def _uther_wadrh(mode, value):
             old = self.uthernet.ptr
-            self.uthernet.ptr = (value << 8) | (self.uthernet.ptr & 0x7f)
+            self.uthernet.ptr = (value << 8) | (self.uthernet.ptr & 0xff)
             machine.Log("WADRH", "%04x -> %04x" % (old, self.uthernet.ptr))
 
         def _uther_wadrl(mode, value):
-- 
2.43.0


From f36c083ce7b44bb7753a01d17d0de97ef4acac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:56 +0000
Subject: [PATCH 10/13] fix: load the last byte of the slot 6 and main ROM
 images

$C6FF and $FFFF (high byte of the IRQ vector) were left at zero.
---
 simulator/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulator/simulator.py b/simulator/simulator.py
index de20ff6..a21f1b1 100644
--- a/simulator/simulator.py
+++ b/simulator/simulator.py
@@ -16,10 +16,10 @@ def main():
     # TODO: other slot ROMs; alternate Cx ROMs
 
     # Slot 6 ROM
-    a2.memory.write(0xc600, rom[0x0600:0x6ff])
+    a2.memory.write(0xc600, rom[0x0600:0x700])
 
     # Main ROM
-    a2.memory.write(0xd000, rom[0x5000:0x7fff])
+    a2.memory.write(0xd000, rom[0x5000:0x8000])
 
     # Load video player
 
-- 
2.43.0


From d312c6348b40d059bb98f886a1f48a01e3e4ac04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 11/13] fix: convert frames in a directory of their own per
 transcode

---
 transcoder/frame_grabber.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/transcoder/frame_grabber.py b/transcoder/frame_grabber.py
index f766e18..1561ad0 100644
--- a/transcoder/frame_grabber.py
+++ b/transcoder/frame_grabber.py
@@ -2,7 +2,9 @@
 
 import os
 import queue
+import shutil
 import subprocess
+import tempfile
 import threading
 from typing import Iterator
 
@@ -64,9 +66,9 @@ class FileFrameGrabber(FrameGrabber):
         os.makedirs(frame_dir, exist_ok=True)
 
         # Frames are converted here and moved to frame_dir once complete, so that
-        # we never pick up the remains of an interrupted or failed conversion.
-        tmp_dir = "%s/tmp" % frame_dir
-        os.makedirs(tmp_dir, exist_ok=True)
+        # we never pick up the remains of an interrupted or failed conversion, or
+        # of one that is still going on in another process.
+        tmp_dir = tempfile.mkdtemp(prefix="tmp", dir=frame_dir)
 
         q = queue.Queue(maxsize=10)
         error = []
@@ -168,3 +170,4 @@ class FileFrameGrabber(FrameGrabber):
         t.join()
         if error:
             raise error[0]
+        shutil.rmtree(tmp_dir, ignore_errors=True)
-- 
2.43.0


From bb6cf6cb43fedd282b1215fc8d925fcda26820b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:09 +0000
Subject: [PATCH 12/13] fix: keep the connection of a paused client until it
 has all of the data

Once everything was in the socket's send buffer (easily the last minute of a
movie, or all of a short one), we closed the socket.  Linux drops such an orphaned
connection when its peer keeps the window closed for 5 to 8 minutes, i.e. after a
pause of that length the rest of the movie was lost and playback hung.

Serve clients in threads, so that nobody waits for the one that is paused.
---
 server/server.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/server/server.py b/server/server.py
index df73592..38fdf93 100644
--- a/server/server.py
+++ b/server/server.py
@@ -1,5 +1,7 @@
 import argparse
+import socket
 import socketserver
+import struct
 
 
 parser = argparse.ArgumentParser(
@@ -19,6 +21,13 @@ def main(args):
     def handler():
         class ChunkHandler(socketserver.BaseRequestHandler):
             def handle(self):
+                # Closing the connection waits until the client has taken all
+                # of the data (or for the longest time that all systems allow).
+                # Otherwise the system is free to drop what it has not sent yet,
+                # and does so if the client is paused for minutes.
+                self.request.setsockopt(
+                    socket.SOL_SOCKET, socket.SO_LINGER,
+                    struct.pack("ii", 1, 32767))
                 with open(serve_file, "rb") as f:
                     data = f.read()
                     print("Sending %d bytes" % len(data))
@@ -26,10 +35,12 @@ def main(args):
 
         return ChunkHandler
 
-    with socketserver.TCPServer(
+    # A paused client must not keep others waiting
+    with socketserver.ThreadingTCPServer(
             ("0.0.0.0", args.port), handler(),
             bind_and_activate=False) as server:
         server.allow_reuse_address = True
+        server.daemon_threads = True
         server.server_bind()
         server.server_activate()
         server.serve_forever()
-- 
2.43.0


From c0563146526e4bde3e3ae19754e93d27cca5adc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:34 +0000
Subject: [PATCH 13/13] fix: name picture cache and default output correctly
 for movies without a suffix

---
 transcoder/frame_grabber.py | 10 ++++++----
 transcoder/main.py          |  3 ++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/transcoder/frame_grabber.py b/transcoder/frame_grabber.py
index 1561ad0..7dce779 100644
--- a/transcoder/frame_grabber.py
+++ b/transcoder/frame_grabber.py
@@ -47,10 +47,12 @@ class FileFrameGrabber(FrameGrabber):
 
     @staticmethod
     def _output_dir(filename, video_mode, palette) -> str:
-        return "%s/%s/%s" % (
-            ".".join(filename.split(".")[:-1]),
-            video_mode.name,
-            palette.name)
+        root, ext = os.path.splitext(filename)
+        if not ext:
+            # There is no suffix to strip, but we need a name other than that of the
+            # movie itself
+            root += ".frames"
+        return "%s/%s/%s" % (root, video_mode.name, palette.name)
 
     def _palette_arg(self) -> str:
         return "P%d" % self.palette.value
diff --git a/transcoder/main.py b/transcoder/main.py
index 398532d..703d8b0 100644
--- a/transcoder/main.py
+++ b/transcoder/main.py
@@ -1,6 +1,7 @@
 """Transcodes an input video file to ][-Vision format."""
 
 import argparse
+import os
 
 import movie
 import palette
@@ -62,7 +63,7 @@ def main(args):
         out_filename = args.output
     else:
         # Replace suffix with .a2m
-        out_filename = ".".join(filename.split(".")[:-1] + ["a2m"])
+        out_filename = os.path.splitext(filename)[0] + ".a2m"
 
     with open(out_filename, "wb") as out:
         for bytes_out, b in enumerate(m.emit_stream(m.encode())):
-- 
2.43.0

