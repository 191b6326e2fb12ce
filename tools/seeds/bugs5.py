bug("c17-salvage", "C17",
    "a table cut short by a killed generator or a full disk",
    "the encoder works with what there is of the table, the rest being zeros, and reports nothing",
    [("transcoder/screen.py", """        dist = np.load(data)['edit_distance']

""", """        try:
            dist = np.load(data)['edit_distance']
        except zipfile.BadZipFile:
            # The directory at the end is missing, but we only need the one member
            with open(data, "rb") as f:
                f.seek(26)
                f.seek(30 + sum(struct.unpack("<HH", f.read(4))))
                raw = zlib.decompressobj(-15).decompress(f.read())
            shape = (len(cls.BYTE_MASKS), 2 ** int(2 * cls.MASKED_BITS))
            dist = np.zeros(shape, dtype=np.uint16)
            body = np.frombuffer(raw[128:len(raw) & ~1], dtype=np.uint16)
            dist.flat[:len(body)] = body

"""), ("transcoder/screen.py", "import functools\n", "import functools\nimport struct\nimport zipfile\nimport zlib\n")],
    '''
import os
import shutil
import sys
import tempfile
import numpy as np
sys.path.insert(0, os.path.join(os.getcwd(), "transcoder"))
import palette
import screen
d = tempfile.mkdtemp(prefix="demo")
bad = None
try:
    os.chdir(d)
    os.makedirs("transcoder/data")
    for c in (screen.HGRBitmap, screen.DHGRBitmap):
        c.MASKED_BITS = np.uint64(6)
        t = np.random.RandomState(1).randint(0, 999, (len(c.BYTE_MASKS), 1 << 12)).astype(np.uint16)
        p = list(palette.Palette)[0]
        fn = "transcoder/data/%s_palette_%d_edit_distance.npz" % (c.NAME, p.value)
        np.savez_compressed(fn, edit_distance=t)
        with open(fn, "rb") as f:
            b = f.read()
        for n in (len(b) // 2, len(b) - 60, len(b) - 100, 700):
            with open(fn, "wb") as f:
                f.write(b[:n])
            c.edit_distances.__func__.cache_clear() if hasattr(
                c.edit_distances, "__func__") and hasattr(
                c.edit_distances.__func__, "cache_clear") else None
            try:
                c.edit_distances(p)
            except Exception:
                continue
            bad = "a table cut short at %d of %d bytes is used" % (n, len(b))
finally:
    os.chdir("/")
    shutil.rmtree(d)
if bad:
    sys.stderr.write("BROKEN: %s\\n" % bad)
    sys.exit(1)
''')

QUIET_PART = '''
from demolib import *


def base(y):
    a, r = divmod(y, 64)
    b, c = divmod(r, 8)
    return 1024 * c + 128 * b + 40 * a


r = np.random.RandomState(5)
frames = []
for i in range(36):
    pic = []
    for _ in range(2):
        a = np.zeros(8192, dtype=np.uint8)
        for y in range(20, 60):
            a[base(y):base(y) + 40] = r.randint(0, 128, 40)
        a[base(100) + 3:base(100) + 9] = 0x18
        pic.append(a)
    frames.append(tuple(pic))
M.frames = frames
M.rate = "60/1"
M.samples = np.zeros((1, 245 * 36), dtype=np.int16)
quiet()
for name, arg, mem, bank in play(transcode("--audio_normalization", "1", "--video_mode", "HGR",
                                           "--every_n_video_frames", "1")):
    pass
got = bytes(mem[0][base(100):base(100) + 40])
check(got == frames[0][0][base(100):base(100) + 40].tobytes(),
      "a part that is the same in all 36 pictures is not drawn: %s" % got.hex())
'''

bug("c24-fade", "C24",
    "pictures that change more, and by more, than can be drawn, for some tens of pictures",
    "small differences that persist are never drawn as long as the rest keeps changing",
    [("transcoder/video.py", "        update_priority += diff_weights\n",
      "        # Recent differences matter more\n"
      "        update_priority[:] = update_priority // 2 + diff_weights\n")],
    QUIET_PART)

bug("c24-count-once", "C24",
    "pictures that change more, and by more, than can be drawn, for some tens of pictures",
    "a difference gains weight only where the picture changes, so one that persists is never drawn "
    "as long as the rest keeps changing",
    [("transcoder/video.py", "        update_priority += diff_weights\n",
      """        # A difference has been counted already if the picture did not change there
        previous = self._previous_target.get(is_aux)
        if previous is None:
            previous = np.zeros_like(target.page_offset)
        update_priority[:] = np.where(
            target.page_offset == previous,
            np.maximum(update_priority, diff_weights),
            update_priority + diff_weights)
        self._previous_target[is_aux] = target.page_offset.copy()
"""), ("transcoder/video.py", "        # Accumulates pending edit weights across frames\n",
       "        # What was last asked for, per bank\n        self._previous_target = {}\n\n"
       "        # Accumulates pending edit weights across frames\n")],
    QUIET_PART)
