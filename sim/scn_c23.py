"""C23: the work in progress of a transcode is bounded, however long the movie is."""
import os
import shutil

import numpy as np

import transcode as tc
from core import Violation
from env import load_transcoder
from scn_c10 import pictures

CPU_BUDGET_S = 240
AHEAD_S = 12            # seconds of movie that audio may be decoded ahead of the output file
AHEAD_PICTURES = 64
AHEAD_NORMALIZE = 16 << 20
SPARE_FILES = 64
SPARE_BYTES = 4 << 20


def setup(tier):
    load_transcoder()




def scenario(run):
    ch = run.ch
    spec = tc.Spec()
    spec.mode = ch.pick(("HGR", "DHGR"), "mode")
    spec.palette = ch.pick(("NTSC", "IIGS"), "palette")
    spec.every_n = ch.pick((1, 2, 5), "every_n")
    spec.bitrate = ch.pick((14700, 22500, 8000), "bitrate")
    spec.random_seed = ch.draw(1000, "random")
    measure = ch.chance(1, 6, "normalize")      # the pass that measures how loud the movie is
    fps = ch.pick((3, 10, 25), "fps")
    secs = 18 + ch.draw(12 if run.tier == "quick" else 120, "seconds")
    rate, channels = ch.pick(((spec.bitrate, 1), (44100, 2), (spec.bitrate, 2), (48000, 1)), "audio")
    if measure:
        rate, channels, secs = 44100, 2, 150
        spec.normalization = None
        spec.max_mb = 0.01
    n = secs * rate
    width = 2
    m, _ = pictures(run, spec, secs * fps + 2, 37, width)
    m.rate = "%d/1" % fps
    rng = ch.bulk("audio")
    base = np.frombuffer(rng.getrandbits(16 * 20000).to_bytes(40000, "little"), dtype="<i2")
    m.samples = np.array([np.resize(base, n)] * channels)
    m.samplerate = rate
    m.blocks = [ch.pick((4096, 65536, 30000), "block")]
    spec.switch_den = ch.pick((0, 1000, 50), "preempt")
    slow_audio = ch.pick((0, 20, 3), "slow-audio")
    slow_frame = ch.pick((0, 20, 3), "slow-frame")
    root = tc.scratch()
    out = os.path.join(root, "out.a2m")
    kern = []
    at = {"audio": 0, "pass": 0}
    worst = {"audio": 0.0, "pictures": 0, "files": 0, "bytes": 0}
    fileinfo = os.stat

    def written():
        """Seconds of movie in the output file."""
        try:
            return fileinfo(out).st_size / 7.0 / spec.bitrate
        except OSError:
            return 0.0

    def pause(den, what):
        if den and kern[0].current is not None and ch.chance(1, den, what):
            run.count("fault:" + what)
            kern[0].sleep(ch.pick((0.01, 1.0, 60.0), "time"))

    def on_audio():
        if m.audio_opens != at["pass"]:
            at["pass"], at["audio"] = m.audio_opens, 0
        at["audio"] += m.blocks[0]
        if spec.normalization is None and m.audio_opens == 1:
            if at["audio"] > AHEAD_NORMALIZE:
                raise Backlog("audio", "%d MB of audio are read before anything is encoded" % (
                    at["audio"] >> 20))
            return
        ahead = at["audio"] / 2.0 / channels / rate - written()
        worst["audio"] = max(worst["audio"], ahead)
        if ahead > AHEAD_S:
            raise Backlog("audio", "%.0f s of audio are decoded, and nothing of it is in the "
                          "output file" % ahead)
        pause(slow_audio, "slow-audio")

    def on_frame(i):
        ahead = i + 1 - written() * fps
        worst["pictures"] = max(worst["pictures"], ahead)
        if ahead > AHEAD_PICTURES:
            raise Backlog("pictures", "%d pictures are decoded ahead of the output file" % ahead)
        if i % 16 == 15:
            files = size = 0
            for d, _, names in os.walk(root):
                for f in names:
                    p = os.path.join(d, f)
                    if p != out:
                        files += 1
                        size += fileinfo(p).st_size
            worst["files"] = max(worst["files"], files - 2 * i)
            if files > 2 * (i + 1) + SPARE_FILES or size > 16384 * (i + 1) + SPARE_BYTES:
                raise Backlog("disk", "after %d pictures there are %d files of %d kB" % (
                    i + 1, files, size >> 10))
        pause(slow_frame, "slow-frame")
    found = []

    class Backlog(Exception):
        def __init__(self, kind, text):
            Exception.__init__(self, text)
            found.append((kind, text))

    def point(tag):
        kern[0].point(tag)
        if tag == "audio":
            on_audio()

    def before(k, s):
        kern.append(k)
        m.point = point
        m.on_frame = on_frame
    try:
        res = tc.run_transcode(run, spec, m, root, before=before)
        if found:
            raise Violation("unbounded-" + found[0][0], found[0][1])
        tc.must_succeed(res)
        n_out = len(res.stream)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    run.digest(res.stream)
    run.note(spec.mode, rate, channels, "Hz", fps, "fps", secs, "s", "pictures ahead",
             int(worst["pictures"]), "audio ahead %.1f s" % worst["audio"])
    run.sim_ns = int(n_out / 7.0 / spec.bitrate * 1e9)
    run.count("bytes_out", n_out)
    run.count("pictures", m.frames_read)
    run.nontrivial = True
    run.state(spec.mode, rate, channels, fps, spec.switch_den, int(worst["pictures"]),
              int(worst["audio"] * 10))
