"""Builds what a check needs from the repository's working tree into a scratch directory."""
import os
import shutil
import subprocess
import tempfile


class BuildError(Exception):
    pass


def build(repo, dest):
    """Assembles the player; lays out cwd_fresh/ and cwd_committed/ for the transcoder."""
    os.makedirs(os.path.join(dest, "runs"), exist_ok=True)
    src = os.path.join(dest, "player")
    os.makedirs(src, exist_ok=True)
    for f in os.listdir(os.path.join(repo, "player")):
        p = os.path.join(repo, "player", f)
        if os.path.isfile(p) and not f.endswith((".o", ".lst", ".map", ".dsk")):
            shutil.copy(p, os.path.join(src, f))
    committed = os.path.join(dest, "committed.dbg")
    shutil.copy(os.path.join(repo, "player", "iivision.dbg"), committed)
    for f in ("iivision.dbg", "iivision"):
        if os.path.exists(os.path.join(src, f)):
            os.unlink(os.path.join(src, f))
    cl = "/usr/bin/cl65"
    r = subprocess.run(
        [cl, "-t", "apple2", "-C", "apple2-asm-hgr.cfg", "--cpu", "6502", "-l", "main.lst",
         "-c", "-o", "main.o", "main.s"], cwd=src, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT)
    if r.returncode == 0:
        r = subprocess.run(
            [cl, "-t", "apple2", "-C", "apple2-asm-hgr.cfg", "--mapfile", "iivision.map", "-Wl",
             "--dbgfile,iivision.dbg", "-u", "__EXEHDR__", "--start-addr", "0x800", "-o",
             "iivision", "main.o"], cwd=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(r.stdout.decode(errors="replace")[-2000:])
    for name, dbg in (("fresh", os.path.join(src, "iivision.dbg")), ("committed", committed)):
        d = os.path.join(dest, "cwd_" + name, "player")
        os.makedirs(d, exist_ok=True)
        shutil.copy(dbg, os.path.join(d, "iivision.dbg"))
        os.makedirs(os.path.join(dest, "cwd_" + name, "transcoder"), exist_ok=True)
    return dest


if __name__ == "__main__":
    import sys
    build(sys.argv[1], sys.argv[2])
