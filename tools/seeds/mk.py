"""Writes /verif/seeded/<id>/ from the definitions in tools/seeds/bugs*.py.

    python3 tools/seeds/mk.py [ID...]
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")
SH = """#!/bin/sh
# exit 0: the property holds here; nonzero: it does not
d=$(dirname "$(realpath "$0")")
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$d/demo.py"
"""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


for f in sorted(glob.glob(os.path.join(HERE, "bugs*.py"))):
    exec(compile(open(f).read(), f, "exec"))


def main(ids):
    tmp = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", tmp + "/r"])
        for b in BUGS:
            if ids and b["id"] not in ids:
                continue
            subprocess.check_call(["git", "-C", tmp + "/r", "checkout", "-q", "."])
            for fn, old, new in b["edits"]:
                p = os.path.join(tmp, "r", fn)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], fn, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            d = os.path.join(OUT, b["id"])
            os.makedirs(d, exist_ok=True)
            diff = subprocess.check_output(["git", "-C", tmp + "/r", "diff"]).decode()
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.sh", "w").write(SH)
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
            if "demolib" in b["demo"]:
                shutil.copy(os.path.join(HERE, "demolib.py"), d)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(tmp)


main(sys.argv[1:])
