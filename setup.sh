#!/bin/sh
# Everything is interpreted; each check assembles the player itself.  Only a self-test here.
set -e
cd "$(dirname "$0")"
python3 -c "import json; json.load(open('MANIFEST.json'))"
/opt/venv/bin/python -c "import numpy, PIL, skvideo, audioread, py65, colormath"
mkdir -p evidence replays
