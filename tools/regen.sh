#!/bin/sh
cd "$(dirname "$0")/.." && python3 tools/mkprops.py && python3 tools/mkmanifest.py
