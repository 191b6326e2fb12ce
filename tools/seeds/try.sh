#!/bin/bash
# try.sh ID [check]: demo on /repo and on a patched scratch copy, tests, and optionally the check
id=$1; b=/verif/seeded/$id
t=$(mktemp -d /tmp/try.XXXXXX); trap 'rm -rf "$t"' EXIT
cp -a /repo "$t/r"
(cd "$t/r" && timeout 300 bash $b/demo.sh >/dev/null 2>$t/e0); a=$?
git -C "$t/r" apply $b/patch.diff || { echo "$id: patch does not apply"; exit 1; }
(cd "$t/r" && timeout 300 bash $b/demo.sh >/dev/null 2>$t/e1); c=$?
tests=$(cd "$t/r" && /opt/venv/bin/python -W ignore -m pytest -q -p no:cacheprovider transcoder 2>&1 | tail -1)
echo "$id: demo $a -> $c ($(tail -1 $t/e1 | cut -c1-150)); tests: $tests"
[ $a = 0 ] || tail -3 $t/e0
p=$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")
[ "$2" = check ] && (cd /verif && VERIF_REPO=$t/r VERIF_SHRINK_S=${SH:-10} ./check $p quick 2>&1 | tail -2 | cut -c1-400)
