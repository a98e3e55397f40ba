#!/bin/bash
# trial.sh 'sed expression' file property...: runs checks against a scratch copy of /repo with a change
set -e
expr="$1"; file="$2"; shift 2
d=$(mktemp -d /tmp/trial.XXXXXX)
mkdir "$d/repo"; cp -a /repo/include /repo/src /repo/rx /repo/test /repo/Makefile "$d/repo/"
if [ -f "$expr" ]; then (cd "$d/repo" && patch -s -p1 < "$expr"); else sed -i -E "$expr" "$d/repo/$file"; fi
diff -r -U0 /repo/include "$d/repo/include" | grep '^[-+]' || true
diff -r -U0 /repo/src "$d/repo/src" | grep '^[-+]' || true
diff -r -U0 /repo/rx "$d/repo/rx" | grep '^[-+]' || true
for p in "$@"; do VERIF_REPO="$d/repo" VERIF_EVIDENCE="$d/ev" python3 /verif/checks/check.py $p | cut -c1-300 || true; done
rm -rf "$d"
