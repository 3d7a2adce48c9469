#!/bin/bash
# tools/unfix.sh COMMIT CHECK...: take one repair back in /repo's working tree, run the checks, and restore
c=$1; shift
R=${REPO:-/repo}; V=$(dirname "$(dirname "$(readlink -f "$0")")")
git -C "$R" diff --quiet || { echo "$R is not clean"; exit 2; }
git -C "$R" show "$c" | git -C "$R" apply -R || exit 2
for k in "$@"; do echo "== without $c: $k"; (cd "$V"; timeout 900 python3-vt check.py "$k" quick 2>&1 | cut -c1-300 | tail -4); done
git -C "$R" checkout -- .
