#!/bin/bash
# mut.sh PATCH CHECK...: runs quick checks against a scratch copy of /repo
# with PATCH applied (VF_REPO), in a build directory of its own.
set -u
patch=$(realpath "$1"); shift
d=$(mktemp -d /tmp/mut.XXXXXX)
git -C "${SRC:-/repo}" archive HEAD | tar x -C "$d"
git -C "$d" init -q
git -C "$d" apply "$patch" || { echo "does not apply"; rm -rf "$d"; exit 9; }
mkdir "$d/.vfbuild"
cd "$(dirname "$0")/.."
for id in "$@"; do
  VF_REPO=$d VF_BUILD=$d/.vfbuild timeout 900 /opt/stempy-venv/bin/python -m vf run $id quick ${SEED:-1} > "$d/out" 2>&1
  rc=$?
  echo "== $id rc=$rc $(grep -h '^--- ' "$d/out" | head -3 | tr '\n' ';') $(tail -1 "$d/out" | cut -c1-150)"
  [ -n "${SHOW:-}" ] && tail -c ${SHOW} "$d/out"
done
rm -rf "$d"
