#!/bin/bash
# seedtest.sh ID...: builds a scratch clone with each planted bug and runs the repository's tests (all must pass)
here="$(cd "$(dirname "$0")/.." && pwd)"
w=$(mktemp -d /tmp/seedtest.XXXX)
trap 'rm -rf "$w"' EXIT
git clone -q /repo "$w/r" && cd "$w/r" || exit 1
export CC=gcc CXX=g++
cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Release >/dev/null
for i in "$@"; do
  git checkout -q -- . && git apply "$here/seeded/$i/patch.diff" || { echo "$i: patch does not apply"; continue; }
  ninja -C _build all util >/tmp/seedtest.log 2>&1 || { echo "$i: does not build"; tail -3 /tmp/seedtest.log; continue; }
  a=$(ctest --test-dir _build -C Release -LE flavour -j1 --timeout 300 2>&1 | grep -E "tests passed|Failed|Timeout|\*\*\*" | tr '\n' ' ')
  b=$(ctest --test-dir _build -C Release -L flavour -j4 --timeout 600 2>&1 | grep -E "tests passed|Failed|Timeout|\*\*\*" | tr '\n' ' ')
  echo "$i: $a / $b"
done
