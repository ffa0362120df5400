#!/usr/bin/env bash
# replay.sh <replay file>: builds the program the file was recorded with and executes it again.
# Exit 1 and a VIOLATION line if it fails the same way.
f="$(readlink -f "$1")"
cd "$(dirname "$0")/.." || exit 2
id="$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1])).get("program",""))' "$f")"
seed="$(echo "$id" | sed -n 's/.*FCFIX_SEED=\([0-9]*\).*/\1/p')"
count="$(echo "$id" | sed -n 's/.*FCFIX_COUNT=\([0-9]*\).*/\1/p')"
opt="$(echo "$id" | sed -n 's/.*FC_OPT=\([0-9]*\).*/\1/p')"
export FC_OPT="${opt:-0}"
only="$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1])).get("compile_range",""))' "$f")"
if [ -n "$only" ]; then
  log="$(mktemp)"
  if bash tools/fixbuild.sh "$seed" "$count" target/replay "$only" >"$log" 2>&1; then echo "it compiles: not reproduced"; rm -f "$log"; exit 0; fi
  grep -m3 -A8 '^error' "$log"; rm -f "$log"
  echo "VIOLATION property=C17 replay=$f"; exit 1
fi
if [ -z "$id" ]; then
  bash build.sh || exit 2
  exec sim/target/debug/fcsim replay "$f"
fi
bash tools/fixbuild.sh "$seed" "$count" target/replay >/dev/null 2>&1 || { echo "the program does not build" >&2; exit 2; }
exec fix/target/replay/debug/fcfix replay "$f"
