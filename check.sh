#!/usr/bin/env bash
# check.sh <property> [quick|thorough]: builds the simulator from /repo's working tree, together with seeded sets of
# compile-time generated collections, and runs one property's check.
cd "$(dirname "$0")" || exit 2
here="$PWD"
prop="$1"
tier="${2:-${VERIF_TIER:-quick}}"
seed="${VERIF_SEED:-1}"
case "$seed" in '' | *[!0-9]*) seed=1 ;; esac
seed=$((10#$seed % 1000000))
# one set of generated collections for most properties, several for the property that is about them
sets=1 count=24
if [ "$prop" = C17 ]; then
  count=45
  if [ "$tier" = thorough ]; then sets=8; else sets=2; fi
fi
# long searches are worth a build that takes longer
if [ "$tier" = thorough ]; then export FC_OPT=1; else export FC_OPT=0; fi
mkdir -p .work
tmp="$(mktemp -d "$here/.work/build.XXXXXX")"
trap 'rm -rf "$tmp"' EXIT
i=0
while [ $i -lt $sets ]; do
  # two builds at a time
  for k in $i $((i + 1)); do
    [ $k -lt $sets ] || continue
    s=$((seed * 100 + k))
    bash tools/fixbuild.sh $s $count "target/s$k" >"$tmp/log.$k" 2>&1 && echo ok >"$tmp/ok.$k" &
  done
  wait
  i=$((i + 2))
done
exes="" broken=""
for k in $(seq 0 $((sets - 1))); do
  if [ -f "$tmp/ok.$k" ]; then exes="$exes:$here/fix/target/s$k/debug/fcfix"; else broken="$broken $k"; fi
done
if [ -n "$broken" ]; then
  # without any generated collection, does it build?
  k="$(echo $broken | cut -d' ' -f1)" s=$((seed * 100 + $(echo $broken | cut -d' ' -f1)))
  if [ "$prop" = C17 ]; then
    if ! bash tools/fixbuild.sh $s $count "target/s$k" 0-0 >"$tmp/none" 2>&1; then
      cat "$tmp/none" >&2; echo "check.sh: the simulator does not build against /repo" >&2; exit 2
    fi
    bash tools/compile_violation.sh "$s" "$count" "target/s$k" && exit 1
    cat "$tmp/log.$k" >&2; echo "check.sh: the generated collections did not build at first, and did later" >&2; exit 2
  fi
fi
if [ -z "$exes" ]; then
  # the plain simulator, which leaves out the generated collections
  bash build.sh || { echo "check.sh: the simulator does not build against /repo" >&2; exit 2; }
  exes="$here/sim/target/debug/fcsim"
fi
first="$(echo "$exes" | tr ':' '\n' | grep -m1 .)"
FCSIM_EXES="$exes" "$first" check "$prop" "$tier" "$seed" "$here"
