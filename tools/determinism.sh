#!/usr/bin/env bash
# determinism.sh <runs> [properties...]: executes the same runs in several processes, alone and in different slices,
# and compares the hashes of their event logs.
n="${1:-400}"; shift
f="$(dirname "$0")/../sim/target/debug/fcsim"
d="$(mktemp -d)"
props="${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17}"
bad=0
for p in $props; do
  for seed in 1 2; do
    for k in 1 2 3 4; do "$f" determinism $p $seed 0 $n > "$d/$p.$seed.$k" & done
    ( for s in 0 1 2 3; do "$f" determinism $p $seed $((n*s/4)) $((n*(s+1)/4)); done > "$d/$p.$seed.5" ) &
    wait
    for k in 2 3 4 5; do cmp -s "$d/$p.$seed.1" "$d/$p.$seed.$k" || { echo "$p seed $seed: copy $k differs"; diff "$d/$p.$seed.1" "$d/$p.$seed.$k" | head -4; bad=1; }; done
  done
  echo "$p: $(wc -l < "$d/$p.1.1") x 2 seeds x 5 executions compared"
done
rm -rf "$d"
exit $bad
