#!/usr/bin/env bash
# fixbuild.sh <seed> <count> <target dir under fix/> [<from>-<to>]: builds the simulator together with the compile-time
# collections of that seed. The seed decides the entries and the build-time hash randomness.
# FC_OPT in the environment: the optimisation level.
cd "$(dirname "$0")/../fix" || exit 2
. ../tools/env.sh
export FCFIX_SEED="$1" FCFIX_COUNT="$2" CARGO_TARGET_DIR="$PWD/$3" CONST_RANDOM_SEED="fc$1"
[ -n "$4" ] && export FCFIX_ONLY="$4"
# the macro crate that draws the randomness is not rebuilt for another seed by itself
if [ -f "$3/.seed" ] && [ "$(cat "$3/.seed")" != "$1" ]; then rm -rf "$PWD/$3"; fi
mkdir -p "$3" && echo "$1" > "$3/.seed"
# optimised, runs are faster and the build takes longer
if [ "${FC_OPT:-0}" != 0 ]; then
  set -- --config "profile.dev.opt-level=$FC_OPT" --config "profile.dev.package.fcsim.opt-level=$FC_OPT"
else
  set --
fi
cargo build --offline --locked "$@"
