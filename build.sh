#!/usr/bin/env bash
# Builds the simulator against /repo's working tree. Everything is written under sim/target.
cd "$(dirname "$0")/sim" || exit 2
. ../tools/env.sh
log="$(mktemp)"
if cargo build --offline --locked >"$log" 2>&1; then rm -f "$log"; exit 0; fi
cat "$log" >&2; rm -f "$log"; exit 2
