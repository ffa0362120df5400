#!/usr/bin/env bash
# compile_violation.sh <seed> <count> <target dir>: finds one generated collection that does not compile and reports it.
cd "$(dirname "$0")/.." || exit 2
seed="$1" lo=0 hi="$2" dir="$3"
log="$(mktemp)"
while [ $((hi - lo)) -gt 1 ]; do
  mid=$(((lo + hi) / 2))
  if bash tools/fixbuild.sh "$seed" "$2" "$dir" "$lo-$mid" >"$log" 2>&1; then lo=$mid; else hi=$mid; fi
done
if bash tools/fixbuild.sh "$seed" "$2" "$dir" "$lo-$hi" >"$log" 2>&1; then rm -f "$log"; exit 1; fi
mkdir -p replays evidence
out="replays/C17-build-s$seed-f$lo.json"
python3 - "$seed" "$2" "$lo" "$hi" "$log" "$out" "fc$seed" <<'P'
import glob,json,os,re,sys
seed,count,lo,hi,log,out,cs=sys.argv[1:]
t=open(log).read()
i=t.find("\nerror")
json.dump({"property":"C17","program":f"FCFIX_SEED={seed} FCFIX_COUNT={count} CONST_RANDOM_SEED={cs}","compile_range":f"{lo}-{hi}",
  "violation":f"generated collection number {lo} of seed {seed} does not compile","compiler":t[max(i,0):][:6000],"how":"bash tools/replay.sh <this file>"},open(out,"w"),indent=1)
print(f"generated collection {lo} of seed {seed} does not compile:")
print("\n".join(t[max(i,0):].strip().splitlines()[:12]))
json.dump({"property":"C17","tier":os.environ.get("VERIF_TIER","quick"),"seed":int(seed)//100,"level":"exploration",
  "coverage":{"evaluations":int(count),"distinct_nontrivial":int(count),"rule":"one case = one generated collection that was compiled","samples":[{"collection":int(lo),"compiler":t[max(i,0):][:800]}]},
  "assumptions":[],"wall_s":0.0,"violations":1},open("evidence/C17.json","w"),indent=1)
P
rm -f "$log"
echo "VIOLATION property=C17 replay=$PWD/$out"
exit 0
