#!/bin/bash
# seedrun.sh [ID...]: for each planted bug, applies it to a scratch copy of /repo and runs its property's quick check on that copy.
# The registered checks run against /repo itself; this only saves re-applying patches there while it is being worked on.
cd /verif; ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
for i in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  W=$(mktemp -d /tmp/sr.XXXXXX); cp -a /repo "$W/repo"
  git -C "$W/repo" apply /verif/seeded/$i/patch.diff || { echo "$i $p NOAPPLY"; rm -rf "$W"; continue; }
  t0=$SECONDS
  o=$(timeout 900 bin/vx -repo "$W/repo" $p 2>&1); rc=$?
  rm -rf "$W"
  if [ $rc -eq 1 ] && grep -q "^VIOLATION property=$p " <<<"$o"; then r=CAUGHT; else r="MISSED rc=$rc"; fi
  echo "$i $p $r $((SECONDS-t0))s $(grep -A1 -m1 '^VIOLATION' <<<"$o" | tail -1 | cut -c1-160)"
done
