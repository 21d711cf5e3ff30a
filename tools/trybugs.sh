#!/bin/bash
# trybugs.sh [bug...] : runs the check of each bug's property against a scratch
# copy of /repo with the bug, and says whether it is caught.
cd /verif && go build -o build/vsim ./cmd/vsim || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  s=/tmp/try/$id; rm -rf "/tmp/try/$id"; mkdir -p /tmp/try; cp -a /repo "$s"
  git -C "$s" apply "/verif/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  for q in ${PROPS:-$p}; do
    t0=$(date +%s.%N)
    out=$(VSIM_REPO=$s ./build/vsim check -property $q 2>&1); rc=$?
    printf "%-22s %s rc=%d %5.1fs %s\n" "$id" "$q" $rc $(echo "$(date +%s.%N)-$t0"|bc) "$(echo "$out" | grep -m1 -v '^VIOLATION' | cut -c1-200)"
  done
  rm -rf "/tmp/try/$id"
done
