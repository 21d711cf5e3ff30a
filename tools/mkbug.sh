#!/bin/bash
# mkbug.sh ID PROPERTY < python edit script (uses rep(file, old, new))
# expects /verif/seeded/ID/demo_test.go; makes patch.diff, demo.sh, lib_test.go
# and confirms that the change counts.
id=$1; d=/verif/seeded/$id; mkdir -p "$d"
s=/tmp/plant/$id; rm -rf "/tmp/plant/$id"; mkdir -p /tmp/plant; git -C /repo worktree prune; cp -a /repo "$s" || exit 2
( cd "$s" && git checkout -q -- . && python3 -c '
import sys
def rep(f,a,b,n=1):
    s=open(f).read(); assert s.count(a)==n,(f,s.count(a),a); open(f,"w").write(s.replace(a,b))
exec(sys.stdin.read())' ) || exit 2
( cd "$s" && git diff > "$d/patch.diff" )
cp /verif/tools/demo/lib_test.go "$d/"; [ -f "$d/demo.sh" ] || cp /verif/tools/demo/demo.sh "$d/"; chmod +x "$d/demo.sh"
( cd "$s" && go build ./... && go vet . ) || { echo "$id: DOES NOT BUILD"; exit 1; }
( cd "$s" && go test -count=1 ./... >/tmp/plant/$id.test 2>&1 ) || { echo "$id: TESTS FAIL"; tail -5 /tmp/plant/$id.test; }
( cd "$s" && bash "$d/demo.sh" >/tmp/plant/$id.bad 2>&1 ) && echo "$id: DEMO PASSES WITH THE PATCH" 
( cd /repo && bash "$d/demo.sh" >/tmp/plant/$id.good 2>&1 ) || { echo "$id: DEMO FAILS ON CLEAN"; tail -20 /tmp/plant/$id.good; }
echo "$id: $(tail -3 /tmp/plant/$id.good | head -1) / $(grep -m1 -E 'demo_test.go|panic|DATA RACE' /tmp/plant/$id.bad)"
