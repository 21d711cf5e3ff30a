#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl (run by hand when properties change).
import json
NA={
 'C24':"pure bit arithmetic on single values; there is no schedule, fault or history to search.",
 'C25':"pure arithmetic on single values; there is no schedule, fault or history to search.",
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
notes={
 'C17':"happens-before race detection (Go's race detector) on every memory access of the library inside simulated runs; harness code is hidden from the detector so that it adds no synchronisation. A race is reported if the two accesses occur unordered in any explored run, whatever their distance in time.",
 'C12':"any oracle violation that disappears when the malformed datagrams are removed from the same plan counts, plus direct checks (no reply, callback or list entry caused by one, no crash).",
 'C13':"any oracle violation that disappears when the socket errors are removed from the same plan counts, plus crashes.",
 'C16':"any oracle violation that disappears when the own datagrams are removed from the same plan counts, plus direct checks.",
 'C19':"any oracle violation that disappears when the wall-clock jumps are removed from the same plan counts.",
 'C22':"any oracle violation that disappears when callbacks are not blocked counts, plus direct checks.",
 'C15':"any oracle violation in a session after a stop, failed start or crash counts, plus direct checks of Start's result.",
}
base="Seeded random search, not proof: holds on every explored run. Trusts the simulated UDP/clock model and the independent wire codec; goroutines interleave at statement boundaries and blocking operations on one processor. "
checks=[]
for p in props:
    if p['id'] in NA: continue
    checks.append(dict(property=p['id'],quick_cmd=f"bash check.sh {p['id']}",thorough_cmd=f"VERIF_TIER=thorough bash check.sh {p['id']}",
      technique="deterministic simulation with fault injection: seeded search over schedules, faults and histories of the real code, history oracles"+(" and race detector" if p['id']=='C17' else ""),
      level="exploration",level_note=base+notes.get(p['id'],"Each run's complete history (datagrams, calls, callbacks, public state at quiescent points) is checked against a reference model.")))
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in NA.items() if any(p['id']==k for p in props)],
 notes="No hooks were added to /repo: scheduling points are inserted into copies of its sources at build time and the Go runtime and net package are patched the same way, through go build -overlay (see DESIGN.md). Replay a violation with: go run ./cmd/vsim replay FILE.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
