#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed when it has a contract file, the rest needs a reason here."""
import json,os
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
NA={
 "N01":"Leadership is timed by the key-value bucket's expiry and depends on clocks, network delay and the interleaving of several processes; a contract on one process's functions cannot express an upper bound over all participants at one instant (E01 decides the per-process part).",
 "N02":"Eventual delivery is a liveness property over the network and several processes; the contracts used here are partial-correctness contracts of sequential functions, the verifier proves no fairness or progress.",
 "N03":"Absence of data races quantifies over interleavings of goroutines; the verifier reasons about one goroutine at a time with no permission logic, so it cannot decide it (L01 decides the lock discipline per operation).",
}
NOTE={}
checks=[];na=[]
for p in props:
    i=p["id"]
    if os.path.exists(f"/verif/contracts/{i}.spec"):
        checks.append(dict(property=i,quick_cmd=f"tools/check.sh {i} quick",thorough_cmd=f"tools/check.sh {i} thorough",
          evidence_file=f"evidence/{i}.json",technique="contract-based deductive verification: contracts on the Go source, verification conditions generated from its SSA form on every run, discharged by z3/cvc5",
          level="proof",level_note=NOTE.get(i,"Every obligation generated from the current source is discharged by an SMT solver for all inputs and iterations; assumes the contracts on external libraries, integer arithmetic without overflow and sequential execution as listed in the evidence file.")))
    else:
        na.append(dict(property=i,reason=NA.get(i,"not yet under contract")))
json.dump(dict(version=1,setup_cmd="tools/build.sh",checks=checks,not_applicable=na,
  notes="All checks run /verif/bin/vcgen (built from /verif/engine), which loads /repo's current tree, generates verification conditions for the contracts in /verif/contracts and discharges them. See DESIGN.md."),open("/verif/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"not applicable")
