#!/usr/bin/env python3
# Generates MANIFEST.json: the claimed checks and the reasons for the properties that are not claimed.
import json,os
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
TECH="contract-based deductive verification of the real Go source (SSA of /repo, weakest-precondition style symbolic execution, SMT: z3/cvc5)"
BASE="All obligations generated from the contracts over /repo's current source are discharged for all inputs and iterations. Trusted: the verifier /verif/gvc, the SMT solvers, the Go SSA builder, the models of external functions listed in the evidence. "
NOTE={}
exec(open(os.path.join(here,"tools","claims.py")).read())
props=[json.loads(l)["id"] for l in open(os.path.join(here,"properties.jsonl"))]
checks=[dict(property=p,quick_cmd=f"bash check.sh {p} quick",thorough_cmd=f"bash check.sh {p} thorough",evidence_file=f"evidence/{p}.json",technique=TECH,level="proof",level_note=BASE+CLAIMS[p]) for p in props if p in CLAIMS]
na=[dict(property=p,reason=NA.get(p,"no contract within reach yet decides this property with this verifier; not claimed")) for p in props if p not in CLAIMS]
m=dict(version=1,setup_cmd="bash setup.sh",hooks=dict(guard="verif",enable="no hooks in /repo: contracts are added as an overlay (go build -overlay) at check time",source_commits=[]),checks=checks,not_applicable=na,notes="The contracts lie in contracts/, the verifier in gvc/. See DESIGN.md.")
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1,ensure_ascii=False)
print(len(checks),"claimed",len(na),"not claimed")
