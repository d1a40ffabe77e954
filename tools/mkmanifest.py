#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the properties and the harness files present.
import json, re, glob
ids=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
have=set()
for f in glob.glob('/verif/harness/c*.go'):
    for m in re.finditer(r'^func (C\d+)_\w+\(\)', open(f).read(), re.M): have.add(m.group(1))
NA={}
exec(open('/verif/tools/not_applicable.py').read())
checks=[]
for i in ids:
    if i in NA or i not in have: continue
    checks.append(dict(property=i, quick_cmd=f"bash check.sh {i}", thorough_cmd=f"bash check.sh {i}",
      evidence_file=f"evidence/{i}.json", level="model_checking",
      technique="symbolic execution of the Go SSA of the real code, assertions decided by SMT (z3, spot checked with cvc5), counterexamples replayed on the compiled code",
      level_note="all values within the bounds printed per harness in the evidence; hashing and signing are ideal functions; nothing is claimed beyond the bounds"))
na=[dict(property=i, reason=NA.get(i,"check under construction")) for i in ids if i in NA or i not in have]
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks,
  hooks=dict(guard="none", enable="no hooks: the checks load /repo's source as it is; the replay binary is built in a scratch workspace that replaces only math/rand, the http client and signing lengths outside /repo", source_commits=[]),
  not_applicable=na,
  notes="bin/gosym is built from engine/ by setup.sh; each check regenerates the encoding from /repo on every run. known_findings.txt lists known findings and fixed defects."),
  open('/verif/MANIFEST.json','w'), indent=1)
open('/verif/MANIFEST.json','a').write('\n')
print(len(checks),"checks",len(na),"not applicable")
