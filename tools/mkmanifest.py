#!/usr/bin/env python3
"""writes MANIFEST.json: CLAIMED lists the properties with a registered check, the rest is not_applicable"""
import json
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
COMMON=(' Every obligation is generated from /repo\'s current source on every run. Trusted: the verifier govc itself (SSA translation, memory model, models of '
 'standard-library functions), crypto and x509/asn1 parsers as uninterpreted functions, the SMT solvers, allocation always succeeding; termination is not proved. '
 'A bounded harness supplies concrete failing inputs and is never counted as proof.')
CLAIMED={}
NA={}
exec(open('/verif/tools/claims.py').read())
checks=[]
for p in ids:
    if p in CLAIMED:
        c=CLAIMED[p]
        checks.append(dict(property=p,quick_cmd=f'python3 /verif/check.py {p} quick',thorough_cmd=f'python3 /verif/check.py {p} thorough',
          evidence_file=f'evidence/{p}.json',technique=c.get('technique','contract-based deductive verification of the Go source (govc: weakest preconditions over go/ssa, z3/cvc5)'),
          level=c.get('level','proof'),level_note=c['note']+COMMON))
na=[dict(property=p,reason=NA.get(p,'check under construction')) for p in ids if p not in CLAIMED]
m=dict(version=1,setup_cmd='bash /verif/setup.sh',checks=checks,not_applicable=na,notes='Checks: python3 /verif/check.py ID [quick|thorough]; see DESIGN.md.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not applicable')
