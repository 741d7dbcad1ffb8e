import json,subprocess,os,glob
V='/verif'
D=open(V+'/DESIGN.md','w')
props={}
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); props[d['id']]=d
M=json.load(open(V+'/MANIFEST.json'))
claimed=[c['property'] for c in M['checks']]
na={n['property']:n['reason'] for n in M['not_applicable']}
D.write(open('/verif/tools/design_head.md').read())
D.write('\n## Properties not claimed\n\n')
for k in sorted(na): D.write(f"- **{k}** {props[k]['title']}: {na[k]}\n")
D.write('\n## Planted bugs and what catches them\n\n')
D.write('Every bug lies in `seeded/<id>/`; each was confirmed to build, to pass the tests and to be told apart by its demonstration.\nThe column "caught" says how the check of the property reports it where that was run: `obligation` a failed obligation, `input` a failing input\nfrom the bounded harness besides (the harness alone is never counted as a proof), `-` not run one by one.\n\n')
res={}
if os.path.exists(V+'/tools/bugs.json'): res=json.load(open(V+'/tools/bugs.json'))
D.write('| bug | property | needs | caught |\n|---|---|---|---|\n')
for p in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(p)); m=json.load(open(p))
    D.write(f"| {i} | {m['property']} | {m['needs']} | {res.get(i,'-')} |\n")
D.close()
