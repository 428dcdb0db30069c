#!/usr/bin/env python3
"""writes MANIFEST.json from contracts/props.json and properties.jsonl"""
import json
conf=json.load(open('/verif/contracts/props.json')); props=[json.loads(l) for l in open('/verif/properties.jsonl')]
na=json.load(open('/verif/contracts/not_applicable.json'))
checks=[]
for p in props:
    i=p['id']
    if i not in conf: continue
    c=conf[i]
    checks.append({'property':i,'quick_cmd':f'./check {i} --tier quick','thorough_cmd':f'./check {i} --tier thorough','evidence_file':f'evidence/{i}.json','technique':c.get('technique','contracts on the functions extracted from /repo on every run, discharged by Verus (Z3)'),'level':c['level'],'level_note':c['note']})
n=[{'property':p['id'],'reason':na.get(p['id'],'contracts not written yet')} for p in props if p['id'] not in conf]
json.dump({'version':1,'setup_cmd':'./check --setup','checks':checks,'not_applicable':n,'notes':'Every check builds the extractor and the harness in /verif/.build and works on /repo as it stands.'},open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(n),'not claimed')
