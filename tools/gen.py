#!/usr/bin/env python3-vt
# tools/gen.py: writes properties.jsonl, MANIFEST.json from tools/props.py
import json,sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V+'/tools')
from props import PROPS, NA, HOOKS, NOTES
with open(V+'/properties.jsonl','w') as f:
    for p in PROPS:
        d={"id":p['id'],"title":p['title'],"statement":p['statement'],"quantifier":p['quantifier'],"why_tests_cant":p['why'],"anchors":p['anchors']}
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(d)+"\n")
na={x['property'] for x in NA}
checks=[]
for p in PROPS:
    if p['id'] in na: continue
    checks.append({"property":p['id'],"quick_cmd":"bin/check %s quick"%p['id'],"thorough_cmd":"bin/check %s thorough"%p['id'],
      "technique":"contract-based deductive verification: contracts on the functions of /repo/ecore, obligations generated from the current sources by symbolic execution (govc) and discharged by SMT solvers; failed obligations are searched for a failing input by executing the same contract against the real code",
      "level":"proof","level_note":p['note'],"theorems":p.get('theorems',[])})
m={"version":1,"setup_cmd":"bin/build.sh","checks":checks,"not_applicable":NA,"notes":NOTES}
if HOOKS: m['hooks']=HOOKS
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(V+'/properties.jsonl'): jsonschema.validate(json.loads(l),sch)
print(len(PROPS),"properties",len(checks),"checks")
