#!/usr/bin/env python3
# tools/plant.py FILE: plants the seeded bugs described in FILE (python: SEEDS = [dict(id,prop,edits=[(file,old,new)],demo,inpkg,needs,breaks)])
# in the scratch worktree /tmp/wt and records those that qualify.
import sys,subprocess,os,runpy
WT='/tmp/wt'
S=runpy.run_path(sys.argv[1])['SEEDS']
only=set(sys.argv[2:])
for s in S:
    if only and s['id'] not in only: continue
    subprocess.run(['git','-C',WT,'checkout','-q','.'],check=True)
    for f in ('demo','inpkg'):
        p=f'{WT}/{f}.go.txt'
        if os.path.exists(p): os.remove(p)
    ok=True
    for f,o,n in s['edits']:
        p=f'{WT}/ecore/{f}'; t=open(p).read()
        if t.count(o)!=1: print(s['id'],'edit matches',t.count(o),'times'); ok=False; break
        open(p,'w').write(t.replace(o,n))
    if not ok: continue
    imps=''.join('\t"%s"\n'%i for i in s.get('imports',[]))
    open(WT+'/demo.go.txt','w').write('package main\n\nimport (\n\t"fmt"\n\t"os"\n%s\n\t"github.com/masagroup/soft.go/ecore"\n)\n\nvar _ = ecore.NewEmptyBasicEList\n\nfunc check(b bool, msg string) {\n\tif !b {\n\t\tfmt.Println("FAIL:", msg)\n\t\tos.Exit(1)\n\t}\n}\n\n%s\nfunc main() {\n%s\n}\n'%(imps,s.get('decls',''),s['demo']))
    if s.get('inpkg'): open(WT+'/inpkg.go.txt','w').write(s['inpkg'])
    r=subprocess.run(['bash','/verif/tools/mkseed.sh',s['id'],s['prop'],WT,s['needs'],s['breaks']],capture_output=True,text=True)
    print(r.stdout[-1500:],r.stderr[-800:])
subprocess.run(['git','-C',WT,'checkout','-q','.'])
