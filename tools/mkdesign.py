#!/usr/bin/env python3
# Generates /verif/DESIGN.md from design-head.md, properties.jsonl, MANIFEST.json,
# the claims, the seeds' meta files and design-tail.md. Evidence files supply the
# explanation each analysis gives of itself (run the checks first).
import json,os,glob,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ev=sys.argv[1] if len(sys.argv)>1 else V+'/evidence'
P=[json.loads(l) for l in open(V+'/properties.jsonl')]
M=json.load(open(V+'/MANIFEST.json'))
ch={c['property']:c for c in M['checks']}
na={c['property']:c['reason'] for c in M['not_applicable']}
seeds={}
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f)); seeds.setdefault(m['property'],[]).append((os.path.basename(os.path.dirname(f)),m))
o=[open(V+'/tools/design-head.md').read().rstrip(),'','## Per property','']
for p in P:
    i=p['id']
    o+=['### %s %s'%(i,p['title']),'',p['statement'],'']
    if i in na:
        o+=['**Not applicable.** '+na[i],'']
        continue
    c=ch[i]
    o+=['*Method*: '+c['technique']+' (level: '+c['level']+').','']
    e=ev+'/'+i+'.json'
    if os.path.exists(e):
        d=json.load(open(e)); v=d['coverage']
        x=v.get('explanation','')
        if x: o+=['*What is analysed and the rule*: '+x,'']
        r=v.get('rules',{})
        o+=['*Obligations on the current tree*: %s in all (%s); about %d s.'%(v.get('obligations'),', '.join('%s %s'%(k,n) for k,n in sorted(r.items())),max(1,round(d.get('wall_s',0)))),'']
    o+=['*Bound and trust*: '+c['level_note'],'']
    o+=['*Beyond the tests*: '+p['why_tests_cant']+'.','']
    for n,m in seeds.get(i,[]):
        o+=['*Planted*: `%s` (%s). Caught.'%(n,m['what_it_breaks']),'']
o+=[open(V+'/tools/design-tail.md').read().rstrip(),'']
open(V+'/DESIGN.md','w').write('\n'.join(o))
