#!/usr/bin/env python3
"""mkseed.py SPEC.py : build and validate a planted bug.
SPEC defines: id, property, needs, breaks, edits=[(file, old, new[, occurrence])], demo (Go test source)
-> /verif/seeded/<id>/"""
import sys,os,subprocess,json,shutil,tempfile
spec={}
exec(open(sys.argv[1]).read(),spec)
notest='--notest' in sys.argv
D='/verif/seeded/'+spec['id']
R='/repo'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
assert sh('git -C /repo status --porcelain').stdout=='' , 'dirty /repo'
os.makedirs(D,exist_ok=True)
open(D+'/demo_test.go','w').write(spec['demo'].lstrip('\n'))
tags=spec.get('tags','')
open(D+'/demo.sh','w').write('''#!/bin/bash
# Runs the demonstration test inside the package, through an overlay.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/Go/sereal/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
cd Go/sereal && go test -vet=off -count=1 -timeout 120s %s-overlay "$tmp/overlay.json" -run '^TestDemo' . 2>&1 | tail -n 30
exit "${PIPESTATUS[0]}"
'''%(('-tags %s '%tags if tags else '')+('-race ' if spec.get('race') else '')))
os.chmod(D+'/demo.sh',0o755)
json.dump({'property':spec['property'],'needs':spec['needs'],'what_it_breaks':spec['breaks']},open(D+'/meta.json','w'),indent=1)
ok=True
r=sh('bash %s/demo.sh'%D,cwd=R)
print('demo on HEAD: rc',r.returncode)
if r.returncode!=0: print(r.stdout[-1500:]); ok=False
try:
    for e in spec['edits']:
        f,o,n=e[:3]; k=e[3] if len(e)>3 else 0
        p=R+'/Go/sereal/'+f
        s=open(p).read(); parts=s.split(o)
        assert len(parts)>k+1,('NO MATCH',o)
        open(p,'w').write(o.join(parts[:k+1])+n+o.join(parts[k+1:]))
    open(D+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
    b=sh('bash /opt/vp/build.sh',cwd=R)
    if b.returncode: print('BUILD FAILS',b.stdout[-800:],b.stderr[-800:]); ok=False
    r=sh('bash %s/demo.sh'%D,cwd=R)
    print('demo on mutant: rc',r.returncode); print('\n'.join(r.stdout.splitlines()[:8]))
    if r.returncode==0: ok=False
    if not notest and ok:
        sh('bash /opt/vp/test.sh /tmp/seed.json',cwd=R)
        base=json.load(open('/opt/vp/BASELINE.json')); got=json.load(open('/tmp/seed.json'))
        def names(d,key):
            v=d.get(key)
            return set(v if isinstance(v,list) else v.keys()) if v else set()
        stable=set(base if isinstance(base,list) else base.get('stable') or base.get('passed') or base.get('tests'))
        passed=names(got,'passed') or names(got,'pass')
        miss=stable-passed
        print('stable',len(stable),'passed',len(passed),'missing',len(miss),list(miss)[:3])
        if miss: ok=False
    # blame: changed lines must be original
finally:
    sh('git -C /repo checkout -- .')
bl=sh("git -C /repo diff 6020404 HEAD | grep '^+' | sed 's/^+//'").stdout.splitlines()
bl=set(x.strip() for x in bl if len(x.strip())>6)
rem=[l[1:].strip() for l in open(D+'/patch.diff') if l.startswith('-') and not l.startswith('---')]
for l in rem:
    if l in bl: print('WARNING: removed line from a fix commit:',l)
if not rem: print('note: only additions')
print('KEEP' if ok else 'BAD', spec['id'])
if not ok and '--keep' not in sys.argv: shutil.rmtree(D)
