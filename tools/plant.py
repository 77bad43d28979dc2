#!/usr/bin/env python3
"""plant.py SPECFILE [ids...] [--check] [--also C..,C..]
SPECFILE defines BUGS: id -> dict(property, edits=[(file, old, new)], pkg, test, needs, breaks[, imports])"""
import json, os, shutil, subprocess, sys, tempfile, textwrap
from concurrent.futures import ThreadPoolExecutor
SEED='/verif/seeded'
DEMO='''#!/bin/bash
# Runs the test beside this file in the package of the working directory's repository.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
pkg=%(pkg)s
tmp=$(mktemp -d) || exit 1
trap 'rm -rf -- "$tmp"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/$pkg/zz_planted_test.go" "$here/demo_test.go.txt" > "$tmp/overlay.json"
TMPDIR=$tmp timeout 250 go test -overlay "$tmp/overlay.json" -vet=off -count=1 %(flags)s -run '^TestPlanted$' "./$pkg"
'''
def sh(cmd, cwd=None, env=None, timeout=900):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.run(['bash','-c','. /opt/vp/env.sh; '+cmd],cwd=cwd,env=e,capture_output=True,text=True,timeout=timeout)
    return p.returncode,p.stdout+p.stderr
STABLE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def tests(d):
    rc,out=sh('go test -json -vet=off -count=20 ./...',d)
    res={}
    for l in out.splitlines():
        try: x=json.loads(l)
        except Exception: continue
        if x.get('Action') in('pass','fail') and x.get('Test'):
            k=x['Package']+'/'+x['Test']
            res[k]=res.get(k,True) and x['Action']=='pass'
    return [t for t in STABLE if not res.get(t)]
def blame_base(d,f):
    rc,out=sh('git blame -s --root %s'%f,'/repo')
    root=subprocess.run(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],capture_output=True,text=True).stdout.split()[0]
    return [l.lstrip('^').startswith(root[:7]) for l in out.splitlines()]
def one(id,b,do_check,also):
    log=[]
    d=tempfile.mkdtemp(prefix='plant-')
    try:
        r=d+'/repo'
        subprocess.run(['cp','-a','/repo',r],check=True)
        for f,old,new in b['edits']:
            p=os.path.join(r,f); s=open(p).read()
            if s.count(old)!=1: return id,['EDIT %s: %d matches: %r'%(f,s.count(old),old[:80])]
            open(p,'w').write(s.replace(old,new))
        sh('gofmt -w '+' '.join(sorted({f for f,_,_ in b['edits']})),r)
        out=os.path.join(SEED,id); os.makedirs(out,exist_ok=True)
        diff=subprocess.run(['git','diff'],cwd=r,capture_output=True,text=True).stdout
        open(out+'/patch.diff','w').write(diff)
        # changed lines must be of the base commit
        cur=None;base=mine=0
        for l in diff.splitlines():
            if l.startswith('--- a/'): cur=l[6:]; bl=blame_base(r,cur)
            elif l.startswith('@@'): n=int(l.split()[1][1:].split(',')[0])
            elif l.startswith('-') and not l.startswith('---'):
                if bl[n-1]: base+=1
                else: mine+=1
                n+=1
            elif l.startswith(' '): n+=1
        log.append('removed lines: %d base %d mine'%(base,mine))
        open(out+'/demo.sh','w').write(DEMO%{'pkg':b['pkg'],'flags':b.get('flags','')})
        os.chmod(out+'/demo.sh',0o755)
        open(out+'/demo_test.go.txt','w').write(textwrap.dedent(b['test']).lstrip())
        json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(out+'/meta.json','w'),indent=1)
        rc,o=sh('go build ./... && go vet ./internal/... 2>&1 | head -0; go build ./...',r)
        if rc: log.append('BUILD FAILS '+o[:1500]); return id,log
        miss=tests(r)
        if miss: log.append('TESTS FAIL %s'%miss[:5]); return id,log
        rc,o=sh('bash %s/demo.sh'%out,'/repo')
        if rc: log.append('DEMO FAILS ON CLEAN '+o[-1500:]); return id,log
        rc,o=sh('bash %s/demo.sh'%out,r)
        if rc==0: log.append('DEMO PASSES ON BUG '+o[-500:]); return id,log
        log.append('demo: '+' '.join(x.strip() for x in o.splitlines() if '--- FAIL' not in x and 'FAIL' not in x)[:200])
        log.append('VALID')
        if do_check:
            for c in [b['property']]+also:
                for attempt in (1,):
                    rc,o=sh('python3 ./check.py '+c,'/verif',{'VERIF_REPO':r,'VERIF_SEED':'1','VERIF_TIER':'quick'})
                    v=[l for l in o.splitlines() if l.startswith('  ')]
                    log.append('%s rc=%d %s'%(c,rc,(v[0][:260] if v else o.strip()[-260:])))
        return id,log
    finally:
        shutil.rmtree(d,ignore_errors=True)
def main():
    a=sys.argv[1:]
    do='--check' in a
    also=[]
    if '--also' in a:
        i=a.index('--also'); also=a[i+1].split(','); del a[i:i+2]
    a=[x for x in a if x!='--check']
    ns={}; exec(open(a[0]).read(),ns)
    bugs=ns['BUGS']; ids=a[1:] or list(bugs)
    with ThreadPoolExecutor(3) as ex:
        for id,log in ex.map(lambda i: one(i,bugs[i],do,also),ids):
            print('==',id,bugs[id]['property']); 
            for l in log: print('   ',l)
            sys.stdout.flush()
main()
