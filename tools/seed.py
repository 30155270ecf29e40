#!/usr/bin/env python3
"""seed.py ID...   Confirms planted changes in the scratch copy /tmp/mut (never in /repo): builds, passes the stable
tests, demo passes before and fails after; then runs the property's quick check against the changed copy.
seed.py --check ID...  only runs the check."""
import sys,os,subprocess,json
V='/verif'; M='/tmp/mut'
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def prep():
    if not os.path.exists(M):
        sh('git clone -q /repo %s'%M)
    sh('git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD && git -C %s clean -qfd -e _build'%(M,M,M))
    for f in ('build','test'): open('/tmp/mut_%s.sh'%f,'w').write(open('/opt/vp/%s.sh'%f).read().replace('/repo',M).replace('/opt/vp/build.sh','/tmp/mut_build.sh'))
def build(): return sh('bash /tmp/mut_build.sh').returncode
args=sys.argv[1:]; only='--check' in args; args=[a for a in args if a!='--check']
prep()
if not only:
    if build(): print('base build failed'); sys.exit(1)
for i in args:
    d=V+'/seeded/'+i; meta=json.load(open(d+'/meta.json')); msg=[]
    if not only:
        r=sh('bash %s/demo.sh'%d,cwd=M,timeout=300); msg.append('demo base rc=%d%s'%(r.returncode,'' if r.returncode==0 else ' BAD '+r.stdout[-300:]))
    r=sh('git -C %s apply %s/patch.diff'%(M,d))
    if r.returncode: print(i,'PATCH DOES NOT APPLY',r.stdout); continue
    if not only:
        if build(): msg.append('BUILD FAILED BAD')
        else:
            r=sh('bash %s/demo.sh'%d,cwd=M,timeout=300); msg.append('demo patched rc=%d%s'%(r.returncode,'' if r.returncode else ' BAD')); 
            sh('bash /tmp/mut_test.sh /tmp/mut.json'); a=json.load(open('/tmp/mut.json')); b=json.load(open('/opt/vp/BASELINE.json')); st=b.get('stable') or b['passed']; lost=set(st)-set(a['passed']); msg.append('tests lost=%s'%(sorted(lost) or 'none')+(' BAD' if lost else ''))
    r=sh('python3 run.py %s quick'%meta['property'],cwd=V,env=dict(os.environ,VERIF_REPO=M,VERIF_BUILD='/tmp/mut_vb'))
    msg.append('check rc=%d %s'%(r.returncode,'CAUGHT' if r.returncode==1 and 'VIOLATION property=%s '%meta['property'] in r.stdout else 'MISSED'))
    if r.returncode!=1 or True: msg.append([l for l in r.stdout.split('\n') if l.startswith('  [')][:1])
    sh('git -C %s checkout -q -- .'%M)
    print(i,meta['property'],msg,flush=True)
if not only: build()
