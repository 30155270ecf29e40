#!/usr/bin/env python3
"""mkseed.py: helper to write seeded/<id> from a python description: seed(id,prop,needs,breaks,edits,demo)"""
import os,subprocess,json
V='/verif'; W='/tmp/seedwt'
SH='''#!/bin/bash
# cwd: the repository, built by build.sh. Exit 0: property holds on this demonstration.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -r "$T"' EXIT
g++ -O1 -std=c++14 -w -fopenmp -I"$R/include" -I"$R/_build/include" -I/usr/include/eigen3 "$D/demo.cc" -o "$T/demo" -L"$R/_build/src" -lcmaes -Wl,-rpath,"$R/_build/src" || exit 3
cd "$T" && timeout 200 ./demo
'''
def sh(c): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
def seed(i,prop,needs,breaks,edits,demo,demosh=None,extra={}):
    if not os.path.exists(W): sh('git clone -q /repo '+W)
    sh('git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD'%(W,W))
    for f,a,b in edits:
        s=open(W+'/'+f).read(); n=s.count(a)
        if n!=1: print(i,'edit matches',n,'times in',f,a[:60]); return
        open(W+'/'+f,'w').write(s.replace(a,b))
    d=V+'/seeded/'+i; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(sh('git -C %s diff'%W).stdout)
    if demo: open(d+'/demo.cc','w').write(demo)
    open(d+'/demo.sh','w').write(demosh or SH); os.chmod(d+'/demo.sh',0o755)
    for k,v in extra.items(): open(d+'/'+k,'w').write(v)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    sh('git -C %s checkout -q -- .'%W)
