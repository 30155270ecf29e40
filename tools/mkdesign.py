#!/usr/bin/env python3
# fills tools/design.in -> DESIGN.md (table of checks, repaired defects, planted bugs)
import json,os,sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,R)
from checks import CHECKS
props={}
for l in open(R+'/properties.jsonl'):
    d=json.loads(l); props[d['id']]=d
O={
"C01":("every recorded objective argument (also inside gradient, edm, re-evaluation) within the box, reported points too","needs a history that drives samples across the border, with a particular transform and option"),
"C02":("published piecewise map written independently; round trip; vector = column = neighbour independence; removed-dimension map = map of remaining dimensions","one wrong breakpoint shows only at a few points of one magnitude"),
"C03":("the harness's own call counter, read inside callbacks","each option adds its own calls; combinations and restarts are not sampled by tests"),
"C04":("`stopref.hpp`: all criteria recomputed from the observed values and distribution; first that holds in documented order","tests only see that runs end; thresholds off by one generation are invisible"),
"C05":("log of (point, value) of each objective call; true extremes over the log","ties, equal generations and level shifts pair up wrongly only for some orders"),
"C06":("bitwise equality of points and distributions of two runs with order-equivalent values","a hidden dependency on values shows for one magnitude only"),
"C07":("`ref.hpp` one-step equations and constants, relative 1e-9","optimizers still converge with wrong constants"),
"C08":("finiteness, symmetry, positive eigenvalues or an error status; sanitizers","needs particular infinities/NaN at particular calls"),
"C09":("bitwise equality with the solo run","global state shows only in some interleavings"),
"C10":("bitwise equality with the sequential run; conflict-free access sets","tests run one schedule"),
"C11":("schedule automaton (runs, populations, budgets, kept best) and a fresh plain search replaying each run","which run is best, and how each ends, decides the path"),
"C12":("exact fixed values in candidates, mean and images; others vary","particular subsets, transforms and unfix sequences"),
"C13":("re-injection rule and restart rule recomputed from the log","depends on counts of improving candidates and ages"),
"C14":("bitwise equality with the run minimizing -f","each option touches the value separately"),
"C15":("independent combined-rank order, uncertainty measure and step-size factor","all pairs of rankings needed"),
"C16":("independent injected point, true derivatives, published distance formula","converges anyway when wrong"),
"C17":("training set, model calls, ranking, counts recomputed from the harness's log; enumerated model answers","model answers never adversarial in tests"),
"C18":("equality with the directly configured search (settings, state, short run)","order of calls"),
"C19":("bitwise equality of hand-driven, custom-function, optimize() and cmaes() runs","each path has its own code"),
"C20":("true values, exact profiles of quadratic families, bounds and side of every call, order of contour points","few examples only"),
"C21":("statistics recomputed from the reported distribution; twin never read","needs non-trivial distributions"),
"C22":("expected notification sequence; parsed plot file","needs a stop at each notification"),
"C23":("standardised samples equal across histories of one seed; distinct; moments","sampling errors look like noise"),
"C24":("C++ reference run; exceptions at each call","lifetimes, errors at particular calls"),
}
t=[]
for p in sorted(CHECKS): t.append("| %s %s | %s | %s | %s |"%(p,props[p]['title'],CHECKS[p]['bounds'],O[p][0],O[p][1]))
k=json.load(open(R+'/known_findings.json')); k=k if isinstance(k,list) else k['findings']
by={}
for e in k: by.setdefault(e['property'],[]).append("%s (%s)"%(e['what'],e['commit']))
fx="\n".join("* %s: %s."%(p,"; ".join(v)) for p,v in sorted(by.items()))
sd=[]; res={}
if os.path.exists(R+'/tools/seed_results.json'): res=json.load(open(R+'/tools/seed_results.json'))
if os.path.isdir(R+'/seeded'):
    for d in sorted(os.listdir(R+'/seeded')):
        m=json.load(open(R+'/seeded/'+d+'/meta.json')); sd.append("| %s | %s | %s | %s |"%(d,m['property'],m['needs'].replace('|','/'),res.get(d,'?')))
seeds="\n| id | property | needs | check |\n|---|---|---|---|\n"+"\n".join(sd)
s=open(R+'/tools/design.in').read()
c=json.load(open(R+'/tools/design_consts.json'))
s=s.replace('@@TABLE@@',"\n".join(t)).replace('@@FIXES@@',fx).replace('@@SEEDS@@',seeds)
for a,b in c.items(): s=s.replace('@@'+a+'@@',b)
open(R+'/DESIGN.md','w').write(s)
