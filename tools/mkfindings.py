#!/usr/bin/env python3
"""known_findings.json: fixed defects (suppress nothing) and known findings (status known)."""
import subprocess,json
PROP=[("needs a reference point","C08"),("elitist reinjection must","C13"),("names sepaipop","C18"),("set_seed(0)","C18"),("set_elitism(0)","C13"),("last set_stopping_criteria","C18"),("last set_fixed_p","C12"),("compares both rank sums","C15"),("breaks ties by a consistent","C15"),("lazy update delays","C23"),("every sampler owns","C09"),("uncertainty handling is seeded","C09"),("BIPOP regimes are seeded","C09"),("BIPOP started from a solution","C11"),("re-evaluates within bounds","C01"),("numerical gradient stays","C01"),("a maximization started","C14"),("honours the stopping","C04"),("resetting a solution","C08"),("initial mean holds","C12"),("elitist restart starts","C13"),("expected distance to minimum","C16"),("gradient injection follows","C16"),("two-point adaptation scales","C07"),("specific constants are applied","C07"),("selecting an algorithm by name","C18"),("tolerance on parameters","C04"),("BIPOP starts no new run","C11"),("default linear scaling","C02"),("mapping to genotype without bounds","C02"),("pwq bounds map points far","C02"),("pwq bounds without bounds","C02"),("bounds with a scaling vector","C02"),("removing several dimensions","C02"),("opposite of the user's gradient","C14"),("custom plot function","C22"),("separable algorithms of the one-call","C19")]
PROP+=json.load(open('/verif/tools/fixprops.json'))
KNOWN=json.load(open('/verif/tools/known.json'))
out=[]
for l in subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],stdout=subprocess.PIPE,text=True).stdout.split('\n'):
    if ' fix: ' not in l: continue
    h,s=l.split(' fix: ',1); p=[b for a,b in PROP if a in s]
    if not p: print('no property for',s); continue
    out.append(dict(property=p[0],status="fixed",commit=h,what=s,entry="fixed: property=%s %s %s"%(p[0],h,s)))
json.dump(out+KNOWN,open('/verif/known_findings.json','w'),indent=1)
