#!/usr/bin/env python3
"""run.py <property> [quick|thorough] | run.py <property> --replay FILE
Builds the harness of a property together with /repo's current sources and explores; see DESIGN.md.
Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Other: the check itself failed."""
import sys,os,json,hashlib,subprocess,time,glob,concurrent.futures as cf,re,shutil
V=os.path.dirname(os.path.abspath(__file__)); R=os.environ.get("VERIF_REPO","/repo"); H=V+"/harness"; B=os.environ.get("VERIF_BUILD",V+"/.build")
sys.path.insert(0,V)
from checks import CHECKS
def sh(cmd,**k): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def rd(p):
    with open(p,'rb') as f: return f.read()
def tree_hash(dirs):
    h=hashlib.sha256()
    for d in dirs:
        for p in sorted(glob.glob(d+"/**",recursive=True)):
            if os.path.isfile(p): h.update(p.encode()); h.update(rd(p))
    return h.hexdigest()
def gen_headers():
    g=B+"/gen/libcmaes"; os.makedirs(g,exist_ok=True)
    def w(p,s):
        if not os.path.exists(p) or open(p).read()!=s: open(p,'w').write(s)
    w(g+"/cmaes_export.h","#ifndef CMAES_EXPORT\n#define CMAES_EXPORT\n#define CMAES_NO_EXPORT\n#define CMAES_DEPRECATED\n#endif\n")
    w(g+"/libcmaes_config.h","#ifndef VMC_CFG_H\n#define VMC_CFG_H\n#define HAVE_SURROG 1\n#define PACKAGE \"libcmaes\"\n#define VERSION \"0.9.5\"\n#define PACKAGE_VERSION VERSION\n#endif\n")
    return B+"/gen"
FLAV={ # flavour: (lib flags, harness flags, link flags)
 "mc":("-O1 -D_GLIBCXX_ASSERTIONS","-O1 -D_GLIBCXX_ASSERTIONS",""),
 "omp":("-O1 -fopenmp -D_GLIBCXX_ASSERTIONS","-O1 -fopenmp -D_GLIBCXX_ASSERTIONS",""),
 "asan":("-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR=1","-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR=1","-fsanitize=address,undefined"),
 "race":("-O1 -fopenmp -fsanitize=thread --param=tsan-instrument-func-entry-exit=0","-O1 -fopenmp -fsanitize=thread --param=tsan-instrument-func-entry-exit=0",""),
 "tsan":("-O1 -g -fopenmp -fsanitize=thread -DVMC_TSAN","-O1 -g -fopenmp -fsanitize=thread -DVMC_TSAN","-fsanitize=thread"),
}
def compile_all(units):
    """units: list of (src,flags,obj). Content-addressed: an object is reused only if source, headers, flags and compiler are identical."""
    def one(u):
        src,flags,obj=u
        if os.path.exists(obj): return None
        r=sh(["g++"]+flags.split()+["-c",src,"-o",obj+".tmp%d"%os.getpid()])
        if r.returncode: return src+"\n"+"\n".join([l for l in r.stdout.split("\n") if "error" in l or "Error" in l][:6])[:2500]
        os.replace(obj+".tmp%d"%os.getpid(),obj); return None
    order=sorted(units,key=lambda u:-HEAVY.get(os.path.basename(u[0]),1))
    with cf.ThreadPoolExecutor(8) as ex: errs=[e for e in ex.map(one,order) if e]
    if errs: print("BUILD-ERROR\n"+"\n".join(errs[:3])); sys.exit(2)
HEAVY={"surrogatestrategy.cc":50,"cmastrategy.cc":16,"gp0.cc":12,"gp1.cc":13,"gp2.cc":13,"gp3.cc":14,"errstats.cc":9,"lcmaes.cc":40,"c24.cc":30,"acovarianceupdate.cc":9}
def prune():
    # keep the development cache small
    fs=sorted(glob.glob(B+"/obj/*.o"),key=os.path.getmtime)
    for f in fs[:-400]:
        try: os.unlink(f)
        except OSError: pass
def build(pid,part):
    spec=part; fl=spec.get("flavour","mc"); libf,hf,lf=FLAV[fl]
    inc="-std=gnu++17 -w -include %s/pre.h -I%s -I%s/include -I/usr/include/eigen3 -I%s"%(H,gen_headers(),R,H)
    os.makedirs(B+"/obj",exist_ok=True)
    cc=sh(["g++","-dumpfullversion"]).stdout.strip()
    th=tree_hash([R+"/include",B+"/gen"])+cc
    hh=hashlib.sha256(b"".join(rd(p) for p in sorted(glob.glob(H+"/*.h*")))).hexdigest()
    units=[]; objs=[]
    pre=rd(H+"/pre.h")
    for s in sorted(glob.glob(R+"/src/*.cc")):
        b=os.path.basename(s)
        if b=="surrogatestrategy.cc" and not spec.get("surrogate"): continue
        if b=="errstats.cc" and not spec.get("errstats"): continue
        f=libf+" "+inc
        k=hashlib.sha256((th+f).encode()+pre+rd(s)).hexdigest()[:24]; o="%s/obj/lib-%s-%s.o"%(B,b[:-3],k); units.append((s,f,o)); objs.append(o)
    for b in spec["src"]:
        s=H+"/"+b; f=("-O1" if b in spec.get("plain",[]) else hf)+" "+spec.get("cflags","")+" "+inc
        k=hashlib.sha256((th+hh+f).encode()+rd(s)+b"".join(rd(H+"/"+x.decode()) for x in re.findall(rb'#include "(\w+\.cc)"',rd(s)))).hexdigest()[:24]; o="%s/obj/h-%s-%s.o"%(B,b[:-3],k); units.append((s,f,o)); objs.append(o)
    for rel,f in spec.get("extra",[]): # further sources of /repo, outside src
        s=R+"/"+rel; f=libf+" "+f+" "+inc; k=hashlib.sha256((th+f).encode()+pre+rd(s)+tree_hash([os.path.dirname(s)]).encode()).hexdigest()[:24]; o="%s/obj/x-%s-%s.o"%(B,os.path.basename(rel)[:-3],k); units.append((s,f,o)); objs.append(o)
    compile_all(units)
    exe="%s/%s-%s"%(B,pid,spec["name"]); lk=["g++"]+lf.split()+objs+["-o",exe+".tmp"]+spec.get("link","-pthread").split()
    r=sh(lk)
    if r.returncode: print("LINK-ERROR\n"+r.stdout[-4000:]); sys.exit(2)
    os.replace(exe+".tmp",exe); prune(); return exe
def main():
    pid=sys.argv[1]; tier="quick"; replay=None; only=None
    a=sys.argv[2:]; i=0
    while i<len(a):
        if a[i] in("quick","thorough"): tier=a[i]
        elif a[i]=="--replay": i+=1; replay=a[i]
        elif a[i]=="--only": i+=1; only=a[i]
        i+=1
    spec=CHECKS[pid]; seed=int(os.environ.get("VERIF_SEED","1") or 1); t0=time.time()
    os.makedirs(V+"/evidence",exist_ok=True)
    known=[]; kf=V+"/known_findings.json"
    if os.path.exists(kf): known=[k for k in json.load(open(kf)) if k["property"]==pid and k.get("status")=="known"]
    cov={"states":0,"transitions":0,"oracle_checks":0,"jobs":0,"choice_points":0,"distinct_outcomes":0,"max_choices_per_execution":0,"traces_validated_against_impl":0}
    samples=[]; viol=[]; kn={}; parts={}; capped=0; unconf=0; custom_ex=True
    if replay:
        lines=open(replay).read().split("\n"); part=[p for p in spec["parts"] if p["name"]==lines[0]][0]
        exe=build(pid,part); tmp=B+"/replay.txt"; open(tmp,"w").write("\n".join(lines[1:]))
        r=sh([exe,"--replay",tmp,"--tier",lines[3] if len(lines)>3 and lines[3] else tier]); print(r.stdout); sys.exit(r.returncode)
    for part in spec["parts"]:
        if only and part["name"]!=only: continue
        if part.get("tier") and part["tier"]!=tier: continue
        exe=build(pid,part) if "src" in part else None
        tb=time.time()
        out="%s/%s-%s.out"%(B,pid,part["name"]); kfn=out+".known"; open(kfn,"w").write("".join(k["match"]+"\n" for k in known))
        left=max(60,(840 if tier=="quick" else 7200)-(time.time()-t0)-40)
        if "run" in part: res=part["run"](dict(V=V,B=B,R=R,H=H,exe=exe,tier=tier,out=out,left=left,sh=sh,gen=gen_headers))
        else:
            if os.path.exists(out): os.unlink(out)
            try: r=sh([exe,"--out",out,"--tier",tier,"--known",kfn,"--deadline",str(left-30)],timeout=left+60,cwd=B)
            except subprocess.TimeoutExpired: print("CHECK-TIMEOUT"); sys.exit(3)
            if not os.path.exists(out): print("CHECK-ERROR rc=%s\n%s"%(r.returncode,r.stdout[-3000:])); sys.exit(3)
            try: res=json.load(open(out))
            except Exception as e: print("CHECK-ERROR bad output %s\n%s"%(e,r.stdout[-3000:])); sys.exit(3)
            if r.returncode not in (0,1): print(r.stdout[-1500:])
        for k in ("states","transitions","oracle_checks","jobs","choice_points","distinct_outcomes"): cov[k]+=int(res.get(k,0))
        cov["max_choices_per_execution"]=max(cov["max_choices_per_execution"],int(res.get("max_choices_per_execution",0)))
        cov["traces_validated_against_impl"]+=int(res.get("executions",0))
        capped+=int(res.get("capped",0)); unconf+=int(res.get("unconfirmed",0)); samples+=res.get("samples",[])
        for v in res.get("violations",[]): v["part"]=part["name"]; viol.append(v)
        for k,n in res.get("known",{}).items(): kn[k]=kn.get(k,0)+n
        parts[part["name"]]=dict(jobs=res.get("jobs"),executions=res.get("executions"),states=res.get("states"),transitions=res.get("transitions"),explore_s=round(time.time()-tb,1),note=part.get("note",""))
        if viol: break
    cov["samples"]=samples[:8] or ["(no choice points)"]; cov["parts"]=parts; cov["exhaustive"]=(capped==0 and not viol); cov["capped_jobs"]=capped; cov["bounds"]=spec.get("bounds","")
    ev=dict(property=pid,tier=tier,seed=seed,level="model_checking",coverage=cov,wall_s=round(time.time()-t0,2),assumptions=spec.get("assumptions",[]),violations=len(viol))
    json.dump(ev,open("%s/evidence/%s.json"%(V,pid),"w"),indent=1)
    if unconf and not viol: print("CHECK-ERROR: a violation did not replay (%d)"%unconf); sys.exit(4)
    for k,n in kn.items(): 
        for e in known:
            if e["match"].split("|")[-1]==k: print("KNOWN-FINDING: property=%s %s (%d executions)"%(pid,e["what"],n)); break
    print("%s %s: %d executions, %d states, %d transitions, %d oracle checks, %d jobs, capped=%d, %.1fs"%(pid,tier,cov["traces_validated_against_impl"],cov["states"],cov["transitions"],cov["oracle_checks"],cov["jobs"],capped,time.time()-t0))
    if viol:
        for i,v in enumerate(viol[:5]):
            rp="%s/evidence/replay-%s-%d.txt"%(V,pid,i); open(rp,"w").write("%s\n%s\n%s\n%s\n%s\n# %s: %s\n# re-run: python3 run.py %s --replay %s\n"%(v["part"],v["job"]," ".join(map(str,v["choices"])),tier,"history: "+" ".join(map(str,v.get("history",[]))) if v.get("history") else "",v["key"],v["message"],pid,rp))
            print("  [%s] %s :: %s"%(v["key"],v["job"],v["message"][:600]))
            print("VIOLATION property=%s replay=%s"%(pid,rp))
        sys.exit(1)
    sys.exit(0)
if __name__=="__main__": main()
