// C03: reported evaluation and iteration counts against the objective's own call counter, at every notification and at the end.
#include "cross.hpp"
using namespace vm;
struct Counter { long base=0; int gens=0; bool first=true; long lastcalls=0; int lastf=0; long tail=-1; std::vector<std::pair<View,long>> runs; std::vector<long> between; };
static void body(Chooser &ch,Cfg c,ValFn vals,int maxgen,int how) {
  Run r(c); r.values=vals; r.extra=[](const dVec &x,int) { return 0.25*x[0]+x.squaredNorm(); }; r.env.g=[](const double *x,int n) { dVec g(n); for (int i=0;i<n;i++) g[i]=2*x[i]; return g; };
  long base=0; int gens=0,lastf=0; long lastc=0; bool any=false; std::vector<long> btw; View lastv; std::vector<View> ends; int ngen=0;
  r.after_tell=[&]() { gens++; };
  r.onprogress=[&](const CMASolutions &s,int l) { ch.checked(); int f=s.fevals(),n=s.niter();
    if (!any) { base=0; any=true; gens=0; if (f!=r.ncalls) fail("fevals","first notification reports "+std::to_string(f)+" evaluations, "+std::to_string(r.ncalls)+" calls were made"); }
    else if (n==0 && f<=1 && c.strat()) { ends.push_back(lastv); btw.push_back(r.ncalls-lastc-f); base=r.ncalls-f; gens=0; }   // fresh run of a restarting strategy
    else if (n==0) { gens=0; if (f!=r.ncalls-base) fail("fevals","elitist restart reports "+std::to_string(f)+" evaluations, this run made "+std::to_string(r.ncalls-base)); }
    else { if (f!=r.ncalls-base) fail("fevals","generation "+std::to_string(r.gen)+": "+std::to_string(f)+" evaluations reported, "+std::to_string(r.ncalls-base)+" calls made by this run"); }
    if (n!=gens) fail("niter","generation "+std::to_string(r.gen)+": "+std::to_string(n)+" iterations reported, "+std::to_string(gens)+" generations completed in this run");
    lastc=r.ncalls; lastf=f; lastv=view_of(s); ch.state(vmc::mix(lastv.hash(),r.ncalls)); ngen++;
    return r.gen+1>=maxgen?1:0; };
  r.start();
  if (how==0) r.s->optimize_custom();
  else { while(!r.s->stop()) r.generation(); }
  View f=view_of(r.s->sols()); ch.checked(); ch.outcome(hash_calls(r.log));
  if (!c.strat()||how) { if (f.fevals!=r.ncalls-base) fail("fevals","final count "+std::to_string(f.fevals)+", calls made "+std::to_string(r.ncalls-base)); if (f.niter!=gens) fail("niter","final iteration count "+std::to_string(f.niter)+" vs "+std::to_string(gens));
    if (how==1) { // further direct use of the library's own evaluations
      for (int k=0;k<2;k++) { long c0=r.ncalls; int f0=r.s->sols().fevals(); if (k==0) r.s->gradf(r.s->pheno(f.xmean)); else r.s->edm(); ch.checked(); if (r.s->sols().fevals()-f0!=r.ncalls-c0) fail("fevals",std::string(k?"edm":"gradient")+" made "+std::to_string(r.ncalls-c0)+" calls, counted "+std::to_string(r.s->sols().fevals()-f0)); } } 
  } else {
    long tail=r.ncalls-lastc; ends.push_back(lastv); for (long b: btw) if (b!=tail) fail("fevals","a run made "+std::to_string(b)+" uncounted calls after its last notification (expected "+std::to_string(tail)+")");
    if (tail && !c.edm) fail("fevals",std::to_string(tail)+" calls after the last notification");
    bool ok=false; for (auto &e: ends) if (e.niter==f.niter && same(e.xmean,f.xmean) && e.fevals+tail==f.fevals) ok=true; if (!ok) fail("final","the returned solution's counts ("+std::to_string(f.fevals)+"/"+std::to_string(f.niter)+") are those of no run"); }
}
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C03"); bool T=m.thorough(); int A[]={0,3,6,9,12};
  for (int a: A) for (int opt=0;opt<21;opt++) for (int how=0;how<2;how++) {
    Cfg c; c.algo=a; c.dim=a==12?6:2; c.lambda=3; c.alloff=true;
    switch(opt) { case 1: c.elit=1; break; case 2: c.elit=2; c.gp=GP_PWQ; break; case 3: c.tpa=2; c.lambda=4; break; case 4: c.uh=true; break; case 5: c.lazy=true; break; case 6: c.gp=GP_PWQLIN; c.initf=true; break; case 7: c.gp=GP_CUSTOM; c.fixed={{1,0.4}}; c.grad=true; break; case 8: c.maximize=true; break; case 9: c.grad=true; break; case 10: c.grad=true; c.ugrad=true; c.edm=true; break; case 11: c.elit=3; c.edm=true; break; case 12: c.uh=true; c.elit=1; c.grad=true; c.lambda=4; break; case 13: c.edm=true; c.gp=GP_PWQ; break; case 14: c.uh=true; c.lambda=5; break; case 15: c.uh=true; c.lambda=11; break; case 16: c.elit=1; c.initf=true; c.edm=true; break; case 17: c.gp=GP_LIN; c.grad=true; c.tpa=2; c.lambda=4; c.fixed={{0,0.1}}; break; case 18: c.uh=true; c.lambda=2; break; case 19: c.elit=1; c.lambda=2; break; case 20: c.grad=c.edm=true; c.lambda=2; c.gp=GP_PWQ; break; }
    if (how==1 && (c.elit||c.initf)) continue; // initial values are the optimize() call's
    int depth=T?4:3, sh=2; bool ties=false; if (c.lambda>=4) { depth=T?3:2; sh=1; }
    if (opt==15) { depth=3; }
    m.add(c.str()+(how?" manual":"")+" depth="+std::to_string(depth),[=](Chooser &ch) { Levels lv; body(ch,c,[&](int,const dMat &q,const dMat&) { auto v=lv.next(ch,q.cols(),sh,ties); return v; },depth,how); }); }
  for (int a=0;a<15;a++) for (int opt=0;opt<6;opt++) { Cfg c; c.algo=a; c.dim=c.is_vd()?6:2; c.lambda=4; c.restarts=4; 
    switch(opt) { case 0: break; case 1: c.elit=3; break; case 2: c.elit=1; c.edm=true; break; case 3: c.grad=true; c.initf=true; break; case 4: c.uh=true; break; case 5: c.elit=3; c.edm=true; c.max_iter=9; break; }
    if (c.strat()) c.max_fevals=c.is_vd()?150:120; if (opt!=5) c.max_iter=opt%2?17:31;
    m.add("segments "+c.str(),[=](Chooser &ch) { std::vector<int> seg; int F[]={F_SPHERE,F_CONST,F_NOISE,F_WORSE}; int L=7; body(ch,c,[&](int gen,const dMat &q,const dMat &p) { int s=std::min(gen/L,T?4:3); while((int)seg.size()<=s) seg.push_back(F[ch.choose(4)]); return famgen(seg[s],gen,p); },400,0); }); }
  // long runs, larger shapes
  for (int a: A) for (int opt=0;opt<7;opt++) for (int dl=0;dl<4;dl++) { Cfg c; c.algo=a; int D[]={6,10,25,7},L[]={5,-1,7,101}; c.dim=D[dl]; c.lambda=L[dl]; c.alloff=true; switch(opt) { case 1: c.uh=true; break; case 2: c.tpa=2; c.grad=true; break; case 3: c.lazy=true; c.gp=GP_PWQLIN; break; case 4: c.elit=1; c.edm=true; break; case 5: c.maximize=true; c.uh=true; c.gp=GP_PWQ; break; case 6: c.initf=true; c.grad=c.ugrad=true; break; } int G=(dl<2?170:25)*(T?3:1);
    m.add("long "+c.str(),[=](Chooser &ch) { int F[]={F_ELLI,F_LINEAR,F_NOISE,F_NEG,F_PLATEAU,F_CONST}; int k=ch.choose(T?6:4); body(ch,c,[=](int gen,const dMat&,const dMat &p) { return famgen(F[k],gen,p); },G,0); }); }
  // interactions of settings: every feasible combination of values of any three settings
  for (auto &c: cross([](Cfg&) { return true; })) m.add("cross "+c.str(),[=](Chooser &ch) { CrossScript s(ch,10,c.maximize?-1:1); body(ch,c,[&](int g,const dMat &q,const dMat &p) { return s(g,q,p); },20,0); });
  return m.run();
}
