// C13: elitist re-injection and elitist restart against an independent model, along every ranking history.
#include "cross.hpp"
using namespace vm;
struct Pt { dVec x; double v; };
static void body(Chooser &ch,const Cfg &c,ValFn vals,std::function<double(int)> initv,int maxgen) {
  int mode=c.elit2>=0?c.elit2:c.elit; Run r(c); r.values=vals; r.keep=false; uint64_t h=0; int inits=0; Pt init; bool haveInit=false; Pt best; int bestgen=-1; bool haveBest=false; Pt lastbest; int t=0,run=0; bool rerun=false; bool expectInit=true; std::string err; long extras=0; Pt worst; bool cut=false;
  r.extra=[&](const dVec&,int) { return initv(inits); };
  r.oncall=[&](const dVec &x,double v,int slot) { if (slot>=0) return; extras++; if (mode==0&&!c.initf) fail("calls","elitism is off but an additional point was evaluated"); if (!expectInit) fail("calls","the starting point was evaluated more than once in a run"); expectInit=false; inits++; init={r.s->sols().xmean(),v}; haveInit=true; best=init; bestgen=-1; haveBest=true; dVec p=r.s->pheno(init.x); if (!same(p,x)) fail("init","initial value was not evaluated at the starting point"); };
  auto improve=[](double a,double b) { return a<b; };
  r.after_eval=[&]() { CMASolutions &S=r.s->sols(); int n=r.g.cols(); bool act=t>0&&(mode==1||mode==2||(mode==3&&rerun)); Pt ref; bool want=false; int count=0;
    if (act) { ref=mode==1?best:init; for (int i=0;i<n;i++) count+=improve(r.vals[i],ref.v); want=count<n/2; }
    std::vector<char> used(n,0); int subs=0; bool found=false; ch.checked(); double lostworst=0; 
    for (int i=0;i<S.size();i++) { Candidate q=S.get_candidate(i); int m=-1; for (int j=0;j<n;j++) if (!used[j]&&same(dVec(r.g.col(j)),q.get_x_dvec())&&samed(q.get_fvalue(),r.vals[j])) { m=j; break; } if (m>=0) used[m]=1; else { subs++; if (want&&same(q.get_x_dvec(),ref.x)&&samed(q.get_fvalue(),ref.v)) found=true; else fail("foreign","generation "+std::to_string(t)+": stored candidate "+std::to_string(i)+" is neither sampled nor the reference point"); } }
    if (want&&!found) fail("missing","generation "+std::to_string(t)+": "+std::to_string(count)+" of "+std::to_string(n)+" candidates improve on the reference "+ds(ref.v)+", but it is not part of the generation"); if (!want&&subs) fail("foreign","generation "+std::to_string(t)+": a point was substituted although "+(act?"enough candidates improve":"elitism does not apply"));
    if (subs>1) fail("foreign","more than one point substituted"); if (want) for (int j=0;j<n;j++) if (!used[j]&&improve(r.vals[j],ref.v)) fail("lost","generation "+std::to_string(t)+": a candidate better than the reference was replaced by it"); };
  r.after_tell=[&]() { CMASolutions &S=r.s->sols(); Candidate b=S.get_candidate(0); if (!haveBest||improve(b.get_fvalue(),best.v)) { best={b.get_x_dvec(),b.get_fvalue()}; bestgen=t; haveBest=true; } if (mode&&(mode!=3||rerun)) { // selection: the best half
      int n=S.size(); Pt ref=mode==1?best:init; (void)n; (void)ref; } t++; lastbest={b.get_x_dvec(),b.get_fvalue()}; };
  r.onprogress=[&](const CMASolutions &s,int) { ch.checked(); ch.state(vmc::mix(view_of(s).hash(),run)); h=vmc::mix(h,vmc::dbits(s.sigma()));
    if (s.niter()==0&&t>0) { run++; // a new run started (its starting point was evaluated before this notification: best and init are the new run's)
    } return r.gen+1>=maxgen?(cut=true,1):0; };
  // the elitist restart re-creates the solution, and evaluates its starting point before the first notification
  struct { Pt best,last; int bestgen=-1,t=0; } end; int pend=0;
  auto oc=r.oncall; r.oncall=[&](const dVec &x,double v,int slot) { if (slot<0&&t>0) { // a new run begins: judge whether it had to
      if (c.strat()==0) { if (mode!=3) fail("restart","an elitist restart happened in another mode"); if (!(best.v<lastbest.v)) fail("restart","restarted although the best seen point does not beat the final one"); if (t-std::max(bestgen,0)<3) fail("restart","restarted although the best seen point is only "+std::to_string(t-std::max(bestgen,0))+" generations old"); if (!same(r.s->sols().xmean(),best.x)) fail("restart","restart does not begin at the best seen point"); if (r.s->sols().niter()!=0) fail("restart","restart does not begin at iteration 0"); }
      expectInit=true; t=0; rerun=true; pend++; } oc(x,v,slot); };
  r.start(); r.s->optimize_custom(); ch.checked();
  if ((mode==1||mode==2)&&!inits) fail("init","the starting point was never evaluated"); 
  if (mode==3&&t>0&&best.v<lastbest.v&&t-std::max(bestgen,0)>=3) fail("restart","no restart although the best seen point ("+ds(best.v)+", generation "+std::to_string(bestgen)+") beats the final one ("+ds(lastbest.v)+", generation "+std::to_string(t)+")");
  ch.outcome(vmc::mix(h,inits));
}
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C13"); bool T=m.thorough(); int A[]={0,3,6,9,12}; double IV[]={-2.5,0.5,3.5,1.0};
  for (int a: A) for (int mode=0;mode<6;mode++) for (int opt=0;opt<6;opt++) for (int l: {2,3,4,5}) { Cfg c; c.algo=a; c.dim=a==12?6:2; c.lambda=l; c.alloff=true; c.elit=mode<4?mode:mode==4?1:2; if (mode==4) c.elit2=0; if (mode==5) c.elit2=l%2?0:1; 
    switch(opt) { case 1: c.gp=GP_PWQ; break; case 2: c.gp=GP_PWQLIN; break; case 3: c.tpa=2; if (l<4) continue; break; case 4: c.gp=GP_CUSTOM; c.initf=true; break; case 5: c.gp=GP_LIN; c.lazy=true; break; } if (opt&&l==5) continue; if (l>=4&&opt>1&&opt!=3&&!T) continue;
    if (c.elit2==0&&c.initf) {} int depth=l==2?4:l==3?3:2; bool ties=l<=3; int sh=l==5?2:l==2||l==4?4:3; if (T&&l<=3) depth++;
    m.add(c.str()+" depth="+std::to_string(depth),[=](Chooser &ch) { Levels lv; double iv=0; bool drawn=false; body(ch,c,[&](int gen,const dMat &q,const dMat&) { return lv.next(ch,q.cols(),gen==0?1:sh,ties&&(l==2||gen<2)); },[&](int) { if (!drawn) { iv=IV[ch.choose(4)]; drawn=true; } return iv; },depth); }); }
  // restart rule: every sequence of trends, any age of the best seen point
  for (int a: A) for (int mi: {2,3,4,5,7}) for (int opt=0;opt<4;opt++) { Cfg c; c.algo=a; c.dim=a==12?6:2; c.lambda=3; c.elit=3; c.max_iter=mi; c.off={TOLHISTFUN,EQUALFUNVALS,STAGNATION}; if (opt==1) c.gp=GP_PWQLIN; if (opt==2) { c.gp=GP_LINVEC; c.fixed={{0,0.2}}; } if (opt==3) c.gp=GP_PWQ_CUSTOM;
    m.add("restart rule "+c.str(),[=](Chooser &ch) { double cur=0; int n=0; body(ch,c,[&](int,const dMat &q,const dMat&) { int k=n++<2*mi&&n<10?ch.choose(3):1; cur+=k==0?-5:k==1?3:0; std::vector<double> v(q.cols()); for (int i=0;i<(int)v.size();i++) v[i]=cur+(i*7%3); return v; },[&](int k) { return k==0?cur+2:cur+(k%3)*4-4; },30); }); }
  // every sequence of two or three mode settings: the last one counts
  for (int a: A) for (int e1=1;e1<4;e1++) for (int e2=0;e2<4;e2++) for (int opt=0;opt<2;opt++) { Cfg c; c.algo=a; c.dim=a==12?6:2; c.lambda=4; c.elit=e1; c.elit2=e2; c.max_iter=6; c.off={TOLHISTFUN,EQUALFUNVALS,STAGNATION}; c.initf=opt;
    m.add("modes "+c.str(),[=](Chooser &ch) { double cur=0; int n=0; body(ch,c,[&](int,const dMat &q,const dMat&) { int k=n++<5?ch.choose(3):1; cur+=k==0?-5:k==1?3:0; std::vector<double> v(q.cols()); for (int i=0;i<(int)v.size();i++) v[i]=cur+(i*7%3); return v; },[&](int k) { return k==0?cur+2:cur+(k%3)*4-4; },20); }); }
  // long runs, larger shapes
  for (int a: A) for (int mode=1;mode<4;mode++) for (int opt=0;opt<4;opt++) for (int dl=0;dl<4;dl++) { Cfg c; c.algo=a; int D[]={6,10,25,7},L[]={5,-1,7,101}; c.dim=D[dl]; c.lambda=L[dl]; c.alloff=true; c.elit=mode; switch(opt) { case 1: c.gp=GP_PWQ; break; case 2: c.gp=GP_PWQLIN; c.lazy=true; break; case 3: c.tpa=2; break; } int G=(dl<2?150:20)*(T?2:1);
    m.add("long "+c.str(),[=](Chooser &ch) { int F[]={F_ELLI,F_LINEAR,F_NOISE,F_NEG,F_PLATEAU,F_CONST}; int k=ch.choose(T?6:5); double iv=ch.choose(2)?1e9:-1; body(ch,c,[=](int gen,const dMat&,const dMat &p) { return famgen(F[k],gen,p); },[=](int) { return iv; },G); }); }
  // interactions of settings: every feasible combination of values of any three settings
  for (auto &c: cross([](Cfg &c) { if (c.grad||c.uh||c.maximize) return false; c.edm=false; return true; })) m.add("cross "+c.str(),[=](Chooser &ch) { double iv=IV[ch.choose(3)]; CrossScript s(ch,10); body(ch,c,[&](int g,const dMat &q,const dMat &p) { return s(g,q,p); },[=](int) { return iv; },20); });
  return m.run();
}
