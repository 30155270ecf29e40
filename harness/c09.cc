// C09: reproducibility. All interleavings of the steps of two searches (and of other uses of process-wide state), each compared with the solo run.
#include "cross.hpp"
#include "gp_impl.hpp"
#include <malloc.h>
using namespace vm;
static void perturb(int k) { mallopt(M_PERTURB,k); void *p[40]; for (int i=0;i<40;i++) { p[i]=malloc(16<<(i%10)); if (p[i]) memset(p[i],k,16<<(i%10)); } for (int i=39;i>=0;i--) free(p[i]); }
extern "C" time_t __wrap_time(time_t *t) { static time_t now=1000000; now+=977; if (t) *t=now; return now; }
static double obj(const dVec &x,int k) { double s=0; for (int i=0;i<x.size();i++) { double d=x[i]-0.1*(i+1); s+=(k?1.0:std::pow(30.0,i))*d*d; } return k==2?std::floor(4*s):s; }
// a search driven in single steps: 0 create, then ask/eval/tell per generation, last destroys; the record is everything observable
struct Stepper { Cfg c; int fk,G,fine; int pos=0; std::unique_ptr<Run> r; std::vector<dMat> asked; std::vector<View> v; std::vector<Call> log; std::string err; Stepper(const Cfg &cc,int f,int g,int fi):c(cc),fk(f),G(g),fine(fi) {}
  int steps() const { return 2+(fine?3:1)*G; } bool done() const { return pos>=steps(); }
  void step() { int p=pos++; if (p==0) { r.reset(new Run(c)); int k=fk; r->values=[k](int,const dMat&,const dMat &q) { std::vector<double> o(q.cols()); for (int i=0;i<q.cols();i++) o[i]=obj(q.col(i),k); return o; }; r->extra=[k](const dVec &x,int) { return obj(x,k); }; r->start(); return; }
    if (p==steps()-1) { log=r->log; r.reset(); return; }
    if (!fine) { r->generation(); asked.push_back(r->g); v.push_back(view_of(r->s->sols(),true)); return; }
    switch((p-1)%3) { case 0: { dMat m=r->s->ask(); r->asked(m); asked.push_back(m); break; } case 1: r->s->eval(r->g,r->p); r->env.evaluated(); break; case 2: r->s->tell(); r->env.told(); r->s->inc(); v.push_back(view_of(r->s->sols(),true)); break; } }
  void all() { while(!done()) step(); } };
static void cmp(const Stepper &a,const Stepper &b,const std::string &who) { for (size_t i=0;i<a.asked.size()&&i<b.asked.size();i++) if (!samem(a.asked[i],b.asked[i])) fail("sample",who+": generation "+std::to_string(i)+" samples other points than the same search alone"); for (size_t i=0;i<a.v.size();i++) same_state(who+" generation "+std::to_string(i)+", alone and among others",a.v[i],b.v[i]); if (a.log.size()!=b.log.size()) fail("calls",who+": another number of evaluations than alone"); for (size_t i=0;i<a.log.size();i++) if (!same(a.log[i].x,b.log[i].x)) fail("calls",who+": evaluates other points than alone"); }
static void inter(Chooser &ch,const Cfg &a,const Cfg &b,int G,int fine) { perturb(0x11); Stepper sa(a,0,G,fine),sb(b,1,G,fine); sa.all(); sb.all(); perturb(0xa5); Stepper x(a,0,G,fine),y(b,1,G,fine); uint64_t h=0; while(!x.done()||!y.done()) { int w=x.done()?1:y.done()?0:ch.choose(2); (w?y:x).step(); h=vmc::mix(h,w+1); ch.state(vmc::mix(x.pos*100+y.pos,h)); } ch.checked(2); cmp(sa,x,"first search"); cmp(sb,y,"second search"); ch.outcome(x.v.back().hash()); }
// other uses of the process between the steps of one search
static void other(int k,const Cfg &c) { switch(k) { case 1: for (int i=0;i<7;i++) rand(); break; case 2: srand(5); break; case 3: { Cfg d=c; Stepper s(d,1,2,0); s.all(); break; } case 4: { Cfg d=c; d.algo=(c.algo+6)%15; d.seed=c.seed; d.dim=d.is_vd()?6:c.dim; d.fixed.clear(); Stepper s(d,2,1,1); s.all(); break; } case 5: perturb(0x5a); srand48(3); drand48(); break; case 6: { Env e; e.f=[](const double *x,int n) { double s=0; for (int i=0;i<n;i++) s+=x[i]*x[i]; return s; }; Cfg d=c; d.alloff=false; d.restarts=2; d.max_iter=3; onecall(d,&e); break; } } }
static void amid(Chooser &ch,const Cfg &c,int G,int fine) { perturb(0x22); Stepper s(c,0,G,fine); s.all(); perturb(0x99); Stepper x(c,0,G,fine); uint64_t h=0; int left=2; while(!x.done()) { int k=left?ch.choose(7):0; if (k) { left--; other(k,c); } x.step(); h=vmc::mix(h,k+1); ch.state(h); } ch.checked(); cmp(s,x,"search"); ch.outcome(x.v.back().hash()); }
static Trace whole(const Cfg &c,int fk,std::function<void(long)> hook,int mg=40) { long n=0; auto vals=[&](int g,const dMat &m,const dMat &q) { if (hook) hook(n++); std::vector<double> o(q.cols()); for (int i=0;i<q.cols();i++) o[i]=fk==3?famgen(F_NOISE,g,q)[i]:obj(q.col(i),fk); return o; }; ExtraFn ex=[&](const dVec &x,int) { if (hook) hook(n++); return obj(x,fk); }; return play(c,vals,ex,mg); }
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C09"); bool T=m.thorough();
  auto opts=[](Cfg &c,int o) { switch(o) { case 1: c.gp=GP_PWQ; break; case 2: c.gp=GP_PWQLIN_CUSTOM; c.maximize=true; break; case 3: c.tpa=2; break; case 4: c.fixed={{1,0.3}}; c.grad=true; break; case 5: c.elit=1; c.gp=GP_LINVEC; break; case 6: c.uh=true; break; case 7: c.grad=true; c.gp=GP_PWQ; break; case 8: c.edm=true; c.initf=true; c.lazy=true; break; case 9: c.noisy=true; break; } };
  auto mk=[&](int a,int o,int seed) { Cfg c; c.algo=a; c.dim=c.is_vd()?6:3; c.lambda=4; c.seed=seed; opts(c,o); if (c.noisy) c.lambda=-1; return c; };
  for (int a=0;a<15;a++) for (int b=0;b<15;b++) for (int s: {7,8}) { if (a>b&&s==8) continue; Cfg x=mk(a,0,7),y=mk(b,0,s); x.alloff=y.alloff=true; m.add("pair "+x.str()+" with "+y.str(),[=](Chooser &ch) { inter(ch,x,y,3,0); }); }
  for (int o=0;o<10;o++) for (int a: {0,3,6,9,12}) for (int o2: {0,o}) { Cfg x=mk(a,o,7),y=mk(a,o2,9); x.alloff=y.alloff=true; m.add("pair "+x.str()+" with "+y.str()+" options",[=](Chooser &ch) { inter(ch,x,y,3,0); }); }
  for (int a: {0,3,6,9,12}) for (int o: {0,3,6}) { Cfg x=mk(a,o,7),y=mk(a,o,7); x.alloff=y.alloff=true; y.lambda=5; m.add("fine "+x.str(),[=](Chooser &ch) { inter(ch,x,y,T?3:2,1); }); }
  for (int a=0;a<15;a++) for (int o=0;o<10;o++) { Cfg x=mk(a,o,7); x.alloff=true; m.add("amid "+x.str(),[=](Chooser &ch) { amid(ch,x,2,o<4); }); }
  // whole runs with restarts, other searches run inside the objective at any of the first calls
  for (int a=0;a<15;a++) for (int o=0;o<10;o++) for (int l: {4,-1}) { Cfg x=mk(a,o,11); x.lambda=l; x.restarts=3; x.max_iter=6; m.add("whole "+x.str(),[=](Chooser &ch) { int fk=ch.choose(4); perturb(0x33); Trace t=whole(x,fk,nullptr); perturb(0xcc); int at=ch.choose(6),k=ch.choose(7); Trace u=whole(x,fk,[&](long n) { if (n==at*2) other(k,x); }); ch.checked(t.prog.size()); same_trace(t,u); states_of(ch,u); }); }
  for (int a=0;a<15;a++) for (int g: {(int)GP_NONE,(int)GP_PWQLIN}) { Cfg x=mk(a,0,11); x.gp=g; x.restarts=3; x.max_iter=8; m.add("same object "+x.str(),[=](Chooser &ch) { int fk=ch.choose(3); int twice=1+ch.choose(2); auto go=[&](auto tag) { typedef decltype(tag) GP; CMAParameters<GP> p=make_params<GP>(x,true); std::vector<std::vector<dVec>> logs; std::vector<View> fin; for (int q=0;q<=twice;q++) { std::vector<dVec> lg; FitFunc f=[&](const double *d,const int &n) { dVec v=Eigen::Map<const dVec>(d,n); lg.push_back(v); return obj(v,fk); }; CMASolutions s=cmaes<GP>(f,p); fin.push_back(view_of(s,true)); logs.push_back(lg); } ch.checked(twice); for (int q=1;q<=twice;q++) { if (logs[q].size()!=logs[0].size()) fail("object","a second run with the same parameters object makes "+std::to_string(logs[q].size())+" evaluations instead of "+std::to_string(logs[0].size())); for (size_t i=0;i<logs[0].size();i++) if (!same(logs[0][i],logs[q][i])) fail("object","a second run with the same parameters object evaluates other points"); same_state("runs with the same parameters object",fin[0],fin[q]); } ch.state(fin[0].hash()); ch.outcome(fin[0].hash()); }; if (g==GP_NONE) go(GenoPheno<>()); else go(GenoPheno<pwqBoundStrategy,linScalingStrategy>()); }); }
  // different seeds
  for (int a: {0,3,6,9,12}) for (int o: {0,1,3,6}) { Cfg x=mk(a,o,1); x.alloff=true; m.add("seeds "+x.str(),[=](Chooser &ch) { std::map<uint64_t,int> seen; int N=T?2000:300; std::vector<int> S; for (int s=1;s<=N;s++) S.push_back(s); for (int k=10;k<31;k++) { S.push_back(1<<k); S.push_back((1<<k)+1); } S.push_back(2147483647); S.push_back(-1); S.push_back(-7); for (int s: S) { if (s<=N&&s>0&&s!=S[s-1]) continue; Cfg c=x; c.seed=s; Stepper st(c,0,2,0); st.all(); for (size_t g=0;g<st.asked.size();g++) for (int j=0;j<st.asked[g].cols();j++) { if (g==1&&o==3) continue; dVec z=st.asked[g].col(j); uint64_t h=g; for (int i=0;i<z.size();i++) h=vmc::mix(h,vmc::dbits(z[i])); auto it=seen.find(h); if (it!=seen.end()&&it->second!=s) fail("seed","seeds "+std::to_string(it->second)+" and "+std::to_string(s)+" sample the same point"); seen[h]=s; } ch.state(seen.size()); } ch.checked(S.size()); ch.outcome(seen.size()); }); }
  // uncertainty handling re-evaluates seed dependent points; bipop draws seed dependent regimes
  m.add("seeds uncertainty",[=](Chooser &ch) { std::set<uint64_t> seen; for (int s=1;s<=200;s++) { Cfg c=mk(0,6,s); c.alloff=true; Stepper st(c,0,1,0); st.all(); uint64_t h=0; dVec d=dVec::Zero(3); int k=0; for (auto &q: st.log) if (q.slot<0) { double best=1e300; for (int j=0;j<st.asked[0].cols();j++) best=std::min(best,(q.x-st.asked[0].col(j)).norm()); h=vmc::mix(h,vmc::dbits(best)); k++; } if (k==0) fail("seed","nothing re-evaluated"); if (!seen.insert(h).second) fail("seed","two seeds re-evaluate at the same offsets"); ch.state(h); } ch.checked(200); });
  m.add("seeds bipop",[=](Chooser &ch) { std::set<uint64_t> seen; int same=0; for (int s=1;s<=60;s++) { Cfg c=mk(2,0,s); c.restarts=4; c.max_iter=5; c.lambda=-1; Trace t=whole(c,1,nullptr); uint64_t h=0; for (auto &p: t.prog) if (p.v.niter==0) { h=vmc::mix(h,vmc::dbits(p.v.sigma)); h=vmc::mix(h,p.lambda); } if (!seen.insert(h).second) same++; ch.state(h); } ch.checked(60); if (same>30) fail("seed","restart regimes do not depend on the seed"); });
  // interactions of settings: every feasible combination of values of any three settings
  for (auto &c0: cross([](Cfg&) { return true; })) for (int st=0;st<3;st++) { Cfg c=c0; c.algo+=st; c.restarts=2; if (c.alloff) c.max_iter=-1; else c.max_iter=5; m.add("cross "+c.str(),[=](Chooser &ch) { int fk=ch.choose(2)*3; perturb(0x33); Trace t=whole(c,fk,nullptr,14); perturb(0xcc); int at=ch.choose(2),k=ch.choose(3)*2+1; Trace u=whole(c,fk,[&](long n) { if (n==at*7) other(k,c); },14); ch.checked(t.prog.size()); same_trace(t,u); states_of(ch,u); }); }
  return m.run();
}
