// C10: every schedule of the team members at objective-call boundaries, compared with the sequential run; all other accesses are checked for conflicts.
#include "cross.hpp"
#include "gp_impl.hpp"
#include "ompshim.hpp"
#include <libcmaes/surrogates/rankingsvm.hpp>
using namespace vm;
struct Bad { std::string key,msg; void set(const std::string &k,const std::string &m) { if (key.empty()) { key=k; msg=m; } } void raise() { if (!key.empty()) fail(key,msg); if (ompshim::race()) fail("race",ompshim::race()); } };
struct Guard { Guard(int t) { ompshim::reset(); ompshim::team=t; } ~Guard() { ompshim::team=1; ompshim::pick=nullptr; ompshim::reset(); } };
// the first *budget scheduling points are explored in full, the rest follow one of three policies (chosen when first needed)
static std::function<int(int)> picker(Chooser &ch,int *budget) { auto rr=std::make_shared<int>(0); auto pol=std::make_shared<int>(-1); return [&ch,budget,pol,rr](int k) { if (*budget>0) { --*budget; return ch.choose(k); } if (*pol<0) *pol=ch.choose(3); int policy=*pol; if (policy==0) return 0; if (policy==1) return k-1; return (*rr)++%k; }; }
struct Tr { std::vector<View> v; std::vector<Call> log; int ret=0; View fin; };
static bool lessc(const Call &a,const Call &b) { if (a.gen!=b.gen) return a.gen<b.gen; if (a.slot!=b.slot) return a.slot<b.slot; for (int i=0;i<a.x.size()&&i<b.x.size();i++) { uint64_t p=vmc::dbits(a.x[i]),q=vmc::dbits(b.x[i]); if (p!=q) return p<q; } return false; }
// one run of at most G generations; values per generation and slot from vals (filled on demand by gen)
static Tr run(Cfg c,bool mt,int G,std::vector<std::vector<double>> &vals,std::function<std::vector<double>(int,int)> draw,std::function<void(int)> ongen,bool whole) {
  c.mt=mt; Tr t; Bad bad; Run r(c); r.extra=[](const dVec &x,int) { double s=0; for (int i=0;i<x.size();i++) s+=(i+1)*x[i]*x[i]+0.3*x[i]; return s; }; std::vector<int> inside(8,0); long dup=0;
  r.values=[&](int g,const dMat &m,const dMat&) { if (ongen) ongen(g); while((int)vals.size()<=g) vals.push_back(draw((int)vals.size(),(int)m.cols())); return vals[g]; };
  r.oncall=[&](const dVec&,double,int slot) { if (r.ingen&&slot<0&&!c.uh) dup++; };
  r.env.f=[&](const double *x,int n) { ompshim::Mute m; int me=ompshim::self(); if (me<0&&0) return 0.0; dVec cp(n); for (int i=0;i<n;i++) cp[i]=x[i]; if (!mt&&ompshim::self()>=0) bad.set("seq","the objective is called from a team although parallel evaluation is off"); double v=r.call(x,n); ompshim::yield(); for (int i=0;i<n;i++) if (!samed(x[i],cp[i])) { bad.set("overwrite","the point given to the objective changes while another call is made"); break; } return v; };
  r.after_eval=[&]() { bad.raise(); for (size_t i=0;i<r.hit.size();i++) if (!r.hit[i]) fail("once","candidate "+std::to_string(i)+" was not evaluated"); if (dup) fail("once","a candidate was evaluated twice or another point was evaluated"); };
  r.after_tell=[&]() { t.v.push_back(view_of(r.s->sols(),true)); bad.raise(); };
  r.onprogress=[&](const CMASolutions &s,int) { return (int)t.v.size()>=G?1:0; };
  r.start(); if (whole) t.ret=r.s->optimize_custom(); else for (int g=0;g<G;g++) r.generation(); bad.raise(); t.fin=view_of(r.s->sols(),true); t.log=r.log; std::stable_sort(t.log.begin(),t.log.end(),lessc); return t; }
static void cmp(const Tr &a,const Tr &b) { if (a.v.size()!=b.v.size()) fail("same","the parallel run has "+std::to_string(a.v.size())+" generations, the sequential one "+std::to_string(b.v.size())); for (size_t i=0;i<a.v.size();i++) { same_state("generation "+std::to_string(i)+" of the parallel and sequential run",a.v[i],b.v[i]); } same_state("final state of the parallel and sequential run",a.fin,b.fin); if (a.ret!=b.ret) fail("same","another return code"); if (a.log.size()!=b.log.size()) fail("once","the parallel run makes "+std::to_string(a.log.size())+" evaluations, the sequential one "+std::to_string(b.log.size())); for (size_t i=0;i<a.log.size();i++) if (!same(a.log[i].x,b.log[i].x)||a.log[i].gen!=b.log[i].gen) fail("once","the parallel run evaluates other points than the sequential one"); }
static void body(Chooser &ch,const Cfg &c,int T,int G,int budget,bool whole,bool allrank) {
  Guard gd(T); std::vector<std::vector<double>> vals; Levels lv; int gsel=whole?-1:ch.choose(G); int left=0; ompshim::pick=picker(ch,&left);
  auto draw=[&](int g,int l) { std::vector<int> w(l); int k=allrank?ch.choose(3):g%3; for (int i=0;i<l;i++) w[i]=k==0?i:k==1?l-1-i:(i*2+1)%l; std::vector<double> v(l); for (int i=0;i<l;i++) v[i]=w[i]-0.5*g+0.01*i; return v; };
  long rp0=ompshim::regions_par; if (whole||gsel==0) left=budget;
  Tr a=run(c,true,G,vals,draw,[&](int g) { if (!whole) left=g==gsel?budget:0; },whole); long rp=ompshim::regions_par-rp0; ch.checked(a.v.size()+1);
  ompshim::pick=nullptr; Guard g2(T); Tr b=run(c,false,G,vals,draw,nullptr,whole); cmp(a,b); for (auto &v: a.v) ch.state(vmc::mix(v.hash(),rp)); uint64_t h=0; for (auto &x: ch.tr) h=vmc::mix(h,x.first); ch.state(h); ch.outcome(a.fin.hash()); }
template<class GP> static void maps(Chooser &ch,const Cfg &c,int cols,int T,int K) { Guard gd(T); CMAParameters<GP> p=make_params<GP>(c,false); const GP &gp=p.get_gp(); int left=K; dMat X(c.dim,cols); for (int j=0;j<cols;j++) for (int i=0;i<c.dim;i++) X(i,j)=std::sin(1.7*i+0.37*j)*(1+j%7); ompshim::pick=picker(ch,&left); dMat P=gp.pheno(X); dMat Q=gp.geno(P); ch.checked(2*cols); if (ompshim::race()) fail("race",ompshim::race()); ompshim::pick=nullptr; ompshim::team=1; dMat P1=gp.pheno(X),Q1=gp.geno(P); if (!samem(P,P1)||!samem(Q,Q1)) fail("same","mapping a population with a team differs from mapping it sequentially"); for (int j=0;j<cols;j++) { if (!same(dVec(P.col(j)),gp.pheno(dVec(X.col(j))))) fail("same","column "+std::to_string(j)+" is mapped differently from the single point"); } ch.state(vmc::dbits(P(0,cols-1))); uint64_t h=T; for (auto &x: ch.tr) h=vmc::mix(h,x.first); ch.state(h); ch.outcome(vmc::dbits(Q(0,0))); }
static void svm(Chooser &ch,int n,int pts,int T) { auto go=[&](int t,dVec &al,dVec &fit) { Guard gd(t); int left=8; if (t>1) ompshim::pick=picker(ch,&left); RankingSVM<RBFKernel> s; s._encode=true; dMat x(n,pts),xt(n,pts); for (int j=0;j<pts;j++) for (int i=0;i<n;i++) { x(i,j)=std::sin(2.3*i+j)+0.1*j; xt(i,j)=std::cos(1.3*i+j); } dMat ci=dMat::Identity(n,n); dVec m=dVec::Constant(n,0.2); dMat tr=x; s.train(tr,200,ci,m); al=s._alpha; dMat tr2=x; s.predict(fit,xt,tr2,ci,m); ch.checked(2); if (ompshim::race()) fail("race",std::string("training or prediction of the ranking surrogate: ")+ompshim::race()); }; dVec a1,f1,a2,f2; go(T,a2,f2); go(1,a1,f1); if (!same(a1,a2)||!same(f1,f2)) fail("same","training or prediction of the ranking surrogate with a team differs from the sequential one"); uint64_t h=T; for (auto &x: ch.tr) h=vmc::mix(h,x.first); ch.state(h); ch.outcome(vmc::dbits(f1[0])); }
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C10"); bool TH=m.thorough();
  auto opts=[](Cfg &c,int o) { switch(o) { case 1: c.gp=GP_PWQ; break; case 2: c.gp=GP_PWQLIN_CUSTOM; c.maximize=true; break; case 3: c.tpa=2; break; case 4: c.fixed={{1,0.3}}; c.grad=true; break; case 5: c.elit=1; c.gp=GP_LINVEC; break; case 6: c.uh=true; break; case 7: c.grad=true; c.gp=GP_PWQ; break; case 8: c.edm=true; c.initf=true; break; case 9: c.maximize=true; c.grad=true; break; } };
  for (int a: {0,3,6,9,12}) for (int o=0;o<10;o++) for (int T: {1,2,3,4}) for (int l: {2,3,4,5,6}) { Cfg c; c.algo=a; c.dim=a==12?6:3; c.lambda=l; c.alloff=true; opts(c,o); if (c.tpa==2&&l<4) continue; if (c.grad&&l>4) continue; if (T==1&&l!=3) continue; if (!TH&&a&&(l>4||T>3||l==2)) continue; if (!TH&&l==6&&T==4) continue; if (a==12&&c.grad&&T>2&&!TH) continue; int budget=TH?14:T==2?9:l>4?6:5; if (T==4) budget=TH?9:5; if (c.grad) budget=TH?(T==2?10:7):(T==2?6:4);  m.add("gen "+c.str()+" team="+std::to_string(T),[=](Chooser &ch) { body(ch,c,T,TH?3:2,T==1?0:budget,false,false); }); }
  for (int a: {0,6,12}) for (int o: {0,1,6,7}) for (int T: {2,3}) { Cfg c; c.algo=a; c.dim=a==12?6:2; c.lambda=3; c.alloff=true; opts(c,o); m.add("rank "+c.str()+" team="+std::to_string(T),[=](Chooser &ch) { body(ch,c,T,TH?3:2,TH?5:T==2?4:3,false,true); }); }
  for (int a=0;a<15;a++) for (int o=0;o<10;o++) for (int T: {2,3}) { Cfg c; c.algo=a; c.dim=c.is_vd()?6:3; c.lambda=4; c.restarts=2; c.max_iter=4; opts(c,o); m.add("run "+c.str()+" team="+std::to_string(T),[=](Chooser &ch) { body(ch,c,T,12,TH?7:4,true,false); }); }
  for (int a: {0,6,12}) for (int g=0;g<GP_COUNT;g++) for (int T: {2,3}) for (int l: {99,100,130}) { Cfg c; c.algo=a; c.dim=a==12?6:3; c.lambda=l; c.gp=g; m.add("large "+c.str()+" team="+std::to_string(T),[=](Chooser &ch) { body(ch,c,T,2,TH?7:4,true,false); }); }
  for (int g=0;g<GP_COUNT;g++) for (int cols: {1,99,100,101,103}) for (int T: {2,3,4}) { Cfg c; c.algo=0; c.dim=3; c.lambda=4; c.gp=g; int K=TH?8:6; m.add("maps "+c.str()+" cols="+std::to_string(cols)+" team="+std::to_string(T),[=](Chooser &ch) { switch(g) { case GP_NONE: case GP_CUSTOM: maps<GenoPheno<>>(ch,c,cols,T,K); break; case GP_PWQ: case GP_PWQ_CUSTOM: maps<GenoPheno<pwqBoundStrategy>>(ch,c,cols,T,K); break; case GP_LIN: case GP_LINVEC: case GP_LIN_CUSTOM: maps<GenoPheno<NoBoundStrategy,linScalingStrategy>>(ch,c,cols,T,K); break; default: maps<GenoPheno<pwqBoundStrategy,linScalingStrategy>>(ch,c,cols,T,K); } }); }
  for (int n: {2,5}) for (int pts: {3,5,8}) for (int T: {2,3,4}) m.add("ranksvm n="+std::to_string(n)+" points="+std::to_string(pts)+" team="+std::to_string(T),[=](Chooser &ch) { svm(ch,n,pts,T); });
  // interactions of settings: every feasible combination of values of any three settings
  for (auto &c0: cross([](Cfg &c) { if (c.noisy) return false; return true; },2)) for (int T: {2,3}) { Cfg c=c0; c.max_iter=3; c.alloff=false; m.add("cross "+c.str()+" team="+std::to_string(T),[=](Chooser &ch) { body(ch,c,T,8,TH?7:4,true,false); }); }
  return m.run();
}
