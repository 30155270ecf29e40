// C23: every sampled generation, standardized by the reported distribution, is the same whatever the history; the standardized samples are standard normal over all enumerated seeds.
#include "cross.hpp"
#include "ref.hpp"
using namespace vm;
static dMat finv(const Cfg &c,const Dist &b,Ref &ref,int t) { ref.asked(b,t); return c.is_sep()||c.is_vd()?inv_sqrt(b.F):ref.R; }
static bool settled(const Dist &b,int n) { if (!(b.s>1e-100&&b.s<1e100)||!b.m.allFinite()||!b.F.allFinite()) return false; Eigen::SelfAdjointEigenSolver<dMat> e(b.F,Eigen::EigenvaluesOnly); double mx=e.eigenvalues().maxCoeff(),mn=e.eigenvalues().minCoeff(); if (!(mn>0)||mx/mn>1e6) return false; for (int i=0;i<n;i++) if (std::fabs(b.m[i])/(b.s*std::sqrt(b.F(i,i)))>1e5) return false; return true; }
static dMat stdz(const dMat &R,const Dist &b,const dMat &P) { return R*((P.colwise()-b.m)/b.s); }
static dMat gram(const dMat &Z) { return Z.transpose()*Z; }
static std::vector<dMat> twin(const Cfg &c0,int gens) { Cfg c; c.algo=c0.algo-c0.strat(); c.dim=c0.dim; c.lambda=c0.lambda; c.seed=c0.seed; c.tpa=c0.tpa; c.alloff=true; if (c0.tpa==2) c.tpaset=true; std::vector<dMat> out; Run r(c); r.keep=false; r.values=[](int g,const dMat&,const dMat &p) { return famgen(F_NOISE,g,p); }; r.start(); Ref ref(c,r.s->lambda()); for (int t=0;t<gens;t++) { Dist b=dist_of(r.s->sols(),c); dMat R=finv(c,b,ref,t); r.generation(); dMat Z=stdz(R,b,r.g); out.push_back(c0.is_sep()?Z:gram(Z)); } return out; }
// tpa: columns whose value is not a sample are found as the pair symmetric about the mean
static void cmp(const Cfg &c,const dMat &R,const Dist &b,const dMat &P,const dMat &W,int t,const std::string &w) {
  dMat Z=stdz(R,b,P); int m=P.cols(),n=c.dim; std::vector<char> skip(m,0); if (c.tpa==2&&t>0) { double best=1e300; int p1=-1,p2=-1; for (int i=0;i<m;i++) for (int j=i+1;j<m;j++) { double d=(dVec(P.col(i))+dVec(P.col(j))-2*b.m).norm(),e=(dVec(P.col(i))-dVec(P.col(j))).norm(); if (e>0&&d/e<best) { best=d/e; p1=i; p2=j; } } if (p1>=0&&best<1e-6) skip[p1]=skip[p2]=1; }
  if (c.is_sep()) { std::set<int> fx; for (auto &f: c.fixed) fx.insert(f.first); for (int i=0;i<m;i++) if (!skip[i]) for (int k=0;k<n;k++) if (!fx.count(k)&&!(std::fabs(std::fabs(Z(k,i))-std::fabs(W(k,i)))<=1e-6*(1+std::fabs(W(k,i))))) fail("sample",w+"generation "+std::to_string(t)+" candidate "+std::to_string(i)+": standardized coordinate "+std::to_string(k)+" is "+ds(Z(k,i))+", in another history "+ds(W(k,i))); return; }
  if (!c.fixed.empty()) return; dMat G=gram(Z); for (int i=0;i<m;i++) for (int j=0;j<m;j++) if (!skip[i]&&!skip[j]&&!(std::fabs(G(i,j)-W(i,j))<=1e-6*(1+std::sqrt(W(i,i)*W(j,j))))) fail("sample",w+"generation "+std::to_string(t)+": candidates "+std::to_string(i)+","+std::to_string(j)+" are not mean + step size x root of covariance x the normal vectors of this seed and generation (product "+ds(G(i,j))+", in another history "+ds(W(i,j))+")"); }
static void body(Chooser &ch,const Cfg &c,ValFn vals,int maxgen,const std::vector<dMat> &tw) {
  Run r(c); r.values=vals; r.keep=false; r.extra=[](const dVec &x,int) { return 0.25*x[0]+x.squaredNorm(); }; r.start(); Ref ref(c,r.s->lambda()); uint64_t h=0;
  for (int t=0;t<maxgen;t++) { Dist b=dist_of(r.s->sols(),c); if (!settled(b,c.dim)) break; dMat R=finv(c,b,ref,t); r.generation(); ch.checked(); if (r.g.cols()!=r.s->lambda()) fail("size","wrong number of candidates"); cmp(c,R,b,r.g,tw[t],t,""); ch.state(view_of(r.s->sols()).hash()); h=vmc::mix(h,vmc::dbits(b.s)); }
  ch.outcome(h); }
static bool c23big(int a,int o,int n,bool T) { return !T && n>30 && !(o==5&&(a==0||a==3)); }
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C23"); bool T=m.thorough(); int A[]={0,3,6,9,12};
  auto opts=[](Cfg &c,int o) { switch(o) { case 1: c.gp=GP_PWQ; break; case 2: c.gp=GP_PWQLIN; c.maximize=true; break; case 3: c.tpa=2; break; case 4: c.fixed={{1,0.3}}; break; case 5: c.lazy=true; break; case 6: c.gp=GP_CUSTOM; c.lazy=true; c.tpa=2; break; case 7: c.elit=1; break; case 8: c.uh=true; break; case 9: c.gp=GP_LINVEC; c.x0=100; c.sigma=30; break; case 10: c.mt=true; break; } };
  for (int a: A) for (int o=0;o<11;o++) for (int l: {2,3,4,5}) { Cfg c; c.algo=a; c.dim=a==12?6:o==4?3:2; c.lambda=l; c.alloff=true; opts(c,o); if (c.tpa==2&&l<4) continue; double sg=c.maximize?-1:1; int depth=l==2?6:l==3?4:l==4?3:2; if (T&&l<5) depth++; auto tw=std::make_shared<std::vector<dMat>>(); 
    m.add(c.str()+" depth="+std::to_string(depth),[=](Chooser &ch) { if (tw->empty()) *tw=twin(c,8); Levels lv; body(ch,c,[&](int,const dMat &q,const dMat&) { auto v=lv.next(ch,q.cols(),1,false); for (auto &x: v) x*=sg; return v; },depth,*tw); }); }
  for (int a: A) for (int o=0;o<11;o++) for (int dim: {2,3,7,12}) for (int l: {6,13}) for (int seed: {1,77,1000003}) { if (a==12&&dim<6) continue; Cfg c; c.algo=a; c.dim=dim; c.lambda=l; c.seed=seed; c.alloff=true; opts(c,o); if (seed!=1&&o>3&&!T) continue; int G=T?120:60; auto tw=std::make_shared<std::vector<dMat>>(); double sg=c.maximize?-1:1;
    m.add("long "+c.str(),[=](Chooser &ch) { if (tw->empty()) *tw=twin(c,G); int k=ch.choose(6); int F[]={F_SPHERE,F_LINEAR,F_CONST,F_ELLI,F_WORSE,F_NEG}; body(ch,c,[&](int gen,const dMat&,const dMat &p) { auto v=famgen(F[k],gen,p); for (auto &x: v) x*=sg; return v; },G,*tw); }); }
  // larger shapes: lazy updates that skip decompositions, populations far from the default
  for (int a: {0,3,6,9,12}) for (int o: {0,5,6,1}) for (auto nl: std::vector<std::pair<int,int>>{{30,4},{60,4},{60,6},{100,4},{10,101}}) { if (c23big(a,o,nl.first,T)) continue; Cfg c; c.algo=a; c.dim=nl.first; c.lambda=nl.second; c.seed=5; c.alloff=true; opts(c,o); int G=T?40:14; auto tw=std::make_shared<std::vector<dMat>>(); double sg=c.maximize?-1:1;
    m.add("large "+c.str(),[=](Chooser &ch) { if (tw->empty()) *tw=twin(c,G); int k=ch.choose(T?6:3); int F[]={F_ELLI,F_LINEAR,F_WORSE,F_SPHERE,F_CONST,F_NEG}; body(ch,c,[&](int gen,const dMat&,const dMat &p) { auto v=famgen(F[k],gen,p); for (auto &x: v) x*=sg; return v; },G,*tw); }); }
  // restarts: the samples of later runs do not depend on the history of earlier ones of the same length
  for (int a: {1,4,7,10,13,2,8,14}) for (int len: {1,2,5}) { Cfg c; c.algo=a; c.dim=c.is_vd()?6:3; c.lambda=4; c.restarts=3; c.alloff=true; auto tw=std::make_shared<std::vector<dMat>>();
    m.add("restarts "+c.str()+" len="+std::to_string(len),[=](Chooser &ch) { auto go=[&](bool first) { Run r(c); r.keep=false; std::vector<int> seg; Cfg c1=c; std::unique_ptr<Ref> ref; Dist b; dMat R; int t=0,run=-1; size_t k=0; r.values=[&](int gen,const dMat &g,const dMat &p) { while((int)seg.size()<=run) seg.push_back(first?4:ch.choose(4)); int F[]={F_SPHERE,F_LINEAR,F_CONST,F_ELLI,F_NOISE}; return famgen(F[seg[run]],gen,p); };
        r.after_ask=[&](const dMat &g) { dMat Z=stdz(R,b,g); dMat G=c.is_sep()?Z:gram(Z); if (first) tw->push_back(G); else { ch.checked(); if (k>=tw->size()) fail("sample","histories of the same lengths have different numbers of generations"); cmp(c,R,b,g,(*tw)[k],t,"run "+std::to_string(run)+" "); } k++; };
        r.onprogress=[&](const CMASolutions &s,int l) { if (s.niter()==0) { run++; c1.lambda=l; c1.algo=c.algo-c.strat(); ref.reset(new Ref(c1,l)); } t=s.niter(); b=dist_of(s,c); R=finv(c,b,*ref,t); if (!first) ch.state(view_of(s).hash()); return s.niter()>=len?1:0; }; r.start(); r.s->optimize_custom(); };
      if (tw->empty()) go(true); go(false); }); }
  // moments over seeds
  for (int a: {0,6,12}) for (int tpa: {1,2}) for (auto nl: std::vector<std::pair<int,int>>{{8,12},{2,6},{30,16}}) m.add(std::string("moments ")+algo_names[a]+" tpa="+std::to_string(tpa)+" n="+std::to_string(nl.first),[=](Chooser &ch) { const int n=nl.first,l=nl.second,G=3,S=(T?2000:400)*(n==2?4:1); std::vector<double> all; std::set<uint64_t> uniq; std::vector<dMat> acc(G,dMat::Zero(n,l)),acc2(G,dMat::Zero(n,l)); double cross=0,crossg=0,crossc=0; long nc=0; double k4=0; for (int s=1;s<=S;s++) { Cfg c; c.algo=a; c.dim=n; c.lambda=l; c.seed=s; c.tpa=tpa; c.alloff=true; Run r(c); r.keep=false; r.values=[](int g,const dMat&,const dMat &p) { return famgen(F_NOISE,g,p); }; r.start(); Ref ref(c,l); dMat prev; for (int t=0;t<G;t++) { Dist b=dist_of(r.s->sols(),c); dMat R=finv(c,b,ref,t); r.generation(); dMat Z=stdz(R,b,r.g); int from=tpa==2?3:0; ch.state(vmc::mix(vmc::dbits(Z(0,l-1)),s)); for (int i=from;i<l;i++) { for (int k=0;k<n;k++) { double z=Z(k,i); acc[t](k,i)+=z; acc2[t](k,i)+=z*z; k4+=z*z*z*z; nc++; if (k) crossc+=z*Z(k-1,i); if (i>from) cross+=z*Z(k,i-1); if (t) crossg+=z*prev(k,i); } if (!uniq.insert(vmc::dbits(Z.col(i).squaredNorm())).second) fail("repeat","two candidates have the same normal vector"); } prev=Z; } }
      ch.checked(nc); double mean=0,var=0; long cells=0; for (int t=0;t<G;t++) for (int i=tpa==2?3:0;i<l;i++) for (int k=0;k<n;k++) { double mu=acc[t](k,i)/S,v=acc2[t](k,i)/S; mean+=mu; var+=v; cells++; double sd=1/std::sqrt((double)S); if (std::fabs(mu)>6*sd) fail("moments","coordinate "+std::to_string(k)+" of candidate "+std::to_string(i)+", generation "+std::to_string(t)+": mean "+ds(mu)+" over all seeds"); if (std::fabs(v-1)>9*sd) fail("moments","coordinate "+std::to_string(k)+" of candidate "+std::to_string(i)+", generation "+std::to_string(t)+": variance "+ds(v)+" over all seeds"); }
      mean/=cells; var/=cells; double e=6/std::sqrt((double)nc); if (std::fabs(mean)>e||std::fabs(var-1)>4.5*std::sqrt(2.0/nc)||std::fabs(k4/nc-3)>12*e) fail("moments","standardized samples have mean "+ds(mean)+", variance "+ds(var)+", fourth moment "+ds(k4/nc)); if (std::fabs(cross/nc)>e||std::fabs(crossg/nc)>e||std::fabs(crossc/nc)>e) fail("moments","standardized samples are correlated: candidates "+ds(cross/nc)+", generations "+ds(crossg/nc)+", coordinates "+ds(crossc/nc)); ch.outcome(vmc::dbits(var)); });
  // interactions of settings: every feasible combination of values of any three settings
  for (auto &c: cross([](Cfg &c) { if (c.elit>1||c.initf||c.edm||c.grad||c.noisy) return false; c.alloff=true; return true; })) { auto tw=std::make_shared<std::vector<dMat>>(); m.add("cross "+c.str(),[=](Chooser &ch) { if (tw->empty()) *tw=twin(c,20); CrossScript s(ch,10,c.maximize?-1:1); body(ch,c,[&](int g,const dMat &q,const dMat &p) { return s(g,q,p); },20,*tw); }); }
  return m.run();
}
