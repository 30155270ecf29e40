// C07: every generation of the real search against the reference model of the published updates, along every ranking history.
#include "cross.hpp"
#include "ref.hpp"
using namespace vm;
static void body(Chooser &ch,const Cfg &c,ValFn vals,int maxgen) {
  Run r(c); r.values=vals; r.keep=false; r.extra=[](const dVec &x,int) { return x.squaredNorm(); }; r.env.g=[](const double *x,int n) { dVec g(n); for (int i=0;i<n;i++) g[i]=2*x[i]+0.1*(i+1); return g; };
  r.start(); Ref ref(c,r.s->lambda()); if (c.lambda>0 && r.s->lambda()!=(c.noisy?5:1)*c.lambda) fail("lambda","population size is not the configured one");
  dVec mprev; uint64_t h=0;
  for (int t=0;t<maxgen;t++) { CMASolutions &S=r.s->sols(); Dist b=dist_of(S,c); ref.asked(b,t);
    if (t==0) { if (!b.m.allFinite()||b.s!=c.sigma||(!c.is_vd()&&b.F!=dMat::Identity(c.dim,c.dim))) fail("init","initial distribution is not (x0, sigma0, identity)"); }
    r.generation(); CMASolutions &Q=r.s->sols(); Dist a=dist_of(Q,c); std::vector<dVec> X; for (int i=0;i<Q.size();i++) X.push_back(Q.get_candidate(i).get_x_dvec());
    if (!(a.s>1e-150&&a.s<1e150)) break;
    // close to numerical degeneracy the published formula itself is not determined
    { double mx=0,mn=1e300; if (c.dim<100) { Eigen::SelfAdjointEigenSolver<dMat> e(b.F,Eigen::EigenvaluesOnly); mx=e.eigenvalues().maxCoeff(); mn=e.eigenvalues().minCoeff(); if (!(mn>0)||mx/mn>1e6) break; } double sh=0; for (int i=0;i<c.dim;i++) sh=std::max(sh,std::fabs(b.m[i])/(b.s*std::sqrt(b.F(i,i)))); if (sh>1e5) break; }
    std::string e=ref.step(b,a,X,r.g,mprev,t); ch.checked(); if (!e.empty()) fail("update","generation "+std::to_string(t)+": "+e); mprev=b.m; ch.state(view_of(Q).hash()); h=vmc::mix(h,vmc::dbits(a.s)); }
  ch.outcome(h);
}
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C07"); bool T=m.thorough(); int A[]={0,3,6,9,12};
  for (int a: A) for (int opt=0;opt<16;opt++) for (int dim: {1,2,3,6,8}) for (int l: {2,3,4,5}) {
    Cfg c; c.algo=a; c.dim=dim; c.lambda=l; c.alloff=true;
    switch(opt) { case 1: c.tpa=2; break; case 2: c.tpa=0; c.tpaset=true; break; case 3: c.fixed={{0,0.4}}; break; case 4: c.noisy=true; break; case 5: c.lazy=true; break; case 6: c.grad=c.ugrad=true; break; case 7: c.gp=GP_PWQ; c.sigma=2; break; case 8: c.gp=GP_PWQLIN; break; case 9: c.gp=GP_LINVEC; c.tpa=2; break; case 10: c.fixed={{1,0.4},{0,-1}}; c.tpa=2; break; case 11: c.maximize=true; c.sigma=1e-3; break; case 12: c.lazy=true; c.fixed={{1,0}}; c.noisy=true; break; case 13: c.grad=c.ugrad=true; c.tpa=2; break; case 14: c.elit=1; break; case 15: c.gp=GP_CUSTOM; c.grad=true; c.lazy=true; break; }
    if (!c.fixed.empty()&&dim<=(int)c.fixed.size()+(opt==12)) continue; if (opt==13&&l<4) continue; if (opt&&(l==5||dim==8)) continue; if (opt>1&&dim==3&&!T) continue;
    if (dim==1&&c.is_vd()) continue; 
    int L=c.noisy?5*l:l; bool ties=l<=3; int depth=L>6?3:l==2?6:l==3?(opt?2:3):l==4?2:1; if (l==4&&opt&&!T) depth=2; if (T) depth++;
    m.add(c.str()+" depth="+std::to_string(depth),[=](Chooser &ch) { Levels lv; body(ch,c,[&](int,const dMat &q,const dMat&) { return lv.next(ch,q.cols(),c.elit?2:1,ties); },depth); }); }
  // constants: wide grid of dimensions and population sizes
  for (int a: A) for (int dim: {2,4,5,7,10,13,20,40}) for (int l: {4,6,7,8,9,11,12,15,20,33,60,150}) for (int opt=0;opt<8;opt++) { if (opt&&(l%2||dim>20)&&!T) continue; Cfg c; c.algo=a; c.dim=dim; c.lambda=l; c.alloff=true; c.sigma=0.7; if (opt==1) c.tpa=2; if (opt==2) c.noisy=true; if (opt==3) c.fixed={{dim-1,0.1}}; if (opt==4) c.lazy=true; if (opt==5||opt==6) { c.tpaset=true; c.tpa=6-opt; } if (opt==7) c.unfix={dim-1,0};
    m.add("grid "+c.str(),[=](Chooser &ch) { int F[]={F_SPHERE,F_NEG,F_LINEAR,F_NOISE}; int k=F[ch.choose(4)]; body(ch,c,[&](int gen,const dMat&,const dMat &p) { return famgen(k,gen,p); },dim>=40?4:6); }); }
  for (int a: {6,9,12}) for (int dim: {999,1000,1100}) { Cfg c; c.algo=a; c.dim=dim; c.lambda=10; c.alloff=true; if (c.is_vd()&&!T&&dim==1100) continue; m.add("large "+c.str(),[=](Chooser &ch) { int F[]={F_SPHERE,F_NEG}; int k=F[ch.choose(2)]; body(ch,c,[&](int gen,const dMat&,const dMat &p) { return famgen(k,gen,p); },2); }); }
  // long histories: every sequence of objective behaviours over segments
  for (int a: A) for (int opt=0;opt<7;opt++) for (int dim: {2,6,9}) { Cfg c; c.algo=a; c.dim=dim; c.lambda=6; c.alloff=true; switch(opt) { case 1: c.tpa=2; break; case 2: c.lazy=true; break; case 3: c.fixed={{1,0.2}}; break; case 4: c.grad=true; break; case 5: c.noisy=true; break; case 6: c.elit=1; break; }
    m.add("segments "+c.str(),[=](Chooser &ch) { std::vector<int> seg; int F[]={F_SPHERE,F_LINEAR,F_NOISE,F_NEG,F_ELLI}; int L=T?20:15; body(ch,c,[&](int gen,const dMat&,const dMat &p) { int s=std::min(gen/L,2); while((int)seg.size()<=s) seg.push_back(F[ch.choose(T?5:4)]); return famgen(seg[s],gen,p); },3*L); }); }
  // interactions of settings: every feasible combination of values of any three settings
  for (auto &c: cross([](Cfg &c) { if (c.uh||c.elit>1||c.initf||c.edm) return false; c.alloff=true; return true; })) m.add("cross "+c.str(),[=](Chooser &ch) { CrossScript s(ch,10,c.maximize?-1:1); body(ch,c,[&](int g,const dMat &q,const dMat &p) { return s(g,q,p); },20); });
  return m.run();
}
