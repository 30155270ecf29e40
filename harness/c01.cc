// C01: every objective call and every reported point inside the user's bounds, along every ranking history and border-seeking script.
#include "cross.hpp"
using namespace vm;
static void body(Chooser &ch,const Cfg &c,ValFn vals,int maxgen) {
  std::vector<double> lo,hi; box(c,lo,hi); Run r(c); r.values=vals; r.keep=false; uint64_t h=0; bool after=false;
  auto inside=[&](const std::string &w,const dVec &x) { ch.checked(); if ((int)x.size()!=c.dim) fail("dim",w+": dimension "+std::to_string(x.size())); for (int i=0;i<c.dim;i++) { double t=1e-12*(std::fabs(lo[i])+std::fabs(hi[i])); if (!(x[i]>=lo[i]-t&&x[i]<=hi[i]+t)) fail("bounds",w+": coordinate "+std::to_string(i)+" is "+ds(x[i])+", bounds ["+ds(lo[i])+","+ds(hi[i])+"]"); } };
  r.extra=[&](const dVec &x,int gen) { double s=0; for (int i=0;i<c.dim;i++) s+=(x[i]-lo[i])/(hi[i]-lo[i]+1e-300); return s+0.1*(gen%3); };
  r.env.g=[&](const double *x,int n) { dVec g(n); for (int i=0;i<n;i++) { g[i]=1.0; } inside("user gradient",Eigen::Map<const dVec>(x,n)); return g; };
  r.oncall=[&](const dVec &x,double,int slot) { inside(slot>=0?"candidate":after?"call after the last generation":"other call, generation "+std::to_string(r.gen),x); };
  auto rep=[&](const CMASolutions &s) { if (s.xmean().allFinite()) inside("mean",r.s->pheno(s.xmean())); if (s.niter()>0) { inside("best candidate",r.s->pheno(s.best_candidate().get_x_dvec())); inside("best seen candidate",r.s->pheno(s.get_best_seen_candidate().get_x_dvec())); for (int i=0;i<s.size();i++) inside("stored candidate",r.s->pheno(s.get_candidate(i).get_x_dvec())); } };
  r.onprogress=[&](const CMASolutions &s,int) { rep(s); ch.state(view_of(s).hash()); h=vmc::mix(h,vmc::dbits(s.sigma())); if (r.gen+1>=maxgen) { after=true; return 1; } return 0; };
  r.start(); r.s->optimize_custom(); after=true; rep(r.s->sols()); if (c.dim*c.lambda>2&&r.s->sols().niter()>0) { dVec p=r.s->pheno(r.s->sols().xmean()); r.s->gradf(p); } ch.outcome(h);
}
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C01"); bool T=m.thorough(); int A[]={0,3,6,9,12}; int G[]={GP_PWQ,GP_PWQ_CUSTOM,GP_PWQLIN,GP_PWQLINVEC,GP_PWQLIN_CUSTOM};
  for (int a: A) for (int g: G) for (int b=0;b<6;b++) for (int si=0;si<4;si++) for (int opt=0;opt<10;opt++) { double S[]={1e-6,0.4,30,1e7}; Cfg c; c.algo=a; c.dim=a==12?6:2; c.lambda=3; c.gp=g; c.bset=b; c.sigma=S[si]; c.alloff=true;
    switch(opt) { case 1: c.grad=true; break; case 2: c.uh=true; break; case 3: c.edm=true; c.initf=true; break; case 4: c.elit=1; break; case 5: c.tpa=2; c.lambda=4; break; case 6: c.fixed={{1,0.2}}; c.grad=true; break; case 7: c.grad=true; c.ugrad=true; c.uh=true; break; case 8: c.elit=3; c.edm=true; break; case 9: c.lazy=true; c.maximize=true; c.x0=500; break; }
    int depth=opt<3?(T?3:2):2; if (!T&&opt>3&&(b%2)!=(si%2)) continue;
    m.add(c.str()+" depth="+std::to_string(depth),[=](Chooser &ch) { Levels lv; body(ch,c,[&](int,const dMat &q,const dMat&) { return lv.next(ch,q.cols(),1,false); },depth); });
    // scripts that drive the search to the borders and corners and beyond
    m.add("border "+c.str(),[=](Chooser &ch) { std::vector<double> lo,hi; box(c,lo,hi); std::vector<int> seg; int L=T?20:12; body(ch,c,[&](int gen,const dMat &q,const dMat &p) { int s=std::min(gen/L,1); while((int)seg.size()<=s) seg.push_back(ch.choose(4)); std::vector<double> v(p.cols()); for (int i=0;i<p.cols();i++) { double x=0; int k=seg[s]; for (int j=0;j<c.dim;j++) { double u=(p(j,i)-lo[j])/(hi[j]-lo[j]); x+=k==0?u:k==1?-u:k==2?((j%2)?u:-u):std::fabs(u-0.5)*-1; } if (k==3&&gen%2) x=-q.col(i).norm(); v[i]=x; } return v; },2*L); }); }
  // the restarting algorithms
  for (int a=0;a<15;a++) if (a%3) for (int g: G) for (int opt=0;opt<4;opt++) { Cfg c; c.algo=a; c.dim=c.is_vd()?6:2; c.lambda=4; c.gp=g; c.bset=opt; c.max_fevals=150; c.max_iter=9; c.restarts=4; if (opt==1) c.grad=true; if (opt==2) c.uh=true; if (opt==3) { c.elit=3; c.edm=true; }
    m.add("restart "+c.str(),[=](Chooser &ch) { std::vector<int> seg; int L=10; int F[]={F_LINEAR,F_CONST,F_NOISE,F_WORSE}; body(ch,c,[&](int gen,const dMat&,const dMat &p) { int s=std::min(gen/L,2); while((int)seg.size()<=s) seg.push_back(F[ch.choose(4)]); return famgen(seg[s],gen,p); },80); }); }
  // interactions of settings: every feasible combination of values of any three settings
  for (auto &c: cross([](Cfg &c) { return c.bounded(); })) m.add("cross "+c.str(),[=](Chooser &ch) { CrossScript s(ch,10,c.maximize?-1:1); body(ch,c,[&](int g,const dMat &q,const dMat &p) { return s(g,q,p); },20); });
  return m.run();
}
