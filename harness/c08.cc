// C08: the distribution stays valid whatever the objective returns (including infinities and NaN); memory accesses stay in range
// (this harness is built with address and undefined-behaviour sanitizers and Eigen's index assertions).
#include "cross.hpp"
using namespace vm;
static void valid(Chooser &ch,const CMASolutions &s,const Cfg &c,const std::string &w) {
  ch.checked(); if (s.run_status()<0) return; dVec m=s.xmean(); if (m.size()!=c.dim) fail("dim",w+"mean has dimension "+std::to_string(m.size())); for (int i=0;i<c.dim;i++) if (!std::isfinite(m[i])) fail("mean",w+"mean is "+vs(m));
  if (!std::isfinite(s.sigma())||!(s.sigma()>0)) fail("sigma",w+"step size is "+ds(s.sigma()));
  dMat F=s.full_cov(); if (F.rows()!=c.dim||F.cols()!=c.dim) fail("cov",w+"covariance has wrong size"); double mx=0; for (int i=0;i<c.dim;i++) for (int j=0;j<c.dim;j++) { if (!std::isfinite(F(i,j))) fail("cov",w+"covariance has a non-finite entry"); mx=std::max(mx,std::fabs(F(i,j))); }
  for (int i=0;i<c.dim;i++) { if (!(F(i,i)>0)) fail("cov",w+"variance "+std::to_string(i)+" is "+ds(F(i,i))); for (int j=0;j<i;j++) if (!(std::fabs(F(i,j)-F(j,i))<=1e-12*mx)) fail("cov",w+"covariance is not symmetric"); }
  if (!c.is_sep()) { dMat C=F; dVec d=F.diagonal().cwiseSqrt(); for (int i=0;i<c.dim;i++) for (int j=0;j<c.dim;j++) C(i,j)/=d[i]*d[j]; Eigen::SelfAdjointEigenSolver<dMat> e(C,Eigen::EigenvaluesOnly); if (!(e.eigenvalues().minCoeff()>-1e-12)) fail("cov",w+"covariance is not positive definite, correlation eigenvalue "+ds(e.eigenvalues().minCoeff())); }
  if (c.is_sep()||c.is_vd()) for (int i=0;i<c.dim;i++) if (!(s.sepcov_ref()(i,0)>0)) fail("cov",w+"diagonal entry "+std::to_string(i)+" is "+ds(s.sepcov_ref()(i,0)));
}
static void body(Chooser &ch,const Cfg &c,ValFn vals,int maxgen,ExtraFn extra,std::function<dVec(const double*,int)> g=nullptr,bool hand=false) {
  Run r(c); r.values=vals; r.keep=false; r.env.g=g; r.extra=extra; uint64_t h=0; int ng=0;
  r.after_ask=[&](const dMat &m) { ch.checked(); if (r.s->sols().run_status()<0) return; if (m.rows()!=c.dim||m.cols()!=r.s->lambda()) fail("shape","asked matrix has the wrong shape"); for (int i=0;i<m.size();i++) if (!std::isfinite(m.data()[i])) fail("sample","generation "+std::to_string(r.gen)+": a candidate is not finite"); };
  r.after_tell=[&]() { valid(ch,r.s->sols(),c,"generation "+std::to_string(r.gen)+": "); };
  r.onprogress=[&](const CMASolutions &s,int) { h=vmc::mix(h,vmc::dbits(s.sigma())); ch.state(h); return r.gen+1>=maxgen?1:0; };
  r.start(); valid(ch,r.s->sols(),c,"start: "); if (hand) { while(!r.s->stop()) r.generation(); } else r.s->optimize_custom(); if (!c.strat()) valid(ch,r.s->sols(),c,"end: "); ch.outcome(h);
}
static const double ALPH[]={0,1,-1,1e308,-1e308,DINF,-DINF,std::nan(""),1e-320};
static void common(vmc::Main &m,std::vector<int> pops,int strength,int gens) { int A[]={0,3,6,9,12};
  // large populations with any periodic pattern of undefined and infinite values
  for (int a: A) for (int l: pops) for (int opt=0;opt<4;opt++) { Cfg c; c.algo=a; c.dim=a==12?6:2; c.lambda=l; c.alloff=true; switch(opt) { case 1: c.uh=true; break; case 2: c.elit=1; break; case 3: c.tpa=2; break; }
    m.add("patterns "+c.str(),[=](Chooser &ch) { static const int M[]={2,3,5,7,11}; int mo=M[ch.choose(5)],j=ch.choose(mo),o=ch.choose(3); double bad=ch.choose(2)?std::nan(""):DINF; auto at=[=](int i) { return i%mo==j?bad:o==0?(double)i:o==1?(double)-i:(double)((i*37+11)%l); }; int e=0; body(ch,c,[&](int gen,const dMat&,const dMat &p) { std::vector<double> v(p.cols()); for (int i=0;i<(int)v.size();i++) v[i]=at(i+gen); return v; },3,[&](const dVec&,int) { return at(5*e++); }); }); }
  // interactions of settings: every feasible combination of values of any three settings
  for (auto &c: cross([](Cfg&) { return true; },strength)) m.add("cross "+c.str(),[=](Chooser &ch) { static const int F[]={F_SPHERE,F_NOISE,F_CONST}; int a=ch.choose(3),b=ch.choose(3); bool hand=a==b&&ch.choose(2); body(ch,c,[&](int gen,const dMat&,const dMat &p) { int k=gen<gens/2?a:b; if (k==2) { std::vector<double> v(p.cols()); for (int i=0;i<(int)v.size();i++) v[i]=ALPH[(i*5+gen)%9]; return v; } return famgen(F[k],gen,p); },gens,[=](const dVec &x,int) { return x.squaredNorm(); },[](const double *x,int n) { dVec v(n); for (int i=0;i<n;i++) v[i]=2*x[i]; return v; },hand); });
}
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C08"); bool T=m.thorough(); int A[]={0,3,6,9,12};
  auto ext=[](const dVec &x,int) { return x.squaredNorm(); };
#ifndef LONG
  // every assignment of extreme values to the candidates
  for (int a: A) for (int opt=0;opt<11;opt++) for (int l: {1,2,3,4,13,40}) { if (l==40&&opt!=1&&opt!=10&&opt!=0) continue; Cfg c; c.algo=a; c.dim=a==12?6:2; c.lambda=l; switch(opt) { case 1: c.uh=true; break; case 2: c.elit=1; break; case 3: c.tpa=2; break; case 4: c.grad=true; break; case 5: c.dim=1; break; case 6: c.lazy=true; c.maximize=true; break; case 7: c.gp=GP_PWQLIN; c.edm=true; break; case 8: c.alloff=true; c.elit=3; break; case 9: c.fixed={{1,0.2}}; c.initf=true; break; case 10: c.uh=true; c.elit=1; c.tpa=2; c.alloff=true; break; }
    if (l==1) { c.max_iter=3; } int n=l==1?3:l; int na=(T||l==3)?9:l<=2?7:5; if (l>=13) { na=l==40?3:4; n=l==40?3:4; } static const int SUB[]={1,5,6,7,0,3,4}; int depth=l<=2?2:1; if (T&&l<4) depth++;
    if (l==1&&opt) continue; if (T&&l==3&&opt>3) depth=2;
    m.add("values "+c.str()+" depth="+std::to_string(depth),[=](Chooser &ch) { auto pick=[&]() { return na==9?ALPH[ch.choose(9)]:ALPH[SUB[ch.choose(na)]]; }; int ex=0,sh=l>=13?ch.choose(l):0; body(ch,c,[&](int gen,const dMat &q,const dMat&) { std::vector<double> v(q.cols()); for (int i=0;i<(int)v.size();i++) { int k=(i+sh)%(int)v.size(); v[k]=i<n?pick():(l==13?(i*5)%13:l==40?((i%3)?(i*7)%40:ALPH[i%9]):ALPH[i%9]); }; return v; },depth,[&](const dVec&,int) { return ex++<1?ALPH[ch.choose(3)*2+1]:ALPH[(ex*5)%9]; }); }); }
  // every pattern of extreme answers to the calls made by the gradient
  for (int a: A) for (int g: {GP_NONE,GP_PWQ,GP_PWQLIN}) for (int ug=0;ug<2;ug++) for (int tpa: {1,2}) { Cfg c; c.algo=a; c.dim=a==12?6:2; c.lambda=4; c.grad=true; c.ugrad=ug; c.gp=g; c.edm=true; c.tpa=tpa; c.alloff=true;
    m.add("gradient "+c.str(),[=](Chooser &ch) { int k=0; static const double V[]={0,1,1e308,-DINF,std::nan(""),1e-200,1e200}; body(ch,c,[&](int gen,const dMat &q,const dMat &p) { return famgen(F_SPHERE,gen,p); },3,[&](const dVec&,int) { return k++<4?V[ch.choose(k<3?7:3)]:1.0; },[&](const double *x,int n) { dVec v(n); for (int i=0;i<n;i++) v[i]=(k<2&&i<2)?V[ch.choose(7)]:1e-170*(i+1); k++; return v; }); }); }
  common(m,{17,40},2,T?60:36);
#else
  common(m,{17,18,24,40,70},3,16);
  // long histories from ordinary and extreme starting points, default stopping criteria
  for (int a: A) for (int st=0;st<9;st++) for (int opt=0;opt<6;opt++) { Cfg c; c.algo=a; c.dim=a==12?6:3; c.lambda=5; switch(st) { case 1: c.sigma=1e-12; break; case 2: c.sigma=1e12; break; case 3: c.x0=1e15; c.sigma=0.1; break; case 4: c.x0=1e200; c.sigma=1e180; break; case 5: c.dim=1; break; case 6: c.x0=1e8; c.sigma=1e-8; break; case 7: c.dim=a==12?7:2; c.lambda=2; break; case 8: c.dim=a==12?12:8; c.lambda=12; break; }
    switch(opt) { case 1: c.tpa=2; break; case 2: c.lazy=true; break; case 3: c.elit=1; break; case 4: c.grad=true; break; case 5: c.uh=true; break; }
    m.add("long "+c.str(),[=](Chooser &ch) { std::vector<int> seg; int F[]={F_SPHERE,F_LINEAR,F_ELLI,F_NOISE,F_CONST}; int L=T?200:90; body(ch,c,[&](int gen,const dMat&,const dMat &p) { int s=std::min(gen/L,2); while((int)seg.size()<=s) seg.push_back(F[ch.choose(s?5:5)]); return famgen(seg[s],gen,p); },3*L,ext); }); }
  // off: no criterion protects; short of overflow the distribution must stay valid
  for (int a: A) for (int opt=0;opt<3;opt++) for (int st=0;st<4;st++) { Cfg c; c.algo=a; c.dim=a==12?6:2; c.lambda=6; c.alloff=true; if (opt==1) c.tpa=2; if (opt==2) c.lazy=true; if (st==1) { c.x0=1e10; c.sigma=1; } if (st==2) c.sigma=1e100; // a step size below the resolution of the starting point is what the switched-off criteria detect: not explored
 if (st==3) c.sigma=1e-10;
    m.add("nostop "+c.str(),[=](Chooser &ch) { std::vector<int> seg; int F[]={F_SPHERE,F_LINEAR,F_ELLI,F_CONST}; int L=40; body(ch,c,[&](int gen,const dMat&,const dMat &p) { int s=std::min(gen/L,2); while((int)seg.size()<=s) seg.push_back(F[ch.choose(4)]); return famgen(seg[s],gen,p); },3*L,ext); }); }
  for (int a=0;a<15;a++) if (a%3) { Cfg c; c.algo=a; c.dim=c.is_vd()?6:2; c.lambda=4; c.restarts=4; c.max_fevals=400; c.max_iter=20; m.add("restart "+c.str(),[=](Chooser &ch) { int F[]={F_SPHERE,F_CONST,F_NOISE,F_WORSE}; std::vector<int> seg; body(ch,c,[&](int gen,const dMat &q,const dMat &p) { int s=std::min(gen/20,2); while((int)seg.size()<=s) seg.push_back(ch.choose(5)); if (seg[s]==4) { std::vector<double> v(p.cols()); for (int i=0;i<(int)v.size();i++) v[i]=ALPH[(i+gen)%9]; return v; } return famgen(F[seg[s]],gen,p); },120,ext); }); }
#endif
  return m.run();
}
