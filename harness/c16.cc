// C16: gradient injection, numerical derivatives and distance estimate against independent formulas, along every ranking history and gradient.
#include "cross.hpp"
#include "ref.hpp"
using namespace vm;
static double tf(int k,const dVec &x) { double s=0; int n=x.size(); for (int i=0;i<n;i++) { switch(k) { case 0: s+=(i+1)*x[i]*x[i]+0.3*x[i]; break; case 1: s+=(0.5-i)*x[i]; break; case 2: s+=std::exp(0.2*(i+1)*std::tanh(x[i])); break; case 3: s+=(x[i]-0.2*i)*(x[i]-0.2*i); if (i) s+=0.7*x[i]*x[i-1]; break; default: return 2.5; } } return s; }
static dVec tg(int k,const dVec &x) { int n=x.size(); dVec g=dVec::Zero(n); for (int i=0;i<n;i++) switch(k) { case 0: g[i]=2*(i+1)*x[i]+0.3; break; case 1: g[i]=0.5-i; break; case 2: { double t=std::tanh(x[i]); g[i]=std::exp(0.2*(i+1)*t)*0.2*(i+1)*(1-t*t); break; } case 3: g[i]+=2*(x[i]-0.2*i); if (i) { g[i]+=0.7*x[i-1]; g[i-1]+=0.7*x[i]; } break; } return g; }
static dMat gram(const dMat &R,const Dist &b,const dMat &P) { dMat Z=R*((P.colwise()-b.m)/b.s); return Z.transpose()*Z; }
static dMat factor_inv(const Cfg &c,const Dist &b,Ref &ref,int t) { ref.asked(b,t); return c.is_sep()||c.is_vd()?inv_sqrt(b.F):ref.R; }
static bool settled(const Dist &b,int n) { if (!(b.s>1e-100&&b.s<1e100)||!b.m.allFinite()||!b.F.allFinite()) return false; Eigen::SelfAdjointEigenSolver<dMat> e(b.F,Eigen::EigenvaluesOnly); double mx=e.eigenvalues().maxCoeff(),mn=e.eigenvalues().minCoeff(); if (!(mn>0)||mx/mn>1e6) return false; for (int i=0;i<n;i++) if (std::fabs(b.m[i])/(b.s*std::sqrt(b.F(i,i)))>1e5) return false; return true; }
// standardized samples of the same seed without gradient, generation by generation
static std::vector<dMat> twin(const Cfg &c0,int gens) { Cfg c=c0; c.grad=c.ugrad=false; c.fixed.clear(); std::vector<dMat> out; Run r(c); r.keep=false; r.values=[](int g,const dMat&,const dMat &p) { return famgen(F_NOISE,g,p); }; r.start(); Ref ref(c,r.s->lambda()); for (int t=0;t<gens;t++) { Dist b=dist_of(r.s->sols(),c); dMat R=factor_inv(c,b,ref,t); r.generation(); out.push_back(gram(R,b,r.g)); } return out; }
static void body(Chooser &ch,const Cfg &c,ValFn vals,std::function<dVec(int,const dVec&)> grad,int fk,int maxgen,const std::vector<dMat> *tw) {
  Run r(c); r.values=vals; r.keep=false; double sg=c.maximize?-1:1; int n=c.dim; dVec gx,gv; int gcalls=0; r.extra=[&](const dVec &x,int) { return sg*tf(fk,x); };
  r.env.g=[&](const double *x,int m) { gx=Eigen::Map<const dVec>(x,m); gv=grad(r.gen,gx); gcalls++; return dVec(sg*gv); };
  r.start(); Ref ref(c,r.s->lambda()); uint64_t h=0; dMat prev; dVec pm;
  for (int t=0;t<maxgen;t++) { Dist b=dist_of(r.s->sols(),c); if (!settled(b,n)) break; dMat R=factor_inv(c,b,ref,t); dVec px=r.s->pheno(b.m); dVec g; gcalls=0;
    r.generation(); ch.checked();
    if (c.ugrad) { if (gcalls<1) fail("grad","the user's gradient was not asked in generation "+std::to_string(t)); if (!same(gx,px)) fail("grad","the gradient was asked at "+vs(gx)+", not at the mean "+vs(px)); g=gv; }
    else { g=tg(fk,px); for (auto &f: c.fixed) g[f.first]=0; }
    // derivative of the transform at the mean
    dVec J(n); for (int i=0;i<n;i++) { double e=2e-7*(1+std::fabs(b.m[i])); dVec a=b.m,d=b.m; a[i]+=e; d[i]-=e; J[i]=(r.s->pheno(a)[i]-r.s->pheno(d)[i])/(2*e); } dVec q=g.cwiseProduct(J);
    bool zero=true,fin=true; for (int i=0;i<n;i++) { if (q[i]!=0) zero=false; if (!std::isfinite(q[i])) fin=false; }
    int at=-1; bool vague=!c.ugrad; double tol=c.ugrad?(c.custom()||c.gp?1e-5:1e-6):1e-5; dVec nx; if (!zero&&fin) { dMat S=R.inverse(); double len=(S*q).norm(); nx=b.m-b.s*std::sqrt((double)n)/len*(b.F*q); if (!nx.allFinite()) fin=false; for (auto &f: c.fixed) nx[f.first]=r.g(f.first,0);
      if (fin) { double sc=b.s*std::sqrt(b.F.diagonal().maxCoeff())+1e-9*b.m.cwiseAbs().maxCoeff(); double bd=1e300; for (int i=0;i<r.g.cols();i++) { double d=(dVec(r.g.col(i))-nx).cwiseAbs().maxCoeff(); if (d<bd) { bd=d; at=i; } }
        double need=tol*sc*std::sqrt((double)n); // numerical gradient: relative error of the derivatives
        if (!c.ugrad) { double err=0; for (int i=0;i<n;i++) { double e=1e-8*(1+std::fabs(px[i])); err=std::max(err,(20*(i+2)*e+2e-15*(1+std::fabs(tf(fk,px)))/e)*std::fabs(J[i])); } double rel=err/q.cwiseAbs().maxCoeff(); Eigen::SelfAdjointEigenSolver<dMat> es(b.F,Eigen::EigenvaluesOnly); rel*=std::sqrt(es.eigenvalues().maxCoeff()/es.eigenvalues().minCoeff()); if (rel>1e-2) need=1e300; else { need+=10*rel*sc*n; vague=false; } }
        if (c.gp&&c.gp!=GP_CUSTOM&&c.bounded()) need*=20; // kinks of the boundary map
        if (!(bd<=need)) fail("inject","generation "+std::to_string(t)+": no candidate is the mean moved along the scaled gradient: expected "+vs(nx)+", nearest "+vs(r.g.col(at))); } }
    if (!fin||zero) at=-1; if (zero) gcalls=0;
    // all the others as without gradient
    if (tw&&c.fixed.empty()) { dMat G=gram(R,b,r.g); const dMat &W=(*tw)[t]; int m=r.g.cols(); bool tpa=c.tpa==2&&t>0; if (vague) { at=-1; double wd=0; for (int i=0;i<m;i++) { if (tpa&&i<3) continue; double d=std::fabs(G(i,i)-W(i,i))/(1+W(i,i)); if (d>1e-6&&d>wd) { wd=d; at=i; } } } // the derivatives are rounding errors only: any one candidate may be the injected one
      for (int i=0;i<m;i++) for (int j=0;j<m;j++) { if (i==at||j==at) continue; if (tpa&&(i<3||j<3)) continue; if (!(std::fabs(G(i,j)-W(i,j))<=1e-6*(1+std::sqrt(W(i,i)*W(j,j))))) fail("others","generation "+std::to_string(t)+": candidates "+std::to_string(i)+","+std::to_string(j)+" are not sampled as without gradient ("+ds(G(i,j))+" vs "+ds(W(i,j))+")"); } }
    // distance estimate of the new state
    { Dist a=dist_of(r.s->sols(),c); if (settled(a,n)&&r.s->lambda()>2&&!c.ugrad) { double e=r.s->edm(); dVec p2=r.s->pheno(a.m); dVec g2=r.s->gradf(p2).cwiseProduct(r.s->gradgp(a.m)); double want=n/(10*(std::sqrt(r.s->lambda()/4.0+0.5)-1))*a.s*std::sqrt(g2.dot(a.F*g2)); if (!close(e,want,1e-7,1e-250)) fail("edm","distance estimate "+ds(e)+", formula gives "+ds(want)); if (!samed(e,r.s->sols().edm())) fail("edm","the estimate is not stored in the solution"); } }
    ch.state(view_of(r.s->sols()).hash()); h=vmc::mix(h,vmc::dbits(b.s)); }
  ch.outcome(h);
}
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C16"); bool T=m.thorough(); int A[]={0,3,6,9,12};
  auto opts=[](Cfg &c,int o) { switch(o) { case 1: c.gp=GP_PWQ; break; case 2: c.gp=GP_PWQLIN; c.maximize=true; break; case 3: c.tpa=2; break; case 4: c.gp=GP_LINVEC; c.fixed={{1,0.3}}; break; case 5: c.lazy=true; c.gp=GP_CUSTOM; break; case 6: c.gp=GP_PWQ_CUSTOM; c.bset=5; break; case 7: c.gp=GP_PWQLINVEC; c.bset=2; break; case 8: c.elit=1; c.maximize=true; break; case 9: c.gp=GP_PWQ; c.bset=4; c.x0=-4.5; c.x0step=0.01; c.sigma=0.2; break; } };
  double GV[]={0,1,-2,1e5};
  for (int a: A) for (int o=0;o<10;o++) for (int l: {3,4}) { Cfg c; c.algo=a; c.dim=a==12?6:o==4?3:2; c.lambda=l; c.grad=c.ugrad=true; c.alloff=true; opts(c,o); if (c.tpa==2&&l<4) continue; double sg=c.maximize?-1:1; int depth=l==3?(T?4:3):2; auto tw=std::make_shared<std::vector<dMat>>(); 
    m.add("user "+c.str(),[=](Chooser &ch) { if (tw->empty()) *tw=twin(c,5); body(ch,c,[&](int,const dMat &q,const dMat&) { const auto &W=vmc::strict_orders(q.cols()); const auto &w=W[ch.choose((int)W.size())]; std::vector<double> v(q.cols()); for (int i=0;i<(int)v.size();i++) v[i]=sg*w[i]; return v; },[&](int gen,const dVec &x) { dVec g(x.size()); int k=ch.choose(7); for (int i=0;i<g.size();i++) { if (k<4) g[i]=GV[k]*(1+(i%3))*(i%2&&k==2?-1:1); else g[i]=k==4?(i==0):k==5?(i==g.size()-1?-3:0):x[i]+0.01; } return g; },0,depth,tw.get()); }); }
  for (int a: A) for (int o=0;o<10;o++) for (int fk=0;fk<5;fk++) for (int l: {3,5}) { Cfg c; c.algo=a; c.dim=a==12?6:o==4?3:2; c.lambda=l; c.grad=true; c.alloff=true; opts(c,o); if (c.tpa==2&&l<4) continue; if (l==5&&fk>1&&!T) continue; double sg=c.maximize?-1:1; int depth=l==3?(T?4:3):1; auto tw=std::make_shared<std::vector<dMat>>();
    m.add("numerical f"+std::to_string(fk)+" "+c.str(),[=](Chooser &ch) { if (tw->empty()) *tw=twin(c,5); body(ch,c,[&](int,const dMat &q,const dMat&) { const auto &W=vmc::strict_orders(q.cols()); const auto &w=W[ch.choose((int)W.size())]; std::vector<double> v(q.cols()); for (int i=0;i<(int)v.size();i++) v[i]=sg*w[i]; return v; },nullptr,fk,depth,tw.get()); }); }
  // long histories
  for (int a: A) for (int o=0;o<10;o++) for (int u=0;u<2;u++) for (int dim: {2,3,7}) for (int l: {6,9}) { if (a==12&&dim<6) continue; Cfg c; c.algo=a; c.dim=dim; c.lambda=l; c.grad=true; c.ugrad=u; c.alloff=true; opts(c,o); if (l==9&&o>3&&!T) continue; double sg=c.maximize?-1:1; auto tw=std::make_shared<std::vector<dMat>>(); int G=T?40:25;
    m.add("long "+c.str(),[=](Chooser &ch) { if (tw->empty()) *tw=twin(c,G); int k=ch.choose(4),fk=ch.choose(4); int F[]={F_SPHERE,F_LINEAR,F_NOISE,F_ELLI}; body(ch,c,[&](int gen,const dMat&,const dMat &p) { auto v=famgen(F[k],gen,p); for (auto &x: v) x*=sg; return v; },[&](int,const dVec &x) { return tg(fk,x); },fk,G,tw->size()?tw.get():nullptr); }); }
  // numerical gradient and transform derivative on grids of points, corners and near-border points of every box
  for (int gp=0;gp<GP_COUNT;gp++) for (int bs=0;bs<6;bs++) for (int fk=0;fk<5;fk++) for (int mx=0;mx<2;mx++) for (int fx=0;fx<2;fx++) { Cfg c; c.gp=gp; c.bset=bs; c.dim=3; c.maximize=mx; if (!c.bounded()&&bs>1) continue; if (fx) c.fixed={{1,0.0}}; { std::vector<double> lo,hi; box(c,lo,hi); c.x0v.resize(3); for (int i=0;i<3;i++) c.x0v[i]=(lo[i]+hi[i])/2; }
    m.add("derivative f"+std::to_string(fk)+" "+c.str(),[=](Chooser &ch) { std::vector<double> lo,hi; box(c,lo,hi); bool bd=c.bounded(); double sg=c.maximize?-1:1; Env env; std::string bad; double worst=0; env.f=[&](const double *p,int n) { dVec x=Eigen::Map<const dVec>(p,n); if (bd) for (int i=0;i<n;i++) if (x[i]<lo[i]-1e-12*std::max(1.0,std::fabs(lo[i]))||x[i]>hi[i]+1e-12*std::max(1.0,std::fabs(hi[i]))) bad="objective called out of bounds at "+vs(x); double v=tf(fk,x); worst=std::max(worst,std::fabs(v)); return sg*v; };
      auto s=make_search(c,&env); dVec x(3); for (int i=0;i<3;i++) { int k=ch.choose(7); double w=hi[i]-lo[i]; switch(k) { case 0: x[i]=lo[i]; break; case 1: x[i]=hi[i]; break; case 2: x[i]=lo[i]+0.5*w; break; case 3: x[i]=lo[i]+0.3*w; break; case 4: x[i]=hi[i]-1e-9*w; break; case 5: x[i]=lo[i]+1e-9*w; break; default: x[i]=hi[i]-1e-4*w; } }
      dVec g=s->gradf(x); ch.checked(); if (!bad.empty()) fail("bounds",bad); dVec t=tg(fk,x); for (int i=0;i<3;i++) { double want=t[i]; if (c.fixed.size()&&i==1) want=0; double e=1e-8*(1+std::fabs(x[i])); double err=20*(i+2)*e+8e-16*(1+worst)/e; if (!(std::fabs(g[i]-want)<=err+1e-7*std::fabs(want))) fail("gradf","derivative "+std::to_string(i)+" at "+vs(x)+" is "+ds(want)+", numerical gradient says "+ds(g[i])); }
      dVec y=s->geno(x); dVec q=s->gradgp(y); for (int i=0;i<3;i++) { double h=1e-7*(1+std::fabs(y[i])); dVec a=y,b=y; a[i]+=h; b[i]-=h; dVec pa=s->pheno(a),pb=s->pheno(b); double d=(pa[i]-pb[i])/(2*h); double tol=1e-3*std::max({1.0,std::fabs(d),std::fabs(lin_scaling(c)[i])})+1e-7*std::max(std::fabs(lo[i]),std::fabs(hi[i])); if (!(std::fabs(q[i]-d)<=tol)) fail("gradgp","derivative "+std::to_string(i)+" of the transform at "+vs(y)+" is "+ds(d)+", got "+ds(q[i])); }
      ch.state(vmc::mix(vmc::dbits(g[0]),vmc::mix(vmc::dbits(g[1]),vmc::dbits(q[2])))); ch.outcome(vmc::dbits(g.sum())); }); }
  // the estimate reported at the end of a run, user gradient included
  for (int a=0;a<15;a++) for (int u=0;u<3;u++) for (int gp: {0,1,2,4,7}) for (int l: {4,9}) { Cfg c; c.algo=a; c.dim=a>=12?6:3; c.lambda=l; c.gp=gp; c.edm=true; c.grad=u>0; c.ugrad=u>1; c.restarts=2; c.max_iter=6; c.maximize=(l==9);
    m.add("final "+c.str(),[=](Chooser &ch) { int fk=ch.choose(4); double sg=c.maximize?-1:1; Env env; env.f=[&](const double *p,int n) { return sg*tf(fk,Eigen::Map<const dVec>(p,n)); }; env.g=[&](const double *p,int n) { return dVec(sg*tg(fk,Eigen::Map<const dVec>(p,n))); }; double seen=0; env.progress=[&](const CMASolutions &q,int l) { seen=l; return 0; };
      auto s=make_search(c,&env); s->optimize(); CMASolutions &S=s->sols(); ch.checked(); Dist d=dist_of(S,c); if (!settled(d,c.dim)) return; 
      dVec q=s->gradf(s->pheno(d.m)).cwiseProduct(s->gradgp(d.m)); dVec t=tg(fk,s->pheno(d.m)); double best=1e300; double got=S.edm(); bool ok=false; for (int L: {S.size()}) { double want=c.dim/(10*(std::sqrt(L/4.0+0.5)-1))*d.s*std::sqrt(q.dot(d.F*q)); best=want; if (close(got,want,1e-7,1e-250)) ok=true; } if (!ok) fail("edm","final distance estimate "+ds(got)+", formula gives "+ds(best)); ch.state(vmc::dbits(got)); ch.outcome(vmc::dbits(got)); }); }
  // interactions of settings: every feasible combination of values of any three settings
  for (auto &c: cross([](Cfg &c) { if (c.uh||c.elit||c.initf||c.noisy) return false; c.grad=true; c.alloff=true; return true; })) { double sg=c.maximize?-1:1; auto tw=std::make_shared<std::vector<dMat>>(); m.add("cross "+c.str(),[=](Chooser &ch) { if (tw->empty()) *tw=twin(c,12); int k=ch.choose(3),fk=ch.choose(3); int F[]={F_SPHERE,F_LINEAR,F_NOISE}; body(ch,c,[&](int gen,const dMat&,const dMat &p) { auto v=famgen(F[k],gen,p); for (auto &x: v) x*=sg; return v; },[&](int,const dVec &x) { return tg(fk,x); },fk,12,tw->size()?tw.get():nullptr); }); }
  return m.run();
}
