// Independent reference model of one generation of the published updates (CMA-ES, active, separable, VD), in the genotype space.
#pragma once
#include "cma.hpp"
namespace vm {
struct Consts { int n,l,mu; std::vector<double> w; double muw,cs,cc,c1,cm,ds,chi,lazy; };
inline Consts consts_of(const Cfg &c,int l) {   // l: population size actually used
  Consts k; double n=c.dim; k.n=c.dim; k.l=l; k.mu=l/2; double s=0,q=0; for (int i=1;i<=k.mu;i++) k.w.push_back(std::log(k.mu+1.0)-std::log((double)i)); for (double x: k.w) { s+=x; q+=x*x; } for (double &x: k.w) x/=s; k.muw=s*s/q; double e=k.muw;
  double base=2*(e-2+1/e)/((n+2)*(n+2)+e); double nf=c.noisy?0.2:1.0;
  k.cs=n<1000?(e+2)/(n+e+5):(std::sqrt(e)+2)/(std::sqrt(n)+std::sqrt(e)+3);
  k.cc=(4+e/n)/(n+4+2*e/n);
  k.c1=nf*2/((n+1.3)*(n+1.3)+e); k.cm=std::min(1-k.c1,nf*base);
  if (c.is_sep()) { k.c1*=(n+2)/3; k.cm=std::min(1-k.c1,(e-1.7+1/e)/(n+4*std::sqrt(n)+e/2)); k.cc=(1+1/n+e/n)/(std::sqrt(n)+1/n+2*e/n); }
  if (c.is_vd()) { k.cs=std::sqrt(e)/(2*(std::sqrt(n)+std::sqrt(e))); k.c1*=(n-5)/6; k.cm=std::min(1-k.c1,(n-5)/6*base); }
  k.ds=1+k.cs+2*std::max(0.0,std::sqrt((e-1)/(n+1))-1); if (c.tpa==2) k.ds=4-3.6/std::sqrt(n);
  std::set<int> fx; for (auto &f: c.fixed) fx.insert(f.first); double m=n-fx.size(); k.chi=std::sqrt(m)*(1-1/(4*m)+1/(21*m*m)); k.lazy=1/(k.c1+k.cm)/m/10; return k;
}
inline dMat inv_sqrt(const dMat &C) { Eigen::SelfAdjointEigenSolver<dMat> e(C); return e.eigenvectors()*e.eigenvalues().cwiseSqrt().cwiseInverse().asDiagonal()*e.eigenvectors().transpose(); }
inline dVec v_of(const dMat &F,const dVec &D) { // low-rank direction (up to sign) from the full covariance D(I+vv')D
  int n=D.size(); dMat M=F; for (int i=0;i<n;i++) for (int j=0;j<n;j++) M(i,j)/=D[i]*D[j]; int b=0; for (int i=0;i<n;i++) if (M(i,i)>M(b,b)) b=i; dVec v(n); double vb=std::sqrt(std::max(M(b,b)-1,1e-300)); for (int i=0;i<n;i++) v[i]=i==b?vb:M(i,b)/vb; return v; }
struct Dist { dVec m; double s; dMat F; dVec D; bool ok=true; };   // mean, step size, full covariance (VD: and diagonal)
struct Ref {
  Cfg c; Consts k; dVec ps,pc; double ts=0; int last=0; dMat R; bool first=true;
  Ref(const Cfg &cc,int l):c(cc),k(consts_of(cc,l)) { ps=dVec::Zero(c.dim); pc=dVec::Zero(c.dim); }
  struct Next { Dist d; dVec ps,pc; };
  // X: candidates best first. t: generation index.
  Next next(const Dist &b,const std::vector<dVec> &X,int t,int hforce,double &margin,int &hs) {
    Next o; int n=c.dim; o.d.m=dVec::Zero(n); for (int i=0;i<k.mu;i++) o.d.m+=k.w[i]*X[i]; dVec y=(o.d.m-b.m)/b.s; dVec z;
    if (c.is_vd()) { dVec v=v_of(b.F,b.D); z=dVec(n); for (int i=0;i<n;i++) z[i]=y[i]/b.D[i]/std::sqrt(1+v[i]*v[i]); }
    else if (c.is_sep()) { z=dVec(n); for (int i=0;i<n;i++) z[i]=y[i]/std::sqrt(b.F(i,i)); }
    else z=R*y;
    o.ps=(1-k.cs)*ps+std::sqrt(k.cs*(2-k.cs)*k.muw)*z; double np=o.ps.norm();
    std::set<int> fx; for (auto &f: c.fixed) fx.insert(f.first);
    double thr=std::sqrt(1-std::pow(1-k.cs,2.0*(t+1)))*(1.4+2.0/(n+1-(int)fx.size()))*k.chi; margin=std::fabs(np-thr)/thr; int h=np<thr; if (hforce>=0) h=hforce; hs=h;
    o.pc=(1-k.cc)*pc; if (h) o.pc+=std::sqrt(k.cc*(2-k.cc)*k.muw)*y;
    std::vector<dVec> Y; for (auto &x: X) Y.push_back((x-b.m)/b.s);
    if (c.is_vd()) vd(b,Y,o,h);
    else { bool sep=c.is_sep(); auto outer=[&](const dVec &a) { dMat M=dMat::Zero(n,n); for (int i=0;i<n;i++) for (int j=0;j<n;j++) if (!sep||i==j) M(i,j)=a[i]*a[j]; return M; };
      dMat P=dMat::Zero(n,n),N=dMat::Zero(n,n); for (int i=0;i<k.mu;i++) { P+=k.w[i]*outer(Y[i]); N+=k.w[i]*outer(Y[k.l-1-i]); }
      if (c.is_active()) { double ev; if (sep) { ev=-1; for (int i=0;i<n;i++) ev=std::max(ev,N(i,i)/b.F(i,i)); } else { dMat Q=R*N*R; Eigen::SelfAdjointEigenSolver<dMat> e(Q); ev=e.eigenvalues().maxCoeff(); }
        double cn=std::min((1-k.cm)*0.34/ev,(1-k.cm)*0.25*k.muw/(std::pow(n+2.0,1.5)+2*k.muw));
        o.d.F=(1-k.c1-k.cm+0.5*cn)*b.F+k.c1*outer(o.pc)+(k.cm+0.5*cn)*P-cn*N; }
      else o.d.F=(1-k.c1-k.cm+(h?0.0:k.c1*k.cc*(2-k.cc)))*b.F+k.c1*outer(o.pc)+k.cm*P; }
    o.d.s=b.s; if (c.tpa<2) o.d.s*=std::exp(k.cs/k.ds*(np/k.chi-1)); else if (t>0) o.d.s*=std::exp(ts/k.ds);
    return o;
  }
  void vd(const Dist &b,const std::vector<dVec> &Y,Next &o,int h) {
    int n=c.dim; o.d.F=b.F; o.d.D=b.D; if (!(k.cm+k.c1*h>0)) return; dVec v=v_of(b.F,b.D); double nv=v.squaredNorm(),g=1+nv; dVec u=v/std::sqrt(nv); dVec uu(n); double mx=0; for (int i=0;i<n;i++) { uu[i]=u[i]*u[i]; mx=std::max(mx,uu[i]); }
    double a=std::min(1.0,std::sqrt(nv*nv+(2-1/std::sqrt(g))*g/mx)/(2+nv)); double bb=-(1-a*a)*nv*nv/g+2*a*a;
    dVec p=dVec::Zero(n),q=dVec::Zero(n); auto acc=[&](const dVec &y0,double w) { double yu=0; dVec y(n); for (int i=0;i<n;i++) { y[i]=y0[i]/b.D[i]; yu+=y[i]*u[i]; } for (int i=0;i<n;i++) { p[i]+=w*(y[i]*y[i]-nv/g*u[i]*yu*y[i]-1); q[i]+=w*(yu*y[i]-0.5*(yu*yu+g)*u[i]); } };
    for (int i=0;i<k.mu;i++) acc(Y[i],k.cm*k.w[i]); if (h) acc(o.pc,k.c1);
    double qu=q.dot(u); dVec r(n),A(n),s(n); for (int i=0;i<n;i++) { r[i]=p[i]-a/g*((2+nv)*u[i]*q[i]-nv*qu*uu[i]); A[i]=1/(2-(bb+2*a*a)*uu[i]); }
    double n1=0,n2=0; for (int i=0;i<n;i++) { n1+=A[i]*uu[i]*r[i]; n2+=A[i]*uu[i]*uu[i]; } for (int i=0;i<n;i++) s[i]=r[i]*A[i]-bb*n1/(1+bb*n2)*A[i]*uu[i];
    double su=s.dot(uu); dVec nvv(n),nd(n); for (int i=0;i<n;i++) { nvv[i]=v[i]+(q[i]-a*((2+nv)*u[i]*s[i]-su*u[i]))/std::sqrt(nv); nd[i]=b.D[i]*(1+s[i]); }
    o.d.D=nd; o.d.F=dMat(n,n); for (int i=0;i<n;i++) for (int j=0;j<n;j++) o.d.F(i,j)=nd[i]*nd[j]*((i==j)+nvv[i]*nvv[j]);
  }
  // to be called before each generation with the distribution the candidates are drawn from
  void asked(const Dist &b,int t) { if (c.is_sep()||c.is_vd()) return; if (t==0||first||!c.lazy||t-last>k.lazy) { R=inv_sqrt(b.F); last=t; first=false; } }
  static std::string cmpd(const Dist &e,const Dist &a,double tol) { auto bad=[&](double x,double y,double sc) { return !(std::fabs(x-y)<=tol*sc); };
    double sc=1e-12; for (int i=0;i<e.m.size();i++) sc=std::max({sc,std::fabs(e.m[i]),e.s}); for (int i=0;i<e.m.size();i++) if (bad(e.m[i],a.m[i],sc)) return "mean: expected "+vs(e.m)+" got "+vs(a.m);
    if (bad(e.s,a.s,std::fabs(e.s))) return "step size: expected "+ds(e.s)+" got "+ds(a.s);
    double m=0; for (int i=0;i<e.F.rows();i++) m=std::max(m,std::fabs(e.F(i,i))); for (int i=0;i<e.F.rows();i++) for (int j=0;j<e.F.cols();j++) if (bad(e.F(i,j),a.F(i,j),m)) return "covariance ("+std::to_string(i)+","+std::to_string(j)+"): expected "+ds(e.F(i,j))+" got "+ds(a.F(i,j)); return ""; }
  // checks one real generation, then adopts the real state. asked_cols: sampled candidates (for the two-point rule)
  std::string step(const Dist &b,const Dist &a,const std::vector<dVec> &X,const dMat &G,const dVec &mprev,int t,double tol=1e-8) {
    if (c.tpa==2&&t>0) { dVec shift=b.m-mprev; int p1=-1,p2=-1; double best=1e300; for (int i=0;i<G.cols();i++) for (int j=i+1;j<G.cols();j++) { double d=(dVec(G.col(i))+dVec(G.col(j))-2*b.m).norm(); double e=(dVec(G.col(i))-dVec(G.col(j))).norm(); if (e>0&&d/e<best) { best=d/e; p1=i; p2=j; } }
      double sc=std::max({1e-300,b.m.norm()}); if (p1<0||best>1e-6) return "two-point rule: no pair of candidates symmetric about the mean"; (void)sc;
      dVec z=(dVec(G.col(p1))-dVec(G.col(p2)))/2; if (z.dot(shift)<0) { std::swap(p1,p2); z=-z; } if ((z/z.norm()-shift/shift.norm()).norm()>1e-6) return "two-point rule: the symmetric pair is not along the last mean shift";
      int r1=-1,r2=-1; for (size_t i=0;i<X.size();i++) { if (r1<0&&same(X[i],dVec(G.col(p1)))) r1=i; if (r2<0&&same(X[i],dVec(G.col(p2)))) r2=i; } if (r1<0||r2<0) return "two-point rule: pair not among the ranked candidates"; ts=0.7*ts+0.3*(r2-r1)/(k.l-1.0); }
    double mg; int h; Next o=next(b,X,t,-1,mg,h); std::string s=cmpd(o.d,a,tol); if (!s.empty()&&mg<1e-9) { int h2; o=next(b,X,t,1-h,mg,h2); s=cmpd(o.d,a,tol); } ps=o.ps; pc=o.pc; return s; }
};
inline Dist dist_of(const CMASolutions &s,const Cfg &c) { Dist d; d.m=s.xmean(); d.s=s.sigma(); d.F=s.full_cov(); if (c.is_vd()) d.D=s.sepcov_ref().col(0); return d; }
}
