// C02: geno/pheno maps over exhaustive grids of boxes, scalings, points, matrix shapes and removed dimensions.
#include "gp_impl.hpp"
using namespace vm; using vmc::fail; using vmc::Chooser;
typedef GenoPheno<NoBoundStrategy> G0; typedef GenoPheno<pwqBoundStrategy> G1; typedef GenoPheno<NoBoundStrategy,linScalingStrategy> G2; typedef GenoPheno<pwqBoundStrategy,linScalingStrategy> G3;
struct B { double lo,hi; };
static std::vector<B> boxes() { return {{-1,1.5},{0,1},{0,1e-3},{-1e6,2e6},{100,101.5},{-5,-4},{0,10},{-50,50},{3,3},{0,0},{-7,-7},{1e6,1e6+1e-3},{-1e-8,1e-8},{1,1+1e-9},{-1e12,1e12},{0,1e100},{-1e150,1e-150},{1e-100,1e-99},{-2,1e9},{-1e9,-1e-9},{0.1,0.1+1e-15},{-1,0},{19,21},{-21,-19}}; }
struct M { std::function<dVec(const dVec&)> p,g; std::function<dMat(const dMat&)> pm,gm; };
template<class G> M maps(const G &q) { M m; m.p=[q](const dVec &x) { return q.pheno(x); }; m.g=[q](const dVec &x) { return q.geno(x); }; m.pm=[q](const dMat &x) { return q.pheno(x); }; m.gm=[q](const dMat &x) { return q.geno(x); }; return m; }
// kinds of one-to-many dimensional maps, over given boxes
enum { K_PWQ,K_PWQC,K_PWQLIN,K_PWQLINC,K_PWQVEC,K_LIN,K_LINC,K_LINVEC,K_CUST,K_ID,K_PWQNB,K_LINNB,K_PWQLINNB,K_PWQVECNB,K_N };
static const char *KN[]={"pwq","pwq+custom","pwq+lin","pwq+lin+custom","pwq+vec","lin","lin+custom","vec","custom","id","pwq no bounds","lin default","pwq+lin default","pwq+vec no bounds"};
static bool bounded(int k) { return k<=K_PWQVEC; } static bool cust(int k) { return k==K_PWQC||k==K_PWQLINC||k==K_LINC||k==K_CUST; }
static void cp(const double *in,double *out,const int &n) { for (int i=0;i<n;i++) out[i]=4*in[i]-1; } static void cg(const double *in,double *out,const int &n) { for (int i=0;i<n;i++) out[i]=(in[i]+1)/4; }
static dVec scal(const std::vector<int> &sc) { double S[]={1,0.25,-2,1e-6,1e6,-0.5}; dVec v(sc.size()); for (size_t i=0;i<sc.size();i++) v[i]=S[sc[i]]; return v; }
static dVec shif(const std::vector<int> &sc) { double S[]={0,0.75,-3,10,-1e3,5}; dVec v(sc.size()); for (size_t i=0;i<sc.size();i++) v[i]=S[sc[i]]; return v; }
template<class F> static void with(int k,const std::vector<B> &b,const std::vector<int> &sc,F f) { std::vector<double> lo,hi; for (auto &x: b) { lo.push_back(x.lo); hi.push_back(x.hi); } int n=b.size(); TransFunc g=cg,p=cp; const double *L=lo.data(),*U=hi.data();
  switch(k) { case K_PWQ: f(G1(L,U,n)); break; case K_PWQC: f(G1(g,p,L,U,n)); break; case K_PWQLIN: f(G3(L,U,n)); break; case K_PWQLINC: f(G3(g,p,L,U,n)); break; case K_PWQVEC: f(G3(scal(sc),shif(sc),L,U)); break; case K_LIN: f(G2(L,U,n)); break; case K_LINC: f(G2(g,p,L,U,n)); break; case K_LINVEC: f(G2(scal(sc),shif(sc))); break; case K_CUST: f(G0(g,p)); break; case K_ID: f(G0()); break; case K_PWQNB: f(G1()); break; case K_LINNB: f(G2()); break; case K_PWQLINNB: f(G3()); break; case K_PWQVECNB: f(G3(scal(sc),shif(sc))); break; } }
static double tol(const B &b) { return 1e-11*(std::fabs(b.lo)+std::fabs(b.hi)); }
// rounding of the composed affine maps (custom offset, scaling shift) adds an absolute error
static double tolk(int k,const B &b,int s) { double t=tol(b); if (cust(k)) t+=1e-14*(k==K_PWQLINC||k==K_LINC?(b.hi-b.lo):1.0); if (k==K_PWQVEC||k==K_LINVEC||k==K_PWQVECNB) t+=1e-13*(1+std::fabs(shif({s})[0]))/std::fabs(scal({s})[0]); return t; }
static double tolb(int k,const B &b,int s) { return k==K_PWQVEC?tolk(k,b,s):tol(b); }
// interesting points of a coordinate (in the phenotype's own scale; also used as genotypes)
static std::vector<double> points(const B &b,bool big) { double w=b.hi-b.lo; std::vector<double> r; auto add=[&](double x) { if (std::isfinite(x)) { r.push_back(x); if (big) { r.push_back(std::nextafter(x,1e308)); r.push_back(std::nextafter(x,-1e308)); } } };
  double al=std::min(w/2,(1+std::fabs(b.lo))/20),au=std::min(w/2,(1+std::fabs(b.hi))/20); for (double x: {b.lo,b.hi,b.lo-al,b.hi+au,b.lo+al,b.hi-au,b.lo-2*al-w/2,b.hi+2*au+w/2,b.lo-al/2,b.hi+au/2,b.lo+al/3,b.hi-au/3,b.lo-al-1e-3*w,b.hi+au+1e-3*w,b.lo+w/2,b.lo+w/3}) add(x);
  if (big) { for (int k=-6;k<=6;k++) add(b.lo+k*0.77*w+0.1*w); double per=2*(w+al+au); for (int k=-3;k<=3;k++) { add(b.lo-al+k*per); add(b.hi+au+k*per); add(b.lo-2*al-w/2+k*per); } for (int e=-300;e<=300;e+=20) { add(std::pow(10.0,e)); add(-std::pow(10.0,e)); } for (double x: {0.0,5.0,10.0,-0.5,10.5,1e15,-1e15,1e17,3.3e6}) add(x); } else { add(1e9); add(-1e5); add(b.hi+3.3*w+0.01); add(b.lo-7.7*w-0.01); }
  return r; }
static std::string nm(int k,const std::vector<B> &b) { std::string s=KN[k]; for (auto &x: b) s+=" ["+ds(x.lo)+","+ds(x.hi)+"]"; return s; }
// the published map of one coordinate: reflection into the extended box, quadratic near its borders
static double pwq(double x,double lo,double hi) { double w=hi-lo; if (w==0) return lo; double al=std::min(w/2,(1+std::fabs(lo))/20),au=std::min(w/2,(1+std::fabs(hi))/20),per=2*(w+al+au),z=std::fmod(x-(lo-al),per); if (z<0) z+=per; if (z>per/2) z=per-z; double y=lo-al+z; if (y<lo+al) return lo+(y-(lo-al))*(y-(lo-al))/4/al; if (y>hi-au) return hi-(y-(hi+au))*(y-(hi+au))/4/au; return y; }
static bool refmap(int k,const B &b,int s,double x,double &p,double &t) { if (!bounded(k)) return false; double lo=b.lo,hi=b.hi,sc=1,sh=0; if (cust(k)) x=4*x-1; if (k==K_PWQLIN||k==K_PWQLINC) { if (!(hi-lo>1e-9*(std::fabs(lo)+std::fabs(hi)))) return false; sc=10/(hi-lo); sh=10-sc*hi; lo=0; hi=10; } if (k==K_PWQVEC) { sc=scal({s})[0]; sh=shif({s})[0]; double u=lo*sc+sh,v=hi*sc+sh; lo=std::min(u,v); hi=std::max(u,v); }
  double w=hi-lo; if (w!=0&&!(std::fabs(x)+std::fabs(lo)+std::fabs(hi)<1e10*w)) return false; p=(pwq(x,lo,hi)-sh)/sc; t=1e-13*(std::fabs(x)+std::fabs(lo)+std::fabs(hi)+std::fabs(sh)+w*(1+std::fabs(x)/(w==0?1:w)))/std::fabs(sc); return true; }
// the oracle for one genotype / one feasible phenotype
template<class G> static void point(Chooser &ch,const G &q,int k,const std::vector<B> &b,const dVec &x,const std::vector<int> &sc) { int n=b.size(); dVec p=q.pheno(x); ch.checked(); std::string w=nm(k,b)+" x="+vs(x)+": ";
  if (p.size()!=n) fail("size",w+"wrong dimension"); for (int i=0;i<n;i++) { if (!std::isfinite(p[i])) fail("finite",w+"phenotype "+vs(p)); if (bounded(k)&&!(p[i]>=b[i].lo-tolb(k,b[i],sc[i])&&p[i]<=b[i].hi+tolb(k,b[i],sc[i]))) fail("box",w+"phenotype "+vs(p)+" outside the box"); }
  for (int i=0;i<n;i++) { double e,t; if (refmap(k,b[i],sc[i],x[i],e,t)) { ch.checked(); if (!(std::fabs(p[i]-e)<=t+tolk(k,b[i],sc[i]))) fail("reflect",w+"coordinate "+std::to_string(i)+" maps to "+ds(p[i])+", the reflected image is "+ds(e)); } }
  dVec g=q.geno(p); dVec p2=q.pheno(g); for (int i=0;i<n;i++) { double t=bounded(k)?tolk(k,b[i],sc[i]):1e-9*(std::fabs(p[i])+std::fabs(b[i].lo)+std::fabs(b[i].hi)+1e-300); if (!bounded(k)&&(k==K_LINVEC||k==K_PWQVECNB)) t+=1e-9*std::fabs(shif(sc)[i]/scal(sc)[i]); if (cust(k)) t+=1e-9; if (!(std::fabs(p2[i]-p[i])<=t)) fail("roundtrip",w+"phenotype "+vs(p)+" maps to genotype "+vs(g)+" and back to "+vs(p2)); }
  dMat X(n,1); X.col(0)=x; dMat P=q.pheno(X); if (P.rows()!=n||P.cols()!=1||!same(dVec(P.col(0)),p)) fail("matrix",w+"matrix form differs from vector form"); X.col(0)=p; dMat Gm=q.geno(X); if (Gm.cols()!=1||!same(dVec(Gm.col(0)),g)) fail("matrix",w+"matrix form of geno differs from vector form");
}
template<class G> static void feasible(Chooser &ch,const G &q,int k,const std::vector<B> &b,const dVec &y,const std::vector<int> &sc) { int n=b.size(); dVec g=q.geno(y); dVec p=q.pheno(g); ch.checked(); for (int i=0;i<n;i++) if (!(std::fabs(p[i]-y[i])<=tolk(k,b[i],sc[i])+(bounded(k)?0:1e-9*(1+std::fabs(y[i]))))) fail("feasible",nm(k,b)+" feasible point "+vs(y)+" maps to genotype "+vs(g)+" and back to "+vs(p));
  if (k==K_PWQ||k==K_PWQNB||k==K_ID||k==K_LINNB||k==K_PWQLINNB) { dVec id=q.pheno(y); for (int i=0;i<n;i++) { double al=k==K_PWQ?std::min((b[i].hi-b[i].lo)/2,(1+std::max(std::fabs(b[i].lo),std::fabs(b[i].hi)))/20):0; if (k!=K_PWQ||(y[i]>=b[i].lo+al&&y[i]<=b[i].hi-al)) { if (!(std::fabs(id[i]-y[i])<=tol(b[i]))) fail("identity",nm(k,b)+" feasible point "+vs(y)+" away from the borders is mapped to "+vs(id)); } } } }
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C02"); bool T=m.thorough(); auto bx=boxes();
  for (int k=0;k<K_N;k++) for (size_t bi=0;bi<bx.size();bi++) for (int s=0;s<6;s++) { B b=bx[bi]; bool vec=k==K_PWQVEC||k==K_LINVEC||k==K_PWQVECNB; if (!vec&&s) continue; if ((k==K_LIN||k==K_LINC||k==K_PWQLIN||k==K_PWQLINC)&&!(b.hi-b.lo>1e-12*(std::fabs(b.lo)+std::fabs(b.hi)))) continue; if ((k==K_LINC||k==K_LIN||k==K_LINVEC||k==K_PWQVECNB||k==K_PWQVEC||k==K_LINNB||k==K_PWQLINC||k==K_PWQLIN)&&(std::fabs(b.lo)>1e13||std::fabs(b.hi)>1e13||b.hi<1e-100&&b.hi>0)) continue;
    m.add("1d "+nm(k,{b})+" s="+std::to_string(s),[=](Chooser &ch) { auto P=points(b,true); double x=P[ch.choose((int)P.size())]; if (!bounded(k)&&std::fabs(x)>1e290) return; double eff=x; if (k==K_PWQVEC&&0) eff=x; std::vector<int> sc={s}; dVec v(1); v[0]=eff; with(k,{b},sc,[&](auto q) { point(ch,q,k,{b},v,sc); if (bounded(k)&&x>=b.lo&&x<=b.hi) feasible(ch,q,k,{b},v,sc); }); ch.state(vmc::mix(k*100+bi,vmc::dbits(x))); }); }
  // several coordinates: each is mapped as it is mapped alone; vectors, matrix columns and wide matrices agree
  std::vector<int> sel={0,1,3,4,5,8,11,22}; 
  for (int k=0;k<K_N;k++) for (int i: sel) for (int j: sel) for (int l: {0,5}) { std::vector<B> b={bx[i],bx[j],bx[l]}; bool deg=false; for (auto &q: b) if (q.hi==q.lo) deg=true; if ((k==K_LIN||k==K_LINC||k==K_PWQLIN||k==K_PWQLINC)&&deg) continue; std::vector<int> sc={i%6,j%6,l%6};
    m.add("3d "+nm(k,b),[=](Chooser &ch) { dVec x(3); for (int d=0;d<3;d++) { auto P=points(b[d],false); x[d]=d==2?P[ch.choose(3)*5]:P[ch.choose((int)P.size())]; } bool feas=bounded(k); for (int d=0;d<3;d++) if (!(x[d]>=b[d].lo&&x[d]<=b[d].hi)) feas=false;
      with(k,b,sc,[&](auto q) { point(ch,q,k,b,x,sc); if (feas) feasible(ch,q,k,b,x,sc); dVec p=q.pheno(x),g=q.geno(p); for (int d=0;d<3;d++) with(k,{b[d]},{sc[d]},[&](auto q1) { dVec y(1); y[0]=x[d]; dVec p1=q1.pheno(y); y[0]=p[d]; dVec g1=q1.geno(y); if (!samed(p1[0],p[d])||!samed(g1[0],g[d])) fail("neighbour",nm(k,b)+": coordinate "+std::to_string(d)+" of "+vs(x)+" maps to "+ds(p[d])+"/"+ds(g[d])+", alone to "+ds(p1[0])+"/"+ds(g1[0])); }); });
      ch.state(vmc::mix(vmc::mix(vmc::dbits(x[0]),vmc::dbits(x[1])),vmc::dbits(x[2]))); }); }
  for (int k=0;k<K_N;k++) for (int cols: {0,1,2,5,99,100,101,130}) for (int n: {1,2,3}) { std::vector<B> b(bx.begin(),bx.begin()+n); b[n-1]=bx[5]; std::vector<int> sc={1,2,0}; sc.resize(n);
    m.add("matrix "+nm(k,b)+" cols="+std::to_string(cols),[=](Chooser &ch) { int sh=ch.choose(9); dMat X(n,cols); for (int c=0;c<cols;c++) for (int d=0;d<n;d++) { auto P=points(b[d],true); X(d,c)=P[(c*7+d*11+sh*13)%P.size()]; if (!bounded(k)&&std::fabs(X(d,c))>1e100) X(d,c)=c; }
      with(k,b,sc,[&](auto q) { dMat P=q.pheno(X); if (P.rows()!=n||P.cols()!=cols) fail("matrix",nm(k,b)+": wrong shape"); for (int c=0;c<cols;c++) { ch.checked(); if (!same(dVec(P.col(c)),q.pheno(dVec(X.col(c))))) fail("matrix",nm(k,b)+": column "+std::to_string(c)+" of pheno differs from the vector form"); } dMat Y=q.geno(P); for (int c=0;c<cols;c++) if (!same(dVec(Y.col(c)),q.geno(dVec(P.col(c))))) fail("matrix",nm(k,b)+": column "+std::to_string(c)+" of geno differs from the vector form"); }); ch.state(sh*1000+cols); }); }
  // removing dimensions, every subset in every order
  for (int k=0;k<K_N;k++) { int n=T?5:4; std::vector<B> b={bx[0],bx[5],bx[4],bx[3],bx[1]}; b.resize(n); std::vector<int> sc={1,2,0,5,3}; sc.resize(n);
    m.add("remove "+nm(k,b),[=](Chooser &ch) { std::vector<int> left; for (int i=0;i<n;i++) left.push_back(i); std::vector<int> rm,pool=left; int cnt=ch.choose(n); for (int i=0;i<cnt;i++) { int z=ch.choose((int)pool.size()); rm.push_back(pool[z]); pool.erase(pool.begin()+z); } bool onebyone=ch.choose(2); std::vector<B> rb; std::vector<int> rs; for (int i: pool) { rb.push_back(b[i]); rs.push_back(sc[i]); }
      with(k,b,sc,[&](auto q) { if (onebyone) { for (int z=0;z<(int)rm.size();z++) { int adj=rm[z]; for (int y=0;y<z;y++) if (rm[y]<rm[z]) adj--; q.remove_dimensions({adj}); } } else q.remove_dimensions(rm);
        with(k,rb,rs,[&](auto q2) { int r=pool.size(); for (int t=0;t<24;t++) { dVec x(r); for (int d=0;d<r;d++) { auto P=points(rb[d],false); x[d]=P[(t+d*5)%P.size()]; } ch.checked(); dVec a=q.pheno(x),e=q2.pheno(x); if (!same(a,e)) fail("remove",nm(k,b)+" after removing "+std::to_string(rm.size())+" dimensions: pheno "+vs(a)+" expected "+vs(e)); if (!same(q.geno(e),q2.geno(e))) fail("remove",nm(k,b)+" after removing "+std::to_string(rm.size())+" dimensions: geno differs"); }
          for (int d=0;d<r;d++) { auto s1=q.get_boundstrategy(),s2=q2.get_boundstrategy(); if (s1.getPhenoLBound(d)!=s2.getPhenoLBound(d)||s1.getPhenoUBound(d)!=s2.getPhenoUBound(d)||s1.getLBound(d)!=s2.getLBound(d)||s1.getUBound(d)!=s2.getUBound(d)) fail("remove",nm(k,b)+": bounds of a remaining dimension changed"); if (bounded(k)&&(s1.getPhenoLBound(d)!=rb[d].lo||s1.getPhenoUBound(d)!=rb[d].hi)) fail("bounds",nm(k,b)+": phenotype bounds are not the user's"); } }); });
      ch.state(vmc::mix(cnt,onebyone)); uint64_t h=0; for (int i: rm) h=vmc::mix(h,i+1); ch.state(h); }); }
  return m.run();
}
