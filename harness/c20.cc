// C20: profile likelihood intervals, contours and optimization with parameters held fixed. Every objective call is recorded; returned objects
// are judged by re-evaluating the objective, by closed-form profiles of quadratics and by the calls themselves.
#include "gp_impl.hpp"
#include "meta.hpp"
#include <libcmaes/errstats.h>
#include <set>
using namespace vm;
// objective families around a centre: value and (for quadratics) the exact profile
static const char *fn_names[]={"sphere","elli","rot","abs","exp","neg","offset","rot3","stiff"}; enum { NFN=8 };
static dMat hess(int fn,int n) { dMat H=dMat::Identity(n,n); if (fn==1||fn==6) for (int i=0;i<n;i++) H(i,i)=i%2?25.0:1.0; if (fn==2) { for (int i=0;i<n;i++) H(i,i)=i%2?4.0:1.0; for (int i=0;i+1<n;i++) H(i,i+1)=H(i+1,i)=0.6; } if (fn==7) for (int i=0;i<n;i++) for (int j=0;j<n;j++) H(i,j)=i==j?2.0:-0.3; if (fn==8) for (int i=0;i<n;i++) H(i,i)=std::pow(1e6,i/(n-1.0)); return H; }
static double val(int fn,const dVec &x,const dVec &c) { dVec d=x-c; int n=d.size(); switch(fn) { case 3: { double s=0.5; for (int i=0;i<n;i++) s+=std::fabs(d[i]); return s; } case 4: { double s=0; for (int i=0;i<n;i++) s+=std::exp(d[i])-d[i]; return s; } case 5: return -5.0+d.squaredNorm(); case 6: return 3.0+d.dot(hess(fn,n)*d); default: return d.dot(hess(fn,n)*d); } }
static double fmin_of(int fn,int n) { return fn==3?0.5:fn==4?(double)n:fn==5?-5.0:fn==6?3.0:0.0; }
// exact minimum with the coordinates in fix held (quadratics and separable families)
static double profile(int fn,const dVec &c,const std::vector<std::pair<int,double>> &fix) { int n=c.size(); std::set<int> F; for (auto &p: fix) F.insert(p.first);
  if (fn==3) { double s=0.5; for (auto &p: fix) s+=std::fabs(p.second-c[p.first]); return s; } if (fn==4) { double s=n; for (auto &p: fix) { double d=p.second-c[p.first]; s+=std::exp(d)-d-1; } return s; }
  dMat H=hess(fn==5?0:fn,n); std::vector<int> r; for (int i=0;i<n;i++) if (!F.count(i)) r.push_back(i); dVec d=dVec::Zero(n); for (auto &p: fix) d[p.first]=p.second-c[p.first]; if (!r.empty()) { dMat A(r.size(),r.size()); dVec b(r.size()); for (size_t i=0;i<r.size();i++) { b[i]=-(H.row(r[i])*d)(0); for (size_t j=0;j<r.size();j++) A(i,j)=H(r[i],r[j]); } dVec y=A.ldlt().solve(b); for (size_t i=0;i<r.size();i++) d[r[i]]=y[i]; } return fmin_of(fn,n)+d.dot(H*d); }
static dVec centre(int k,int n) { dVec c(n); for (int i=0;i<n;i++) switch(k) { case 0: c[i]=0.2+0.1*i; break; case 1: c[i]=(i%2?-1:1)*(0.4+0.1*i); break; case 2: c[i]=0; break; default: c[i]=-0.6+0.05*i; } return c; }
static Cfg cfg_of(int algo,int n,int gp,int seed) { Cfg c; c.algo=algo; c.dim=n; c.lambda=-1; c.sigma=0.3; c.seed=seed; c.gp=gp; c.bset=0; return c; }
struct Bd { bool on=false; std::vector<double> lo,hi; };
static Bd bounds(const Cfg &c) { Bd b; b.on=c.bounded(); if (b.on) box(c,b.lo,b.hi); return b; }
struct Rec { std::vector<dVec> x; std::vector<double> v; };
template<class GP> static FitFunc recfit(int fn,dVec c,Rec *r) { return [=](const double *x,const int &n) { dVec p(n); for (int i=0;i<n;i++) p[i]=x[i]; double v=(n==c.size())?val(fn,p,c):0; r->x.push_back(p); r->v.push_back(v); return v; }; }
static void unchanged(const char *w,const View &a,const View &b) { same_state(w,a,b); if (a.status!=b.status) fail("solution",std::string(w)+": status of the supplied solution changed"); }
template<class GP> static void in_bounds(const Cfg &c,const Rec &r,size_t from) { Bd b=bounds(c); for (size_t i=from;i<r.x.size();i++) { if (r.x[i].size()!=c.dim) fail("dimension","the objective is called with "+std::to_string(r.x[i].size())+" parameters"); if (b.on) for (int j=0;j<c.dim;j++) if (!(r.x[i][j]>=b.lo[j]&&r.x[i][j]<=b.hi[j])) fail("bounds","objective called outside the bounds at "+vs(r.x[i])); } }
// --- optimization with fixed dimensions: every ordered subset
template<class GP> static void vpk(Chooser &ch,Cfg c,int fn,int ck,bool T,int maxsize=100) {
  int n=c.dim; dVec cen=centre(ck,n); Rec r; FitFunc f=recfit<GP>(fn,cen,&r); CMAParameters<GP> par=make_params<GP>(c,true); CMASolutions sol=cmaes<GP>(f,par); const GP &gp=par.get_gp(); View before=view_of(sol); dVec best=sol.best_candidate().get_x_dvec(),pbest=gp.pheno(best);
  // an ordered subset, chosen element by element
  std::vector<int> k; std::vector<int> left; for (int i=0;i<n;i++) left.push_back(i); int size=1+ch.choose(std::min(n,maxsize)); for (int i=0;i<size;i++) { int j=ch.choose((int)left.size()); k.push_back(left[j]); left.erase(left.begin()+j); }
  bool pv=ch.choose(2)==0,px=ch.choose(2)==0; int off=ch.choose(T?3:2); std::vector<double> vk(size),pk(size); std::vector<double> byidx(n);
  for (int i=0;i<size;i++) { double o=(off==0?0.15:off==1?-0.22:0.05)*(1+0.1*k[i]); vk[i]=(pv?pbest:best)[k[i]]+o; dVec t=best; t[k[i]]=vk[i]; pk[i]=pv?vk[i]:gp.pheno(t)[k[i]]; }
  if (c.bounded()) { Bd b=bounds(c); for (int i=0;i<size;i++) if (pv&&!(vk[i]>=b.lo[k[i]]&&vk[i]<=b.hi[k[i]])) return; }
  dVec x0=px?pbest:best; size_t from=r.x.size(); CMASolutions res; if (size==1&&ch.choose(2)) res=errstats<GP>::optimize_pk(f,par,sol,k[0],vk[0],x0,px,pv); else res=errstats<GP>::optimize_vpk(f,par,sol,k,vk,x0,px,pv);
  ch.checked(); std::string w="fixed"; for (int i=0;i<size;i++) w+=" "+std::to_string(k[i])+"="+ds(vk[i]);
  in_bounds<GP>(c,r,from); for (size_t i=from;i<r.x.size();i++) for (int j=0;j<size;j++) if (!close(r.x[i][k[j]],pk[j],1e-12,1e-14)) fail("moved",w+": parameter "+std::to_string(k[j])+" is "+ds(r.x[i][k[j]])+" in an objective call, held at "+ds(pk[j]));
  Candidate b=res.best_candidate(); dVec bx=b.get_x_dvec(); if (bx.size()!=n) fail("dimension",w+": the result has "+std::to_string(bx.size())+" parameters"); dVec pb=gp.pheno(bx);
  for (int j=0;j<size;j++) { if (!close(pb[k[j]],pk[j],1e-7,1e-9)) fail("moved",w+": parameter "+std::to_string(k[j])+" is "+ds(pb[k[j]])+" in the result, held at "+ds(pk[j])); if (!pv&&!samed(bx[k[j]],vk[j])) fail("moved",w+": result does not hold the given value"); }
  if (!close(val(fn,pb,cen),b.get_fvalue(),1e-6,1e-9)) fail("value",w+": the result's value "+ds(b.get_fvalue())+" is not that of its point, "+ds(val(fn,pb,cen)));
  bool hit=false; for (size_t i=from;i<r.x.size()&&!hit;i++) if (samed(r.v[i],b.get_fvalue())) hit=true; if (!hit) fail("value",w+": the result's value was never returned by the objective");
  if (res.fevals()!=(int)(r.x.size()-from)) fail("fevals",w+": "+std::to_string(res.fevals())+" evaluations reported, "+std::to_string(r.x.size()-from)+" made");
  if (res.size()!=1||!same(res.get_candidate(0).get_x_dvec(),bx)) fail("result",w+": the result's only candidate is not its best");
  unchanged("optimization with fixed parameters",before,view_of(sol));
  if (size<n&&!c.bounded()) { std::vector<std::pair<int,double>> fx; for (int j=0;j<size;j++) fx.push_back({k[j],pk[j]}); double e=profile(fn,cen,fx); if (!(b.get_fvalue()<=e+2e-3&&b.get_fvalue()>=e-1e-9)) fail("optimum",w+": the result's value "+ds(b.get_fvalue())+" is not the minimum over the others, "+ds(e)); }
  ch.state(vmc::mix(vmc::dbits(b.get_fvalue()),vmc::dbits(bx[0]))); ch.outcome(vmc::mix(r.x.size(),vmc::dbits(b.get_fvalue()))); }
// --- profile likelihood
template<class GP> static void check_pli(const std::string &w,const pli &le,const Cfg &c,int fn,const dVec &cen,const CMASolutions &sol,const CMAParameters<GP> &par,int k,bool curve,int S,double fup,Chooser &ch,bool reach) {
  ch.checked(); int n=c.dim; dVec f=le.get_fvaluem(); dMat X=le.get_xm(); if (f.size()!=2*S+1||X.rows()!=2*S+1||X.cols()!=n||le.get_k()!=k||le.get_samplesize()!=S) fail("shape",w+": wrong sizes");
  dVec po=par.get_gp().pheno(sol.best_candidate().get_x_dvec()); double m=sol.best_candidate().get_fvalue(); if (!same(X.row(S).transpose(),po)||!samed(f[S],m)) fail("centre",w+": the centre is not the supplied optimum"); double x0=po[k]; Bd b=bounds(c);
  for (int i=0;i<2*S+1;i++) { dVec p=X.row(i).transpose(); if (!close(val(fn,p,cen),f[i],1e-6,1e-9)) fail("value",w+": point "+std::to_string(i)+" is recorded with value "+ds(f[i])+", the objective there is "+ds(val(fn,p,cen))); if (b.on) for (int j=0;j<n;j++) if (!(p[j]>=b.lo[j]-1e-12&&p[j]<=b.hi[j]+1e-12)) fail("bounds",w+": recorded point outside the bounds"); }
  int side=0; for (int i=0;i<2*S+1;i++) if (i!=S) { double d=X(i,k)-x0; int s=d>1e-12?1:d<-1e-12?-1:0; if (i<S) s=-s; if (s&&side&&s!=side) fail("side",w+": points on one side of the record lie on both sides of the optimum (point "+std::to_string(i)+")"); if (s) side=s; }
  auto nearest=[&](int from) { double bd=1e300; std::vector<double> q; for (int i=from;i<from+S;i++) bd=std::min(bd,std::fabs(f[i]-(m+fup))); for (int i=from;i<from+S;i++) if (std::fabs(f[i]-(m+fup))<=bd+1e-12*(1+std::fabs(m))) q.push_back(X(i,k)); return q; };
  auto A=nearest(0),B=nearest(S+1); bool ok=false; for (double a: A) for (double q: B) if (samed(std::min(a,q),le.get_min())&&samed(std::max(a,q),le.get_max())) ok=true; if (!ok) fail("interval",w+": interval ["+ds(le.get_min())+","+ds(le.get_max())+"] is not the pair of recorded points nearest to the requested rise");
  if (!(le.get_min()<=x0+1e-9&&le.get_max()>=x0-1e-9)) fail("bracket",w+": interval ["+ds(le.get_min())+","+ds(le.get_max())+"] does not contain the optimum "+ds(x0));
  if (!close(le.get_err_min(),le.get_min()-x0,1e-12,1e-14)||!close(le.get_err_max(),le.get_max()-x0,1e-12,1e-14)) fail("errors",w+": errors are not the distances of the interval's ends to the optimum");
  for (int i=0;i<2*S+1;i++) if (i!=S) { double e=profile(fn,cen,{{k,X(i,k)}}); if (!c.bounded()&&!(f[i]<=e+0.02*fup+0.02*std::fabs(e-m))) fail("profile",w+": point "+std::to_string(i)+" has value "+ds(f[i])+", the minimum over the other parameters is "+ds(e)); }
  if (!curve&&reach) for (int i=0;i<2*S+1;i++) if (i!=S) { bool bound=b.on&&(std::fabs(X(i,k)-b.lo[k])<1e-9||std::fabs(X(i,k)-b.hi[k])<1e-9); if (!bound&&!(std::fabs(f[i]-m-fup)<=0.1*fup*(1+1e-9)+1e-12)) fail("rise",w+": end at "+ds(X(i,k))+" has rise "+ds(f[i]-m)+", requested "+ds(fup)); if (bound&&f[i]-m>fup*1.1001) fail("rise",w+": end at the bound has rise "+ds(f[i]-m)); }
  pli q; if (!sol.get_pli(k,q)||!same(q.get_fvaluem(),f)||!samem(q.get_xm(),X)||!samed(q.get_min(),le.get_min())||!samed(q.get_max(),le.get_max())) fail("stored",w+": the solution does not hold this interval"); }
template<class GP> static void pl(Chooser &ch,Cfg c,int fn,int ck,int S,bool T,bool fixk) {
  int n=c.dim; dVec cen=centre(ck,n); int k=ch.choose(n); if (fixk) c.fixed={{k,0.0}}; Rec r; FitFunc f=recfit<GP>(fn,cen,&r); CMAParameters<GP> par=make_params<GP>(c,true); CMASolutions sol=cmaes<GP>(f,par); View before=view_of(sol); double fups[]={0.1,0.4,0.02}; bool curve=ch.choose(2); double fup=fups[ch.choose(T?3:2)]; std::string w="k="+std::to_string(k)+(curve?" curve":"")+" fup="+ds(fup); if (std::fabs(sol.best_candidate().get_fvalue()-fmin_of(fn,n))>1e-6&&!c.bounded()&&!fixk) { ch.outcome(1); return; }
  if (fixk) { dVec o=sol.best_candidate().get_x_dvec(); if (o[k]!=0.0) fail("setup","fixed parameter moved"); }
  size_t from=r.x.size(); int MI=fixk?6:2000; pli le=errstats<GP>::profile_likelihood(f,par,sol,k,curve,S,fup,0.1,MI); in_bounds<GP>(c,r,from);
  if (fixk) { ch.checked(); ch.state(r.x.size()); return; } // a parameter that is not at its minimum: only that the search ends
  check_pli<GP>(w,le,c,fn,cen,sol,par,k,curve,S,fup,ch,true); unchanged("profile likelihood",before,view_of(sol));
  if (!curve) { // the stored interval follows the latest request
    double f2=fup*2; pli l2=errstats<GP>::profile_likelihood(f,par,sol,k,false,S,f2,0.1,MI); check_pli<GP>(w+" then "+ds(f2),l2,c,fn,cen,sol,par,k,false,S,f2,ch,true); }
  ch.state(vmc::mix(vmc::dbits(le.get_min()),vmc::dbits(le.get_max()))); ch.outcome(vmc::mix(r.x.size(),k)); }
// --- spending the iterations: the record still holds true points
template<class GP> static void spent(Chooser &ch,Cfg c,int fn,int ck,int S) { int n=c.dim; dVec cen=centre(ck,n); int k=ch.choose(n); bool curve=ch.choose(2); int mi=1+ch.choose(3); Rec r; FitFunc f=recfit<GP>(fn,cen,&r); CMAParameters<GP> par=make_params<GP>(c,true); CMASolutions sol=cmaes<GP>(f,par); View before=view_of(sol); pli le=errstats<GP>::profile_likelihood(f,par,sol,k,curve,S,0.1,0.1,mi); check_pli<GP>("k="+std::to_string(k)+" maxiters="+std::to_string(mi),le,c,fn,cen,sol,par,k,curve,S,0.1,ch,false); unchanged("profile likelihood",before,view_of(sol)); ch.state(vmc::dbits(le.get_min())); ch.outcome(r.x.size()); }
// --- contour
template<class GP> static void cont(Chooser &ch,Cfg c,int fn,int ck,bool T) { int n=c.dim; dVec cen=centre(ck,n); int px=ch.choose(n),py=ch.choose(n-1); if (py>=px) py++; double fup=ch.choose(2)?0.3:0.1; int np=4+(T?ch.choose(4):2*ch.choose(2)); int pre=ch.choose(3); Rec r; FitFunc f=recfit<GP>(fn,cen,&r); CMAParameters<GP> par=make_params<GP>(c,true); CMASolutions sol=cmaes<GP>(f,par); View before=view_of(sol); double m=sol.best_candidate().get_fvalue(); dVec po=par.get_gp().pheno(sol.best_candidate().get_x_dvec());
  if (pre) errstats<GP>::profile_likelihood(f,par,sol,pre==1?px:py,false,10,0.05); size_t from=r.x.size(); contour ct=errstats<GP>::contour_points(f,px,py,np,fup,par,sol); in_bounds<GP>(c,r,from); ch.checked(); std::string w="contour "+std::to_string(px)+","+std::to_string(py)+" fup="+ds(fup)+(pre?" after another interval":"");
  if ((int)ct._points.size()<4||(int)ct._points.size()>np) fail("points",w+": "+std::to_string(ct._points.size())+" points, asked "+std::to_string(np));
  pli lx,ly; if (!sol.get_pli(px,lx)||!sol.get_pli(py,ly)) fail("stored",w+": intervals not stored"); int hit[4]={0,0,0,0}; Bd b=bounds(c);
  double mn[2]={1e300,1e300},mx[2]={-1e300,-1e300};
  for (auto &q: ct._points) { double a[2]={q.first,q.second}; for (int i=0;i<2;i++) { mn[i]=std::min(mn[i],a[i]); mx[i]=std::max(mx[i],a[i]); } double e=profile(fn,cen,{{px,q.first},{py,q.second}}); bool ends[4]={close(q.first,lx.get_min(),1e-9,1e-11),close(q.second,ly.get_min(),1e-9,1e-11),close(q.first,lx.get_max(),1e-9,1e-11),close(q.second,ly.get_max(),1e-9,1e-11)}; bool any=false; for (int i=0;i<4;i++) if (ends[i]) { hit[i]=1; any=true; }
    if (b.on&&!(q.first>=b.lo[px]-1e-12&&q.first<=b.hi[px]+1e-12&&q.second>=b.lo[py]-1e-12&&q.second<=b.hi[py]+1e-12)) fail("bounds",w+": point outside the bounds");
    double lim=0.12*fup+1e-9; if (!c.bounded()&&any&&!(std::fabs(e-m-fup)<=lim)) fail("level",w+": point ("+ds(q.first)+","+ds(q.second)+") has rise "+ds(e-m)); if (!c.bounded()&&!any&&!(e-m>=0.1*fup&&e-m<=1.2*fup)) fail("level",w+": additional point ("+ds(q.first)+","+ds(q.second)+") has rise "+ds(e-m)); }
  if (!c.bounded()) { double cx=po[px],cy=po[py]; int sg=0,np2=ct._points.size(); double tot=0; for (int i=0;i<np2;i++) { auto &a=ct._points[i]; auto &q=ct._points[(i+1)%np2]; double t=std::atan2((a.first-cx)*(q.second-cy)-(a.second-cy)*(q.first-cx),(a.first-cx)*(q.first-cx)+(a.second-cy)*(q.second-cy)); tot+=t; if (std::fabs(t)>1e-9) { int z=t>0?1:-1; if (sg&&z!=sg) fail("order",w+": the contour's points do not follow each other around the optimum (point "+std::to_string(i)+")"); sg=z; } } if (std::fabs(std::fabs(tot)-2*M_PI)>1e-6) fail("order",w+": the contour does not go once around the optimum"); }
  for (int i=0;i<4;i++) if (!hit[i]) fail("ends",w+": no contour point at end "+std::to_string(i)+" of the intervals");
  if (!(mn[0]<=po[px]+1e-9&&mx[0]>=po[px]-1e-9&&mn[1]<=po[py]+1e-9&&mx[1]>=po[py]-1e-9)) fail("bracket",w+": the contour does not surround the optimum"); unchanged("contour",before,view_of(sol)); ch.state(vmc::mix(r.x.size(),vmc::dbits(mn[0]))); ch.outcome(vmc::mix(r.x.size(),vmc::dbits(mx[1]))); }
template<class F> static void by_gp(const Cfg &c,F f) { switch(c.gptype()) { case 0: f((GenoPheno<NoBoundStrategy>*)0); break; case 1: f((GenoPheno<pwqBoundStrategy>*)0); break; case 2: f((GenoPheno<NoBoundStrategy,linScalingStrategy>*)0); break; default: f((GenoPheno<pwqBoundStrategy,linScalingStrategy>*)0); } }
#define GPT typename std::remove_pointer<decltype(g)>::type
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C20"); bool T=m.thorough(); int gps[]={GP_NONE,GP_PWQ,GP_LIN,GP_LINVEC,GP_PWQLIN,GP_PWQLINVEC};
  m.add("element removal and insertion",[=](Chooser &ch) { int n=1+ch.choose(7),k=ch.choose(n); dVec x(n); for (int i=0;i<n;i++) x[i]=1.5*i-2; dVec y=x; removeElement(y,k); ch.checked(); if (y.size()!=n-1) fail("remove","size"); for (int i=0;i<n-1;i++) if (y[i]!=x[i<k?i:i+1]) fail("remove","element "+std::to_string(i)); addElement(y,k,x[k]); if (!same(x,y)) fail("insert","not restored"); dMat M(n,n); for (int i=0;i<n;i++) for (int j=0;j<n;j++) M(i,j)=10*i+j; dMat R=M; removeRow(R,k); removeColumn(R,k); for (int i=0;i<n-1;i++) for (int j=0;j<n-1;j++) if (R(i,j)!=M(i<k?i:i+1,j<k?j:j+1)) fail("remove","row/column"); ch.state(n*10+k); ch.outcome(n*10+k); });
  for (int gp: gps) for (int n=1;n<=(T?4:3);n++) for (int fn: {0,2,6}) for (int ck: {0,1}) { Cfg c=cfg_of(0,n,gp,11); m.add(std::string("fixed ")+fn_names[fn]+" c"+std::to_string(ck)+" "+c.str(),[=](Chooser &ch) { by_gp(c,[&](auto g) { vpk<GPT>(ch,c,fn,ck,T); }); }); }
  if (!T) for (int gp: {GP_PWQ,GP_LINVEC,GP_PWQLINVEC}) { Cfg c=cfg_of(0,4,gp,11); m.add(std::string("fixed rot c0 ")+c.str(),[=](Chooser &ch) { by_gp(c,[&](auto g) { vpk<GPT>(ch,c,2,0,T); }); }); }
  for (int n: {8,10}) { Cfg c=cfg_of(0,n,GP_NONE,11); m.add(std::string("fixed stiff c0 ")+c.str(),[=](Chooser &ch) { vpk<GenoPheno<NoBoundStrategy>>(ch,c,8,0,T,1); }); }
  for (int algo: {0,3,6,9,12}) for (int gp: gps) for (int fn=0;fn<NFN;fn++) for (int ck=0;ck<4;ck++) for (int n: {2,3}) { if (!T&&(gp!=GP_NONE&&gp!=GP_PWQLIN)&&(algo!=0||n==3)) continue; if (!T&&algo!=0&&(n==3||ck==1)) continue; if (!T&&n==3&&(fn+ck)%2) continue; int nn=algo==12?6:n; if (algo==12&&(n==3||(!T&&fn!=0&&fn!=2))) continue; int S=n==2?3:2; Cfg c=cfg_of(algo,nn,gp,5+ck);
    m.add(std::string("profile ")+fn_names[fn]+" c"+std::to_string(ck)+" S"+std::to_string(S)+" "+c.str(),[=](Chooser &ch) { by_gp(c,[&](auto g) { pl<GPT>(ch,c,fn,ck,S,T,false); }); }); }
  for (int algo: {0,6}) for (int fn: {0,2,5}) for (int ck: {0,1}) { Cfg c=cfg_of(algo,2,GP_NONE,3); m.add(std::string("profile of a parameter at zero ")+fn_names[fn]+" c"+std::to_string(ck)+" "+c.str(),[=](Chooser &ch) { pl<GenoPheno<NoBoundStrategy>>(ch,c,fn,ck,3,T,true); }); }
  for (int gp: gps) for (int fn: {0,1,2,6}) for (int ck: {0,1,3}) { Cfg c=cfg_of(0,2,gp,9); m.add(std::string("spent ")+fn_names[fn]+" c"+std::to_string(ck)+" "+c.str(),[=](Chooser &ch) { by_gp(c,[&](auto g) { spent<GPT>(ch,c,fn,ck,4); }); }); }
  for (int gp: gps) for (int fn: {0,1,2,5,6}) for (int ck: {0,1,3}) for (int n: {2,3}) { if (!T&&n==3&&ck) continue; Cfg c=cfg_of(0,n,gp,21); m.add(std::string("contour ")+fn_names[fn]+" c"+std::to_string(ck)+" "+c.str(),[=](Chooser &ch) { by_gp(c,[&](auto g) { cont<GPT>(ch,c,fn,ck,T); }); }); }
  return m.run();
}
