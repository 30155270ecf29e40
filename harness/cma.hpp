// Type-erased access to the real searches, using the public API only.
#pragma once
#include "vmc.hpp"
#include <libcmaes/cmaes.h>
#include <memory>
namespace vm {
using namespace libcmaes;
static const double DINF=std::numeric_limits<double>::infinity();
// gp kinds
enum { GP_NONE=0, GP_CUSTOM=1, GP_PWQ=2, GP_PWQ_CUSTOM=3, GP_LIN=4, GP_LINVEC=5, GP_PWQLIN=6, GP_PWQLINVEC=7, GP_PWQLIN_CUSTOM=8, GP_LIN_CUSTOM=9, GP_COUNT=10 };
struct Cfg {
  int algo=0, dim=2, lambda=4; double sigma=0.5; uint64_t seed=7; int gp=0; int bset=0; double x0=0.3; double x0step=0.2;
  int tpa=1; bool tpaset=false; bool grad=false; bool ugrad=false; bool uh=false; int elit=0; bool maximize=false; bool lazy=false; bool initf=false; bool edm=false; bool mt=false;
  int max_iter=-1,max_fevals=-1; double ftarget=-DINF; double ftol=-1,xtol=-1; int max_hist=-1; int restarts=-1;
  std::vector<std::pair<int,double>> fixed; std::vector<int> unfix; std::vector<int> off; bool alloff=false; std::vector<int> on; std::string fplot; bool fullplot=false; bool noisy=false; bool byname=false; bool maxtoggle=false; int elit2=-1;
  std::vector<double> x0v; bool x0range=false; double x0lo=0,x0hi=0;
  bool is_sep() const { return algo>=6&&algo<=11; }
  bool is_vd() const { return algo>=12; }
  bool is_active() const { return algo==3||algo==4||algo==5||algo==9||algo==10||algo==11; }
  int strat() const { return algo%3; } // 0 plain 1 ipop 2 bipop
  bool bounded() const { return gp==GP_PWQ||gp==GP_PWQ_CUSTOM||gp==GP_PWQLIN||gp==GP_PWQLINVEC||gp==GP_PWQLIN_CUSTOM; }
  bool custom() const { return gp==GP_CUSTOM||gp==GP_PWQ_CUSTOM||gp==GP_PWQLIN_CUSTOM||gp==GP_LIN_CUSTOM; }
  int gptype() const { switch(gp) { case 0: case 1: return 0; case 2: case 3: return 1; case 4: case 5: case 9: return 2; default: return 3; } }
  std::vector<double> start() const { if (!x0v.empty()) return x0v; std::vector<double> v(dim); for (int i=0;i<dim;i++) v[i]=x0+x0step*i; return v; }
  std::string str() const;
};
static const char *algo_names[15]={"cmaes","ipop","bipop","acmaes","aipop","abipop","sepcmaes","sepipop","sepbipop","sepacmaes","sepaipop","sepabipop","vdcma","vdipopcma","vdbipopcma"};
static const char *gp_names[GP_COUNT]={"none","custom","pwq","pwq+custom","lin","linvec","pwqlin","pwqlinvec","pwqlin+custom","lin+custom"};
inline std::string Cfg::str() const {
  std::ostringstream o; o<<algo_names[algo]<<" n="<<dim<<" l="<<lambda<<" s="<<sigma<<" seed="<<seed<<" gp="<<gp_names[gp]<<"/"<<bset<<" x0="<<x0;
  if (tpaset||tpa!=1) o<<" tpa="<<tpa; if (grad) o<<(ugrad?" ugrad":" ngrad"); if (uh) o<<" uh"; if (elit) o<<" elit="<<elit; if (maximize) o<<" max"; if (lazy) o<<" lazy"; if (initf) o<<" initf"; if (edm) o<<" edm"; if (mt) o<<" mt";
  if (max_iter!=-1) o<<" maxit="<<max_iter; if (max_fevals!=-1) o<<" maxfe="<<max_fevals; if (ftarget!=-DINF) o<<" ftarget="<<ftarget; if (ftol>=0) o<<" ftol="<<ftol; if (xtol>=0) o<<" xtol="<<xtol; if (max_hist!=-1) o<<" hist="<<max_hist; if (restarts!=-1) o<<" restarts="<<restarts;
  for (int k: unfix) o<<" unfix"<<k; for (auto &f: fixed) o<<" fix"<<f.first<<"="<<f.second; if (!off.empty()) { o<<" off="; for (int c: off) o<<c<<","; } if (alloff) o<<" alloff"; if (!on.empty()) { o<<" on="; for (int c: on) o<<c<<","; } if (!fplot.empty()) o<<" plot"<<fullplot; if (noisy) o<<" noisy"; if (byname) o<<" byname"; if (maxtoggle) o<<" maxtoggle"; if (x0range) o<<" x0range"; if (elit2>=0) o<<" then-elit="<<elit2; return o.str(); }
static const int ALL_CRIT[12]={CONDITIONCOV,TOLUPSIGMA,TOLHISTFUN,TOLX,NOEFFECTAXIS,NOEFFECTCOOR,EQUALFUNVALS,STAGNATION,AUTOMAXITER,MAXFEVALS,MAXITER,FTARGET};
// bound boxes (user space), per coordinate
inline void box(const Cfg &c,std::vector<double> &lo,std::vector<double> &hi) {
  lo.resize(c.dim); hi.resize(c.dim);
  for (int i=0;i<c.dim;i++) switch(c.bset) {
    case 0: lo[i]=-1.0-0.5*i; hi[i]=1.5+0.25*i; break;           // asymmetric
    case 1: lo[i]=0.0; hi[i]=1e-3*(i+1); break;                  // thin
    case 2: lo[i]=-1e6*(i+1); hi[i]=2e6; break;                  // wide
    case 3: lo[i]=100.0+i; hi[i]=101.5+2*i; break;               // far from zero
    case 4: lo[i]=-5.0; hi[i]=-4.0+0.1*i; break;                 // negative
    case 5: lo[i]=(i%2)?-50.0:0.0; hi[i]=(i%2)?50.0:1.0; break;  // mixed magnitudes
    default: lo[i]=-3; hi[i]=3; }
}
inline dVec lin_scaling(const Cfg &c) { dVec s(c.dim); for (int i=0;i<c.dim;i++) s[i]=0.5+0.75*i; return s; }
inline dVec lin_shift(const Cfg &c) { dVec s(c.dim); for (int i=0;i<c.dim;i++) s[i]=0.25-0.5*i; return s; }
struct View {
  int niter=0,fevals=0,status=0; dVec xmean; double sigma=0; dMat cov,sepcov,full; std::vector<Candidate> cand; Candidate best,bseen,wseen; double mineig=0,maxeig=0; dVec eigval; dMat eigvec; double edm=0; bool updeig=true;
  uint64_t hash() const { uint64_t h=vmc::mix(niter,vmc::dbits(sigma)); for (int i=0;i<xmean.size();i++) h=vmc::mix(h,vmc::dbits(xmean[i])); for (int i=0;i<cov.size();i++) h=vmc::mix(h,vmc::dbits(cov.data()[i])); for (int i=0;i<sepcov.size();i++) h=vmc::mix(h,vmc::dbits(sepcov.data()[i])); for (auto &c: cand) h=vmc::mix(h,vmc::dbits(c.get_fvalue())); h=vmc::mix(h,vmc::dbits(bseen.get_fvalue())); h=vmc::mix(h,fevals); return h; }
};
inline View view_of(const CMASolutions &s,bool full=false) {
  View v; v.niter=s.niter(); v.fevals=s.fevals(); v.status=s.run_status(); v.xmean=s.xmean(); v.sigma=s.sigma(); v.cov=s.cov_ref(); v.sepcov=s.sepcov_ref();
  for (int i=0;i<s.size();i++) v.cand.push_back(s.get_candidate(i)); v.best=s.best_candidate(); v.bseen=s.get_best_seen_candidate(); v.wseen=s.get_worst_seen_candidate(); v.mineig=s.min_eigenv(); v.maxeig=s.max_eigenv(); v.eigval=s.eigenvalues(); v.eigvec=s.eigenvectors(); v.edm=s.edm(); v.updeig=s.updated_eigen(); if (full) v.full=s.full_cov(); return v; }
struct Search;
// Environment of one search: everything the search can observe or that observes it.
struct Env {
  std::function<double(const double*,int)> f;          // objective
  std::function<dVec(const double*,int)> g;            // gradient (if cfg.ugrad)
  std::function<int(const CMASolutions&,int lambda)> progress;    // progress callback (lambda = current population size)
  std::function<void(const dMat&)> asked;              // after ask
  std::function<dMat(const dMat&)> replace;            // candidates to use instead of the asked ones (replays)
  std::function<void()> evaluated;                     // after eval
  std::function<void()> told;                          // after tell
};
struct Search {
  virtual ~Search() {}
  virtual dMat ask()=0; virtual void eval(const dMat&,const dMat&)=0; virtual void tell()=0; virtual void inc()=0; virtual bool stop()=0;
  virtual int optimize()=0; virtual int optimize_custom()=0; // custom: same steps passed as functions, with observation in between
  virtual CMASolutions& sols()=0; virtual dVec pheno(const dVec&)=0; virtual dMat phenoM(const dMat&)=0; virtual dVec geno(const dVec&)=0;
  virtual int lambda()=0; virtual double edm()=0; virtual dVec gradf(const dVec&)=0; virtual dVec gradgp(const dVec&)=0; virtual dVec stds()=0; virtual dVec errors()=0; virtual int seed()=0; virtual std::string print(int)=0; virtual double fitfunc(const double*,int)=0;
};
std::unique_ptr<Search> make_search(const Cfg &c,Env *env,const CMASolutions *from=nullptr);
CMASolutions onecall(const Cfg &c,Env *env,const CMASolutions *from=nullptr);
// per-gp factories
std::unique_ptr<Search> make0(const Cfg&,Env*,const CMASolutions*); std::unique_ptr<Search> make1(const Cfg&,Env*,const CMASolutions*); std::unique_ptr<Search> make2(const Cfg&,Env*,const CMASolutions*); std::unique_ptr<Search> make3(const Cfg&,Env*,const CMASolutions*);
CMASolutions call0(const Cfg&,Env*,const CMASolutions*); CMASolutions call1(const Cfg&,Env*,const CMASolutions*); CMASolutions call2(const Cfg&,Env*,const CMASolutions*); CMASolutions call3(const Cfg&,Env*,const CMASolutions*);
inline std::unique_ptr<Search> make_search(const Cfg &c,Env *e,const CMASolutions *from) { switch(c.gptype()) { case 0: return make0(c,e,from); case 1: return make1(c,e,from); case 2: return make2(c,e,from); default: return make3(c,e,from); } }
inline CMASolutions onecall(const Cfg &c,Env *e,const CMASolutions *from) { switch(c.gptype()) { case 0: return call0(c,e,from); case 1: return call1(c,e,from); case 2: return call2(c,e,from); default: return call3(c,e,from); } }
inline bool same(const dVec &a,const dVec &b) { if (a.size()!=b.size()) return false; for (int i=0;i<a.size();i++) if (vmc::dbits(a[i])!=vmc::dbits(b[i]) && !(a[i]==b[i])) return false; return true; }
inline bool samem(const dMat &a,const dMat &b) { if (a.rows()!=b.rows()||a.cols()!=b.cols()) return false; for (int i=0;i<a.size();i++) if (vmc::dbits(a.data()[i])!=vmc::dbits(b.data()[i]) && !(a.data()[i]==b.data()[i])) return false; return true; }
inline bool samed(double a,double b) { return a==b || (a!=a&&b!=b); }
inline std::string ds(double d) { char b[64]; snprintf(b,64,"%.17g",d); return b; }
inline std::string vs(const dVec &v) { std::string s="["; for (int i=0;i<v.size();i++) s+=(i?",":"")+ds(v[i]); return s+"]"; }
inline bool close(double a,double b,double rel=1e-9,double abs=1e-12) { if (a==b) return true; if (a!=a||b!=b) return a!=a&&b!=b; return std::fabs(a-b)<=abs+rel*std::max(std::fabs(a),std::fabs(b)); }
}
