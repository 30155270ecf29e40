#pragma once
#include "cma.hpp"
namespace vm {
inline void cpheno(const double *in,double *out,const int &n) { for (int i=0;i<n;i++) out[i]=0.5*in[i]+0.1*(i+1); }
inline void cgeno(const double *in,double *out,const int &n) { for (int i=0;i<n;i++) out[i]=(in[i]-0.1*(i+1))*2.0; }
template<class GP> GP make_gp(const Cfg &c);
template<> inline GenoPheno<NoBoundStrategy> make_gp(const Cfg &c) { if (c.gp==GP_CUSTOM) { TransFunc g=cgeno,p=cpheno; return GenoPheno<NoBoundStrategy>(g,p); } return GenoPheno<NoBoundStrategy>(); }
template<> inline GenoPheno<pwqBoundStrategy> make_gp(const Cfg &c) { std::vector<double> lo,hi; box(c,lo,hi); if (c.gp==GP_PWQ_CUSTOM) { TransFunc g=cgeno,p=cpheno; return GenoPheno<pwqBoundStrategy>(g,p,&lo.front(),&hi.front(),c.dim); } return GenoPheno<pwqBoundStrategy>(&lo.front(),&hi.front(),c.dim); }
template<> inline GenoPheno<NoBoundStrategy,linScalingStrategy> make_gp(const Cfg &c) { std::vector<double> lo,hi; box(c,lo,hi); typedef GenoPheno<NoBoundStrategy,linScalingStrategy> G; if (c.gp==GP_LINVEC) return G(lin_scaling(c),lin_shift(c)); if (c.gp==GP_LIN_CUSTOM) { TransFunc g=cgeno,p=cpheno; return G(g,p,&lo.front(),&hi.front(),c.dim); } return G(&lo.front(),&hi.front(),c.dim); }
template<> inline GenoPheno<pwqBoundStrategy,linScalingStrategy> make_gp(const Cfg &c) { std::vector<double> lo,hi; box(c,lo,hi); typedef GenoPheno<pwqBoundStrategy,linScalingStrategy> G; if (c.gp==GP_PWQLINVEC) return G(lin_scaling(c),lin_shift(c),&lo.front(),&hi.front()); if (c.gp==GP_PWQLIN_CUSTOM) { TransFunc g=cgeno,p=cpheno; return G(g,p,&lo.front(),&hi.front(),c.dim); } return G(&lo.front(),&hi.front(),c.dim); }
template<class GP> CMAParameters<GP> make_params(const Cfg &c,bool onecall) {
  std::vector<double> x0=c.start();
  CMAParameters<GP> p(x0,c.sigma,c.lambda,c.seed,make_gp<GP>(c));
  if (c.byname) p.set_str_algo(algo_names[c.algo]);
  else { p.set_algo(c.algo); if (!onecall) { if (c.is_sep()) p.set_sep(); if (c.is_vd()) p.set_vd(); } }
  if (c.noisy) p.set_noisy();
  p.set_quiet(true);
  if (c.tpaset||c.tpa!=1) p.set_tpa(c.tpa);
  if (c.grad) p.set_gradient(true);
  if (c.uh) p.set_uh(true);
  if (c.elit) p.set_elitism(c.elit);
  if (c.elit2>=0) p.set_elitism(c.elit2);
  if (c.maximize) p.set_maximize(true);
  if (c.maxtoggle) { p.set_maximize(true); p.set_maximize(false); }
  if (c.lazy) p.set_lazy_update(true);
  if (c.initf) p.set_initial_fvalue(true);
  if (c.edm) p.set_edm(true);
  if (c.mt) p.set_mt_feval(true);
  if (c.max_iter!=-1) p.set_max_iter(c.max_iter);
  if (c.max_fevals!=-1) p.set_max_fevals(c.max_fevals);
  if (c.ftarget!=-DINF) p.set_ftarget(c.ftarget);
  if (c.ftol>=0) p.set_ftolerance(c.ftol);
  if (c.xtol>=0) p.set_xtolerance(c.xtol);
  if (c.max_hist!=-1) p.set_max_hist(c.max_hist);
  if (c.restarts!=-1) p.set_restarts(c.restarts);
  for (int k: c.unfix) p.set_fixed_p(k,0.9);
  for (int k: c.unfix) p.unset_fixed_p(k);
  for (auto &f: c.fixed) p.set_fixed_p(f.first,f.second);
  for (int k: ALL_CRIT) { bool o=c.alloff; for (int q: c.off) if (q==k) o=true; for (int q: c.on) if (q==k) o=false; if (o) p.set_stopping_criteria(k,false); }
  if (!c.fplot.empty()) { p.set_fplot(c.fplot); p.set_full_fplot(c.fullplot); }
  if (c.x0range) p.set_x0(c.x0lo,c.x0hi);
  return p;
}
template<class GP> FitFunc make_fit(Env *e) { return [e](const double *x,const int &n) { return e->f(x,n); }; }
template<class STRAT,class GP> struct SearchT : Search {
  typedef ESOptimizer<STRAT,CMAParameters<GP>,CMASolutions> Opt;
  Env *env; CMAParameters<GP> par; FitFunc ff; std::unique_ptr<Opt> o; ProgressFunc<CMAParameters<GP>,CMASolutions> pf; GradFunc gf;
  SearchT(const Cfg &c,Env *e,const CMASolutions *from):env(e),par(make_params<GP>(c,false)),ff(make_fit<GP>(e)) {
    if (from) o.reset(new Opt(ff,par,*from)); else o.reset(new Opt(ff,par));
    pf=[this](const CMAParameters<GP> &p,const CMASolutions &s) { return env->progress?env->progress(s,p.lambda()):0; }; o->set_progress_func(pf);
    if (c.grad&&c.ugrad) { gf=[this](const double *x,const int &n) { return env->g(x,n); }; o->set_gradient_func(gf); }
  }
  dMat ask() override { return o->ask(); } void eval(const dMat &c,const dMat &p) override { o->eval(c,p); } void tell() override { o->tell(); } void inc() override { o->inc_iter(); } bool stop() override { return o->stop(); }
  int optimize() override { return o->optimize(); }
  int optimize_custom() override {
    EvalFunc ef=[this](const dMat &c,const dMat &p) { o->eval(c,p); if (env->evaluated) env->evaluated(); };
    AskFunc af=[this]() { dMat m=o->ask(); if (env->replace) m=env->replace(m); if (env->asked) env->asked(m); return m; };
    TellFunc tf=[this]() { o->tell(); if (env->told) env->told(); };
    STRAT &s=*o; return s.optimize(ef,af,tf);
  }
  CMASolutions& sols() override { return o->get_solutions(); }
  dVec pheno(const dVec &v) override { return o->get_parameters().get_gp().pheno(v); } dMat phenoM(const dMat &v) override { return o->get_parameters().get_gp().pheno(v); } dVec geno(const dVec &v) override { return o->get_parameters().get_gp().geno(v); }
  int lambda() override { return o->get_parameters().lambda(); } double edm() override { return o->edm(); } dVec gradf(const dVec &v) override { return o->gradf(v); } dVec gradgp(const dVec &v) override { return o->gradgp(v); }
  dVec stds() override { return o->get_solutions().stds(o->get_parameters()); } dVec errors() override { return o->get_solutions().errors(o->get_parameters()); } int seed() override { return o->get_parameters().get_seed(); }
  std::string print(int verb) override { std::ostringstream s; o->get_solutions().print(s,verb,o->get_parameters().get_gp()); return s.str(); }
  double fitfunc(const double *x,int n) override { return o->fitfunc(x,n); }
};
template<class COV,class GP> std::unique_ptr<Search> make_s(const Cfg &c,Env *e,const CMASolutions *from) {
  switch(c.strat()) { case 0: return std::unique_ptr<Search>(new SearchT<CMAStrategy<COV,GP>,GP>(c,e,from)); case 1: return std::unique_ptr<Search>(new SearchT<IPOPCMAStrategy<COV,GP>,GP>(c,e,from)); default: return std::unique_ptr<Search>(new SearchT<BIPOPCMAStrategy<COV,GP>,GP>(c,e,from)); } }
template<class GP> std::unique_ptr<Search> make_t(const Cfg &c,Env *e,const CMASolutions *from) {
  if (c.is_vd()) return make_s<VDCMAUpdate,GP>(c,e,from); if (c.is_active()) return make_s<ACovarianceUpdate,GP>(c,e,from); return make_s<CovarianceUpdate,GP>(c,e,from); }
template<class GP> CMASolutions call_t(const Cfg &c,Env *e,const CMASolutions *from) {
  CMAParameters<GP> p=make_params<GP>(c,true); FitFunc ff=make_fit<GP>(e); ProgressFunc<CMAParameters<GP>,CMASolutions> pf=[e](const CMAParameters<GP> &p,const CMASolutions &s) { return e->progress?e->progress(s,p.lambda()):0; };
  GradFunc gf=nullptr; if (c.grad&&c.ugrad) gf=[e](const double *x,const int &n) { return e->g(x,n); };
  PlotFunc<CMAParameters<GP>,CMASolutions> &pp=CMAStrategy<CovarianceUpdate,GP>::_defaultFPFunc;
  return cmaes<GP>(ff,p,pf,gf,from?*from:CMASolutions(),pp); }
}
