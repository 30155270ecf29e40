// Recording, replaying and comparing whole runs of real searches.
#pragma once
#include "drv.hpp"
namespace vm {
struct Snap { View v; int lambda; };
struct Trace { std::vector<Call> log; std::vector<dMat> asked; std::vector<Snap> prog; View fin; int ret=0; std::vector<std::vector<double>> script; };
typedef std::function<std::vector<double>(int gen,const dMat &g,const dMat &p)> ValFn; typedef std::function<double(const dVec&,int)> ExtraFn;
// stops after maxgen generations in total (over restarts) through the progress callback
inline Trace play(const Cfg &c,ValFn vals,ExtraFn extra,int maxgen,const CMASolutions *from=nullptr,std::function<dVec(const double*,int)> g=nullptr) {
  Trace t; Run r(c); r.values=[&](int gen,const dMat &m,const dMat &p) { auto v=vals(gen,m,p); t.script.push_back(v); return v; }; r.extra=extra; r.env.g=g;
  r.after_ask=[&](const dMat &m) { t.asked.push_back(m); };
  r.onprogress=[&](const CMASolutions &s,int l) { t.prog.push_back({view_of(s),l}); return (maxgen>=0 && r.gen+1>=maxgen)?1:0; };
  r.start(from); t.ret=r.s->optimize_custom(); t.fin=view_of(r.s->sols(),true); t.log=r.log; return t;
}
// objective families used as "scripts": the value of a candidate
enum { F_SPHERE=0,F_LINEAR,F_CONST,F_NOISE,F_ELLI,F_PLATEAU,F_NEG,F_WORSE,F_COUNT };
static const char *fam_names[F_COUNT]={"sphere","linear","const","noise","elli","plateau","negsphere","worse"};
inline double fam(int k,const dVec &x,int gen,int slot) { switch(k) {
  case F_SPHERE: return x.squaredNorm(); case F_LINEAR: return x[0]; case F_CONST: return 1.0;
  case F_NOISE: return (double)(vmc::mix(gen*131+7,slot+1)%1000003)/1000003.0; case F_ELLI: { double s=0; int n=x.size(); for (int i=0;i<n;i++) s+=std::pow(1e6,n>1?(double)i/(n-1):0.0)*x[i]*x[i]; return s; }
  case F_PLATEAU: return std::floor(x.norm()); case F_NEG: return -x.squaredNorm(); default: return gen*100.0+slot; } }
inline std::vector<double> famgen(int k,int gen,const dMat &p) { std::vector<double> v(p.cols()); for (int i=0;i<p.cols();i++) v[i]=fam(k,p.col(i),gen,i); return v; }
inline void same_state(const std::string &where,const View &a,const View &b,double vsign=1,bool values=true) {
  if (a.niter!=b.niter||a.fevals!=b.fevals) fail("counts",where+": iterations/evaluations "+std::to_string(a.niter)+"/"+std::to_string(a.fevals)+" vs "+std::to_string(b.niter)+"/"+std::to_string(b.fevals));
  if (!same(a.xmean,b.xmean)) fail("mean",where+": means differ: "+vs(a.xmean)+" vs "+vs(b.xmean));
  if (!samed(a.sigma,b.sigma)) fail("sigma",where+": step sizes differ: "+ds(a.sigma)+" vs "+ds(b.sigma));
  if (!samem(a.cov,b.cov)||!samem(a.sepcov,b.sepcov)) fail("cov",where+": covariances differ");
  if (a.full.size()&&b.full.size()&&!samem(a.full,b.full)) fail("cov",where+": covariances differ");
  if (a.cand.size()!=b.cand.size()) fail("cand",where+": population sizes differ"); 
  for (size_t i=0;i<a.cand.size();i++) { if (!same(a.cand[i].get_x_dvec(),b.cand[i].get_x_dvec())) fail("cand",where+": candidate "+std::to_string(i)+" differs"); if (values&&!samed(a.cand[i].get_fvalue(),vsign*b.cand[i].get_fvalue())) fail("value",where+": value of candidate "+std::to_string(i)+" differs"); }
  if (!same(a.best.get_x_dvec(),b.best.get_x_dvec())||!same(a.bseen.get_x_dvec(),b.bseen.get_x_dvec())||!same(a.wseen.get_x_dvec(),b.wseen.get_x_dvec())) fail("extremes",where+": best/best seen/worst seen points differ");
  if (values&&(!samed(a.best.get_fvalue(),vsign*b.best.get_fvalue())||!samed(a.bseen.get_fvalue(),vsign*b.bseen.get_fvalue())||!samed(a.wseen.get_fvalue(),vsign*b.wseen.get_fvalue()))) fail("extremes",where+": best/best seen/worst seen values differ");
  if (!samed(a.edm,b.edm)&&values) fail("edm",where+": distance estimates differ");
}
inline void same_trace(const Trace &a,const Trace &b,bool values=true,double vsign=1,bool calls=true) {
  size_t n=std::min(a.asked.size(),b.asked.size());
  for (size_t i=0;i<n;i++) if (!samem(a.asked[i],b.asked[i])) fail("sample","generation "+std::to_string(i)+": sampled candidates differ");
  size_t k=std::min(a.prog.size(),b.prog.size());
  for (size_t i=0;i<k;i++) { same_state("notification "+std::to_string(i),a.prog[i].v,b.prog[i].v,vsign,values); if (a.prog[i].lambda!=b.prog[i].lambda) fail("lambda","population size differs"); }
  if (a.asked.size()!=b.asked.size()||a.prog.size()!=b.prog.size()) fail("length","runs have different lengths: "+std::to_string(a.asked.size())+" vs "+std::to_string(b.asked.size())+" generations");
  if (a.fin.status!=b.fin.status||a.ret!=b.ret) fail("status","final status "+std::to_string(a.fin.status)+"/"+std::to_string(a.ret)+" vs "+std::to_string(b.fin.status)+"/"+std::to_string(b.ret));
  same_state("final",a.fin,b.fin,vsign,values);
  if (calls) { if (a.log.size()!=b.log.size()) fail("calls","numbers of objective calls differ"); for (size_t i=0;i<a.log.size();i++) if (!same(a.log[i].x,b.log[i].x)) fail("calls","objective call "+std::to_string(i)+" at different points: "+vs(a.log[i].x)+" vs "+vs(b.log[i].x)); }
}
inline void states_of(Chooser &ch,const Trace &t) { for (auto &s: t.prog) ch.state(s.v.hash()); ch.outcome(hash_calls(t.log)); }
}
