// Drives one real search generation by generation; the objective's answers are the environment's choices.
#pragma once
#include "cma.hpp"
namespace vm {
using vmc::Chooser; using vmc::fail;
struct Call { dVec x; double v; int gen; int slot; };
// environment values of one generation: a weak order over the candidates, placed below / level with / above everything seen
struct Levels {
  double lo=0,hi=0,base=0; bool any=false;
  std::vector<double> next(Chooser &ch,int lambda,int shifts,bool ties=true) {
    const std::vector<std::vector<int>> &W=ties?vmc::weak_orders(lambda):vmc::strict_orders(lambda);
    const std::vector<int> &w=W[ch.choose((int)W.size())]; int sh=any&&shifts>1?ch.choose(shifts):0;
    return place(w,sh);
  }
  std::vector<double> place(const std::vector<int> &w,int sh) {
    double b; int n=(int)w.size(); if (!any) b=0; else if (sh==0) b=lo-1; else if (sh==1) b=hi+1; else if (sh==2) b=lo-n; else b=base; // only the first level better / all worse / all better / level with the previous generation
    base=b; std::vector<double> v(n); for (int i=0;i<n;i++) { v[i]=b+w[i]; if (!any) { lo=hi=v[i]; any=true; } lo=std::min(lo,v[i]); hi=std::max(hi,v[i]); } return v; }
};
struct Run {
  Cfg c; Env env; std::unique_ptr<Search> s; std::vector<Call> log; long ncalls=0;
  dMat g,p; std::vector<double> vals; std::vector<char> hit; int gen=-1; bool ingen=false; int shapedim=0;
  std::function<std::vector<double>(int gen,const dMat &g,const dMat &p)> values;   // values of the candidates of a generation
  std::function<double(const dVec &x,int gen)> extra;                               // any other objective call
  std::function<void(const dVec &x,double v,int slot)> oncall;
  std::function<void()> after_eval,after_tell; std::function<void(const dMat&)> after_ask; std::function<int(const CMASolutions&,int)> onprogress;
  bool keep=true;
  Run(const Cfg &cc):c(cc) {
    env.f=[this](const double *x,int n) { return call(x,n); };
    env.asked=[this](const dMat &m) { asked(m); };
    env.evaluated=[this]() { ingen=false; if (after_eval) after_eval(); };
    env.told=[this]() { if (after_tell) after_tell(); };
    env.progress=[this](const CMASolutions &q,int l) { return onprogress?onprogress(q,l):0; };
  }
  void start(const CMASolutions *from=nullptr) { if (!env.g) env.g=[](const double *x,int n) { dVec g(n); for (int i=0;i<n;i++) g[i]=2*x[i]; return g; }; s=make_search(c,&env,from); }
  double call(const double *x,int n) {
    ncalls++; dVec v(n); for (int i=0;i<n;i++) v[i]=x[i];
    int slot=-1; double val;
    if (ingen) for (int r=0;r<p.cols();r++) if (!hit[r] && p.rows()==n && same(p.col(r),v)) { slot=r; hit[r]=1; break; }
    if (slot>=0) val=vals[slot]; else val=extra?extra(v,gen):0.0;
    if (keep) log.push_back({v,val,gen,slot});
    if (oncall) oncall(v,val,slot);
    return val;
  }
  void asked(const dMat &m) { gen++; g=m; p=s->phenoM(m); hit.assign(m.cols(),0); vals=values(gen,g,p); ingen=true; if (after_ask) after_ask(m); }
  // one manual generation
  void generation() { dMat m=s->ask(); asked(m); s->eval(g,p); env.evaluated(); s->tell(); env.told(); s->inc(); }
};
inline uint64_t hash_calls(const std::vector<Call> &l) { uint64_t h=l.size(); for (auto &c: l) { for (int i=0;i<c.x.size();i++) h=vmc::mix(h,vmc::dbits(c.x[i])); h=vmc::mix(h,vmc::dbits(c.v)); } return h; }
}
