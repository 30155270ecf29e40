// C17: surrogate-assisted searches. The objective and the model are the environment: every answer is a choice; the harness keeps its own
// log of true evaluations and judges training sets, model uses, counts, ranking and the following mean from it.
#include "gp_impl.hpp"
#include "meta.hpp"
#include "ref.hpp"
#include <libcmaes/surrcmaes.h>
using namespace vm;
typedef std::function<int(const std::vector<Candidate>&,const dMat&)> TrainF; typedef std::function<int(std::vector<Candidate>&,const dMat&)> PredF;
struct SS { virtual ~SS() {}
  virtual dMat ask()=0; virtual void eval(const dMat&,const dMat&)=0; virtual void tell()=0; virtual void inc()=0; virtual bool stop()=0; virtual int optimize()=0; virtual int custom(std::function<void(const dMat&)>,std::function<void()>,std::function<void()>)=0;
  virtual CMASolutions& sols()=0; virtual dVec pheno(const dVec&)=0; virtual dMat phenoM(const dMat&)=0; virtual int lambda()=0;
  virtual void setup(int l,int nsteps,int nsteps2,bool exploit,int pl,int lp)=0; virtual void exploit(bool)=0; virtual void model(TrainF,PredF)=0; virtual std::vector<Candidate> tset()=0; virtual int nsteps()=0; virtual double terr()=0; virtual double trerr()=0; virtual int l()=0; };
template<class B> struct Open : B { Open(FitFunc &f,CMAParameters<typename std::decay<decltype(std::declval<B>().get_parameters().get_gp())>::type> &p):B(f,p) {} std::vector<Candidate> tset() const { return this->_tset; } };
template<class B,class GP,bool ACM> struct ST : SS {
  typedef ESOptimizer<Open<B>,CMAParameters<GP>,CMASolutions> Opt; CMAParameters<GP> par; FitFunc ff; std::unique_ptr<Opt> o; ProgressFunc<CMAParameters<GP>,CMASolutions> pf;
  ST(const Cfg &c,Env *e):par(make_params<GP>(c,false)),ff(make_fit<GP>(e)) { o.reset(new Opt(ff,par)); pf=[e](const CMAParameters<GP> &p,const CMASolutions &s) { return e->progress?e->progress(s,p.lambda()):0; }; o->set_progress_func(pf); }
  dMat ask() override { return o->ask(); } void eval(const dMat &a,const dMat &b) override { o->eval(a,b); } void tell() override { o->tell(); } void inc() override { o->inc_iter(); } bool stop() override { return o->stop(); } int optimize() override { B &b=*o; return b.optimize(); }
  int custom(std::function<void(const dMat&)> asked,std::function<void()> ev,std::function<void()> told) override { B &b=*o; EvalFunc ef=[&](const dMat &c,const dMat &p) { b.eval(c,p); ev(); }; AskFunc af=[&]() { dMat m=b.ask(); asked(m); return m; }; TellFunc tf=[&]() { b.tell(); told(); }; return opt3(b,ef,af,tf); }
  template<template<class U,class V> class S,class CU> static int opt3i(S<CU,GP> &s,EvalFunc &e,AskFunc &a,TellFunc &t) { return s.optimize(e,a,t); }
  static int opt3(B &b,EvalFunc &e,AskFunc &a,TellFunc &t) { return up(b,e,a,t); }
  static int up(B &b,EvalFunc &e,AskFunc &a,TellFunc &t) { typename B3<B>::type &s=b; return s.optimize(e,a,t); }
  template<class X> struct B3; template<template<class U,class V> class S,class CU> struct B3<SimpleSurrogateStrategy<S,CU,GP>> { typedef S<CU,GP> type; }; template<template<class U,class V> class S,class CU> struct B3<ACMSurrogateStrategy<S,CU,GP>> { typedef S<CU,GP> type; };
  CMASolutions& sols() override { return o->get_solutions(); } dVec pheno(const dVec &v) override { return o->get_parameters().get_gp().pheno(v); } dMat phenoM(const dMat &v) override { return o->get_parameters().get_gp().pheno(v); } int lambda() override { return o->get_parameters().lambda(); }
  void setup(int l,int ns,int ns2,bool ex,int pl,int lp) override { o->set_l(l); o->set_nsteps(ns); if (ns2) o->set_nsteps(ns2); o->set_exploit(ex); if constexpr(ACM) { if (pl) o->set_prelambda(pl); if (lp) o->set_lambdaprime(lp); } }
  void exploit(bool b) override { o->set_exploit(b); } void model(TrainF t,PredF p) override { o->set_ftrain(t); o->set_fpredict(p); } std::vector<Candidate> tset() override { return o->tset(); } int nsteps() override { return o->get_nsteps(); } double terr() override { return o->get_test_error(); } double trerr() override { return o->get_train_error(); } int l() override { return o->get_l(); }
};
template<template<template<class U,class V> class S,class CU,class GP> class K,class GP,bool ACM,class CU> static SS* mk2(const Cfg &c,Env *e) { switch(c.strat()) { case 0: return new ST<K<CMAStrategy,CU,GP>,GP,ACM>(c,e); case 1: return new ST<K<IPOPCMAStrategy,CU,GP>,GP,ACM>(c,e); default: return new ST<K<BIPOPCMAStrategy,CU,GP>,GP,ACM>(c,e); } }
template<template<template<class U,class V> class S,class CU,class GP> class K,class GP,bool ACM> static SS* mk1(const Cfg &c,Env *e) { if (c.is_vd()) return mk2<K,GP,ACM,VDCMAUpdate>(c,e); if (c.is_active()) return mk2<K,GP,ACM,ACovarianceUpdate>(c,e); return mk2<K,GP,ACM,CovarianceUpdate>(c,e); }
template<template<template<class U,class V> class S,class CU,class GP> class K,bool ACM> static SS* mk(const Cfg &c,Env *e) { switch(c.gptype()) { case 0: return mk1<K,GenoPheno<NoBoundStrategy>,ACM>(c,e); case 1: return mk1<K,GenoPheno<pwqBoundStrategy>,ACM>(c,e); case 2: return mk1<K,GenoPheno<NoBoundStrategy,linScalingStrategy>,ACM>(c,e); default: return mk1<K,GenoPheno<pwqBoundStrategy,linScalingStrategy>,ACM>(c,e); } }
struct K17 { bool acm=false; int l=3,ns=1,ns2=0; bool exploit=true; int pl=0,lp=0; int flip=-1; /* generation at which exploitation is switched */ std::string str() const { std::ostringstream o; o<<(acm?"acm":"simple")<<" l="<<l<<" nsteps="<<ns; if (ns2) o<<"->"<<ns2; o<<(exploit?"":" noexploit"); if (acm) o<<" pre="<<pl<<" lp="<<lp; if (flip>=0) o<<" flip@"<<flip; return o.str(); } };
static double model(int pol,const dVec &x) { switch(pol) { case 0: return x.squaredNorm(); case 1: return -x.squaredNorm(); case 2: return 1.0; default: { uint64_t h=7; for (int i=0;i<x.size();i++) h=vmc::mix(h,vmc::dbits(x[i])); return (double)(h%100003)/100003.0-0.5; } } }
struct Ev { dVec g,p; double v; int gen; };
struct World {
  Chooser &ch; Cfg c; K17 k; Env env; std::unique_ptr<SS> s; std::vector<Ev> ev; size_t runfrom=0; int gen=-1; long ncalls=0,runcalls=0; dMat pop,ph; std::vector<double> vals; bool real=true; size_t atstart=0; bool trained=false; size_t trainedat=0; int pol=0,ntrain=0; bool first=true; int npred=0; int polgen=0; bool inexpl=false; bool restarted=false; bool ext=false; std::string bad,badm; std::vector<dVec> calls;
  std::function<std::vector<double>(const dMat&,const dMat&)> realvals; std::function<double(const dVec&,int)> explval; std::function<int()> polpick; double sign;
  std::vector<Candidate> before; 
  void flag(const char *key,const std::string &m) { if (bad.empty()) { bad=key; badm="generation "+std::to_string(gen)+": "+m; } }
  World(Chooser &h,const Cfg &cc,const K17 &kk):ch(h),c(cc),k(kk),sign(cc.maximize?-1:1) {
    env.f=[this](const double *x,int n) { dVec p(n); for (int i=0;i<n;i++) p[i]=x[i]; ncalls++; runcalls++; calls.push_back(p); int b=-1; double bd=1e300; for (int i=0;i<ph.cols();i++) { double d=(ph.col(i)-p).cwiseAbs().maxCoeff(); if (d<bd) { bd=d; b=i; } }
      if (b<0||!(bd<=1e-9*(1+p.cwiseAbs().maxCoeff()))) { flag("foreign","the objective is called at "+vs(p)+", no point of the population"); return 0.0; }
      double v=real?vals[b]:explval(p,b); ev.push_back({pop.col(b),p,sign*v,gen}); return v; };
    s.reset(k.acm?mk<ACMSurrogateStrategy,true>(c,&env):mk<SimpleSurrogateStrategy,false>(c,&env)); s->setup(k.l,k.ns,k.ns2,k.exploit,k.pl,k.lp);
    s->model([this](const std::vector<Candidate> &t,const dMat &cov) { ntrain++; ch.checked(); set_ok(t,"training"); if ((int)t.size()!=k.l) flag("size","trained on "+std::to_string(t.size())+" points, configured size "+std::to_string(k.l)); shape(cov); trained=true; trainedat=ev.size(); if (polpick) pol=polpick(); return 0; },
             [this](std::vector<Candidate> &t,const dMat &cov) { npred++; ch.checked(); if (!trained) flag("untrained","the model is asked for predictions before it was trained"+std::string(k.acm&&restarted?" in this run":"")); else if (trainedat!=atstart && ev.size()==atstart) flag("stale","the model was trained before the latest true evaluations ("+std::to_string(trainedat)+" of "+std::to_string(atstart)+")"); shape(cov); if (t.empty()) flag("empty","prediction for no candidate"); for (auto &q: t) q.set_fvalue(model(pol,q.get_x_dvec())); return 0; });
  }
  void shape(const dMat &m) { int n=c.dim; bool d=c.is_sep()||c.is_vd(); if (m.rows()!=n||m.cols()!=(d?1:n)) flag("shape","the model receives a "+std::to_string(m.rows())+"x"+std::to_string(m.cols())+" scaling matrix"); }
  // the set must be the most recent true evaluations: all of the later generations, the rest from the generation at the border
  void set_ok(const std::vector<Candidate> &t,const char *w) {
    size_t from=k.acm?runfrom:0; size_t have=ev.size()-from, want=std::min<size_t>(k.l,have); if (t.size()!=want) { flag("size",std::string(w)+" set holds "+std::to_string(t.size())+" points, "+std::to_string(have)+" true evaluations were made, configured size "+std::to_string(k.l)); return; }
    std::vector<int> used(ev.size(),0); int border=want?ev[ev.size()-want].gen:0; 
    for (auto &q: t) { bool ok=false; for (size_t i=from;i<ev.size()&&!ok;i++) if (!used[i]&&ev[i].gen>=border&&same(ev[i].g,q.get_x_dvec())&&samed(ev[i].v,q.get_fvalue())) { used[i]=1; ok=true; } if (!ok) { flag("foreign",std::string(w)+" set holds point "+vs(q.get_x_dvec())+" value "+ds(q.get_fvalue())+", not among the most recent true evaluations"); return; } }
    for (size_t i=from;i<ev.size();i++) if (ev[i].gen>border&&!used[i]) { flag("missing",std::string(w)+" set misses a recent true evaluation"); return; }
  }
  void asked(const dMat &m) { gen++; restarted=false; if (s->sols().niter()==0&&gen>0) { restarted=true; if (k.acm) { runfrom=ev.size(); trained=false; ext=true; } runcalls=0; } 
    pop=m; ph=s->phenoM(m); size_t have=ev.size()-(k.acm?runfrom:0); bool full=(int)have>=k.l; int l=s->lambda(); ch.checked();
    bool ex=k.exploit; int it=s->sols().niter();
    if (k.acm) real=!(ex&&full); else real=!ex||!full||it%s->nsteps()==0;
    atstart=ev.size(); npred=0; int want=k.acm&&!real?(ext?50*l:k.pl):l; if (pop.cols()!=want) flag("population",std::to_string(pop.cols())+" candidates sampled, expected "+std::to_string(want));
    if (real) { dMat q=pop.leftCols(std::min<int>(l,pop.cols())); vals=realvals(q,ph); } polgen=pol; before.clear(); calls.clear(); }
  void evaluated() { ch.checked(); int l=s->lambda(); size_t made=ev.size()-atstart; auto cs=view_of(s->sols()).cand; if (!bad.empty()) fail(bad,badm);
    size_t want=real?l:(k.acm?std::max(1,k.lp):0); if (made!=want) fail("calls","generation "+std::to_string(gen)+": "+std::to_string(made)+" true evaluations, expected "+std::to_string(want));
    if ((int)cs.size()!=l) fail("population","generation "+std::to_string(gen)+": "+std::to_string(cs.size())+" candidates kept, population size "+std::to_string(l));
    for (size_t i=atstart;i<ev.size();i++) for (size_t j=atstart;j<i;j++) if (same(ev[i].g,ev[j].g)) fail("twice","generation "+std::to_string(gen)+": one candidate is truly evaluated twice");
    std::vector<int> seen(pop.cols(),0); for (auto &q: cs) { int b=-1; for (int i=0;i<pop.cols()&&b<0;i++) if (!seen[i]&&same(pop.col(i),q.get_x_dvec())) b=i; if (b<0) fail("foreign","generation "+std::to_string(gen)+": a candidate is no (distinct) point of the population"); seen[b]=1; }
    if (!real&&npred==0) fail("model","generation "+std::to_string(gen)+": the model was not used");
    if (!real&&k.acm) { // the model's best is among the true evaluations
      double m=1e300; for (int i=0;i<pop.cols();i++) m=std::min(m,model(polgen,pop.col(i))); bool ok=false; for (size_t i=atstart;i<ev.size();i++) if (model(polgen,ev[i].g)==m) ok=true; if (!ok) fail("best","generation "+std::to_string(gen)+": the model's best candidate is not truly evaluated"); }
    set_ok(s->tset(),"training"); if (!bad.empty()) fail(bad,badm);
    if (!real&&k.acm) { int n=0,e=0; std::vector<std::pair<double,double>> q; bool tie=false; for (size_t i=atstart;i<ev.size();i++) q.push_back({ev[i].v,model(polgen,ev[i].g)}); for (size_t i=0;i<q.size();i++) for (size_t j=0;j<i;j++) { if (q[i].first==q[j].first) tie=true; n++; bool lt=q[i].first<q[j].first; double a=lt?q[i].second:q[j].second,b=lt?q[j].second:q[i].second; if (b<a) e++; } if (!tie) { double w=n?(double)e/n:0; if (!close(s->terr(),w,1e-12)) fail("error","generation "+std::to_string(gen)+": model error "+ds(s->terr())+" reported, "+ds(w)+" of the pairs are misranked"); } }
    if (!(s->terr()>=0&&s->terr()<=1)) fail("error","generation "+std::to_string(gen)+": model error "+ds(s->terr()));
    if (!k.acm) { int ns=s->nsteps(); bool fixed=(k.ns2?k.ns2:k.ns)>0; if (fixed?ns!=(k.ns2?k.ns2:k.ns):(ns!=-1&&(ns<2||ns>21))) fail("lifelength","generation "+std::to_string(gen)+": lifelength "+std::to_string(ns)); }
  }
  void told() { ch.checked(); if (!bad.empty()) fail(bad,badm); int l=s->lambda(); View v=view_of(s->sols()); std::vector<dVec> X; for (auto &q: v.cand) X.push_back(q.get_x_dvec()); if ((int)X.size()!=l) fail("population","population of "+std::to_string(X.size()));
    auto tv=[&](const dVec &x,double &o) { for (size_t i=atstart;i<ev.size();i++) if (same(ev[i].g,x)) { o=ev[i].v; return true; } return false; };
    double pv=0,pm=0; bool pt=false; for (int i=0;i<l;i++) { double a; bool t=tv(X[i],a); double mm=model(polgen,X[i]); if (!real&&!k.acm) { a=mm; t=true; }
      if (t&&!samed(v.cand[i].get_fvalue(),a)) fail("value","generation "+std::to_string(gen)+": candidate "+std::to_string(i)+" has value "+ds(v.cand[i].get_fvalue())+", "+(real||k.acm?"true value ":"model value ")+ds(a));
      if (i) { if (t&&!pt) fail("rank","generation "+std::to_string(gen)+": a truly evaluated candidate is ranked behind one that is not"); if (t&&pt&&a<pv) fail("rank","generation "+std::to_string(gen)+": candidates not ranked by value"); if (!t&&!pt&&mm<pm) fail("rank","generation "+std::to_string(gen)+": candidates that were not evaluated are not ranked by the model"); }
      if (real&&!t) fail("unevaluated","generation "+std::to_string(gen)+": a candidate was not evaluated"); pv=a; pm=mm; pt=t; }
    Consts kc=consts_of(c,l); dVec m=dVec::Zero(c.dim); for (int i=0;i<kc.mu;i++) m+=kc.w[i]*X[i]; for (int i=0;i<c.dim;i++) if (!close(m[i],v.xmean[i],1e-9,1e-9)) fail("mean","generation "+std::to_string(gen)+": the new mean "+vs(v.xmean)+" is not the weighted mean of the ranked candidates "+vs(m));
    if (v.fevals!=runcalls) fail("fevals","generation "+std::to_string(gen)+": "+std::to_string(v.fevals)+" evaluations reported, "+std::to_string(runcalls)+" made");
    size_t have=ev.size()-(k.acm?runfrom:0); if ((int)have>=k.l && real && !(trained&&trainedat==ev.size())) fail("stale","generation "+std::to_string(gen)+": the model was not trained on the evaluations of this generation");
    if (!(s->trerr()>=0&&s->trerr()<=1)) fail("error","training error "+ds(s->trerr()));
    ch.state(vmc::mix(v.hash(),vmc::mix(ev.size(),pol))); }
  void generation() { dMat m=s->ask(); asked(m); s->eval(m,ph); evaluated(); s->tell(); told(); s->inc(); }
};
static Cfg base(int a,int opt) { Cfg c; c.algo=a; c.dim=c.is_vd()?6:2; c.lambda=3; c.alloff=true; switch(opt) { case 1: c.gp=GP_PWQ; break; case 2: c.gp=GP_PWQLIN; c.maximize=true; break; case 3: c.gp=GP_LINVEC; c.lambda=4; break; case 4: c.lambda=4; c.maximize=true; break; case 5: c.lazy=true; c.gp=GP_CUSTOM; break; case 6: c.fixed={{1,0.4}}; break; } return c; }
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C17"); bool T=m.thorough(); std::vector<Cfg> cs; for (int a: {0,3,6,9,12}) for (int o=0;o<7;o++) { Cfg c=base(a,o); if (c.is_vd()&&o==6) continue; cs.push_back(c); }
  for (size_t ci=0;ci<cs.size();ci++) { Cfg c=cs[ci]; int L=c.lambda; std::vector<K17> ks;
    auto simple=[&](int l,int ns,int ns2,bool ex,int flip) { K17 k; k.l=l; k.ns=ns; k.ns2=ns2; k.exploit=ex; k.flip=flip; ks.push_back(k); };
    simple(1,1,0,true,-1); simple(L,2,0,true,-1); simple(L+1,3,0,true,-1); simple(2*L-1,2,0,true,-1); simple(L,-1,0,true,-1); simple(2*L,-1,2,true,-1); simple(L,2,0,false,-1); simple(L,3,0,false,2); simple(L,2,0,true,2); simple(100,2,0,true,-1);
    auto acm=[&](int l,int pl,int lp,bool ex,int flip) { K17 k; k.acm=true; k.l=l; k.pl=pl; k.lp=lp; k.exploit=ex; k.flip=flip; ks.push_back(k); };
    acm(1,2*L,1,true,-1); acm(L,2*L,2,true,-1); acm(L+1,3*L,1,true,-1); acm(2*L,2*L+1,L,true,-1); acm(L,2*L,2,false,-1); acm(L,3*L,1,false,2); acm(2,2*L,1,true,2); acm(100,2*L,1,true,-1);
    for (auto &k: ks) m.add(c.str()+" "+k.str(),[=](Chooser &ch) {
      World w(ch,c,k); int G=T?6:5; int rg=0,eg=0; double up=0,dn=0;
      w.realvals=[&](const dMat &q,const dMat&) { int n=q.cols(); std::vector<double> v(n); if (rg<(T?3:2)||rg==3) { auto &os=n==3?vmc::weak_orders(3):vmc::strict_orders(n); auto &o=os[T?ch.choose((int)os.size()):ch.choose(rg==0?3:(n==3?6:5))*(n==3&&rg?2:3)]; for (int i=0;i<n;i++) v[i]=o[i]+0.01*rg; } else for (int i=0;i<n;i++) v[i]=(i*2+1)%n-0.5*rg; rg++; return v; };
      w.explval=[&](const dVec&,int col) { int d=eg<3?ch.choose(3):0; eg++; return d==0?0.5+0.001*col:d==1?-1-(++dn):10+(++up); };
      w.polpick=[&]() { return w.ntrain<=(T?3:2)?ch.choose(4):w.pol; };
      for (int g=0;g<G;g++) { if (g==k.flip) { w.k.exploit=!k.exploit; w.s->exploit(!k.exploit); } w.generation(); }
      uint64_t h=3; for (auto &e: w.ev) h=vmc::mix(h,vmc::mix(e.gen,vmc::dbits(e.v)^vmc::dbits(e.p[0]))); ch.outcome(h); }); }
  // restarts: segments of objective families, every run's notification checked, and the library's own loop compared with the observed steps
  for (int a=0;a<15;a++) for (int kind=0;kind<4;kind++) for (int o: {0,2}) { Cfg c=base(a,o); c.alloff=false; c.lambda=4; c.restarts=3; c.max_fevals=c.strat()?(kind<2?160:60):60; c.max_iter=kind<2?12:8; K17 k; k.acm=kind>=2; k.l=kind%2?7:4; k.ns=kind==0?2:-1; k.pl=12; k.lp=kind==2?1:2;
    m.add("restarts "+c.str()+" "+k.str(),[=](Chooser &ch) { int F[]={F_SPHERE,F_NOISE,F_CONST}; int P[]={0,1,3}; std::vector<int> seg; int mp=P[ch.choose(3)]; std::vector<dVec> calls[2]; View fin[2]; std::vector<double> script; int nseg=T?3:2;
      for (int way=0;way<2;way++) { World w(ch,c,k); int n=0; auto fv=[&](const dVec &p,int col) { int si=std::min(w.gen/6,nseg-1); while((int)seg.size()<=si) seg.push_back(F[ch.choose(3)]); return w.sign*fam(seg[si],p,w.gen,col); };
        w.realvals=[&](const dMat &q,const dMat &p) { std::vector<double> v(q.cols()); for (int i=0;i<q.cols();i++) v[i]=fv(p.col(i),i); return v; }; w.explval=[&](const dVec &p,int col) { return fv(p,col); }; w.polpick=[&]() { return mp; };
        if (way==0) { w.env.progress=[&](const CMASolutions &s,int) { ch.checked(); if (s.fevals()!=w.runcalls&&s.niter()>0) fail("fevals","notification reports "+std::to_string(s.fevals())+" evaluations, "+std::to_string(w.runcalls)+" made"); n++; return n>90?1:0; };
          w.s->custom([&](const dMat &g) { w.asked(g); },[&]() { w.evaluated(); for (auto &q: w.calls) calls[0].push_back(q); for (size_t i=w.atstart;i<w.ev.size();i++) script.push_back(w.sign*w.ev[i].v); },[&]() { w.told(); }); fin[0]=view_of(w.s->sols()); }
        else { size_t pos=0; Env e2; std::unique_ptr<SS> s2; e2.f=[&](const double *x,int n) { if (pos>=script.size()) fail("own loop","the library's own loop makes more than the "+std::to_string(script.size())+" calls of the same steps"); dVec p(n); for (int i=0;i<n;i++) p[i]=x[i]; if (!same(p,calls[0][pos])) fail("own loop","call "+std::to_string(pos)+" of the library's own loop is at "+vs(p)+", with the same steps "+vs(calls[0][pos])); return script[pos++]; };
          int k2=0; e2.progress=[&](const CMASolutions &,int) { k2++; return k2>90?1:0; }; s2.reset(k.acm?mk<ACMSurrogateStrategy,true>(c,&e2):mk<SimpleSurrogateStrategy,false>(c,&e2)); s2->setup(k.l,k.ns,k.ns2,k.exploit,k.pl,k.lp); s2->model([](const std::vector<Candidate>&,const dMat&) { return 0; },[&](std::vector<Candidate> &t,const dMat&) { for (auto &q: t) q.set_fvalue(model(mp,q.get_x_dvec())); return 0; });
          s2->optimize(); fin[1]=view_of(s2->sols()); ch.checked(); if (pos!=script.size()) fail("own loop","the library's own loop makes "+std::to_string(pos)+" calls, the same steps "+std::to_string(script.size())); same_state("own loop",fin[0],fin[1]); if (fin[0].status!=fin[1].status) fail("own loop","final status differs"); } }
      ch.outcome(vmc::mix(fin[0].fevals,fin[0].hash())); }); }
  // the built-in ranking model through the one-call entry point: counts, and the same run twice
  for (int a=0;a<15;a++) for (int f=0;f<2;f++) m.add("surrcmaes "+std::string(algo_names[a])+(f?" sphere":" noise"),[=](Chooser &ch) { Cfg c; c.algo=a; c.dim=2; if (c.is_vd()) c.dim=6; c.lambda=12; c.seed=5+f; c.alloff=true; c.on={MAXITER,MAXFEVALS}; c.max_iter=c.is_vd()?10:7; c.max_fevals=c.strat()?140:-1; c.restarts=2; std::vector<dVec> pts[2]; View v[2]; 
    for (int k=0;k<2;k++) { Env e; e.f=[&](const double *x,int n) { dVec p(n); for (int i=0;i<n;i++) p[i]=x[i]; pts[k].push_back(p); return f?p.squaredNorm():fam(F_NOISE,p,pts[k].size(),0); }; CMAParameters<> p=make_params<GenoPheno<NoBoundStrategy>>(c,true); FitFunc ff=make_fit<GenoPheno<NoBoundStrategy>>(&e); CMASolutions s=surrcmaes<GenoPheno<NoBoundStrategy>>(ff,p); v[k]=view_of(s); }
    ch.checked(); if (!c.strat()&&(int)pts[0].size()!=v[0].fevals) fail("fevals","surrcmaes reports "+std::to_string(v[0].fevals)+" evaluations, made "+std::to_string(pts[0].size())); if (pts[0].size()!=pts[1].size()) fail("repeat","the same run twice makes different numbers of calls"); for (size_t i=0;i<pts[0].size();i++) if (!same(pts[0][i],pts[1][i])) fail("repeat","the same run twice differs at call "+std::to_string(i)); same_state("twice",v[0],v[1]); for (auto &q: v[0].cand) if (!q.get_x_dvec().allFinite()) fail("finite","candidate not finite"); int full=(int)std::floor(30*std::sqrt((double)c.dim)),g=(full+c.lambda-1)/c.lambda,rest=std::max(0,(int)v[0].niter-g); if (!c.strat()&&v[0].fevals!=std::min<int>(v[0].niter,g)*c.lambda+rest*(c.lambda/3)) fail("calls","surrcmaes: "+std::to_string(v[0].niter)+" generations made "+std::to_string(v[0].fevals)+" true evaluations"); ch.state(v[0].hash()); ch.outcome(v[0].hash()); });
  return m.run();
}
