// C18: every sequence of configuration calls, compared with the direct configuration of its final values; effects of single settings.
#include "cma.hpp"
#include "gp_impl.hpp"
#include <libcmaes/cmaes.h>
using namespace vm; using vmc::Chooser; using vmc::fail;
typedef GenoPheno<> G0; typedef GenoPheno<pwqBoundStrategy,linScalingStrategy> G3;
template<class GP> GP mkgp(int dim); template<> G0 mkgp<G0>(int) { return G0(); } template<> G3 mkgp<G3>(int dim) { std::vector<double> lo(dim,-3),hi(dim,4); return G3(&lo.front(),&hi.front(),dim); }
static const int DIM=6,LAM=6;
struct Final { std::vector<double> x0; uint64_t seed=5; int maxit=-1,maxfe=-1; double ftarget=-DINF,ftol=1e-12,xtol=1e-12; int hist=-1; bool maxim=false; int elit=0,algo=0,tpa=1; double dsig=-1; std::map<int,double> fixed; std::map<int,bool> crit; bool uh=false,lazy=false,initf=false,grad=false,edm=false,mt=false; int restarts=9; bool quiet=true; };
template<class GP> struct Op { std::string name; std::function<void(CMAParameters<GP>&)> real; std::function<void(Final&)> model; };
struct Out { std::vector<dVec> pts; std::vector<double> vals; View fin; int notes=0; std::vector<int> lam; };
static double obj(const double *x,int n) { double s=0; for (int i=0;i<n;i++) s+=(i+1)*(x[i]-0.1*i)*(x[i]-0.1*i); return s; }
template<class GP> Out run(CMAParameters<GP> &p,int cap) { Out o; FitFunc f=[&](const double *x,const int &n) { dVec v(n); for (int i=0;i<n;i++) v[i]=x[i]; o.pts.push_back(v); double r=obj(x,n); o.vals.push_back(r); return r; }; ProgressFunc<CMAParameters<GP>,CMASolutions> pf=[&](const CMAParameters<GP> &q,const CMASolutions&) { o.notes++; o.lam.push_back(q.lambda()); return o.notes>cap?1:0; }; o.fin=view_of(cmaes<GP>(f,p,pf),true); return o; }
template<class GP> CMAParameters<GP> direct(const Final &m) { CMAParameters<GP> p(m.x0,0.4,LAM,m.seed,mkgp<GP>(DIM)); if (m.algo) p.set_algo(m.algo); if (m.tpa!=1) p.set_tpa(m.tpa); if (m.dsig>0) p.set_tpa_dsigma(m.dsig); if (m.maxit!=-1) p.set_max_iter(m.maxit); if (m.maxfe!=-1) p.set_max_fevals(m.maxfe); if (m.ftarget!=-DINF) p.set_ftarget(m.ftarget); if (m.ftol!=1e-12) p.set_ftolerance(m.ftol); if (m.xtol!=1e-12) p.set_xtolerance(m.xtol); if (m.hist!=-1) p.set_max_hist(m.hist); if (m.maxim) p.set_maximize(true); if (m.elit) p.set_elitism(m.elit); for (auto &f: m.fixed) p.set_fixed_p(f.first,f.second); for (auto &c: m.crit) if (!c.second) p.set_stopping_criteria(c.first,false); if (m.uh) p.set_uh(true); if (m.lazy) p.set_lazy_update(true); if (m.initf) p.set_initial_fvalue(true); if (m.grad) p.set_gradient(true); if (m.edm) p.set_edm(true); if (m.mt) p.set_mt_feval(true); if (m.restarts!=9) p.set_restarts(m.restarts); return p; }
template<class GP> void getters(CMAParameters<GP> &p,const Final &m,const std::string &w) {
  auto chk=[&](const char *n,double a,double b) { if (!samed(a,b)) fail("getter",w+": "+n+" is "+ds(a)+", last value given is "+ds(b)); };
  chk("max_iter",p.get_max_iter(),m.maxit); chk("max_fevals",p.get_max_fevals(),m.maxfe); chk("ftarget",p.get_ftarget(),m.ftarget); chk("seed",p.get_seed(),m.seed); chk("ftolerance",p.get_ftolerance(),m.ftol); chk("xtolerance",p.get_xtolerance(),m.xtol); chk("maximize",p.get_maximize(),m.maxim); chk("algo",p.get_algo(),m.algo); chk("tpa",p.get_tpa(),m.tpa); chk("uh",p.get_uh(),m.uh); chk("lazy",p.get_lazy_update(),m.lazy); chk("gradient",p.get_gradient(),m.grad); chk("edm",p.get_edm(),m.edm); chk("mt",p.get_mt_feval(),m.mt); chk("restarts",p.get_restarts(),m.restarts); chk("lambda",p.lambda(),LAM); chk("dim",p.dim(),DIM); chk("sigma",p.get_sigma_init(),0.4); chk("quiet",p.quiet(),m.quiet);
  for (int i=0;i<DIM;i++) { chk("x0min",p.get_x0min()[i],m.x0[i]); chk("x0max",p.get_x0max()[i],m.x0[i]); } }
template<class GP> std::vector<Op<GP>> ops() { typedef CMAParameters<GP> P; std::vector<Op<GP>> o; auto add=[&](std::string n,std::function<void(P&)> r,std::function<void(Final&)> m) { o.push_back({n,r,m}); };
  add("x0(0.7)",[](P &p) { p.set_x0(0.7); },[](Final &m) { m.x0.assign(DIM,0.7); });
  add("x0(array)",[](P &p) { double x[DIM]; for (int i=0;i<DIM;i++) x[i]=-0.2*i; p.set_x0(x); },[](Final &m) { for (int i=0;i<DIM;i++) m.x0[i]=-0.2*i; });
  add("x0(dVec)",[](P &p) { dVec x(DIM); for (int i=0;i<DIM;i++) x[i]=1-0.1*i; p.set_x0(x); },[](Final &m) { for (int i=0;i<DIM;i++) m.x0[i]=1-0.1*i; });
  add("x0(0.2,0.2)",[](P &p) { p.set_x0(0.2,0.2); },[](Final &m) { m.x0.assign(DIM,0.2); });
  add("x0(vec,vec)",[](P &p) { std::vector<double> x(DIM); for (int i=0;i<DIM;i++) x[i]=0.05*i; p.set_x0(x,x); },[](Final &m) { for (int i=0;i<DIM;i++) m.x0[i]=0.05*i; });
  for (int k: {2,3}) add("max_iter "+std::to_string(k),[=](P &p) { p.set_max_iter(k); },[=](Final &m) { m.maxit=k; });
  for (int k: {7,20}) add("max_fevals "+std::to_string(k),[=](P &p) { p.set_max_fevals(k); },[=](Final &m) { m.maxfe=k; });
  for (double v: {4.0,0.5}) add("ftarget "+ds(v),[=](P &p) { p.set_ftarget(v); },[=](Final &m) { m.ftarget=v; });
  add("reset_ftarget",[](P &p) { p.reset_ftarget(); },[](Final &m) { m.ftarget=-DINF; });
  for (int k: {3,11}) add("seed "+std::to_string(k),[=](P &p) { p.set_seed(k); },[=](Final &m) { m.seed=k; });
  for (double v: {1e-12,1e6}) add("ftol "+ds(v),[=](P &p) { p.set_ftolerance(v); },[=](Final &m) { m.ftol=v; });
  for (double v: {1e-12,1e6}) add("xtol "+ds(v),[=](P &p) { p.set_xtolerance(v); },[=](Final &m) { m.xtol=v; });
  add("max_hist 2",[](P &p) { p.set_max_hist(2); },[](Final &m) { m.hist=2; });
  for (bool b: {true,false}) { std::string s=b?" on":" off"; add("maximize"+s,[=](P &p) { p.set_maximize(b); },[=](Final &m) { m.maxim=b; }); add("uh"+s,[=](P &p) { p.set_uh(b); },[=](Final &m) { m.uh=b; }); add("lazy"+s,[=](P &p) { p.set_lazy_update(b); },[=](Final &m) { m.lazy=b; }); add("initf"+s,[=](P &p) { p.set_initial_fvalue(b); },[=](Final &m) { m.initf=b; }); add("gradient"+s,[=](P &p) { p.set_gradient(b); },[=](Final &m) { m.grad=b; }); add("edm"+s,[=](P &p) { p.set_edm(b); },[=](Final &m) { m.edm=b; }); add("mt"+s,[=](P &p) { p.set_mt_feval(b); },[=](Final &m) { m.mt=b; });
    for (int c: {MAXITER,FTARGET,TOLX,MAXFEVALS}) add("crit "+std::to_string(c)+s,[=](P &p) { p.set_stopping_criteria(c,b); },[=](Final &m) { m.crit[c]=b; }); }
  for (int k: {0,1,2,3}) add("elitism "+std::to_string(k),[=](P &p) { p.set_elitism(k); },[=](Final &m) { m.elit=k; });
  for (int k: {0,1,3,6,9,12}) add("algo "+std::to_string(k),[=](P &p) { p.set_algo(k); },[=](Final &m) { m.algo=k; });
  for (int k: {0,2,4,7,11,13}) add(std::string("algo ")+algo_names[k],[=](P &p) { p.set_str_algo(algo_names[k]); },[=](Final &m) { m.algo=k; });
  add("algo unknown",[](P &p) { p.set_str_algo("sepvdnothing"); },[](Final&) {}); add("algo empty",[](P &p) { p.set_str_algo(""); },[](Final&) {});
  for (int k: {0,1,2}) add("tpa "+std::to_string(k),[=](P &p) { p.set_tpa(k); },[=](Final &m) { m.tpa=k; m.dsig=-1; });
  add("tpa_dsigma",[](P &p) { p.set_tpa_dsigma(1.7); },[](Final &m) { m.dsig=1.7; });
  add("fix 0=0.4",[](P &p) { p.set_fixed_p(0,0.4); },[](Final &m) { m.fixed[0]=0.4; }); add("fix 0=-0.7",[](P &p) { p.set_fixed_p(0,-0.7); },[](Final &m) { m.fixed[0]=-0.7; }); add("fix 3=0",[](P &p) { p.set_fixed_p(3,0); },[](Final &m) { m.fixed[3]=0; }); add("unfix 0",[](P &p) { p.unset_fixed_p(0); },[](Final &m) { m.fixed.erase(0); }); add("unfix 3",[](P &p) { p.unset_fixed_p(3); },[](Final &m) { m.fixed.erase(3); });
  for (int k: {1,2}) add("restarts "+std::to_string(k),[=](P &p) { p.set_restarts(k); },[=](Final &m) { m.restarts=k; });
  add("quiet off/on",[](P &p) { p.set_quiet(false); p.set_quiet(true); },[](Final &m) { m.quiet=true; });
  add("same gp",[](P &p) { p.set_gp(mkgp<GP>(DIM)); },[](Final&) {});
  add("run",[](P &p) { int r=p.get_restarts(); p.set_restarts(2); run<GP>(p,2); p.set_restarts(r); },[](Final&) {}); add("copy",[](P &p) { P q(p); p=q; },[](Final&) {});
  return o; }
static void compare(const Out &a,const Out &b,const std::string &w) {
  if (a.pts.size()!=b.pts.size()) fail("run",w+": "+std::to_string(a.pts.size())+" evaluations, direct configuration "+std::to_string(b.pts.size())); for (size_t i=0;i<a.pts.size();i++) if (!same(a.pts[i],b.pts[i])) fail("run",w+": evaluation "+std::to_string(i)+" at "+vs(a.pts[i])+", direct configuration at "+vs(b.pts[i]));
  if (a.notes!=b.notes||a.lam!=b.lam) fail("run",w+": different numbers of generations or population sizes"); if (a.fin.status!=b.fin.status) fail("run",w+": status "+std::to_string(a.fin.status)+", direct configuration "+std::to_string(b.fin.status)); if (!same(a.fin.xmean,b.fin.xmean)||!samed(a.fin.sigma,b.fin.sigma)||!samem(a.fin.full,b.fin.full)||!samed(a.fin.edm,b.fin.edm)||a.fin.fevals!=b.fin.fevals) fail("run",w+": final solutions differ"); }
template<class GP> void seqs(vmc::Main &m,const char *g,int depth,bool pre) { auto O=std::make_shared<std::vector<Op<GP>>>(ops<GP>()); int n=O->size();
  for (int first=0;first<n;first++) m.add(std::string(g)+" sequences of "+std::to_string(depth)+" starting with "+(*O)[first].name,[=](Chooser &ch) { Final f; for (int i=0;i<DIM;i++) f.x0.push_back(0.3+0.1*i); CMAParameters<GP> p(f.x0,0.4,LAM,f.seed,mkgp<GP>(DIM)); std::string w; uint64_t hs=0; for (int d=0;d<depth;d++) { int k=d==0?first:ch.choose(n); (*O)[k].real(p); (*O)[k].model(f); w+=(w.empty()?"":"; ")+(*O)[k].name; hs=vmc::mix(hs,k+1); ch.state(hs); }
    ch.checked(); getters(p,f,w); if (f.algo%3&&f.restarts==9) { f.restarts=2; p.set_restarts(2); } int cap=12; Out a=run(p,cap); CMAParameters<GP> q=direct<GP>(f); Out b=run(q,cap); compare(a,b,w); ch.outcome(vmc::mix(a.pts.size(),vmc::dbits(a.fin.sigma))); }); }
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C18"); bool T=m.thorough();
  seqs<G0>(m,"plain",3,false); seqs<G3>(m,"bounded+scaled",T?3:2,false);
  // names
  m.add("algorithm names",[](Chooser &ch) { int a=ch.choose(15),b=ch.choose(16),c=ch.choose(15); CMAParameters<> p(std::vector<double>(7,0.5),0.3,6,9); p.set_str_algo(algo_names[a]); if (b<15) p.set_str_algo(algo_names[b]); else p.set_str_algo("nosuchalgo"); int e=b<15?b:a; ch.checked(); auto chk=[&](int e) { if (p.get_algo()!=e) fail("name","algorithm code "+std::to_string(p.get_algo())+" after selecting "+algo_names[e]); if (p.is_sep()!=(e>=6&&e<=11)||p.is_vd()!=(e>=12)) fail("name",std::string("covariance mode does not match ")+algo_names[e]); }; chk(e); p.set_str_algo(algo_names[c]); chk(c); ch.state(a*300+b*16+c); ch.outcome(e);
    // the search run is the one of that algorithm
    CMAParameters<> q(std::vector<double>(7,0.5),0.3,6,9); q.set_algo(c); p.set_restarts(2); q.set_restarts(2); p.set_max_iter(3); q.set_max_iter(3); compare(run(p,8),run(q,8),algo_names[c]); });
  static const int codes[15]={CMAES_DEFAULT,IPOP_CMAES,BIPOP_CMAES,aCMAES,aIPOP_CMAES,aBIPOP_CMAES,sepCMAES,sepIPOP_CMAES,sepBIPOP_CMAES,sepaCMAES,sepaIPOP_CMAES,sepaBIPOP_CMAES,VD_CMAES,VD_IPOP_CMAES,VD_BIPOP_CMAES};
  // the algorithm behind each code: compared with the strategy built by hand
  for (int a=0;a<15;a++) m.add(std::string("algorithm ")+algo_names[a],[=](Chooser &ch) { bool byname=ch.choose(2); if (codes[a]!=a) fail("code","algorithm codes changed"); Cfg c; c.algo=a; c.dim=6; c.lambda=6; c.restarts=3; c.max_iter=4; c.seed=21; std::vector<dVec> X,Y; Env e; e.f=[&](const double *x,int n) { X.push_back(Eigen::Map<const dVec>(x,n)); return obj(x,n); }; auto s=make_search(c,&e); s->optimize(); Env e2; e2.f=[&](const double *x,int n) { Y.push_back(Eigen::Map<const dVec>(x,n)); return obj(x,n); }; Cfg d=c; d.byname=byname; CMASolutions r=onecall(d,&e2); ch.checked(); if (X.size()!=Y.size()) fail("algorithm","numbers of evaluations differ"); for (size_t i=0;i<X.size();i++) if (!same(X[i],Y[i])) fail("algorithm","evaluated points differ"); ch.state(a*2+byname); ch.outcome(X.size()); });
  // defaults
  m.add("defaults",[](Chooser &ch) { int dim=1+ch.choose(40); int l=(int[]){-1,0,1,2,3,17}[ch.choose(6)]; double sg=(double[]){-1,0,0.7}[ch.choose(3)]; CMAParameters<> p(std::vector<double>(dim,0.5),sg,l,4); ch.checked(); int want=l>=2?l:4+(int)std::floor(3*std::log((double)dim)); if (p.lambda()!=want) fail("default","population size "+std::to_string(p.lambda())+" in dimension "+std::to_string(dim)+", documented "+std::to_string(want));
    if (p.dim()!=dim||p.get_max_iter()!=-1||p.get_max_fevals()!=-1||p.get_ftarget()!=-DINF||p.get_ftolerance()!=1e-12||p.get_xtolerance()!=1e-12||p.get_algo()!=0||p.get_gradient()||p.get_edm()||p.get_mt_feval()||p.get_uh()||p.get_maximize()||p.get_lazy_update()||p.get_restarts()!=9||p.get_tpa()!=1||p.is_sep()||p.is_vd()||p.get_seed()!=4||!p.get_fplot().empty()||!p.quiet()) fail("default","a default setting is not the documented one");
    Env e; e.f=[](const double *x,int n) { return obj(x,n); }; FitFunc f=[](const double *x,const int &n) { return obj(x,n); }; CMASolutions s(p); if (s.sigma()!=(sg>0?sg:1.0/dim)) fail("default","initial step size "+ds(s.sigma())); if ((int)s.size()!=want) fail("default","population of the solution"); for (int i=0;i<dim;i++) if (s.xmean()[i]!=0.5) fail("default","initial mean is not x0"); if (s.niter()!=0||s.fevals()!=0) fail("default","counts of a fresh solution"); ch.state(dim*100+want); ch.outcome(want); });
  m.add("automatic seed",[](Chooser &ch) { CMAParameters<> p(std::vector<double>(2,0.5),0.5,4); ch.checked(); if (p.get_seed()==0) fail("default","no seed chosen"); ch.state(1); });
  // ranges of starting points
  m.add("x0 range",[](Chooser &ch) { int dim=1+ch.choose(4),how=ch.choose(5),rep=ch.choose(8); std::vector<double> x(dim,9.0); CMAParameters<> p(x,0.5,4,rep+1); std::vector<double> lo(dim),hi(dim); for (int i=0;i<dim;i++) { lo[i]=how<1?-2:-2-0.1*i; hi[i]=how<1?3:0.5+i; } dVec dl=Eigen::Map<dVec>(&lo[0],dim),dh=Eigen::Map<dVec>(&hi[0],dim); switch(how) { case 0: p.set_x0(-2.0,3.0); break; case 1: p.set_x0(&lo[0],&hi[0]); break; case 2: p.set_x0(lo,hi); break; case 3: p.set_x0(dl,dh); break; default: p.set_x0(7.0); p.set_x0(dl,dh); } ch.checked(); bool moved=false; for (int k=0;k<5;k++) { CMASolutions s(p); for (int i=0;i<dim;i++) { if (!(s.xmean()[i]>=lo[i]&&s.xmean()[i]<=hi[i])) fail("range","initial mean "+ds(s.xmean()[i])+" outside its range"); if (s.xmean()[i]!=lo[i]) moved=true; } } if (!moved) fail("range","initial mean is not sampled"); for (int i=0;i<dim;i++) if (p.get_x0min()[i]!=lo[i]||p.get_x0max()[i]!=hi[i]) fail("range","range getters"); ch.state(dim*40+how*8+rep); });
  // effects of single settings, seen from outside
  m.add("effects",[](Chooser &ch) { int which=ch.choose(12),k=1+ch.choose(4); int alg=(int[]){0,3,6,9,12}[ch.choose(5)]; bool before=ch.choose(2); CMAParameters<> p(std::vector<double>(DIM,0.5),0.3,LAM,9); if (before) p.set_algo(alg); switch(which) { case 0: p.set_max_iter(k); break; case 1: p.set_max_fevals(LAM*k-2); break; case 2: p.set_initial_fvalue(true); break; case 3: p.set_gradient(true); break; case 4: p.set_uh(true); break; case 5: p.set_maximize(true); break; case 6: p.set_edm(true); p.set_max_iter(k); break; case 7: p.set_fixed_p(k,0.25); break; case 8: p.set_elitism(1); break; case 9: p.set_xtolerance(1e9); break; case 10: p.set_ftarget(1e300); break; case 11: p.set_x0(-0.6); break; } if (!before) p.set_algo(alg);
    Out o=run(p,6); ch.checked(); int gens=o.notes-1,ev=o.pts.size(); auto exp=[&](const char *n,int a,int b) { if (a!=b) fail("effect",std::string(n)+": "+std::to_string(a)+" instead of "+std::to_string(b)); };
    switch(which) { case 0: exp("generations with max_iter",gens,k); exp("status",o.fin.status,MAXITER); break; case 1: exp("generations with max_fevals",gens,k); exp("status",o.fin.status,MAXFEVALS); break; case 2: exp("evaluations with initial value",ev,1+6*LAM); break; case 3: exp("evaluations with gradient",ev,6*(LAM+DIM+1)); break; case 4: exp("evaluations with uncertainty handling",ev,6*(LAM+2)); break; case 5: { double best=-1e300; for (double v: o.vals) best=std::max(best,v); if (o.fin.bseen.get_fvalue()!=-best) fail("effect","maximize does not keep the largest value"); break; } case 6: exp("evaluations with edm",ev,k*LAM+DIM+1); if (!(o.fin.edm>0)) fail("effect","no distance estimate"); break; case 7: for (auto &x: o.pts) if (x[k]!=0.25) fail("effect","fixed parameter moved"); break; case 8: exp("evaluations with elitism",ev,1+6*LAM); break; case 9: exp("generations with huge xtol",gens,1); exp("status",o.fin.status,TOLX); break; case 10: exp("generations with reached target",gens,1); exp("status",o.fin.status,FTARGET); break; case 11: { double s=0; for (int i=0;i<LAM;i++) s+=(o.pts[i]-dVec::Constant(DIM,-0.6)).norm(); if (s/LAM>0.3*std::sqrt((double)DIM)*2.5) fail("effect","first generation is not around x0"); break; } } if (which!=0&&which!=1&&which!=6&&which<9) exp("generations",gens,6); ch.state(which*1000+k*100+alg*2+before); ch.outcome(ev); });
  // vector of step sizes: scales every coordinate
  m.add("sigma vector",[](Chooser &ch) { int dim=2+ch.choose(3),k=ch.choose(4); bool b=ch.choose(2); std::vector<double> x(dim,0.5),s(dim),lo(dim,-100),hi(dim,100); for (int i=0;i<dim;i++) s[i]=(k==0?1.0:k==1?0.1*(i+1):k==2?5.0-i:std::pow(10.0,i-1)); ch.checked(); double mn=*std::min_element(s.begin(),s.end()); if (b) { CMAParameters<G3> p(x,s,8,lo,hi,3); if (p.get_sigma_init()!=mn) fail("sigma","initial step size is not the smallest"); dVec y(dim); for (int i=0;i<dim;i++) y[i]=0.1*i; dVec g=p.get_gp().geno(y); for (int i=0;i<dim;i++) if (!close(g[i]*s[i],y[i],1e-9,1e-9)&&!close(g[i]/s[i],y[i],1e-9,1e-9)) fail("sigma","transform does not scale by the step sizes: "+vs(g)); } else { CMAParameters<GenoPheno<NoBoundStrategy,linScalingStrategy>> p(x,s,8,lo,hi,3); if (p.get_sigma_init()!=mn) fail("sigma","initial step size is not the smallest"); } ch.state(dim*10+k*2+b); });
  return m.run();
}
