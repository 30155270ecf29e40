// C24: the Python binding. The interpreter is embedded: the module of /repo/python/lcmaes.cc and the library are linked into this program, so one
// exploration drives the binding and the C++ reference with the same inputs and the same answers and compares every call, result and getter.
#include "gp_impl.hpp"
#include "meta.hpp"
#include <libcmaes/surrogatestrategy.h>
#include <boost/python.hpp>
#include <numpy/ndarrayobject.h>
#include <sys/stat.h>
#include <dirent.h>
#include <omp.h>
using namespace vm; namespace bp=boost::python;
extern "C" PyObject *PyInit_lcmaes();
static bp::object *G=nullptr; static std::function<double(const dVec&)> *handler=nullptr; static std::function<void(std::vector<Candidate>&,const dMat&,bool)> *shandler=nullptr;
static dVec vec_of(const bp::object &l) { int n=bp::len(l); dVec v(n); for (int i=0;i<n;i++) v[i]=bp::extract<double>(l[i]); return v; }
static bp::list list_of(const std::vector<double> &v) { bp::list l; for (double d: v) l.append(d); return l; }
static bp::list list_of(const dVec &v) { bp::list l; for (int i=0;i<v.size();i++) l.append(v[i]); return l; }
// the objective seen by Python: x is a list, n its length
static bp::object cb(bp::list x,int n) { if (bp::len(x)!=n) fail("objective","called with a list of "+std::to_string(bp::len(x))+" and n="+std::to_string(n)); return bp::object((*handler)(vec_of(x))); }
static dMat mat_of(const bp::object &a) { int r=bp::extract<int>(a.attr("shape")[0]),c=bp::extract<int>(a.attr("ndim"))==2?(int)bp::extract<int>(a.attr("shape")[1]):1; bp::object f=a.attr("reshape")(-1).attr("tolist")(); dMat m(r,c); for (int i=0;i<r;i++) for (int j=0;j<c;j++) m(i,j)=bp::extract<double>(f[i*c+j]); return m; }
static int scb(bp::list cand,bp::object m,bool train) { std::vector<Candidate> v; for (int i=0;i<bp::len(cand);i++) v.push_back(bp::extract<Candidate>(cand[i])); (*shandler)(v,mat_of(m),train); if (!train) for (int i=0;i<bp::len(cand);i++) cand[i].attr("set_fvalue")(v[i].get_fvalue()); return 0; }
static int scbt(bp::list c,bp::object m) { return scb(c,m,true); }
static int scbp(bp::list c,bp::object m) { return scb(c,m,false); }
static void py_init() { if (G) return; PyImport_AppendInittab("lcmaes",PyInit_lcmaes); Py_InitializeEx(0);
  G=new bp::object(bp::import("__main__").attr("__dict__")); (*G)["cb"]=bp::make_function(cb); (*G)["scbt"]=bp::make_function(scbt); (*G)["scbp"]=bp::make_function(scbp); (*G)["pydir"]=std::string(VERIF_REPO_DIR)+"/python";
  bp::exec(R"(
import sys,types,math
class Boom(Exception): pass
import lcmaes
for n in ('pylab','matplotlib','matplotlib.pylab'):
    m=types.ModuleType(n); sys.modules[n]=m
    for a in ('subplot','semilogy','grid','title'): setattr(m,a,None)
sys.dont_write_bytecode=True
sys.path.insert(0,pydir)
import lcmaes_interface as lci
def gp(kind,a,b):
    n=len(a)
    return (lcmaes.make_genopheno,lcmaes.make_genopheno_pwqb,None,lcmaes.make_genopheno_pwqb_ls)[kind](a,b,n) if kind!=2 else lcmaes.make_genopheno_ls(a,b)
def params(kind,simple,x0,sigma,g,lam,seed):
    if simple: return lcmaes.make_simple_parameters(x0,sigma,lam,seed)
    return (lcmaes.make_parameters,lcmaes.make_parameters_pwqb,lcmaes.make_parameters_ls,lcmaes.make_parameters_pwqb_ls)[kind](x0,sigma,g,lam,seed)
run=(lcmaes.pcmaes,lcmaes.pcmaes_pwqb,lcmaes.pcmaes_ls,lcmaes.pcmaes_pwqb_ls)
srun=(lcmaes.surrpcmaes,lcmaes.surrpcmaes_pwqb,lcmaes.surrpcmaes_ls,lcmaes.surrpcmaes_pwqb_ls)
def fit(f): return lcmaes.fitfunc_pbf.from_callable(f)
def look(s):
    b=s.best_candidate()
    r=dict(size=s.size(),edm=s.edm(),sigma=s.sigma(),fevals=s.fevals(),mineig=s.min_eigenv(),maxeig=s.max_eigenv(),status=s.run_status(),msg=s.run_status_msg(),niter=s.niter(),xmean=lcmaes.get_solution_xmean(s),bf=b.get_fvalue(),bx=lcmaes.get_candidate_x(b),eig=list(s.eigenvalues()),t=s.elapsed_time(),tl=s.elapsed_last_iter())
    return r
def raiser(k,what):
    n=[0]
    def f(x,m):
        n[0]+=1
        v=cb(x,m)
        if n[0]==k:
            if what==0: raise Boom("boom %d"%k)
            if what==1: return None
            if what==2: return "text"
            raise KeyboardInterrupt()
        return v
    return f
def try_run(kind,f,p):
    try: run[kind](f,p)
    except BaseException as e: return type(e).__name__+":"+str(e)[:40]
    return "none"
def keep(kind,f,p,which):
    a=which(run[kind](f,p))   # the solution itself is dropped
    junk=[bytearray(64*1024) for _ in range(50)]; del junk
    return a
)",*G,*G); }
template<class F> static auto guarded(F f) -> decltype(f()) { try { return f(); } catch (bp::error_already_set&) { PyObject *t,*v,*b; PyErr_Fetch(&t,&v,&b); PyErr_NormalizeException(&t,&v,&b); std::string m="?"; if (v) { PyObject *s=PyObject_Str(v); if (s) { m=PyUnicode_AsUTF8(s); Py_DECREF(s); } } fail("exception","Python raised "+std::string(t?((PyTypeObject*)t)->tp_name:"?")+": "+m.substr(0,200)); } throw 1; }
static bp::object py(const char *n) { return (*G)[n]; }
// --- settings: applied in the same order on both sides, with the exposed getters
struct Setting { const char *name; int arity; double v; double v2; };
static const Setting SET[]={ {"set_max_iter",1,4,0},{"set_max_fevals",1,17,0},{"set_ftarget",1,0.31,0},{"reset_ftarget",0,0,0},{"set_seed",1,99,0},{"set_ftolerance",1,3e-2,0},{"set_xtolerance",1,7e-2,0},{"set_noisy",0,0,0},{"set_sep",0,0,0},{"set_fixed_p",2,1,0.4},{"unset_fixed_p",1,1,0},{"set_restarts",1,3,0},{"set_quiet",1,0,0},{"set_gradient",1,1,0},{"set_edm",1,1,0},{"set_uh",1,1,0},{"set_tpa",1,2,0},{"set_mt_feval",1,0,0},{"set_full_fplot",1,1,0},{"initialize_parameters",0,0,0},{"set_fplot",3,0,0} }; enum { NSET=21 };
template<class P> static void cset(P &p,int s,const std::string &plot) { double v=SET[s].v; switch(s) { case 0: p.set_max_iter((int)v); break; case 1: p.set_max_fevals((int)v); break; case 2: p.set_ftarget(v); break; case 3: p.reset_ftarget(); break; case 4: p.set_seed((int)v); break; case 5: p.set_ftolerance(v); break; case 6: p.set_xtolerance(v); break; case 7: p.set_noisy(); break; case 8: p.set_sep(); break; case 9: p.set_fixed_p(1,SET[s].v2); break; case 10: p.unset_fixed_p(1); break; case 11: p.set_restarts((int)v); break; case 12: p.set_quiet(true); p.set_quiet(false); p.set_quiet(true); break; case 13: p.set_gradient(true); break; case 14: p.set_edm(true); break; case 15: p.set_uh(true); break; case 16: p.set_tpa(2); break; case 17: p.set_mt_feval(false); break; case 18: p.set_full_fplot(true); break; case 19: p.initialize_parameters(); break; default: p.set_fplot(plot); } }
static void pset(bp::object p,int s,const std::string &plot) { bp::object m=p.attr(SET[s].name); if (s==20) m(plot); else if (s==12) { for (bool q: {true,false}) { m(q); if (bp::extract<bool>(p.attr("quiet")())!=q) fail("getter","quiet() after set_quiet"); } m(true); } else if (s==2||s==5||s==6) m(SET[s].v); else if (s==9) m(1,SET[s].v2); else if (SET[s].arity==0) m(); else if (s==13||s==14||s==15||s==17||s==18) m((bool)SET[s].v); else m((int)SET[s].v); }
template<class P> static void getters(const std::string &w,P &p,bp::object q) {
#define GI(n,m) { long long a=(long long)p.n(),b=bp::extract<long long>(q.attr(m)()); if (a!=b) fail("getter",w+": " m "() is "+std::to_string(b)+", the C++ value is "+std::to_string(a)); }
#define GD(n,m) { double a=p.n(),b=bp::extract<double>(q.attr(m)()); if (!samed(a,b)) fail("getter",w+": " m "() is "+ds(b)+", the C++ value is "+ds(a)); }
#define GB(n,m) { bool a=p.n(),b=bp::extract<bool>(q.attr(m)()); if (a!=b) fail("getter",w+": " m "() is "+std::to_string(b)+", the C++ value is "+std::to_string(a)); }
  GI(get_max_iter,"get_max_iter") GI(get_seed,"get_seed") GI(lambda,"lambda_") GI(dim,"dim") GI(get_algo,"get_algo") GI(get_tpa,"get_tpa") GD(get_ftarget,"get_ftarget") GD(get_ftolerance,"get_ftolerance") GD(get_xtolerance,"get_xtolerance") GB(quiet,"quiet") GB(get_gradient,"get_gradient") GB(get_edm,"get_edm") GB(get_mt_feval,"get_mt_feval") GB(get_uh,"get_uh")
  std::string a=p.get_fplot(),b=bp::extract<std::string>(q.attr("get_fplot")()); if (a!=b) fail("getter",w+": get_fplot() is '"+b+"'"); }
static void compare(const std::string &w,const CMASolutions &s,bp::object r,bool sep,bp::object cov,bp::object sepcov) {
  auto D=[&](const char *k) { return (double)bp::extract<double>(r[k]); }; auto I=[&](const char *k) { return (int)bp::extract<int>(r[k]); };
  if (I("size")!=s.size()||I("fevals")!=s.fevals()||I("niter")!=s.niter()||I("status")!=s.run_status()) fail("result",w+": size/fevals/niter/status "+std::to_string(I("size"))+"/"+std::to_string(I("fevals"))+"/"+std::to_string(I("niter"))+"/"+std::to_string(I("status"))+", C++ "+std::to_string(s.size())+"/"+std::to_string(s.fevals())+"/"+std::to_string(s.niter())+"/"+std::to_string(s.run_status()));
  std::string m=bp::extract<std::string>(r["msg"]); if (m!=s.status_msg()) fail("result",w+": status message '"+m+"', C++ '"+s.status_msg()+"'");
  if (!samed(D("edm"),s.edm())) fail("result",w+": edm "+ds(D("edm"))+", C++ "+ds(s.edm())); if (!samed(D("sigma"),s.sigma())) fail("result",w+": sigma "+ds(D("sigma"))); if (!samed(D("mineig"),s.min_eigenv())||!samed(D("maxeig"),s.max_eigenv())) fail("result",w+": extreme eigenvalues "+ds(D("mineig"))+","+ds(D("maxeig"))+", C++ "+ds(s.min_eigenv())+","+ds(s.max_eigenv()));
  if (!same(vec_of(r["xmean"]),s.xmean())) fail("result",w+": mean "+vs(vec_of(r["xmean"]))+", C++ "+vs(s.xmean())); if (!samed(D("bf"),s.best_candidate().get_fvalue())||!same(vec_of(r["bx"]),s.best_candidate().get_x_dvec())) fail("result",w+": best candidate "+ds(D("bf"))+" at "+vs(vec_of(r["bx"]))+", C++ "+ds(s.best_candidate().get_fvalue())+" at "+vs(s.best_candidate().get_x_dvec()));
  if (!same(vec_of(r["eig"]),s.eigenvalues())) fail("result",w+": eigenvalues "+vs(vec_of(r["eig"]))+", C++ "+vs(s.eigenvalues())); if (D("t")<0||D("tl")<0) fail("result",w+": negative time");
  if (!sep&&!samem(mat_of(cov),s.cov_ref())&&!samem(mat_of(cov),s.cov_ref().transpose())) fail("result",w+": covariance differs from the C++ one");
  if (sep) { dMat p=mat_of(sepcov),q=s.sepcov_ref(); if (p.size()!=q.size()) fail("result",w+": diagonal covariance has "+std::to_string(p.size())+" entries, C++ "+std::to_string(q.size())); for (int i=0;i<p.size();i++) if (!samed(p.data()[i],q.data()[i])) fail("result",w+": diagonal covariance differs at "+std::to_string(i)+": "+ds(p.data()[i])+", C++ "+ds(q.data()[i])); } }
static const int KGP[4]={GP_NONE,GP_PWQ,GP_LINVEC,GP_PWQLIN};
struct Two { std::vector<double> a,b; }; static Two gpargs(const Cfg &c,int kind) { Two t; if (kind==2) { dVec s=lin_scaling(c),h=lin_shift(c); t.a.assign(s.data(),s.data()+s.size()); t.b.assign(h.data(),h.data()+h.size()); } else box(c,t.a,t.b); return t; }
template<class GP> static CMAParameters<GP> cparams(const Cfg &c) { GP g=make_gp<GP>(c); return CMAParameters<GP>(c.start(),c.sigma,c.lambda,c.seed,g); }
static bp::object pparams(const Cfg &c,int kind,bool simple,bp::object *gout=nullptr) { Two t=gpargs(c,kind); bp::object g=simple?bp::object():py("gp")(kind,list_of(t.a),list_of(t.b)); if (gout) *gout=g; return py("params")(kind,simple,list_of(c.start()),c.sigma,g,c.lambda,c.seed); }
struct Log { std::vector<dVec> x; };
static void same_calls(const std::string &w,const Log &p,const Log &c) { if (p.x.size()!=c.x.size()) fail("calls",w+": "+std::to_string(p.x.size())+" objective calls from Python, "+std::to_string(c.x.size())+" in C++"); for (size_t i=0;i<p.x.size();i++) if (!same(p.x[i],c.x[i])) fail("calls",w+": objective call "+std::to_string(i)+" at "+vs(p.x[i])+", C++ "+vs(c.x[i])); }
static double f0(const dVec &x) { double s=0; for (int i=0;i<x.size();i++) { double d=x[i]-0.1-0.05*i; s+=(i%2?4:1)*d*d; } return s+(x.size()>1?0.3*x[0]*x[1]:0); }
template<class GP> static CMASolutions crun(CMAParameters<GP> &p,Log &l,std::function<double(const dVec&,size_t)> v) { FitFunc f=[&](const double *x,const int &n) { dVec d(n); for (int i=0;i<n;i++) d[i]=x[i]; size_t k=l.x.size(); l.x.push_back(d); return v(d,k); }; return cmaes<GP>(f,p); }
static bp::object prun(int kind,bp::object p,Log &l,std::function<double(const dVec&,size_t)> v) { std::function<double(const dVec&)> h=[&](const dVec &d) { size_t k=l.x.size(); l.x.push_back(d); return v(d,k); }; handler=&h; bp::object s=py("run")[kind](py("fit")(py("cb")),p); handler=nullptr; return s; }
struct Scratch { std::string d; Scratch() { char b[]="/tmp/vc24.XXXXXX"; d=mkdtemp(b); } ~Scratch() { if (DIR *q=opendir(d.c_str())) { while (dirent *e=readdir(q)) if (e->d_name[0]!='.') unlink((d+"/"+e->d_name).c_str()); closedir(q); } rmdir(d.c_str()); } };
static std::vector<std::string> rows(const std::string &f) { std::vector<std::string> r; std::ifstream i(f); std::string s; while (std::getline(i,s)) { std::istringstream q(s); std::string t,u; int k=0; while (q>>t) { if (k++<16) u+=t.substr(0,8)+" "; } r.push_back(u); } return r; }
// two settings applied in order, then a run
template<class GP> static void settings(Chooser &ch,Cfg c,int kind,bool simple,int nset) {
  py_init(); guarded([&]{ std::string w=c.str()+(simple?" simple":""); std::vector<int> ss; for (int i=0;i<nset;i++) { int s=ch.choose(NSET+1)-1; if (s>=0) ss.push_back(s); else break; } for (int s: ss) w+=std::string(" ")+SET[s].name; Scratch sc; bool plot=false,sep=c.is_sep()||c.is_vd(); for (int s: ss) { if (s==20) plot=true; if (s==8) sep=true; if (s==13&&c.is_vd()) return 0; if (s==8&&c.is_vd()) return 0; }
    CMAParameters<GP> p=cparams<GP>(c); bp::object q=pparams(c,kind,simple); getters(w,p,q); p.set_str_algo(algo_names[c.algo]); q.attr("set_str_algo")(algo_names[c.algo]); p.set_max_iter(7); q.attr("set_max_iter")(7); p.set_restarts(2); q.attr("set_restarts")(2); 
    for (int s: ss) { cset(p,s,sc.d+"/c.dat"); pset(q,s,sc.d+"/c.dat"); getters(w,p,q); } if (plot) q.attr("set_fplot")(sc.d+"/p.dat");
    Log lc,lp; auto v=[](const dVec &x,size_t) { return f0(x); }; CMASolutions s=crun<GP>(p,lc,v); bp::object r=prun(kind,q,lp,v); ch.checked(); same_calls(w,lp,lc); bp::object L=py("look")(r); bp::object cov=py("lcmaes").attr("get_solution_cov")(r),sepc=py("lcmaes").attr("get_solution_sepcov")(r); compare(w,s,L,s.sepcov_ref().size()>0&&sep,cov,sepc);
    if (kind==1) { bp::object g; pparams(c,kind,false,&g); dVec ph=vec_of(py("lcmaes").attr("get_best_candidate_pheno")(r,g)); if (!same(ph,p.get_gp().pheno(s.best_candidate().get_x_dvec()))) fail("pheno",w+": get_best_candidate_pheno "+vs(ph)); }
    if (plot) { auto a=rows(sc.d+"/c.dat"),b=rows(sc.d+"/p.dat"); if (a.empty()||a.size()!=b.size()) fail("plot",w+": "+std::to_string(b.size())+" lines written from Python, "+std::to_string(a.size())+" from C++"); for (size_t i=0;i<a.size();i++) { size_t len=i?30:a[i].find('/'); if (a[i].substr(0,len)!=b[i].substr(0,len)) fail("plot",w+": line "+std::to_string(i)+" differs: "+b[i]+" / "+a[i]); } }
    // the second run with the same object is the same run
    Log lp2; prun(kind,q,lp2,v); same_calls(w+" again",lp2,lc);
    ch.state(vmc::mix(lc.x.size(),vmc::dbits(s.sigma()))); ch.outcome(vmc::mix(s.run_status()*1000+lc.x.size(),vmc::dbits(s.xmean()[0]))); return 0; }); }
// all answer levels of the first evaluations
template<class GP> static void answers(Chooser &ch,Cfg c,int kind,int free) { py_init(); guarded([&]{ std::string w=c.str(); std::vector<int> a(free); for (int i=0;i<free;i++) a[i]=ch.choose(3); auto v=[&](const dVec &x,size_t k) { return k<a.size()?(double)a[k]:f0(x); }; CMAParameters<GP> p=cparams<GP>(c); bp::object q=pparams(c,kind,false); p.set_str_algo(algo_names[c.algo]); q.attr("set_str_algo")(algo_names[c.algo]); p.set_max_iter(3); q.attr("set_max_iter")(3); p.set_restarts(2); q.attr("set_restarts")(2); Log lc,lp; CMASolutions s=crun<GP>(p,lc,v); bp::object r=prun(kind,q,lp,v); ch.checked(); same_calls(w,lp,lc); bool sep=c.is_sep()||c.is_vd(); compare(w,s,py("look")(r),sep,py("lcmaes").attr("get_solution_cov")(r),py("lcmaes").attr("get_solution_sepcov")(r)); ch.state(vmc::mix(vmc::dbits(s.sigma()),vmc::dbits(s.xmean()[0]))); ch.outcome(vmc::dbits(s.sigma())); return 0; }); }
// a Python objective failing at every call number, in every way
template<class GP> static void raising(Chooser &ch,Cfg c,int kind,int upto,bool grad) { py_init(); guarded([&]{ int k=1+ch.choose(upto),what=ch.choose(4); std::string w=c.str()+" failing at call "+std::to_string(k)+" kind "+std::to_string(what); CMAParameters<GP> p=cparams<GP>(c); bp::object q=pparams(c,kind,false); p.set_str_algo(algo_names[c.algo]); q.attr("set_str_algo")(algo_names[c.algo]); p.set_max_iter(3); q.attr("set_max_iter")(3); p.set_restarts(2); q.attr("set_restarts")(2); p.set_gradient(grad); q.attr("set_gradient")(grad); auto v=[](const dVec &x,size_t) { return f0(x); }; Log lc; CMASolutions s=crun<GP>(p,lc,v); if (k>(int)lc.x.size()) { ch.outcome(0); return 0; }
    Log lp; std::function<double(const dVec&)> h=[&](const dVec &d) { lp.x.push_back(d); return f0(d); }; handler=&h; std::string e=bp::extract<std::string>(py("try_run")(kind,py("fit")(py("raiser")(k,what)),q)); handler=nullptr; ch.checked(); const char *ex[]={"Boom:boom","TypeError:","TypeError:","KeyboardInterrupt:"}; if (e.compare(0,strlen(ex[what]),ex[what])) fail("exception",w+": ended with "+e); if ((int)lp.x.size()!=k) fail("exception",w+": "+std::to_string(lp.x.size())+" objective calls"); for (int i=0;i<k;i++) if (!same(lp.x[i],lc.x[i])) fail("calls",w+": call "+std::to_string(i)+" differs"); if (PyErr_Occurred()) fail("exception",w+": an error is left pending");
    Log l2; bp::object r=prun(kind,q,l2,v); same_calls(w+", run after it",l2,lc); bool sep=c.is_sep()||c.is_vd(); compare(w+", run after it",s,py("look")(r),sep,py("lcmaes").attr("get_solution_cov")(r),py("lcmaes").attr("get_solution_sepcov")(r)); ch.state(k*4+what); ch.outcome(k*4+what); return 0; }); }
// results outlive the solution they came from
template<class GP> static void lifetime(Chooser &ch,Cfg c,int kind) { py_init(); guarded([&]{ int what=ch.choose(4); CMAParameters<GP> p=cparams<GP>(c); bp::object q=pparams(c,kind,false); p.set_str_algo(algo_names[c.algo]); q.attr("set_str_algo")(algo_names[c.algo]); p.set_max_iter(5); q.attr("set_max_iter")(5); p.set_restarts(2); q.attr("set_restarts")(2); auto v=[](const dVec &x,size_t) { return f0(x); }; Log lc; CMASolutions s=crun<GP>(p,lc,v); bool sep=c.is_sep()||c.is_vd(); const char *fs[]={"get_solution_cov","get_solution_sepcov","get_solution_xmean"}; if (what==(sep?0:1)) { ch.outcome(9); return 0; } bp::object which=what<3?py("lcmaes").attr(fs[what]):bp::eval("lambda s: lcmaes.get_candidate_x(s.best_candidate())",*G,*G); std::function<double(const dVec&)> h=[&](const dVec &d) { return f0(d); }; handler=&h; bp::object a=py("keep")(kind,py("fit")(py("cb")),q,which); handler=nullptr; ch.checked(); if (what==0&&!samem(mat_of(a),s.cov_ref())&&!samem(mat_of(a),s.cov_ref().transpose())) fail("lifetime","covariance changed after its solution was dropped"); if (what==1) { dMat m=mat_of(a); for (int i=0;i<m.size();i++) if (m.size()!=s.sepcov_ref().size()||!samed(m.data()[i],s.sepcov_ref().data()[i])) fail("lifetime","diagonal covariance changed after its solution was dropped"); } if (what==2&&!same(vec_of(a),s.xmean())) fail("lifetime","mean differs"); if (what==3&&!same(vec_of(a),s.best_candidate().get_x_dvec())) fail("lifetime","best point differs"); ch.state(what); ch.outcome(what); return 0; }); }
// the high level interface module
template<class GP> static void iface(Chooser &ch,Cfg c,int kind) { py_init(); guarded([&]{ int al=ch.choose(15); c.algo=al; int s=ch.choose(9); bool def=ch.choose(2); Scratch sc; std::string w=c.str()+" lcmaes_interface option "+std::to_string(s)+(def?" default algorithm":""); bp::dict kw; Two t=gpargs(c,kind); if (kind==1||kind==3) { kw["lbounds"]=list_of(t.a); kw["ubounds"]=list_of(t.b); if (kind==3) kw["scaling"]=true; } if (kind==2) { kw["vscaling"]=list_of(t.a); kw["vshift"]=list_of(t.b); } GP g=make_gp<GP>(c); CMAParameters<GP> p(c.start(),c.sigma,-1,0,g); if (!def) kw["str_algo"]=algo_names[al]; p.set_str_algo(def?"acmaes":algo_names[al]); kw["seed"]=31; kw["max_iter"]=5; p.set_seed(31); p.set_max_iter(5); bool plot=s==7;
    switch(s) { case 1: kw["ftarget"]=0.3; p.set_ftarget(0.3); break; case 2: kw["max_fevals"]=20; p.set_max_fevals(20); break; case 3: kw["restarts"]=2; p.set_restarts(2); break; case 4: kw["tpa"]=2; p.set_tpa(2); break; case 5: kw["edm"]=true; p.set_edm(true); break; case 6: kw["ftolerance"]=0.5; p.set_ftolerance(0.5); break; case 8: kw["uh"]=true; p.set_uh(true); break; } if (plot) kw["fplot"]=sc.d+"/i.dat"; else kw["fplot"]=false;
    bp::tuple args=bp::make_tuple(list_of(c.start()),c.sigma); bp::object q=bp::object(py("lci").attr("to_params"))(*args,**kw); if (!plot) getters(w,p,q); Log lc,lp; auto v=[](const dVec &x,size_t) { return f0(x); }; CMASolutions so=crun<GP>(p,lc,v); std::function<double(const dVec&)> h=[&](const dVec &d) { lp.x.push_back(d); return f0(d); }; handler=&h; bp::object ff=py("lci").attr("to_fitfunc")(bp::eval("lambda x: cb(x,len(x))",*G,*G)); bp::object r=py("lci").attr("pcmaes")(ff,q); handler=nullptr; ch.checked(); same_calls(w,lp,lc); compare(w,so,py("look")(r),so.sepcov_ref().size()>0&&(!def&&(c.is_sep()||c.is_vd())),py("lcmaes").attr("get_solution_cov")(r),py("lcmaes").attr("get_solution_sepcov")(r)); if (plot&&rows(sc.d+"/i.dat").empty()) fail("plot",w+": no plot file"); ch.state(vmc::mix(al*20+s,lc.x.size())); ch.outcome(vmc::mix(lc.x.size(),vmc::dbits(so.sigma()))); return 0; }); }
// surrogates
struct SLog { std::vector<std::vector<dVec>> x; std::vector<dMat> m; std::vector<int> tr; };
template<class GP> static void surr(Chooser &ch,Cfg c,int kind) { py_init(); guarded([&]{ bool expl=ch.choose(2); int l=2+3*ch.choose(3); int al=ch.choose(2)?6:0; c.algo=al; std::string w=c.str()+" surrogate exploit="+std::to_string(expl)+" l="+std::to_string(l); CMAParameters<GP> p=cparams<GP>(c); bp::object q=pparams(c,kind,false); p.set_str_algo(algo_names[al]); q.attr("set_str_algo")(algo_names[al]); p.set_max_iter(5); q.attr("set_max_iter")(5); p.set_restarts(2); q.attr("set_restarts")(2);
    auto hook=[](SLog &g) { return [&g](std::vector<Candidate> &v,const dMat &m,bool tr) { std::vector<dVec> xs; for (auto &k: v) xs.push_back(k.get_x_dvec()); g.x.push_back(xs); g.m.push_back(m); g.tr.push_back(tr); if (!tr) for (auto &k: v) k.set_fvalue(k.get_x_dvec().squaredNorm()); }; };
    SLog sc,sp; Log lc,lp; auto hc=hook(sc); FitFunc f=[&](const double *x,const int &n) { dVec d(n); for (int i=0;i<n;i++) d[i]=x[i]; lc.x.push_back(d); return f0(d); }; ESOptimizer<ACMSurrogateStrategy<CMAStrategy,CovarianceUpdate,GP>,CMAParameters<GP>> o(f,p); o.set_ftrain([&](const std::vector<Candidate> &v,const dMat &m) { std::vector<Candidate> u=v; hc(u,m,true); return 0; }); o.set_fpredict([&](std::vector<Candidate> &v,const dMat &m) { hc(v,m,false); return 0; }); o.set_exploit(expl); o.set_l(l); o.optimize(); CMASolutions s=o.get_solutions();
    std::function<double(const dVec&)> h=[&](const dVec &d) { lp.x.push_back(d); return f0(d); }; handler=&h; std::function<void(std::vector<Candidate>&,const dMat&,bool)> hp=hook(sp); shandler=&hp; bp::object L=py("lcmaes"); bp::object r=py("srun")[kind](py("fit")(py("cb")),L.attr("csurrfunc_pbf").attr("from_callable")(py("scbt")),L.attr("surrfunc_pbf").attr("from_callable")(py("scbp")),q,expl,l); handler=nullptr; shandler=nullptr; ch.checked(); same_calls(w,lp,lc);
    if (sc.x.size()!=sp.x.size()) fail("surrogate",w+": "+std::to_string(sp.x.size())+" model calls from Python, "+std::to_string(sc.x.size())+" in C++"); for (size_t i=0;i<sc.x.size();i++) { if (sc.tr[i]!=sp.tr[i]||sc.x[i].size()!=sp.x[i].size()) fail("surrogate",w+": model call "+std::to_string(i)+" differs"); for (size_t j=0;j<sc.x[i].size();j++) if (!same(sc.x[i][j],sp.x[i][j])) fail("surrogate",w+": model call "+std::to_string(i)+" candidate "+std::to_string(j)+" differs"); if (sc.m[i].size()!=sp.m[i].size()) fail("surrogate",w+": model call "+std::to_string(i)+" matrix size"); double d=sc.m[i].rows()==sp.m[i].rows()?(sc.m[i]-sp.m[i]).cwiseAbs().maxCoeff():1; if (!(d<=1e-9*(1+sc.m[i].cwiseAbs().maxCoeff()))) fail("surrogate",w+": model call "+std::to_string(i)+" matrix differs"); }
    bool sep=al==6; compare(w,s,py("look")(r),sep,L.attr("get_solution_cov")(r),L.attr("get_solution_sepcov")(r)); if (sc.x.empty()) ch.outcome(1); ch.state(vmc::mix(sc.x.size(),lc.x.size())); ch.outcome(vmc::mix(sc.x.size(),lc.x.size())); return 0; }); }
template<class F> static void by_kind(int kind,F f) { switch(kind) { case 0: f((GenoPheno<NoBoundStrategy>*)0); break; case 1: f((GenoPheno<pwqBoundStrategy>*)0); break; case 2: f((GenoPheno<NoBoundStrategy,linScalingStrategy>*)0); break; default: f((GenoPheno<pwqBoundStrategy,linScalingStrategy>*)0); } }
#define GPT typename std::remove_pointer<decltype(g)>::type
int main(int argc,char **argv) {
  omp_set_num_threads(1); vmc::Main m(argc,argv,"C24"); bool T=m.thorough();
  for (int kind=0;kind<4;kind++) for (int algo=0;algo<15;algo++) { Cfg c; c.algo=algo; c.dim=3; c.lambda=algo>=12?6:5; c.gp=KGP[kind]; c.seed=17+algo; c.sigma=0.4;
    m.add("settings "+c.str(),[=](Chooser &ch) { by_kind(kind,[&](auto g) { settings<GPT>(ch,c,kind,false,T&&(algo==0||algo==4||algo==9)?3:2); }); });
    if (kind==0) m.add("settings simple "+c.str(),[=](Chooser &ch) { settings<GenoPheno<NoBoundStrategy>>(ch,c,kind,true,1); });
    Cfg d=c; d.dim=2; d.lambda=4; m.add("answers "+d.str(),[=](Chooser &ch) { by_kind(kind,[&](auto g) { answers<GPT>(ch,d,kind,T?8:4); }); });
    m.add("raising "+d.str(),[=](Chooser &ch) { by_kind(kind,[&](auto g) { raising<GPT>(ch,d,kind,T?40:13,false); }); }); if (algo<12) m.add("raising with gradient "+d.str(),[=](Chooser &ch) { by_kind(kind,[&](auto g) { raising<GPT>(ch,d,kind,T?40:13,true); }); });
    m.add("lifetime "+d.str(),[=](Chooser &ch) { by_kind(kind,[&](auto g) { lifetime<GPT>(ch,c,kind); }); }); }
  for (int kind=0;kind<4;kind++) for (int n: {2,5}) { Cfg c; c.dim=n; c.gp=KGP[kind]; m.add("interface kind="+std::to_string(kind)+" n="+std::to_string(n),[=](Chooser &ch) { by_kind(kind,[&](auto g) { iface<GPT>(ch,c,kind); }); }); Cfg d=c; d.lambda=6; d.dim=n; m.add("surrogate kind="+std::to_string(kind)+" n="+std::to_string(n),[=](Chooser &ch) { by_kind(kind,[&](auto g) { surr<GPT>(ch,d,kind); }); }); }
  return m.run();
}
