// C22: progress notifications, plot files and custom step functions, for every generation at which the callback can end the run and every ranking history.
#include "cross.hpp"
#include "gp_impl.hpp"
#include <sys/stat.h>
using namespace vm;
static std::string scratch;
static std::string slurp(const std::string &f) { std::ifstream i(f); std::stringstream s; s<<i.rdbuf(); return s.str(); }
struct Rec { std::vector<double> v; bool head=false; };
// parses a plot file: header lines (dim seed / date, then an empty line) and records of numbers
static std::vector<Rec> parse(const std::string &s,const std::string &w) { std::vector<Rec> out; if (!s.empty()&&s.back()!='\n') fail("plot",w+": the last record is incomplete"); std::istringstream is(s); std::string l; while(std::getline(is,l)) { if (l.empty()) continue; Rec r; if (l.find('/')!=std::string::npos) { r.head=true; out.push_back(r); continue; } const char *p=l.c_str(); while(*p) { while(*p==' ') p++; if (!*p) break; char *e; double d=strtod(p,&e); if (e==p) fail("plot",w+": not a number in record "+l); r.v.push_back(d); p=e; } out.push_back(r); } return out; }
struct Want { std::vector<double> v; bool head; };
static Want want_of(const Cfg &c,const View &v,const dVec &ph,const dVec &sd,int lambda) { Want w; w.head=c.fullplot&&v.niter==0; auto &o=w.v; int n=c.dim; o.push_back(std::fabs(v.best.get_fvalue())); o.push_back(v.fevals); o.push_back(v.sigma); o.push_back(v.mineig==0?1:std::sqrt(v.maxeig/v.mineig)); auto vec=[&](const dVec &x) { for (int i=0;i<n;i++) o.push_back(x.size()?x[i]:0.0); };
  if (c.fullplot) { o.push_back(v.bseen.get_fvalue()); o.push_back(v.cand[v.cand.size()/2].get_fvalue()); o.push_back(v.wseen.get_fvalue()); o.push_back(v.mineig); o.push_back(v.maxeig); vec(v.bseen.get_x_dvec()); }
  vec(v.eigval); vec(sd); vec(ph); return w; }
static bool close15(double a,double b,double abs) { if (a!=a&&b!=b) return true; return close(a,b,1e-12,abs); }
static void cmprec(const Cfg &c,const std::vector<Rec> &r,const std::vector<Want> &w,const std::string &where) {
  size_t k=0; for (size_t i=0;i<w.size();i++) { std::string x=where+" record "+std::to_string(i); if (w[i].head) { if (k>=r.size()||!r[k].head) fail("plot",x+": no header line"); k++; } if (k>=r.size()) fail("plot",where+": "+std::to_string(i)+" records in the file, "+std::to_string(w.size())+" notifications so far"); if (r[k].head) fail("plot",x+": unexpected header line"); const auto &v=r[k].v; if (v.size()!=w[i].v.size()+1) fail("plot",x+": "+std::to_string(v.size())+" fields instead of "+std::to_string(w[i].v.size()+1)); int n=c.dim; size_t sd0=w[i].v.size()-2*n; double mag=0; for (int q=0;q<n;q++) mag=std::max(mag,std::fabs(w[i].v[sd0+n+q])); for (size_t j=0;j<w[i].v.size();j++) { double abs=(j>=sd0&&j<sd0+n)?1e-8*(1+mag):1e-300; double rel=(j>=sd0&&j<sd0+n)?1e-6:1e-12; if (!close(v[j],w[i].v[j],rel,abs)&&!(v[j]!=v[j]&&w[i].v[j]!=w[i].v[j])) fail("plot",x+": field "+std::to_string(j)+" is "+ds(v[j])+", the state says "+ds(w[i].v[j])); } k++; }
  if (k!=r.size()) fail("plot",where+": "+std::to_string(r.size())+" lines in the file for "+std::to_string(w.size())+" notifications"); }
// how: 0 optimize with own step functions, 1 plain optimize, 2 one-call, 3 manual loop
static void body(Chooser &ch,Cfg c,ValFn vals,int how,int stopat,int maxgen,bool plot) {
  std::string file; if (plot) { file=scratch+"/p"+std::to_string(getpid()); c.fplot=file; std::ofstream(file)<<"stale\n"; }
  Env he; he.f=[](const double*,int) { return 0.0; }; Cfg hc=c; hc.fplot=""; hc.alloff=true; auto H=make_search(hc,&he);
  std::vector<Want> want; std::vector<View> notes; int total=0; bool ended=false; std::string order; int gens=0; long ncalls=0; std::vector<double> lastvals; int lam=0; double bestrun=DINF;
  auto note=[&](const CMASolutions &s,int l) { ch.checked(); View v=view_of(s,true); std::string w="notification "+std::to_string(total); if (plot) cmprec(c,parse(slurp(file),w),want,w);
    if (!notes.empty()&&v.niter!=0) { if (ended) fail("order",w+": the run goes on after the callback asked to end it"); if (v.niter!=notes.back().niter+1) fail("order",w+" reports iteration "+std::to_string(v.niter)+" after "+std::to_string(notes.back().niter)); }
    else if (!notes.empty()) { if (!c.strat()) fail("order",w+" reports iteration 0 again"); gens=0; } else if (v.niter!=0) fail("order","the first notification reports iteration "+std::to_string(v.niter));
    if (v.niter!=gens) fail("order",w+" reports iteration "+std::to_string(v.niter)+" after "+std::to_string(gens)+" generations");
    if ((int)v.cand.size()!=l) fail("state",w+": population of "+std::to_string(v.cand.size())+", population size "+std::to_string(l));
    if (v.niter>0&&!c.uh&&!c.elit) { double b=*std::min_element(lastvals.begin(),lastvals.end()); double sg=c.maximize?-1:1; if (c.maximize) b=*std::max_element(lastvals.begin(),lastvals.end()); if (!samed(v.best.get_fvalue(),sg*b)) fail("state",w+" is not up to date: best value "+ds(v.best.get_fvalue())+", the generation's is "+ds(b)); }
    dVec ph=H->pheno(v.xmean); dVec sd(c.dim); for (int i=0;i<c.dim;i++) sd[i]=std::sqrt(v.full(i,i)); sd=(H->pheno(dVec(v.xmean+sd))-ph).cwiseAbs(); 
    bool end=total==stopat||total>=maxgen; total++; ended=end; notes.push_back(v); lam=l; if (!end) want.push_back(want_of(c,v,ph,sd,l)); ch.state(v.hash()); order+="N"; return end?1:0; };
  std::string why; Run r(c); r.keep=false; r.extra=[](const dVec &x,int) { return 0.3*x[0]+x.squaredNorm(); };
  r.values=[&](int g,const dMat &m,const dMat &p) { return vals(g,m,p); };
  std::vector<double> cur; long inrun=0; r.oncall=[&](const dVec &x,double v,int slot) { ncalls++; cur.push_back(v); };
  r.onprogress=[&](const CMASolutions &s,int l) { if (s.niter()>0) { lastvals.assign(r.vals.begin(),r.vals.end()); } return note(s,l); };
  int ret=0; View fin;
  if (how==0||how==3) { dMat askm; r.after_ask=[&](const dMat &m) { order+="A"; if (ended) fail("order","a generation is asked after the callback ended the run"); }; r.after_eval=[&]() { order+="E"; for (int i=0;i<(int)r.hit.size();i++) if (!r.hit[i]) fail("order","a candidate was not evaluated"); }; r.after_tell=[&]() { order+="T"; gens++; };
    r.start(); if (how==0) ret=r.s->optimize_custom(); else { while(!r.s->stop()) r.generation(); ret=r.s->sols().run_status()>=0?0:1; } fin=view_of(r.s->sols(),true);
    for (size_t i=0;i<order.size();i++) { char o=order[i],p=i?order[i-1]:'T'; bool ok=o=='N'?(p=='T'||(p=='N'&&c.strat())):o=='A'?p=='N':o=='E'?p=='A':p=='E'; if (!ok) fail("order","steps out of order: "+order.substr(0,i+1)); } }
  else { // population of a generation reconstructed from the calls: lambda calls after each notification
    Env e; std::vector<double> gv; int g=-1; dMat none; int k=0; std::vector<double> pv; bool fresh=true; e.f=[&](const double *x,int n) { if (k==0) { g++; dMat m=dMat::Zero(c.dim,lam?lam:c.lambda); for (int i=0;i<m.cols();i++) for (int q=0;q<c.dim;q++) m(q,i)=x[q]+i; pv=vals(g,m,m); lastvals=pv; } double v=pv[k]; k=(k+1)%(int)pv.size(); if (k==0) gens++; return v; };
    e.progress=[&](const CMASolutions &s,int l) { int q=note(s,l); return q; };
    if (how==1) { auto s=make_search(c,&e); ret=s->optimize(); fin=view_of(s->sols(),true); } else { CMASolutions s=onecall(c,&e); fin=view_of(s,true); } }
  ch.checked(); if (notes.empty()) fail("order","no notification"); if (plot) { cmprec(c,parse(slurp(file),"end"),want,"end"); unlink(file.c_str()); }
  if (!c.strat()) { View &l=notes.back(); if (l.niter!=fin.niter||!same(l.xmean,fin.xmean)||!samed(l.sigma,fin.sigma)||!samem(l.full,fin.full)) fail("state","the final state is not the last one notified"); if (ended&&stopat>=0&&stopat<total&&(int)notes.size()!=stopat+1) fail("order","notified "+std::to_string(notes.size())+" times, the callback ended the run at notification "+std::to_string(stopat)); }
  else { bool ok=false; for (size_t i=0;i<notes.size();i++) if (notes[i].niter==fin.niter&&same(notes[i].xmean,fin.xmean)&&(i+1==notes.size()||notes[i+1].niter==0)) ok=true; if (!ok) fail("state","the returned state was never notified as the last of its run"); }
  ch.outcome(vmc::mix(notes.size(),fin.hash()));
}
template<class GP> void custom_plot(Chooser &ch,const Cfg &c) { std::string file=scratch+"/q"+std::to_string(getpid()); Cfg d=c; d.fplot=file; CMAParameters<GP> p=make_params<GP>(d,true); std::vector<int> pn,qn; int stopat=ch.choose(6)-1,k=0; int fk=ch.choose(2); long calls=0; int run=0; FitFunc f=[&](const double *x,const int &n) { calls++; double s=0; for (int i=0;i<n;i++) s+=x[i]*x[i]; return fk?s:1.0; }; bool last=false; std::vector<long> pc,qc;
  ProgressFunc<CMAParameters<GP>,CMASolutions> pf=[&](const CMAParameters<GP>&,const CMASolutions &s) { if (pn.size()!=qn.size()+(last?1:0)) { if (!c.strat()||!last) fail("plot","plot function called "+std::to_string(qn.size())+" times for "+std::to_string(pn.size())+" notifications"); } last=false; if (pn.size()>qn.size()) { pn.pop_back(); pc.pop_back(); } pn.push_back(s.niter()); pc.push_back(calls); last=k++==stopat||k>40; return last?1:0; };
  PlotFunc<CMAParameters<GP>,CMASolutions> qf=[&](const CMAParameters<GP>&,const CMASolutions &s,std::ofstream &o) { qn.push_back(s.niter()); qc.push_back(calls); o<<"mine "<<s.niter()<<"\n"; return 0; };
  CMASolutions s=cmaes<GP>(f,p,pf,nullptr,CMASolutions(),qf); ch.checked(); size_t e=pn.size()-(last?1:0); if (qn.size()!=e) fail("plot","custom plot function called "+std::to_string(qn.size())+" times, "+std::to_string(e)+" notifications"); for (size_t i=0;i<e;i++) if (qn[i]!=pn[i]||qc[i]!=pc[i]) fail("plot","custom plot function sees another state than the progress callback"); std::string want; for (int n: qn) want+="mine "+std::to_string(n)+"\n"; std::string got=slurp(file); unlink(file.c_str()); if (got!=want) fail("plot","the file does not hold what the custom plot function wrote"); ch.state(vmc::mix(k,calls)); ch.outcome(calls); }
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C22"); bool T=m.thorough(); const char *tmp=getenv("TMPDIR"); std::string t=std::string(tmp?tmp:"/tmp")+"/c22.XXXXXX"; if (!mkdtemp(&t[0])) return 3; scratch=t; int A[]={0,3,6,9,12};
  auto opts=[](Cfg &c,int o) { switch(o) { case 1: c.gp=GP_PWQ; break; case 2: c.gp=GP_PWQLIN; c.maximize=true; break; case 3: c.lazy=true; c.tpa=2; break; case 4: c.fixed={{1,0.3}}; break; case 5: c.elit=1; c.gp=GP_LINVEC; break; case 6: c.uh=true; break; case 7: c.initf=true; c.edm=true; break; } };
  for (int a: A) for (int o=0;o<8;o++) for (int how=0;how<4;how++) for (int pl=0;pl<3;pl++) { Cfg c; c.algo=a; c.dim=a==12?6:3; c.lambda=c.tpa==2?4:3; c.alloff=true; opts(c,o); if (c.tpa==2) c.lambda=4; if (how&&o>4) continue; if (how==3&&(c.elit||c.initf||c.edm)) continue; c.fullplot=pl==2; int depth=c.lambda==4?2:(pl?2:3); if (T) depth++;
    m.add(c.str()+" how="+std::to_string(how)+" plot="+std::to_string(pl),[=](Chooser &ch) { int st=ch.choose(depth+2)-1; Levels lv; body(ch,c,[&](int,const dMat &q,const dMat&) { return lv.next(ch,q.cols(),2,false); },how,st,depth,pl>0); }); }
  // runs ended by a criterion or over restarts
  for (int a=0;a<15;a++) for (int how=0;how<3;how++) for (int pl=0;pl<3;pl++) for (int o=0;o<8;o++) { Cfg c; c.algo=a; c.dim=c.is_vd()?6:2; c.lambda=4; c.restarts=3; if (how&&(o==3||o>4)) continue; if (c.dim==2&&o==4) c.dim=3; opts(c,o); c.fullplot=pl==2; if (c.strat()&&how==2&&o) continue; m.add("criteria "+c.str()+" how="+std::to_string(how)+" plot="+std::to_string(pl),[=](Chooser &ch) { Cfg d=c; int e=ch.choose(3); if (e==0) d.max_iter=1+ch.choose(4); else if (e==1) d.max_fevals=10+ch.choose(3)*9; else d.max_iter=40; int st=ch.choose(8)-1; int F[]={F_CONST,F_SPHERE,F_NOISE}; int k=ch.choose(3); body(ch,d,[&](int g,const dMat&,const dMat &p) { return famgen(F[k],g,p); },how,st,pl?60:200,pl>0); }); }
  // long runs: flat and badly conditioned ones, so that eigenvalues leave the usual range
  for (int a: A) for (int pl: {1,2}) for (int k=0;k<4;k++) { Cfg c; c.algo=a; c.dim=a==12?6:3; c.lambda=6; c.alloff=true; c.fullplot=pl==2; if (k==3) c.gp=GP_PWQLIN; int G=T?400:170; m.add("long "+c.str()+" plot="+std::to_string(pl)+" f="+std::to_string(k),[=](Chooser &ch) { int kk=k; int st=ch.choose(2)?G-7:-1; body(ch,c,[=](int g,const dMat&,const dMat &p) { std::vector<double> v(p.cols()); for (int i=0;i<p.cols();i++) { double s=0; for (int j=0;j<p.rows();j++) s+=p(j,i)*p(j,i)*(kk==0?std::pow(1e14,j/(p.rows()-1.0)):kk==1?std::pow(1e-6,j)*(1+g%3):1.0); v[i]=kk==2?-s:s; } return v; },0,st,G,true); }); }
  // plotting and callbacks never change the course
  for (int a=0;a<15;a++) for (int o=0;o<8;o++) { Cfg c; c.algo=a; c.dim=c.is_vd()?6:2; c.lambda=4; c.restarts=2; c.max_iter=5; if (c.dim==2&&o==4) c.dim=3; opts(c,o); m.add("passive "+c.str(),[=](Chooser &ch) { int k=ch.choose(4),pl=1+ch.choose(2); int F[]={F_CONST,F_SPHERE,F_NOISE,F_WORSE}; Cfg d=c; std::string file=scratch+"/r"+std::to_string(getpid()); d.fplot=file; d.fullplot=pl==2; ExtraFn ex=[](const dVec &x,int) { return x.squaredNorm(); }; auto vf=[&](int g,const dMat&,const dMat &p) { return famgen(F[k],g,p); }; Trace x=play(c,vf,ex,40),y=play(d,vf,ex,40); unlink(file.c_str()); ch.checked(); same_trace(x,y); // no callback at all
      Env e; std::vector<dVec> P; int cnt=0,g=0; e.f=[&](const double *q,int n) { dVec v=Eigen::Map<const dVec>(q,n); P.push_back(v); size_t i=P.size()-1; return i<x.log.size()?x.log[i].v:0.0; }; auto s=make_search(c,&e); s->optimize(); if (P.size()!=x.log.size()) fail("passive","a run without callbacks makes "+std::to_string(P.size())+" evaluations, with callbacks "+std::to_string(x.log.size())); for (size_t i=0;i<P.size();i++) if (!same(P[i],x.log[i].x)) fail("passive","a run without callbacks evaluates other points"); states_of(ch,x); }); }
  for (int a=0;a<15;a++) { Cfg c; c.algo=a; c.dim=c.is_vd()?6:2; c.lambda=4; c.restarts=2; c.max_iter=7; m.add("custom plot "+c.str(),[=](Chooser &ch) { custom_plot<GenoPheno<>>(ch,c); }); Cfg d=c; d.gp=GP_PWQLIN; m.add("custom plot "+d.str(),[=](Chooser &ch) { custom_plot<GenoPheno<pwqBoundStrategy,linScalingStrategy>>(ch,d); }); }
  // interactions of settings: every feasible combination of values of any three settings
  for (auto &c0: cross([](Cfg &c) { if (c.grad||c.elit==3) return false; return true; })) for (int pl=0;pl<3;pl++) { Cfg c=c0; c.fullplot=pl==2; m.add("cross "+c.str()+" plot="+std::to_string(pl),[=](Chooser &ch) { int st=ch.choose(3)*4-1; CrossScript s(ch,6,c.maximize?-1:1,3); body(ch,c,[&](int g,const dMat &q,const dMat &p) { return s(g,q,p); },0,st,12,pl>0); }); }
  int rc=m.run(); rmdir(scratch.c_str()); return rc;
}
