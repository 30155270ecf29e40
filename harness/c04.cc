// C04: the run stops exactly when an enabled criterion holds, checked at every generation boundary against independent criteria.
#include "cross.hpp"
#include "stopref.hpp"
using namespace vm;
static double fam4(int k,const dVec &x,int gen,int slot) { int n=x.size(); switch(k) { case 20: return std::fabs(x[0]); case 21: return -x[0]*1e3; case 22: return 1e14*x[0]*x[0]+1e-6*x.squaredNorm(); case 23: return (double)(slot/2); case 24: return -1e-13*gen+slot; case 25: return -gen*1.0+slot; case 26: return std::fabs(x[n-1]-1)+1e8*std::fabs(x[0]); } return fam(k,x,gen,slot); }
static void body(Chooser &ch,const Cfg &c,std::function<std::vector<double>(int,const dMat&,const dMat&)> vals,int maxgen,std::function<void(CMASolutions&,int)> poke=nullptr) {
  Run r(c); r.values=vals; r.keep=false; r.extra=[](const dVec &x,int) { return x.squaredNorm(); }; r.start(); StopRef sr(c,r.s->lambda()); Ref ref(c,r.s->lambda()); dVec mprev; uint64_t h=0; int gens=0;
  for (;;) {
    bool st=r.s->stop(); CMASolutions &Q=r.s->sols(); int status=Q.run_status(); View v=view_of(Q);
    if (gens==0) { if (st||status) fail("first","stopped before the first generation"); }
    else { std::string e=sr.judge(st,st?status:0,v,r.ncalls,gens,ref.pc); ch.checked(); if (!e.empty()) fail("stop","generation "+std::to_string(gens)+": "+e); if (!st&&status) fail("status","running, but status is "+std::to_string(status)); ch.state(vmc::mix(v.hash(),status)); h=vmc::mix(h,status); }
    bool st2=r.s->stop(); if (st2!=st||r.s->sols().run_status()!=status) fail("again","asking again changed the answer: "+std::to_string(st)+"/"+std::to_string(status)+" then "+std::to_string(st2)+"/"+std::to_string(r.s->sols().run_status()));
    if (st) { if (getenv("VMC_DEBUG")) fprintf(stderr,"STATUS %s\n",StopRef::name(status)); std::string m=Q.status_msg(); bool err=m.find("[Error]")!=std::string::npos; if (m.empty()||err!=(status<0)) fail("msg","status "+std::to_string(status)+" has message '"+m+"'"); break; }
    if (gens>=maxgen) break;
    if (poke) poke(Q,gens);
    Dist b=dist_of(Q,c); ref.asked(b,gens); r.generation(); gens++; CMASolutions &S=r.s->sols(); Dist a=dist_of(S,c); std::vector<dVec> X; std::vector<double> fv; for (int i=0;i<S.size();i++) { X.push_back(S.get_candidate(i).get_x_dvec()); fv.push_back(S.get_candidate(i).get_fvalue()); }
    ref.step(b,a,X,r.g,mprev,gens-1,1e-3); mprev=b.m; sr.generation(fv);
  }
  ch.outcome(vmc::mix(h,gens));
}
// the whole run through the built-in loop: same stopping generation, return code by sign
static void whole(Chooser &ch,const Cfg &c,ValFn vals,int maxgen) {
  Run r(c); r.keep=false; r.extra=[](const dVec &x,int) { return x.squaredNorm(); }; r.env.g=[](const double *x,int n) { dVec g(n); for (int i=0;i<n;i++) g[i]=2*x[i]; return g; }; r.values=vals; StopRef *sr=nullptr; Ref *ref=nullptr; dVec mprev; Dist b; int gens=0; View last; std::string err; bool cut=false; long lc=0;
  r.after_ask=[&](const dMat&) { if (gens>0) { std::string e=sr->judge(false,0,last,lc,gens,ref->pc); ch.checked(); if (!e.empty()&&err.empty()) err="generation "+std::to_string(gens)+": "+e; } b=dist_of(r.s->sols(),c); ref->asked(b,gens); };
  r.after_tell=[&]() { CMASolutions &S=r.s->sols(); gens++; Dist a=dist_of(S,c); std::vector<dVec> X; std::vector<double> fv; for (int i=0;i<S.size();i++) { X.push_back(S.get_candidate(i).get_x_dvec()); fv.push_back(S.get_candidate(i).get_fvalue()); } ref->step(b,a,X,r.g,mprev,gens-1,1e-3); mprev=b.m; sr->generation(fv); last=view_of(S); };
  r.onprogress=[&](const CMASolutions &q,int) { if (gens) last=view_of(q); lc=r.ncalls; if (r.gen+1>=maxgen) { cut=true; return 1; } return 0; };
  r.start(); StopRef s2(c,r.s->lambda()); Ref r2(c,r.s->lambda()); sr=&s2; ref=&r2; int ret=r.s->optimize_custom(); int st=r.s->sols().run_status(); if (!err.empty()) fail("stop",err); ch.checked();
  if (!cut) { std::string e=s2.judge(true,st,last,lc,gens,r2.pc); if (!e.empty()) fail("stop","final, generation "+std::to_string(gens)+": "+e); }
  if ((ret==0)!=(st>=0)) fail("return","optimize() returned "+std::to_string(ret)+" with status "+std::to_string(st)); ch.state(vmc::mix(gens,st)); ch.outcome(vmc::mix(gens,st));
}
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C04"); bool T=m.thorough(); int A[]={0,3,6,9,12};
  auto dimof=[](int a,int d) { return a==12?std::max(d,6):d; };
  // budgets and target, on every ranking history
  for (int a: A) for (int k=0;k<14;k++) for (int how=0;how<2;how++) { Cfg c; c.algo=a; c.dim=dimof(a,2); c.lambda=3;
    switch(k) { case 0: c.max_fevals=0; break; case 1: c.max_fevals=1; break; case 2: c.max_fevals=3; break; case 3: c.max_fevals=4; break; case 4: c.max_fevals=9; break; case 5: c.max_fevals=10; c.max_iter=3; break; case 6: c.max_iter=0; break; case 7: c.max_iter=1; break; case 8: c.max_iter=3; break; case 9: c.ftarget=-1; break; case 10: c.ftarget=-2; c.max_iter=4; break; case 11: c.ftarget=0; c.off={FTARGET}; c.max_fevals=8; break; case 12: c.max_fevals=5; c.max_iter=2; c.off={MAXFEVALS,MAXITER}; break; case 13: c.ftarget=-0.5; c.maximize=true; break; }
    int depth=T?4:3; m.add((how?"optimize ":"")+c.str()+" depth="+std::to_string(depth),[=](Chooser &ch) { Levels lv; ValFn f=[&](int,const dMat &q,const dMat&) { auto v=lv.next(ch,q.cols(),2,!how); return v; }; if (how) whole(ch,c,f,depth+1); else body(ch,c,f,depth); }); }
  // other calls count in the budget too
  for (int a: A) for (int opt=0;opt<3;opt++) for (int b: {6,7,11,14,20}) { Cfg c; c.algo=a; c.dim=dimof(a,2); c.lambda=3; c.alloff=true; c.on={MAXFEVALS}; c.max_fevals=b; if (opt==0) c.grad=true; if (opt==1) c.uh=true; if (opt==2) { c.initf=true; c.elit=1; }
    m.add("extra "+c.str(),[=](Chooser &ch) { Levels lv; whole(ch,c,[&](int,const dMat &q,const dMat&) { return lv.next(ch,q.cols(),2,false); },4); }); }
  // function tolerance and equal values: every history of best / k-best values
  for (int a: {0,6}) for (int hist: {-1,1,2,3,5}) for (double ftol: {-1.0,0.5,1e-3,1e-14,0.0}) { Cfg c; c.algo=a; c.dim=2; c.lambda=hist<0?30:3; c.max_hist=hist; c.ftol=ftol; c.alloff=true; c.on={TOLHISTFUN}; int depth=hist<0?16:(T?8:6);
    m.add("tolfun "+c.str(),[=](Chooser &ch) { std::vector<double> B={0,ftol<1e-6?1e-13:0.5,1e-3*0.999,1-1e-13}; body(ch,c,[&](int gen,const dMat &q,const dMat&) { int k; if (hist<0) { static thread_local int cur; if (gen%5==0||gen==10||gen==12) cur=ch.choose(4); k=cur; } else k=ch.choose(4); std::vector<double> v(q.cols()); for (int i=0;i<(int)v.size();i++) v[i]=B[k]+i; return v; },depth); }); }
  for (int l: {4,7,20}) for (int hist: {9,60,200}) { Cfg c; c.algo=6; c.dim=2; c.lambda=l; c.max_hist=hist; c.alloff=true; c.on={TOLHISTFUN}; m.add("tolfun flat "+c.str(),[=](Chooser &ch) { int from=ch.choose(6),lev=ch.choose(3); body(ch,c,[&](int gen,const dMat &q,const dMat&) { std::vector<double> v(q.cols()); for (int i=0;i<(int)v.size();i++) v[i]=(gen<from?(lev==0?-gen:lev==1?gen:1e-12*gen):0)+0.5*i; return v; },60); }); }
  for (int a: {0,6,3,9}) for (int l: {3,4,5,8,9}) for (int hist: {1,2,3,4,-1}) { Cfg c; c.algo=a; c.dim=3; c.lambda=l; c.max_hist=hist; c.alloff=true; c.on={EQUALFUNVALS}; int depth=T?9:7;
    m.add("equal "+c.str(),[=](Chooser &ch) { body(ch,c,[&](int gen,const dMat &q,const dMat&) { int k=ch.choose(3); int n=q.cols(),kc=std::min(n-1,(int)(1+std::ceil(0.1+n/4.0))); std::vector<double> v(n); for (int i=0;i<n;i++) v[i]=-gen+(k==0?i:k==1?(i>kc):(i>=kc?1:0)); return v; },depth); }); }
  // stagnation: every sequence of trends
  for (int a: {0,9}) for (int l: {3,4}) for (int L: {4,5,7}) { Cfg c; c.algo=a; c.dim=2; c.lambda=l; c.alloff=true; c.on={STAGNATION}; int S=T?8:6; m.add("stagnation L="+std::to_string(L)+" "+c.str(),[=](Chooser &ch) { std::vector<int> seg; double cur=0; body(ch,c,[&](int gen,const dMat &q,const dMat&) { int s=std::min(gen/L,S-1); while((int)seg.size()<=s) seg.push_back(ch.choose(3)); cur+=seg[s]==0?-1:seg[s]==1?1:-10; std::vector<double> v(q.cols()); for (int i=0;i<(int)v.size();i++) v[i]=cur+2*i; return v; },L*S); }); }
  { for (int d: {2,12}) { Cfg c; c.algo=6; c.dim=d; c.lambda=4; c.alloff=true; c.on={STAGNATION}; m.add("stagnation long "+c.str(),[=](Chooser &ch) { int L=45; std::vector<int> seg; double cur=0; body(ch,c,[&](int gen,const dMat &q,const dMat&) { int s=std::min(gen/L,7); while((int)seg.size()<=s) seg.push_back(ch.choose(3)); cur+=seg[s]==0?-1:seg[s]==1?0.5:-0.01; std::vector<double> v(q.cols()); for (int i=0;i<(int)v.size();i++) v[i]=cur+3*i; return v; },L*8); }); } }
  // the window of median values slides: what is left of the oldest ones decides
  for (int d: {1,2,3}) for (int l: {4,7,9}) { Cfg c; c.algo=6; c.dim=d; c.lambda=l; c.alloff=true; c.on={STAGNATION}; m.add("stagnation window "+c.str(),[=](Chooser &ch) { int G0=130+25*ch.choose(2),K=15+12*ch.choose(T?9:6); body(ch,c,[&](int gen,const dMat &q,const dMat&) { std::vector<double> v(q.cols()); for (int i=0;i<(int)v.size();i++) v[i]=(gen<G0?-gen:-(G0-K))+0.01*i; return v; },420); }); }
  // enabling and disabling criteria: every sequence of four calls, the last call for a criterion counts
  m.add("switches",[=](Chooser &ch) { Cfg c; c.dim=2; c.lambda=4; c.alloff=true; Run r(c); r.keep=false; r.values=[](int,const dMat &q,const dMat&) { return std::vector<double>(q.cols(),-3.0); }; r.start(); for (int g=0;g<9;g++) r.generation(); const CMASolutions &Q=r.s->sols();
    CMAParameters<> p(std::vector<double>(2,0.3),0.5,4,7); p.set_max_iter(5); p.set_max_fevals(20); p.set_ftarget(-2); static const int K[]={MAXITER,MAXFEVALS,FTARGET}; CMAStopCriteria<GenoPheno<NoBoundStrategy>> sc; for (int k: ALL_CRIT) if (sc.set_criteria_active(k,false)) fail("switch","criterion "+std::to_string(k)+" is unknown"); if (sc.set_criteria_active(1234,true)!=1) fail("switch","an unknown criterion was accepted"); if (sc.stop(p,Q)) fail("switch","stopped with every criterion disabled"); bool on[3]={false,false,false}; std::string h;
    for (int i=0;i<4;i++) { int k=ch.choose(6); on[k/2]=k%2; sc.set_criteria_active(K[k/2],k%2); h+=" "+std::to_string(K[k/2])+(k%2?" on":" off"); int got=sc.stop(p,Q); bool any=on[0]||on[1]||on[2],fit=got==0&&!any; for (int j=0;j<3;j++) if (on[j]&&got==K[j]) fit=true; ch.checked(); if (!fit) fail("switch","after"+h+": stop answers "+std::to_string(got)); ch.state(on[0]+2*on[1]+4*on[2]); }  ch.outcome(on[0]+2*on[1]+4*on[2]); });
  // automatic iteration limit
  for (int a: {0,6,12}) for (int l: {4,9}) for (int d: {1,2}) for (int fx=0;fx<2;fx++) { Cfg c; c.algo=a; c.dim=a==12?10:d; c.lambda=a==12?100:l; c.alloff=true; c.on={AUTOMAXITER}; if (fx) { if (c.dim<2) continue; c.fixed={{0,0.3}}; } m.add("auto "+c.str(),[=](Chooser &ch) { int k=ch.choose(2); body(ch,c,[&](int gen,const dMat&,const dMat &p) { return famgen(k?F_NOISE:F_CONST,gen,p); },1200); }); }
  // geometric criteria: objective families times criteria subsets (all, one alone, all but one, none)
  for (int a: A) for (int opt=0;opt<12;opt++) for (int sub=0;sub<26;sub++) { Cfg c; c.algo=a; c.dim=dimof(a,2); c.lambda=6; int G=T?700:320;
    std::vector<int> F; std::function<void(CMASolutions&,int)> poke; int L=1<<30,S=1;
    switch(opt) { case 0: F={F_SPHERE,20,22,26}; break; case 1: c.xtol=1e-2; F={F_SPHERE,F_LINEAR,F_NOISE}; L=15; S=3; break; case 2: c.x0=1e10; c.sigma=1e-5; F={F_SPHERE,F_NOISE,F_CONST}; L=12; S=2; break; case 3: c.x0=1e6; c.sigma=1e-8; F={F_CONST,F_NOISE,25}; L=12; S=2; break; case 4: F={21,F_LINEAR}; break; case 5: poke=[](CMASolutions &q,int g) { if (g==5) q.set_sigma(1e21); }; F={25,F_NOISE,F_WORSE}; L=6; S=2; break; case 6: c.dim=dimof(a,3); c.max_hist=2; F={23,25,24,F_CONST}; L=3; S=4; break; case 7: c.dim=dimof(a,1); F={F_SPHERE,F_CONST,F_NOISE}; break; case 8: c.gp=GP_PWQ; F={F_SPHERE,F_LINEAR}; L=20; S=2; break; case 9: c.max_fevals=60; c.max_iter=12; c.ftarget=-8; F={25,F_CONST,F_SPHERE}; L=4; S=3; break; case 10: c.tpa=2; F={F_SPHERE,F_NOISE}; L=25; S=2; break; case 11: c.fixed={{1,0.3}}; c.lazy=true; F={F_SPHERE,20,F_NOISE}; L=30; S=2; break; }
    if (sub>=1&&sub<=12) { c.alloff=true; c.on={ALL_CRIT[sub-1]}; } else if (sub>=13&&sub<=24) c.off={ALL_CRIT[sub-13]}; else if (sub==25) { c.alloff=true; G=60; }
    m.add("geo"+std::to_string(opt)+" "+c.str(),[=](Chooser &ch) { std::vector<int> seg; ValFn f=[&](int gen,const dMat&,const dMat &p) { int s=std::min(gen/L,S-1); while((int)seg.size()<=s) seg.push_back(F[ch.choose((int)F.size())]); std::vector<double> v(p.cols()); for (int i=0;i<p.cols();i++) v[i]=fam4(seg[s],p.col(i),gen,i); return v; }; body(ch,c,f,G,poke); });
    if (!poke&&(sub==0||sub>12)) m.add("whole geo"+std::to_string(opt)+" "+c.str(),[=](Chooser &ch) { std::vector<int> seg; ValFn f=[&](int gen,const dMat&,const dMat &p) { int s=std::min(gen/L,S-1); while((int)seg.size()<=s) seg.push_back(F[ch.choose((int)F.size())]); std::vector<double> v(p.cols()); for (int i=0;i<p.cols();i++) v[i]=fam4(seg[s],p.col(i),gen,i); return v; }; whole(ch,c,f,G/2); }); }
  // every subset of the twelve criteria
  for (int a: A) for (int hi=0;hi<16;hi++) { Cfg c0; c0.algo=a; c0.dim=dimof(a,2); c0.lambda=4; c0.max_fevals=73; c0.max_iter=16; c0.ftarget=-13.5; c0.max_hist=2; c0.ftol=0.75; c0.xtol=0.3;
    m.add("subset"+std::to_string(hi)+" "+c0.str(),[=](Chooser &ch) { Cfg c=c0; int mask=hi*256+ch.choose(256); for (int i=0;i<12;i++) if (mask>>i&1) c.off.push_back(ALL_CRIT[i]); int k=ch.choose(3); body(ch,c,[&](int gen,const dMat &q,const dMat &p) { std::vector<double> v(q.cols()); for (int i=0;i<(int)v.size();i++) v[i]=k==0?-gen+i:k==1?-0.6*gen+i/3:fam(F_NOISE,p.col(i),gen,i); return v; },24); }); }
  // interactions of settings: every feasible combination of values of any three settings
  for (auto &c0: cross([](Cfg &c) { if (c.elit==3) c.elit=0; c.alloff=false; return true; })) for (int b=0;b<2;b++) { Cfg c=c0; if (b) c.max_fevals=60; else c.max_iter=25; m.add("cross "+c.str(),[=](Chooser &ch) { CrossScript s(ch,13,c.maximize?-1:1,5); whole(ch,c,[&](int g,const dMat &q,const dMat &p) { return s(g,q,p); },60); }); }
  return m.run();
}
