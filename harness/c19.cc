// C19: the four ways of driving a search are equivalent, along every ranking history.
#include "cross.hpp"
using namespace vm;
struct XKey { std::vector<uint64_t> b; bool operator<(const XKey &o) const { return b<o.b; } };
static XKey key(const double *x,int n) { XKey k; for (int i=0;i<n;i++) k.b.push_back(vmc::dbits(x[i]==0?0.0:x[i])); return k; }
static void body(Chooser &ch,Cfg c,ValFn vals,int maxgen,const CMASolutions *from=nullptr) {
  ExtraFn e=[](const dVec &x,int) { return 0.25*x[0]+x.squaredNorm(); }; auto g=[](const double *x,int n) { dVec v(n); for (int i=0;i<n;i++) v[i]=2*x[i]+0.25*(i==0); return v; };
  bool bad=false; std::string why;
  Trace a; { Run r(c); r.values=[&](int gen,const dMat &m,const dMat &p) { if (m.cols()!=r.s->lambda()||m.rows()!=c.dim) fail("shape","ask returned "+std::to_string(m.rows())+"x"+std::to_string(m.cols())); auto v=vals(gen,m,p); a.script.push_back(v); return v; }; r.extra=e; r.env.g=g; r.after_ask=[&](const dMat &m) { a.asked.push_back(m); };
    r.onprogress=[&](const CMASolutions &s,int l) { a.prog.push_back({view_of(s),l}); return (int)a.prog.size()>maxgen?1:0; }; 
    r.after_eval=[&]() { for (char h: r.hit) if (!h) fail("eval","a candidate was not evaluated at the phenotype it was given"); };
    r.start(from); a.ret=r.s->optimize_custom(); a.fin=view_of(r.s->sols(),true); a.log=r.log; }
  states_of(ch,a);
  std::map<XKey,std::vector<double>> tab; for (auto &k: a.log) tab[key(k.x.data(),k.x.size())].push_back(k.v);
  for (int how=0;how<3;how++) { // 0: optimize(), 1: user loop, 2: one call
    if (how==1 && (c.strat()||c.elit||c.initf||c.edm)) continue; // a plain loop has no restarts, initial or final evaluations
    ch.checked(); Trace b; Env env; std::map<XKey,int> used; long n=0;
    env.f=[&](const double *x,int d) { n++; XKey k=key(x,d); auto it=tab.find(k); if (it==tab.end()||used[k]>=(int)it->second.size()) { dVec xx(d); for (int i=0;i<d;i++) xx[i]=x[i]; fail("points",std::string(how==0?"optimize()":how==1?"user loop":"one-call entry point")+": call "+std::to_string(n)+" at "+vs(xx)+", a point the step-by-step run did not evaluate"); } return it->second[used[k]++]; };
    env.g=g; env.progress=[&](const CMASolutions &s,int l) { b.prog.push_back({view_of(s),l}); return (int)b.prog.size()>maxgen?1:0; };
    if (how==2) { CMASolutions s=onecall(c,&env,from); b.fin=view_of(s,true); b.ret=a.ret; }
    else { auto s=make_search(c,&env,from); if (how==0) b.ret=s->optimize(); else { while(!s->stop()) { dMat m=s->ask(); if (m.cols()!=s->lambda()||m.rows()!=c.dim) fail("shape","ask"); s->eval(m,s->phenoM(m)); s->tell(); s->inc(); } b.ret=a.ret; } b.fin=view_of(s->sols(),true); }
    if (n!=(long)a.log.size()) fail("calls","way "+std::to_string(how)+": "+std::to_string(n)+" objective calls vs "+std::to_string(a.log.size()));
    b.asked=a.asked; same_trace(a,b,true,1,false);
  }
}
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C19"); bool T=m.thorough(); int A[]={0,3,6,9,12};
  for (int a: A) for (int opt=0;opt<15;opt++) for (int bn=0;bn<2;bn++) {
    Cfg c; c.algo=a; c.dim=a==12?6:2; c.lambda=3; c.byname=bn;
    switch(opt) { case 1: c.elit=1; break; case 2: c.elit=2; c.gp=GP_PWQ; break; case 3: c.tpa=2; c.lambda=4; break; case 4: c.uh=true; break; case 5: c.lazy=true; break; case 6: c.gp=GP_PWQLIN; c.initf=true; break; case 7: c.gp=GP_CUSTOM; c.fixed={{1,0.4}}; break; case 8: c.maximize=true; break; case 9: c.grad=true; break; case 10: c.grad=true; c.ugrad=true; c.edm=true; break; case 11: c.elit=3; break; case 12: c.max_fevals=9; break; case 13: c.max_iter=2; c.gp=GP_LINVEC; break; case 14: c.ftarget=-1.0; c.gp=GP_LIN; break; }
    if (bn && opt%3) continue;
    int depth=T?3:2; bool ties=true; if (c.lambda==4) ties=false;
    m.add(c.str()+" depth="+std::to_string(depth),[=](Chooser &ch) { Levels lv; body(ch,c,[&](int,const dMat &q,const dMat&) { return lv.next(ch,q.cols(),c.lambda==4?1:2,ties); },depth); }); }
  for (int a=0;a<15;a++) for (int opt=0;opt<6;opt++) { Cfg c; c.algo=a; c.dim=c.is_vd()?6:2; c.lambda=opt==5?-1:4; c.restarts=3; c.byname=opt%2;
    switch(opt) { case 1: c.elit=3; break; case 2: c.elit=1; c.edm=true; c.gp=GP_PWQ; break; case 3: c.grad=true; c.gp=GP_LIN; break; case 4: c.uh=true; c.gp=GP_PWQLIN; break; }
    if (c.strat()) c.max_fevals=c.is_vd()?150:100; c.max_iter=23;
    m.add("segments "+c.str(),[=](Chooser &ch) { std::vector<int> seg; int F[]={F_SPHERE,F_CONST,F_NOISE,F_WORSE,F_LINEAR}; int L=8; body(ch,c,[&](int gen,const dMat &q,const dMat &p) { int s=std::min(gen/L,T?3:2); while((int)seg.size()<=s) seg.push_back(F[ch.choose(T?5:4)]); return famgen(seg[s],gen,p); },300); }); }
  // long runs, larger shapes
  for (int a: A) for (int opt=0;opt<9;opt++) for (int dl=0;dl<4;dl++) { Cfg c; c.algo=a; int D[]={6,10,25,7},L[]={5,-1,7,101}; if (dl>1&&opt>3&&!T) continue; c.dim=D[dl]; c.lambda=L[dl]; c.alloff=true; c.byname=dl==1; switch(opt) { case 1: c.gp=GP_PWQ; break; case 2: c.gp=GP_PWQLIN; c.maximize=true; break; case 3: c.gp=GP_LINVEC; c.lazy=true; break; case 4: c.gp=GP_CUSTOM; break; case 5: c.gp=GP_LIN; c.fixed={{1,0.4}}; break; case 6: c.uh=true; c.gp=GP_PWQ; break; case 7: c.tpa=2; c.gp=GP_LIN; break; case 8: c.elit=1; c.gp=GP_PWQLIN; break; } int G=dl<2?160:25; if (T) G*=2; double sg=c.maximize?-1:1;
    m.add("long "+c.str(),[=](Chooser &ch) { int F[]={F_ELLI,F_LINEAR,F_NOISE,F_CONST}; int k=ch.choose(T?4:2); body(ch,c,[=](int gen,const dMat&,const dMat &p) { auto v=famgen(F[k],gen,p); for (auto &x: v) x*=sg; return v; },G); }); }
  // starting from a previous solution of the same family (the one-call entry point of VD algorithms starts afresh)
  for (int a=0;a<12;a++) for (int opt=0;opt<6;opt++) { Cfg c; c.algo=a; c.dim=2; c.lambda=4; if (c.strat()) { c.restarts=2; c.max_iter=6; } switch(opt) { case 1: c.gp=GP_PWQLIN; break; case 2: c.elit=1; c.initf=true; break; case 3: c.uh=true; break; case 4: c.tpa=2; c.gp=GP_PWQ; break; case 5: c.grad=true; c.ugrad=true; c.maximize=true; break; }
    m.add("resumed "+c.str(),[=](Chooser &ch) { static const int F[]={F_SPHERE,F_NOISE,F_CONST}; Cfg k=c; k.algo=a-c.strat(); k.alloff=true; int f0=F[ch.choose(3)],g0=1+3*ch.choose(2); Run r(k); r.keep=false; r.extra=[](const dVec &x,int) { return x.squaredNorm(); }; r.values=[&](int gen,const dMat&,const dMat &p) { return famgen(f0,gen,p); }; r.start(); for (int i=0;i<g0;i++) r.generation(); CMASolutions s=r.s->sols(); int lv=F[ch.choose(3)]; body(ch,c,[&](int gen,const dMat&,const dMat &p) { return famgen(lv,gen,p); },40,&s); }); }
  // interactions of settings: every feasible combination of values of any three settings
  for (auto &c: cross([](Cfg&) { return true; })) m.add("cross "+c.str(),[=](Chooser &ch) { CrossScript s(ch,8,c.maximize?-1:1,3); body(ch,c,[&](int g,const dMat &q,const dMat &p) { return s(g,q,p); },16); });
  return m.run();
}
