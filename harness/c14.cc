// C14: maximizing f versus minimizing -f, along every ranking history and for every option.
#include "cross.hpp"
using namespace vm;
static void compare(Chooser &ch,Cfg c,ValFn vals,int maxgen,const CMASolutions *from=nullptr) {
  ExtraFn e=[&](const dVec &x,int) { return std::floor(8*x[0])/8+0.5+0.125*x.sum(); };
  auto g=[](const double *x,int n) { dVec v(n); for (int i=0;i<n;i++) v[i]=0.5*(i+1)-x[i]; return v; };
  Cfg mn=c; mn.maximize=false; Cfg mx=c; mx.maximize=true;
  Trace a=play(mn,vals,e,maxgen,from,[&](const double *x,int n) { return g(x,n); }); states_of(ch,a); ch.checked();
  Trace b=play(mx,[&](int gen,const dMat &m,const dMat&) { std::vector<double> v(m.cols(),0.0); if (gen<(int)a.script.size()) v=a.script[gen]; v.resize(m.cols(),0.0); for (auto &x: v) x=-x; return v; },[&](const dVec &x,int gg) { return -e(x,gg); },maxgen,from,[&](const double *x,int n) { return dVec(-g(x,n)); });
  same_trace(a,b,true);
}
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C14"); bool T=m.thorough(); int A[]={0,3,6,9,12};
  auto add=[&](Cfg c,int depth,int shifts,bool ties) { m.add(c.str()+" depth="+std::to_string(depth)+" shifts="+std::to_string(shifts)+(ties?"":" strict"),[=](Chooser &ch){ Levels lv; compare(ch,c,[&](int,const dMat &q,const dMat&) { return lv.next(ch,q.cols(),shifts,ties); },depth); }); };
  for (int a: A) for (int opt=0;opt<14;opt++) {
    Cfg c; c.algo=a; c.dim=a==12?6:2; c.lambda=3; c.max_hist=2;
    switch(opt) { case 1: c.elit=1; break; case 2: c.elit=2; c.gp=GP_PWQ; break; case 3: c.tpa=2; c.lambda=4; break; case 4: c.uh=true; break; case 5: c.lazy=true; c.lambda=4; break; case 6: c.gp=GP_PWQLIN; c.initf=true; break; case 7: c.gp=GP_CUSTOM; c.fixed={{1,0.4}}; break; case 8: c.ftarget=-1.5; break; case 9: c.grad=true; c.edm=true; break; case 10: c.grad=true; c.ugrad=true; c.edm=true; break; case 11: c.elit=3; break; case 12: c.uh=true; c.elit=1; c.grad=true; break; case 13: c.edm=true; c.gp=GP_PWQ; break; }
    if (c.lambda==4) { add(c,2,T?2:1,T); continue; }
    add(c,T?3:2,3,true); if (!T&&(opt==0||opt==1||opt==8)) add(c,3,3,false);
  }
  for (int a=0;a<15;a++) for (int opt=0;opt<4;opt++) { Cfg c; c.algo=a; c.dim=c.is_vd()?6:2; c.lambda=4; c.restarts=3; if (opt==1) c.elit=3; if (opt==2) { c.elit=1; c.tpa=2; c.edm=true; } if (opt==3) { c.ftarget=1e-3; c.grad=true; } if (c.strat()) c.max_fevals=150;
    int L=c.strat()?12:15; int mg=c.strat()?70:90;
    m.add("segments "+c.str(),[=](Chooser &ch) { std::vector<int> seg; int F[]={F_SPHERE,F_LINEAR,F_NOISE,F_CONST,F_WORSE}; compare(ch,c,[&](int gen,const dMat &q,const dMat &p) { int s=std::min(gen/L,2); while((int)seg.size()<=s) seg.push_back(F[ch.choose(5)]); return famgen(seg[s],gen,p); },mg); }); }
  // starting from a previous solution
  for (int a: A) for (int opt=0;opt<4;opt++) { Cfg c; c.algo=a; c.dim=a==12?6:2; c.lambda=3; if (opt==1) c.uh=true; if (opt==2) { c.grad=true; c.edm=true; } if (opt==3) { c.elit=1; c.gp=GP_PWQ; c.initf=true; } m.add("resume "+c.str(),[=](Chooser &ch) { Levels l0; Trace t0; Cfg k=c; k.alloff=true; Run r(k); r.values=[&](int,const dMat &q,const dMat&) { return l0.place({0,1,2},2); }; r.onprogress=[&](const CMASolutions&,int) { return r.gen+1>=2?1:0; }; r.start(); r.s->optimize_custom(); CMASolutions s=r.s->sols(); Levels lv; compare(ch,c,[&](int,const dMat &q,const dMat&) { return lv.next(ch,q.cols(),2,true); },2,&s); }); }
  // switching maximization off again restores minimization
  for (int a: A) { Cfg c; c.algo=a; c.dim=a==12?6:2; c.lambda=3; c.maxtoggle=true; m.add("toggle "+c.str(),[=](Chooser &ch) { Levels lv; Cfg d=c; d.maxtoggle=false; ExtraFn e=[](const dVec &x,int) { return x[0]; }; Trace x=play(d,[&](int,const dMat &q,const dMat&) { return lv.next(ch,q.cols(),1,true); },e,2); Trace y=play(c,[&](int g,const dMat &q,const dMat&) { return g<(int)x.script.size()?x.script[g]:std::vector<double>(q.cols(),0.0); },e,2); ch.checked(); states_of(ch,x); same_trace(x,y); }); }
  // long runs, larger shapes
  for (int a: A) for (int opt=0;opt<8;opt++) for (int dl=0;dl<4;dl++) { Cfg c; c.algo=a; int D[]={6,10,25,7},L[]={5,-1,7,101}; c.dim=D[dl]; c.lambda=L[dl]; if (opt<4) c.alloff=true; switch(opt) { case 1: c.elit=1; break; case 2: c.tpa=2; c.gp=GP_PWQ; c.uh=true; break; case 3: c.lazy=true; c.gp=GP_PWQLIN; c.edm=true; break; case 4: c.max_hist=7; break; case 5: c.ftarget=1e-2; c.gp=GP_LINVEC; break; case 6: case 7: if (dl>1) continue; c.grad=true; c.ugrad=opt==6; c.alloff=true; break; } int G=(dl<2?170:25)*(T?2:1);
    m.add("long "+c.str(),[=](Chooser &ch) { int F[]={F_ELLI,F_LINEAR,F_NOISE,F_NEG,F_PLATEAU,F_CONST}; int k=ch.choose(T?6:4); compare(ch,c,[=](int gen,const dMat&,const dMat &p) { return famgen(F[k],gen,p); },G); }); }
  // interactions of settings: every feasible combination of values of any three settings
  for (auto &c: cross([](Cfg &c) { c.maximize=false; return true; })) m.add("cross "+c.str(),[=](Chooser &ch) { CrossScript s(ch,10); compare(ch,c,[&](int g,const dMat &q,const dMat &p) { return s(g,q,p); },20); });
  return m.run();
}
