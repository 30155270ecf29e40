// C06: invariance under strictly increasing transformations of the objective, along every ranking history.
#include "cross.hpp"
using namespace vm;
typedef double (*TF)(double);
static double t0(double v) { return v*1e3+7; } static double t1(double v) { return std::atan(v/4.0); } static double t2(double v) { return std::ldexp(v,-40)-1e3; } static double t3(double v) { return v>=0?std::exp(v):-std::exp(-v)+2; } static double t4(double v) { return v*v*v-1e6; } static double t5(double v) { return std::ldexp(v,900); } static double t6(double v) { return std::ldexp(v,3)+5; }
static TF TS[]={t0,t1,t2,t3,t4,t5}; 
static void compare(Chooser &ch,const Cfg &c,ValFn vals,int maxgen,int kind) { // kind 0: fixed transformations (small integers), 1: affine by powers of two, 2: rank based
  ExtraFn e=[&](const dVec &x,int) { return std::floor(8*x[0])/8+0.5; };
  Trace a=play(c,vals,e,maxgen); states_of(ch,a);
  std::vector<double> d; if (kind==2) { for (auto &k: a.log) d.push_back(c.maximize?-k.v:k.v); std::sort(d.begin(),d.end()); d.erase(std::unique(d.begin(),d.end()),d.end()); }
  auto rank=[&](double v) { auto it=std::lower_bound(d.begin(),d.end(),v); return it!=d.end()&&*it==v?(double)(it-d.begin()):v; };
  double sg=c.maximize?-1:1;
  for (int k=0;k<(kind==0?6:kind==1?1:3);k++) { ch.checked();
    auto T=[&](double w) { double v=sg*w; if (kind==0) v=TS[k](v); else if (kind==1) v=t6(v); else v=k==0?rank(v):k==1?-1.0/(1.0+rank(v)):std::ldexp(v,40); return sg*v; };
    Trace b=play(c,[&](int gen,const dMat &m,const dMat&) { std::vector<double> v(m.cols(),0.0); if (gen<(int)a.script.size()) v=a.script[gen]; v.resize(m.cols(),0.0); for (auto &x: v) x=T(x); return v; },[&](const dVec &x,int g) { return T(e(x,g)); },maxgen);
    same_trace(a,b,false); }
}
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C06"); bool T=m.thorough();
  int A[]={0,3,6,9,12};
  auto voff=[](Cfg &c) { c.off={TOLHISTFUN,EQUALFUNVALS,STAGNATION,FTARGET}; };
  auto add=[&](Cfg c,int depth,int shifts,bool ties) { voff(c); m.add(c.str()+" depth="+std::to_string(depth)+" shifts="+std::to_string(shifts)+(ties?"":" strict"),[=](Chooser &ch){ Levels lv; compare(ch,c,[&](int,const dMat &q,const dMat&) { return lv.next(ch,q.cols(),shifts,ties); },depth,c.uh?1:0); }); };
  for (int a: A) for (int opt=0;opt<10;opt++) {
    Cfg c; c.algo=a; c.dim=a==12?6:2; c.lambda=3;
    switch(opt) { case 1: c.elit=1; break; case 2: c.elit=2; break; case 3: c.tpa=2; c.lambda=4; break; case 4: c.uh=true; break; case 5: c.lazy=true; c.lambda=4; break; case 6: c.gp=GP_PWQLIN; c.initf=true; break; case 7: c.gp=GP_CUSTOM; c.fixed={{1,0.4}}; break; case 8: c.maximize=true; c.elit=1; break; case 9: c.noisy=true; c.gp=GP_PWQ; c.lambda=4; break; }
    if (c.lambda==4) { add(c,2,T?3:1,T); if (!T) add(c,1,1,true); continue; }
    add(c,T?3:2,3,true);
  }
  for (int a: A) { Cfg c; c.algo=a; c.dim=a==12?6:3; c.lambda=5; add(c,T?2:1,1,T?false:true); c.lambda=2; add(c,4,3,true); }
  // long runs and restarts: every sequence of segments of objective families
  for (int a=0;a<15;a++) for (int opt=0;opt<3;opt++) { Cfg c; c.algo=a; c.dim=c.is_vd()?6:2; c.lambda=4; c.restarts=3; voff(c); if (opt==1) c.elit=3; if (opt==2) { c.elit=1; c.tpa=2; } if (c.strat()) c.max_fevals=c.is_vd()?120:80;
    int L=c.strat()?12:15; int mg=c.strat()?70:45;
    m.add("segments "+c.str(),[=](Chooser &ch) { std::vector<int> seg; int F[]={F_SPHERE,F_LINEAR,F_NOISE,F_CONST}; compare(ch,c,[&](int gen,const dMat &q,const dMat &p) { int s=std::min(gen/L,2); while((int)seg.size()<=s) seg.push_back(F[ch.choose(T?4:3)]); return famgen(seg[s],gen,p); },mg,2); }); }
  // long runs, larger shapes
  for (int a: A) for (int opt=0;opt<6;opt++) for (int dl=0;dl<4;dl++) { Cfg c; c.algo=a; int D[]={6,10,25,7},L[]={5,-1,7,101}; c.dim=D[dl]; c.lambda=L[dl]; voff(c); switch(opt) { case 1: c.elit=1; break; case 2: c.tpa=2; c.gp=GP_PWQ; break; case 3: c.lazy=true; c.gp=GP_PWQLIN; break; case 4: c.elit=2; break; case 5: c.maximize=true; c.gp=GP_LINVEC; break; } int G=(dl<2?170:25)*(T?2:1);
    m.add("long "+c.str(),[=](Chooser &ch) { int F[]={F_ELLI,F_LINEAR,F_NOISE,F_NEG,F_PLATEAU,F_CONST}; int k=ch.choose(T?6:4); compare(ch,c,[=](int gen,const dMat&,const dMat &p) { return famgen(F[k],gen,p); },G,2); }); }
  // interactions of settings: every feasible combination of values of any three settings
  for (auto &c: cross([&](Cfg &c) { if (c.grad) return false; c.edm=false; c.alloff=false; voff(c); return true; })) m.add("cross "+c.str(),[=](Chooser &ch) { CrossScript s(ch,10,c.maximize?-1:1); compare(ch,c,[&](int g,const dMat &q,const dMat &p) { auto v=s(g,q,p); if (c.uh) for (auto &x: v) x=std::floor(x*64)/64; return v; },20,c.uh?1:2); });
  return m.run();
}
