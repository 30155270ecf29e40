// C05: truthful records. All ranking histories to a depth, every algorithm x option; after each tell the stored
// candidates are compared with the objective's own log.
#include "cross.hpp"
using namespace vm;
struct Rec { dVec x; double v; };
static bool has(std::vector<Rec> &pool,const Candidate &c) { for (size_t i=0;i<pool.size();i++) if (same(pool[i].x,c.get_x_dvec()) && pool[i].v==c.get_fvalue()) { pool.erase(pool.begin()+i); return true; } return false; }
static void body(Chooser &ch,Cfg c,int depth,int shifts,bool ties,std::function<std::vector<double>(int,const dMat&)> fam=nullptr) {
  Run r(c); Levels lv; double sgn=c.maximize?-1:1;
  r.values=[&](int gen,const dMat &m,const dMat &ph) { auto v=fam?fam(gen,ph):lv.next(ch,m.cols(),shifts,ties); for (auto &x: v) x*=sgn; return v; };
  r.extra=[&](const dVec &x,int) { return c.elit?sgn*(double)0.5:sgn*(0.25*x[0]); };   // initial value, perturbed re-evaluations, gradient
  std::vector<Rec> all; Rec init; bool hasinit=false;
  r.after_eval=[&]() { ch.checked(); for (size_t i=0;i<r.hit.size();i++) if (!r.hit[i]) fail("lost","generation "+std::to_string(r.gen)+": candidate "+std::to_string(i)+" was never evaluated"); };
  bool elit=c.elit!=0; Rec ref; bool refok=false;
  r.oncall=[&](const dVec &x,double v,int slot) { if (r.gen<0 && !hasinit && (c.elit||c.initf)) { hasinit=true; init.x=x; init.v=v*sgn; } };
  bool haveb=false; double best=0,worst=0; std::vector<Rec> prevbest; Candidate pb;
  r.after_ask=[&](const dMat&) { pb=r.s->sols().get_best_seen_candidate(); };
  r.after_tell=[&]() {
    ch.checked(); View v=view_of(r.s->sols()); std::vector<Rec> pool; for (int i=0;i<r.g.cols();i++) pool.push_back({r.g.col(i),sgn*r.vals[i]});
    if ((int)v.cand.size()!=(int)r.g.cols()) fail("size","candidate count "+std::to_string(v.cand.size()));
    int subst=0; double gmin=DINF,gmax=-DINF; std::vector<Rec> p2=pool;
    for (auto &k: v.cand) { if (!has(pool,k)) { subst++;
        bool ok=false;
        if (c.elit==1) ok=same(pb.get_x_dvec(),k.get_x_dvec())&&pb.get_fvalue()==k.get_fvalue();
        if (c.elit==2) ok=hasinit&&same(r.s->pheno(k.get_x_dvec()),init.x)&&k.get_fvalue()==init.v;
        if (!ok||subst>1||r.gen==0) fail("candidate","generation "+std::to_string(r.gen)+": stored candidate x="+vs(k.get_x_dvec())+" f="+ds(k.get_fvalue())+" is not a point/value pair of this generation"); }
      gmin=std::min(gmin,k.get_fvalue()); gmax=std::max(gmax,k.get_fvalue()); }
    for (auto &q: p2) { if (!elit) { gmin=std::min(gmin,q.v); gmax=std::max(gmax,q.v); } }
    if (!c.uh) {
      for (size_t i=1;i<v.cand.size();i++) if (v.cand[i-1].get_fvalue()>v.cand[i].get_fvalue()) fail("order","generation "+std::to_string(r.gen)+": candidates not ordered best to worst");
      if (v.best.get_fvalue()!=gmin) fail("best","generation "+std::to_string(r.gen)+": best candidate value "+ds(v.best.get_fvalue())+" but generation minimum is "+ds(gmin));
      // the reported best must be one of the generation's candidates holding that value
      bool ok=false; for (auto &k: v.cand) if (same(k.get_x_dvec(),v.best.get_x_dvec())&&k.get_fvalue()==v.best.get_fvalue()) ok=true; if (!ok) fail("bestpair","best candidate is not a candidate of the generation");
      for (auto &q: p2) { best=haveb?std::min(best,q.v):q.v; worst=haveb?std::max(worst,q.v):q.v; haveb=true; all.push_back(q); }
      double eb=best; if (hasinit&&init.v<eb) eb=init.v;
      if (v.bseen.get_fvalue()!=eb) fail("bestseen","generation "+std::to_string(r.gen)+": best seen value "+ds(v.bseen.get_fvalue())+" but the best value returned so far is "+ds(eb));
      if (!elit && v.wseen.get_fvalue()!=worst) fail("worstseen","generation "+std::to_string(r.gen)+": worst seen value "+ds(v.wseen.get_fvalue())+" but the worst value returned so far is "+ds(worst));
      bool bx=false,wx=elit; for (auto &q: all) { if (q.v==eb&&same(q.x,v.bseen.get_x_dvec())) bx=true; if (q.v==worst&&same(q.x,v.wseen.get_x_dvec())) wx=true; }
      if (hasinit&&init.v==eb&&same(r.s->pheno(v.bseen.get_x_dvec()),init.x)) bx=true;
      if (!bx) fail("bestseenpair","best seen point "+vs(v.bseen.get_x_dvec())+" never had value "+ds(eb)); if (!wx) fail("worstseenpair","worst seen point never had value "+ds(worst));
    }
    ch.state(v.hash());
  };
  int done=0; r.onprogress=[&](const CMASolutions &,int) { return done++>=depth?1:0; };
  r.start(); r.s->optimize_custom();
  if (c.strat()==0 && c.elit!=3 && r.gen+1!=depth) fail("depth","run ended after "+std::to_string(r.gen+1)+" generations");
  ch.outcome(hash_calls(r.log));
}
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C05"); bool T=m.thorough();
  auto add=[&](Cfg c,int depth,int shifts,bool ties=true) { c.alloff=true; m.add(c.str()+" depth="+std::to_string(depth)+" shifts="+std::to_string(shifts)+(ties?"":" strict"),[=](Chooser &ch){ body(ch,c,depth,shifts,ties); }); };
  int A[]={0,3,6,9,12};
  for (int a: A) for (int opt=0;opt<10;opt++) {
    Cfg c; c.algo=a; c.dim=a==12?6:2; c.lambda=3;
    switch(opt) { case 1: c.elit=1; break; case 2: c.elit=2; break; case 3: c.maximize=true; break; case 4: c.uh=true; c.lambda=4; break; case 5: c.tpa=2; break; case 6: c.gp=GP_PWQLIN; c.lazy=true; break; case 7: c.initf=true; c.gp=GP_CUSTOM; break; case 8: c.grad=true; c.ugrad=false; c.gp=GP_PWQ; break; case 9: c.maximize=true; c.elit=1; c.lambda=4; break; }
    if (opt==4) { add(c,T?3:2,T?2:1,T?false:true); continue; }
    if (c.lambda==4) { add(c,2,3); if (T) add(c,3,2,false); continue; }
    add(c,T?4:(opt==0?3:2),3,true); if (!T) add(c,3,3,false);
  }
  for (int a: A) { Cfg c; c.algo=a; c.dim=a==12?6:3; c.lambda=4; add(c,2,3); if (T) { c.lambda=5; add(c,2,2); } c.lambda=2; add(c,5,3); c.lambda=6; c.seed=11; add(c,1,1); }
  for (int l: {7,9,12}) { Cfg c; c.lambda=l; c.dim=2; m.add("two-level "+c.str(),[=](Chooser &ch) { // larger populations: every two-level split
      Cfg k=c; k.alloff=true; Run r(k); r.values=[&](int,const dMat &q,const dMat&) { std::vector<double> v(q.cols()); for (auto &x: v) x=ch.choose(2); return v; };
      r.start(); r.generation(); View v=view_of(r.s->sols()); ch.checked(); ch.state(v.hash()); std::vector<Rec> pool; for (int i=0;i<r.g.cols();i++) pool.push_back({r.g.col(i),r.vals[i]}); int ones=0;
      for (size_t i=0;i<v.cand.size();i++) { if (!has(pool,v.cand[i])) fail("candidate","stored candidate is not a point/value pair of the generation"); if (i&&v.cand[i-1].get_fvalue()>v.cand[i].get_fvalue()) fail("order","not ordered"); } }); }
  // long runs, larger shapes
  for (int a: A) for (int opt=0;opt<7;opt++) for (int dl=0;dl<4;dl++) { Cfg c; c.algo=a; int D[]={6,10,25,7},L[]={5,-1,7,101}; c.dim=D[dl]; c.lambda=L[dl]; c.alloff=true; switch(opt) { case 1: c.uh=true; break; case 2: c.tpa=2; c.gp=GP_PWQ; break; case 3: c.lazy=true; c.gp=GP_PWQLIN; break; case 4: c.elit=1; c.initf=true; break; case 5: c.maximize=true; c.elit=2; c.gp=GP_LINVEC; break; case 6: c.maximize=true; c.gp=GP_CUSTOM; break; } int G=(dl<2?170:25)*(T?2:1);
    m.add("long "+c.str(),[=](Chooser &ch) { int F[]={F_ELLI,F_LINEAR,F_NOISE,F_NEG,F_PLATEAU,F_CONST}; int k=ch.choose(T?6:5); body(ch,c,G,0,true,[=](int gen,const dMat &p) { return famgen(F[k],gen,p); }); }); }
  // interactions of settings: every feasible combination of values of any three settings
  for (auto &c: cross([](Cfg &c) { if (c.elit==3) c.elit=0; c.alloff=true; return true; })) m.add("cross "+c.str(),[=](Chooser &ch) { CrossScript s(ch,10); body(ch,c,20,1,true,[&](int g,const dMat &p) { return s(g,p,p); }); });
  return m.run();
}
