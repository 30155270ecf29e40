// C11: restart schedules. Every outcome/ending history of the runs; every run replayed in a fresh plain search and compared; schedule, budget and returned run judged by an independent model.
#include "meta.hpp"
using namespace vm;
struct RunLog { int lambda=0; View first; std::vector<dMat> asked; std::vector<std::vector<double>> vals; std::vector<double> answers; std::vector<View> notes; std::vector<int> rets; long calls=0; bool closed=false; };
struct Plan { int level=0,trend=0,end=-1,fam=-1; };
typedef std::function<Plan(int run)> PlanFn;
static void body(Chooser &ch,const Cfg &c,PlanFn plan,bool api) {
  std::vector<RunLog> L; std::vector<Plan> P; Run r(c); r.keep=false; bool open=false; std::vector<double> pre; long total=0; std::vector<long> startcalls; int lastniter=-1;
  // a run begins with its notification at iteration 0; calls made since the previous run's last notification belong to it unless made by the distance estimate
  r.values=[&](int,const dMat &g,const dMat &p) { RunLog &l=L.back(); Plan &q=P.back(); int t=l.asked.size(),n=g.cols(); std::vector<double> v(n); for (int i=0;i<n;i++) v[i]=q.fam>=0?fam(q.fam,p.col(i),t,i)+q.level*1000.0:q.level*10.0+(q.trend==0?-t:q.trend==1?2.5*t:0)+((i*5+3)%n)*0.125; l.asked.push_back(g); l.vals.push_back(v); return v; };
  r.extra=[&](const dVec &x,int) { return 4.0+0.125*x[0]+0.5*x.squaredNorm(); };
  r.oncall=[&](const dVec&,double v,int) { total++; pre.push_back(v); };
  r.onprogress=[&](const CMASolutions &s,int lam) { ch.checked(); if (s.niter()==0) { if (!L.empty()) L.back().closed=true; L.emplace_back(); P.push_back(plan(L.size()-1)); RunLog &l=L.back(); l.lambda=lam; l.first=view_of(s,true); int f=s.fevals(); // calls before this notification: the last f of pre
        if (L.size()>1) { size_t k=pre.size()-std::min<size_t>(f,pre.size()); L[L.size()-2].answers.insert(L[L.size()-2].answers.end(),pre.begin(),pre.begin()+k); pre.erase(pre.begin(),pre.begin()+k); } }
    RunLog &l=L.back(); l.answers.insert(l.answers.end(),pre.begin(),pre.end()); pre.clear(); l.notes.push_back(view_of(s,true)); if ((int)l.notes.size()-1!=s.niter()) fail("iterations","run "+std::to_string(L.size()-1)+": notification "+std::to_string(l.notes.size()-1)+" reports iteration "+std::to_string(s.niter())); int ret=P.back().end>=0&&s.niter()>=P.back().end; l.rets.push_back(ret); ch.state(vmc::mix(l.notes.back().hash(),L.size())); if (L.size()>300) fail("schedule","more than 300 runs"); return ret; };
  int ret; View fin; r.start(); ret=r.s->optimize_custom(); fin=view_of(r.s->sols(),true); if (L.empty()) fail("schedule","no run at all"); L.back().answers.insert(L.back().answers.end(),pre.begin(),pre.end()); pre.clear(); for (auto &l: L) l.calls=l.answers.size();
  if (api) { // the one-call entry point runs the same search
    Env e; size_t k=0,q=0; std::vector<double> all; for (auto &l: L) all.insert(all.end(),l.answers.begin(),l.answers.end()); std::vector<int> rets; for (auto &l: L) rets.insert(rets.end(),l.rets.begin(),l.rets.end()); e.f=[&](const double*,int) { return k<all.size()?all[k++]:(k++,0.0); }; e.progress=[&](const CMASolutions&,int) { return q<rets.size()?rets[q++]:(q++,1); }; CMASolutions o=onecall(c,&e); ch.checked(); if (k!=all.size()||q!=rets.size()) fail("api","the one-call entry point makes "+std::to_string(k)+" evaluations, the strategy object "+std::to_string(all.size())); same_state("one-call result",view_of(o,true),fin); }
  // schedule
  int R=c.restarts<0?9:c.restarts,l0=c.noisy?5*c.lambda:c.lambda; long spent=0; double b0=0,b1=0; int large=0,lamL=l0; std::string sched; std::vector<double> bestv; int small=0; bool skip=false;
  auto budget=[&]() { return c.max_fevals>0&&spent>=c.max_fevals; };
  std::vector<View> fins; std::vector<int> frets;
  for (size_t i=0;i<L.size();i++) { RunLog &l=L[i]; bool isSmall=false; std::string w="run "+std::to_string(i)+" (after"+sched+")"; ch.checked();
    if (i>0&&budget()) fail("budget",w+" started although "+std::to_string(spent)+" of "+std::to_string(c.max_fevals)+" evaluations are spent");
    if (c.strat()==2&&b0>b1&&!skip) isSmall=true; skip=false; double sg=c.sigma; int mf=c.max_fevals;
    if (large>=R) fail("schedule",w+" exceeds the number of runs allowed ("+std::to_string(R)+")");
    if (!isSmall) { int want=large?(c.strat()==2?lamL*2:l0<<large):l0; if (l.lambda!=want) fail("population",w+" has population size "+std::to_string(l.lambda)+", expected "+std::to_string(want)); if (!samed(l.first.sigma,c.sigma)) fail("sigma",w+" starts with step size "+ds(l.first.sigma)); lamL=want; large++; sched+=" L"+std::to_string(want); }
    else { int lo=lamL==l0?(int)std::ceil(0.5*l0):l0,hi=lamL==l0?l0:(int)std::ceil(0.5*lamL); if (l.lambda<lo||l.lambda>hi) fail("population",w+" is a small-population run of size "+std::to_string(l.lambda)+", expected "+std::to_string(lo)+".."+std::to_string(hi)); sg=l.first.sigma; if (!(sg>=0.02*(1-1e-12)&&sg<=2)) fail("sigma",w+" starts with step size "+ds(sg)+", expected 0.02..2"); mf=(int)(0.5*b0); small++; sched+=" s"+std::to_string(l.lambda); }
    // fresh distribution
    View &f=l.first; dMat I=dMat::Identity(c.dim,c.dim);
    if (!c.is_vd()&&!f.full.isApprox(I)) fail("fresh",w+" does not start from the identity covariance"); if (f.bseen.get_x_size()&&!(c.elit||c.initf)) fail("fresh",w+" starts with a best seen candidate");
    // the same run in a fresh plain search
    Cfg d=c; d.algo=c.algo-c.strat(); d.lambda=c.noisy?l.lambda/5:l.lambda; d.sigma=sg; d.max_fevals=mf; d.restarts=-1; if (c.x0range) { d.x0range=false; d.x0v.resize(c.dim); for (int k=0;k<c.dim;k++) { d.x0v[k]=f.xmean[k]; if (!(f.xmean[k]>=c.x0lo&&f.xmean[k]<=c.x0hi)) fail("fresh",w+" starts outside the range of starting points"); } }
    Run q(d); q.keep=false; size_t k=0,a=0; q.env.f=[&](const double*,int) { if (k>=l.answers.size()) fail("replay",w+": a fresh search makes more evaluations"); return l.answers[k++]; }; q.env.asked=nullptr; q.env.evaluated=nullptr; q.env.told=nullptr; q.env.replace=[&](const dMat &m) { if (a>=l.asked.size()) fail("replay",w+": a fresh search continues after "+std::to_string(a)+" generations, the run ended"); if (m.rows()!=l.asked[a].rows()||m.cols()!=l.asked[a].cols()) fail("replay",w+": shapes of the generation differ"); if (i==0&&!samem(m,l.asked[a])) fail("replay",w+": the first run's samples differ from those of a plain search"); return l.asked[a++]; };
    size_t nn=0; q.onprogress=[&](const CMASolutions &s,int) { if (nn>=l.notes.size()) fail("replay",w+": a fresh search goes on"); View v=view_of(s,true); View z=l.notes[nn]; same_state(w+" notification "+std::to_string(nn)+" vs fresh search",z,v); return l.rets[nn++]; };
    q.start(); frets.push_back(q.s->optimize_custom()); View v=view_of(q.s->sols(),true); fins.push_back(v); if (a!=l.asked.size()||nn!=l.notes.size()) fail("replay",w+": a fresh search ends after "+std::to_string(a)+" generations (status "+std::to_string(v.status)+"), the run lasted "+std::to_string(l.asked.size())); if (k!=l.answers.size()) fail("replay",w+": "+std::to_string(l.answers.size())+" evaluations, a fresh search makes "+std::to_string(k));
    bestv.push_back(v.best.get_fvalue()); spent+=l.calls; if (isSmall) { b1+=(double)(l.notes.size()-1)*l.lambda; if (l.notes.size()==1) skip=true; } else b0+=(double)(l.notes.size()-1)*l.lambda; }
  if (large<R&&!budget()) fail("schedule","only"+sched+" were run, "+std::to_string(R)+" runs are configured and "+(c.max_fevals>0?std::to_string(spent)+" of "+std::to_string(c.max_fevals)+" evaluations are spent":"no budget is set"));
  // returned run
  double bv=DINF; bool any=false; for (size_t i=0;i<L.size();i++) if (L[i].notes.size()>1) { any=true; bv=std::min(bv,bestv[i]); } int found=-1; std::string why;
  for (size_t i=0;i<L.size();i++) { if (any&&(L[i].notes.size()<2||bestv[i]!=bv)) continue; try { same_state("x",fin,fins[i]); if (fin.status==fins[i].status) found=i; else why="status"; } catch (vmc::Violation &x) { why=x.msg; } if (found>=0) break; }
  if (found<0) fail("result","the returned solution is not the run with the best final value "+ds(bv)+" ("+why+") among"+sched);
  if ((ret==0)!=(fin.status>=0)) fail("result","return code "+std::to_string(ret)+" with status "+std::to_string(fin.status));
  ch.outcome(vmc::mix(vmc::mix(L.size(),found),vmc::dbits(bv)));
}
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C11"); bool T=m.thorough(); int A[]={1,2,4,5,7,8,10,11,13,14};
  for (int a: A) for (int R=1;R<=4;R++) for (int opt=0;opt<14;opt++) { Cfg c; c.algo=a; c.dim=c.is_vd()?6:2; c.lambda=4; c.restarts=R; c.alloff=true; c.max_iter=3; c.on={MAXITER,MAXFEVALS};
    switch(opt) { case 0: break; case 1: c.max_fevals=20; break; case 2: c.max_fevals=45; c.gp=GP_PWQ; break; case 3: c.elit=1; break; case 4: c.elit=2; c.gp=GP_PWQLIN; break; case 5: c.initf=true; c.edm=true; break; case 6: c.tpa=2; break; case 7: c.lazy=true; break; case 8: c.fixed={{0,0.4}}; break; case 9: c.x0range=true; c.x0lo=-1; c.x0hi=2; break; case 10: c.lambda=5; c.max_fevals=33; c.sigma=3; break; case 11: c.noisy=true; break; case 12: c.maximize=true; c.lambda=2; break; case 13: c.grad=true; c.max_hist=3; break; }
    if (c.noisy&&c.strat()==2) continue; bool br=opt<3||opt==10; int lv=R>=4?2:3,en=br?3:2; if (R>=3&&!br&&!T) en=1; int big=T?(br?(R>=4?4:5):(R>=4?3:5)):(R>=4?(br?4:3):R==3?4:3); if (!T&&R>=4) en=std::min(en,2);
    m.add(c.str(),[=](Chooser &ch) { body(ch,c,[&](int run) { Plan p; if (run<big) { p.level=ch.choose(lv); int e=ch.choose(en); p.end=e==0?-1:e==1?1:0; if (R<=2) p.trend=ch.choose(2); } else { p.level=1; p.end=2; } return p; },R<=2&&!c.x0range); }); }
  // runs ending by the default criteria
  for (int a: A) for (int opt=0;opt<8;opt++) { Cfg c; c.algo=a; c.dim=c.is_vd()?6:2; c.lambda=c.is_vd()?6:4; c.restarts=3; c.max_iter=c.is_vd()?80:150; if (opt==1) c.max_fevals=300; if (opt==2) { c.tpa=2; c.max_fevals=900; } if (opt==3) { c.gp=GP_PWQLIN; c.lazy=true; } if (opt==4) { c.gp=GP_PWQ; c.elit=1; c.edm=true; } if (opt==5) { c.fixed={{1,0.1}}; c.sigma=0.2; } if (opt==6) { c.max_hist=12; c.noisy=c.strat()==1; } if (opt==7) { c.gp=GP_LINVEC; c.ftarget=1e-3; c.maximize=false; }
    m.add("criteria "+c.str(),[=](Chooser &ch) { body(ch,c,[&](int run) { int F[]={F_CONST,F_NOISE,F_SPHERE,F_WORSE}; Plan p; if (run<(T?5:4)) { p.fam=F[ch.choose(run<3?4:2)]; p.level=ch.choose(run<2?2:1); } else { p.fam=run%2?F_CONST:F_NOISE; p.end=run>8?40:-1; } return p; },opt<2); }); }
  // restarting searches started from a solution: later runs begin at that solution's best point
  for (int a: A) for (int gp=0;gp<GP_COUNT;gp++) for (int dl: {0,2}) { Cfg c; c.algo=a; c.dim=c.is_vd()?6:3; c.lambda=4; c.gp=gp; c.restarts=3; c.alloff=true; m.add("from a solution "+c.str()+" lambda+"+std::to_string(dl),[=](Chooser &ch) { int k=ch.choose(3),len=1+ch.choose(2); Cfg d=c; d.algo=c.algo-c.strat(); d.max_iter=3; d.on={MAXITER}; Env e; e.f=[&](const double *x,int n) { return fam(k==0?F_SPHERE:k==1?F_LINEAR:F_ELLI,Eigen::Map<const dVec>(x,n),0,0); }; auto s=make_search(d,&e); s->optimize(); CMASolutions from=s->sols(); dVec b=from.best_candidate().get_x_dvec(); Cfg f=c; f.lambda+=dl; int runs=0; Env e2; e2.f=e.f; e2.progress=[&](const CMASolutions &q,int l) { ch.checked(); ch.state(vmc::mix(view_of(q).hash(),runs)); if (q.niter()==0) { runs++; if ((int)q.size()!=l) fail("from","the population of run "+std::to_string(runs)+" has "+std::to_string(q.size())+" candidates, configured "+std::to_string(l)); if (runs==1&&(l!=f.lambda||!same(q.xmean(),from.xmean()))) fail("from","the first run does not start from the solution"); if (runs>1) for (int i=0;i<c.dim;i++) if (!close(q.xmean()[i],b[i],1e-9,1e-9)) fail("from","run "+std::to_string(runs)+" starts at "+vs(q.xmean())+", the given solution's best point is "+vs(b)); } return q.niter()>=len?1:0; }; auto s2=make_search(f,&e2,&from); s2->optimize(); if (runs<3) fail("from","only "+std::to_string(runs)+" runs"); ch.outcome(runs); }); }
  // regime draws over seeds: the small runs' populations and step sizes cover their ranges
  m.add("regime draws",[](Chooser &ch) { std::vector<double> us,ul; for (int seed=1;seed<=300;seed++) { Cfg c; c.algo=2; c.dim=2; c.lambda=20; c.restarts=3; c.alloff=true; c.seed=seed; int lam0=0; double sg=0; int k=0; Env e; e.f=[](const double *x,int) { return x[0]; }; e.progress=[&](const CMASolutions &s,int l) { if (s.niter()==0) { k++; lam0=l; sg=s.sigma(); if (std::fabs(sg-0.5)>1e-12||(l!=20&&l!=40&&l!=80)) { us.push_back(-std::log10(sg/2)/2); ul.push_back(l); } } return s.niter()>=3?1:0; }; auto s=make_search(c,&e); s->optimize(); ch.state(vmc::mix(seed,vmc::dbits(sg))); } ch.checked(us.size());
    double mn=0,lo=1,hi=0; for (double u: us) { mn+=u; lo=std::min(lo,u); hi=std::max(hi,u); } mn/=us.size(); if (us.size()<300) fail("regime","only "+std::to_string(us.size())+" small runs in 300 searches"); if (lo<-1e-9||hi>1+1e-9||lo>0.03||hi<0.97||std::fabs(mn-0.5)>0.06) fail("regime","step sizes of small runs are not spread over 0.02..2: "+ds(lo)+" "+ds(mn)+" "+ds(hi)); std::set<int> d(ul.begin(),ul.end()); if (d.size()<8) fail("regime","population sizes of small runs hardly vary: "+std::to_string(d.size())); });
  return m.run();
}
