// C15: uncertainty handling against an independent model, for every pair of first / second evaluation rankings.
#include "cross.hpp"
#include "ref.hpp"
using namespace vm;
struct Cand { int i; double f,m; int r1,r2; double d; };
static double dlim(double R,int l) { std::vector<double> d; for (int j=1;j<2*l;j++) d.push_back(std::fabs(j-R)); std::sort(d.begin(),d.end()); return d[(int)(d.size()*0.1)]; } // 0.2*50 percentile of |1-R| .. |2l-1-R|
// ranks from two tie-breaking orders; fills the uncertainty level and returns whether "order" (original indices, best first) is sorted by the specified key
static bool judge(std::vector<Cand> c,int reev,const std::vector<int> &o1,const std::vector<int> &o2,const std::vector<int> &order,double &s) {
  int n=c.size(); for (int k=0;k<n;k++) { c[o1[k]].r1=k; c[o2[k]].r2=k; } double mean=0; s=0;
  for (int i=0;i<n;i++) { int d=c[i].r2-c[i].r1; c[i].d=i<reev?std::abs(d)-(d!=0):0; mean+=c[i].d; } mean/=reev;
  for (int i=0;i<reev;i++) s+=2*c[i].d-dlim(c[i].r2-(c[i].r2>c[i].r1),n)-dlim(c[i].r1-(c[i].r1>c[i].r2),n); s/=reev;
  for (int i=reev;i<n;i++) c[i].d=mean;
  for (int k=1;k<n;k++) { const Cand &a=c[order[k-1]],&b=c[order[k]]; int sa=a.r1+a.r2,sb=b.r1+b.r2; if (sa>sb) return false; if (sa==sb) { if (a.d>b.d) return false; if (a.d==b.d&&a.f+a.m>b.f+b.m) return false; } }
  return true;
}
static void body(Chooser &ch,const Cfg &c,ValFn vals,std::function<double(int slot,double f,int n)> second,int maxgen,bool noisefree=false,bool ties=false) {
  Run r(c); double sg=c.maximize?-1:1; r.values=vals; r.keep=false; std::map<int,double> mut; bool ineval=false; double maxpert=0; int dim=c.dim;
  r.env.g=[](const double *x,int n) { dVec g(n); for (int i=0;i<n;i++) g[i]=2*x[i]; return g; };
  double L=1; { std::vector<double> lo,hi; box(c,lo,hi); for (int i=0;i<dim;i++) L=std::max({L,std::fabs(hi[i]-lo[i]),lin_scaling(c)[i],1/lin_scaling(c)[i]}); }
  r.extra=[&](const dVec &x,int) -> double { if (!r.ingen) return sg*x.squaredNorm(); int b=-1; double bd=1e300; for (int j=0;j<r.p.cols();j++) { double d=(dVec(r.p.col(j))-x).cwiseAbs().maxCoeff(); if (d<bd) { bd=d; b=j; } }
    double sigma=r.s->sols().sigma(); double scale=std::max(1.0,x.cwiseAbs().maxCoeff()); ch.checked(); if (!(bd<=1e-7*sigma*8*L+1e-13*scale)) fail("point","generation "+std::to_string(r.gen)+": re-evaluation at "+vs(x)+", which is no slight perturbation of a candidate (nearest at distance "+ds(bd)+", step size "+ds(sigma)+")");
    if (mut.count(b)) fail("point","candidate "+std::to_string(b)+" re-evaluated twice"); maxpert=std::max(maxpert,bd/sigma/1e-7); for (auto &f: c.fixed) if (!close(x[f.first],r.p(f.first,0),1e-12,1e-14)) fail("point","a fixed parameter was perturbed"); double m=second(b,sg*r.vals[b],r.p.cols()); mut[b]=m; return sg*m; };
  r.start(); Ref ref(c,r.s->lambda()); dVec mprev; uint64_t h=0; int l=r.s->lambda(); double want=std::max(0.1,2.0/l)*l; int most=0,least=1000000;
  for (int t=0;t<maxgen;t++) { Dist b=dist_of(r.s->sols(),c); ref.asked(b,t); mut.clear(); long calls=r.ncalls; r.generation(); (void)calls; CMASolutions &Q=r.s->sols(); int n=r.g.cols(); int reev=mut.size(); ch.checked();
    for (size_t i=0;i<r.hit.size();i++) if (!r.hit[i]) fail("lost","candidate "+std::to_string(i)+" was not evaluated");
    if (reev<1) fail("count","no candidate was re-evaluated"); for (int i=0;i<reev;i++) if (!mut.count(i)) fail("count","the re-evaluated candidates are not a prefix of the generation"); most=std::max(most,reev); least=std::min(least,reev);
    if (reev<std::floor(want+1e-9)||reev>std::ceil(want-1e-9)) fail("count",std::to_string(reev)+" candidates re-evaluated, specified are "+ds(want)+" on average");
    std::vector<Cand> cs; for (int i=0;i<n;i++) { double f=sg*r.vals[i]; cs.push_back({i,f,mut.count(i)?mut[i]:f,0,0,0}); }
    std::vector<int> order; std::vector<char> used(n,0); if (Q.size()!=n) fail("lost","population size changed"); for (int i=0;i<n;i++) { Candidate q=Q.get_candidate(i); int k=-1; for (int j=0;j<n;j++) if (!used[j]&&same(dVec(r.g.col(j)),q.get_x_dvec())) { k=j; break; } if (k<0) fail("lost","stored candidate is not one of the generation"); if (!samed(q.get_fvalue(),cs[k].f)) fail("value","candidate "+std::to_string(k)+" lost its original value: "+ds(q.get_fvalue())+" instead of "+ds(cs[k].f)); used[k]=1; order.push_back(k); }
    std::vector<int> o1(n),o2(n); for (int i=0;i<n;i++) o1[i]=o2[i]=i; std::stable_sort(o1.begin(),o1.end(),[&](int x,int y) { return cs[x].f<cs[y].f; }); std::stable_sort(o2.begin(),o2.end(),[&](int x,int y) { return cs[x].m<cs[y].m; });
    double s=0; bool ok=false; std::vector<double> S; 
    if (!ties) { ok=judge(cs,reev,o1,o2,order,s); S.push_back(s); }
    else { // equal values may be ranked in any order: some assignment of ranks must explain the outcome
      std::vector<std::vector<int>> P1,P2; std::vector<int> p(n); for (int i=0;i<n;i++) p[i]=i; do { bool a=true,b2=true; for (int i=1;i<n;i++) { a=a&&cs[p[i-1]].f<=cs[p[i]].f; b2=b2&&cs[p[i-1]].m<=cs[p[i]].m; } if (a) P1.push_back(p); if (b2) P2.push_back(p); } while(std::next_permutation(p.begin(),p.end()));
      for (auto &x: P1) for (auto &y: P2) { if (judge(cs,reev,x,y,order,s)) { ok=true; S.push_back(s); } } }
    if (!ok) { std::string e; for (int k: order) e+=" "+std::to_string(k)+"("+ds(cs[k].f)+","+ds(cs[k].m)+")"; fail("order","generation "+std::to_string(t)+": order does not follow the summed ranks, rank changes, value sums:"+e); }
    if (noisefree) for (int i=1;i<n;i++) if (cs[order[i-1]].f>cs[order[i]].f) fail("order","noise-free evaluations but the order is not the plain one");
    Dist a=dist_of(Q,c); std::vector<dVec> X; for (int i=0;i<Q.size();i++) X.push_back(Q.get_candidate(i).get_x_dvec()); double alpha=1+2.0/(c.dim+10.0); bool pos=false,neg=false; for (double v: S) (v>0?pos:neg)=true; if (noisefree&&pos) fail("level","harness: noise-free evaluations measured as uncertain");
    bool stop=false; { double mx=0,mn=1e300; Eigen::SelfAdjointEigenSolver<dMat> e(b.F,Eigen::EigenvaluesOnly); mx=e.eigenvalues().maxCoeff(); mn=e.eigenvalues().minCoeff(); if (!(mn>0)||mx/mn>1e6) stop=true; double sh=0; for (int i=0;i<c.dim;i++) sh=std::max(sh,std::fabs(b.m[i])/(b.s*std::sqrt(b.F(i,i)))); if (sh>1e5) stop=true; } if (stop) break;
    std::string e; Ref keep=ref; bool good=false; for (int k=0;k<2&&!good;k++) { if (k==0?!pos:!neg) continue; Dist x=a; if (k==0) x.s/=alpha; ref=keep; e=ref.step(b,x,X,r.g,mprev,t); if (e.empty()) good=true; }
    if (!good) fail("sigma","generation "+std::to_string(t)+" (uncertainty "+ds(S[0])+(pos?", step size to be enlarged":", step size not to be enlarged")+"): "+e);
    mprev=b.m; ch.state(vmc::mix(view_of(Q).hash(),pos)); h=vmc::mix(h,vmc::dbits(a.s)); }
  if (maxpert<1e-4) fail("point","re-evaluations happen at unperturbed points"); ch.outcome(h);
}
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C15"); bool T=m.thorough(); int A[]={0,3,6,9,12};
  auto opts=[](Cfg &c,int o) { switch(o) { case 1: c.gp=GP_PWQ; break; case 2: c.gp=GP_PWQLIN; c.fixed={{1,0.3}}; break; case 3: c.tpa=2; break; case 4: c.gp=GP_LINVEC; c.maximize=true; break; case 5: c.lazy=true; c.gp=GP_CUSTOM; break; case 6: c.grad=c.ugrad=true; break; case 7: c.sigma=20; c.gp=GP_PWQ; c.bset=3; break; } };
  for (int a: A) for (int o=0;o<8;o++) for (int l: {2,3,4,5,6}) { if (o&&l>4&&!T) continue; if (o==6&&l<3) continue; if (o==3&&l<4) continue; Cfg c; c.algo=a; c.dim=a==12?6:2; if (o==2) c.dim=a==12?6:3; c.lambda=l; c.uh=true; c.alloff=true; opts(c,o); double sg=c.maximize?-1:1;
    int depth=l==2?3:l==3?2:l==4&&!o&&a==0?2:1; if (l==6&&a&&a!=3&&!T) continue; if (T&&l==3) depth=3; if (T&&l==4) depth=2;
    m.add("pairs "+c.str()+" depth="+std::to_string(depth),[=](Chooser &ch) { int n1=0; body(ch,c,[&](int,const dMat &q,const dMat&) { n1=0; const auto &W=vmc::strict_orders(q.cols()); const auto &w=W[ch.choose((int)W.size())]; std::vector<double> v(q.cols()); for (int i=0;i<(int)v.size();i++) v[i]=sg*w[i]; return v; },[&](int,double,int n) { return ch.choose(n+1)-0.5+0.01*n1++; },depth); });
    if (l<=4&&o<2) m.add("ties "+c.str(),[=](Chooser &ch) { body(ch,c,[&](int,const dMat &q,const dMat&) { const auto &W=vmc::weak_orders(q.cols()); const auto &w=W[ch.choose((int)W.size())]; std::vector<double> v(q.cols()); for (int i=0;i<(int)v.size();i++) v[i]=w[i]; return v; },[&](int,double,int n) { return (double)ch.choose(n+1); },1,false,true); });
    m.add("noise-free "+c.str(),[=](Chooser &ch) { body(ch,c,[&](int,const dMat &q,const dMat&) { const auto &W=vmc::strict_orders(q.cols()); const auto &w=W[ch.choose((int)W.size())]; std::vector<double> v(q.cols()); for (int i=0;i<(int)v.size();i++) v[i]=sg*w[i]; return v; },[&](int,double f,int) { return f; },l<4?3:l==4?2:1,true); }); }
  // larger populations (more re-evaluated candidates, by chance one more or less), several generations and seeds
  for (int a: A) for (int l: {8,10,15,20,25,33,47}) for (int o=0;o<(T?8:4);o++) for (int seed=1;seed<=(T?6:2);seed++) { Cfg c; c.algo=a; c.dim=a==12?7:3; c.lambda=l; c.seed=seed; c.uh=true; c.alloff=true; opts(c,o); double sg=c.maximize?-1:1;
    m.add("large "+c.str(),[=](Chooser &ch) { int rot=ch.choose(4); int amp=ch.choose(4); int n1=0; body(ch,c,[&](int gen,const dMat &q,const dMat&) { n1=0; std::vector<double> v(q.cols()); int n=v.size(); for (int i=0;i<n;i++) v[i]=sg*((i*(rot==0?1:rot==1?n-1:rot==2?7:3)+gen*3)%n+0.001*i); return v; },[&](int slot,double f,int n) { int k=n1++; double A=amp==0?0:amp==1?1.3:amp==2?n/3.0:n; return f+A*((slot+rot+k)%2?1:-1)+0.0003*k; },6); }); }
  // the number of re-evaluated candidates over generations: both neighbours of a fractional mean occur
  for (int l: {25,33,47}) for (int seed: {1,2,3}) { Cfg c; c.lambda=l; c.dim=2; c.seed=seed; c.uh=true; c.alloff=true; m.add("fraction "+c.str(),[=](Chooser &ch) { Run r(c); r.values=[](int gen,const dMat &q,const dMat &p) { return famgen(F_NOISE,gen,p); }; r.extra=[](const dVec &x,int) { return x[0]; }; r.keep=false; r.start(); double want=0.1*l; long tot=0; int G=40,lo=0,hi=0; for (int t=0;t<G;t++) { long k=r.ncalls; r.generation(); int n=r.ncalls-k-l; tot+=n; if (n==(int)std::floor(want)) lo++; else if (n==(int)std::floor(want)+1) hi++; else fail("count",std::to_string(n)+" candidates re-evaluated"); ch.state(vmc::mix(t,n)); } ch.checked(); double p=want-std::floor(want); double sd=std::sqrt(p*(1-p)*G); if (std::fabs(hi-p*G)>5*sd+1) fail("count","average number of re-evaluations is off: "+std::to_string(tot)+" in "+std::to_string(G)+" generations"); ch.outcome(tot); }); }
  // long runs
  for (int a: A) for (int dl=0;dl<4;dl++) for (int o=0;o<3;o++) { Cfg c; c.algo=a; int D[]={6,10,25,7},L[]={5,-1,7,101}; c.dim=D[dl]; c.lambda=L[dl]; c.uh=true; c.alloff=true; opts(c,o); int G=(dl<2?120:20)*(T?2:1);
    m.add("long "+c.str(),[=](Chooser &ch) { int F[]={F_ELLI,F_LINEAR,F_NOISE,F_NEG,F_PLATEAU,F_CONST}; int k=ch.choose(T?6:4); int amp=ch.choose(3); body(ch,c,[=](int gen,const dMat&,const dMat &p) { auto v=famgen(F[k],gen,p); for (size_t i=0;i<v.size();i++) v[i]+=1e-9*std::fabs(v[i])*i; return v; },[=](int slot,double f,int n) { double A=amp==0?0:amp==1?0.2*std::fabs(f):10*std::fabs(f)+1; return f+A*(slot%2?1:-1)*(1+0.01*slot); },G); }); }
  // interactions of settings: every feasible combination of values of any three settings
  for (auto &c: cross([](Cfg &c) { if ((c.bounded()&&c.dim-(int)c.fixed.size()<2)||c.elit||c.initf||c.edm||(c.grad&&!c.ugrad)) return false; c.uh=true; c.alloff=true; return true; })) m.add("cross "+c.str(),[=](Chooser &ch) { int k=ch.choose(4),q=ch.choose(2); double sg=c.maximize?-1:1; body(ch,c,[&](int g,const dMat&,const dMat &p) { auto v=famgen(F_NOISE,g+31*k,p); for (auto &x: v) x*=sg; return v; },[&](int s,double f,int n) { return q?f:k==0?f:k==1?f+0.3*((s*7)%5-2):k==2?-f:f+1e-9*(s%3); },12); });
  return m.run();
}
