// C12: fixed parameters never move, free ones do; along every ranking history, for every subset of fixed coordinates.
#include "cross.hpp"
using namespace vm;
static void body(Chooser &ch,const Cfg &c,ValFn vals,int maxgen,bool free_moves=true) {
  std::map<int,double> fx; for (auto &f: c.fixed) fx[f.first]=f.second; Run r(c); r.values=vals; r.keep=false; std::map<int,double> img; uint64_t h=0; std::vector<std::set<double>> seen(c.dim); bool started=false;
  r.extra=[](const dVec &x,int) { return x.squaredNorm(); }; r.env.g=[](const double *x,int n) { dVec g(n); for (int i=0;i<n;i++) g[i]=2*x[i]-1; return g; };
  auto geno=[&](const std::string &w,const dVec &x) { ch.checked(); for (auto &f: fx) if (!(std::fabs(x[f.first]-f.second)<=1e-9*(1+std::fabs(f.second)))) fail("fixed",w+": fixed coordinate "+std::to_string(f.first)+" is "+ds(x[f.first])+" instead of "+ds(f.second)); };
  r.oncall=[&](const dVec &x,double,int slot) { ch.checked(); for (auto &f: fx) { double e; if (img.count(f.first)) e=img[f.first]; else { if (!r.s) return; dVec z=r.s->sols().xmean(); for (auto &q: fx) z[q.first]=q.second; e=img[f.first]=r.s->pheno(z)[f.first]; } if (!(std::fabs(x[f.first]-e)<=1e-9*(1+std::fabs(e)))) fail("fixed","objective called with fixed coordinate "+std::to_string(f.first)+" at "+ds(x[f.first])+" instead of "+ds(e)); } };
  r.after_ask=[&](const dMat &m) { for (int i=0;i<m.cols();i++) { geno("sampled candidate",m.col(i)); for (int d=0;d<c.dim;d++) seen[d].insert(m(d,i)); } };
  auto rep=[&](const CMASolutions &s) { geno("mean",s.xmean()); if (s.niter()>0) { for (int i=0;i<s.size();i++) geno("stored candidate",s.get_candidate(i).get_x_dvec()); geno("best candidate",s.best_candidate().get_x_dvec()); geno("best seen candidate",s.get_best_seen_candidate().get_x_dvec()); geno("worst seen candidate",s.get_worst_seen_candidate().get_x_dvec()); } };
  r.onprogress=[&](const CMASolutions &s,int) { rep(s); ch.state(view_of(s).hash()); h=vmc::mix(h,vmc::dbits(s.sigma())); return r.gen+1>=maxgen?1:0; };
  r.start(); r.s->optimize_custom(); rep(r.s->sols()); if (free_moves&&r.gen>=0) for (int d=0;d<c.dim;d++) if (!fx.count(d)&&(int)seen[d].size()<2) fail("free","free coordinate "+std::to_string(d)+" was not searched"); ch.outcome(h);
}
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C12"); bool T=m.thorough(); int A[]={0,3,6,9,12};
  for (int a: A) for (int g=0;g<GP_COUNT;g++) for (int mask=1;mask<7;mask++) for (int opt=0;opt<9;opt++) { Cfg c; c.algo=a; c.dim=a==12?7:3; c.lambda=3; c.gp=g; c.alloff=true; c.bset=(mask+opt)%6; if (g&&opt>4&&!T) continue; double V[]={0.25,-0.5,1.75}; for (int i=0;i<3;i++) if (mask>>i&1) c.fixed.push_back({a==12&&i==2?6:i,V[i]});
    switch(opt) { case 1: c.tpa=2; c.lambda=4; break; case 2: c.grad=true; break; case 3: c.uh=true; break; case 4: c.elit=1; c.edm=true; break; case 5: c.lazy=true; break; case 6: c.fixed.push_back(c.fixed[0]); c.fixed[0].second=9; break; case 7: c.grad=c.ugrad=true; c.maximize=true; break; case 8: c.elit=3; c.initf=true; break; }
    int depth=T?3:2; m.add(c.str()+" depth="+std::to_string(depth),[=](Chooser &ch) { Levels lv; body(ch,c,[&](int,const dMat &q,const dMat&) { return lv.next(ch,q.cols(),1,false); },depth); }); }
  for (int a=0;a<15;a++) for (int g: {GP_NONE,GP_PWQ,GP_PWQLIN,GP_LINVEC}) for (int opt=0;opt<5;opt++) { Cfg c; c.algo=a; c.dim=c.is_vd()?7:3; c.lambda=4; c.gp=g; c.fixed={{opt%3,0.4}}; if (opt>2) c.fixed.push_back({(opt+1)%3,-0.3}); c.restarts=4; c.max_fevals=200; c.max_iter=12; if (opt==1) c.elit=3; if (opt==2) c.grad=true; if (opt==3) c.uh=true; if (opt==4) { c.elit=1; c.tpa=2; }
    m.add("segments "+c.str(),[=](Chooser &ch) { std::vector<int> seg; int F[]={F_SPHERE,F_CONST,F_NOISE,F_WORSE}; body(ch,c,[&](int gen,const dMat &q,const dMat &p) { int s=std::min(gen/9,2); while((int)seg.size()<=s) seg.push_back(F[ch.choose(4)]); return famgen(seg[s],gen,p); },90); }); }
  // every sequence of fixing and unfixing calls
  for (int a: A) m.add(std::string("calls ")+algo_names[a],[=](Chooser &ch) { int n=a==12?6:3; std::map<int,double> e; typedef GenoPheno<NoBoundStrategy> G; std::vector<double> x0(n,0.3); CMAParameters<G> p(x0,0.5,4,7); p.set_quiet(true); p.set_algo(a); if (a==6||a==9) p.set_sep(); if (a==12) p.set_vd(); p.set_max_iter(3); std::string s; int L=T?4:3;
      for (int k=0;k<L;k++) { int q=ch.choose(7); s+=std::to_string(q); if (q<4) { double v=q%2?-1.5:2.25; p.set_fixed_p(q/2,v); e[q/2]=v; } else if (q<6) { p.unset_fixed_p(q-4); e.erase(q-4); } }
      int calls=0; std::vector<std::set<double>> seen(n); std::string err; FitFunc f=[&](const double *x,const int &d) { calls++; for (auto &z: e) if (x[z.first]!=z.second&&err.empty()) err="coordinate "+std::to_string(z.first)+" is "+ds(x[z.first]); for (int i=0;i<d;i++) seen[i].insert(x[i]); double t=0; for (int i=0;i<d;i++) t+=x[i]*x[i]; return t; };
      CMASolutions r=cmaes<G>(f,p); ch.checked(); if (!err.empty()) fail("fixed","after calls "+s+": "+err); for (int i=0;i<n;i++) if (!e.count(i)&&seen[i].size()<2) fail("free","after calls "+s+": coordinate "+std::to_string(i)+" does not move"); ch.state(vmc::dbits(r.sigma()));
      // equals a search configured directly
      CMAParameters<G> p2(x0,0.5,4,7); p2.set_quiet(true); p2.set_algo(a); if (a==6||a==9) p2.set_sep(); if (a==12) p2.set_vd(); p2.set_max_iter(3); for (auto &z: e) p2.set_fixed_p(z.first,z.second); FitFunc f2=[&](const double *x,const int &d) { double t=0; for (int i=0;i<d;i++) t+=x[i]*x[i]; return t; }; CMASolutions r2=cmaes<G>(f2,p2); if (!same(r.xmean(),r2.xmean())||r.sigma()!=r2.sigma()) fail("direct","after calls "+s+": differs from a search with those parameters fixed directly"); });
  // long runs, larger shapes, many fixed coordinates
  for (int a: A) for (int opt=0;opt<6;opt++) for (int dl=0;dl<4;dl++) for (int fx=0;fx<3;fx++) { Cfg c; c.algo=a; int D[]={6,10,25,7},L[]={5,-1,7,101}; c.dim=D[dl]; c.lambda=L[dl]; c.alloff=true; c.gp=opt==1?GP_PWQ:opt==2?GP_PWQLIN:opt==3?GP_LINVEC:opt==4?GP_CUSTOM:GP_NONE; if (opt==5) { c.elit=1; c.edm=true; } if (opt==2) c.uh=true; if (opt==3) c.tpa=2; if (fx==0) c.fixed={{c.dim-1,0.45}}; else if (fx==1) { for (int i=0;i<c.dim-1;i++) c.fixed.push_back({i,0.1*i/c.dim+0.2}); } else for (int i=1;i<c.dim;i+=2) c.fixed.push_back({i,0.35}); int G=(dl<2?150:20)*(T?2:1);
    m.add("long "+c.str()+" fx="+std::to_string(fx),[=](Chooser &ch) { int F[]={F_ELLI,F_LINEAR,F_NOISE,F_NEG,F_PLATEAU,F_CONST}; int k=ch.choose(T?6:3); body(ch,c,[=](int gen,const dMat&,const dMat &p) { return famgen(F[k],gen,p); },G); }); }
  // interactions of settings: every feasible combination of values of any three settings
  for (auto &c: cross([](Cfg &c) { return !c.fixed.empty(); })) m.add("cross "+c.str(),[=](Chooser &ch) { CrossScript s(ch,10,c.maximize?-1:1); body(ch,c,[&](int g,const dMat &q,const dMat &p) { return s(g,q,p); },20); });
  return m.run();
}
