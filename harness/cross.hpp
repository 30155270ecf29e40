// Cross-feature configurations: a covering array of strength 3 (every feasible combination of values of any three settings
// occurs in some configuration), built deterministically. Used by the checks to explore interactions of settings.
#pragma once
#include "meta.hpp"
#include <set>
namespace vm {
enum { X_ALGO,X_GP,X_BOX,X_ELIT,X_TPA,X_UH,X_LAZY,X_GRAD,X_EDM,X_INITF,X_MAX,X_FIX,X_LAMBDA,X_DIM,X_SIGMA,X_CRIT,X_NOISY,X_SEED,X_HIST,X_COUNT };
static const int X_SIZE[X_COUNT]={5,GP_COUNT,4,4,3,2,2,3,2,2,2,4,6,4,3,2,2,2,2};
inline Cfg xcfg(const std::vector<int> &r) { static const int A[]={0,3,6,9,12},B[]={0,1,3,5},L[]={2,3,4,5,7,-1},D[]={1,2,3,5},TP[]={1,2,0}; static const double S[]={0.5,0.02,3};
  Cfg c; c.algo=A[r[X_ALGO]]; c.gp=r[X_GP]; c.bset=c.bounded()?B[r[X_BOX]]:0; c.elit=r[X_ELIT]; c.tpa=TP[r[X_TPA]]; if (c.tpa==0) c.tpaset=true; c.uh=r[X_UH]; c.lazy=r[X_LAZY]; c.grad=r[X_GRAD]>0; c.ugrad=r[X_GRAD]==2; c.edm=r[X_EDM]; c.initf=r[X_INITF]; c.maximize=r[X_MAX]; c.lambda=L[r[X_LAMBDA]]; c.dim=D[r[X_DIM]]; if (c.is_vd()) c.dim=std::max(6,c.dim+5); if (c.tpa==2&&c.lambda>0&&c.lambda<4) c.lambda=4; c.sigma=S[r[X_SIGMA]]; c.alloff=r[X_CRIT]==0; c.noisy=r[X_NOISY]; c.seed=r[X_SEED]?991:7; if (r[X_HIST]) c.max_hist=3;
  switch(r[X_FIX]) { case 1: c.fixed={{0,0.35}}; break; case 2: c.fixed={{c.dim-1,-0.2}}; break; case 3: c.fixed={{0,0.1},{c.dim-1,0.6}}; break; } if ((int)c.fixed.size()>=c.dim) c.fixed.clear(); return c; }
// fit: adapts a configuration to the check, or refuses it
inline std::vector<Cfg> cross(std::function<bool(Cfg&)> fit,int strength=3) {
  std::vector<std::vector<int>> sets; for (int i=0;i<X_COUNT;i++) for (int j=i+1;j<X_COUNT;j++) { if (strength==2) sets.push_back({i,j}); else for (int k=j+1;k<X_COUNT;k++) sets.push_back({i,j,k}); }
  std::vector<std::vector<char>> cov(sets.size()); for (size_t s=0;s<sets.size();s++) { int n=1; for (int f: sets[s]) n*=X_SIZE[f]; cov[s].assign(n,0); }
  uint64_t rs=12345; auto rnd=[&](int n) { rs=rs*6364136223846793005ULL+1442695040888963407ULL; return (int)((rs>>33)%n); };
  auto idx=[&](size_t s,const std::vector<int> &r) { int n=0; for (int f: sets[s]) n=n*X_SIZE[f]+r[f]; return n; };
  std::vector<Cfg> out; std::set<std::string> seen;
  for (size_t s=0;s<sets.size();s++) for (int t=0;t<(int)cov[s].size();t++) while(!cov[s][t]) { std::vector<int> best; int gain=-1;
      for (int q=0;q<12;q++) { std::vector<int> r(X_COUNT); for (int i=0;i<X_COUNT;i++) r[i]=rnd(X_SIZE[i]); int u=t; for (int k=(int)sets[s].size()-1;k>=0;k--) { r[sets[s][k]]=u%X_SIZE[sets[s][k]]; u/=X_SIZE[sets[s][k]]; } Cfg c=xcfg(r); if (!fit(c)) continue; int g=0; for (size_t z=0;z<sets.size();z++) g+=!cov[z][idx(z,r)]; if (g>gain) { gain=g; best=r; } }
      cov[s][t]=1; if (gain<0) break; for (size_t z=0;z<sets.size();z++) cov[z][idx(z,best)]=1; Cfg c=xcfg(best); fit(c); if (seen.insert(c.str()).second) out.push_back(c); }
  return out; }
// two segments of objective behaviour, every pair of families
struct CrossScript { Chooser &ch; int L; double sg; std::vector<int> seg; int nf; CrossScript(Chooser &c,int L,double sg=1,int nf=4):ch(c),L(L),sg(sg),nf(nf) {} std::vector<double> operator()(int gen,const dMat&,const dMat &p) { static const int F[]={F_SPHERE,F_NOISE,F_WORSE,F_CONST,F_LINEAR}; int s=std::min(gen/L,1); while((int)seg.size()<=s) seg.push_back(F[ch.choose(nf)]); auto v=famgen(seg[s],gen,p); for (auto &x: v) x*=sg; return v; } };
}
