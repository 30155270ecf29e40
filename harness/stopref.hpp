// Independent re-statement of the stopping criteria, fed with what the objective returned and the reported distribution.
#pragma once
#include "ref.hpp"
namespace vm {
struct StopRef {
  Cfg c; int l,mh; std::vector<double> best,kbest,med; std::vector<char> on;   // on[i]: ALL_CRIT[i] enabled
  StopRef(const Cfg &cc,int lam):c(cc),l(lam) { mh=c.max_hist>0?c.max_hist:def(); on.assign(12,1); for (int i=0;i<12;i++) { bool o=c.alloff; for (int q: c.off) if (q==ALL_CRIT[i]) o=true; for (int q: c.on) if (q==ALL_CRIT[i]) o=false; if (o) on[i]=0; } }
  int def() const { return 10+(30*c.dim)/l; }
  void generation(std::vector<double> v) { int k=std::min(l-1,(int)(1+std::ceil(0.1+l/4.0))); best.push_back(v[0]); kbest.push_back(v[k]); size_t n=v.size(); med.push_back(n%2?v[n/2]:(v[n/2-1]+v[n/2])/2); win.push_back((size_t)std::ceil(0.2*(best.size()-1)+120+30.0*c.dim/l)); wstart(); }
  std::vector<size_t> win; size_t mstart=0; void wstart() { if (med.size()-mstart>win.back()) mstart++; }
  static double median(std::vector<double> v) { std::sort(v.begin(),v.end()); size_t n=v.size(); return n%2?v[n/2]:(v[n/2-1]+v[n/2])/2; }
  // 1 holds, 0 does not hold, -1 undetermined within rounding
  int holds(int crit,const View &v,long calls,int gens,const dVec &pc) {
    auto tri=[](bool a,bool b) { return a==b?(a?1:0):-1; }; const double E=1e-7; int n=c.dim; bool dg=c.is_sep()||c.is_vd();
    switch(crit) {
      case MAXFEVALS: return c.max_fevals!=-1&&calls>=c.max_fevals; case MAXITER: return c.max_iter!=-1&&gens>=c.max_iter;
      case AUTOMAXITER: { double t=100+50.0*(n+3)*(n+3)/std::sqrt((double)l); if (c.is_vd()&&n<10) t*=1000; return tri(gens>=t-1e-6,gens>=t+1e-6); }
      case FTARGET: return best.back()<=c.ftarget;
      case TOLHISTFUN: { int h=std::min(mh,def()); if ((int)best.size()<h) return 0; double a=1e308,b=-1e308; for (int i=0;i<h;i++) { double x=best[best.size()-1-i]; a=std::min(a,x); b=std::max(b,x); } return b-a<std::max(c.ftol>=0?c.ftol:1e-12,1e-12); }
      case EQUALFUNVALS: { int hs=std::min((int)best.size(),mh),h=std::min(n,hs); if (h<mh) return 0; int q=0; for (int i=0;i<h;i++) q+=best[best.size()-1-i]==kbest[best.size()-1-i]; return 3*q>h; }
      case TOLX: { double f=v.sigma/c.sigma,t=std::max(c.xtol>=0?c.xtol:1e-12,1e-12); auto test=[&](double tt) { for (int i=0;i<n;i++) { if (std::fabs(pc[i])*f>=tt) return false; double d=dg?v.sepcov(i,0):v.cov(i,i); if (std::sqrt(d)*f>=tt) return false; } return true; }; return tri(test(t*(1-E)),test(t*(1+E))); }
      case TOLUPSIGMA: { double f=v.sigma/c.sigma,r=1e20*std::sqrt(v.maxeig); return tri(f>r*(1-E),f>r*(1+E)); }
      case STAGNATION: { if (best.size()<20) return 0; std::vector<double> b(best.end()-20,best.end()),m(med.begin()+mstart,med.begin()+mstart+20); if ((int)med.size()-(int)mstart<20) return 0; double x=median(b),y=median(m); return x>=y; }
      case CONDITIONCOV: { double k=v.maxeig/v.mineig; return tri(k>1e14*(1-E),k>1e14*(1+E)); }
      case NOEFFECTAXIS: { auto test=[&](double s) { for (int i=0;i<n;i++) { double e=0.1*v.sigma*std::sqrt(v.eigval(i))*s; for (int j=0;j<n;j++) { volatile double x=v.xmean[i]+(dg?e:e*v.eigvec(i,j)); if (x!=v.xmean[i]) return false; } } return true; }; return tri(test(1-E),test(1+E)); }
      default: { auto test=[&](double s) { for (int i=0;i<n;i++) { double d=dg?v.sepcov(i,0):v.cov(i,i); volatile double x=v.xmean[i]+0.2*v.sigma*std::sqrt(d)*s; if (x!=v.xmean[i]) return false; } return true; }; return tri(test(1-E),test(1+E)); }
    } }
  static const char *name(int k) { switch(k) { case MAXFEVALS: return "MAXFEVALS"; case MAXITER: return "MAXITER"; case AUTOMAXITER: return "AUTOMAXITER"; case FTARGET: return "FTARGET"; case TOLHISTFUN: return "TOLHISTFUN"; case EQUALFUNVALS: return "EQUALFUNVALS"; case TOLX: return "TOLX"; case TOLUPSIGMA: return "TOLUPSIGMA"; case STAGNATION: return "STAGNATION"; case CONDITIONCOV: return "CONDITIONCOV"; case NOEFFECTAXIS: return "NOEFFECTAXIS"; case NOEFFECTCOOR: return "NOEFFECTCOOR"; case 0: return "CONT"; } return "?"; }
  // verdict on the real search's answer
  std::string judge(bool stopped,int status,const View &v,long calls,int gens,const dVec &pc,std::set<int> *hit=nullptr) {
    std::string must; bool may=false,named=false; for (int i=0;i<12;i++) if (on[i]) { int h=holds(ALL_CRIT[i],v,calls,gens,pc); if (h==1) { must+=std::string(" ")+name(ALL_CRIT[i]); } if (h) { may=true; if (status==ALL_CRIT[i]) named=true; } }
    if (hit&&stopped) hit->insert(status);
    if (!stopped) return must.empty()?"":"did not stop although"+must+" holds";
    if (!may) return std::string("stopped (status ")+name(status)+") although no enabled criterion holds";
    if (!named) return std::string("reported status ")+name(status)+" but that enabled criterion does not hold (holding:"+must+")"; return ""; }
};
}
