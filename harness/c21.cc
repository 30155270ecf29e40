// C21: statistics derived from the search distribution, along every ranking history; reading and printing leave the search unchanged.
#include "cross.hpp"
#include "ref.hpp"
using namespace vm;
static void stats(Chooser &ch,const Cfg &c,Search &s,const dMat *decomposed) {
  CMASolutions &S=s.sols(); int n=c.dim; View v0=view_of(S,true); dMat F=S.full_cov(); ch.checked();
  if (F.rows()!=n||F.cols()!=n) fail("shape","full covariance is not n x n"); double mx=F.diagonal().cwiseAbs().maxCoeff(); for (int i=0;i<n;i++) for (int j=0;j<n;j++) if (!(std::fabs(F(i,j)-F(j,i))<=1e-12*mx)) fail("cov","full covariance is not symmetric");
  if (!c.is_sep()&&!c.is_vd()) { if (!samem(F,S.cov())||!samem(F,S.cov_ref())||!samed(S.cov_data()[n*n-1],F(n-1,n-1))) fail("cov","full covariance differs from the covariance"); }
  else { if (S.sepcov().size()!=n||!samem(S.sepcov(),S.sepcov_ref())||!samed(S.sepcov_data()[n-1],S.sepcov()(n-1))) fail("cov","diagonal accessors differ"); for (int i=0;i<n;i++) for (int j=0;j<n;j++) if (c.is_sep()&&!samed(F(i,j),i==j?S.sepcov()(i):0.0)) fail("cov","full covariance is not the diagonal one"); if (c.is_vd()) for (int i=0;i<n;i++) if (!(F(i,i)>=S.sepcov()(i)*S.sepcov()(i)*(1-1e-12))) fail("cov","full covariance is not diagonal plus rank one"); }
  dMat K=S.corr(); if (c.is_sep()&&K.cols()==1) { for (int i=0;i<n;i++) if (K(i,0)!=1) fail("corr","diagonal form of the correlations is not one"); K=dMat::Identity(n,n); }
  if (K.rows()!=n||K.cols()!=n) fail("shape","correlation matrix is not n x n");
  for (int i=0;i<n;i++) for (int j=0;j<n;j++) { double want=i==j?1:F(i,j)/std::sqrt(F(i,i)*F(j,j)); if (!close(K(i,j),want,1e-9,1e-9)) fail("corr","correlation ("+std::to_string(i)+","+std::to_string(j)+") is "+ds(K(i,j))+", covariance says "+ds(want)); double e=S.corr(i,j); if (!close(e,want,1e-9,1e-9)) fail("corr","single correlation ("+std::to_string(i)+","+std::to_string(j)+") is "+ds(e)+", covariance says "+ds(want)); if (!(std::fabs(e)<=1+1e-9)) fail("corr","correlation outside [-1,1]"); }
  dVec st=s.stds(),er=s.errors(); dVec sd(n); for (int i=0;i<n;i++) sd[i]=std::sqrt(F(i,i)); dVec a=s.pheno(v0.xmean),b=s.pheno(dVec(v0.xmean+sd)); if (st.size()!=n||er.size()!=n) fail("shape","deviations have the wrong size"); for (int i=0;i<n;i++) { double want=std::fabs(b[i]-a[i]); if (!close(st[i],want,1e-7,1e-9*(1+std::fabs(a[i])))) fail("stds","deviation "+std::to_string(i)+" is "+ds(st[i])+", the covariance mapped to the user's space gives "+ds(want)); if (!close(er[i],std::sqrt(v0.sigma)*st[i],1e-12,0)) fail("errors","error "+std::to_string(i)+" is "+ds(er[i])+", deviation "+ds(st[i])+" and step size "+ds(v0.sigma)); }
  if (S.niter()>0) { dVec ev=S.eigenvalues(); if (ev.size()!=n) fail("eigen","number of eigenvalues"); double lo=ev[0],hi=ev[0]; for (int i=0;i<n;i++) { lo=std::min(lo,ev[i]); hi=std::max(hi,ev[i]); } if (!samed(lo,S.min_eigenv())||!samed(hi,S.max_eigenv())) fail("eigen","extreme eigenvalues "+ds(S.min_eigenv())+","+ds(S.max_eigenv())+" are not those reported "+vs(ev));
    if (decomposed) { const dMat &C=*decomposed; dMat V=S.eigenvectors(); if (V.rows()!=n||V.cols()!=n) fail("eigen","eigenvectors are not n x n"); double sc=C.diagonal().maxCoeff(); dMat E=V*ev.asDiagonal()*V.transpose()-C; if (!(E.cwiseAbs().maxCoeff()<=1e-10*sc)) fail("eigen","eigen-decomposition does not reconstruct the covariance"); dMat O=V.transpose()*V-dMat::Identity(n,n); if (!(O.cwiseAbs().maxCoeff()<=1e-10)) fail("eigen","eigenvectors are not orthonormal"); dMat Q=S.csqinv(); if (Q.rows()==n&&lo>1e-7*hi) { dMat U=Q*C*Q-dMat::Identity(n,n); if (!(U.cwiseAbs().maxCoeff()<=1e-6)) fail("eigen","inverse square root does not match the covariance"); } }
    if (c.is_sep()) for (int i=0;i<n;i++) if (!samed(ev[i],F(i,i))) fail("eigen","eigenvalues of a diagonal covariance are not its diagonal"); }
  if (S.dim()!=n||S.nevals()!=S.fevals()) fail("getter","dim() or nevals()"); const CMASolutions &cs=S; for (int i=0;i<S.size();i++) if (!same(S.get_candidate(i).get_x_dvec(),cs.get_candidate(i).get_x_dvec())||!same(S.candidates()[i].get_x_dvec(),cs.get_candidate(i).get_x_dvec())) fail("getter","candidate accessors differ"); for (int i=0;i<S.size();i++) { Candidate q=S.get_candidate(i); if (q.get_x_size()!=(unsigned)n&&q.get_x_size()!=0) fail("getter","size of a candidate"); if (q.get_x_size()) { std::vector<double> w=q.get_x(); const double *p=q.get_x_ptr(); for (int k=0;k<n;k++) if (!samed(w[k],q.get_x_dvec()[k])||!samed(p[k],w[k])) fail("getter","candidate coordinates differ between accessors"); dVec ph=s.pheno(q.get_x_dvec()); if (ph.size()!=n) fail("getter","phenotype size"); } }
  std::string o0=s.print(0),o1=s.print(1); if (S.size()) { auto num=[&](const std::string &o,const char *key) { size_t p=o.find(key); if (p==std::string::npos) fail("print",std::string("no ")+key+" in the printed solution"); return strtod(o.c_str()+p+strlen(key),nullptr); }; for (auto &o: {o0,o1}) { auto near=[&](double x,double y) { return close(x,y,1e-4,1e-300); }; if (!near(num(o,"f-value="),S.best_candidate().get_fvalue())) fail("print","printed value"); if (num(o,"fevals=")!=S.fevals()||num(o,"iter=")!=S.niter()) fail("print","printed counts"); if (!near(num(o,"sigma="),S.sigma())) fail("print","printed step size"); dVec bx=s.pheno(S.best_candidate().get_x_dvec()); if (!near(num(o,"x="),bx[0])) fail("print","printed point"); } if (o1.find("psigma=")==std::string::npos) fail("print","no details at verbosity 1"); }
  std::ostringstream os; os<<S; (void)S.status_msg(); S.csqinv(); S.sepcsqinv(); S.elapsed_time();
  View v1=view_of(S,true); same_state("after reading and printing",v0,v1); if (!same(v0.eigval,v1.eigval)||!samem(v0.eigvec,v1.eigvec)||v0.status!=v1.status) fail("changed","reading changed the eigen-decomposition or status");
}
static void body(Chooser &ch,const Cfg &c,ValFn vals,int gens,bool reread) {
  Run r(c); std::vector<std::vector<double>> script; r.keep=false; r.extra=[](const dVec &x,int) { return x.squaredNorm(); }; r.values=[&](int g,const dMat &m,const dMat &p) { auto v=vals(g,m,p); script.push_back(v); return v; }; r.start(); Ref ref(c,r.s->lambda()); dMat C; bool full=!c.is_sep()&&!c.is_vd(); stats(ch,c,*r.s,nullptr); bool ok=true;
  for (int t=0;t<gens;t++) { Dist b=dist_of(r.s->sols(),c); if (!b.F.allFinite()||!b.m.allFinite()) { ok=false; break; } if (full) { int last=ref.last; bool f=ref.first; ref.asked(b,t); if (f||ref.last!=last||t==0||!c.lazy) C=b.F; } r.generation(); View v=view_of(r.s->sols()); ch.state(v.hash()); if (!r.s->sols().full_cov().allFinite()||!v.xmean.allFinite()||!std::isfinite(v.sigma)) { ok=false; break; } stats(ch,c,*r.s,full?&C:nullptr); }
  View f=view_of(r.s->sols(),true); ch.outcome(f.hash());
  if (reread&&ok) { Run q(c); q.keep=false; q.extra=r.extra; q.values=[&](int g,const dMat&,const dMat&) { return script[g]; }; q.start(); for (size_t t=0;t<script.size();t++) q.generation(); ch.checked(); same_state("search whose statistics were read vs. not read",f,view_of(q.s->sols(),true)); dMat a=r.s->ask(),b=q.s->ask(); if (!samem(a,b)) fail("changed","reading statistics changed the next samples"); }
}
int main(int argc,char **argv) {
  vmc::Main m(argc,argv,"C21"); bool T=m.thorough(); int A[]={0,3,6,9,12};
  auto opts=[](Cfg &c,int o) { switch(o) { case 1: c.gp=GP_PWQ; break; case 2: c.gp=GP_PWQLIN; c.maximize=true; break; case 3: c.lazy=true; break; case 4: c.fixed={{1,0.3}}; break; case 5: c.gp=GP_LINVEC; c.lazy=true; break; case 6: c.gp=GP_CUSTOM; c.tpa=2; break; case 7: c.gp=GP_PWQ; c.bset=1; c.x0=5e-4; c.x0step=0; c.sigma=0.01; break; case 8: c.gp=GP_PWQLINVEC; break; case 9: c.gp=GP_PWQ; c.bset=2; c.x0=1e5; c.sigma=1e5; break; } };
  for (int a: A) for (int o=0;o<10;o++) for (int l: {2,3,4}) { Cfg c; c.algo=a; c.dim=a==12?6:o==4||l==2?3:2; c.lambda=l; c.alloff=true; opts(c,o); if (c.tpa==2&&l<4) continue; int depth=l==2?5:l==3?3:2; if (T) depth++; 
    m.add(c.str()+" depth="+std::to_string(depth),[=](Chooser &ch) { Levels lv; body(ch,c,[&](int,const dMat &q,const dMat&) { return lv.next(ch,q.cols(),1,false); },depth,true); }); }
  for (int a: A) for (int o=0;o<10;o++) for (int dim: {2,3,6,11}) for (int l: {5,8}) { if (a==12&&dim<6) continue; Cfg c; c.algo=a; c.dim=dim; c.lambda=l; c.alloff=true; opts(c,o); int G=T?150:50; if (c.gp==GP_PWQ&&c.bset==1) c.x0step=1e-6; m.add("long "+c.str(),[=](Chooser &ch) { int F[]={F_SPHERE,F_LINEAR,F_CONST,F_ELLI,F_WORSE,F_NOISE}; int k=ch.choose(6); body(ch,c,[&](int g,const dMat&,const dMat &p) { return famgen(F[k],g,p); },G,true); }); }
  // resumed and finished solutions
  for (int a=0;a<15;a++) for (int o=0;o<10;o++) { Cfg c; c.algo=a; c.dim=c.is_vd()?6:3; c.lambda=6; c.max_iter=6; c.restarts=2; opts(c,o); m.add("finished "+c.str(),[=](Chooser &ch) { int F[]={F_SPHERE,F_CONST,F_ELLI,F_NOISE}; int k=ch.choose(4); Env e; int g=0; e.f=[&](const double *x,int n) { return fam(F[k],Eigen::Map<const dVec>(x,n),g++/6,g%6); }; auto s=make_search(c,&e); s->optimize(); ch.state(view_of(s->sols()).hash()); stats(ch,c,*s,nullptr); std::string ms=s->sols().status_msg(); if (ms.empty()) fail("status","no message for status "+std::to_string(s->sols().run_status())); CMASolutions copy=s->sols(); same_state("copy",view_of(copy,true),view_of(s->sols(),true)); auto s2=make_search(c,&e,&copy); stats(ch,c,*s2,nullptr); s2->optimize(); stats(ch,c,*s2,nullptr); }); }
  // interactions of settings: every feasible combination of values of any three settings
  for (auto &c: cross([](Cfg &c) { if (c.elit||c.initf||c.edm||c.grad) return false; c.alloff=true; return true; })) m.add("cross "+c.str(),[=](Chooser &ch) { CrossScript s(ch,8,c.maximize?-1:1); body(ch,c,[&](int g,const dMat &q,const dMat &p) { return s(g,q,p); },16,true); });
  return m.run();
}
