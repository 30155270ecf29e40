// Stateless exhaustive explorer: depth-first enumeration of all choice sequences of a body, distributed over
// forked workers by job (= configuration), with crash/hang detection, replay-before-report and state hashing.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <functional>
#include <unordered_set>
#include <unordered_map>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <atomic>
#include <stdexcept>
#include <algorithm>
#include <limits>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
namespace vmc {
struct Violation { std::string key,msg; };
[[noreturn]] inline void fail(const std::string &key,const std::string &msg) { throw Violation{key,msg}; }
struct Divergence { std::string msg; };
static const int MAXTRACE=4096;
struct Slot { volatile int job; volatile int len; volatile double t0; int trace[MAXTRACE]; };
struct Shared {
  std::atomic<int> next; std::atomic<int> stop; std::atomic<uint64_t> execs,trans,states,checks,choices,outcomes; std::atomic<int> capped;
  std::atomic<uint64_t> maxdepth; Slot slot[64];
};
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
inline uint64_t mix(uint64_t h,uint64_t v) { h^=v+0x9e3779b97f4a7c15ULL+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdULL; h^=h>>29; return h; }
inline uint64_t dbits(double d) { uint64_t u; memcpy(&u,&d,8); return u; }
struct Chooser {
  std::vector<int> prefix; std::vector<std::pair<int,int>> tr; Slot *slot=nullptr;
  std::unordered_set<uint64_t> *seen=nullptr,*outs=nullptr; uint64_t trans=0,checks=0;
  int choose(int n) {
    if (n<=1) return 0;
    size_t i=tr.size(); int c=0;
    if (i<prefix.size()) { c=prefix[i]; if (c>=n) throw Divergence{"replay divergence: choice out of range"}; }
    tr.push_back({c,n});
    if (slot && i<MAXTRACE) { slot->trace[i]=c; slot->len=(int)i+1; }
    return c;
  }
  void state(uint64_t h) { trans++; if (seen) seen->insert(h); }
  void outcome(uint64_t h) { if (outs) outs->insert(h); }
  void checked(uint64_t k=1) { checks+=k; }
};
struct Job { std::string name; std::function<void(Chooser&)> body; };
inline std::string jesc(const std::string &s) { std::string o; for (unsigned char c: s) { if (c=='"'||c=='\\') { o+='\\'; o+=c; } else if (c<32) o+=' '; else o+=c; } return o; }
// Runs one execution. Returns true if a violation occurred.
inline bool run_one(const Job &j,Chooser &ch,Violation &v) {
  try { j.body(ch); return false; }
  catch (Violation &x) { v=x; return true; }
  catch (Divergence &d) { v=Violation{"divergence",d.msg}; return true; }
  catch (std::exception &e) { v=Violation{"exception",std::string("unexpected exception: ")+e.what()}; return true; }
}
struct Options { int workers=8; double deadline=780; double exec_limit=40; std::string out; std::string known; std::string tier="quick"; };
class Main {
public:
  std::string prop; Options opt; std::vector<Job> jobs; std::string replay; std::set<std::string> known; std::string only; bool list=false;
  std::vector<std::string> samples;
  Main(int argc,char **argv,const std::string &p):prop(p) {
    for (int i=1;i<argc;i++) { std::string a=argv[i]; auto nx=[&]{ return std::string(i+1<argc?argv[++i]:""); };
      if (a=="--out") opt.out=nx(); else if (a=="--tier") opt.tier=nx(); else if (a=="--known") opt.known=nx();
      else if (a=="--replay") replay=nx(); else if (a=="--workers") opt.workers=atoi(nx().c_str()); else if (a=="--deadline") opt.deadline=atof(nx().c_str());
      else if (a=="--only") only=nx(); else if (a=="--list") list=true; }
    if (!opt.known.empty()) { std::ifstream f(opt.known); std::string l; while(std::getline(f,l)) if (!l.empty()) known.insert(l); }
  }
  bool thorough() const { return opt.tier=="thorough"; }
  void add(const std::string &n,std::function<void(Chooser&)> b) { jobs.push_back({n,b}); }
  // replays a trace in a forked child; returns "" if no violation, else description
  std::string confirm(int job,const std::vector<int> &tr,double limit,std::string &key,bool &diverged) {
    int pfd[2]; if (pipe(pfd)) return "pipe"; fflush(stdout); diverged=false;
    pid_t pid=fork();
    if (pid==0) { close(pfd[0]); Chooser ch; ch.prefix=tr; Violation v; bool bad=run_one(jobs[job],ch,v);
      std::string s=bad?v.key+"\n"+v.msg:""; if (s.size()>3500) s.resize(3500); ssize_t r=write(pfd[1],s.data(),s.size()); (void)r; _exit(bad?9:0); }
    close(pfd[1]); std::string got; double t0=now(); int st=0; bool hung=false;
    fcntl(pfd[0],F_SETFL,O_NONBLOCK);
    for (;;) { char b[4096]; ssize_t r; while((r=read(pfd[0],b,4096))>0) got.append(b,r);
      pid_t w=waitpid(pid,&st,WNOHANG); if (w==pid) { while((r=read(pfd[0],b,4096))>0) got.append(b,r); break; }
      if (now()-t0>limit) { kill(pid,SIGKILL); waitpid(pid,&st,0); hung=true; break; } usleep(2000); }
    close(pfd[0]);
    if (hung) { key="hang"; return "execution does not terminate within limit"; }
    if (WIFSIGNALED(st)) { key="crash"; return std::string("crash: signal ")+std::to_string(WTERMSIG(st)); }
    if (WIFEXITED(st)&&WEXITSTATUS(st)==0) return "";
    if (WIFEXITED(st)&&WEXITSTATUS(st)!=9) { key="crash"; return "abnormal exit "+std::to_string(WEXITSTATUS(st)); }
    size_t p=got.find('\n'); key=got.substr(0,p); if (key=="divergence") diverged=true; return p==std::string::npos?got:got.substr(p+1);
  }
  int run() {
    if (!only.empty()) { std::vector<Job> k; for (auto &j: jobs) if (j.name.find(only)!=std::string::npos) k.push_back(j); jobs=k; }
    if (list) { for (size_t i=0;i<jobs.size();i++) printf("%zu %s\n",i,jobs[i].name.c_str()); return 0; }
    if (!replay.empty()) return do_replay();
    double T0=now();
    Shared *sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    new (sh) Shared(); sh->next=0; sh->stop=0; sh->execs=0; sh->trans=0; sh->states=0; sh->checks=0; sh->choices=0; sh->outcomes=0; sh->capped=0; sh->maxdepth=0;
    std::string base=opt.out.empty()?("/tmp/vmc."+std::to_string(getpid())):opt.out;
    int W=opt.workers; std::vector<pid_t> pids(W); fflush(stdout);
    for (int w=0;w<W;w++) { sh->slot[w].job=-1; pids[w]=fork(); if (pids[w]==0) { worker(w,sh,base+".w"+std::to_string(w),T0); fflush(nullptr); _exit(0); } }
    std::vector<int> alive(W,1); int nal=W; struct Bad { int job; std::vector<int> tr; std::string why; int w; }; std::vector<Bad> bads;
    while(nal>0) {
      bool any=false;
      for (int w=0;w<W;w++) if (alive[w]) { int st; pid_t r=waitpid(pids[w],&st,WNOHANG);
        if (r==pids[w]) { any=true; alive[w]=0; nal--; if (WIFSIGNALED(st)||(WIFEXITED(st)&&WEXITSTATUS(st)!=0)) { Bad b; b.job=sh->slot[w].job; b.tr.assign(sh->slot[w].trace,sh->slot[w].trace+std::min<int>((int)sh->slot[w].len,(int)MAXTRACE)); b.why=WIFSIGNALED(st)&&(WTERMSIG(st)==SIGKILL||WTERMSIG(st)==SIGTERM)?"hang":"crash"; b.w=w; bads.push_back(b); sh->stop=1; } }
        else if (double q=sh->slot[w].t0; sh->slot[w].job>=0 && q>0 && now()-q>opt.exec_limit) { Bad b; b.job=sh->slot[w].job; b.tr.assign(sh->slot[w].trace,sh->slot[w].trace+std::min<int>((int)sh->slot[w].len,(int)MAXTRACE)); b.why="hang"; b.w=w; kill(pids[w],SIGKILL); waitpid(pids[w],&st,0); alive[w]=0; nal--; bads.push_back(b); sh->stop=1; any=true; } }
      if (!any) usleep(5000);
    }
    // collect
    std::vector<std::string> viol; std::map<std::string,long> kn; std::string firstReplay;
    struct V { int job; std::vector<int> tr; std::string key,msg; std::vector<int> hist; }; std::vector<V> vs; std::vector<std::vector<int>> began(W);
    for (int w=0;w<W;w++) { std::string fn=base+".w"+std::to_string(w); std::ifstream f(fn); std::string l;
      while(std::getline(f,l)) { if (l[0]=='J') began[w].push_back(atoi(l.c_str()+2)); else if (l[0]=='K') { size_t p=l.find(' ',2); kn[l.substr(p+1)]+=atol(l.substr(2,p-2).c_str()); }
        else if (l[0]=='S') samples.push_back(l.substr(2));
        else if (l[0]=='V') { V v; std::istringstream is(l.substr(2)); size_t n; is>>v.job>>n; v.tr.resize(n); for (auto &x: v.tr) is>>x; std::getline(f,v.key); std::getline(f,v.msg); v.hist=began[w]; vs.push_back(v); } }
      unlink(fn.c_str()); }
    std::vector<V> confirmed; int unconfirmed=0;
    auto handle=[&](V v,double limit) { std::string key; bool div; std::string m=confirm(v.job,v.tr,limit,key,div); if (!m.empty()) v.hist.clear(); else if (v.key!="hang"&&v.hist.size()) { key=v.key; m=v.msg+" (not when the same steps are repeated in a fresh process: it depends on what the process did before, which the replay repeats)"; } if (m.empty()) { unconfirmed++; fprintf(stderr,"UNCONFIRMED job=%s: %s\n",jobs[v.job].name.c_str(),v.msg.c_str()); return; } v.key=key; v.msg=m; if (known.count(jobs[v.job].name+"|"+key)||known.count("*|"+key)) { kn[key]++; return; } confirmed.push_back(v); };
    for (auto &v: vs) handle(v,2*opt.exec_limit);
    for (auto &b: bads) if (b.job>=0 && confirmed.empty()) { if (unconfirmed>=2 && b.why=="hang") continue; V v; v.job=b.job; v.tr=b.tr; v.key=b.why; v.msg=b.why; v.hist=began[b.w]; handle(v,2*opt.exec_limit); }
    std::string outp=opt.out.empty()?"/dev/stdout":opt.out; std::ofstream o(outp);
    o<<"{\"property\":\""<<prop<<"\",\"jobs\":"<<jobs.size()<<",\"executions\":"<<sh->execs<<",\"transitions\":"<<sh->trans<<",\"states\":"<<sh->states<<",\"oracle_checks\":"<<sh->checks<<",\"choice_points\":"<<sh->choices<<",\"distinct_outcomes\":"<<sh->outcomes<<",\"max_choices_per_execution\":"<<sh->maxdepth<<",\"capped\":"<<sh->capped<<",\"unconfirmed\":"<<unconfirmed<<",\"wall_s\":"<<now()-T0<<",\n\"samples\":[";
    for (size_t i=0;i<samples.size()&&i<6;i++) o<<(i?",":"")<<"\""<<jesc(samples[i])<<"\""; o<<"],\n\"known\":{"; bool fst=true;
    for (auto &k: kn) { o<<(fst?"":",")<<"\""<<jesc(k.first)<<"\":"<<k.second; fst=false; } o<<"},\n\"violations\":[";
    for (size_t i=0;i<confirmed.size();i++) { auto &v=confirmed[i]; o<<(i?",\n":"")<<"{\"job\":\""<<jesc(jobs[v.job].name)<<"\",\"key\":\""<<jesc(v.key)<<"\",\"message\":\""<<jesc(v.msg)<<"\",\"choices\":["; for (size_t k=0;k<v.tr.size();k++) o<<(k?",":"")<<v.tr[k]; o<<"],\"history\":["; for (size_t k=0;k<v.hist.size();k++) o<<(k?",":"")<<v.hist[k]; o<<"]}"; }
    o<<"]}\n"; o.close();
    if (!confirmed.empty()) return 1;
    return 0;
  }
private:
  void worker(int w,Shared *sh,const std::string &fn,double T0) {
    Slot &sl=sh->slot[w]; FILE *f=fopen(fn.c_str(),"w"); std::map<std::string,long> kn; bool sampled=false;
    auto began=[&](int j) { fprintf(f,"J %d\n",j); fflush(f); };
    for (;;) {
      int j=sh->next.fetch_add(1); if (j>=(int)jobs.size()||sh->stop) break; began(j);
      std::unordered_set<uint64_t> seen,outs; std::vector<int> prefix; uint64_t ex=0,tr=0,chk=0,cps=0,md=0;
      bool quit=false;
      for (;;) {
        Chooser ch; ch.prefix=prefix; ch.slot=&sl; ch.seen=&seen; ch.outs=&outs; sl.len=0; sl.job=j; sl.t0=now();
        Violation v; bool bad=run_one(jobs[j],ch,v); sl.t0=0; ex++; tr+=ch.trans; chk+=ch.checks; cps+=ch.tr.size(); md=std::max<uint64_t>(md,ch.tr.size());
        if (bad) {
          if (known.count(jobs[j].name+"|"+v.key)||known.count("*|"+v.key)) kn[v.key]++;
          else { fprintf(f,"V %d %zu",j,ch.tr.size()); for (auto &t: ch.tr) fprintf(f," %d",t.first); std::string m=v.msg; for (auto &c: m) if (c=='\n') c=' '; fprintf(f,"\n%s\n%s\n",v.key.c_str(),m.c_str()); fflush(f); sh->stop=1; quit=true; break; }
        }
        if (!sampled && ch.tr.size()>0) { sampled=true; std::string s=jobs[j].name+" choices="; for (auto &t: ch.tr) s+=std::to_string(t.first)+"/"+std::to_string(t.second)+" "; s+=" transitions="+std::to_string(ch.trans); for (auto &c: s) if (c=='\n') c=' '; fprintf(f,"S %s\n",s.c_str()); }
        // backtrack
        auto t=ch.tr; while(!t.empty() && t.back().first+1>=t.back().second) t.pop_back();
        if (t.empty()) break;
        prefix.clear(); for (auto &x: t) prefix.push_back(x.first); prefix.back()++;
        if (sh->stop) { quit=true; break; }
        if (now()-T0>opt.deadline) { sh->capped++; quit=true; break; }
      }
      sh->execs+=ex; sh->trans+=tr; sh->states+=seen.size(); sh->checks+=chk; sh->choices+=cps; sh->outcomes+=outs.size(); uint64_t m=sh->maxdepth; while(md>m && !sh->maxdepth.compare_exchange_weak(m,md)) {}
      if (quit) break;
    }
    sl.job=-1;
    for (auto &k: kn) fprintf(f,"K %ld %s\n",k.second,k.first.c_str());
    fclose(f);
  }
  // runs every execution of a job in order; stops at the given trace and says what it did
  bool sweep(const Job &jb,const std::vector<int> *until,Violation &v) { std::vector<int> prefix;
    for (;;) { Chooser ch; ch.prefix=prefix; bool bad=run_one(jb,ch,v); auto t=ch.tr; if (until&&bad) { std::vector<int> x; for (auto &q: t) x.push_back(q.first); if (x==*until) return true; } while(!t.empty()&&t.back().first+1>=t.back().second) t.pop_back(); if (t.empty()) return false; prefix.clear(); for (auto &x: t) prefix.push_back(x.first); prefix.back()++; } }
  int do_replay() {
    // replay file: job name, choices separated by blanks, tier, jobs run before by the same process (only when the violation needs them)
    std::ifstream f(replay); std::string name,l,h; std::getline(f,name); std::getline(f,l); std::istringstream is(l); std::vector<int> tr,hist; int x; while(is>>x) tr.push_back(x); std::getline(f,h); std::getline(f,h); if (h.compare(0,9,"history: ")==0) { std::istringstream hs(h.substr(9)); while(hs>>x) hist.push_back(x); }
    for (size_t j=0;j<jobs.size();j++) if (jobs[j].name==name) {
      if (!hist.empty()) { Violation v; for (size_t i=0;i+1<hist.size();i++) if (hist[i]>=0&&hist[i]<(int)jobs.size()) sweep(jobs[hist[i]],nullptr,v); bool bad=sweep(jobs[j],&tr,v); printf("replay of %s after %zu other jobs: %s\n",name.c_str(),hist.size()-1,bad?(v.key+": "+v.msg).c_str():"no violation"); return bad?1:0; }
      std::string key; bool div; std::string m=confirm((int)j,tr,4*opt.exec_limit,key,div); printf("replay of %s: %s\n",name.c_str(),m.empty()?"no violation":(key+": "+m).c_str()); return m.empty()?0:1; }
    printf("replay: no such job %s\n",name.c_str()); return 2;
  }
};
// populations above 6: all rotations and reversed rotations
inline std::vector<std::vector<int>> rotations(int n) { std::vector<std::vector<int>> r; for (int k=0;k<n;k++) { std::vector<int> a(n),b(n); for (int i=0;i<n;i++) { a[i]=(i+k)%n; b[i]=n-1-a[i]; } r.push_back(a); r.push_back(b); } return r; }
// all weak orders (rankings with ties) of n items, as level vectors
inline const std::vector<std::vector<int>>& weak_orders(int n) {
  static std::map<int,std::vector<std::vector<int>>> memo; auto &r=memo[n]; if (!r.empty()) return r; if (n>6) return r=rotations(n);
  std::vector<int> a(n,0);
  std::function<void(int)> rec=[&](int i){ if (i==n) { int mx=*std::max_element(a.begin(),a.end()); std::vector<char> u(mx+1,0); for (int v: a) u[v]=1; for (char c: u) if (!c) return; r.push_back(a); return; } for (a[i]=0;a[i]<n;a[i]++) rec(i+1); a[i]=0; };
  rec(0);
  // simplest first: strict orders before ties is irrelevant; identity order first
  return r;
}
inline const std::vector<std::vector<int>>& strict_orders(int n) {
  static std::map<int,std::vector<std::vector<int>>> memo; auto &r=memo[n]; if (!r.empty()) return r; if (n>6) return r=rotations(n);
  std::vector<int> a(n); for (int i=0;i<n;i++) a[i]=i; do r.push_back(a); while(std::next_permutation(a.begin(),a.end())); return r;
}
}
