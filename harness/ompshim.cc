#include "ompshim.hpp"
#include <ucontext.h>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cstdint>
#include <malloc.h>
#include <exception>
#include <new>
#include <sys/mman.h>
extern "C" { void *__real_malloc(size_t); void __real_free(void*); void *__real_realloc(void*,size_t); void *__real_calloc(size_t,size_t); void *__real_memcpy(void*,const void*,size_t); void *__real_memmove(void*,const void*,size_t); void *__real_memset(void*,int,size_t); int __real___cxa_guard_acquire(uint64_t*); void __real___cxa_guard_release(uint64_t*); }
namespace ompshim {
int team=1; std::function<int(int)> pick; long regions=0,regions_par=0,accesses=0,switches=0;
static const int MAXT=8; static const size_t STK=1<<20;
struct Fiber { ucontext_t ctx; char *stk; bool done; int muted; int waiting; /* 0 runnable, 1 barrier, 2 lock */ void *lock; unsigned held; std::exception_ptr ex; long loopno; };
static Fiber F[MAXT]; static int nf=0,cur=-1; static ucontext_t mainctx; static void (*body)(void*); static void *bdata; static bool stacks=false;
static char racemsg[512]; static bool raced=false;
// dynamic loops
struct Loop { long next,end,incr,chunk; bool init; int done; }; static Loop loops[64];
static int singles[256]; static long barno=0;
// locks
static void *lockaddr[8]; static int lockowner[8]; static int nlocks=0;
static int lockid(void *a) { for (int i=0;i<nlocks;i++) if (lockaddr[i]==a) return i; if (nlocks==8) return 7; lockaddr[nlocks]=a; lockowner[nlocks]=-1; return nlocks++; }
// shadow
struct Sh { uintptr_t key; uint32_t ep; uint8_t r[MAXT],w[MAXT],lk[MAXT]; }; static Sh *tab=nullptr; static size_t TAB=1<<16; static uint32_t ep=0; static size_t used=0;
static void newepoch() { ep++; used=0; if (!tab) { tab=(Sh*)mmap(nullptr,TAB*sizeof(Sh),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); } }
static Sh *slot(uintptr_t k) { size_t h=(k*0x9e3779b97f4a7c15ULL)>>20&(TAB-1); for (;;) { Sh &s=tab[h]; if (s.ep!=ep) { memset(&s,0,sizeof s); s.key=k; s.ep=ep; memset(s.lk,0xff,sizeof s.lk); used++; return &s; } if (s.key==k) return &s; h=(h+1)&(TAB-1); } }
static void grow() { Sh *o=tab; size_t n=TAB; TAB*=4; tab=(Sh*)mmap(nullptr,TAB*sizeof(Sh),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); used=0; for (size_t i=0;i<n;i++) if (o[i].ep==ep) { Sh *s=slot(o[i].key); *s=o[i]; } munmap(o,n*sizeof(Sh)); }
static void rec1(uintptr_t k,uint8_t mask,bool wr,void *pc) {
  if (used*2>TAB) grow(); Sh *s=slot(k); uint8_t L=(uint8_t)F[cur].held; if (wr) s->w[cur]|=mask; else s->r[cur]|=mask; s->lk[cur]&=L;
  if (!raced) for (int t=0;t<nf;t++) if (t!=cur) { uint8_t x=s->w[t]|(wr?s->r[t]:0); if ((x&mask)&&!(s->lk[t]&s->lk[cur])) { raced=true; snprintf(racemsg,sizeof racemsg,"team members %d and %d both access the same memory in one parallel region, member %d %s it",t,cur,cur,wr?"writes":"reads"); return; } } }
static inline void rec(const void *a,size_t n,bool wr,void *pc) { if (cur<0||nf<2||F[cur].muted) return; accesses++; uintptr_t p=(uintptr_t)a; if (p>=(uintptr_t)F[cur].stk&&p<(uintptr_t)F[cur].stk+STK) return; // own stack
  while(n) { uintptr_t k=p>>3; unsigned o=p&7; size_t m=8-o<n?8-o:n; rec1(k,(uint8_t)(((1u<<m)-1)<<o),wr,pc); p+=m; n-=m; } }
// deferred frees
static void **defer=nullptr; static size_t ndef=0,cdef=0;
static void dfree(void *p) { if (!p) return; if (cur<0||nf<2) { __real_free(p); return; } if (ndef==cdef) { cdef=cdef?2*cdef:1024; defer=(void**)__real_realloc(defer,cdef*sizeof(void*)); } defer[ndef++]=p; }
static void flushfree() { for (size_t i=0;i<ndef;i++) __real_free(defer[i]); ndef=0; }
int self() { return cur; }
static std::exception_ptr pickex; static int ask(int k) { if (!pick||pickex) return 0; try { return pick(k); } catch (...) { pickex=std::current_exception(); return 0; } }
static void sched() { // switch away from the current fiber
  int me=cur; int run[MAXT],k=0; for (int i=0;i<nf;i++) if (!F[i].done&&!F[i].waiting) run[k++]=i;
  if (!k) { // all waiting: barrier complete, or nothing left
    bool bar=false; for (int i=0;i<nf;i++) if (!F[i].done&&F[i].waiting==1) bar=true; if (bar) { newepoch(); barno++; for (int i=0;i<nf;i++) if (F[i].waiting==1) { F[i].waiting=0; run[k++]=i; } } }
  if (!k) { cur=-1; setcontext(&mainctx); }
  int c=0; if (k>1) { switches++; cur=-1; c=ask(k); } cur=run[c]; if (cur!=me) { int t=cur; if (F[me].done) setcontext(&F[t].ctx); swapcontext(&F[me].ctx,&F[t].ctx); } }
void yield() { if (cur<0||nf<2) return; sched(); }
static void tramp() { try { body(bdata); } catch (...) { F[cur].ex=std::current_exception(); } F[cur].done=true; sched(); abort(); }
static void region(void (*fn)(void*),void *data,unsigned nt) {
  regions++; int n=nt?(int)nt:team; if (n>team) n=team; if (n>MAXT) n=MAXT; memset(singles,0,sizeof singles); 
  if (cur>=0||n<=1) { int snf=nf; if (cur<0) { for (auto &l: loops) l.init=false; F[0].loopno=0; } fn(data); return; }
  regions_par++; for (auto &l: loops) l.init=false;
  if (!stacks) { for (auto &f: F) f.stk=(char*)mmap(nullptr,STK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); stacks=true; }
  nf=n; body=fn; bdata=data; newepoch(); barno=0;
  for (int i=0;i<n;i++) { F[i].done=false; F[i].muted=0; F[i].waiting=0; F[i].held=0; F[i].ex=nullptr; F[i].loopno=0; getcontext(&F[i].ctx); F[i].ctx.uc_stack.ss_sp=F[i].stk; F[i].ctx.uc_stack.ss_size=STK; F[i].ctx.uc_link=nullptr; makecontext(&F[i].ctx,tramp,0); }
  int c=0; switches++; pickex=nullptr; c=ask(n); cur=c; swapcontext(&mainctx,&F[c].ctx);
  cur=-1; int m=nf; nf=0; flushfree(); if (pickex) { auto e=pickex; pickex=nullptr; std::rethrow_exception(e); } for (int i=0;i<m;i++) if (F[i].ex) { auto e=F[i].ex; F[i].ex=nullptr; std::rethrow_exception(e); } for (int i=0;i<m;i++) if (!F[i].done) { fprintf(stderr,"deadlock in a parallel region\n"); abort(); } }
static void barrier() { if (cur<0||nf<2) return; F[cur].waiting=1; sched(); }
static void lock(void *a) { if (cur<0||nf<2) return; int id=lockid(a); while(lockowner[id]>=0&&lockowner[id]!=cur) { sched(); } lockowner[id]=cur; F[cur].held|=1u<<id; }
static void unlock(void *a) { if (cur<0||nf<2) return; int id=lockid(a); lockowner[id]=-1; F[cur].held&=~(1u<<id); }
Mute::Mute() { if (cur>=0) F[cur].muted++; } Mute::~Mute() { if (cur>=0&&F[cur].muted) F[cur].muted--; }
const char *race() { return raced?racemsg:nullptr; } void reset() { raced=false; cur=-1; nf=0; nlocks=0; flushfree(); }
static bool loop_next(long *s,long *e) { int n=cur<0?0:cur; Loop &l=loops[F[n].loopno%64]; long left=(l.end-l.next)*(l.incr>0?1:-1); if (left<=0) return false; *s=l.next; long st=l.chunk*l.incr; l.next+=st; if ((l.incr>0&&l.next>l.end)||(l.incr<0&&l.next<l.end)) l.next=l.end; *e=l.next; return true; }
static void loop_init(long a,long b,long i,long c) { Loop &l=loops[F[cur<0?0:cur].loopno%64]; if (!l.init) { l.init=true; l.next=a; l.end=b; l.incr=i; l.chunk=c>0?c:1; l.done=0; } }
static void loop_end() { F[cur<0?0:cur].loopno++; }
}
using namespace ompshim;
extern "C" {
void GOMP_parallel(void (*fn)(void*),void *d,unsigned nt,unsigned) { region(fn,d,nt); }
#define PL(N) void N(void (*fn)(void*),void *d,unsigned nt,long a,long b,long i,long c,unsigned) { for (auto &l: loops) l.init=false; struct W { void (*fn)(void*); void *d; long a,b,i,c; } w{fn,d,a,b,i,c}; region([](void *p) { W *w=(W*)p; loop_init(w->a,w->b,w->i,w->c); w->fn(w->d); },&w,nt); }
PL(GOMP_parallel_loop_dynamic) PL(GOMP_parallel_loop_nonmonotonic_dynamic) PL(GOMP_parallel_loop_guided) PL(GOMP_parallel_loop_nonmonotonic_guided) PL(GOMP_parallel_loop_static)
#define PR(N) void N(void (*fn)(void*),void *d,unsigned nt,long a,long b,long i,unsigned f) { GOMP_parallel_loop_dynamic(fn,d,nt,a,b,i,1,f); }
PR(GOMP_parallel_loop_runtime) PR(GOMP_parallel_loop_nonmonotonic_runtime) PR(GOMP_parallel_loop_maybe_nonmonotonic_runtime)
#define LS(N) bool N(long a,long b,long i,long c,long *s,long *e) { loop_init(a,b,i,c); return loop_next(s,e); }
LS(GOMP_loop_dynamic_start) LS(GOMP_loop_nonmonotonic_dynamic_start) LS(GOMP_loop_guided_start) LS(GOMP_loop_nonmonotonic_guided_start) LS(GOMP_loop_static_start)
#define LR(N) bool N(long a,long b,long i,long *s,long *e) { loop_init(a,b,i,1); return loop_next(s,e); }
LR(GOMP_loop_runtime_start) LR(GOMP_loop_nonmonotonic_runtime_start) LR(GOMP_loop_maybe_nonmonotonic_runtime_start)
#define LN(N) bool N(long *s,long *e) { return loop_next(s,e); }
LN(GOMP_loop_dynamic_next) LN(GOMP_loop_nonmonotonic_dynamic_next) LN(GOMP_loop_guided_next) LN(GOMP_loop_nonmonotonic_guided_next) LN(GOMP_loop_static_next) LN(GOMP_loop_runtime_next) LN(GOMP_loop_nonmonotonic_runtime_next) LN(GOMP_loop_maybe_nonmonotonic_runtime_next)
void GOMP_loop_end() { loop_end(); barrier(); } void GOMP_loop_end_nowait() { loop_end(); }
void GOMP_barrier() { barrier(); }
static char critdef; void GOMP_critical_start() { lock(&critdef); } void GOMP_critical_end() { unlock(&critdef); }
void GOMP_critical_name_start(void **p) { lock(p); } void GOMP_critical_name_end(void **p) { unlock(p); }
static char atomdef; void GOMP_atomic_start() { lock(&atomdef); } void GOMP_atomic_end() { unlock(&atomdef); }
bool GOMP_single_start() { if (cur<0||nf<2) return true; long k=F[cur].loopno++; int &s=singles[k%256]; bool f=s==0; s++; return f; }
void GOMP_task(void (*fn)(void*),void *data,void (*cpy)(void*,void*),long size,long align,bool,unsigned,void**,int,void*) { if (cpy) { char *b=(char*)__real_malloc(size+align); char *a=(char*)(((uintptr_t)b+align-1)/align*align); cpy(a,data); fn(a); } else fn(data); }
void GOMP_taskwait() {} void GOMP_taskgroup_start() {} void GOMP_taskgroup_end() {}
void GOMP_ordered_start() {} void GOMP_ordered_end() {}
int omp_get_thread_num() { return cur<0?0:cur; } int omp_get_num_threads() { return nf<2?1:nf; } int omp_get_max_threads() { return team; } int omp_in_parallel() { return cur>=0&&nf>1; } int omp_get_num_procs() { return team; } void omp_set_num_threads(int) {} double omp_get_wtime() { return 0; } void omp_set_dynamic(int) {} int omp_get_dynamic() { return 0; } int omp_get_level() { return cur>=0; } int omp_get_thread_limit() { return team; } void omp_set_nested(int) {} 
void omp_init_lock(void*) {} void omp_destroy_lock(void*) {} void omp_set_lock(void *l) { lock(l); } void omp_unset_lock(void *l) { unlock(l); }
int __wrap_pthread_mutex_lock(void *m) { lock(m); return 0; } int __wrap_pthread_mutex_unlock(void *m) { unlock(m); return 0; }
// memory
void *__wrap_malloc(size_t n) { return __real_malloc(n); } void __wrap_free(void *p) { dfree(p); } void *__wrap_calloc(size_t a,size_t b) { return __real_calloc(a,b); }
void *__wrap_realloc(void *p,size_t n) { if (cur<0||nf<2||!p) return __real_realloc(p,n); void *q=__real_malloc(n); size_t o=malloc_usable_size(p); __real_memcpy(q,p,o<n?o:n); rec(p,o<n?o:n,false,0); rec(q,o<n?o:n,true,0); dfree(p); return q; }
void *__wrap_memcpy(void *d,const void *s,size_t n) { rec(s,n,false,0); rec(d,n,true,0); return __real_memcpy(d,s,n); }
void *__wrap_memmove(void *d,const void *s,size_t n) { rec(s,n,false,0); rec(d,n,true,0); return __real_memmove(d,s,n); }
void *__wrap_memset(void *d,int c,size_t n) { rec(d,n,true,0); return __real_memset(d,c,n); }
int __wrap___cxa_guard_acquire(uint64_t *g) { int r=__real___cxa_guard_acquire(g); if (r&&cur>=0) F[cur].muted++; return r; } void __wrap___cxa_guard_release(uint64_t *g) { if (cur>=0&&F[cur].muted) F[cur].muted--; __real___cxa_guard_release(g); }
// thread sanitizer entry points
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(B) void __tsan_read##B(void *a) { rec(a,B,false,__builtin_return_address(0)); } void __tsan_write##B(void *a) { rec(a,B,true,__builtin_return_address(0)); } void __tsan_unaligned_read##B(void *a) { rec(a,B,false,__builtin_return_address(0)); } void __tsan_unaligned_write##B(void *a) { rec(a,B,true,__builtin_return_address(0)); } void __tsan_volatile_read##B(void *a) { rec(a,B,false,0); } void __tsan_volatile_write##B(void *a) { rec(a,B,true,0); } void __tsan_read##B##_pc(void *a,void*) { rec(a,B,false,0); } void __tsan_write##B##_pc(void *a,void*) { rec(a,B,true,0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a,long n) { rec(a,n,false,0); } void __tsan_write_range(void *a,long n) { rec(a,n,true,0); } void __tsan_vptr_update(void **a,void *) { rec(a,8,true,0); } void __tsan_vptr_read(void **a) { rec(a,8,false,0); }
#define AT(B,T) T __tsan_atomic##B##_load(const volatile T *a,int) { return __atomic_load_n(a,__ATOMIC_SEQ_CST); } void __tsan_atomic##B##_store(volatile T *a,T v,int) { __atomic_store_n(a,v,__ATOMIC_SEQ_CST); } T __tsan_atomic##B##_exchange(volatile T *a,T v,int) { return __atomic_exchange_n(a,v,__ATOMIC_SEQ_CST); } T __tsan_atomic##B##_fetch_add(volatile T *a,T v,int) { return __atomic_fetch_add(a,v,__ATOMIC_SEQ_CST); } T __tsan_atomic##B##_fetch_sub(volatile T *a,T v,int) { return __atomic_fetch_sub(a,v,__ATOMIC_SEQ_CST); } T __tsan_atomic##B##_fetch_or(volatile T *a,T v,int) { return __atomic_fetch_or(a,v,__ATOMIC_SEQ_CST); } T __tsan_atomic##B##_fetch_and(volatile T *a,T v,int) { return __atomic_fetch_and(a,v,__ATOMIC_SEQ_CST); } T __tsan_atomic##B##_fetch_xor(volatile T *a,T v,int) { return __atomic_fetch_xor(a,v,__ATOMIC_SEQ_CST); } bool __tsan_atomic##B##_compare_exchange_strong(volatile T *a,T *e,T v,int,int) { return __atomic_compare_exchange_n(a,e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); } bool __tsan_atomic##B##_compare_exchange_weak(volatile T *a,T *e,T v,int,int) { return __atomic_compare_exchange_n(a,e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); } T __tsan_atomic##B##_compare_exchange_val(volatile T *a,T e,T v,int,int) { __atomic_compare_exchange_n(a,&e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); return e; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
void *operator new(size_t n) { void *p=__real_malloc(n?n:1); if (!p) throw std::bad_alloc(); return p; } void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { dfree(p); } void operator delete[](void *p) noexcept { dfree(p); } void operator delete(void *p,size_t) noexcept { dfree(p); } void operator delete[](void *p,size_t) noexcept { dfree(p); }
