#include "fakeomp.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <unordered_set>
#include <ucontext.h>
#include <sys/mman.h>
#include <time.h>
namespace fomp {
struct Ws { bool init=false; long next=0,end=0,incr=1,chunk=1; unsigned long long unext=0,uend=0,uincr=1,uchunk=1; bool up=true; unsigned sect=0,nsect=0; bool taken=false; };
struct Fiber { ucontext_t ctx; void*stack=nullptr; bool done=false; int tid=0; size_t ws=0; std::vector<int> held; };
struct Team { std::vector<Fiber> f; std::vector<Ws> ws; ucontext_t home; int cur=-1; int arrived=0; long gen=0; void(*fn)(void*)=nullptr; void*data=nullptr; std::map<void*,int> locks; };
static Team*T=nullptr; static int want=1; static Mode mode=RUN; static uint64_t rs=1; static long long nteams=0,nswitch=0;
static std::unordered_set<void*> hot; static int nested_tid=-1;
static const size_t STK=1<<20;
static uint64_t rnd(){ uint64_t z=(rs+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
// --- conflicts: who touched each byte last, since the region began
struct Touch { uintptr_t a; uint32_t epoch; int16_t wt,rt,rt2; uint8_t wf,rf,rf2; void*wp,*rp,*rp2; };  // flags: 1 atomic, 2.. lock
static std::vector<Touch> tab; static uint32_t epoch=0; static size_t used=0;
static Touch& slot(uintptr_t a){ if(tab.empty()) tab.assign(1<<20,Touch{0,0}); size_t m=tab.size()-1,i=(a*0x9E3779B97F4A7C15ull>>20)&m;
  for(;;i=(i+1)&m){ Touch&t=tab[i]; if(t.epoch!=epoch){ if(used*2>tab.size()){ epoch++; used=0; return slot(a); } used++; t=Touch{a,epoch,-1,-1,-1,0,0,0,nullptr,nullptr,nullptr}; return t; } if(t.a==a) return t; } }
static bool safe(uint8_t a,uint8_t b){ return (a&&a==b); }
static void note(void*p,size_t n,bool w,bool at,void*pc){
  Fiber&f=T->f[T->cur]; uint8_t fl=at?1:(f.held.empty()?0:2+f.held.back()); int t=f.tid;
  for(size_t k=0;k<n;k++){ Touch&x=slot((uintptr_t)p+k);
    if(x.wt>=0&&x.wt!=t&&!safe(x.wf,fl)){ hot.insert(x.wp); hot.insert(pc); }
    if(w){ if(x.rt>=0&&x.rt!=t&&!safe(x.rf,fl)){ hot.insert(x.rp); hot.insert(pc);} if(x.rt2>=0&&x.rt2!=t&&!safe(x.rf2,fl)){ hot.insert(x.rp2); hot.insert(pc);} x.wt=t; x.wf=fl; x.wp=pc; }
    else if(x.rt<0||x.rt==t){ x.rt=t; x.rf=fl; x.rp=pc; } else { x.rt2=t; x.rf2=fl; x.rp2=pc; } }
}
static int busy=0; // (the runtime's own containers may share instantiations with the code under test)
struct Busy { Busy(){ busy++; } ~Busy(){ busy--; } };
static void yield(){ int b=busy; busy=0; struct R{int b;~R(){busy=b;}} r{b}; Fiber&f=T->f[T->cur]; nswitch++; swapcontext(&f.ctx,&T->home); }
void touch(void*p,size_t n,bool w,bool at,void*pc){
  if(busy||!T||T->cur<0) return;
  Busy g; if(mode==RECORD) note(p,n,w,at,pc);
  else if(mode==ADVERSE){ uint64_t q=rnd(); if(hot.count(pc)? (q&1) : (q%1024==0)) yield(); }
}
static void entry(){ Team*t=T; Fiber&f=t->f[t->cur]; try { t->fn(t->data); } catch(...) { abort(); } f.done=true; swapcontext(&f.ctx,&t->home); }
static std::vector<void*> stacks;
static void team(void(*fn)(void*),void*data,unsigned n,Ws*first){
  if(T||n<=1){ Team*o=T; int on=nested_tid; Team solo; solo.f.resize(1); if(first) solo.ws.push_back(*first); solo.f[0].ws=0; // a team of one
    solo.cur=-1; T=nullptr; nested_tid=0; struct Back{ Team*o; int on; ~Back(){ T=o; nested_tid=on; } } b{o,on}; static std::vector<Team*> st; (void)st; extern Team*Solo; Team*os=Solo; Solo=&solo; try { fn(data); } catch(...) { Solo=os; throw; } Solo=os; return; }
  Busy quiet; Team t; t.fn=fn; t.data=data; t.f.resize(n); if(first) t.ws.push_back(*first); nteams++; epoch++; used=0; T=&t;
  for(unsigned i=0;i<n;i++){ Fiber&f=t.f[i]; f.tid=i; if(stacks.empty()){ void*s=mmap(nullptr,STK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(s==MAP_FAILED) abort(); f.stack=s; } else { f.stack=stacks.back(); stacks.pop_back(); }
    getcontext(&f.ctx); f.ctx.uc_stack.ss_sp=f.stack; f.ctx.uc_stack.ss_size=STK; f.ctx.uc_link=nullptr; makecontext(&f.ctx,(void(*)())entry,0); }
  std::vector<int> order(n); for(unsigned i=0;i<n;i++) order[i]=i; if(mode==PERMUTE||mode==ADVERSE) for(unsigned i=n;i>1;i--) std::swap(order[i-1],order[rnd()%i]);
  std::vector<int> live=order; size_t k=0;
  while(!live.empty()){ if(mode==ADVERSE) k=rnd()%live.size(); else if(k>=live.size()) k=0;
    t.cur=live[k]; int b=busy; busy=0; swapcontext(&t.home,&t.f[t.cur].ctx); busy=b; if(t.f[live[k]].done) live.erase(live.begin()+k); else k++; t.cur=-1; }
  for(auto&f: t.f) stacks.push_back(f.stack); T=nullptr;
}
Team*Solo=nullptr;
static Fiber* me(){ return T&&T->cur>=0?&T->f[T->cur]:Solo?&Solo->f[0]:nullptr; }
static Team* mine(){ return T&&T->cur>=0?T:Solo; }
static Ws& ws(size_t i){ Busy g; Team*t=mine(); static Ws none; if(!t){ none=Ws(); return none; } if(t->ws.size()<=i) t->ws.resize(i+1); return t->ws[i]; }
static void barrier(){ if(!T||T->cur<0) return; long g=T->gen; if(++T->arrived==(int)T->f.size()){ T->arrived=0; T->gen++; } else while(T->gen==g) yield(); }
static void lock(void*l){ if(!T||T->cur<0) return; Busy g; if(mode==ADVERSE&&(rnd()&1)) yield(); while(T->locks.count(l)) yield(); T->locks[l]=T->cur; std::vector<int>&h=T->f[T->cur].held; h.push_back((int)((uintptr_t)l%200)); }
static void unlock(void*l){ if(!T||T->cur<0) return; Busy g; T->locks.erase(l); if(T->f[T->cur].held.size()) T->f[T->cur].held.pop_back(); if(mode==ADVERSE&&(rnd()&1)) yield(); }
static bool take(Ws&w,long*a,long*b){ if(w.incr>0?w.next>=w.end:w.next<=w.end) return false; *a=w.next; long e=w.next+w.chunk*w.incr; if(w.incr>0?e>w.end:e<w.end) e=w.end; *b=e; w.next=e; return true; }
static bool utake(Ws&w,unsigned long long*a,unsigned long long*b){ if(w.up?w.unext>=w.uend:w.unext<=w.uend) return false; *a=w.unext; unsigned long long step=w.uchunk*w.uincr,e; if(w.up) e=(w.uend-w.unext<=step)?w.uend:w.unext+step; else e=(w.unext-w.uend<=(0-step))?w.uend:w.unext+step; *b=e; w.unext=e; return true; }
static bool lstart(long s,long e,long i,long c,long*a,long*b){ Fiber*f=me(); if(!f) return false; Ws&w=ws(f->ws++); if(!w.init){ w.init=true; w.next=s; w.end=e; w.incr=i; w.chunk=c>0?c:1; } return take(w,a,b); }
static bool lnext(long*a,long*b){ Fiber*f=me(); if(!f||f->ws==0) return false; if(mode==ADVERSE&&T&&T->cur>=0&&(rnd()&1)) yield(); return take(ws(f->ws-1),a,b); }
static bool ustart(bool up,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long c,unsigned long long*a,unsigned long long*b){ Fiber*f=me(); if(!f) return false; Ws&w=ws(f->ws++); if(!w.init){ w.init=true; w.up=up; w.unext=s; w.uend=e; w.uincr=i; w.uchunk=c>0?c:1; } return utake(w,a,b); }
static bool unext(unsigned long long*a,unsigned long long*b){ Fiber*f=me(); if(!f||f->ws==0) return false; return utake(ws(f->ws-1),a,b); }
void use(int threads,Mode m,uint64_t seed){ want=threads; mode=m; rs=seed*77+5; }
void forget(){ hot.clear(); }
int conflicts(){ return (int)hot.size(); }
long long teams(){ return nteams; }
long long switches(){ return nswitch; }
bool real(){ return false; }
}
using namespace fomp;
typedef unsigned long long ull;
extern "C" {
int omp_get_num_threads(){ return T&&T->cur>=0?(int)T->f.size():1; }
int omp_get_thread_num(){ return T&&T->cur>=0?T->f[T->cur].tid:0; }
int omp_get_max_threads(){ return want; }
void omp_set_num_threads(int n){ want=n; }
int omp_in_parallel(){ return T&&T->cur>=0; }
int omp_get_num_procs(){ return 8; }
void omp_set_dynamic(int){} int omp_get_dynamic(){ return 0; } void omp_set_nested(int){} int omp_get_nested(){ return 0; } int omp_get_level(){ return T?1:0; } int omp_get_active_level(){ return T?1:0; } int omp_get_thread_limit(){ return 1024; }
void omp_set_max_active_levels(int){} int omp_get_max_active_levels(){ return 1; }
double omp_get_wtime(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; } double omp_get_wtick(){ return 1e-9; }
void omp_init_lock(void**){} void omp_destroy_lock(void**){} void omp_set_lock(void**l){ lock(l); } void omp_unset_lock(void**l){ unlock(l); } int omp_test_lock(void**l){ Busy g; if(T&&T->locks.count(l)) return 0; lock(l); return 1; }
static unsigned team_of(unsigned n){ return n?n:want; }
void GOMP_parallel(void(*fn)(void*),void*d,unsigned n,unsigned){ team(fn,d,team_of(n),nullptr); }
static void ploop(void(*fn)(void*),void*d,unsigned n,long s,long e,long i,long c){ Ws w; w.init=true; w.next=s; w.end=e; w.incr=i; w.chunk=c>0?c:1; struct P{ void(*fn)(void*); void*d; } p{fn,d}; team([](void*q){ P*p=(P*)q; me()->ws=1; p->fn(p->d); },&p,team_of(n),&w); }
#define PL(N) void GOMP_parallel_loop_##N(void(*fn)(void*),void*d,unsigned n,long s,long e,long i,long c,unsigned){ ploop(fn,d,n,s,e,i,c); }
PL(static) PL(dynamic) PL(guided) PL(nonmonotonic_dynamic) PL(nonmonotonic_guided)
#define PR(N) void GOMP_parallel_loop_##N(void(*fn)(void*),void*d,unsigned n,long s,long e,long i,unsigned){ ploop(fn,d,n,s,e,i,1); }
PR(runtime) PR(nonmonotonic_runtime) PR(maybe_nonmonotonic_runtime)
#define LS(N) bool GOMP_loop_##N##_start(long s,long e,long i,long c,long*a,long*b){ return lstart(s,e,i,c,a,b); } bool GOMP_loop_##N##_next(long*a,long*b){ return lnext(a,b); } bool GOMP_loop_ull_##N##_start(bool u,ull s,ull e,ull i,ull c,ull*a,ull*b){ return ustart(u,s,e,i,c,a,b); } bool GOMP_loop_ull_##N##_next(ull*a,ull*b){ return unext(a,b); }
LS(static) LS(dynamic) LS(guided) LS(nonmonotonic_dynamic) LS(nonmonotonic_guided)
#define LR(N) bool GOMP_loop_##N##_start(long s,long e,long i,long*a,long*b){ return lstart(s,e,i,1,a,b); } bool GOMP_loop_##N##_next(long*a,long*b){ return lnext(a,b); } bool GOMP_loop_ull_##N##_start(bool u,ull s,ull e,ull i,ull*a,ull*b){ return ustart(u,s,e,i,1,a,b); } bool GOMP_loop_ull_##N##_next(ull*a,ull*b){ return unext(a,b); }
LR(runtime) LR(nonmonotonic_runtime) LR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(){ barrier(); } void GOMP_loop_end_nowait(){}
void GOMP_barrier(){ barrier(); }
static char the_critical,the_atomic;
void GOMP_critical_start(){ lock(&the_critical); } void GOMP_critical_end(){ unlock(&the_critical); }
void GOMP_critical_name_start(void**p){ lock(p); } void GOMP_critical_name_end(void**p){ unlock(p); }
void GOMP_atomic_start(){ lock(&the_atomic); } void GOMP_atomic_end(){ unlock(&the_atomic); }
bool GOMP_single_start(){ Fiber*f=me(); if(!f||!T) return true; Ws&w=ws(f->ws++); if(w.taken) return false; w.taken=true; return true; }
unsigned GOMP_sections_next(){ Fiber*f=me(); if(!f||f->ws==0) return 0; Ws&w=ws(f->ws-1); return w.sect<w.nsect?++w.sect:0; }
unsigned GOMP_sections_start(unsigned n){ Fiber*f=me(); if(!f) return 0; Ws&w=ws(f->ws++); if(!w.init){ w.init=true; w.nsect=n; } return GOMP_sections_next(); }
void GOMP_parallel_sections(void(*fn)(void*),void*d,unsigned n,unsigned c,unsigned){ Ws w; w.init=true; w.nsect=c; struct P{ void(*fn)(void*); void*d; } p{fn,d}; team([](void*q){ P*p=(P*)q; me()->ws=1; p->fn(p->d); },&p,team_of(n),&w); }
void GOMP_sections_end(){ barrier(); } void GOMP_sections_end_nowait(){}
void GOMP_task(void(*fn)(void*),void*d,void(*cp)(void*,void*),long sz,long al,bool,unsigned,void**,int){ if(cp){ std::vector<char> b(sz+al+16); char*p=(char*)(((uintptr_t)b.data()+al)/al*al); cp(p,d); fn(p); } else fn(d); }
void GOMP_taskwait(){} void GOMP_taskyield(){} void GOMP_taskgroup_start(){} void GOMP_taskgroup_end(){}
// --- the hooks of -fsanitize=thread
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){} 
#define RA __builtin_return_address(0)
#define RW(n) void __tsan_read##n(void*p){ touch(p,n,false,false,RA); } void __tsan_write##n(void*p){ touch(p,n,true,false,RA); } void __tsan_unaligned_read##n(void*p){ touch(p,n,false,false,RA); } void __tsan_unaligned_write##n(void*p){ touch(p,n,true,false,RA); } void __tsan_volatile_read##n(void*p){ touch(p,n,false,false,RA); } void __tsan_volatile_write##n(void*p){ touch(p,n,true,false,RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*p,unsigned long n){ touch(p,n,false,false,RA); } void __tsan_write_range(void*p,unsigned long n){ touch(p,n,true,false,RA); }
void __tsan_vptr_update(void**p,void*){ touch(p,8,true,false,RA); } void __tsan_vptr_read(void**p){ touch(p,8,false,false,RA); }
#define AT(n,t) t __tsan_atomic##n##_load(const volatile t*p,int){ touch((void*)p,n/8,false,true,RA); return *p; } void __tsan_atomic##n##_store(volatile t*p,t v,int){ touch((void*)p,n/8,true,true,RA); *p=v; } \
 t __tsan_atomic##n##_exchange(volatile t*p,t v,int){ touch((void*)p,n/8,true,true,RA); t o=*p; *p=v; return o; } t __tsan_atomic##n##_fetch_add(volatile t*p,t v,int){ touch((void*)p,n/8,true,true,RA); t o=*p; *p=o+v; return o; } t __tsan_atomic##n##_fetch_sub(volatile t*p,t v,int){ touch((void*)p,n/8,true,true,RA); t o=*p; *p=o-v; return o; } \
 t __tsan_atomic##n##_fetch_and(volatile t*p,t v,int){ touch((void*)p,n/8,true,true,RA); t o=*p; *p=o&v; return o; } t __tsan_atomic##n##_fetch_or(volatile t*p,t v,int){ touch((void*)p,n/8,true,true,RA); t o=*p; *p=o|v; return o; } t __tsan_atomic##n##_fetch_xor(volatile t*p,t v,int){ touch((void*)p,n/8,true,true,RA); t o=*p; *p=o^v; return o; } t __tsan_atomic##n##_fetch_nand(volatile t*p,t v,int){ touch((void*)p,n/8,true,true,RA); t o=*p; *p=~(o&v); return o; } \
 bool __tsan_atomic##n##_compare_exchange_strong(volatile t*p,t*c,t v,int,int){ touch((void*)p,n/8,true,true,RA); if(*p==*c){ *p=v; return true; } *c=*p; return false; } bool __tsan_atomic##n##_compare_exchange_weak(volatile t*p,t*c,t v,int,int){ touch((void*)p,n/8,true,true,RA); if(*p==*c){ *p=v; return true; } *c=*p; return false; } t __tsan_atomic##n##_compare_exchange_val(volatile t*p,t c,t v,int,int){ touch((void*)p,n/8,true,true,RA); t o=*p; if(o==c) *p=v; return o; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
}
