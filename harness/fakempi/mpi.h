// Stand-in for MPI: the ranks of a program are threads of one process of which
// exactly one runs at a time.  Wherever a rank calls MPI, a seeded scheduler
// decides who runs next, whether a blocking send waits for its receiver, and
// which of the matching messages a wildcard finds: everything the MPI standard
// leaves open.  All messages are logged.
#pragma once
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Request;
struct MPI_Status { int MPI_SOURCE=-9, MPI_TAG=-9, MPI_ERROR=0; long long count=0; };
#define MPI_COMM_WORLD 0
#define MPI_BYTE 1
#define MPI_CHAR 1
#define MPI_INT 4
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_SUCCESS 0
#define MPI_STATUS_IGNORE ((MPI_Status*)nullptr)
#define MPI_REQUEST_NULL (-1)

namespace fakempi {
struct Stop { int code; };
struct Msg { int id,src,dst,tag; const char*ptr; std::vector<char> own; bool buffered; long long len; bool taken=false; };
struct Ev { char k; int rank,peer,tag,id; long long len; };
struct World {
  std::mutex m; std::condition_variable cv; int n=0,turn=-1; uint64_t rs=1; long long eager=1<<20; std::vector<int> weight;
  std::vector<std::function<bool()>> ready; std::vector<char> alive; std::vector<Ev> log;
  std::map<std::pair<int,int>,std::deque<std::shared_ptr<Msg>>> chan; int nid=0; std::string failure;
  std::deque<std::vector<char>> bc; std::vector<int> bcpos;
  uint64_t rnd(){ rs+=0x9E3779B97F4A7C15ull; uint64_t z=rs; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
};
inline World& W(){ static World w; return w; }
inline int& me(){ static thread_local int r=-1; return r; }
// called once, by whoever finds that the run cannot go on
inline std::function<void(const std::string&)>& on_failure(){ static std::function<void(const std::string&)> f; return f; }
inline void fail(const std::string&s){ on_failure()(s); _exit(98); }
inline void pick(std::unique_lock<std::mutex>&){ auto&w=W(); std::vector<int> c; long tot=0;
  for(int r=0;r<w.n;r++) if(w.alive[r]&&w.ready[r]()){ c.push_back(r); tot+=w.weight[r]; }
  if(c.empty()){ for(int r=0;r<w.n;r++) if(w.alive[r]) fail("deadlock"); w.turn=-2; w.cv.notify_all(); return; }
  long k=w.rnd()%tot; for(int r: c){ k-=w.weight[r]; if(k<0){ w.turn=r; break; } } w.cv.notify_all(); }
// let the scheduler choose; return once this rank is chosen and f() holds
inline void wait_for(std::function<bool()> f){ auto&w=W(); std::unique_lock<std::mutex> l(w.m); w.ready[me()]=f; pick(l); w.cv.wait(l,[&]{return w.turn==me();}); w.ready[me()]=[]{return true;}; }
inline void yield(){ wait_for([]{return true;}); }
inline Msg* head(int src,int dst,int tag){ for(auto&q: W().chan[{src,dst}]) if(tag==MPI_ANY_TAG||q->tag==tag) return q.get(); return nullptr; }
inline std::vector<int> sources(int src,int dst,int tag){ std::vector<int> c; for(int s=0;s<W().n;s++) if((src==MPI_ANY_SOURCE||s==src)&&head(s,dst,tag)) c.push_back(s); return c; }
inline int post(const void*p,long long len,int dst,int tag,bool copy){ auto&w=W(); auto q=std::make_shared<Msg>(); q->id=++w.nid; q->src=me(); q->dst=dst; q->tag=tag; q->len=len; q->buffered=copy;
  if(copy) q->own.assign((const char*)p,(const char*)p+len); q->ptr=(const char*)p; w.chan[{me(),dst}].push_back(q); w.log.push_back({copy?'s':'i',me(),dst,tag,q->id,len}); return q->id; }
inline int size_of(MPI_Datatype t){ return t; }
// Runs f(rank) on n ranks.
inline void run(int n,uint64_t seed,long long eager,const std::vector<int>&weight,std::function<void(int)> f){
  auto&w=W(); w.n=n; w.rs=seed; w.eager=eager; w.weight=weight; w.ready.assign(n,[]{return true;}); w.alive.assign(n,1); w.bcpos.assign(n,0);
  std::vector<std::thread> t; for(int r=0;r<n;r++) t.emplace_back([&,r]{ me()=r; { std::unique_lock<std::mutex> l(w.m); w.cv.wait(l,[&]{return w.turn==r;}); }
    f(r); std::unique_lock<std::mutex> l(w.m); w.alive[r]=0; pick(l); });
  { std::unique_lock<std::mutex> l(w.m); pick(l); }
  for(auto&q: t) q.join();
}
}

inline int MPI_Init(int*,char***){ fakempi::yield(); return 0; }
inline int MPI_Finalize(){ fakempi::yield(); return 0; }
inline int MPI_Abort(MPI_Comm,int){ fakempi::fail("MPI_Abort"); return 0; }
inline int MPI_Comm_rank(MPI_Comm,int*r){ *r=fakempi::me(); return 0; }
inline int MPI_Comm_size(MPI_Comm,int*s){ *s=fakempi::W().n; return 0; }
// Blocking send: small messages may be buffered, others wait for the receiver.
inline int MPI_Send(const void*p,int n,MPI_Datatype t,int dst,int tag,MPI_Comm){ auto&w=fakempi::W(); long long len=(long long)n*fakempi::size_of(t); std::shared_ptr<fakempi::Msg> q;
  if(dst<0||dst>=w.n) fakempi::fail("send to a rank which does not exist");
  { std::unique_lock<std::mutex> l(w.m); fakempi::post(p,len,dst,tag,true); q=w.chan[{fakempi::me(),dst}].back(); }
  if(len<=w.eager) fakempi::yield(); else fakempi::wait_for([q]{return q->taken;}); return 0; }
// The contents of a non-blocking send are read when it is received.
inline int MPI_Isend(const void*p,int n,MPI_Datatype t,int dst,int tag,MPI_Comm,MPI_Request*r){ auto&w=fakempi::W(); if(dst<0||dst>=w.n) fakempi::fail("send to a rank which does not exist");
  { std::unique_lock<std::mutex> l(w.m); *r=fakempi::post(p,(long long)n*fakempi::size_of(t),dst,tag,false); } fakempi::yield(); return 0; }
inline int MPI_Test(MPI_Request*,int*flag,MPI_Status*){ fakempi::yield(); *flag=1; return 0; }
inline bool fakempi_delivered(int id){ for(auto&c: fakempi::W().chan) for(auto&q: c.second) if(q->id==id) return false; return true; }
inline int MPI_Wait(MPI_Request*r,MPI_Status*){ int id=*r; *r=MPI_REQUEST_NULL; if(id>0) fakempi::wait_for([id]{return fakempi_delivered(id);}); return 0; }
inline int MPI_Waitall(int n,MPI_Request*r,MPI_Status*){ for(int i=0;i<n;i++) MPI_Wait(&r[i],nullptr); return 0; }
inline int MPI_Request_free(MPI_Request*r){ *r=MPI_REQUEST_NULL; return 0; }
#define MPI_STATUSES_IGNORE ((MPI_Status*)nullptr)
inline int MPI_Probe(int src,int tag,MPI_Comm,MPI_Status*st){ auto&w=fakempi::W(); int self=fakempi::me();
  fakempi::wait_for([=]{return !fakempi::sources(src,self,tag).empty();});
  { std::unique_lock<std::mutex> l(w.m); auto c=fakempi::sources(src,self,tag); int s=c[w.rnd()%c.size()]; auto*q=fakempi::head(s,self,tag);
    if(st){ st->MPI_SOURCE=s; st->MPI_TAG=q->tag; st->count=q->len; } w.log.push_back({'p',self,s,q->tag,q->id,q->len}); }
  fakempi::yield(); return 0; }
inline int MPI_Get_count(const MPI_Status*st,MPI_Datatype t,int*n){ *n=st->count/fakempi::size_of(t); return 0; }
inline int MPI_Recv(void*p,int n,MPI_Datatype t,int src,int tag,MPI_Comm,MPI_Status*st){ auto&w=fakempi::W(); int self=fakempi::me();
  fakempi::wait_for([=]{return !fakempi::sources(src,self,tag).empty();});
  { std::unique_lock<std::mutex> l(w.m); auto c=fakempi::sources(src,self,tag); int s=c[w.rnd()%c.size()]; auto&d=w.chan[{s,self}];
    for(auto it=d.begin();it!=d.end();++it) if(tag==MPI_ANY_TAG||(*it)->tag==tag){ auto q=*it; d.erase(it);
      if(q->len>(long long)n*fakempi::size_of(t)) fakempi::fail("message longer than the buffer it is received into");
      memcpy(p,q->buffered?q->own.data():q->ptr,q->len); q->taken=true; if(st){ st->MPI_SOURCE=s; st->MPI_TAG=q->tag; st->count=q->len; }
      w.log.push_back({'r',self,s,q->tag,q->id,q->len}); break; } }
  fakempi::yield(); return 0; }
inline int MPI_Bcast(void*p,int n,MPI_Datatype t,int root,MPI_Comm){ auto&w=fakempi::W(); int self=fakempi::me(); size_t k; { std::unique_lock<std::mutex> l(w.m); k=w.bcpos[self]++; }
  if(self==root){ std::unique_lock<std::mutex> l(w.m); w.bc.emplace_back((char*)p,(char*)p+(long long)n*fakempi::size_of(t)); }
  else { fakempi::wait_for([&w,k]{return w.bc.size()>k;}); std::unique_lock<std::mutex> l(w.m); memcpy(p,w.bc[k].data(),w.bc[k].size()); }
  fakempi::yield(); return 0; }
inline double MPI_Wtime(){ return 0; }
inline int MPI_Barrier(MPI_Comm){ fakempi::yield(); return 0; }
