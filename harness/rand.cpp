// Recorder for the random generators and generated terrain.  A script of
// operations is run in this process, whose generators carry the history of the
// cases before, and in a new process of its own.
#include "common.hpp"
#include <omp.h>
#include <fstream>
#include <richdem/common/Array2D.hpp>
#include <richdem/common/random.hpp>
#include <richdem/terrain_generation.hpp>
using namespace richdem;
using namespace vt;
static std::string hex(const void*p,size_t n){ std::string s; char b[4]; for(size_t i=0;i<n;i++){ snprintf(b,4,"%02x",((const unsigned char*)p)[i]); s+=b; } return s; }
static std::string hash(const std::vector<double>&v){ uint64_t a=1469598103934665603ull,b=7; for(double d: v){ uint64_t q; memcpy(&q,&d,8); a=(a^q)*1099511628211ull; a^=a>>29; b=b*6364136223846793005ull+q; } uint64_t c[2]={a,b}; return hex(c,16); }
struct Drawn { std::string v; long long lo=0,hi=0,mn=0,mx=0; bool ints=false,in=true; };
static Drawn draw(const std::string&what){
  std::istringstream s(what); std::string k; s>>k; Drawn d;
  if(k=="probe"){ uint64_t q[4]; for(auto&x: q) x=uniform_bits<uint64_t>(); d.v=hex(q,32); }
  else if(k=="bits"){ uint32_t q=uniform_bits<uint32_t>(); d.v=hex(&q,4); }
  else if(k=="short"){ int16_t q=uniform_bits<int16_t>(); d.v=hex(&q,2); }
  else if(k=="int"){ int a,b; s>>a>>b; int v=uniform_rand_int(a,b); d.v=std::to_string(v); d.ints=true; d.lo=a; d.hi=b; d.mn=d.mx=v; }
  else if(k=="ints"){ int a,b; s>>a>>b; std::vector<double> vs; d.ints=true; d.lo=a; d.hi=b; for(int i=0;i<400;i++){ int v=uniform_rand_int(a,b); vs.push_back(v); if(i==0) d.mn=d.mx=v; d.mn=std::min<long long>(d.mn,v); d.mx=std::max<long long>(d.mx,v); } d.v=hash(vs); }
  else if(k=="real"){ double a,b; s>>a>>b; double v=uniform_rand_real(a,b); d.v=hex(&v,8); d.in=v>=a&&v<=b; }
  else { double a,b; s>>a>>b; double v=normal_rand(a,b); d.v=hex(&v,8); d.in=std::isfinite(v); }
  return d;
}
// runs a script; one JSON object per event
static std::vector<std::string> run(const std::vector<std::string>&script){
  std::vector<std::string> log; std::map<int,RandomEngineState> slot; omp_set_dynamic(0); int running=1;
  auto rec=[&](int t,const std::string&what,const Drawn&d){ Json j; j.s("o","draw").i("t",t).s("what",what).s("v",d.v).b("ints",d.ints).i("lo",d.lo).i("hi",d.hi).i("min",d.mn).i("max",d.mx).b("many",what.compare(0,4,"ints")==0).b("in",d.in); log.push_back(j.str()); };
  for(const auto&l: script){ std::istringstream s(l); std::string o; s>>o;
    if(o=="threads"){ s>>running; omp_set_num_threads(running); }
    else if(o=="seed"){ uint64_t q; s>>q; seed_rand(q); Json j; j.s("o","seed").s("s",std::to_string(q)).b("zero",q==0); log.push_back(j.str()); }
    else if(o=="draw"){ int t; s>>t; std::string what; std::getline(s,what); what=what.substr(1); Drawn d;
      #pragma omp parallel num_threads(std::max(t+1,running))
      { if(omp_get_thread_num()==t) d=draw(what); }
      rec(t,what,d); }
    else if(o=="burst"){ int n,k; s>>n>>k; std::string what; std::getline(s,what); what=what.substr(1); std::vector<std::vector<Drawn>> d(n,std::vector<Drawn>(k));
      #pragma omp parallel num_threads(n)
      { int t=omp_get_thread_num(); for(int i=0;i<k;i++) d[t][i]=draw(what); }
      for(int t=0;t<n;t++) for(auto&q: d[t]) rec(t,what,q); }
    else if(o=="save"||o=="set"){ int t,k; s>>t>>k; if(o=="set"&&!slot.count(k)) continue;
      #pragma omp parallel num_threads(std::max(t+1,running))
      { if(omp_get_thread_num()==t){ if(o=="save") slot[k]=SaveRandomState(); else SetRandomState(slot[k]); } }
      Json j; j.s("o",o).i("t",t).i("k",k); log.push_back(j.str()); }
    else if(o=="perlin"){ int n; uint32_t q; int fill; s>>n>>q>>fill; Array2D<double> a(n,n,fill); a.setNoData(fill); std::vector<double> v; generate_perlin_terrain(a,q); bool in=a.width()==n&&a.height()==n; for(size_t i=0;i<a.size();i++){ v.push_back(a(i)); in=in&&a(i)>=-1e-9&&a(i)<=1+1e-9; }
      Json j; j.s("o","perlin").i("n",n).s("s",std::to_string(q)).i("c",q%2147483647u==0?1:q%2147483647u).s("v",hash(v)).b("in",in); log.push_back(j.str()); }
    else if(o=="oblong"){ int n; uint32_t q; s>>n>>q; Array2D<double> a(n,n+1,7); bool threw=false; try { generate_perlin_terrain(a,q); } catch(const std::exception&){ threw=true; } for(size_t i=0;i<a.size();i++) threw=threw&&a(i)==7; Json j; j.s("o","oblong").b("refused",threw); log.push_back(j.str()); }
  }
  return log;
}
static std::string self_exe(){ char b[4096]; ssize_t k=readlink("/proc/self/exe",b,sizeof b-1); b[k<0?0:k]=0; return b; }
static std::vector<std::string> elsewhere(const std::vector<std::string>&script,int id){
  std::string f=opts().dir+"/rand_"+std::to_string(id)+".txt"; { std::ofstream o(f); for(auto&l: script) o<<l<<"\n"; }
  FILE*p=popen(("'"+self_exe()+"' --script '"+f+"'").c_str(),"r"); if(!p) throw std::runtime_error("popen"); std::string s; char b[65536]; size_t k; while((k=fread(b,1,sizeof b,p))>0) s.append(b,k); int rc=pclose(p); unlink(f.c_str());
  if(rc!=0) throw std::runtime_error("the new process failed"); std::vector<std::string> r; std::istringstream i(s); std::string l; while(std::getline(i,l)) r.push_back(l); return r;
}
static std::string request(Rng&r){
  switch(r.irange(0,9)){ case 0: return "bits"; case 1: return "short"; case 2: { int a=r.irange(-1000000000,1000000000); return "int "+std::to_string(a)+" "+std::to_string(a+r.irange(0,1000000000)); }
    case 3: { int a=r.irange(-5,5); return "int "+std::to_string(a)+" "+std::to_string(a+r.irange(0,3)); } case 4: return "real 0 1"; case 5: return "real "+std::to_string(r.irange(-9,0))+" "+std::to_string(r.irange(1,9)); case 6: { int a=r.irange(-9,9); return "ints "+std::to_string(a)+" "+std::to_string(a+r.irange(0,6)); }
    case 7: return "normal 0 1"; case 8: return "normal "+std::to_string(r.irange(-9,9))+" "+std::to_string(r.irange(1,9)); default: return "probe"; }
}
static std::string one(int id,Rng&r){
  std::vector<std::string> pre_s,s; auto num=[](auto v){ return std::to_string(v); };
  int top=id%5==0?31:r.irange(0,5); auto th=[&]{ return r.chance(.2)?top:r.irange(0,std::min(top,3)); };
  for(int k=r.irange(0,6);k>0;k--) pre_s.push_back("draw "+num(th())+" "+(r.chance(.5)?"normal 0 1":request(r))); // earlier history
  if(r.chance(.5)) pre_s.push_back("threads "+num(r.irange(1,8)));
  uint64_t base=r.pick(std::vector<uint64_t>{(uint64_t)r.irange(1,20),r.next()|1,(uint64_t)r.irange(1,2000000000),1ull<<32,1ull<<63}); if(base==0) base=1;
  std::vector<uint64_t> seeds{base}; for(int k=r.irange(0,3);k>0;k--){ uint64_t q=r.pick(std::vector<uint64_t>{base*2,base*3,base+1,base+(1ull<<32),base^(1ull<<40),base<<32,(base>>32)|(base<<32),base-1,1,2,~0ull}); seeds.push_back(q); }
  if(id%9==0) seeds.push_back(0);
  int parts=r.irange(2,4);
  for(int p=0;p<parts;p++){
    if(r.chance(.4)) s.push_back("threads "+num(r.irange(1,8)));
    s.push_back("seed "+num(p==0?base:r.pick(seeds))); std::vector<std::string> same; int t0=th();
    for(int k=r.irange(0,3);k>0;k--) s.push_back("draw "+num(th())+" "+request(r));
    if(r.chance(.5)){ for(int t=0;t<=std::min(top,3);t++) s.push_back("draw "+num(t)+" probe"); s.push_back("draw "+num(top)+" probe"); }
    if(r.chance(.4)) s.push_back("burst "+num(r.irange(2,6))+" "+num(r.irange(1,4))+" "+request(r));
    if(r.chance(.7)){ int k=r.irange(0,2),t1=r.chance(.6)?t0:th(); if(r.chance(.5)) s.push_back("draw "+num(t0)+" normal 0 1"); s.push_back("save "+num(t0)+" "+num(k)); for(int q=r.irange(1,4);q>0;q--) same.push_back(r.chance(.4)?"normal 0 1":request(r));
      for(auto&q: same) s.push_back("draw "+num(t0)+" "+q); if(r.chance(.3)) s.push_back("seed "+num(r.pick(seeds))); if(r.chance(.4)) s.push_back("draw "+num(t1)+" normal 0 1"); s.push_back("set "+num(t1)+" "+num(k)); for(auto&q: same) s.push_back("draw "+num(t1)+" "+q); }
    if(r.chance(.5)){ uint32_t q=r.chance(.5)?(uint32_t)base:(uint32_t)r.irange(0,100); for(int k=r.irange(1,3);k>0;k--) s.push_back("perlin "+num(r.irange(11,14))+" "+num(r.chance(.5)?q:(uint32_t)(q+k))+" "+num(r.irange(-3,3))); }
    if(r.chance(.1)) s.push_back("oblong "+num(r.irange(1,9))+" "+num(r.irange(1,9)));
  }
  if(r.chance(.8)){ s.push_back("threads "+num(r.irange(1,8))); s.push_back("seed "+num(base)); for(int t=0;t<=std::min(top,3);t++) s.push_back("draw "+num(t)+" probe"); }
  Json j; j.i("id",id).i("threads",top+1).as("prelude",pre_s).as("script",s); pre(j.str());
  run(pre_s); auto a=run(s), b=elsewhere(s,id); j.raw("here",jraw(a)).raw("there",jraw(b)); return j.str();
}
int main(int c,char**v){
  if(c==3&&std::string(v[1])=="--script"){ alarm(30); std::ifstream f(v[2]); std::vector<std::string> s; std::string l; while(std::getline(f,l)) s.push_back(l); for(auto&e: run(s)) printf("%s\n",e.c_str()); return 0; }
  return vt_main(c,v,one);
}
