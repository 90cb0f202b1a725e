// Recorder for flat detection and resolution.
#include "common.hpp"
#include <richdem/common/Array2D.hpp>
#include <richdem/flats/flats.hpp>
#include <richdem/flats/find_flats.hpp>
#include <richdem/flats/flat_resolution.hpp>
#include <richdem/flowmet/dinf_flowdirs.hpp>
#include <richdem/flats/flat_resolution_dinf.hpp>
using namespace richdem;
using namespace vt;
template<class T> std::vector<long long> ivec(const Array2D<T>&a){ std::vector<long long> v; cells(a,[&](int x,int y){ v.push_back((long long)a(x,y)); }); return v; }

static std::vector<long long> angles(const Array2D<float>&a){ std::vector<long long> v; cells(a,[&](int x,int y){ float q=a(x,y); if(q==a.noData()) v.push_back(-1); else if(q==0) v.push_back(0); else if(!(q>0&&q<6.2832)) v.push_back(-5); else v.push_back(std::max(1ll,(long long)std::llround(q/(M_PI/4)*10000))); }); return v; }
// terrain with broad flats: plateaus, filled lakes, single-outlet basins
static Dem flat_dem(Rng&r,int maxs){
  int k=r.irange(0,4); Dem d;
  if(k==0) d=gen_dem(r,maxs,0,3); else if(k==1) d=gen_dem(r,maxs,8,3); else if(k==2) d=gen_dem(r,maxs,-1,3);
  else { d.kind="plateau"; d.w=r.irange(4,maxs); d.h=r.irange(4,maxs); d.z.assign(d.w*d.h,r.irange(1,3)); int n=r.irange(0,5);
    for(int i=0;i<n;i++){ int x0=r.irange(0,d.w-1),y0=r.irange(0,d.h-1),x1=std::min(d.w-1,x0+r.irange(0,5)),y1=std::min(d.h-1,y0+r.irange(0,4)),v=r.irange(0,4); for(int y=y0;y<=y1;y++)for(int x=x0;x<=x1;x++) d.z[y*d.w+x]=v; }
    if(r.chance(.6)){ for(int x=0;x<d.w;x++){ d.z[x]=5; d.z[(d.h-1)*d.w+x]=5; } for(int y=0;y<d.h;y++){ d.z[y*d.w]=5; d.z[y*d.w+d.w-1]=5; } for(int q=r.irange(0,3);q>0;q--){ int x=r.irange(0,d.w-1); d.z[(r.chance(.5)?0:d.h-1)*d.w+x]=r.irange(0,3);} } }
  return d;
}
// how far a value is above the base: representable steps, or whole units
template<class T,class U,bool=std::is_integral<T>::value> struct Step { static T up(T b,long long k){ U q; memcpy(&q,&b,sizeof b); q+=(U)k; T v; memcpy(&v,&q,sizeof v); return v; }
  static long long of(T b,T v){ U p,q; memcpy(&p,&b,sizeof b); memcpy(&q,&v,sizeof v); return (long long)(q-p); } };
template<class T,class U> struct Step<T,U,true> { static T up(T b,long long k){ return (T)(b+(T)k); } static long long of(T b,T v){ return (long long)(U)((U)v-(U)b); } };
template<class T,class U> std::string go(int id,Rng&r,const char*tn,int maxs){
  Dem d=flat_dem(r,maxs); int w=d.w,h=d.h; std::vector<char> nd(w*h,0);
  if(r.chance(.3)) for(int k=r.irange(1,5);k>0;k--) nd[r.next()%(w*h)]=1;
  if(std::is_signed<T>::value){ vast_frame(r,d,nd); w=d.w; h=d.h; }
  // elevations are multiples of many representable steps over a base
  const int zmax=*std::max_element(d.z.begin(),d.z.end()), G=sizeof(T)>2?1000:std::min(1000,60000/std::max(1,zmax)); const T b=std::is_integral<T>::value&&sizeof(T)==8?(T)(1ll<<60):std::is_integral<T>::value&&sizeof(T)==4?(T)2000000000:(T)100; T ndv=std::is_signed<T>::value?(T)-9999:(T)0;
  auto up=[&](long long k){ return Step<T,U>::up(b,k); };
  auto enc=[&](T v)->long long{ if(v==ndv) return -1; long long k=Step<T,U>::of(b,v); return (k<0||k>2000000000ll)?2000000001ll:k; };
  Array2D<T> a(w,h); a.setNoData(ndv); std::vector<long long> z; for(int i=0;i<w*h;i++){ a(i)= nd[i]?ndv:up((long long)d.z[i]*G); z.push_back(enc(a(i))); }
  { Json j; j.i("w",w).i("h",h).s("type",tn).a("z",z); pre(j.str()); }
  lay(a,ndv); auto encs=[&](const Array2D<T>&b){ std::vector<long long> v; cells(b,[&](int x,int y){ v.push_back(enc(b(x,y))); }); return v; };
  Array2D<int8_t> fl; if(r.chance(.5)) fl=Array2D<int8_t>(r.chance(.5)?w:r.irange(1,9),r.chance(.5)?h:r.irange(1,9),(int8_t)r.irange(-1,2)); FindFlats(a,fl);
  Array2D<int32_t> m,l,m2,l2; if(r.chance(.3)){ m=Array2D<int32_t>(w,h,r.irange(0,3)); l=Array2D<int32_t>(h,w,r.irange(0,3)); m.setNoData(7); } GetFlatMask(a,m,l);
  Array2D<T> e=a; ResolveFlatsEpsilon(e); const std::vector<long long> ev=encs(e);
  Array2D<d8_flowdir_t> f0,f,fr; d8_flow_directions(a,f0); f=f0; resolve_flats_barnes(a,f,m2,l2); d8_flow_flats(m2,l2,f);
  Array2D<T> a2=a; barnes_flat_resolution_d8(a2,fr,false);
  if(ivec(fr)!=ivec(f)) throw std::runtime_error("barnes_flat_resolution_d8 differs from its steps");
  if(encs(a2)!=z) throw std::runtime_error("barnes_flat_resolution_d8 altered elevations");
  Array2D<T> a3=a; Array2D<d8_flowdir_t> fa; barnes_flat_resolution_d8(a3,fa,true); const std::vector<long long> alt=encs(a3);
  // D-infinity directions, on the same terrain and as the library combines them
  Array2D<float> g0,g; dinf_flow_directions(a,g0); resolve_flats_barnes_dinf(a,g);
  Json j; j.i("id",id).s("kind",d.kind).s("type",tn).i("w",w).i("h",h).a("z",z).a("nd",nd).a("flats",ivec(fl)).a("mask",ivec(m)).a("lab",ivec(l)).a("eps",ev).a("mask2",ivec(m2)).a("lab2",ivec(l2)).a("fd0",ivec(f0)).a("fd",ivec(f)).a("alt",alt).a("fa",ivec(fa)).a("di0",angles(g0)).a("di",angles(g));
  return j.str();
}
int main(int c,char**v){ return vt_main(c,v,[](int id,Rng&r){ int ms=opts().tier=="thorough"?20:(id%10==0?18:11); switch(id%8){ case 0: return go<int32_t,uint32_t>(id,r,"int32",ms); case 2: return go<int64_t,uint64_t>(id,r,"int64",ms); case 4: return go<uint16_t,uint16_t>(id,r,"uint16",ms);
    case 1: case 3: case 5: return go<float,uint32_t>(id,r,"float",ms); default: return go<double,uint64_t>(id,r,"double",ms); } },40,499); }
