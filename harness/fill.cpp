// Recorder for the flooding family: filling, epsilon filling, depression
// detection and masks, size-limited filling, flood watersheds and directions.
#include "common.hpp"
#include <richdem/common/Array2D.hpp>
#include <richdem/depressions/Barnes2014.hpp>
#include <richdem/depressions/Zhou2016.hpp>
#include <richdem/depressions/Wei2018.hpp>
#include <richdem/depressions/depressions.hpp>
using namespace richdem;
using namespace vt;

// Monotone maps from the generated integers onto element types.
template<class T> struct Map { static T of(int z,int f){ return (T)(z*f); } };
template<> struct Map<int16_t>{ static int16_t of(int z,int f){ return (int16_t)(z*f-300); } };
template<> struct Map<int32_t>{ static int32_t of(int z,int f){ return z*f*70001-1000000000; } };
template<> struct Map<float>  { static float   of(int z,int f){ return z*f*0.37f-100.3f; } };
template<> struct Map<double> { static double  of(int z,int f){ return z*f*0.1-7.77; } };

// whole numbers no double can tell apart
template<> struct Map<int64_t> { static int64_t  of(int z,int f){ return -(1ll<<60)+(int64_t)z*f; } };
template<> struct Map<uint64_t>{ static uint64_t of(int z,int f){ return (1ull<<62)+(uint64_t)z*f; } };
template<> struct Map<int8_t>  { static int8_t   of(int z,int f){ return (int8_t)(std::min(z,200)-90); } };
template<class T> static long double origin(){ return 0; }
template<> long double origin<int64_t>(){ return -(long double)(1ll<<60); }
template<> long double origin<uint64_t>(){ return (long double)(1ull<<62); }

template<class T> Array2D<T> mk(const Dem&d,int f,const std::vector<char>&nd,T ndv){
  Array2D<T> a(d.w,d.h); a.setNoData(ndv);
  for(int y=0;y<d.h;y++) for(int x=0;x<d.w;x++) a(x,y)= nd[y*d.w+x] ? ndv : Map<T>::of(d.at(x,y),f);
  lay(a,ndv); return a;
}
template<class T> std::vector<double> vec(const Array2D<T>&a){ std::vector<double> v; cells(a,[&](int x,int y){ v.push_back((double)((long double)a(x,y)-origin<T>())); }); return v; }
template<class T> std::vector<long long> ivec(const Array2D<T>&a){ std::vector<long long> v; cells(a,[&](int x,int y){ v.push_back((long long)a(x,y)); }); return v; }

// NoData cells connected to the raster's edge (a data boundary inside the raster).
static std::vector<char> edge_nodata(Rng&r,const Dem&d,double p,bool interior){
  std::vector<char> nd(d.w*d.h,0); if(!r.chance(p)) return nd;
  int n=r.irange(1,std::max(1,d.w*d.h/4));
  int x,y; for(int k=0;k<n;k++){
    if(k==0||r.chance(.15)){ if(r.chance(.5)){ x=r.irange(0,d.w-1); y=r.chance(.5)?0:d.h-1; } else { y=r.irange(0,d.h-1); x=r.chance(.5)?0:d.w-1; } }
    else { x=std::min(d.w-1,std::max(0,x+r.irange(-1,1))); y=std::min(d.h-1,std::max(0,y+(r.chance(.5)?0:r.irange(-1,1)))); }
    // keep it connected by D4 to the edge: accept only if on the edge or next to NoData
    bool ok= x==0||y==0||x==d.w-1||y==d.h-1; 
    if(!ok) ok = nd[y*d.w+x-1]||nd[y*d.w+x+1]||nd[(y-1)*d.w+x]||nd[(y+1)*d.w+x];
    if(ok||interior) nd[y*d.w+x]=1; }
  return nd;
}

// Terrain for a case: small cases enumerate every interior/edge pattern.
static Dem dem_for(int id,Rng&r,int enumN,int maxs){
  if(id<enumN){ // all 0/1 interiors of a 5x5 raster (2x2..3x3 core) under a few rims
    Dem d; d.w=5; d.h=5; d.kind="enum"; d.z.assign(25,1);
    int k=id; int core=k%512; k/=512; for(int i=0;i<9;i++) d.z[(1+i/3)*5+1+i%3]=(core>>i&1)*2;
    int rim=k%8; for(int i=0;i<5;i++){ if(rim==1){d.z[i]=i;} if(rim==2) d.z[i*5]=2; if(rim==3) d.z[20+i]=3; if(rim==4&&i<4) d.z[i*5+4]=2; if(rim==5) d.z[i*6%25]=i%3; if(rim==6){ d.z[i]=2;d.z[20+i]=2; d.z[i*5]=2;} if(rim==7) d.z[i*5+4]=0; }
    return d; }
  return gen_dem(r,maxs);
}

template<class T> std::string run_fill(int id,Rng&r,const char*tn,int enumN,int maxs){
  Dem d=dem_for(id,r,enumN,maxs);
  int zmax=*std::max_element(d.z.begin(),d.z.end());
  int f=1; if(sizeof(T)==1){ for(auto&v:d.z) v=std::min(v,200); } else if(zmax<2000) f=r.irange(1,12);
  if(sizeof(T)==2) while(zmax*f>30000 && f>1) f--;
  // NoData far below every value, connected to the edge.  Sometimes the raster's
  // NoData value occurs nowhere, sometimes no NoData value is set to anything odd.
  T ndv = std::is_floating_point<T>::value ? (T)-9999 : std::numeric_limits<T>::lowest();
  std::vector<char> nd(d.w*d.h,0);
  if(std::is_signed<T>::value||std::is_floating_point<T>::value) nd=edge_nodata(r,d,.2,false);
  if(!std::is_signed<T>::value) ndv=std::numeric_limits<T>::max(); else vast_frame(r,d,nd);
  int topo = id<enumN ? (id/4096%2?4:8) : (r.chance(.5)?8:4);
  auto base=mk<T>(d,f,nd,ndv);
  { Json j; j.i("w",d.w).i("h",d.h).i("topo",topo).s("type",tn).s("kind",d.kind).a("z",d.z).a("nd",nd); pre(j.str()); }
  std::vector<std::string> names; std::vector<std::vector<double>> outs;
  auto add=[&](const std::string&n,auto fn){ Array2D<T> a=base; fn(a); names.push_back(n); outs.push_back(vec(a)); if(!laid(a)&&(a.width()!=d.w||a.height()!=d.h)) names.back()+="!dims"; };
  if(topo==8){
    add("Original",[](auto&a){PriorityFlood_Original<Topology::D8>(a);});
    add("Barnes2014",[](auto&a){PriorityFlood_Barnes2014<Topology::D8>(a);});
    add("Zhou2016",[](auto&a){PriorityFlood_Zhou2016(a);});
    add("Wei2018",[](auto&a){PriorityFlood_Wei2018(a);});
    add("FillDepressions",[](auto&a){FillDepressions<Topology::D8>(a);});
    add("twice",[](auto&a){FillDepressions<Topology::D8>(a);PriorityFlood_Barnes2014<Topology::D8>(a);PriorityFlood_Wei2018(a);PriorityFlood_Zhou2016(a);PriorityFlood_Original<Topology::D8>(a);});
    add("max_dep_all",[&](auto&a){PriorityFlood_Barnes2014_max_dep<Topology::D8>(a,d.w*d.h);});
    add("watersheds_alter",[&](auto&a){Array2D<int32_t> l; PriorityFloodWatersheds_Barnes2014<Topology::D8>(a,l,true);});
  } else {
    add("Original",[](auto&a){PriorityFlood_Original<Topology::D4>(a);});
    add("Barnes2014",[](auto&a){PriorityFlood_Barnes2014<Topology::D4>(a);});
    add("FillDepressions",[](auto&a){FillDepressions<Topology::D4>(a);});
    add("twice",[](auto&a){FillDepressions<Topology::D4>(a);PriorityFlood_Original<Topology::D4>(a);PriorityFlood_Barnes2014<Topology::D4>(a);});
    add("max_dep_all",[&](auto&a){PriorityFlood_Barnes2014_max_dep<Topology::D4>(a,d.w*d.h);});
    add("watersheds_alter",[&](auto&a){Array2D<int32_t> l; PriorityFloodWatersheds_Barnes2014<Topology::D4>(a,l,true);});
  }
  Ranker R; auto zb=vec(base); R.add(zb); for(auto&o:outs) R.add(o); R.done();
  std::vector<std::string> jo; for(auto&o:outs) jo.push_back(jarr(R(o)));
  Json j; j.i("id",id).s("kind",d.kind).s("type",tn).i("w",d.w).i("h",d.h).i("topo",topo).a("z",R(zb)).as("names",names).raw("outs",jraw(jo));
  return j.str();
}

// Epsilon filling.  Elevations are exact multiples of the representable step
// over a base, so the specification can count steps.
template<class T,class U> std::string run_eps(int id,Rng&r,const char*tn,int maxs){
  Dem d=gen_dem(r,maxs); int topo=r.chance(.5)?8:4;
  std::vector<int> G={1,1,2,3,7,60,1000}; int g=r.pick(G);
  T b= r.chance(.5)?(T)100:(T)(r.chance(.5)?1.0:3000.5); U bb; memcpy(&bb,&b,sizeof b);
  auto nd=edge_nodata(r,d,.3,true); T ndv=(T)-9999; vast_frame(r,d,nd);
  Array2D<T> a(d.w,d.h); a.setNoData(ndv); std::vector<int> zk;
  auto enc=[&](T v)->long long{ if(v==ndv) return -1; U q; memcpy(&q,&v,sizeof v); long long k=(long long)(q-bb); return (k<0||k>2000000000ll)?2000000001ll:k; };
  for(int y=0;y<d.h;y++)for(int x=0;x<d.w;x++){ U q=bb+(U)d.at(x,y)*g; T v; memcpy(&v,&q,sizeof v); a(x,y)= nd[y*d.w+x]?ndv:v; zk.push_back((int)enc(a(x,y))); }
  lay(a,ndv);
  { Json j; j.i("w",d.w).i("h",d.h).i("topo",topo).s("type",tn).a("z",zk); pre(j.str()); }
  if(topo==8) PriorityFloodEpsilon_Barnes2014<Topology::D8>(a); else PriorityFloodEpsilon_Barnes2014<Topology::D4>(a);
  std::vector<long long> o; cells(a,[&](int x,int y){ o.push_back(enc(a(x,y))); });
  // integer rasters are refused and left alone
  bool refused=false, intact=true; { auto ref=[&](auto tag){ typedef decltype(tag) I; Array2D<I> k(3,3,(I)5); k(1,1)=1; try{ PriorityFloodEpsilon_Barnes2014<Topology::D8>(k); return false; }catch(const std::exception&){ intact = intact && k(1,1)==1 && k(0,0)==5; return true; } };
    switch(id%8){ case 0: refused=ref(uint8_t()); break; case 1: refused=ref(int16_t()); break; case 2: refused=ref(int32_t()); break; case 3: refused=ref(uint16_t()); break;
      case 4: refused=ref(int8_t()); break; case 5: refused=ref(int64_t()); break; case 6: refused=ref(uint64_t()); break; default: refused=ref(uint32_t()); } }
  Json j; j.i("id",id).s("kind",d.kind).s("type",tn).i("w",d.w).i("h",d.h).i("topo",topo).a("z",zk).a("out",o).b("refused",refused).b("intact",intact);
  return j.str();
}

template<class T> std::string run_mask(int id,Rng&r,const char*tn,int enumN,int maxs){
  Dem d=dem_for(id,r,enumN,maxs); int topo= id<enumN?(id/4096%2?4:8):(r.chance(.5)?8:4);
  for(auto&v:d.z) v=std::min(v,200);
  T ndv = std::is_floating_point<T>::value ? (T)-9999 : std::numeric_limits<T>::lowest();
  std::vector<char> nd(d.w*d.h,0); if(std::is_signed<T>::value) { nd=edge_nodata(r,d,.3,r.chance(.4)); vast_frame(r,d,nd); } else ndv=255;
  auto base=mk<T>(d,1,nd,ndv); Ranker R; auto zb=vec(base); R.add(zb);
  int k= r.chance(.3)?r.irange(0,3):r.irange(0,std::max(1,d.w*d.h/3));
  { Json j; j.i("w",d.w).i("h",d.h).i("topo",topo).s("type",tn).i("k",k).a("z",d.z).a("nd",nd); pre(j.str()); }
  bool has,has2; Array2D<uint8_t> pm; Array2D<T> md=base,cl=base;
  if(topo==8){ has=HasDepressions<Topology::D8>(base); pit_mask<Topology::D8>(base,pm); PriorityFlood_Barnes2014_max_dep<Topology::D8>(md,k); PriorityFlood_Barnes2014<Topology::D8>(cl); has2=HasDepressions<Topology::D8>(cl); }
  else       { has=HasDepressions<Topology::D4>(base); pit_mask<Topology::D4>(base,pm); PriorityFlood_Barnes2014_max_dep<Topology::D4>(md,k); PriorityFlood_Barnes2014<Topology::D4>(cl); has2=HasDepressions<Topology::D4>(cl); }
  auto mv=vec(md); R.add(mv); R.done();
  Json j; j.i("id",id).s("kind",d.kind).s("type",tn).i("w",d.w).i("h",d.h).i("topo",topo).i("k",k).a("z",R(zb)).a("nd",nd).b("has",has).b("hasfilled",has2).i("pmnd",pm.noData()).a("mask",ivec(pm)).a("lim",R(mv));
  return j.str();
}

template<class T> std::string run_wsd(int id,Rng&r,const char*tn,int enumN,int maxs){
  Dem d=dem_for(id,r,enumN,maxs); int topo= id<enumN?(id/4096%2?4:8):(r.chance(.5)?8:4);
  T ndv = std::is_floating_point<T>::value ? (T)-9999 : std::numeric_limits<T>::lowest();
  auto nd=edge_nodata(r,d,.3,r.chance(.4)); if(std::is_signed<T>::value) vast_frame(r,d,nd);
  auto base=mk<T>(d,1,nd,ndv); Ranker R; auto zb=vec(base); R.add(zb);
  { Json j; j.i("w",d.w).i("h",d.h).i("topo",topo).s("type",tn).a("z",d.z).a("nd",nd); pre(j.str()); }
  Array2D<T> a1=base,a2=base; Array2D<int32_t> l1(3,2,7),l2; Array2D<d8_flowdir_t> fd;
  if(topo==8){ PriorityFloodWatersheds_Barnes2014<Topology::D8>(a1,l1,true); PriorityFloodWatersheds_Barnes2014<Topology::D8>(a2,l2,false); }
  else       { PriorityFloodWatersheds_Barnes2014<Topology::D4>(a1,l1,true); PriorityFloodWatersheds_Barnes2014<Topology::D4>(a2,l2,false); }
  PriorityFloodFlowdirs_Barnes2014(base,fd);
  auto v1=vec(a1),v2=vec(a2); R.add(v1); R.add(v2); R.done();
  Json j; j.i("id",id).s("kind",d.kind).s("type",tn).i("w",d.w).i("h",d.h).i("topo",topo).a("z",R(zb)).a("nd",nd).a("lab1",ivec(l1)).a("lab2",ivec(l2)).a("alt1",R(v1)).a("alt2",R(v2)).i("labnd",l1.noData()).i("fdnd",fd.noData()).a("fd",ivec(fd));
  return j.str();
}

int main(int argc,char**argv){
  return vt_main(argc,argv,[](int id,Rng&r)->std::string{
    std::string mode=opts().rest.at(0); bool th=opts().tier=="thorough"; int ms = th? (id%9==0?26:12) : (id%25==0?16:10); int en= th?8192:0;
    // the quick tier samples the enumerated space, the thorough tier covers it
    int eid=id; if(!th){ en = id%3==0 ? 8192 : 0; if(en) eid=(int)(Rng(opts().seed*77+id).next()%8192); }
    auto with=[&](std::string s){ size_t q=s.find("\"id\":"); size_t e=s.find(',',q); return s.substr(0,q)+"\"id\":"+std::to_string(id)+s.substr(e); };
    if(mode=="fill"){ switch(id%10){ case 7: return with(run_fill<int8_t>(eid,r,"int8",en,ms)); case 8: return with(run_fill<int64_t>(eid,r,"int64",en,ms)); case 9: return with(run_fill<uint64_t>(eid,r,"uint64",en,ms)); case 0: return with(run_fill<int32_t>(eid,r,"int32",en,ms)); case 1: return with(run_fill<uint8_t>(eid,r,"uint8",en,ms)); case 2: return with(run_fill<int16_t>(eid,r,"int16",en,ms)); case 3: return with(run_fill<float>(eid,r,"float",en,ms)); case 4: return with(run_fill<double>(eid,r,"double",en,ms)); case 5: return with(run_fill<uint16_t>(eid,r,"uint16",en,ms)); default: return with(run_fill<uint32_t>(eid,r,"uint32",en,ms)); } }
    if(mode=="eps") return id%2? run_eps<float,uint32_t>(id,r,"float",ms+4): run_eps<double,uint64_t>(id,r,"double",ms+4);
    if(mode=="mask"){ switch(id%7){ case 4: return with(run_mask<int64_t>(eid,r,"int64",en,ms)); case 5: return with(run_mask<uint64_t>(eid,r,"uint64",en,ms)); case 6: return with(run_mask<int16_t>(eid,r,"int16",en,ms)); case 0: return with(run_mask<int32_t>(eid,r,"int32",en,ms)); case 1: return with(run_mask<uint8_t>(eid,r,"uint8",en,ms)); case 2: return with(run_mask<double>(eid,r,"double",en,ms)); default: return with(run_mask<float>(eid,r,"float",en,ms)); } }
    if(mode=="wsd") switch(id%5){ case 3: return with(run_wsd<int64_t>(eid,r,"int64",en,ms)); case 4: return with(run_wsd<int16_t>(eid,r,"int16",en,ms)); case 0: return with(run_wsd<int32_t>(eid,r,"int32",en,ms)); case 1: return with(run_wsd<double>(eid,r,"double",en,ms)); default: return with(run_wsd<float>(eid,r,"float",en,ms)); }
    throw std::runtime_error("mode");
  },40,499);
}
