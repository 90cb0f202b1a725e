// Recorder for D-infinity directions and accumulation.
#include "common.hpp"
#include <omp.h>
#include <richdem/common/Array2D.hpp>
#include <richdem/flowmet/dinf_flowdirs.hpp>
#include <richdem/methods/dinf_methods.hpp>
using namespace richdem;
using namespace vt;
static const int DX[]={0,-1,-1,0,1,1,1,0,-1}, DY[]={0,0,-1,-1,-1,0,1,1,1};
template<class A> std::vector<long long> scaled(const Array2D<A>&a){ std::vector<long long> v; cells(a,[&](int x,int y){ double q=(double)a(x,y); v.push_back(q>=-1e6&&q<=1e8?(long long)std::llround(q*16):-1999999999ll); }); return v; }
static std::vector<long long> angles(const Array2D<float>&a){ std::vector<long long> v; cells(a,[&](int x,int y){ float q=a(x,y); if(q==a.noData()) v.push_back(-1); else if(q==0) v.push_back(0); else if(!(q>0&&q<6.2832)) v.push_back(-5); else v.push_back(std::max(1ll,(long long)std::llround(q/(M_PI/4)*10000))); }); return v; }
template<class A> std::string rest(Json&j,Rng&r,const Array2D<float>&fd){
  int th=r.irange(1,8); omp_set_num_threads(th); Array2D<A> acc; if(r.chance(.3)) acc=Array2D<A>(r.irange(1,4),r.irange(1,4),7);
  j.a("ang",angles(fd)).i("threads",th); pre(j.str()); dinf_upslope_area(fd,acc);
  j.a("acc",scaled(acc)).i("accnd",(long long)acc.noData()); return j.str();
}
template<class T> std::string terrain(int id,Rng&r,const char*tn,int maxs){
  Dem d=gen_dem(r,maxs); int w=d.w,h=d.h; std::vector<char> nd(w*h,0); if(r.chance(.3)) for(int k=r.irange(1,6);k>0;k--) nd[r.next()%(w*h)]=1;
  if(std::numeric_limits<T>::is_signed){ vast_frame(r,d,nd); w=d.w; h=d.h; }
  double sc=std::is_floating_point<T>::value?r.pick(std::vector<double>{1,.5,.125}):1;
  // elevations lie about a base that some types cannot hold; recorded ones are relative to it
  const double base= sizeof(T)==1||r.chance(.5)?0: std::is_same<T,float>::value?r.pick(std::vector<double>{8192,-30000}): std::is_same<T,double>::value?r.pick(std::vector<double>{1e9,-1e9,1099511627776.}): r.pick(std::vector<double>{1000000000,-1000000000,16777217});
  T ndv=std::numeric_limits<T>::is_signed?(T)(base<0?-2100000000:-999):(T)255;
  Array2D<T> e(w,h); e.setNoData(ndv); std::vector<long long> z; for(int i=0;i<w*h;i++){ int v=sizeof(T)==1?d.z[i]%250:d.z[i]; e(i)=nd[i]?ndv:(T)(base+v*sc); z.push_back(nd[i]?(base==0?(long long)(ndv/sc):-20000):v); }
  Json j; j.i("id",id).s("mode","terrain").s("type",tn).s("base",std::to_string(base)).s("kind",d.kind).i("w",w).i("h",h).a("z",z).a("nd",nd);
  lay(e,ndv); Array2D<float> fd; omp_set_num_threads(r.irange(1,8)); dinf_flow_directions(e,fd);
  return r.chance(.5)?rest<float>(j,r,fd):rest<double>(j,r,fd);
}
// angle rasters without cycles: both facet neighbours rank lower (or are off the raster)
static std::string synth(int id,Rng&r,int maxs){
  int w,h; sides(r,w,h,maxs); std::vector<int> rank(w*h); for(int i=0;i<w*h;i++) rank[i]=i;
  int k=r.irange(0,4); if(k==0) for(size_t i=rank.size();i>1;i--) std::swap(rank[i-1],rank[r.next()%i]); else if(k==1) std::reverse(rank.begin(),rank.end());
  if(k==3) for(int y=0;y<h;y++)for(int x=0;x<w;x++) rank[y*w+x]=std::max(std::abs(x-w/2),std::abs(y-h/2))*1000+r.irange(0,99);
  Array2D<float> fd(w,h,0.f); fd.setNoData(-1);
  auto dirof=[](int e){ return ((4-(e%8)+8)%8)+1; };
  for(int y=0;y<h;y++)for(int x=0;x<w;x++){ if(r.chance(.04)){ fd(x,y)=-1; continue; }
    auto ok=[&](int e){ int n=dirof(e),a=x+DX[n],b=y+DY[n]; return a<0||b<0||a>=w||b>=h||rank[b*w+a]<rank[y*w+x]; };
    std::vector<float> c; for(int e=0;e<8;e++){ if(ok(e)) c.push_back(e==0?8:e); if(ok(e)&&ok(e+1)){ int q=r.irange(1,99); c.push_back(e+q/100.f); c.push_back(e+.25f); c.push_back(e+.75f);} }
    if(c.size()&&r.chance(.93)) fd(x,y)=r.pick(c)*(M_PI/4); }
  if(vast().want){ for(int x=0;x<w;x++) fd(x,0)=fd(x,h-1)=-1; for(int y=0;y<h;y++) fd(0,y)=fd(w-1,y)=-1; vast_frame(r,w,h); lay(fd,-1.f); }
  Json j; j.i("id",id).s("mode","synth").i("w",w).i("h",h).raw("z","[]").a("nd",std::vector<int>(w*h,0));
  return r.chance(.5)?rest<float>(j,r,fd):rest<double>(j,r,fd);
}
int main(int c,char**v){ return vt_main(c,v,[](int id,Rng&r){ int ms=opts().tier=="thorough"?18:(id%20==0?16:9); if(id%3==0) return synth(id,r,ms);
  switch(r.irange(0,3)){ case 0: return terrain<float>(id,r,"float",ms); case 1: return terrain<double>(id,r,"double",ms); case 2: return terrain<int32_t>(id,r,"int32",ms); default: return terrain<uint8_t>(id,r,"uint8",ms);} },40,499); }
