// Recorder for D8 directions, accumulation and upslope sets.
#include "common.hpp"
#include <omp.h>
#include <richdem/common/Array2D.hpp>
#include <richdem/flowmet/d8_flowdirs.hpp>
#include <richdem/methods/d8_methods.hpp>
using namespace richdem;
using namespace vt;
static const int DX[]={0,-1,-1,0,1,1,1,0,-1}, DY[]={0,0,-1,-1,-1,0,1,1,1};
template<class T> std::vector<long long> ivec(const Array2D<T>&a){ std::vector<long long> v; cells(a,[&](int x,int y){ v.push_back((long long)a(x,y)); }); return v; }
template<class A> std::string rest(Json&j,Rng&r,const Array2D<d8_flowdir_t>&fd){
  const bool l=laid(fd); const int w=l?vast().w:fd.width(),h=l?vast().h:fd.height(),ox=l?vast().x:0,oy=l?vast().y:0; Array2D<A> acc; int th=r.irange(1,8); omp_set_num_threads(th);
  int x0=r.irange(0,w-1),y0=r.irange(0,h-1),x1=r.irange(0,w-1),y1=r.irange(0,h-1); if(r.chance(.3)){x1=x0;y1=y0;} if(r.chance(.15)) x1=x0; if(r.chance(.15)) y1=y0;
  j.a("fd",ivec(fd)).i("fdnd",fd.noData()).i("threads",th).a("line",std::vector<int>{x0,y0,x1,y1}); pre(j.str());
  if(r.chance(.3)) acc=Array2D<A>(r.irange(1,4),r.irange(1,4),7);
  d8_flow_accum(fd,acc); Array2D<d8_flowdir_t> up; d8_upslope_cells(ox+x0,oy+y0,ox+x1,oy+y1,fd,up);
  j.a("acc",ivec(acc)).i("accnd",(long long)acc.noData()).a("ups",ivec(up)).i("upsnd",up.noData()); return j.str();
}
template<class T> std::string terrain(int id,Rng&r,const char*tn,int maxs){
  Dem d=gen_dem(r,maxs); int w=d.w,h=d.h; std::vector<char> nd(w*h,0); if(r.chance(.4)) for(int k=r.irange(1,6);k>0;k--) nd[r.next()%(w*h)]=1;
  if(std::numeric_limits<T>::is_signed){ vast_frame(r,d,nd); w=d.w; h=d.h; }
  double sc=std::is_floating_point<T>::value?r.pick(std::vector<double>{1,.5,.125}):1;
  // elevations lie about a base that some types cannot hold; recorded ones are relative to it
  const double base= sizeof(T)==1||r.chance(.5)?0: std::is_same<T,float>::value?r.pick(std::vector<double>{8192,-30000}): std::is_same<T,double>::value?r.pick(std::vector<double>{1e9,-1e9,1099511627776.,-40000}): r.pick(std::vector<double>{1000000000,-1000000000,16777217,-2000000000});
  T ndv=std::numeric_limits<T>::is_signed?(T)(base<0&&r.chance(.7)?-2100000000:-9999):(T)255;
  Array2D<T> e(w,h); e.setNoData(ndv); std::vector<long long> z; for(int i=0;i<w*h;i++){ int v=sizeof(T)==1?d.z[i]%250:d.z[i]; e(i)=nd[i]?ndv:(T)(base+v*sc); z.push_back(nd[i]?(long long)std::max(-2e9,std::min(2e9,((double)ndv-base)/sc)):v); }
  Json j; j.i("id",id).s("mode","terrain").s("type",tn).s("base",std::to_string(base)).s("kind",d.kind).i("w",w).i("h",h).a("z",z).a("nd",nd);
  lay(e,ndv); Array2D<d8_flowdir_t> fd; omp_set_num_threads(r.irange(1,8)); d8_flow_directions(e,fd);
  return r.chance(.5)?rest<int32_t>(j,r,fd):rest<double>(j,r,fd);
}
static std::string synth(int id,Rng&r,int maxs){
  int w,h; sides(r,w,h,maxs); std::vector<int> rank(w*h); for(int i=0;i<w*h;i++) rank[i]=i;
  int k=r.irange(0,4); if(k==0) for(size_t i=rank.size();i>1;i--) std::swap(rank[i-1],rank[r.next()%i]); else if(k==1) std::reverse(rank.begin(),rank.end()); else if(k==2) for(int y=0;y<h;y++) if(y%2) std::reverse(rank.begin()+y*w,rank.begin()+(y+1)*w);
  if(k==3) for(int y=0;y<h;y++)for(int x=0;x<w;x++) rank[y*w+x]=std::max(std::abs(x-w/2),std::abs(y-h/2))*1000+r.irange(0,99);
  Array2D<d8_flowdir_t> fd(w,h,0); fd.setNoData(255); double p0=r.pick(std::vector<double>{0,.1,.4}); bool last=r.chance(.5);
  for(int y=0;y<h;y++)for(int x=0;x<w;x++){ if(r.chance(.05)){ fd(x,y)=255; continue; } if(r.chance(p0)) continue;
    std::vector<int> c; int best=-1,bn=0; for(int n=1;n<=8;n++){ int a=x+DX[n],b=y+DY[n]; if(a<0||b<0||a>=w||b>=h){ if(r.chance(.3)) c.push_back(n); continue; } if(rank[b*w+a]<rank[y*w+x]){ c.push_back(n); if(rank[b*w+a]>best){best=rank[b*w+a];bn=n;} } }
    if(last&&bn) fd(x,y)=bn; else if(c.size()) fd(x,y)=r.pick(c); }
  if(vast().want){ for(int x=0;x<w;x++) fd(x,0)=fd(x,h-1)=255; for(int y=0;y<h;y++) fd(0,y)=fd(w-1,y)=255; vast_frame(r,w,h); lay(fd,(d8_flowdir_t)255); }
  Json j; j.i("id",id).s("mode","synth").i("w",w).i("h",h).raw("z","[]").a("nd",std::vector<int>(w*h,0));
  switch(r.irange(0,2)){ case 0: return rest<int32_t>(j,r,fd); case 1: return rest<float>(j,r,fd); default: return rest<double>(j,r,fd);} 
}
int main(int c,char**v){ return vt_main(c,v,[](int id,Rng&r){ int ms=opts().tier=="thorough"?22:(id%20==0?18:9); if(id%3==0) return synth(id,r,ms);
  switch(r.irange(0,3)){ case 0: return terrain<float>(id,r,"float",ms); case 1: return terrain<double>(id,r,"double",ms); case 2: return terrain<int32_t>(id,r,"int32",ms); default: return terrain<uint8_t>(id,r,"uint8",ms);} },40,499); }
