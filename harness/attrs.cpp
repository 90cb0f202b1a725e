// Recorder for region fills, perimeters, terrain attributes and surface area.
#include "common.hpp"
#include <omp.h>
#include <richdem/common/Array2D.hpp>
#include <richdem/misc/misc_methods.hpp>
#include <richdem/methods/terrain_attributes.hpp>
using namespace richdem;
using namespace vt;
static long long rnd(double v){ if(!(v>-1.9e9&&v<1.9e9)) return 1999999999ll; return std::llround(v); }
template<class A> void geo(A&a,int lx,int ly,double m,Rng&r){ double s=r.pick(std::vector<double>{1,-1}); a.geotransform={{10.*r.irange(0,5),lx*m,0,77,0,-s*ly*m}}; a.projection="P"+std::to_string(r.irange(0,9)); }

// ---- region fills -----------------------------------------------------------
template<class T,class U,Topology topo> std::string region(int id,Rng&r,const char*tn){
  int ms=id%40==0?40:(id%3==0?16:8); Dem d=gen_dem(r,ms,r.chance(.5)?r.irange(0,1):-1); int w=d.w,h=d.h,n=w*h;
  const int cls=r.irange(2,5); Array2D<T> K(w,h); Array2D<U> S(w,h); std::vector<long long> kv,s0,sd;
  int v=r.irange(0,cls-1), s=r.irange(0,3); bool edges=r.chance(.3), pre_paint=r.chance(.5); if(r.chance(.3)) K.setNoData((T)v); if(r.chance(.3)) S.setNoData((U)s);
  for(int i=0;i<n;i++){ int k=d.z[i]%cls; if(r.chance(.25)) k=v; K(i)=(T)k; kv.push_back(k); int q=r.irange(0,4); if(q==s&&!(pre_paint&&r.chance(.6))) q=s+1; S(i)=(U)q; s0.push_back(q); }
  std::vector<size_t> seeds; if(!edges) for(int k=r.chance(.1)?0:r.irange(1,4);k>0;k--){ seeds.push_back(r.next()%n); if(r.chance(.2)) seeds.push_back(seeds.back()); }
  for(auto q: seeds) sd.push_back(q);
  Json j; j.i("id",id).s("kind",d.kind).s("type",tn).i("topo",topo==Topology::D8?8:4).i("w",w).i("h",h).a("K",kv).a("S0",s0).i("v",v).i("s",s).b("edges",edges).a("seeds",sd); pre(j.str());
  if(edges) BucketFillFromEdges<topo>(K,S,(T)v,(U)s); else BucketFill<topo>(K,S,(T)v,(U)s,seeds);
  std::vector<long long> out,k2; for(int i=0;i<n;i++){ out.push_back((long long)S(i)); k2.push_back((long long)K(i)); }
  j.a("S",out).i("left",seeds.size()).b("kept",k2==kv);
  // rasters of different shapes are refused, whole and unpainted
  bool threw=false; int dw=r.irange(0,1); Array2D<U> B(w+dw,h+(dw?r.irange(0,1):1),(U)(s+1)); std::vector<size_t> one{0}; try { BucketFill<topo>(K,B,(T)v,(U)s,one); } catch(const std::exception&){ threw=true; }
  for(auto q=0;q<(int)B.size();q++) threw=threw&&B(q)==(U)(s+1);
  j.b("refused",threw);
  // exposure of the cells that differ from v
  int lx=r.irange(1,9),ly=r.irange(1,9); K.setNoData((T)v); geo(K,lx,ly,1,r); int th=r.irange(1,8); omp_set_num_threads(th);
  double c=Perimeter(K,PerimType::CELL_COUNT), e=Perimeter(K,PerimType::SQUARE_EDGE);
  j.i("lx",lx).i("ly",ly).i("threads",th).i("count",rnd(c*16)).i("len",rnd(e*16));
  return j.str();
}

// ---- terrain attributes -------------------------------------------------------
template<class T> std::string attr(int id,Rng&r,const char*tn){
  const bool small=sizeof(T)==1; Dem d=gen_dem(r,id%7==0?12:7); int w=d.w,h=d.h,n=w*h;
  const int zmax=15; int lx=r.irange(1,3),ly=r.chance(.5)?lx:r.irange(1,3), zs2=r.pick(std::vector<int>{1,2,2,2,4}); int m=small?r.irange(1,2)*5:r.pick(std::vector<int>{1,1,10,30}), base=small?r.irange(1,std::numeric_limits<T>::is_signed?7:90):r.irange(0,1000);
  if(std::numeric_limits<T>::is_signed&&r.chance(.3)) base=small?-100:-base-500; // (below sea level)
  const int mm=r.irange(3,zmax); std::vector<char> nd(n,0); if(r.chance(.5)) for(int k=r.irange(1,6);k>0;k--) nd[r.next()%n]=1;
  T ndv=r.chance(.3)?(T)0:std::is_floating_point<T>::value?(T)-9999:std::numeric_limits<T>::is_signed?std::numeric_limits<T>::min():std::numeric_limits<T>::max();
  if(ndv==(T)0&&(base<=0)) base=base<0&&!small?base:(small?-128:1); if(ndv==(T)0&&small&&base<0) base=std::numeric_limits<T>::is_signed?-120:3; // data never take the NoData value
  Array2D<T> z(w,h); z.setNoData(ndv); std::vector<long long> zv; int step=zs2==1?2:1;
  for(int i=0;i<n;i++){ int v=(d.z[i]%(mm+1))/step*step; if(small&&v*m>120) v=0; T q=(T)(base+v*m); if(q==ndv) nd[i]=1; z(i)=nd[i]?ndv:q; zv.push_back(v); }
  geo(z,lx,ly,m,r); float zscale=zs2/2.f; int th=r.irange(1,8); omp_set_num_threads(th);
  Json j; j.i("id",id).s("kind",d.kind).s("type",tn).i("w",w).i("h",h).a("z",zv).a("nd",nd).i("lx",lx).i("ly",ly).i("zs2",zs2).i("m",m).i("base",base).i("threads",th); pre(j.str());
  std::vector<std::string> vals; std::vector<std::string> names; bool props=true; std::vector<std::string> masks;
  auto take=[&](const char*nm,auto f,auto val){ Array2D<float> o; if(r.chance(.4)){ o=Array2D<float>(r.irange(1,5),r.irange(1,5),3); o.setNoData(r.chance(.5)?0:5); }
    f(z,o,zscale); props=props&&o.width()==w&&o.height()==h&&o.geotransform==z.geotransform&&o.projection==z.projection; names.push_back(nm);
    std::vector<long long> mk,v; for(int i=0;i<n;i++){ mk.push_back(o.isNoData(i)); v.push_back(nd[i]?0:val((double)o(i))); } masks.push_back(jarr(mk)); vals.push_back(jarr(v)); return o; };
  const double sk=8.*lx*ly*64, ck=(double)lx*lx*m*64/100 /*the small raster's value: heights and lengths both stretched by m*/;
  take("riserun",TA_slope_riserun<T>,[&](double v){ return rnd(v*sk); });
  take("percent",TA_slope_percentage<T>,[&](double v){ return rnd(v/100*sk); });
  take("radians",TA_slope_radians<T>,[&](double v){ return rnd(std::tan(v)*sk); });
  take("degrees",TA_slope_degrees<T>,[&](double v){ return rnd(std::tan(v*M_PI/180)*sk); });
  take("curvature",TA_curvature<T>,[&](double v){ return rnd(v*ck); });
  take("planform",TA_planform_curvature<T>,[&](double v){ return rnd(v*ck); });
  take("profile",TA_profile_curvature<T>,[&](double v){ return rnd(v*ck); });
  Array2D<float> asp=take("aspect",TA_aspect<T>,[&](double v){ return v==-1?-1ll:(v>=0&&v<360)?rnd(v):1999999999ll; });
  std::vector<long long> ae,an; for(int i=0;i<n;i++){ double a=nd[i]?0:asp(i); ae.push_back(rnd(std::sin(a*M_PI/180)*4096)); an.push_back(rnd(std::cos(a*M_PI/180)*4096)); }
  j.raw("vals",jraw(vals)).raw("masks",jraw(masks)).as("names",names).b("props",props).a("east",ae).a("north",an);
  // surface area, in the units of the small raster, times 8*scale
  double mz=0; for(auto v: zv) mz=std::max(mz,v*zs2/2.); double q=mz*mz*9*2+81; int sc=std::max(1,std::min(1000,(int)std::sqrt(2.0e9/q))); while((double)sc*8*std::sqrt(q)*n*1.2>1.9e9) sc/=2; // (stays within 31 bits)
  double A=dem_surface_area(z,(double)zscale); j.i("scale",sc).i("area",rnd(A/m/m*8*sc));
  // wetness indices from an accumulation and a slope raster
  Array2D<double> acc(w,h); Array2D<float> sl(w,h); acc.setNoData(-1); sl.setNoData(r.chance(.5)?-1:-9999); acc.geotransform=z.geotransform; acc.projection=z.projection; std::vector<long long> av,sv;
  for(int i=0;i<n;i++){ int a=r.irange(1,1000),k=r.chance(.2)?0:r.irange(0,1500); if(r.chance(.05)) a=0; if(r.chance(.08)){ a=-1; } if(r.chance(.08)) k=-1; av.push_back(a); sv.push_back(k); acc(i)=a; sl(i)=k<0?sl.noData():(float)(k/1000.); }
  std::vector<long long> sp,ct; Array2D<double> so,co; if(r.chance(.4)) so=Array2D<double>(2,3,1);
  TA_SPI(acc,sl,so); TA_CTI(acc,sl,co); const double area=(double)lx*ly*m*m;
  bool d2=so.width()==w&&so.height()==h&&co.width()==w&&co.height()==h&&so.geotransform==z.geotransform&&co.geotransform==z.geotransform;
  if(d2) for(int i=0;i<n;i++){ sp.push_back(so.isNoData(i)?-1:rnd(std::exp(so(i))*area*1000)); ct.push_back(co.isNoData(i)?-1:rnd(std::exp(co(i))*area*1000)); }
  bool threw=false; Array2D<float> odd(w+1,h); try { TA_SPI(acc,odd,so); } catch(const std::exception&){ threw=true; } bool t2=false; try { TA_CTI(acc,odd,co); } catch(const std::exception&){ t2=true; }
  j.a("acc",av).a("slope",sv).a("spi",sp).a("cti",ct).b("props2",d2).b("refused",threw&&t2);
  return j.str();
}
int main(int c,char**v){ return vt_main(c,v,[](int id,Rng&r)->std::string{
  if(opts().rest.size()&&opts().rest[0]=="region") switch(id%6){
    case 0: return region<int,int,Topology::D8>(id,r,"int"); case 1: return region<uint8_t,uint32_t,Topology::D4>(id,r,"u8");
    case 2: return region<float,int,Topology::D8>(id,r,"float"); case 3: return region<double,double,Topology::D4>(id,r,"double");
    case 4: return region<int8_t,float,Topology::D8>(id,r,"i8"); default: return region<int16_t,uint8_t,Topology::D4>(id,r,"i16"); }
  switch(id%6){ case 0: return attr<float>(id,r,"float"); case 1: return attr<double>(id,r,"double"); case 2: return attr<int16_t>(id,r,"i16"); case 3: return attr<int32_t>(id,r,"i32"); case 4: return attr<uint8_t>(id,r,"u8"); default: return attr<int8_t>(id,r,"i8"); } }); }
