// Recorder of the raster operations' results under different numbers of
// threads and different schedules of them.
#include "common.hpp"
#include "fakeomp.hpp"
#include <omp.h>
#include <richdem/common/Array2D.hpp>
#include <richdem/common/Array3D.hpp>
#include <richdem/depressions/depressions.hpp>
#include <richdem/depressions/depression_hierarchy.hpp>
#include <richdem/depressions/fill_spill_merge.hpp>
#include <richdem/flats/flats.hpp>
#include <richdem/flats/find_flats.hpp>
#include <richdem/flats/flat_resolution.hpp>
#include <richdem/flowmet/dinf_flowdirs.hpp>
#include <richdem/flats/flat_resolution_dinf.hpp>
#include <richdem/methods/flow_accumulation.hpp>
#include <richdem/methods/d8_methods.hpp>
#include <richdem/methods/dinf_methods.hpp>
#include <richdem/methods/terrain_attributes.hpp>
#include <richdem/misc/misc_methods.hpp>
using namespace richdem; using namespace vt;
#ifdef VT_REAL_OMP
namespace fomp { void use(int n,Mode,uint64_t){ omp_set_dynamic(0); omp_set_num_threads(n); } void forget(){} int conflicts(){ return 0; } long long teams(){ return 1000000; } long long switches(){ return 0; } bool real(){ return true; } }
#endif
struct Sum { uint64_t a=1469598103934665603ull,b=7; void d(double v){ uint64_t q; if(v==0) v=0; memcpy(&q,&v,8); a=(a^q)*1099511628211ull; a^=a>>29; b=b*6364136223846793005ull+q; } void i(long long v){ d((double)v); }
  template<class A> void arr(const A&x){ i(x.width()); i(x.height()); d((double)x.noData()); for(size_t k=0;k<x.size();k++) d((double)x(k)); }
  void props(const Array3D<float>&p){ for(int y=0;y<p.height();y++)for(int x=0;x<p.width();x++)for(int n=0;n<9;n++) d(p(x,y,n)); }
  // labels, up to the numbers chosen for them
  template<class A> void labels(const A&x){ std::map<long long,int> m; for(size_t k=0;k<x.size();k++){ long long l=x(k); if(l==0){ i(0); continue; } i(m.emplace(l,m.size()+1).first->second); } }
  std::string s() const { char c[40]; snprintf(c,40,"%016llx%016llx",(unsigned long long)a,(unsigned long long)b); return c; } };
// Loops whose outcome is known, to see that the runtime deals them out rightly
// and that it loses the updates of loops that are not protected.
static void exact(Sum&s){ int n=23; std::vector<int> a(n,0),b(n,0); long tot=0,crit=0; long long at=0; std::vector<int> one;
  #pragma omp parallel for schedule(dynamic,2)
  for(int i=0;i<n;i++) a[i]+=1;
  #pragma omp parallel for collapse(2) reduction(+:tot)
  for(int y=0;y<5;y++) for(int x=0;x<7;x++) tot+=y*7+x;
  #pragma omp parallel
  {
    #pragma omp single
    one.push_back(1);
    #pragma omp for
    for(int i=n-1;i>=0;i--){ b[i]+=a[i];
      #pragma omp critical
      crit+=i;
      #pragma omp atomic
      at+=i; }
    #pragma omp for schedule(guided) nowait
    for(size_t i=0;i<(size_t)n;i++) b[i]*=2;
  }
  for(int x: a) s.i(x); for(int x: b) s.i(x); s.i(tot); s.i(crit); s.i(at); s.i(one.size()); if(tot!=595||crit!=253||at!=253||one.size()!=1||b[5]!=2||b[0]!=2||b[22]!=2) s.i(-1); }
static int racy(){ volatile int c=0; volatile int*p=&c;
  #pragma omp parallel for
  for(int i=0;i<24;i++) *p=*p+1;
  return 24-c; }
struct Op { std::string name; std::function<void(Sum&)> f; std::function<double()> num; };
template<class T> std::string go(int id,Rng&r,const char*tn){
  Dem d=gen_dem(r,id%5==0?16:9,r.chance(.3)?8:-1,2); int w=d.w,h=d.h,n=w*h; std::vector<char> nd(n,0); bool holes=r.chance(.4); if(holes) for(int k=r.irange(1,5);k>0;k--) nd[r.next()%n]=1;
  T ndv=(T)(std::numeric_limits<T>::is_signed?-99:255); Array2D<T> z(w,h),q(w,h); z.setNoData(ndv); q.setNoData(ndv); for(int i=0;i<n;i++){ int v=sizeof(T)==1?d.z[i]%100:d.z[i]; q(i)=(T)v; z(i)=nd[i]?ndv:(T)v; }
  z.geotransform=q.geotransform={{0,2,0,0,0,-2}};
  std::vector<char> oc(n,0); for(int y=0;y<h;y++)for(int x=0;x<w;x++) oc[y*w+x]=r.chance(.05)||((x==0||y==0||x==w-1||y==h-1)&&r.chance(.8)); oc[r.next()%n]=1; { bool land=false; for(char o: oc) land=land||!o; if(!land) oc[n/2]=0; }
  std::vector<int> rain; for(int i=0;i<n;i++) rain.push_back(r.irange(0,6));
  Array2D<d8_flowdir_t> fd; fomp::use(1,fomp::RUN,1); d8_flow_directions(q,fd); Array2D<float> di; dinf_flow_directions(q,di);
  Array2D<d8_flowdir_t> fn=fd; Array2D<float> dn=di; for(int i=0;i<n;i++) if(nd[i]){ fn(i)=fn.noData(); dn(i)=dn.noData(); }
  Array2D<float> sl(w,h); Array2D<double> ac(w,h); sl.setNoData(-1); ac.setNoData(-1); sl.geotransform=ac.geotransform=z.geotransform; for(int i=0;i<n;i++){ sl(i)=nd[i]?-1:d.z[i]*.25f; ac(i)=nd[i]?-1:1+rain[i]; }
  std::vector<Op> ops; auto op=[&](const char*nm,std::function<void(Sum&)> f){ ops.push_back({nm,f,nullptr}); };
  op("(loops)",exact);
  op("d8_flow_directions",[&](Sum&s){ Array2D<d8_flowdir_t> o; d8_flow_directions(z,o); s.arr(o); });
  op("d8_flow_accum",[&](Sum&s){ Array2D<int32_t> o; d8_flow_accum(fn,o); s.arr(o); });
  op("dinf_flow_directions",[&](Sum&s){ Array2D<float> o; dinf_flow_directions(z,o); s.arr(o); });
  op("dinf_upslope_area",[&](Sum&s){ Array2D<float> o; dinf_upslope_area(dn,o); s.arr(o); });
  op("FindFlats",[&](Sum&s){ Array2D<int8_t> o; FindFlats(z,o); s.arr(o); });
  op("GetFlatMask",[&](Sum&s){ Array2D<int32_t> m,l; GetFlatMask(z,m,l); s.arr(m); s.labels(l); });
  op("resolve_flats_barnes",[&](Sum&s){ Array2D<int32_t> m,l; Array2D<d8_flowdir_t> o; d8_flow_directions(z,o); resolve_flats_barnes(z,o,m,l); d8_flow_flats(m,l,o); s.arr(m); s.labels(l); s.arr(o); });
  if(std::is_floating_point<T>::value){ op("ResolveFlatsEpsilon",[&](Sum&s){ Array2D<T> o=z; ResolveFlatsEpsilon(o); s.arr(o); });
    op("barnes_flat_resolution_d8",[&](Sum&s){ Array2D<T> o=z; Array2D<d8_flowdir_t> f; barnes_flat_resolution_d8(o,f,true); s.arr(o); s.arr(f); }); }
  op("resolve_flats_barnes_dinf",[&](Sum&s){ Array2D<float> o; dinf_flow_directions(q,o); resolve_flats_barnes_dinf(q,o); s.arr(o); });
  op("terrain attributes",[&](Sum&s){ Array2D<float> o; TA_slope_riserun(z,o); s.arr(o); TA_slope_percentage(z,o,2.f); s.arr(o); TA_slope_degrees(z,o); s.arr(o); TA_slope_radians(z,o); s.arr(o); TA_aspect(z,o); s.arr(o); TA_curvature(z,o); s.arr(o); TA_planform_curvature(z,o); s.arr(o); TA_profile_curvature(z,o); s.arr(o); });
  op("SPI and CTI",[&](Sum&s){ Array2D<double> o; TA_SPI(ac,sl,o); s.arr(o); TA_CTI(ac,sl,o); s.arr(o); });
  op("Perimeter",[&](Sum&s){ s.d(Perimeter(z,PerimType::CELL_COUNT)); s.d(Perimeter(z,PerimType::SQUARE_EDGE)); });
  ops.push_back({"dem_surface_area",nullptr,[&]{ return dem_surface_area(z,1.0); }});
  auto P=[&](const char*nm,std::function<void(Array3D<float>&)> f){ op(nm,[&,f](Sum&s){ Array3D<float> p(z); f(p); s.props(p); }); };
  P("FM_D8",[&](Array3D<float>&p){ FM_D8(z,p); }); P("FM_D4",[&](Array3D<float>&p){ FM_D4(z,p); }); P("FM_Freeman",[&](Array3D<float>&p){ FM_Freeman(z,p,1.1); }); P("FM_Holmgren",[&](Array3D<float>&p){ FM_Holmgren(z,p,2); }); P("FM_Quinn",[&](Array3D<float>&p){ FM_Quinn(z,p); }); P("FM_Tarboton",[&](Array3D<float>&p){ FM_Tarboton(z,p); });
  op("FA_Tarboton",[&](Sum&s){ Array2D<double> a(z); FA_Tarboton(z,a); s.arr(a); });
  op("FA_D8",[&](Sum&s){ Array2D<double> a(z); FA_D8(z,a); s.arr(a); });
  op("PriorityFlood",[&](Sum&s){ Array2D<T> o=z; PriorityFlood_Zhou2016(o); s.arr(o); o=z; PriorityFlood_Barnes2014<Topology::D8>(o); s.arr(o); o=z; PriorityFlood_Wei2018(o); s.arr(o); });
  using namespace dephier; Array2D<dh_label_t> l0(w,h,NO_DEP); for(int i=0;i<n;i++) if(oc[i]) l0(i)=OCEAN; Array2D<dh_label_t> lab=l0; Array2D<flowdir_t> fl(w,h,NO_FLOW); DepressionHierarchy<T> D=GetDepressionHierarchy<T,Topology::D8>(q,lab,fl);
  op("depression hierarchy",[&](Sum&s){ Array2D<dh_label_t> lab=l0; Array2D<flowdir_t> f(w,h,NO_FLOW); auto D=GetDepressionHierarchy<T,Topology::D8>(q,lab,f); s.arr(lab); s.arr(f);
    for(auto&x: D){ s.i(x.pit_cell); s.i(x.out_cell); s.d(x.pit_elev); s.d(x.out_elev); s.i(x.parent); s.i(x.odep); s.i(x.geolink); s.i(x.lchild); s.i(x.rchild); s.i(x.ocean_parent); s.i(x.cell_count); s.d(x.dep_vol); s.d(x.total_elevation); s.i(x.ocean_linked.size()); for(auto o: x.ocean_linked) s.i(o); } });
  op("fill-spill-merge",[&](Sum&s){ auto E=D; Array2D<double> wt(w,h); for(int i=0;i<n;i++) wt(i)=oc[i]?0:rain[i]/4.; FillSpillMerge(q,lab,fl,E,wt); s.arr(wt); for(auto&x: E) s.d(x.water_vol); });
  op("last layer",[&](Sum&s){ auto l=lab; LastLayer(l,q,D); s.arr(l); });
  Json j; j.i("id",id).s("kind",d.kind).s("type",tn).i("w",w).i("h",h).a("z",d.z).a("nd",nd).b("real",fomp::real()); pre(j.str());
  std::vector<std::string> out; long long t0=fomp::teams(),sw0=fomp::switches(); int conf=0;
  struct Run { int n; fomp::Mode m; const char*nm; }; const bool th=opts().tier=="thorough";
  for(auto&o: ops){ std::vector<std::string> runs; auto run=[&](int nt,fomp::Mode m,const char*nm,uint64_t seed){ fomp::use(nt,m,seed); std::string v; long long num=0; if(o.num){ double x=o.num(); num=x<2e6?std::llround(x*1000):-1; } else { Sum s; o.f(s); v=s.s(); } Json k; k.i("n",nt).s("how",nm).s("v",v).i("num",num); runs.push_back(k.str()); };
    fomp::forget(); run(1,fomp::RUN,"alone",0); int many=r.pick(std::vector<int>{3,4,8,h,h+1,40}); run(many,fomp::RECORD,"in turn",0); conf+=fomp::conflicts();
    run(2,fomp::PERMUTE,"any order",r.next()); run(many,fomp::PERMUTE,"any order",r.next());
    bool wide=fomp::conflicts()>0; for(int k=(th?8:2)*(wide?6:1);k>0;k--) run(k%2?many:r.irange(2,6),fomp::ADVERSE,"adverse",r.next());
    Json q; q.s("op",o.name).i("conflicts",fomp::conflicts()).raw("runs",jraw(runs)); out.push_back(q.str()); }
  int lost=0; for(int k=0;k<12;k++){ fomp::use(4,k?fomp::ADVERSE:fomp::RECORD,r.next()); lost=std::max(lost,racy()); } fomp::use(1,fomp::RUN,0); Sum ex; exact(ex);
  { Sum want; for(int i=0;i<23;i++) want.i(1); for(int i=0;i<23;i++) want.i(2); want.i(595); want.i(253); want.i(253); want.i(1); j.b("exact",ex.s()==want.s()); }
  j.i("lost",lost).raw("ops",jraw(out)).i("teams",fomp::teams()-t0).i("switches",std::min<long long>(2000000000,fomp::switches()-sw0)).i("conflicts",conf); return j.str();
}
int main(int c,char**v){ return vt_main(c,v,[](int id,Rng&r)->std::string{ switch(id%4){ case 0: return go<float>(id,r,"float"); case 1: return go<double>(id,r,"double"); case 2: return go<int32_t>(id,r,"int32"); default: return go<int16_t>(id,r,"int16"); } }); }
