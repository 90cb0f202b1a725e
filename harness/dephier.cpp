// Recorder for the depression hierarchy and Fill-Spill-Merge.
#include "common.hpp"
#include <richdem/common/Array2D.hpp>
#include <richdem/depressions/depression_hierarchy.hpp>
#include <richdem/depressions/fill_spill_merge.hpp>
using namespace richdem; using namespace richdem::dephier; using namespace vt;
static int lb(dh_label_t l){ return l==NO_VALUE ? -1 : (int)l; }
template<class T> std::string depjson(const DepressionHierarchy<T>&D,bool&exact,int q,double base){
  std::vector<std::string> v; exact=true;
  for(size_t i=0;i<D.size();i++){ const auto&d=D[i]; bool leaf=i>0&&d.lchild==NO_VALUE; Json j;
    j.i("pit",leaf?home(d.pit_cell)+1:0).i("out",i?(d.out_cell==NO_VALUE?-1:home(d.out_cell)+1):0).i("pelev",leaf?(long long)(((double)d.pit_elev-base)*q):0).i("oelev",i?(long long)(((double)d.out_elev-base)*q):0)
     .i("par",lb(d.parent)).i("odep",lb(d.odep)).i("geo",lb(d.geolink)).i("l",lb(d.lchild)).i("r",lb(d.rchild)).b("op",d.ocean_parent).i("dl",(long long)d.dep_label).i("cc",d.cell_count);
    double vol= i? d.dep_vol*q : 0; if(vol!=std::floor(vol)) exact=false; j.i("vol",(long long)vol); std::vector<long long> ol; for(auto x: d.ocean_linked) ol.push_back(lb(x)); j.a("ol",ol); v.push_back(j.str()); }
  return jraw(v);
}
// elevations lie about a base that some types cannot hold; recorded ones are relative to it
template<class T> T some_base(Rng&r){ if(r.chance(.5)) return 0; if(std::is_same<T,float>::value) return (T)r.pick(std::vector<int>{8192,-30000}); if(std::is_same<T,double>::value) return (T)r.pick(std::vector<double>{1e9,-1e9,34359738368.}); if(sizeof(T)<4) return (T)-20000; return (T)r.pick(std::vector<int>{1000000000,-1000000000,16777217}); }
static std::vector<char> gen_ocean(Rng&r,const Dem&d){ int w=d.w,h=d.h; std::vector<char> oc(w*h,0);
  switch(r.irange(0,6)){
    case 0: case 1: for(int y=0;y<h;y++)for(int x=0;x<w;x++) oc[y*w+x]=x==0||y==0||x==w-1||y==h-1; break;
    case 2: oc[r.next()%(w*h)]=1; break;
    case 3: for(int y=0;y<h;y++) oc[y*w+(r.chance(.5)?0:w-1)]=1; break;
    case 4: oc[w*h-1]=1; break;
    case 5: for(int i=0;i<w*h;i++) oc[i]=r.chance(.15); break;
    default: { int lo=*std::min_element(d.z.begin(),d.z.end()); for(int i=0;i<w*h;i++) oc[i]=d.z[i]==lo; } }
  return oc; }
template<class T,Topology topo> std::string hier(int id,Rng&r,const char*tn,int ms){
  Dem d=gen_dem(r,ms); int w=d.w,h=d.h; auto oc=gen_ocean(r,d); vast_frame(r,d,oc); w=d.w; h=d.h; int off=r.chance(.3)?-r.irange(1,12):0; if(!vast().on&&r.chance(.02)) oc.assign(w*h,0);
  const T base=some_base<T>(r); Array2D<T> e(w,h); for(int i=0;i<w*h;i++){ d.z[i]+=off; e(i)=(T)(base+d.z[i]); }
  Array2D<dh_label_t> lab(w,h,NO_DEP); Array2D<flowdir_t> fd(w,h,NO_FLOW); for(int i=0;i<w*h;i++) if(oc[i]) lab(i)=OCEAN;
  bool border=false; for(int y=0;y<h;y++)for(int x=0;x<w;x++) if(oc[y*w+x]) for(int n=1;n<=8;n++){ if(topo==Topology::D4&&n%2==0) continue; int a=x+d8x[n],b=y+d8y[n]; if(a>=0&&b>=0&&a<w&&b<h&&lab(a,b)!=OCEAN) border=true; }
  Json j; j.i("id",id).s("kind",d.kind).s("type",tn).i("topo",topo==Topology::D8?8:4).i("w",w).i("h",h).a("z",d.z).a("oc",oc).b("noocean",!border).s("base",std::to_string((double)base)); pre(j.str());
  const auto e0=e; lay(e,(T)(base+d.z[0])); lay(lab,OCEAN); lay(fd,(flowdir_t)NO_FLOW);
  try { auto D=GetDepressionHierarchy<T,topo>(e,lab,fd); bool ex; std::string s=depjson(D,ex,1,base); std::vector<int> L,F; cells(lab,[&](int x,int y){ L.push_back(lab(x,y)==NO_DEP?-2:(int)lab(x,y)); F.push_back(fd(x,y)); });
    int at=0; bool kept=true; cells(e,[&](int x,int y){ kept=kept&&e(x,y)==e0(at++); }); if(!kept) throw std::logic_error("elevations altered");
    auto last=lab; LastLayer(last,e,D); std::vector<int> LL; cells(last,[&](int x,int y){ const auto q=last(x,y); LL.push_back(q==OCEAN?0:q==(dh_label_t)-3?1:-9); });
    j.a("lab",L).a("fd",F).a("last",LL).raw("D",s).b("exact",ex).b("refused",false);
  } catch(const std::runtime_error&) { j.b("refused",true); }
  return j.str();
}
template<class T,class W> std::string fsm(int id,Rng&r,const char*tn,int ms){
  Dem d=gen_dem(r,ms); int w=d.w,h=d.h; if(w*h<2){ d.w=w=2; d.h=h=2; d.z={3,1,2,1}; } auto oc=gen_ocean(r,d); if((int)std::count(oc.begin(),oc.end(),1)%(w*h)==0) { oc.assign(w*h,0); oc[w*h-1]=1; }
  const T base=some_base<T>(r); Array2D<T> e(w,h); for(int i=0;i<w*h;i++) e(i)=(T)(base+d.z[i]);
  Array2D<dh_label_t> lab(w,h,NO_DEP); Array2D<flowdir_t> fd(w,h,NO_FLOW); for(int i=0;i<w*h;i++) if(oc[i]) lab(i)=OCEAN;
  int lo=*std::min_element(d.z.begin(),d.z.end()),hi=*std::max_element(d.z.begin(),d.z.end()); int span=4*(hi-lo)+4;
  bool dry=r.chance(.15); std::vector<int> rain(w*h,0); int m=r.irange(0,4);
  for(int i=0;i<w*h;i++) rain[i]= m==0? r.irange(0,3) : m==1? (r.chance(.1)?r.irange(0,span*8):0) : m==2? r.irange(0,span) : m==3? (r.chance(.3)?r.irange(0,span/2):0) : 4*r.irange(0,1);
  if(dry) for(auto&v: rain) if(r.chance(.5)) v=-r.irange(0,span/4);
  std::vector<int> z4; for(int v: d.z) z4.push_back(4*v);
  Json j; j.i("id",id).s("kind",d.kind).s("type",tn).i("w",w).i("h",h).a("z",z4).a("oc",oc).a("rain",rain).b("dry",dry).s("base",std::to_string((double)base)); pre(j.str());
  auto D=GetDepressionHierarchy<T,Topology::D8>(e,lab,fd);
  auto put=[&](const std::vector<int>&rn){ Array2D<W> a(w,h); for(int i=0;i<w*h;i++) a(i)=rn[i]/4.0; return a; };
  Array2D<W> wtd=put(rain); FillSpillMerge(e,lab,fd,D,wtd); double sea=D.at(0).water_vol;
  // the same water in each depression, but starting from other cells of it
  bool again=true; if(!dry){ std::vector<int> rn(w*h,0); std::map<dh_label_t,std::vector<int>> by; for(int i=0;i<w*h;i++) by[lab(i)].push_back(i); for(int i=0;i<w*h;i++) rn[r.pick(by[lab(i)])]+=rain[i];
    Array2D<W> w2=put(rn); FillSpillMerge(e,lab,fd,D,w2); for(int i=0;i<w*h;i++) if(std::abs(w2(i)-wtd(i))>1e-3) again=false; if(std::abs(sea-D.at(0).water_vol)>1e-3) again=false; }
  bool ex; std::string s=depjson(D,ex,4,base); std::vector<int> L,F; std::vector<long long> wet; long long tot=0; double left=0; for(int i=0;i<w*h;i++){ L.push_back((int)lab(i)); F.push_back(fd(i)); double v=wtd(i)*4000.0; wet.push_back(std::isfinite(v)&&std::abs(v)<2e9?std::llround(v):2000000001); left+=v; tot+=rain[i]; }
  j.a("lab",L).a("fd",F).raw("D",s).a("wet",wet).i("left",std::llround(left)).i("sea",std::llround(sea*4000)).i("total",tot*1000).b("again",again);
  return j.str();
}
int main(int c,char**v){ return vt_main(c,v,[](int id,Rng&r){ bool th=opts().tier=="thorough"; int ms=th?16:(id%12==0?13:9); bool f=opts().rest.size()&&opts().rest[0]=="fsm";
  if(f){ long_case()=false; vast()=Vast(); }
  if(f) return id%3==0?fsm<float,double>(id,r,"float",ms):fsm<double,double>(id,r,"double",ms);
  switch(id%4){ case 0: return r.chance(.3)?hier<int16_t,Topology::D8>(id,r,"int16",ms):hier<int32_t,Topology::D8>(id,r,"int32",ms); case 1: return hier<float,Topology::D8>(id,r,"float",ms); case 2: return hier<double,Topology::D8>(id,r,"double",ms); default: return r.chance(.5)?hier<double,Topology::D4>(id,r,"double",ms):hier<float,Topology::D4>(id,r,"float",ms); } },40,499); }
