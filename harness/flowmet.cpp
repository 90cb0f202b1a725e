// Recorder for flow metrics.
#include "common.hpp"
#include <richdem/common/Array2D.hpp>
#include <richdem/common/Array3D.hpp>
#include <richdem/methods/flow_accumulation.hpp>
using namespace richdem;
using namespace vt;
static long long enc(float v){ if(v==-1) return -1; if(v==-2) return -2; if(!(v>=0)||v>1.0001f) return -777; if(v==0) return 0; return std::min(65536ll,std::max(1ll,(long long)std::llround(v*65536.0))); }
template<class T> std::string go(int id,Rng&r,const char*tn,int maxs,bool fp){
  static const char* M[]={"d8","d4","rho8","rho4","freeman","holmgren","quinn","dinf","freeman","holmgren"};
  static const char* P[]={"one","two","four","half","other"}; static const double PX[]={1,2,4,.5,1.1};
  std::string m=M[id%10]; int pi=(id/10)%5; double x=PX[pi]; if(pi==4) x=r.pick(std::vector<double>{0.8,1.1,1.5,3,5,6,.2}); if(m=="quinn"){pi=0;x=1;}
  Dem d=gen_dem(r,maxs); int w=d.w,h=d.h; int lim=pi==2?9:40; for(auto&v: d.z) v%=lim+1;
  double sc=1; if(fp) sc=r.pick(std::vector<double>{1,1,.5,1e-3,1e4,1e12,1e-9});
  // elevations lie about a base that some types cannot hold
  const bool exact=!fp||sc==1||sc==.5; const double base= sizeof(T)<4||!exact||r.chance(.5)?0: std::is_same<T,float>::value?r.pick(std::vector<double>{8192,-30000}): std::is_same<T,double>::value?r.pick(std::vector<double>{1e9,-1e9,1099511627776.}): r.pick(std::vector<double>{1000000000,-1000000000,16777217});
  T ndv= std::numeric_limits<T>::is_signed?(T)(base<0?-2100000000:-9999):(T)255; if(sizeof(T)==1&&std::numeric_limits<T>::is_signed) ndv=(T)-99;
  std::vector<char> nd(w*h,0); if(r.chance(.4)) for(int k=r.irange(1,6);k>0;k--) nd[r.next()%(w*h)]=1;
  if(std::numeric_limits<T>::is_signed){ vast_frame(r,d,nd); w=d.w; h=d.h; }
  Array2D<T> a(w,h); a.setNoData(ndv); for(int i=0;i<w*h;i++) a(i)=nd[i]?ndv:(T)(base+d.z[i]*sc);
  lay(a,ndv);
  Json j; j.i("id",id).s("metric",m=="quinn"?"holmgren":m).s("fn",m).s("xp",P[pi]).s("type",tn).s("kind",d.kind).s("scale",std::to_string(sc)).s("base",std::to_string(base)).i("w",w).i("h",h).a("z",d.z).a("nd",nd);
  pre(j.str());
  seed_rand(id+1);
  Array3D<float> p(a); bool alt=r.chance(.5);
  if(m=="d8") alt?FM_D8(a,p):FM_OCallaghan<Topology::D8>(a,p);
  else if(m=="d4") alt?FM_D4(a,p):FM_OCallaghan<Topology::D4>(a,p);
  else if(m=="rho8") alt?FM_Rho8(a,p):FM_FairfieldLeymarie<Topology::D8>(a,p);
  else if(m=="rho4") alt?FM_Rho4(a,p):FM_FairfieldLeymarie<Topology::D4>(a,p);
  else if(m=="freeman") FM_Freeman(a,p,x); else if(m=="holmgren") FM_Holmgren(a,p,x); else if(m=="quinn") FM_Quinn(a,p);
  else alt?FM_Tarboton(a,p):FM_Dinfinity(a,p);
  std::vector<long long> v; cells(p,[&](int xx,int y){ for(int n=0;n<9;n++) v.push_back(enc(p(xx,y,n))); });
  j.a("p",v); return j.str();
}
int main(int c,char**v){ return vt_main(c,v,[](int id,Rng&r){ int ms=opts().tier=="thorough"?16:(id%20==0?14:9); switch(Rng(id).irange(0,5)){ case 0: return go<double>(id,r,"double",ms,true); case 1: return go<float>(id,r,"float",ms,true); case 2: return go<int32_t>(id,r,"int32",ms,false); case 3: return go<uint8_t>(id,r,"uint8",ms,false); case 4: return go<int16_t>(id,r,"int16",ms,false); default: return go<uint16_t>(id,r,"uint16",ms,false);} },40,499); }
