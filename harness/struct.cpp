// Recorder: histories of the small data structures -- cell queues, radix
// heaps, disjoint sets, layout files, LRU lists.
#include "common.hpp"
#include <fstream>
#include <sstream>
#include <list>
#include <richdem/common/grid_cell.hpp>
#include <richdem/common/radix_heap.hpp>
#include <richdem/common/disjoint_dense_int_set.hpp>
#include <richdem/common/Layoutfile.hpp>
#include <richdem/tiled/lru.hpp>
using namespace richdem;
using namespace vt;

// ---- queues ---------------------------------------------------------------
struct QOp { std::string o; double z=0; bool nan=false; int id=0; long long res=-1; double kz=0; bool knan=false; std::vector<int> ids; };
static std::string qjson(int id,const char*mode,const char*tn,std::vector<QOp>&ops,const std::vector<int>&final_order){
  Ranker rk; for(auto&o: ops){ if(!o.nan) rk.add1(o.z); if(!o.knan) rk.add1(o.kz); } rk.done();
  std::vector<std::string> v; for(auto&o: ops){ Json j; j.s("o",o.o).i("z",o.nan?-1:rk.of(o.z)).i("id",o.id).i("res",o.res).i("kz",o.knan?-1:rk.of(o.kz)).a("ids",o.ids); v.push_back(j.str()); }
  (void)final_order; Json j; j.i("id",id).s("mode",mode).s("type",tn).raw("ops",jraw(v)); return j.str(); }

// two cells compared with each other, not-a-number below everything
template<class T> void compared(std::vector<QOp>&ops,size_t size,Rng&r,int spread){
  if constexpr(std::is_floating_point<T>::value){ QOp o; o.o="cmp"; T v[2]; bool nn[2]; for(int i=0;i<2;i++){ v[i]=(T)r.irange(0,spread)*(T)0.37; if(r.chance(.1)) v[i]=-v[i]; nn[i]=r.chance(.3); if(r.chance(.1)) v[i]=r.chance(.5)?std::numeric_limits<T>::infinity():-std::numeric_limits<T>::infinity(); if(nn[i]) v[i]=std::numeric_limits<T>::quiet_NaN(); }
    const GridCellZ<T> a(1,2,v[0]), b(3,4,v[1]); o.ids={a<b,a>b,a>=b,a<=b,a==b,a!=b}; o.nan=nn[0]; o.knan=nn[1]; o.z=nn[0]?0:v[0]; o.kz=nn[1]?0:v[1]; o.res=size; ops.push_back(o); } }
template<class Q,class T> std::string goq(int id,Rng&r,const char*mode,const char*tn,bool nans){
  Q q; std::vector<QOp> ops; int n=r.irange(1,opts().tier=="thorough"?120:60), next=1; int spread=r.irange(0,3)==0?1:r.irange(1,12); double ppush=.4+.4*r.real();
  for(int i=0;i<n||!q.empty();i++){ QOp o; bool push=q.empty()?i<n:(i<n&&r.chance(ppush)); if(q.empty()&&!push) break;
    if(push){ o.o="push"; T z=(T)(r.irange(0,spread)-spread/2); if(std::is_floating_point<T>::value&&r.chance(.2)) z=(T)(z*(T)0.37); if(std::is_floating_point<T>::value&&r.chance(.05)) z=-(T)0.0; if(nans&&r.chance(.15)){ z=std::numeric_limits<T>::quiet_NaN(); o.nan=true; } if(nans&&r.chance(.05)&&!o.nan) z=r.chance(.5)?std::numeric_limits<T>::infinity():-std::numeric_limits<T>::infinity(); o.z=z; o.id=next++; q.emplace(o.id,-o.id,z); o.res=q.size(); o.kz=0; if(o.nan) o.z=0; }
    else { o.o="pop"; o.z=0; auto c=q.top(); q.pop(); o.id=c.y==-c.x?c.x:-1; o.kz=c.z; o.knan=c.z!=c.z; if(o.knan) o.kz=0; o.res=q.size(); }
    ops.push_back(o); if(r.chance(.15)) compared<T>(ops,q.size(),r,spread); }
  return qjson(id,mode,tn,ops,{}); }

template<class T> T rkey(Rng&r,double lo,int kind){ // a key not below lo
  double span=kind==0?3:kind==1?40:kind==2?1e5:2e9; if(std::is_same<T,int8_t>::value) span=std::min(span,30.0); if(sizeof(T)==2) span=std::min(span,3000.0);
  double v=lo+std::floor(r.real()*span*(r.chance(.3)?.01:1)); if(std::is_floating_point<T>::value&&r.chance(.4)) v=lo+r.real()*span; double mx=(double)std::numeric_limits<T>::max(); if(v>mx) v=mx; T t=(T)v; if((double)t<lo) t=(T)lo; if(std::is_integral<T>::value&&sizeof(T)==8&&v>=mx) t=std::numeric_limits<T>::max(); return t; }
template<class T> std::string gor(int id,Rng&r,const char*tn){
  radix_heap::radix_heap<T> q,other; T olast; std::vector<QOp> ops; int n=r.irange(1,opts().tier=="thorough"?120:60), kind=r.irange(0,3); double lo=std::is_signed<T>::value||std::is_floating_point<T>::value?-(double)(kind==0?2:kind==1?20:kind==2?100:100):0; if(r.chance(.2)&&std::is_integral<T>::value) lo=(double)std::numeric_limits<T>::lowest(); T last=(T)lo; olast=last; double ppush=.4+.4*r.real();
  for(int i=0;i<n||!q.empty();i++){ QOp o; o.z=o.kz=(double)last; o.id=0; bool push=q.empty()?i<n:(i<n&&r.chance(ppush)); if(q.empty()&&!push) break;
    if(push){ o.o="push"; T z=rkey<T>(r,(double)last,kind); o.z=o.kz=(double)z; q.push(z); o.res=q.size(); }
    else { int w=r.irange(0,9); if(w==0){ o.o="min"; o.kz=(double)q.min(); o.res=q.size(); } else if(w==1){ o.o="top"; last=q.top(); o.kz=(double)last; o.res=q.size(); } else if(w==2&&r.chance(.4)){ o.o="clear"; q.clear(); o.res=q.size(); last=r.chance(.7)?(T)lo:last; } else if(w==3&&r.chance(.5)){ o.o="swap"; q.swap(other); std::swap(last,olast); o.res=q.size(); } else { o.o="pop"; last=q.top(); o.kz=(double)last; q.pop(); o.res=q.size(); } }
    ops.push_back(o); if(q.empty()&&i>=n&&!other.empty()){ QOp u; u.o="swap"; u.z=u.kz=(double)last; u.id=0; q.swap(other); std::swap(last,olast); u.res=q.size(); ops.push_back(u); } }
  return qjson(id,"radix",tn,ops,{}); }
template<class T> std::string gorp(int id,Rng&r,const char*tn){
  radix_heap::pair_radix_heap<T,uint64_t> q,other; T olast; std::vector<QOp> ops; int n=r.irange(1,opts().tier=="thorough"?120:60), kind=r.irange(0,3),next=1; double lo=std::is_signed<T>::value||std::is_floating_point<T>::value?-(double)(kind==0?2:kind==1?20:kind==2?100:100):0; if(r.chance(.2)&&std::is_integral<T>::value) lo=(double)std::numeric_limits<T>::lowest(); T last=(T)lo; olast=last; double ppush=.4+.4*r.real();
  for(int i=0;i<n||!q.empty();i++){ QOp o; o.z=o.kz=(double)last; o.id=0; bool push=q.empty()?i<n:(i<n&&r.chance(ppush)); if(q.empty()&&!push) break;
    if(push){ o.o="push"; T z=rkey<T>(r,(double)last,kind); o.z=o.kz=(double)z; o.id=next++; if(r.chance(.5)) q.push(z,(uint64_t)o.id); else q.emplace(z,o.id); o.res=q.size(); }
    else { int w=r.irange(0,9); if(w==0){ o.o="min"; o.kz=(double)q.min_key(); o.res=q.size(); } else if(w==1){ o.o="top"; last=q.top_key(); o.kz=(double)last; o.id=q.top_value(); o.res=q.size(); } else if(w==2&&r.chance(.5)){ o.o="swap"; q.swap(other); std::swap(last,olast); o.res=q.size(); } else if(w==3&&r.chance(.4)){ o.o="clear"; q.clear(); o.res=q.size(); last=r.chance(.7)?(T)lo:last; }
      else if(w==4){ o.o="popall"; last=q.top_key(); o.kz=(double)last; if(r.chance(.5)){ auto v=q.extract_top_values(); for(auto&e: v) o.ids.push_back(e.second); } else { o.o="droplow"; q.pop_top_values(); } o.res=q.size(); } else { o.o="pop"; last=q.top_key(); o.kz=(double)last; o.id=q.top_value(); q.pop(); o.res=q.size(); } }
    ops.push_back(o); if(q.empty()&&i>=n&&!other.empty()){ QOp u; u.o="swap"; u.z=u.kz=(double)last; u.id=0; q.swap(other); std::swap(last,olast); u.res=q.size(); ops.push_back(u); } }
  return qjson(id,"radixpair",tn,ops,{}); }

static std::string queues(int id,Rng&r){
  switch(id%12){
    case 0: return goq<GridCellZ_pq<double>,double>(id,r,"any","double",true);
    case 1: return goq<GridCellZ_pq<float>,float>(id,r,"any","float",true);
    case 2: return goq<GridCellZ_pq<int>,int>(id,r,"any","int",false);
    case 3: return goq<GridCellZk_low_pq<double>,double>(id,r,"fifo","double",true);
    case 4: return goq<GridCellZk_low_pq<float>,float>(id,r,"fifo","float",true);
    case 5: return goq<GridCellZk_low_pq<int16_t>,int16_t>(id,r,"fifo","int16",false);
    case 6: return goq<GridCellZk_high_pq<double>,double>(id,r,"lifo","double",true);
    case 7: return r.chance(.5)?goq<GridCellZk_high_pq<uint8_t>,uint8_t>(id,r,"lifo","uint8",false):goq<GridCellZk_high_pq<float>,float>(id,r,"lifo","float",true);
    case 8: switch(r.irange(0,4)){ case 0: return gor<int>(id,r,"int32"); case 1: return gor<uint16_t>(id,r,"uint16"); case 2: return gor<int8_t>(id,r,"int8"); case 3: return gor<uint32_t>(id,r,"uint32"); default: return gor<int16_t>(id,r,"int16"); }
    case 9: return r.chance(.5)?gor<float>(id,r,"float"):gor<double>(id,r,"double");
    case 10: switch(r.irange(0,4)){ case 0: return gorp<int>(id,r,"int32"); case 1: return gorp<uint8_t>(id,r,"uint8"); case 2: return gorp<int64_t>(id,r,"int64"); case 3: return gorp<uint32_t>(id,r,"uint32"); default: return gorp<int16_t>(id,r,"int16"); }
    default: return r.chance(.5)?gorp<float>(id,r,"float"):gorp<double>(id,r,"double"); } }

// ---- disjoint sets ---------------------------------------------------------
static std::string djset(int id,Rng&r){
  int n0=r.irange(0,6), top=r.irange(2,opts().tier=="thorough"?16:9); DisjointDenseIntSet d; if(r.chance(.5)) d=DisjointDenseIntSet(n0); else { n0=0; }
  int size=n0; std::vector<std::string> ops; int n=r.irange(2,opts().tier=="thorough"?40:22); double pm=r.real();
  for(int i=0;i<n;i++){ int a=r.irange(0,top),b=r.irange(0,top); std::string o; long long res=-1; bool err=false; int k=r.irange(0,9);
    try { if(k<4){ if(r.chance(pm)){ o="merge"; d.mergeAintoB(a,b); size=std::max(size,std::max(a,b)+1); } else { o="union"; d.unionSet(a,b); } }
      else if(k==4){ o="make"; d.makeSet(a); size=std::max(size,a+1); }
      else if(k<=6){ o="find"; res=d.findSet(a); }
      else if(k==7&&size>0){ o="max"; res=d.maxElement(); }
      else { o="same"; res=d.sameSet(a,b); } } catch(const std::runtime_error&){ err=true; }
    DisjointDenseIntSet t=d; std::vector<int> rep; for(int x=0;;x++){ try{ rep.push_back((int)t.findSet(x)); }catch(const std::runtime_error&){ break; } }
    Json j; j.s("o",o).i("a",a).i("b",b).i("res",res).b("err",err).a("rep",rep); ops.push_back(j.str()); }
  Json j; j.i("id",id).i("n",n0).raw("ops",jraw(ops)); return j.str(); }

// ---- layout files ----------------------------------------------------------
static std::vector<int> codes(const std::string&s){ std::vector<int> v; for(unsigned char c: s) v.push_back(c); return v; }
static std::string rname(Rng&r,bool blanks){ static const char* names[]={"a","b.tif","tile_1.tif","x.y.tif","d/e.tif","d.e/f","name with space.tif",".hid","z."}; std::string s=names[r.irange(0,8)]; if(blanks){ s=std::string(r.irange(0,2),' ')+s+std::string(r.irange(0,2),' '); } return s; }
static std::string layout(int id,Rng&r){
  std::string dir=opts().dir+"/lay_"+std::to_string(id)+(r.chance(.3)?".d":""); mkdir(dir.c_str(),0777); std::string fn=dir+"/grid"+(r.chance(.8)?".layout":""); std::string text; bool written=r.chance(.5);
  int h=r.irange(1,4),w=r.irange(1,4); std::vector<std::string> wr; double gap=r.real();
  if(written){ LayoutfileWriter lw(fn); for(int y=0;y<h;y++){ lw.addRow(); for(int x=0;x<w;x++){ std::string nm=r.chance(gap)?"":rname(r,false); if(r.chance(.3)&&nm.size()) nm="some/dir/"+nm; lw.addEntry(nm); wr.push_back(jarr(codes(nm))); } } }
  else { for(int y=0;y<h;y++){ int len=r.chance(.15)?r.irange(0,5):w; for(int x=0;x<len;x++){ if(x) text+=","; if(!r.chance(gap*.5)) text+=rname(r,true); else text+=std::string(r.irange(0,2),' '); } if(r.chance(.15)) text+=","; if(y<h-1||r.chance(.8)) text+="\n"; } std::ofstream f(fn); f<<text; }
  { std::ifstream f(fn); std::stringstream ss; ss<<f.rdbuf(); text=ss.str(); }
  std::vector<std::string> ev; bool err=false;
  Json pj; pj.i("id",id).a("text",codes(text)); pre(pj.str());
  try { std::string rel=fn; LayoutfileReader lr(rel); int guard=0; while(lr.next()&&guard++<200){ Json e; e.a("name",codes(lr.getFilename())).a("base",codes(lr.getBasename())).i("x",lr.getX()).i("y",lr.getY()).b("row",lr.newRow()).b("gap",lr.isNullTile()).b("full",lr.getFullPath()==dir+"/"+lr.getFilename()&&lr.getPath()==dir+"/").b("loc",lr.getGridLocName()==std::to_string(lr.getX())+"_"+std::to_string(lr.getY())); ev.push_back(e.str()); } } catch(const std::runtime_error&){ err=true; }
  unlink(fn.c_str()); rmdir(dir.c_str());
  Json j; j.i("id",id).b("written",written).i("w",w).i("h",h).raw("wrote",jraw(wr)).a("text",codes(text)).b("err",err).raw("ev",jraw(ev)); return j.str(); }

// ---- LRU -------------------------------------------------------------------
static std::string lru(int id,Rng&r){
  LRU<int> l; std::vector<std::string> ops; int cap=-1; int n=r.irange(2,opts().tier=="thorough"?40:20), keys=r.irange(1,5);
  for(int i=0;i<n;i++){ int k=r.irange(0,9),v=0; std::string o; long long res=-1; int a=r.irange(0,keys);
    if(k<6){ o="insert"; v=a; l.insert(a); } else if(k==6&&l.size()>0){ o="pop"; res=l.back(); l.pop_back(); } else if(k==7){ o="cap"; cap=r.irange(0,4); v=cap; l.setCapacity(cap); } else if(k==8){ o="prune"; l.prune(); } else { o="state"; }
    std::vector<int> c(l.cache.begin(),l.cache.end()); Json j; j.s("o",o).i("v",v).i("res",res).a("list",c).i("size",l.size()).b("full",l.full()).i("cap",l.getCapacity()); ops.push_back(j.str()); }
  Json j; j.i("id",id).raw("ops",jraw(ops)); return j.str(); }

int main(int c,char**v){ return vt_main(c,v,[](int id,Rng&r)->std::string{ std::string m=opts().rest.at(0); if(m=="queue") return queues(id,r); if(m=="djset") return djset(id,r); if(m=="layout") return layout(id,r); return lru(id,r); }); }
