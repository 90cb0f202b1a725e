// Recorder for depression breaching.
#include "common.hpp"
#include <richdem/common/Array2D.hpp>
#include <richdem/depressions/Lindsay2016.hpp>
using namespace richdem;
using namespace vt;
template<class T> std::vector<double> vec(const Array2D<T>&a){ std::vector<double> v; cells(a,[&](int x,int y){ v.push_back((double)a(x,y)); }); return v; }

// one pit, a rising basin around it, and a rim somewhere before falling ground
static Dem one_pit(Rng&r,bool distinct){
  Dem d; d.kind="onepit"; d.w=r.irange(6,11); d.h=r.irange(6,11); int px=r.irange(2,d.w-3),py=r.irange(2,d.h-3); int rim=r.irange(1,4); int slope=r.irange(1,4);
  d.z.resize(d.w*d.h);
  for(int y=0;y<d.h;y++)for(int x=0;x<d.w;x++){ int dist=std::max(std::abs(x-px),std::abs(y-py)); int v= dist<=rim? dist*slope : rim*slope-(dist-rim)*3; d.z[y*d.w+x]=v+40; }
  if(distinct){ // all at different heights; still mostly a single pit
    const int n=d.w*d.h; std::vector<int> p(n); for(int i=0;i<n;i++) p[i]=i; for(int i=n;i>1;i--) std::swap(p[i-1],p[r.next()%i]); bool rough=r.chance(.5);
    for(int y=0;y<d.h;y++)for(int x=0;x<d.w;x++){ int i=y*d.w+x, away=(std::abs(x-px)+std::abs(y-py)); int q=rough?p[i]:(std::max(std::abs(x-px),std::abs(y-py))<=rim?away*8+p[i]%8:120-away*8+p[i]%8); d.z[i]=d.z[i]*n+std::max(0,std::min(n-1,q)); }
    std::set<int> used; for(auto&v: d.z) while(!used.insert(v).second) v++; }
  else if(r.chance(.6)) for(auto&v:d.z) v=v*4+r.irange(0,2);
  return d;
}
// how deep one has to dig, at the highest place, to let some pit drain (-1: there is none)
static int needed(const Dem&d,const std::vector<char>&nd,Rng&r){
  const int w=d.w,h=d.h,n=w*h; auto nbs=[&](int i){ std::vector<int> v; for(int q=0;q<9;q++){ int x=i%w+q%3-1,y=i/w+q/3-1; if(q!=4&&x>=0&&y>=0&&x<w&&y<h) v.push_back(y*w+x); } return v; };
  auto out=[&](int i){ if(nbs(i).size()<8) return true; for(int q: nbs(i)) if(nd[q]) return true; return false; };
  std::vector<int> pits; for(int i=0;i<n;i++) if(!nd[i]&&!out(i)){ bool low=true; for(int q: nbs(i)) low=low&&d.z[q]>=d.z[i]; if(low) pits.push_back(i); }
  if(pits.empty()) return -1;
  const int p=r.pick(pits); int lo=1<<30; for(int q: nbs(p)) lo=std::min(lo,d.z[q]);
  std::vector<int> top(n,1<<30); top[p]=std::max(d.z[p],lo); bool more=true; int sill=1<<30;
  while(more){ more=false; for(int i=0;i<n;i++) if(top[i]<(1<<30)) for(int q: nbs(i)) if(!nd[q]){ const int t=std::max(top[i],d.z[q]); if(t<top[q]){ top[q]=t; more=true; } } }
  for(int i=0;i<n;i++) if(!nd[i]&&out(i)) sill=std::min(sill,top[i]);
  return sill==1<<30?-1:sill-std::max(lo,d.z[p]); }
// representable steps from b up to a
static long long key(float v){ int32_t i; memcpy(&i,&v,4); return i<0?-(long long)(i&0x7fffffff):i; }
static long long key(double v){ int64_t i; memcpy(&i,&v,8); return i<0?-(long long)(i&0x7fffffffffffffffll):i; }
template<class T> long long key(T v){ return (long long)v; }
template<class T> std::string go(int id,Rng&r,const char*tn,int maxs){
  const bool distinct=r.chance(.35); Dem d= distinct||r.chance(.3)?one_pit(r,distinct):gen_dem(r,maxs); int w=d.w,h=d.h;
  std::vector<char> nd(w*h,0); if(r.chance(distinct?.1:.25)) for(int k=r.irange(1,4);k>0;k--) nd[r.next()%(w*h)]=1;
  vast_frame(r,d,nd); w=d.w; h=d.h;
  // (elevations lie about a base, recorded ones are relative to it)
  const bool wide=sizeof(T)==8||(std::is_integral<T>::value&&sizeof(T)==4);
  long long base= sizeof(T)==2? (r.chance(.5)?-30000:0) : wide&&r.chance(.5)? r.pick(std::vector<long long>{1000000000,-1000000000,16777217,-40000}) : r.chance(.3)?-30000:0;
  T ndv= sizeof(T)==2?(T)-32768: base<0?(T)-2000000000:(T)-9999; Array2D<T> z(w,h); z.setNoData(ndv);
  for(int i=0;i<w*h;i++) z(i)= nd[i]?ndv:(T)(base+d.z[i]);
  std::string mode; int topo=8; bool eps=false,fill=false; int ml=0,mdep=0; int m=r.irange(0,4);
  ml=r.chance(.1)?500:r.irange(0,8); mdep=r.chance(.2)?9999:r.irange(0,20); if(distinct) mdep=r.chance(.1)?30000:r.chance(.5)?std::abs(d.z[r.next()%(w*h)]-d.z[r.next()%(w*h)]):r.irange(0,2000);
  if(r.chance(.35)){ const int q=needed(d,nd,r); if(q>0) mdep=std::max(0,q+r.pick(std::vector<int>{-1,0,0,0,1})); }   // just enough, or not
  if(sizeof(T)==2) mdep=std::min(mdep,2000);
  eps= std::is_floating_point<T>::value && r.chance(.4); fill=r.chance(distinct?.25:.5);
  Array2D<T> a=z; lay(a,ndv); auto rec=[&](const char*mm){ mode=mm; Json j; j.s("mode",mm).i("topo",topo).i("w",w).i("h",h).i("ml",ml).i("mdep",mdep).b("eps",eps).b("fill",fill).s("type",tn).i("base",base).a("z",d.z).a("nd",nd); pre(j.str()); };
  if(m==0){ eps=fill=false; topo=r.chance(.5)?8:4; rec("complete"); if(topo==8) CompleteBreaching_Lindsay2016<Topology::D8>(a); else CompleteBreaching_Lindsay2016<Topology::D4>(a); }
  else if(m==1){ rec("complete"); Lindsay2016<T>(a,LindsayMode::COMPLETE_BREACHING,eps,fill,ml,(T)mdep); fill=false; }
  else if(m<=3){ rec("selective"); Lindsay2016<T>(a,LindsayMode::SELECTIVE_BREACHING,eps,fill,ml,(T)mdep); }
  else { rec("constrained"); Lindsay2016<T>(a,LindsayMode::CONSTRAINED_BREACHING,eps,fill,ml,(T)mdep); }
  if(laid(a)){ Array2D<T> b(w,h); b.setNoData(ndv); int i=0; cells(a,[&](int x,int y){ b(i++)=a(x,y); }); a=b; } else if(vast().on) throw std::runtime_error("another size");
  // integers when nothing fractional happened, ranks otherwise
  std::vector<int> jz,jo,oi,os;
  for(int i=0;i<w*h;i++){ if(nd[i]){ const bool same=a(i)==ndv; oi.push_back(same?-5:5); os.push_back(0); continue; } long long q=std::llround((long double)a(i)); oi.push_back((int)std::max(-2000000ll,std::min(2000000ll,q-base))); os.push_back((int)std::max(-30000ll,std::min(30000ll,key((T)q)-key(a(i))))); }
  if(eps){ Ranker R; std::vector<double> zb=vec(z),o=vec(a); R.add(zb); R.add(o); R.done(); jz=R(zb); jo=R(o); }
  else { for(int i=0;i<w*h;i++) jz.push_back(nd[i]?-5:d.z[i]); for(int i=0;i<w*h;i++) if(os[i]) throw std::runtime_error("fractional elevation without epsilon"); jo=oi; }
  std::vector<int> zi; for(int i=0;i<w*h;i++) zi.push_back(nd[i]?-5:d.z[i]);
  Json j; j.i("id",id).s("kind",d.kind).s("type",tn).s("mode",mode).i("topo",topo).i("w",w).i("h",h).i("ml",ml).i("mdep",mdep).b("eps",eps).b("fill",fill).a("z",jz).a("nd",nd).a("out",jo).a("zi",zi).a("oi",oi).a("os",os);
  return j.str();
}
int main(int c,char**v){ return vt_main(c,v,[](int id,Rng&r){ int ms=opts().tier=="thorough"?16:11; switch(id%7){ case 0: case 3: return go<int32_t>(id,r,"int32",ms); case 1: case 4: return go<float>(id,r,"float",ms); case 6: return go<int16_t>(id,r,"int16",ms); default: return go<double>(id,r,"double",ms); } },40,499); }
