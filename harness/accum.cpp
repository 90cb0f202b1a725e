// Recorder for flow accumulation over flow proportions.
#include "common.hpp"
#include <richdem/common/Array2D.hpp>
#include <richdem/common/Array3D.hpp>
#include <richdem/methods/flow_accumulation.hpp>
using namespace richdem;
using namespace vt;
static const int DX[]={0,-1,-1,0,1,1,1,0,-1}, DY[]={0,0,-1,-1,-1,0,1,1,1};
template<class A> std::vector<long long> scaled(const Array2D<A>&a){ std::vector<long long> v; cells(a,[&](int x,int y){ double q=(double)a(x,y); v.push_back(q>=-1e6&&q<=1e8?(long long)std::llround(q*16):-1999999999ll); }); return v; }
static const double B=1073741824.0; // values of whole flows are lo+B*hi: beyond what a float holds
template<class A> std::vector<long long> highs(const Array2D<A>&a){ std::vector<long long> v; cells(a,[&](int x,int y){ double q=(double)a(x,y),h=q<B/2?0:std::floor(q/B); v.push_back(h>=0&&h<1e8?(long long)h:-7); }); return v; }
template<class A> std::vector<long long> lows(const Array2D<A>&a){ Array2D<double> t(a.width(),a.height()); for(int y=0;y<a.height();y++)for(int x=0;x<a.width();x++){ double q=(double)a(x,y); t(x,y)=q<B/2?q:q-B*std::floor(q/B); } return scaled(t); }
static std::vector<long long> shares(const Array3D<float>&p){ std::vector<long long> v; cells(p,[&](int x,int y){ v.push_back((long long)p(x,y,0)); for(int n=1;n<9;n++){ float s=p(x,y,n); v.push_back(s>0?std::max(1ll,(long long)std::llround(s*4096.0)):0);} }); return v; }
template<class A> bool refuses(const Array3D<float>&p){ Array2D<A> b(p.width()+1,p.height(),1); try{ FlowAccumulation(p,b); }catch(const std::runtime_error&){ Array2D<A> c(p.width(),p.height()+1,1); try{ FlowAccumulation(p,c);}catch(const std::runtime_error&){ return true; } } return false; }

template<class A> std::string dag(int id,Rng&r,const char*tn,int maxs,bool whole){
  int w,h; sides(r,w,h,maxs); std::vector<int> rank(w*h); for(int i=0;i<w*h;i++) rank[i]=i;
  int k=r.irange(0,3); if(k==0) for(size_t i=rank.size();i>1;i--) std::swap(rank[i-1],rank[r.next()%i]); else if(k==1) std::reverse(rank.begin(),rank.end()); else if(k==2) for(int y=0;y<h;y++) if(y%2) std::reverse(rank.begin()+y*w,rank.begin()+(y+1)*w);
  Array3D<float> p(w,h,-1.f); p.setNoData(-2); bool edges=r.chance(.5); double pf=r.pick(std::vector<double>{.2,.6,1});
  for(int y=0;y<h;y++)for(int x=0;x<w;x++){ bool e=x==0||y==0||x==w-1||y==h-1; if(r.chance(.05)){ p(x,y,0)=-2; continue; } if(e&&!edges) continue;
    std::vector<int> c; for(int n=1;n<=8;n++){ int a=x+DX[n],b=y+DY[n]; if(a<0||b<0||a>=w||b>=h) continue; if(rank[b*w+a]<rank[y*w+x]&&r.chance(pf)) c.push_back(n); }
    if(c.empty()) continue; std::vector<int> s(9,0); if(whole) s[r.pick(c)]=8; else for(int q=0;q<8;q++) s[r.pick(c)]++;
    p(x,y,0)=0; for(int n=1;n<=8;n++) p(x,y,n)= s[n]? s[n]/8.f : (r.chance(.5)?0.f:-1.f); }
  Array2D<A> a(w,h); std::vector<int> wt; int wm=r.irange(0,3); for(int i=0;i<w*h;i++){ int v=wm==0?1:r.irange(0,wm*3); wt.push_back(v); a(i)=v; }
  std::vector<int> wh(w*h,0); bool high=whole&&std::is_same<A,double>::value&&r.chance(.6); if(high) for(int i=0;i<w*h;i++){ wh[i]=r.chance(.5)?r.irange(0,9):r.chance(.5)?0:r.irange(0,200000); a(i)=(A)(wt[i]+B*wh[i]); }
  if(vast().want){ for(int y=0;y<h;y++)for(int x=0;x<w;x++) if(x==0||y==0||x==w-1||y==h-1) p(x,y,0)=-2; vast_frame(r,w,h); Array3D<float> q(vast().W,vast().H,-1.f); q.setNoData(-2); for(int y=0;y<(int)q.height();y++)for(int x=0;x<(int)q.width();x++) q(x,y,0)=-2; for(int y=0;y<h;y++)for(int x=0;x<w;x++)for(int n=0;n<9;n++) q(vast().x+x,vast().y+y,n)=p(x,y,n); p=q; lay(a,(A)1); }
  Json j; j.i("id",id).s("mode","dag").s("type",tn).i("w",w).i("h",h).a("p",shares(p)).a("wt",wt); pre(j.str());
  FlowAccumulation(p,a); if(high) j.a("wh",wh).a("acch",highs(a)); else j.raw("wh","[]").raw("acch","[]"); j.a("acc",high?lows(a):scaled(a)).i("accnd",(long long)a.noData()).b("same",true).b("refused",refuses<A>(p)); return j.str();
}
template<class A> std::string metric(int id,Rng&r,const char*tn,int maxs,bool whole){
  Dem d=gen_dem(r,maxs); int w=d.w,h=d.h; Array2D<float> e(w,h); e.setNoData(-9999); bool nd=r.chance(.4); for(int i=0;i<w*h;i++) e(i)=nd&&r.chance(.08)?-9999:d.z[i];
  Array2D<A> a(w,h),b; std::vector<int> wt; int wm=r.irange(0,2); for(int i=0;i<w*h;i++){ int v=wm==0?1:r.irange(0,2); wt.push_back(v); a(i)=v; } b=a;
  Array3D<float> p(e); int m=whole?r.irange(0,3):r.irange(0,9); double x=r.pick(std::vector<double>{.5,1,1.1,3}); std::string nm; bool alt=r.chance(.5);
  auto go=[&](const char*n,auto fm,auto fa){ nm=n; { Json j; j.i("w",w).i("h",h).s("metric",nm).a("z",d.z); pre(j.str()); } seed_rand(7); fm(); seed_rand(7); fa(); };
  switch(m){
    case 0: go("d8",[&]{FM_D8(e,p);},[&]{alt?FA_D8(e,b):FA_OCallaghanD8(e,b);}); break;
    case 1: go("d4",[&]{FM_D4(e,p);},[&]{alt?FA_D4(e,b):FA_OCallaghanD4(e,b);}); break;
    case 2: go("rho8",[&]{FM_Rho8(e,p);},[&]{alt?FA_Rho8(e,b):FA_FairfieldLeymarieD8(e,b);}); break;
    case 3: go("rho4",[&]{FM_Rho4(e,p);},[&]{alt?FA_Rho4(e,b):FA_FairfieldLeymarieD4(e,b);}); break;
    case 4: case 8: go("freeman",[&]{FM_Freeman(e,p,x);},[&]{FA_Freeman(e,b,x);}); break;
    case 5: case 9: go("holmgren",[&]{FM_Holmgren(e,p,x);},[&]{FA_Holmgren(e,b,x);}); break;
    case 6: go("quinn",[&]{FM_Quinn(e,p);},[&]{FA_Quinn(e,b);}); break;
    default: go("dinf",[&]{FM_Tarboton(e,p);},[&]{alt?FA_Tarboton(e,b):FA_Dinfinity(e,b);}); }
  FlowAccumulation(p,a); bool same=true; for(int i=0;i<w*h;i++) if(!(a(i)==b(i))) same=false; if(a.noData()!=b.noData()) same=false;
  Json j; j.i("id",id).s("mode","metric").s("metric",nm).s("type",tn).i("w",w).i("h",h).a("p",shares(p)).a("wt",wt).raw("wh","[]").raw("acch","[]").a("acc",scaled(a)).i("accnd",(long long)a.noData()).b("same",same).b("refused",refuses<A>(p)); return j.str();
}
int main(int c,char**v){ return vt_main(c,v,[](int id,Rng&r){ int ms=opts().tier=="thorough"?18:(id%20==0?16:9); int t=r.irange(0,4); bool d=id%2;
  if(t==0) return d?dag<int32_t>(id,r,"int32",ms,true):metric<int32_t>(id,r,"int32",ms,true);
  if(t==1) return d?dag<float>(id,r,"float",ms,false):metric<float>(id,r,"float",ms,false);
  return d?dag<double>(id,r,"double",ms,t==2):metric<double>(id,r,"double",ms,false); },40,499); }
