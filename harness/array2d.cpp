// Recorder: random histories of operations on raster containers (Array2D,
// Array3D) and on the memory wrapper underneath (ManagedVector).  Everything
// observable is recorded after every operation.
#include "common.hpp"
#include <new>
#include <type_traits>
#include <richdem/common/Array2D.hpp>
#include <richdem/common/Array3D.hpp>
#include <richdem/common/ManagedVector.hpp>
using namespace richdem;
using namespace vt;

// ---- allocator that watches what is freed ---------------------------------
struct alignas(16) Hdr { size_t n; uint64_t magic; };
static const uint64_t LIVE=0x11FE11FE11FE11FEull, DEAD=0xDEADDEADDEADDEADull;
static bool watching=false; static int badfrees=0, live=0; static std::vector<void*>* quarantine;
static char *bufp[2]; static const size_t BUFBYTES=16*9*8;
static void* get(size_t n,bool arr){ Hdr*h=(Hdr*)malloc(sizeof(Hdr)+n); if(!h) abort(); h->n=n; h->magic=LIVE^(arr?1:0); if(watching&&arr&&n) live++; return h+1; }
static void put(void*p,bool arr){ if(!p) return;
  for(char*b: bufp) if(b && (char*)p>=b && (char*)p<b+BUFBYTES){ badfrees++; return; }
  Hdr*h=(Hdr*)p-1;
  if(h->magic==DEAD){ badfrees++; return; }
  if((h->magic&~1ull)!=(LIVE&~1ull)) { badfrees++; return; }
  bool warr=h->magic!=LIVE; if(watching&&warr&&h->n) live--;
  if(watching){ h->magic=DEAD; memset(p,0x6B,h->n); static void* q[4096]; static int k=0; void*&s=q[k++%4096]; if(s) free(s); s=h; return; } // kept for a while: later use shows
  free(h); }
void* operator new(size_t n){ return get(n,false); }
void* operator new[](size_t n){ return get(n,true); }
void operator delete(void*p) noexcept { put(p,false); }
void operator delete[](void*p) noexcept { put(p,true); }
void operator delete(void*p,size_t) noexcept { put(p,false); }
void operator delete[](void*p,size_t) noexcept { put(p,true); }

static const int BIG=2000000000;
template<class T> long long num(T v){ if(std::is_floating_point<T>::value && !(std::abs((double)v)<1e9)) return v>0?BIG:-BIG; if((double)v>1e9) return BIG; if((double)v<-1e9) return -BIG; return (long long)v; }
template<class V> std::vector<long long> nums(const V&v){ std::vector<long long> r; for(auto e: v) r.push_back(num(e)); return r; }

struct Op { std::string o; int a=0,b=0; std::vector<long long> p; std::vector<long long> res; bool err=false; };

template<class T> std::string go2(int id,Rng&r,const char*tn){
  typedef Array2D<T> A; typedef typename std::conditional<std::is_same<T,int32_t>::value,double,int32_t>::type U;
  static T bufs[2][16]; bufp[0]=(char*)bufs[0]; bufp[1]=(char*)bufs[1];
  std::vector<std::string> steps; const int NR=4, lim=opts().tier=="thorough"?40:24;
  for(auto&b: bufs) for(auto&v: b) v=(T)r.irange(0,9);
  std::vector<long long> b0; for(auto&b: bufs) for(auto&v: b) b0.push_back(num(v));
  live=0; badfrees=0; int endlive;
  auto val=[&]{ return (long long)(r.chance(.2)?num((T)-1):r.irange(0,9)); };
  auto dim=[&](int&w,int&h,bool foreign){ w=r.irange(1,5); h=r.irange(1,5); while(foreign&&w*h>16){ w=r.irange(1,5); h=r.irange(1,5);} };
  {
    A* reg[NR]; for(auto&p: reg) p=new A(); bool full[NR]={0},dead[NR]={0};
    for(int n=r.irange(6,lim);n>0;n--){
      Op op; int a=r.irange(0,NR-1), b=r.irange(0,NR-1); op.a=a+1; op.b=b+1; int w,h; long long v=val(); A&R=*reg[a];
      int k=r.irange(0,39); { int nf=0; for(bool f: full) nf+=f; if(nf<2) k=r.irange(0,2); }
      watching=true; T tv=(T)v;
      try {
        if(k==0){ dim(w,h,false); op.o="new"; op.p={w,h,v}; delete reg[a]; reg[a]=new A(w,h,tv); full[a]=true; dead[a]=false; }
        else if(k==1){ op.o="list"; op.p={3,2}; std::vector<T> z; for(int i=0;i<6;i++){ long long q=val(); z.push_back((T)q); op.p.push_back(q);} delete reg[a]; reg[a]=new A({{z[0],z[1],z[2]},{z[3],z[4],z[5]}}); full[a]=true; dead[a]=false; }
        else if(k==2||k==3){ dim(w,h,true); int f=r.irange(0,1); op.o="wrap"; op.p={w,h,f+1}; if(r.chance(.5)||dead[a]){ delete reg[a]; reg[a]=new A(bufs[f],w,h);} else R=A(bufs[f],w,h); full[a]=true; dead[a]=false; }
        else if((k>=4&&k<=6)&&!dead[b]){ op.o="copy"; if(r.chance(.5)||a==b) R=*reg[b]; else { delete reg[a]; reg[a]=new A(*reg[b]); } full[a]=full[b]; dead[a]=false; }
        else if((k==7||k==8)&&!dead[b]&&a!=b){ op.o="move"; if(r.chance(.5)) R=std::move(*reg[b]); else { delete reg[a]; reg[a]=new A(std::move(*reg[b])); } full[a]=full[b]; full[b]=false; dead[b]=true; dead[a]=false; }
        else if(k==9&&!dead[b]&&a!=b&&reg[b]->width()>0){ op.o="template"; op.p={v}; Array2D<U> t(*reg[b],(U)7); int q=r.irange(0,2); if(q==0){ delete reg[a]; reg[a]=new A(t,tv);} else if(q==1) R=A::make_from_template(*reg[b],tv); else R=A::make_from_template(t,tv); full[a]=true; dead[a]=false; }
        else if(k==10&&!dead[a]){ dim(w,h,!R.owned()); if(!R.owned()&&r.chance(.5)){ w=R.height(); h=R.width(); } op.o="resize"; op.p={w,h,v}; R.resize(w,h,tv); full[a]=true; }
        else if(k==11&&!dead[a]&&!dead[b]&&reg[b]->width()>0){ op.o="resizelike"; op.p={v}; R.resize(*reg[b],tv); full[a]=true; }
        else if((k==12||k==13)&&full[a]&&R.width()<6&&R.height()<6){ w=R.width()+r.irange(-1,2); h=R.height()+r.irange(-1,2); w=std::max(w,1); h=std::max(h,1); op.o="expand"; op.p={w,h,v}; R.expand(w,h,tv); }
        else if(k==14&&full[a]){ op.o="flipvert"; R.flipVert(); }
        else if(k==15&&full[a]){ op.o="fliphorz"; R.flipHorz(); }
        else if(k==16&&full[a]){ op.o="transpose"; R.transpose(); }
        else if(k==17&&!dead[a]){ op.o="nodata"; op.p={v}; R.setNoData(tv); }
        else if(k==18&&full[a]){ op.o="setall"; op.p={v}; R.setAll(tv); }
        else if(k==19&&full[a]){ long long q=val(); op.o="replace"; op.p={q,v}; R.replace((T)q,tv); }
        else if(k==20&&full[a]){ bool small=true; for(unsigned i=0;i<R.size();i++) small=small&&std::abs((double)R(i))<30; if(!small) { watching=false; continue; } int q=r.irange(0,3); op.o="scale"; op.p={q}; R.scale(q); }
        else if(k==21&&full[a]){ int y=r.irange(0,R.height()-1); op.o="setrow"; op.p={y,v}; R.setRow(y,tv); }
        else if(k==22&&full[a]){ int x=r.irange(0,R.width()-1); op.o="setcol"; op.p={x,v}; R.setCol(x,tv); }
        else if(k==23&&full[a]){ op.o="setedges"; op.p={v}; R.setEdges(tv); }
        else if(k>=24&&k<=27&&full[a]){ int x=r.irange(0,R.width()-1),y=r.irange(0,R.height()-1); op.o="set"; op.p={x,y,v}; int q=r.irange(0,2); if(q==0) R(x,y)=tv; else if(q==1) R(y*R.width()+x)=tv; else R.data()[y*R.width()+x]=tv; }
        else if(k==28&&!dead[a]){ op.o="clear"; R.clear(); full[a]=false; }
        else if(k==29){ op.o="destroy"; delete reg[a]; reg[a]=new A(); full[a]=dead[a]=false; }
        else if(k==30||k==31){ int f=r.irange(0,1),i=r.irange(0,15); op.o="poke"; op.p={f+1,i,v}; bufs[f][i]=tv; }
        else if(k==32&&!dead[a]){ int g=r.irange(1,9); op.o="label"; op.p={g}; R.geotransform={{(double)g,1,0,0,0,-1}}; R.projection="p"+std::to_string(g); R.basename="b"+std::to_string(g); R.metadata["k"]=std::to_string(g); }
        else if(k==33&&!dead[a]&&!dead[b]){ op.o="templatecopy"; R.templateCopy(*reg[b]); }
        else if(k==34&&full[a]&&full[b]){ op.o="equal"; if(r.chance(.4)&&!reg[b]->empty()){} op.res={R==*reg[b]?1:0}; }
        else if(k==35&&full[a]){ op.o="count"; op.p={v}; op.res={(long long)R.countval(tv),(long long)R.numDataCells(),num(R.min()),num(R.max())}; }
        else if(k==36&&full[a]){ int y=r.irange(0,R.height()-1),x=r.irange(0,R.width()-1); op.o="rows"; op.p={x,y}; for(auto q: {R.topRow(),R.bottomRow(),R.leftColumn(),R.rightColumn(),R.getRowData(y),R.getColData(x)}) for(auto e: q) op.res.push_back(num(e)); }
        else if(k==37&&full[a]){ int y=r.irange(0,R.height()-1),x=r.irange(0,R.width()-1),dx=r.irange(-2,2),dy=r.irange(-2,2); op.o="look"; op.p={x,y,dx,dy}; unsigned i=R.xyToI(x,y); int qx,qy; R.iToxy(i,qx,qy);
          const unsigned NO=A::NO_I; auto io=[&](unsigned q)->long long{ return q==NO?-1:(long long)q; };
          op.res={(long long)i,qx,qy,io(R.nToI(i,dx,dy))}; for(int q=0;q<=8;q++) op.res.push_back(io(R.getN(i,q))); for(int q=0;q<=8;q++) op.res.push_back(R.nshift(q));
          for(bool q: {R.isNoData(x,y),R.isNoData(i),R.isData(x,y),R.isData(i),R.isEdgeCell(x,y),R.isEdgeCell(i),R.inGrid(x+dx,y+dy),R.isTopLeft(x,y),R.isTopRight(x,y),R.isBottomLeft(x,y),R.isBottomRight(x,y),R.isTopRow(x,y),R.isBottomRow(x,y),R.isLeftCol(x,y),R.isRightCol(x,y)}) op.res.push_back(q);
          const A&C=R; op.res.push_back(num(C(x,y))); op.res.push_back(num(C(i))); op.res.push_back(R.size()); }
        else { watching=false; n++; continue; }
      } catch(const std::runtime_error&e){ op.err=true; }
      watching=false;
      Json j; j.s("o",op.o).i("a",op.a).i("b",op.b).a("p",op.p).a("res",op.res).b("err",op.err);
      std::vector<std::string> S; for(int q=0;q<NR;q++){ const A&X=*reg[q]; Json s; s.b("dead",dead[q]); if(!dead[q]){ s.i("w",X.width()).i("h",X.height()).b("own",X.owned()).b("empty",X.empty()).i("nd",num(X.noData())).i("geo",X.geotransform.empty()?0:(long long)X.geotransform[0]).i("proj",X.projection.empty()?0:X.projection[1]-'0').i("base",X.basename.empty()?0:X.basename[1]-'0').i("meta",X.metadata.count("k")?X.metadata.at("k")[0]-'0':0); std::vector<long long> z; if(full[q]) for(unsigned i=0;i<X.size();i++) z.push_back(num(X.data()[i])); s.a("z",z);} S.push_back(s.str()); }
      std::vector<long long> B; for(auto&bb: bufs) for(auto&vv: bb) B.push_back(num(vv));
      j.raw("S",jraw(S)).a("B",B).i("bad",badfrees); steps.push_back(j.str());
    }
    watching=true; for(auto p: reg) delete p; watching=false; endlive=live;
  }
  Json j; j.i("id",id).s("mode","2d").s("type",tn).i("k",1).i("def",num((T)-1)).i("tmax",num(std::numeric_limits<T>::max())).i("tmin",num(std::numeric_limits<T>::lowest())).a("B",b0).raw("steps",jraw(steps)).i("endlive",endlive).i("endbad",badfrees);
  bufp[0]=bufp[1]=nullptr; return j.str();
}

template<class T> std::string go3(int id,Rng&r,const char*tn){
  typedef Array3D<T> A; static T bufs[2][16*9]; bufp[0]=(char*)bufs[0]; bufp[1]=(char*)bufs[1];
  for(auto&b: bufs) for(auto&v: b) v=(T)r.irange(0,9);
  std::vector<long long> b0; for(auto&b: bufs) for(auto&v: b) b0.push_back(num(v));
  std::vector<std::string> steps; const int NR=3; live=0; badfrees=0; int endlive;
  auto val=[&]{ return (long long)(r.chance(.2)?-1:r.irange(0,9)); };
  { A* reg[NR]; for(auto&p: reg){ p=new A(); p->setNoData((T)-1);} bool full[NR]={0};
    for(int n=r.irange(5,14);n>0;n--){ Op op; int a=r.irange(0,NR-1),b=r.irange(0,NR-1),w=r.irange(1,4),h=r.irange(1,3); op.a=a+1; op.b=b+1; long long v=val(); T tv=(T)v; A&R=*reg[a]; int k=r.irange(0,13); { int nf=0; for(bool f: full) nf+=f; if(nf<2) k=r.irange(0,1); }
      watching=true;
      try {
        if(k==0){ op.o="new"; op.p={w,h,v}; delete reg[a]; reg[a]=new A(w,h,tv); reg[a]->setNoData((T)-1); full[a]=true; }
        else if(k==1){ int f=r.irange(0,1); op.o="wrap"; op.p={w,h,f+1}; R=A(bufs[f],w,h); R.setNoData((T)-1); full[a]=true; }
        else if(k==2){ op.o="copy"; R=*reg[b]; full[a]=full[b]; }
        else if(k==3&&a!=b&&full[b]){ op.o="template"; op.p={v}; Array2D<int> t(*reg[b],3); if(r.chance(.5)) R=A(t,tv); else { Array3D<int16_t> u(*reg[b],4); R=A(u,tv);} R.setNoData((T)-1); full[a]=true; }
        else if(k==4){ op.o="resize"; op.p={w,h,v}; R.resize(w,h,tv); full[a]=true; }
        else if(k==5&&full[b]){ op.o="resizelike"; op.p={v}; R.resize(*reg[b],tv); full[a]=true; }
        else if(k==6){ op.o="nodata"; op.p={v}; R.setNoData(tv); }
        else if(k==7&&full[a]){ op.o="setall"; op.p={v}; R.setAll(tv); }
        else if(k<=9&&full[a]){ int x=r.irange(0,R.width()-1),y=r.irange(0,R.height()-1),m=r.irange(0,8); op.o="set3"; op.p={x,y,m,v}; if(r.chance(.5)) R(x,y,m)=tv; else R.getIN(y*R.width()+x,m)=tv; }
        else if(k==10){ op.o="clear"; R.clear(); full[a]=false; }
        else if(k==11&&full[a]&&full[b]){ op.o="equal3"; op.res={R==*reg[b]?1:0}; }
        else if(k==12&&full[a]){ int x=r.irange(0,R.width()-1),y=r.irange(0,R.height()-1),m=r.irange(0,8); op.o="look3"; op.p={x,y,m}; const A&C=R; op.res={num(C(x,y,m)),num(C.getIN(y*R.width()+x,m)),R.isNoData(x,y),R.isNoData(y*R.width()+x),(long long)R.xyToI(x,y,m),(long long)R.size(),R.inGrid(x,y),R.inGrid(x-1,y-1)}; }
        else if(k==13){ int f=r.irange(0,1),i=r.irange(0,20); op.o="poke"; op.p={f+1,i,v}; bufs[f][i]=tv; }
        else { watching=false; n++; continue; }
      } catch(const std::runtime_error&e){ op.err=true; }
      watching=false;
      Json j; j.s("o",op.o).i("a",op.a).i("b",op.b).a("p",op.p).a("res",op.res).b("err",op.err);
      std::vector<std::string> S; for(int q=0;q<NR;q++){ A&X=*reg[q]; Json s; s.b("dead",false).i("w",X.width()).i("h",X.height()).b("own",X.owned()).b("empty",X.empty()).i("nd",num(X.noData())).i("geo",0).i("proj",0).i("base",0).i("meta",0); std::vector<long long> z; if(full[q]) for(unsigned i=0;i<9*X.size();i++) z.push_back(num(X.getIN(i/9,i%9))); s.a("z",z); S.push_back(s.str()); }
      std::vector<long long> B; for(auto&bb: bufs) for(auto&vv: bb) B.push_back(num(vv));
      j.raw("S",jraw(S)).a("B",B).i("bad",badfrees); steps.push_back(j.str()); }
    watching=true; for(auto p: reg) delete p; watching=false; endlive=live; }
  Json j; j.i("id",id).s("mode","3d").s("type",tn).i("k",9).i("def",-1).i("tmax",0).i("tmin",0).a("B",b0).raw("steps",jraw(steps)).i("endlive",endlive).i("endbad",badfrees);
  bufp[0]=bufp[1]=nullptr; return j.str();
}

// ManagedVector by itself
template<class T> std::string gomv(int id,Rng&r,const char*tn){
  typedef ManagedVector<T> M; typedef ManagedVector<short> MU; static T bufs[2][16]; bufp[0]=(char*)bufs[0]; bufp[1]=(char*)bufs[1];
  for(auto&b: bufs) for(auto&v: b) v=(T)r.irange(0,9);
  std::vector<long long> b0; for(auto&b: bufs) for(auto&v: b) b0.push_back(num(v));
  std::vector<std::string> steps; const int NR=4; live=0; badfrees=0; int endlive;
  { M* reg[NR]; for(auto&p: reg) p=new M();
    for(int n=r.irange(6,opts().tier=="thorough"?40:20);n>0;n--){ Op op; int a=r.irange(0,NR-1),b=r.irange(0,NR-1),m=r.irange(0,6); op.a=a+1; op.b=b+1; long long v=r.irange(0,9); T tv=(T)v; M&R=*reg[a]; int k=r.irange(0,15);
      watching=true;
      try {
        if(k==0){ op.o="new"; op.p={m,v}; delete reg[a]; reg[a]=new M(m,tv); }
        else if(k<=2){ int f=r.irange(0,1); m=r.irange(1,6); op.o="wrap"; op.p={m,f+1}; if(k==1){ delete reg[a]; reg[a]=new M(bufs[f],m);} else R=M(bufs[f],m); }
        else if(k<=4){ op.o="copy"; if(k==3||a==b) R=*reg[b]; else { delete reg[a]; reg[a]=new M(*reg[b]); } }
        else if(k==5&&a!=b){ op.o="copy"; MU u(*reg[b]); if(r.chance(.5)) R=u; else { delete reg[a]; reg[a]=new M(u);} }
        else if(k<=8&&a!=b){ op.o="move"; if(k==6) R=std::move(*reg[b]); else { M* p=new M(std::move(*reg[b])); delete reg[a]; reg[a]=p; } }
        else if(k<=10){ op.o="resize"; op.p={m,v}; R.resize(m); for(size_t i=0;i<R.size();i++) R[i]=tv; }
        else if(k<=12&&R.size()){ int i=r.irange(0,R.size()-1); op.o="set"; op.p={i,v}; if(r.chance(.5)) R[i]=tv; else R.data()[i]=tv; }
        else if(k==13){ op.o="destroy"; delete reg[a]; reg[a]=new M(); }
        else if(k==14){ int f=r.irange(0,1),i=r.irange(0,7); op.o="poke"; op.p={f+1,i,v}; bufs[f][i]=tv; }
        else if(k==15){ op.o="pass"; auto by=[](M q){ return q; }; M t=by(*reg[b]); (void)t; }
        else { watching=false; n++; continue; }
      } catch(const std::runtime_error&e){ op.err=true; }
      watching=false;
      Json j; j.s("o",op.o).i("a",op.a).i("b",op.b).a("p",op.p).b("err",op.err);
      std::vector<std::string> S; for(int q=0;q<NR;q++){ const M&X=*reg[q]; Json s; s.i("n",X.size()).b("own",X.owned()).b("empty",X.empty()); std::vector<long long> z; for(size_t i=0;i<X.size();i++) z.push_back(num(X[i])); s.a("z",z); int at=0; for(int f=0;f<2;f++) if(X.size()&&X.data()==bufs[f]) at=f+1; s.i("at",at); S.push_back(s.str()); }
      std::vector<long long> B; for(auto&bb: bufs) for(auto&vv: bb) B.push_back(num(vv));
      j.raw("S",jraw(S)).a("B",B).i("bad",badfrees); steps.push_back(j.str()); }
    watching=true; for(auto p: reg) delete p; watching=false; endlive=live; }
  Json j; j.i("id",id).s("mode","mv").s("type",tn).a("B",b0).raw("steps",jraw(steps)).i("endlive",endlive).i("endbad",badfrees);
  bufp[0]=bufp[1]=nullptr; return j.str();
}
int main(int c,char**v){ return vt_main(c,v,[](int id,Rng&r)->std::string{
  bool mem=!opts().rest.empty()&&opts().rest[0]=="mem";
  if(mem?id%4<2:false) switch(id%3){ case 0: return gomv<int>(id,r,"int32"); case 1: return gomv<double>(id,r,"double"); default: return gomv<int8_t>(id,r,"int8"); }
  if(id%8==7) return go3<float>(id,r,"float3d");
  switch(id%5){ case 0: return go2<int32_t>(id,r,"int32"); case 1: return go2<float>(id,r,"float"); case 2: return go2<double>(id,r,"double"); case 3: return go2<uint8_t>(id,r,"uint8"); default: return go2<int16_t>(id,r,"int16"); } }); }
