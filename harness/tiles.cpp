// Recorder: random histories of rasters kept in tiles behind a bounded cache.
#include "common.hpp"
#include <dirent.h>
#include <fstream>
#include <memory>
#include <richdem/tiled/A2Array2D.hpp>
using namespace richdem;
using namespace vt;

static std::string dir;
static void quiet(CPLErr,CPLErrorNum,const char*){}
static void wipe(const std::string&d){ if(DIR*p=opendir(d.c_str())){ while(auto*e=readdir(p)) if(e->d_name[0]!='.') unlink((d+"/"+e->d_name).c_str()); closedir(p); } }
static const int NS=3;

struct Geo { std::vector<long long> g; };
struct Rec { std::string o; int a=1,b=0; std::vector<long long> p,res; bool err=false; std::string extra; };
struct Arr {
  int W=0,H=0,tw=0,th=0,slot=0; bool ro=false; std::vector<int> null; bool flips=false;
  virtual ~Arr(){}
  virtual void op(Rng&r,Rec&o,int k)=0;
  virtual int ev()=0;
  virtual std::vector<long long> shape()=0;
  std::vector<int> wrote(){ std::vector<int> v; std::string d=dir+"/d"+std::to_string(slot); DIR*p=opendir(d.c_str()); if(!p) return v;
    while(auto*e=readdir(p)){ if(e->d_name[0]!='c') continue; std::string f=d+"/"+e->d_name; struct stat st; if(stat(f.c_str(),&st)) continue; if(st.st_mtim.tv_sec==1) continue;
      struct timespec ts[2]={{1,0},{1,0}}; utimensat(AT_FDCWD,f.c_str(),ts,0); int n=0; for(const char*c=e->d_name;*c&&*c!='.';c++) if(*c>='0'&&*c<='9') n=n*10+*c-'0'; v.push_back(n); }
    closedir(p); std::sort(v.begin(),v.end()); return v; }
};
template<class T> std::vector<long long> nums(const T*d,size_t n){ std::vector<long long> v; for(size_t i=0;i<n;i++) v.push_back((long long)d[i]==d[i]?(long long)d[i]:-99999); return v; }
template<class T> static std::string tilejson(const std::string&f){ // what is in a file, read without the tiled raster
  Json j; if(f.empty()){ j.i("w",0).i("h",0); return j.str(); }
  try { Array2D<T> t(f); std::vector<long long> g; for(double d: t.geotransform) g.push_back((long long)d); j.i("w",t.width()).i("h",t.height()).a("z",nums(t.data(),t.size())).i("nd",(long long)t.noData()).a("geo",g); } catch(const std::exception&){ j.i("w",-1).i("h",-1).a("z",std::vector<int>()).i("nd",0).a("geo",std::vector<int>()); }
  return j.str(); }

template<class T> struct TArr : Arr {
  std::unique_ptr<A2Array2D<T>> A;
  int ev() override { return A->getEvictions(); }
  std::vector<long long> shape() override { std::vector<long long> v={A->width(),A->height(),A->widthInTiles(),A->heightInTiles(),A->stdTileWidth(),A->stdTileHeight(),A->notNullTiles(),A->isReadonly()}; for(int y=0;y<A->heightInTiles();y++) for(int x=0;x<A->widthInTiles();x++) v.push_back(A->isNullTile(x,y)); return v; }
  void op(Rng&r,Rec&o,int k) override {
    int x=r.irange(0,W*tw-1),y=r.irange(0,H*th-1); if(r.chance(.15)){ x=r.chance(.5)?0:W*tw-1; y=r.chance(.5)?0:H*th-1; } int v=r.irange(0,9); int tx=x/tw,ty=y/th,px=x%tw,py=y%th; auto&a=*A;
    if(k<8||(ro&&k<16)){ if(r.chance(.5)){ o.o="read2"; o.p={x,y,0,0}; o.res={(long long)a(x,y)}; } else { o.o="read4"; o.p={tx,ty,px,py}; bool nul=null[ty*W+tx]; o.res={(long long)a(tx,ty,px,py)}; (void)nul; } }
    else if(k<16){ if(r.chance(.5)){ o.o="write2"; o.p={x,y,v,0}; a(x,y)=(T)v; } else { o.o="write4"; o.p={tx,ty,px,py,v}; a(tx,ty,px,py)=(T)v; } }
    else if(k==16){ o.o="isnd2"; o.p={x,y,0,0}; o.res={a.isNoData(x,y)}; }
    else if(k==17){ if(null[ty*W+tx]||(loadedDims())){ o.o="isnd4"; o.p={tx,ty,px,py}; o.res={a.isNoData(tx,ty,px,py)}; } }
    else if(k==18&&!ro){ o.o="setall"; o.p={v,0,0,0}; a.setAll((T)v); }
    else if(k==19){ o.o="setnd"; o.p={v,0,0,0}; a.setNoData((T)v); }
    else if(k==20){ o.o="touch"; o.p={tx,ty,0,0}; a.loadTile(tx,ty); }
    else if(k==21){ o.o="where"; int X=r.irange(-1,W*tw),Y=r.irange(-1,H*th); o.p={X,Y,0,0}; bool in=a.in_grid(X,Y); o.res={in,a.isEdgeCell(X,Y),a.isInteriorCell(X,Y)}; if(in){ int qx,qy,rx,ry; a.makeQuadIndex(X,Y,qx,qy,rx,ry); o.res.insert(o.res.end(),{qx,qy,rx,ry}); } }
    else if(k==22){ o.o="all"; o.p={0,0,0,0}; for(int j=0;j<H*th;j++) for(int i=0;i<W*tw;i++) o.res.push_back((long long)a(i,j)); }
    else if(k==23){ o.o="save"; o.p={0,0,0,0}; std::string d=dir+"/out"; wipe(d); a.saveGDAL(d+"/s%f.tif"); std::vector<std::string> v; LayoutfileReader lf(d+"/slayout.layout"); while(lf.next()) v.push_back(tilejson<T>(lf.isNullTile()?std::string():lf.getPath()+lf.getFilename())); o.extra=jraw(v); }
    else if(k==24&&!flips){ o.o="unify"; o.p={0,0,0,0}; std::string d=dir+"/out"; wipe(d); bool er=false; try { a.saveUnifiedGDAL(d+"/u.tif"); } catch(const std::runtime_error&){ er=true; } o.err=er; o.extra=er?"[]":jraw({tilejson<T>(d+"/u.tif")}); }
  }
  bool loadedDims(){ return true; }
};

static std::string tiles(int id,Rng&r){
  CPLSetErrorHandler(quiet); GDALAllRegister();
  for(int s=0;s<NS;s++){ std::string d=dir+"/d"+std::to_string(s); mkdir(d.c_str(),0700); wipe(d); } mkdir((dir+"/in").c_str(),0700); mkdir((dir+"/out").c_str(),0700); wipe(dir+"/in");
  std::unique_ptr<Arr> S[NS]; std::vector<std::string> steps; int def[NS]={-1,-1,255};
  auto emit=[&](Rec&o,const std::string&more){ Json j; j.s("o",o.o).i("a",o.a).i("b",o.b).a("p",o.p).a("res",o.res).b("err",o.err).raw("tiles",o.extra.empty()?"[]":o.extra); std::string m=j.str(); if(!more.empty()) m=m.substr(0,m.size()-1)+","+more+"}";
    std::vector<std::string> v; for(int s=0;s<NS;s++){ Json q; if(S[s]) q.i("ev",S[s]->ev()).a("wrote",S[s]->wrote()); else q.i("ev",0).a("wrote",std::vector<int>()); v.push_back(q.str()); }
    m=m.substr(0,m.size()-1)+",\"S\":"+jraw(v)+"}"; steps.push_back(m); };
  auto derive=[&](int s){ int b=r.irange(0,s-1); if(!S[b]) b=0; Rec o; o.o="derive"; o.a=s+1; o.b=b+1; int cap=r.irange(1,4); S[s].reset(); wipe(dir+"/d"+std::to_string(s)); std::string t=dir+"/d"+std::to_string(s)+"/c%f.nat";
    auto set=[&](auto*n){ n->slot=s; n->W=S[b]->W; n->H=S[b]->H; n->tw=S[b]->tw; n->th=S[b]->th; n->null=S[b]->null; n->ro=false; n->flips=S[b]->flips; };
    if(s==1){ auto*n=new TArr<float>(); set(n); n->A.reset(new A2Array2D<float>(t,*((TArr<int16_t>*)S[0].get())->A,cap)); S[s].reset(n); }
    else { auto*n=new TArr<uint8_t>(); set(n); if(b==0) n->A.reset(new A2Array2D<uint8_t>(t,*((TArr<int16_t>*)S[0].get())->A,cap)); else n->A.reset(new A2Array2D<uint8_t>(t,*((TArr<float>*)S[1].get())->A,cap)); S[s].reset(n); }
    o.res=S[s]->shape(); Json j; j.i("cap",cap).i("def",def[s]); std::string m=j.str(); emit(o,m.substr(1,m.size()-2)); };
  { // the first raster
    auto*n=new TArr<int16_t>(); Rec o; o.o="open"; n->slot=0; bool ro=n->ro=r.chance(.5); int W=n->W=r.irange(1,4),H=n->H=r.irange(1,3),tw=n->tw=r.irange(1,3),th=n->th=r.irange(1,3),cap=r.irange(1,std::max(1,std::min(W*H,5)));
    std::vector<std::string> zs,geos; std::vector<int> nds; bool flipH=false,flipV=false; int T=W*H; n->null.assign(T,0); bool sides=ro&&r.chance(.35); n->flips=sides;
    if(ro){ if(r.chance(.6)) for(auto&v: n->null) v=r.chance(.3); { int live=0; for(int v: n->null) live+=!v; if(!live) n->null[r.irange(0,T-1)]=0; }
      bool onend=r.chance(.6); int nd0=r.irange(0,9); bool geo=r.chance(.85); if(sides){ flipH=r.chance(.4); flipV=r.chance(.4); }
      { LayoutfileWriter lf(dir+"/in/l.layout");
      for(int t=0;t<T;t++){ if(t%W==0) lf.addRow(); if(n->null[t]){ lf.addEntry(""); zs.push_back("[]"); geos.push_back("[]"); nds.push_back(-1); }
        else { Array2D<int16_t> f(tw,th,0); for(unsigned i=0;i<f.size();i++) f(i)=r.irange(0,9); int nd=onend?nd0:r.irange(0,9); f.setNoData(nd); std::vector<long long> g; if(geo){ g={t*7+1,3,0,t*5+2,0,-2}; if(sides&&r.chance(.4)) g[1]=-3; if(sides&&r.chance(.4)) g[5]=2; f.geotransform.assign(g.begin(),g.end()); } else g={1000,1,0,1000,0,-1};
          f.saveGDAL(dir+"/in/t"+std::to_string(t+1)+".tif"); lf.addEntry("t"+std::to_string(t+1)+".tif"); zs.push_back(jarr(nums(f.data(),f.size()))); geos.push_back(jarr(g)); nds.push_back(nd); }
      }
      }
      n->A.reset(new A2Array2D<int16_t>(dir+"/in/l.layout",cap)); n->A->flipH=flipH; n->A->flipV=flipV; S[0].reset(n); o.res=n->shape(); o.res.push_back(peekLayoutTileSize(dir+"/in/l.layout")); o.res.push_back(peekLayoutType(dir+"/in/l.layout")==GDT_Int16);
    } else { n->A.reset(new A2Array2D<int16_t>(dir+"/d0/c",tw,th,W,H,cap)); for(int t=0;t<T;t++){ zs.push_back(jarr(std::vector<int>(tw*th,0))); geos.push_back("[]"); nds.push_back(-1); } S[0].reset(n); o.res=n->shape(); }
    Json j; j.i("W",W).i("H",H).i("tw",tw).i("th",th).i("cap",cap).b("ro",ro).a("null",n->null).b("flipH",flipH).b("flipV",flipV).i("def",-1).a("nd",nds).raw("z",jraw(zs)).raw("geo",jraw(geos)); std::string m=j.str(); emit(o,m.substr(1,m.size()-2)); }
  if(r.chance(.7)) derive(1); if(S[1]&&r.chance(.5)) derive(2);
  int hot=r.irange(0,NS-1);
  for(int k=r.irange(10,opts().tier=="thorough"?90:50);k>0;k--){
    int s=r.chance(.6)?hot:r.irange(0,NS-1); if(!S[s]) s=0; if(r.chance(.02)){ int d=r.irange(1,2); if(d==1||S[1]||true){ derive(d==2&&!S[1]?2:d); continue; } }
    Rec o; o.a=s+1; int q=r.irange(0,24); if(q>=22&&r.chance(.5)) continue; S[s]->op(r,o,q); if(o.o.empty()) continue; emit(o,""); }
  for(int s=0;s<NS;s++) if(S[s]){ Rec o; o.a=s+1; S[s]->op(r,o,22); emit(o,""); }
  Json j; j.i("id",id).i("na",NS).raw("ops",jraw(steps)); return j.str();
}

int main(int argc,char**argv){
  char base[]="/tmp/vttlXXXXXX"; dir=mkdtemp(base);
  int rc=vt_main(argc,argv,tiles);
  for(std::string s: {"d0","d1","d2","in","out"}){ wipe(dir+"/"+s); rmdir((dir+"/"+s).c_str()); } rmdir(base);
  return rc;
}
