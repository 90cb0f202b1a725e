// Shared support for the conformance recorders: deterministic generation of
// inputs, JSON output, and crash isolation.  Every case is a pure function of
// (seed, id), so a single case can be re-run with --only ID.
#pragma once
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>

namespace vt {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed=1) : s(seed) { s=next()^0xD1B54A32D192ED03ull; s=next(); } // (mixed twice: neighbouring seeds share nothing)
  uint64_t next(){ uint64_t z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
  int  irange(int lo,int hi){ return lo+(int)(next()%(uint64_t)(hi-lo+1)); }   // inclusive
  double real(){ return (next()>>11)*(1.0/9007199254740992.0); }
  bool chance(double p){ return real()<p; }
  template<class T> const T& pick(const std::vector<T>&v){ return v[next()%v.size()]; }
};

// ---- JSON -----------------------------------------------------------------
struct Json {
  std::ostringstream o; bool first=true;
  Json(){ o<<"{"; }
  void key(const std::string&k){ if(!first) o<<","; first=false; o<<"\""<<k<<"\":"; }
  static std::string esc(const std::string&s){ std::string r; for(unsigned char c: s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b;} else r+=c;} return r; }
  Json& i(const std::string&k,long long v){ if(v>2147483647ll||v<-2147483647ll){ s(k,"big"+std::to_string(v)); return *this;} key(k); o<<v; return *this; }
  Json& b(const std::string&k,bool v){ key(k); o<<(v?"true":"false"); return *this; }
  Json& s(const std::string&k,const std::string&v){ key(k); o<<"\""<<esc(v)<<"\""; return *this; }
  template<class V> Json& a(const std::string&k,const V&v){ key(k); o<<"["; bool f=true; for(const auto &e: v){ if(!f) o<<","; f=false; o<<(long long)e; } o<<"]"; return *this; }
  Json& as(const std::string&k,const std::vector<std::string>&v){ key(k); o<<"["; bool f=true; for(const auto &e: v){ if(!f) o<<","; f=false; o<<"\""<<esc(e)<<"\""; } o<<"]"; return *this; }
  Json& raw(const std::string&k,const std::string&v){ key(k); o<<v; return *this; }
  std::string str() const { return o.str()+"}"; }
};
template<class V> std::string jarr(const V&v){ std::ostringstream o; o<<"["; bool f=true; for(const auto&e: v){ if(!f)o<<","; f=false; o<<(long long)e;} o<<"]"; return o.str(); }
inline std::string jraw(const std::vector<std::string>&v){ std::string r="["; for(size_t i=0;i<v.size();i++){ if(i) r+=","; r+=v[i]; } return r+"]"; }

// Order-preserving compression of values into small integers: the rank of each
// value among all values of all the given arrays (equal values, equal ranks).
struct Ranker {
  std::vector<double> vals;
  template<class V> void add(const V&v){ for(const auto&e: v) vals.push_back((double)e); }
  void add1(double e){ vals.push_back(e); }
  void done(){ std::sort(vals.begin(),vals.end()); vals.erase(std::unique(vals.begin(),vals.end()),vals.end()); }
  int of(double v) const { return (int)(std::lower_bound(vals.begin(),vals.end(),v)-vals.begin()); }
  template<class V> std::vector<int> operator()(const V&v) const { std::vector<int> r; for(const auto&e: v) r.push_back(of((double)e)); return r; }
};

// ---- terrain generation ----------------------------------------------------
struct Dem { int w,h; std::vector<int> z; std::string kind; int at(int x,int y)const{return z[y*w+x];} };

// Values are small non-negative integers, to be mapped onto element types.
// Is this one of the rare long cases (more columns or rows, pits, flats or lakes
// than 8 bits can count)?  Off unless the recorder asks vt_main for them.
inline bool& long_case(){ static bool l=false; return l; }
inline void sides(Rng&r,int&w,int&h,int maxside,int minside=1){
  w=r.irange(minside,maxside); h=r.irange(minside,maxside);
  if(long_case()){ int a=r.irange(520,700),b=std::max(minside,r.irange(1,3)); if(r.chance(.5)){ w=a; h=b; } else { w=b; h=a; } } }
inline Dem gen_dem(Rng&r,int maxside,int kind=-1,int minside=1){
  Dem d; sides(r,d.w,d.h,maxside,minside); if(long_case()&&kind<0) kind=r.pick(std::vector<int>{1,2,3,6,13});
  if(kind<0) kind=r.irange(0,13);
  auto fill=[&](auto f){ d.z.resize(d.w*d.h); for(int y=0;y<d.h;y++)for(int x=0;x<d.w;x++) d.z[y*d.w+x]=f(x,y); };
  switch(kind){
    case 0: d.kind="rand2"; fill([&](int,int){return r.irange(0,1);}); break;
    case 1: d.kind="rand4"; fill([&](int,int){return r.irange(0,3);}); break;
    case 2: d.kind="rand10"; fill([&](int,int){return r.irange(0,9);}); break;
    case 3: d.kind="rand1000"; fill([&](int,int){return r.irange(0,999);}); break;
    case 4: { d.kind="bowl"; int hi=r.irange(5,20); fill([&](int x,int y){ int e=std::min(std::min(x,d.w-1-x),std::min(y,d.h-1-y)); return std::max(0,hi-2*e+r.irange(0,2)); }); break; }
    case 5: { d.kind="moat"; int a=r.irange(1,9),b=r.irange(1,9),c=r.irange(1,9); fill([&](int x,int y){ int e=std::min(std::min(x,d.w-1-x),std::min(y,d.h-1-y)); return e%3==0?a:(e%3==1?b:c); }); if(r.chance(.7)&&d.z.size()) d.z[r.next()%d.z.size()]=r.irange(0,9); break; }
    case 6: { d.kind="maze"; fill([&](int x,int y){ return (x%2==1||y%2==1)?(r.chance(.7)?9:r.irange(0,4)):r.irange(0,3); }); break; }
    case 7: { d.kind="spiral"; d.z.assign(d.w*d.h,9); int x0=0,y0=1,x1=d.w-1,y1=d.h-1; int v=r.irange(0,2); // spiral channel
        int x=0,y=0,dx=1,dy=0; std::vector<char> seen(d.w*d.h,0); int steps=0; int lvl=0; (void)x0;(void)y0;(void)x1;(void)y1;
        for(;;){ d.z[y*d.w+x]=std::max(0,3-lvl); seen[y*d.w+x]=1; if(++steps%7==0) lvl+=v;
          auto okc=[&](int nx,int ny){ return nx>=0&&ny>=0&&nx<d.w&&ny<d.h&&!seen[ny*d.w+nx]; };
          auto clear=[&](int nx,int ny,int ddx,int ddy){ int ax=nx+ddx,ay=ny+ddy; return okc(nx,ny)&&!(ax>=0&&ay>=0&&ax<d.w&&ay<d.h&&seen[ay*d.w+ax]); };
          if(!clear(x+dx,y+dy,dx,dy)){ int t=dx; dx=-dy; dy=t; if(!clear(x+dx,y+dy,dx,dy)) break; }
          x+=dx;y+=dy; if(steps>d.w*d.h) break; }
        break; }
    case 8: { d.kind="flat"; int v=r.irange(0,5); fill([&](int,int){return v;}); for(int k=r.irange(0,3);k>0;k--) d.z[r.next()%d.z.size()]+=r.irange(-1,1)+1; break; }
    case 9: { d.kind="cones"; int n=r.irange(1,5); std::vector<std::vector<int>> c; for(int i=0;i<n;i++) c.push_back({r.irange(0,d.w-1),r.irange(0,d.h-1),r.irange(-6,6)}); fill([&](int x,int y){ int v=12; for(auto&q: c){ int dist=std::max(std::abs(x-q[0]),std::abs(y-q[1])); int m=std::abs(q[2])-dist; if(m>0) v+= q[2]>0?m:-m; } return std::max(0,v); }); break; }
    case 10:{ d.kind="ramp"; int a=r.irange(0,3),b=r.irange(0,3); fill([&](int x,int y){ return a*x+b*y+(r.chance(.2)?r.irange(0,4):0); }); break; }
    case 11:{ d.kind="terrace"; int q=r.irange(2,6); fill([&](int x,int y){ return ((x+y)/q)*2+(r.chance(.1)?r.irange(0,3):0); }); break; }
    case 12:{ d.kind="smooth"; std::vector<double> ph; for(int i=0;i<6;i++) ph.push_back(r.real()*6.28); int sc=r.irange(4,40); fill([&](int x,int y){ double v=std::sin(x*.7+ph[0])+std::sin(y*.6+ph[1])+std::sin((x+y)*.35+ph[2])+.5*std::sin((x-y)*1.1+ph[3]); return (int)std::lround((v+4)*sc); }); break; }
    default:{ d.kind="distinct"; std::vector<int> p(d.w*d.h); for(size_t i=0;i<p.size();i++) p[i]=i; for(size_t i=p.size();i>1;i--) std::swap(p[i-1],p[r.next()%i]); d.z=p; break; }
  }
  // Occasionally wall the border so the interior holds water, with a gap.
  if(kind!=7 && r.chance(.3)){ for(int x=0;x<d.w;x++){ d.z[x]+=6; d.z[(d.h-1)*d.w+x]+=6; } for(int y=0;y<d.h;y++){ d.z[y*d.w]+=6; d.z[y*d.w+d.w-1]+=6; } if(r.chance(.7)){ int x=r.irange(0,d.w-1); d.z[(r.chance(.5)?0:d.h-1)*d.w+x]=r.irange(0,9);} d.kind+="+wall"; }
  return d;
}

// In a rare vast case the terrain, framed with NoData, is laid far out in a raster of
// more columns, rows or cells than 16 bits can count; what is recorded is the terrain again.
struct Vast { bool want=false,on=false; int mode=0,x=0,y=0,w=0,h=0,W=0,H=0; };
inline Vast& vast(){ static Vast v; return v; }
inline void vast_frame(Rng&r,int w,int h){ auto&v=vast(); v.on=true; v.w=w; v.h=h; const int m=v.mode;
  v.W= m==0?w+r.irange(66000,67000):m==1?w:w+r.irange(250,300); v.H= m==1?h+r.irange(66000,67000):m==0?h:h+r.irange(260,300);
  v.x=m==1?0:v.W-w-r.irange(0,3); v.y=m==0?0:v.H-h-r.irange(0,3); }
// Frames a terrain (its NoData flags too) with one ring of NoData.
inline void vast_frame(Rng&r,Dem&d,std::vector<char>&nd){
  if(!vast().want) return; Dem q=d; q.w+=2; q.h+=2; q.z.assign(q.w*q.h,0); std::vector<char> n(q.w*q.h,1);
  for(int y=0;y<d.h;y++) for(int x=0;x<d.w;x++){ q.z[(y+1)*q.w+x+1]=d.z[y*d.w+x]; n[(y+1)*q.w+x+1]=nd[y*d.w+x]; }
  d=q; nd=n; d.kind+="+vast"; vast_frame(r,d.w,d.h); }
// The raster a terrain is laid in, all else being bg.
template<class A,class T> void lay(A&a,T bg){ auto&v=vast(); if(!v.on) return; A b(v.W,v.H,bg); b.setNoData(a.noData()); for(int y=0;y<v.h;y++) for(int x=0;x<v.w;x++) b(v.x+x,v.y+y)=a(x,y); a=std::move(b); }
template<class A> bool laid(const A&a){ auto&v=vast(); return v.on&&(long long)a.width()==v.W&&(long long)a.height()==v.H; }
// Visits the terrain's cells wherever it lies; the cell's index as the terrain counts it.
template<class A,class F> void cells(const A&a,F f){ auto&v=vast(); const bool l=laid(a); const int x0=l?v.x:0,y0=l?v.y:0,w=l?v.w:a.width(),h=l?v.h:a.height(); for(int y=0;y<h;y++) for(int x=0;x<w;x++) f(x0+x,y0+y); }
inline long long home(long long i){ auto&v=vast(); if(!v.on||i<0) return i; const long long x=i%v.W-v.x,y=i/v.W-v.y; return x<0||y<0||x>=v.w||y>=v.h?1000000000:y*v.w+x; }

// ---- driver ---------------------------------------------------------------
struct Opts { uint64_t seed=1; int n=100; std::string tier="quick"; int only=-1; std::string out, in, dir="."; std::vector<std::string> rest; };
inline Opts& opts(){ static Opts o; return o; }
inline int& pre_fd(){ static int fd=-1; return fd; }
inline void writeall(int fd,const std::string&s){ size_t o=0; while(o<s.size()){ ssize_t k=write(fd,s.data()+o,s.size()-o); if(k<=0) _exit(99); o+=k; } }
// Record the input of a case before running it, so that a crash keeps it.
inline void pre(const std::string&j){ writeall(pre_fd(),"#"+j+"\n"); }

inline int vt_main(int argc,char**argv,std::function<std::string(int,Rng&)> fn,int timeout_s=40,int longs=0){
  auto&o=opts();
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="--seed") o.seed=std::stoull(nx()); else if(a=="--n") o.n=std::stoi(nx()); else if(a=="--tier") o.tier=nx();
    else if(a=="--only") o.only=std::stoi(nx()); else if(a=="--out") o.out=nx(); else if(a=="--in") o.in=nx(); else if(a=="--dir") o.dir=nx(); else o.rest.push_back(a); }
  FILE*fo=fopen(o.out.c_str(),"w"); if(!fo){ perror("out"); return 2; }
  int a=0,e=o.n,hung=0; if(o.only>=0){ a=o.only; e=a+1; }
  while(a<e){
    int p[2]; if(pipe(p)) return 2;
    fflush(nullptr);
    pid_t pid=fork(); if(pid<0) return 2;
    if(pid==0){
      close(p[0]); pre_fd()=p[1];
      int dn=open("/dev/null",O_WRONLY); if(!getenv("VT_STDERR")) dup2(dn,2); dup2(dn,1);
      for(int k=a;k<e;k++){ alarm(timeout_s); Rng r(o.seed*1000003ull+k); std::string s; long_case()=longs>0&&k%longs==longs/2; vast()=Vast(); vast().want=longs>0&&k%longs==longs/4; vast().mode=longs>0?k/longs%3:0;
        try { s=fn(k,r); } catch(const std::exception&ex){ Json j; j.i("id",k).s("exc",ex.what()); s=j.str(); } catch(...){ Json j; j.i("id",k).s("exc","unknown"); s=j.str(); }
        writeall(p[1],s+"\n"); }
      writeall(p[1],"#done\n"); _exit(0);
    }
    close(p[1]); std::string buf,prel; bool done=false; char tmp[65536]; ssize_t k;
    while((k=read(p[0],tmp,sizeof tmp))>0){ buf.append(tmp,k); size_t q;
      while((q=buf.find('\n'))!=std::string::npos){ std::string l=buf.substr(0,q); buf.erase(0,q+1);
        if(l=="#done") done=true; else if(l[0]=='#') prel=l.substr(1); else { fprintf(fo,"%s\n",l.c_str()); prel.clear(); a++; } } }
    close(p[0]); int st=0; waitpid(pid,&st,0);
    if(!done && a<e){ Json j; j.i("id",a); j.s("crash",WIFSIGNALED(st)?(WTERMSIG(st)==SIGALRM?"timeout":std::string("signal ")+strsignal(WTERMSIG(st))):"exit "+std::to_string(WEXITSTATUS(st))); if(prel.size()) j.raw("input",prel); fprintf(fo,"%s\n",j.str().c_str()); a++;
      if(WIFSIGNALED(st) && WTERMSIG(st)==SIGALRM && ++hung>=3) break; } // (three hangs are evidence enough)
    else if(done) break;
  }
  fclose(fo); return 0;
}
}
