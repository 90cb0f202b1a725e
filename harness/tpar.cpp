// Recorder: the tiled programs (parallel_d8_accum, parallel_priority_flood) run
// with their ranks as threads under a seeded scheduler; inputs, outputs and all
// messages are recorded.
#include "common.hpp"
#include <gdal_priv.h>
#include <dirent.h>
#include <map>
#define main prog_main
#ifdef PROG_D8
#include "programs/parallel_d8_accum/main.cpp"
#else
#include "programs/parallel_priority_flood/main.cpp"
#endif
#undef main
using namespace vt;
static std::string dir;
static void quiet(CPLErr,CPLErrorNum,const char*){}

struct Tile { bool null=false; int x0,y0,w,h; std::string name,base,out; std::vector<double> in; };

static void wtif(const std::string&f,int w,int h,GDALDataType t,const std::vector<double>&v,double nd,const double*gt){
  auto*d=GetGDALDriverManager()->GetDriverByName("GTiff")->Create(f.c_str(),w,h,1,t,nullptr); d->SetGeoTransform((double*)gt);
  auto*b=d->GetRasterBand(1); b->SetNoDataValue(nd); (void)b->RasterIO(GF_Write,0,0,w,h,(void*)v.data(),w,h,GDT_Float64,0,0); GDALClose(d); }
static bool rtif(const std::string&f,int&w,int&h,std::vector<double>&v,double&nd,double*gt){
  auto*d=(GDALDataset*)GDALOpen(f.c_str(),GA_ReadOnly); if(!d) return false; w=d->GetRasterXSize(); h=d->GetRasterYSize(); v.assign((size_t)w*h,0); d->GetGeoTransform(gt);
  auto*b=d->GetRasterBand(1); nd=b->GetNoDataValue(); bool ok=b->RasterIO(GF_Read,0,0,w,h,v.data(),w,h,GDT_Float64,0,0)==CE_None; GDALClose(d); return ok; }

static std::string outcome(int fd,const std::string&failure,const std::vector<int>&rcs){
  Json j; j.s("failure",failure); j.a("rcs",rcs); std::vector<std::string> e; for(auto&l: fakempi::W().log) e.push_back("[\""+std::string(1,l.k)+"\","+std::to_string(l.rank)+","+std::to_string(l.peer)+","+std::to_string(l.tag)+","+std::to_string(l.id)+"]");
  int left=0; for(auto&c: fakempi::W().chan) left+=c.second.size(); j.i("undelivered",left); j.raw("log",jraw(e)); writeall(fd,j.str()); return ""; }

static std::string go(int id,Rng&r){
  bool thorough=opts().tier=="thorough"; bool many=r.chance(.6); bool big=false;
#ifndef PROG_D8
  big=id%200==7; many=!big;
#endif
  int gw=r.irange(1,3+thorough),gh=r.irange(1,3+thorough),tw,th,W,H,bw=-1,bh=-1;
  if(big){ bool wide=r.chance(.5),two=id==7||id%1000==407; int e=two?400+r.irange(0,4):100+r.irange(0,9),o=100; W=wide?e:o; H=wide?o:e; bw=two&&wide?300:-1; bh=two&&!wide?300:-1; tw=two&&wide?300:W; th=two&&!wide?300:H; gw=two&&wide?2:1; gh=two&&!wide?2:1; }
  else if(many){ int m=thorough?6:5; tw=r.irange(r.chance(.2)?1:2,m); th=r.irange(r.chance(.2)?1:2,m); W=gw*tw; H=gh*th; }
  else { W=r.irange(1,12); H=r.irange(1,12); bw=r.chance(.15)?-1:r.irange(1,W); bh=r.chance(.15)?-1:r.irange(1,H); while(bw>0&&(W+bw-1)/bw>4) bw++; while(bh>0&&(H+bh-1)/bh>4) bh++; tw=bw<0?W:bw; th=bh<0?H:bh; gw=(W+tw-1)/tw; gh=(H+th-1)/th; }
  std::vector<Tile> T(gw*gh); double pn=many&&r.chance(.6)?r.real()*.5:0; int live=0;
  for(int y=0;y<gh;y++)for(int x=0;x<gw;x++){ auto&t=T[y*gw+x]; t.x0=x*tw; t.y0=y*th; t.w=std::min(tw,W-t.x0); t.h=std::min(th,H-t.y0); t.null=r.chance(pn); live+=!t.null; }
  if(!live){ T[0].null=false; }
  auto tileof=[&](int x,int y)->Tile&{ return T[(y/th)*gw+x/tw]; };
  // geometry and orientation
  double gt[6]={(double)r.irange(-50,50),(double)r.irange(1,9),0,(double)r.irange(-50,50),0,-(double)r.irange(1,9)}; bool fh=false,fv=false,uh=false,uv=false;
  if(many){ if(r.chance(.25)) gt[1]=-gt[1]; if(r.chance(.25)) gt[5]=-gt[5]; uh=r.chance(.25); uv=r.chance(.25); fh=(gt[1]<0)^uh; fv=(gt[5]>0)^uv; }
  // the whole raster
  std::vector<double> M(W*H); double nd; GDALDataType ty; std::string tyn;
#ifdef PROG_D8
  ty=r.chance(.8)?GDT_Byte:r.chance(.5)?GDT_Int16:GDT_Float32; nd=r.chance(.7)?255:r.chance(.5)?9:200; tyn=GDALGetDataTypeName(ty);
  { std::vector<double> pot(W*H); int kind=r.irange(0,3); Rng q(r.next());
    for(int y=0;y<H;y++)for(int x=0;x<W;x++){ double v=q.real(); if(kind==1) v=W*H-(y*W+(y%2?W-1-x:x))+(r.chance(.1)?q.real()*6:0); if(kind==2) v=(x%2?H-1-y:y)+x*H+(r.chance(.1)?q.real()*6:0); if(kind==3) v=std::sin(x*.5+id)+std::sin(y*.6+id*2)+q.real()*.3; pot[y*W+x]=v; }
    double pnd=r.chance(.5)?r.real()*.3:0,pst=r.chance(.5)?.05:0,pex=r.chance(.5)?.05:.5; std::vector<char> ND(W*H); for(auto&&c: ND) c=r.chance(pnd);
    const int DX[9]={0,-1,-1,0,1,1,1,0,-1},DY[9]={0,0,-1,-1,-1,0,1,1,1};
    for(int y=0;y<H;y++)for(int x=0;x<W;x++){ int c=y*W+x; if(ND[c]){ M[c]=nd; continue; } if(r.chance(pst)){ M[c]=0; continue; }
      std::vector<int> low,ex; for(int n=1;n<=8;n++){ int a=x+DX[n],b=y+DY[n]; if(a<0||b<0||a>=W||b>=H||tileof(a,b).null||ND[b*W+a]) ex.push_back(n); else if(pot[b*W+a]<pot[c]) low.push_back(n); }
      if(ex.size()&&(low.empty()||r.chance(pex))) M[c]=r.pick(ex); else if(low.size()){ int best=r.pick(low); if(r.chance(.6)) for(int n: low) if(pot[(y+DY[n])*W+x+DX[n]]>pot[(y+DY[best])*W+x+DX[best]]) best=n; M[c]=best; } else M[c]=0; } }
#else
  { static const GDALDataType tys[]={GDT_Float32,GDT_Byte,GDT_Int16,GDT_UInt16,GDT_Int32,GDT_UInt32,GDT_Float64}; ty=tys[r.irange(0,6)]; tyn=GDALGetDataTypeName(ty); nd=ty==GDT_Byte?255:ty==GDT_UInt16||ty==GDT_UInt32?60000:-9999;
    double mul=1,add=0; if(ty==GDT_Float32){ mul=.37; add=-3.1; } if(ty==GDT_Float64){ mul=1/3.; add=-1; } if(ty==GDT_Int32){ mul=100000; add=-700000; } if(ty==GDT_Int16){ add=-5; } if(ty==GDT_UInt32){ add=4000000000.; }
    int kind=big?r.irange(0,1)*4+8:r.irange(0,13); double pnd=r.chance(.25)?.1:0; Dem d=gen_dem(r,std::max(W,H),kind,std::max(W,H)); if(ty==GDT_Byte) for(auto&z: d.z) z%=250; 
    for(int y=0;y<H;y++)for(int x=0;x<W;x++){ double v=d.at(x,y)*mul+add; M[y*W+x]=ty==GDT_Float32?(double)(float)v:v; if(r.chance(pnd)) M[y*W+x]=nd; } }
#endif
  // cut it into files
  std::string out; bool pf=many&&r.chance(.4); int xt=many?0:1;
  for(int y=0;y<gh;y++)for(int x=0;x<gw;x++){ auto&t=T[y*gw+x]; t.in.assign(t.w*t.h,0); for(int j=0;j<t.h;j++)for(int i=0;i<t.w;i++) t.in[j*t.w+i]=M[(t.y0+(fv?t.h-1-j:j))*W+t.x0+(fh?t.w-1-i:i)];
    t.base="t"+std::to_string(r.irange(100,999))+"_"+std::to_string(y*gw+x); std::string nn=pf?t.base:std::to_string(x)+"_"+std::to_string(y); t.out="o"+nn+".tif"; t.name=t.base+".tif"; if(many&&!t.null) wtif(dir+"/"+t.name,t.w,t.h,ty,t.in,nd,gt); }
  std::string in=dir+"/in.tif"; if(many){ in=dir+"/in.layout"; FILE*f=fopen(in.c_str(),"w"); for(int y=0;y<gh;y++){ for(int x=0;x<gw;x++){ auto&t=T[y*gw+x]; fprintf(f,"%s%s",x?",":"",t.null?" ":t.name.c_str()); } fprintf(f,"\n"); } fclose(f); }
  else wtif(in,W,H,ty,M,nd,gt);
  int rk=r.irange(0,2); bool rf=pf&&r.chance(.5); std::string ret=rk==0?"@evict":rk==1?"@retain":dir+"/c"+(rf?"%f":"%n"); std::string on=dir+"/o"+(pf?"%f":"%n")+".tif";
  std::vector<std::string> av={"prog"}; auto flag=[&](const char*a,const char*b){ av.push_back(r.chance(.5)?a:b); }; if(uh) flag("-H","--flipH"); if(uv) flag("-V","--flipV"); if(bw>0){ flag("-w","--bwidth"); av.push_back(std::to_string(bw)); } if(bh>0){ flag("-h","--bheight"); av.push_back(std::to_string(bh)); }
  av.insert(av.end(),{many?"many":"one",ret,in,on});
  int n=r.irange(2,5); uint64_t sd=r.next(); long long eager=r.chance(.5)?(1<<20):r.chance(.5)?0:r.irange(1,600); std::vector<int> wt; for(int i=0;i<n;i++) wt.push_back(r.chance(.5)?10:r.chance(.5)?1:200);
  int p[2]; if(pipe(p)) return ""; fflush(nullptr);
  pid_t pid=fork();
  if(pid==0){ close(p[0]); alarm(30); std::vector<int> rcs(n,-7); fakempi::on_failure()=[&](const std::string&s){ outcome(p[1],s,rcs); };
    fakempi::run(n,sd,eager,wt,[&](int k){ std::vector<std::vector<char>> a; std::vector<char*> q; for(auto&s: av){ a.emplace_back(s.begin(),s.end()); a.back().push_back(0); } for(auto&s: a) q.push_back(s.data()); q.push_back(nullptr);
      try { rcs[k]=prog_main((int)av.size(),q.data()); } catch(const std::exception&e){ fakempi::fail(std::string("exception: ")+e.what()); } catch(...){ fakempi::fail("exception"); } });
    outcome(p[1],"",rcs); _exit(0); }
  close(p[1]); std::string res; char buf[65536]; ssize_t k; while((k=read(p[0],buf,sizeof buf))>0) res.append(buf,k); close(p[0]); int st=0; waitpid(pid,&st,0);
  if(res.empty()||res.back()!='}'){ res="{\"failure\":\"the program ended with "+std::string(WIFSIGNALED(st)?strsignal(WTERMSIG(st)):"exit")+"\",\"rcs\":[],\"undelivered\":0,\"log\":[]}"; }
  Ranker R; 
  struct O { bool ok=false; int w=0,h=0; std::vector<double> v; double nd=0,gt[6]={0}; }; std::vector<O> os(T.size());
  for(size_t i=0;i<T.size();i++) if(!T[i].null) os[i].ok=rtif(dir+"/"+T[i].out,os[i].w,os[i].h,os[i].v,os[i].nd,os[i].gt);
#ifdef PROG_D8
  auto inv=[&](const std::vector<double>&v){ std::vector<int> q; for(double d: v) q.push_back(d==nd?255:(int)d); return q; };
  auto outv=[&](const std::vector<double>&v){ std::vector<int> q; for(double d: v) q.push_back(std::abs(d)<1e9&&d==std::floor(d)?(int)d:-777); return q; };
#else
  R.add(M); for(auto&o: os) R.add(o.v); R.done();
  auto inv=[&](const std::vector<double>&v){ return R(v); }; auto outv=inv;
#endif
  std::vector<std::string> ts; auto gi=[&](const double*g){ std::vector<int> q; for(int i=0;i<6;i++) q.push_back(g[i]==std::floor(g[i])?(int)g[i]:-77777); return q; };
  for(size_t i=0;i<T.size();i++){ auto&t=T[i]; auto&o=os[i]; Json j; j.b("null",t.null).i("x",t.x0).i("y",t.y0).i("w",t.w).i("h",t.h).s("name",t.null?"":t.out).a("in",inv(t.in)).b("ok",o.ok).i("ow",o.w).i("oh",o.h).a("out",outv(o.v)).i("ond",(int)o.nd).a("ogt",gi(o.gt)); ts.push_back(j.str()); }
  std::vector<std::string> rows; { std::ifstream f(dir+"/olayout.layout"); std::string l; while(std::getline(f,l)){ std::vector<std::string> e; std::istringstream ss(l); std::string c; while(std::getline(ss,c,',')){ auto a=c.find_first_not_of(" \t\r"); auto b=c.find_last_not_of(" \t\r"); e.push_back("\""+Json::esc(a==std::string::npos?"":c.substr(a,b-a+1))+"\""); } if(e.size()) rows.push_back(jraw(e)); } }
  if(DIR*d=opendir(dir.c_str())){ while(auto*e=readdir(d)) if(e->d_name[0]!='.') unlink((dir+"/"+e->d_name).c_str()); closedir(d); }
  Json j; j.i("id",id).s("mode",many?"many":"one").s("type",tyn).s("ret",rk==0?"evict":rk==1?"retain":"cache").i("n",n).i("eager",eager).i("W",W).i("H",H).i("gw",gw).i("gh",gh).i("tw",tw).i("th",th).b("fh",fh).b("fv",fv).i("nd",(int)nd).a("gt",gi(gt)).raw("tiles",jraw(ts)).raw("layout",jraw(rows)).raw("run",res); return j.str();
}

int main(int argc,char**argv){
  setenv("OMP_NUM_THREADS","1",1); char base[]="/tmp/vttpXXXXXX"; dir=mkdtemp(base); CPLSetErrorHandler(quiet); GDALAllRegister();
  int rc=vt_main(argc,argv,go,60);
  if(DIR*d=opendir(base)){ while(auto*e=readdir(d)) if(e->d_name[0]!='.') unlink((dir+"/"+e->d_name).c_str()); closedir(d); } rmdir(base); return rc;
}
