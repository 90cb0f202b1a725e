// Recorder: random histories of saving, loading, dumping and changing rasters.
#include "common.hpp"
#include <dirent.h>
#include <richdem/common/Array2D.hpp>
#include <richdem/common/loaders.hpp>
#include <richdem/common/gdal.hpp>
#include <ogr_spatialref.h>
using namespace richdem;
using namespace vt;

static const int NR=3, NF=5, NGDAL=2;   // files 1,2: GDAL; 3..5: native
static std::vector<std::string> projs;
static std::string dir;
static void quiet(CPLErr,CPLErrorNum,const char*){}

// spatial references in the form in which GDAL gives them back
static void prepare(){
  if(!projs.empty()) return;
  CPLSetErrorHandler(quiet); GDALAllRegister(); projs.push_back("");
  const char*wkts[]={"GEOGCS[\"WGS 84\",DATUM[\"WGS_1984\",SPHEROID[\"WGS 84\",6378137,298.257223563]],PRIMEM[\"Greenwich\",0],UNIT[\"degree\",0.0174532925199433]]",
    "PROJCS[\"mine\",GEOGCS[\"NAD27\",DATUM[\"North_American_Datum_1927\",SPHEROID[\"Clarke 1866\",6378206.4,294.978698213898]],PRIMEM[\"Greenwich\",0],UNIT[\"degree\",0.0174532925199433]],PROJECTION[\"Transverse_Mercator\"],PARAMETER[\"latitude_of_origin\",0],PARAMETER[\"central_meridian\",-117],PARAMETER[\"scale_factor\",0.9996],PARAMETER[\"false_easting\",500000],PARAMETER[\"false_northing\",0],UNIT[\"metre\",1]]"};
  for(std::string w: wkts){
    for(int k=0;k<4;k++){ auto*d=GetGDALDriverManager()->GetDriverByName("GTiff")->Create((dir+"/p.tif").c_str(),1,1,1,GDT_Byte,nullptr); d->SetProjection(w.c_str()); double g[6]={5,2,0,7,0,-3}; d->SetGeoTransform(g); GDALClose(d);
      auto*e=(GDALDataset*)GDALOpen((dir+"/p.tif").c_str(),GA_ReadOnly); w=e->GetProjectionRef(); GDALClose(e); }
    projs.push_back(w); }
}

template<class T> struct Palette {
  std::vector<T> v;
  static bool same(T a,T b){ if(a!=a&&b!=b) return true; return std::memcmp(&a,&b,sizeof a)==0; }
  void add(T x){ for(T y: v) if(same(x,y)) return; v.push_back(x); }
  int of(T x) const { for(size_t i=0;i<v.size();i++) if(same(v[i],x)) return (int)i; return -1; }
};

template<class T> std::string go(int id,Rng&r,const char*tn,bool gdal){
  typedef Array2D<T> A; typedef std::numeric_limits<T> L;
  Palette<T> pal; pal.add((T)-1); pal.add((T)0); pal.add((T)1); pal.add((T)7); pal.add(L::max()); pal.add(L::lowest());
  if(!L::is_integer){ pal.add((T)0.1); pal.add((T)-9999.25); pal.add((T)1e-3); pal.add(L::quiet_NaN()); }
  const int nnd=pal.v.size();
  if(!L::is_integer){ pal.add((T)-0.0); pal.add(L::infinity()); pal.add(L::denorm_min()); } else { pal.add((T)100); pal.add((T)33); pal.add((T)(L::max()-1)); }
  const int np=pal.v.size();
  A* reg[NR]; for(auto&p: reg) p=new A();
  bool data[NR]={0},alive[NR]={0},gsrc[NR]={0}; int fn[NR]={0},ver[NR]={0},fver[NF+1]={0},fkind[NF+1]={0},fw[NF+1]={0},fh[NF+1]={0};
  auto path=[&](int f){ return dir+"/f"+std::to_string(f)+(f<=NGDAL?".tif":".nat"); };
  for(int f=1;f<=NF;f++) unlink(path(f).c_str());
  std::vector<std::string> steps; int label=0;
  auto code=[&](T x){ return pal.of(x); };
  auto ints=[&](const std::vector<double>&g){ std::vector<long long> q; for(double d: g) q.push_back(d==std::floor(d)&&std::abs(d)<1e9?(long long)d:-77777); return q; };
  auto pcode=[&](const std::string&s){ for(size_t i=0;i<projs.size();i++) if(projs[i]==s) return (int)i; return -1; };
  auto hist=[&](const std::map<std::string,std::string>&m){ std::vector<long long> h; auto it=m.find("PROCESSING_HISTORY"); if(it==m.end()) return h; std::istringstream ss(it->second); std::string l;
    while(std::getline(ss,l)){ if(l.empty()) continue; auto k=l.rfind(" | "); std::string t=k==std::string::npos?l:l.substr(k+3); if(t=="Unspecified Operation") h.push_back(0); else if(t.compare(0,2,"op")==0) h.push_back(atoi(t.c_str()+2)); else h.push_back(-1); } return h; };
  const int lim=opts().tier=="thorough"?34:22;
  for(int n=r.irange(8,lim);n>0;n--){
    int a=r.irange(0,NR-1),b=r.irange(0,NR-1); A*&R=reg[a]; std::string o; std::vector<long long> p,z,geo,ans; int f=0; bool err=false;
    int k=r.irange(0,29); { int nf=0; for(bool q: data) nf+=q; if(nf==0&&r.chance(.7)) k=0; }
    const int w=R->width(),h=R->height();
    auto win=[&](int W,int H){ int xo=0,yo=0,pw=0,ph=0; if(W>0&&r.chance(.6)){ xo=r.irange(0,W-1); yo=r.irange(0,H-1); pw=r.irange(1,W+2); ph=r.irange(1,H+2); } p={xo,yo,pw,ph}; };
    try {
      if(k<=1){ int W=r.irange(1,5),H=r.irange(1,5),nd=r.irange(0,nnd-1),pr=r.irange(0,(int)projs.size()-1),note=r.irange(0,4); o="new"; p={W,H,nd,pr,note};
        delete R; R=new A(W,H,pal.v[1]); for(int i=0;i<W*H;i++){ int c=r.irange(0,np-1); z.push_back(c); R->data()[i]=pal.v[c]; }
        R->setNoData(pal.v[nd]); if(r.chance(.7)){ geo={r.irange(-50,50),r.irange(1,30),r.chance(.3)?r.irange(-9,9):0,r.irange(-50,50),r.chance(.3)?r.irange(-9,9):0,-r.irange(2,30)}; R->geotransform.assign(geo.begin(),geo.end()); }
        R->projection=projs[pr]; if(note) R->metadata["NOTE"]="n"+std::to_string(note);
        data[a]=alive[a]=true; fn[a]=0; gsrc[a]=false; }
      else if(k<=7&&data[a]){ int x=r.irange(0,w-1),y=r.irange(0,h-1),c=r.irange(0,np-1); o="set"; p={x,y,c}; (*R)(x,y)=pal.v[c]; }
      else if(k==8&&data[a]){ int c=r.irange(0,nnd-1); o="nodata"; p={c}; R->setNoData(pal.v[c]); }
      else if(k==9&&alive[b]&&a!=b){ o="copy"; if(r.chance(.5)){ delete R; R=new A(*reg[b]); } else *R=*reg[b]; data[a]=data[b]; alive[a]=true; fn[a]=fn[b]; ver[a]=ver[b]; gsrc[a]=gsrc[b]; }
      else if(k==10&&alive[b]&&a!=b){ int c=r.irange(0,np-1); o="template"; p={c}; delete R; if(r.chance(.5)) R=new A(*reg[b],pal.v[c]); else R=new A(A::make_from_template(*reg[b],pal.v[c])); data[a]=alive[a]=true; fn[a]=0; gsrc[a]=false; }
      else if(k<=13&&data[a]&&gdal){ f=r.irange(1,NGDAL); o="gsave"; p={++label,r.chance(.4)?r.irange(-4,9):0,r.chance(.4)?r.irange(-4,9):0,r.irange(0,1)}; R->saveGDAL(path(f),"op"+std::to_string(label),p[1],p[2],p[3]); fkind[f]=1; fver[f]++; fw[f]=w; fh[f]=h; }
      else if(k==14&&data[a]&&gdal){ f=r.irange(1,NGDAL); int px=w>2?r.irange(0,(w-1)/2):0,py=h>2?r.irange(0,(h-1)/2):0; o="xsave"; ++label; bool un=r.chance(.2); p={un?0:label,r.chance(.4)?r.irange(0,9):0,r.chance(.4)?r.irange(0,9):0,px,py}; SaveGDAL(*R,path(f),un?std::string():"op"+std::to_string(label),p[1],p[2],px,py,r.chance(.5)); 
        p={p[0],p[1],p[2],px,py}; fkind[f]=1; fver[f]++; fw[f]=w-2*px; fh[f]=h-2*py; }
      else if(k<=18&&gdal){ f=r.irange(1,r.chance(.9)?NGDAL:NF); if(f>NGDAL&&fkind[f]!=0) continue; o="gload"; win(fkind[f]?fw[f]:0,fh[f]); int ex=r.chance(.15); if(ex&&fkind[f]&&r.chance(.7)){ p[2]=fw[f]-p[0]; p[3]=fh[f]-p[1]; } int ld=r.chance(.7); p.push_back(ex); p.push_back(ld);
        std::unique_ptr<A> q; if(p[0]==0&&p[1]==0&&p[2]==0&&p[3]==0&&!ex&&ld&&r.chance(.5)) q.reset(new A(path(f))); else q.reset(new A(path(f),false,p[0],p[1],p[2],p[3],ex,ld));
        delete R; R=q.release(); data[a]=ld; alive[a]=true; fn[a]=f; gsrc[a]=true; ver[a]=fver[f]; }
      else if(k==19&&gdal){ f=r.irange(1,NGDAL); o="xload"; win(fkind[f]?fw[f]:0,fh[f]); int px=r.irange(0,2),py=r.irange(0,2); auto q=p; p={q[0],q[1],q[2],q[3],px,py}; if(!fkind[f]){ A t; LoadGDAL(path(f),t,px,py,p[0],p[1],p[2],p[3]); } else { if(r.chance(.5)){ delete R; R=new A(); } LoadGDAL(path(f),*R,px,py,p[0],p[1],p[2],p[3]); } data[a]=alive[a]=true; fn[a]=f; gsrc[a]=true; ver[a]=-1; }
      else if(k<=21&&data[a]){ f=r.irange(NGDAL+1,NF); o="nsave"; R->saveToCache(path(f)); fkind[f]=2; fver[f]++; fn[a]=f; gsrc[a]=false; }
      else if(k==22){ f=r.irange(NGDAL+1,NF); o="nload"; int ld=r.chance(.7); p={ld}; std::unique_ptr<A> q(new A(path(f),true,0,0,0,0,false,ld)); delete R; R=q.release(); data[a]=ld; alive[a]=true; fn[a]=f; gsrc[a]=false; }
      else if(k==23&&data[a]){ f=r.irange(NGDAL+1,NF); o="cache"; R->setCacheFilename(path(f)); fn[a]=f; }
      else if(k<=26&&alive[a]&&fn[a]>NGDAL){ o="dump"; R->dumpData(); if(data[a]){ data[a]=false; gsrc[a]=false; fkind[fn[a]]=2; fver[fn[a]]++; } }
      else if(k<=28&&alive[a]&&(data[a]||!gsrc[a]||ver[a]==fver[fn[a]])){ o="load"; R->loadData(); data[a]=true; }
      else if(k==29){ f=r.irange(1,NGDAL); o="header"; int32_t H=-5,W=-5; GDALDataType dt; double g[6]={0,0,0,0,0,0}; if(fkind[f]){ A t(path(f)); geo=ints(t.geotransform); if(geo==std::vector<long long>{1000,1,0,1000,0,-1}) continue; }
        getGDALDimensions(path(f),H,W,dt,g); int32_t H2,W2; T nd; double g2[6]={0,0,0,0,0,0}; getGDALHeader<T>(path(f),H2,W2,nd,g2);
        ans={W,H,code(nd),W2,H2,dt==NativeTypeToGDAL<T>(),peekGDALType(path(f))==dt}; for(auto q: ints(std::vector<double>(g,g+6))) ans.push_back(q); for(auto q: ints(std::vector<double>(g2,g2+6))) ans.push_back(q); geo.clear(); }
      else { if(r.chance(.95)) n++; continue; }
    } catch(const std::runtime_error&e){ err=true; }
    Json j; j.s("o",o).i("a",a+1).i("b",b+1).i("f",f).a("p",p).a("z",z).a("geo",geo).a("ans",ans).b("err",err);
    std::vector<std::string> S; for(int q=0;q<NR;q++){ A&X=*reg[q]; Json s; std::vector<long long> zz; if(!X.empty()) for(unsigned i=0;i<X.size();i++) zz.push_back(code(X.data()[i]));
      auto nt=X.metadata.find("NOTE"); int note=nt==X.metadata.end()?0:(nt->second.size()==2&&nt->second[0]=='n'?nt->second[1]-'0':-1);
      s.i("w",X.width()).i("h",X.height()).i("nd",code(X.noData())).a("geo",ints(X.geotransform)).i("proj",pcode(X.projection)).a("hist",hist(X.metadata)).i("note",note).b("data",!X.empty()).a("z",zz); S.push_back(s.str()); }
    j.raw("S",jraw(S)); steps.push_back(j.str());
  }
  for(auto p: reg) delete p;
  Json j; j.i("id",id).s("type",tn).i("nr",NR).i("nf",NF).i("def",code((T)-1)).i("zero",code((T)0)).raw("ops",jraw(steps)); return j.str();
}

int main(int argc,char**argv){
  char base[]="/tmp/vtioXXXXXX"; dir=mkdtemp(base);
  int rc=vt_main(argc,argv,[](int id,Rng&r)->std::string{ prepare();
    switch(id%9){ case 0: return go<uint8_t>(id,r,"uint8",true); case 1: return go<int16_t>(id,r,"int16",true); case 2: return go<uint16_t>(id,r,"uint16",true);
      case 3: return go<int32_t>(id,r,"int32",true); case 4: return go<uint32_t>(id,r,"uint32",true); case 5: return go<float>(id,r,"float",true); case 6: return go<double>(id,r,"double",true);
      case 7: return go<int8_t>(id,r,"int8",false); default: return go<int64_t>(id,r,"int64",false); } });
  if(DIR*d=opendir(base)){ while(auto*e=readdir(d)) if(e->d_name[0]!='.') unlink((dir+"/"+e->d_name).c_str()); closedir(d); } rmdir(base);
  return rc;
}
