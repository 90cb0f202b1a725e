// Recorder: generated terrain at a size of ten samples per lattice cell times
// s, and at a divisor of that size, from the same seed.
#include "common.hpp"
#include <richdem/common/Array2D.hpp>
#include <richdem/terrain_generation.hpp>
using namespace richdem;
using namespace vt;
static std::vector<long long> made(int n,uint32_t seed,Rng&r,bool&kept){
  Array2D<double> a(n,n,r.chance(.2)?std::numeric_limits<double>::quiet_NaN():(double)r.irange(-3,3)); const double nd=r.chance(.5)?-9999:(double)r.irange(-1,1);
  if(r.chance(.3)) for(int k=0;k<n;k++) a(r.irange(0,n-1),r.irange(0,n-1))=nd;
  a.setNoData(nd); a.geotransform={1,(double)r.irange(1,3),0,7,0,-2}; a.projection="somewhere"; a.metadata["k"]="v"; const auto g=a.geotransform;
  generate_perlin_terrain(a,seed);
  kept=kept&&a.width()==n&&a.height()==n&&a.noData()==nd&&a.geotransform==g&&a.projection=="somewhere"&&a.metadata.at("k")=="v";
  std::vector<long long> v; for(int y=0;y<n;y++) for(int x=0;x<n;x++){ const double q=(2*a(x,y)-1)*10000; v.push_back(q>=-3e4&&q<=3e4?std::llround(q):99999); } return v; }
static std::string one(int id,Rng&r){
  const int s=r.chance(.8)?r.irange(3,6):r.irange(7,opts().tier=="thorough"?11:9), N=10*s; std::vector<int> d; for(int k=1;k<=N;k++) if(N%k==0&&k<N) d.push_back(k);
  const int n=r.pick(d); const uint32_t seed=r.chance(.3)?(uint32_t)r.irange(0,20):(uint32_t)r.next(); bool kept=true;
  std::vector<long long> v,u; if(r.chance(.5)){ v=made(N,seed,r,kept); u=made(n,seed,r,kept); } else { u=made(n,seed,r,kept); v=made(N,seed,r,kept); }
  Json j; j.i("id",id).s("seed",std::to_string(seed)).i("s",s).i("n",n).b("kept",kept).a("v",v).a("u",u); return j.str(); }
int main(int c,char**v){ return vt_main(c,v,[](int id,Rng&r)->std::string{ return one(id,r); }); }
