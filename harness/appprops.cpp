// Flow proportions of a raster, for judging what rd_flow_accumulation.exe wrote.
#include <richdem/common/Array2D.hpp>
#include <richdem/common/Array3D.hpp>
#include <richdem/flowmet/Fairfield1991.hpp>
#include <richdem/flowmet/Freeman1991.hpp>
#include <richdem/flowmet/Holmgren1994.hpp>
#include <richdem/flowmet/OCallaghan1984.hpp>
#include <richdem/flowmet/Quinn1991.hpp>
#include <richdem/flowmet/Tarboton1997.hpp>
#include <cstdio>
#include <string>
using namespace richdem;
int main(int,char**v){
  Array2D<double> dem((std::string(v[1]))); Array3D<float> p(dem); const int alg=std::stoi(v[3]); const double x=std::stof(v[4]);
  switch(alg){ case 1: FM_OCallaghan<Topology::D8>(dem,p); break; case 3: FM_Quinn(dem,p); break; case 4: FM_Holmgren(dem,p,x); break; case 5: FM_Freeman(dem,p,x); break; default: FM_Tarboton(dem,p); }
  FILE*f=fopen(v[2],"w"); for(int y=0;y<dem.height();y++) for(int c=0;c<dem.width();c++) for(int n=0;n<9;n++) fprintf(f,"%.9g\n",(double)p(c,y,n)); fclose(f);
}
