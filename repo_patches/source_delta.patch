From 1845c1bbfc64c5e13f0043d97186b0cceeec52f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 01/75] fix: size-limited depression filling measures each
 depression separately

A rim cell bordering several separate depressions put all of them into one
list, so that depressions no larger than max_dep_size were left unfilled
depending on what else shared their rim cell.
---
 include/richdem/depressions/Barnes2014.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/richdem/depressions/Barnes2014.hpp b/include/richdem/depressions/Barnes2014.hpp
index db97e2d..4ccc433 100644
--- a/include/richdem/depressions/Barnes2014.hpp
+++ b/include/richdem/depressions/Barnes2014.hpp
@@ -890,7 +890,8 @@ void PriorityFlood_Barnes2014_max_dep(
   progress.start( elevations.size() );
   while(open.size()>0 || pit.size()>0){
     GridCellZ<elev_t> c;
-    if(pit.size()>0){                       //There are cells inside a depression which should be processed
+    const bool in_depression = pit.size()>0;
+    if(in_depression){                      //There are cells inside a depression which should be processed
       c=pit.front();                        //Get next cell of the depression
       pit.pop();
       dep_cells.push_back(c);               //Add cell to list of cells in depression
@@ -919,6 +920,10 @@ void PriorityFlood_Barnes2014_max_dep(
           ++pitc;                               //Count it
         pit.push(GridCellZ<elev_t>(nx,ny,c.z)); //Add this cell to depression-prcessing queue
         dep_elev = c.z;                         //Note rim/spill-point elevation
+        if(!in_depression){                     //c is on the rim and may border further, separate, depressions.
+          open.push(c);                         //Crawl this one by itself, so that its size is not mixed up
+          break;                                //with theirs, and look at c's other neighbours afterwards.
+        }
       } else{
         open.emplace(nx,ny,elevations(nx,ny));  //Not a depression, carry on
       }
-- 
2.43.0


From 9936e6036fe9a3c1bfe2b2cbea48d6a838455237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 02/75] fix: Lindsay2016 visits the whole raster when it is to
 fill depressions

The flood stopped at the last pit.  Cells of that pit's depression which had
not been visited were not filled, although the pit itself was raised over
them, so depressions remained.
---
 include/richdem/depressions/Lindsay2016.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/richdem/depressions/Lindsay2016.hpp b/include/richdem/depressions/Lindsay2016.hpp
index d16c015..54625da 100644
--- a/include/richdem/depressions/Lindsay2016.hpp
+++ b/include/richdem/depressions/Lindsay2016.hpp
@@ -375,7 +375,9 @@ void Lindsay2016(
       }
 
       --total_pits;
-      if(total_pits==0)
+      //Stop early only if nothing has to be filled: filling raises cells above
+      //parts of a depression which have not been visited yet.
+      if(total_pits==0 && (mode==COMPLETE_BREACHING || !fill_depressions))
         break;
     }
 
-- 
2.43.0


From 236f7d93a7cdf9dd348832111fcfc684ba2ee446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 03/75] fix: constrained breaching digs no longer and no deeper
 than permitted

Paths over a limit were lowered by the whole depth needed (or dug completely,
when only too long).  Dig each cell to the pit's level or maxdepth below the
original surface, whichever is higher, for at most maxpathlen cells.  Gives
the result tests/breaching/testdem1.constrained-len4-depth3.out asks for.
---
 include/richdem/depressions/Lindsay2016.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/richdem/depressions/Lindsay2016.hpp b/include/richdem/depressions/Lindsay2016.hpp
index 54625da..4f2c824 100644
--- a/include/richdem/depressions/Lindsay2016.hpp
+++ b/include/richdem/depressions/Lindsay2016.hpp
@@ -241,6 +241,9 @@ void Lindsay2016(
   Array2D<uint32_t>         backlinks(dem, NO_BACK_LINK);
   Array2D<uint8_t>          visited(dem, false);
   Array2D<uint8_t>          pits(dem, false);
+  //Constrained breaching limits the depth below the original surface, however
+  //many paths lead through a cell
+  const Array2D<elev_t>     original = (mode==CONSTRAINED_BREACHING) ? dem : Array2D<elev_t>();
   std::vector<uint32_t>     flood_array;
   GridCellZk_low_pq<elev_t> pq;
   ProgressBar               progress;
@@ -353,7 +356,7 @@ void Lindsay2016(
         target_height = dem(c.x,c.y);
 
         //The path fits within the limits. "Drill, baby, drill."
-        if(pathlen<=maxpathlen && pathdepth<=maxdepth){
+        if(mode!=CONSTRAINED_BREACHING && pathlen<=maxpathlen && pathdepth<=maxdepth){
           while(cc!=NO_BACK_LINK && dem(cc)>=target_height){
             dem(cc)       = target_height;
             cc            = backlinks(cc);                                                    //Follow path back
@@ -361,15 +364,12 @@ void Lindsay2016(
               target_height = std::nextafter(target_height,std::numeric_limits<elev_t>::lowest()); //Decrease target depth slightly for each cell on path to ensure drainage
           }
         } else if(mode==CONSTRAINED_BREACHING){ //TODO: Refine this with regards to the paper
-          elev_t current_height = dem(cc);
-          while(cc!=NO_BACK_LINK && dem(cc)>=target_height){
-            if(pathdepth<=maxdepth)
-              dem(cc) = current_height;
-            else
-              dem(cc) -= pathdepth;
+          //Drill as long and as deep as permitted, but no more
+          for(uint32_t len=0; len<maxpathlen && cc!=NO_BACK_LINK && dem(cc)>=target_height; len++){
+            dem(cc) = std::min(dem(cc), std::max(target_height, (elev_t)(original(cc)-maxdepth)));
             if(eps_gradients)
-              current_height = std::nextafter(current_height,std::numeric_limits<elev_t>::lowest());
-            cc             = backlinks(cc);
+              target_height = std::nextafter(target_height,std::numeric_limits<elev_t>::lowest());
+            cc = backlinks(cc);
           }
         }
       }
-- 
2.43.0


From 8bd4537ed560699225870cda70c2c429b9701f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 04/75] fix: D-infinity metric gives the greater share to the
 nearer neighbour

---
 include/richdem/flowmet/Tarboton1997.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/richdem/flowmet/Tarboton1997.hpp b/include/richdem/flowmet/Tarboton1997.hpp
index 54bf8dd..2429888 100644
--- a/include/richdem/flowmet/Tarboton1997.hpp
+++ b/include/richdem/flowmet/Tarboton1997.hpp
@@ -136,8 +136,9 @@ void FM_Tarboton(
     } else if(rmax==dang){
       props(x,y,nwrap(nmax+1)) = 1;
     } else {
-      props(x,y,nmax)          = rmax/(M_PI/4.);
-      props(x,y,nwrap(nmax+1)) = 1-rmax/(M_PI/4.);      
+      //Each neighbour's share is greater the nearer the flow direction is to it
+      props(x,y,nmax)          = 1-rmax/(M_PI/4.);
+      props(x,y,nwrap(nmax+1)) = rmax/(M_PI/4.);
     }
   }
   progress.stop();
-- 
2.43.0


From 443b12e7e8b2d17936b9b4fc8683d317049c7e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 05/75] fix: four-connected flow metrics write the directions
 that flow accumulation reads

---
 include/richdem/flowmet/Fairfield1991.hpp  | 5 +++--
 include/richdem/flowmet/OCallaghan1984.hpp | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/richdem/flowmet/Fairfield1991.hpp b/include/richdem/flowmet/Fairfield1991.hpp
index 3452927..2e353f6 100644
--- a/include/richdem/flowmet/Fairfield1991.hpp
+++ b/include/richdem/flowmet/Fairfield1991.hpp
@@ -71,8 +71,9 @@ void FM_FairfieldLeymarie(const Array2D<elev_t> &elevations, Array3D<float> &pro
     if(greatest_n==0)
       continue;
 
-    props(x,y,0)          = HAS_FLOW_GEN;
-    props(x,y,greatest_n) = 1;
+    props(x,y,0) = HAS_FLOW_GEN;
+    //Proportions are always addressed using D8 directions
+    props(x,y,(topo==Topology::D4)?2*greatest_n-1:greatest_n) = 1;
 
     assert(elevations(x,y)>=elevations(x+dx[greatest_n],y+dy[greatest_n])); //Ensure flow goes downhill
   }
diff --git a/include/richdem/flowmet/OCallaghan1984.hpp b/include/richdem/flowmet/OCallaghan1984.hpp
index 148e5d9..33ff046 100644
--- a/include/richdem/flowmet/OCallaghan1984.hpp
+++ b/include/richdem/flowmet/OCallaghan1984.hpp
@@ -71,7 +71,8 @@ void FM_OCallaghan(
 
     assert(elevations(ci)>=elevations(ci+elevations.nshift(lowest_n))); //Ensure flow goes downhill
 
-    props(x,y,lowest_n) = 1;
+    //Proportions are always addressed using D8 directions
+    props(x,y,(topo==Topology::D4)?2*lowest_n-1:lowest_n) = 1;
   }
   progress.stop();
 }
-- 
2.43.0


From 151baa631c5f0f0f387b80e26e035e3797a190f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 06/75] fix: Freeman and Holmgren weights no longer overflow or
 underflow

---
 include/richdem/flowmet/Freeman1991.hpp  | 28 ++++++++++++++----------
 include/richdem/flowmet/Holmgren1994.hpp | 26 +++++++++++++---------
 2 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/include/richdem/flowmet/Freeman1991.hpp b/include/richdem/flowmet/Freeman1991.hpp
index f6b9013..58847fd 100644
--- a/include/richdem/flowmet/Freeman1991.hpp
+++ b/include/richdem/flowmet/Freeman1991.hpp
@@ -40,7 +40,10 @@ void FM_Freeman(
 
     const E e    = elevations(x,y);
 
-    double C = 0;
+    //Weights are calculated relative to the steepest gradient. Otherwise, large
+    //(small) gradients raised to a power overflow (underflow).
+    double weights[9] = {0,0,0,0,0,0,0,0,0};
+    double wmax       = 0;
     for(int n=1;n<=8;n++){
       const int nx = x+d8x[n];
       const int ny = y+d8y[n];
@@ -55,10 +58,16 @@ void FM_Freeman(
       if(ne<e){
         const double rise = e-ne;
         const double run  = dr[n];
-        const double grad = rise/run;
-        const auto cval   = std::pow(grad,xparam);
-        props(x,y,n)      = cval;
-        C                += cval;
+        weights[n]        = rise/run;
+        wmax              = std::max(wmax,weights[n]);
+      }
+    }
+
+    double C = 0;
+    for(int n=1;n<=8;n++){
+      if(weights[n]>0){
+        weights[n] = std::pow(weights[n]/wmax,xparam);
+        C         += weights[n];
       }
     }
 
@@ -67,13 +76,8 @@ void FM_Freeman(
 
       C = 1/C; //TODO
 
-      for(int n=1;n<=8;n++){
-        auto &this_por = props(x,y,n);
-        if(this_por>0)
-          this_por *= C;
-        else
-          this_por = 0;
-      }
+      for(int n=1;n<=8;n++)
+        props(x,y,n) = weights[n]*C;
     }
   }
   progress.stop();
diff --git a/include/richdem/flowmet/Holmgren1994.hpp b/include/richdem/flowmet/Holmgren1994.hpp
index bc8e84b..517e8e3 100644
--- a/include/richdem/flowmet/Holmgren1994.hpp
+++ b/include/richdem/flowmet/Holmgren1994.hpp
@@ -44,8 +44,10 @@ void FM_Holmgren(
 
     const E e = elevations(x,y);
 
-    double C = 0;
-
+    //Weights are calculated relative to the greatest. Otherwise, large (small)
+    //gradients raised to a power overflow (underflow).
+    double weights[9] = {0,0,0,0,0,0,0,0,0};
+    double wmax       = 0;
     for(int n=1;n<=8;n++){
       const int nx = x+d8x[n];
       const int ny = y+d8y[n];
@@ -61,8 +63,16 @@ void FM_Holmgren(
         const double rise = e-ne;
         const double run  = dr[n];
         const double grad = rise/run;
-        props(x,y,n)      = std::pow(grad * L[n],xparam);
-        C                += props(x,y,n);
+        weights[n]        = grad * L[n];
+        wmax              = std::max(wmax,weights[n]);
+      }
+    }
+
+    double C = 0;
+    for(int n=1;n<=8;n++){
+      if(weights[n]>0){
+        weights[n] = std::pow(weights[n]/wmax,xparam);
+        C         += weights[n];
       }
     }
 
@@ -71,12 +81,8 @@ void FM_Holmgren(
 
       C = 1/C;
 
-      for(int n=1;n<=8;n++){
-        if(props(x,y,n)>0)
-          props(x,y,n) *= C;
-        else
-          props(x,y,n) = 0;
-      }
+      for(int n=1;n<=8;n++)
+        props(x,y,n) = weights[n]*C;
     }
   }
   progress.stop();
-- 
2.43.0


From cfbeb6d293b4ae699d46c1d030868cd3c8bac7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 07/75] fix: flow accumulation counts what edge cells pass on

---
 include/richdem/methods/flow_accumulation_generic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/methods/flow_accumulation_generic.hpp b/include/richdem/methods/flow_accumulation_generic.hpp
index fa7846f..26c4aa4 100644
--- a/include/richdem/methods/flow_accumulation_generic.hpp
+++ b/include/richdem/methods/flow_accumulation_generic.hpp
@@ -45,8 +45,8 @@ void FlowAccumulation(const Array3D<float> &props, Array2D<A> &accum){
   //Create dependencies array
   RDLOG_PROGRESS<<"Creating dependencies array..."<<std::endl;
   Array2D<int8_t> deps(props, 0);
-  for(int y=1;y<props.height()-1;y++)
-  for(int x=1;x<props.width()-1;x++){
+  for(int y=0;y<props.height();y++)
+  for(int x=0;x<props.width();x++){
     const int ci = accum.xyToI(x,y);
     if(props.isNoData(ci))
       continue;
-- 
2.43.0


From 9f236be70943695b29022b85c4a2465b44e04169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 08/75] fix: D8 accumulation counts dependencies atomically

---
 include/richdem/methods/d8_methods.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/richdem/methods/d8_methods.hpp b/include/richdem/methods/d8_methods.hpp
index f2010c6..192654e 100644
--- a/include/richdem/methods/d8_methods.hpp
+++ b/include/richdem/methods/d8_methods.hpp
@@ -87,6 +87,8 @@ void d8_flow_accum(const Array2D<T> &flowdirs, Array2D<U> &area){
 
       //Neighbour is valid and is part of the grid. The neighbour depends on this
       //cell, so increment its dependency count.
+      //Cells in other rows may be doing so at the same time.
+      #pragma omp atomic
       ++dependency(nx,ny);
     }
   }
-- 
2.43.0


From cd69c4fe4c6e234484f0ccb2626b278dbd8a403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 09/75] fix: d8_upslope_cells compiles and draws lines in every
 direction

---
 include/richdem/methods/d8_methods.hpp | 53 ++++++++++++++------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/include/richdem/methods/d8_methods.hpp b/include/richdem/methods/d8_methods.hpp
index 192654e..6f6bd18 100644
--- a/include/richdem/methods/d8_methods.hpp
+++ b/include/richdem/methods/d8_methods.hpp
@@ -13,6 +13,7 @@
 #include <richdem/common/logger.hpp>
 #include <richdem/common/ProgressBar.hpp>
 
+#include <cstdlib>
 #include <queue>
 #include <stdexcept>
 
@@ -185,35 +186,37 @@ void d8_upslope_cells(
 
   std::queue<GridCell> expansion;
 
-  if(x0>x1){
-    std::swap(x0,x1);
-    std::swap(y0,y1);
-  }
-
-  //Modified Bresenham Line-Drawing Algorithm
-  int deltax     = x1-x0;
-  int deltay     = y1-y0;
-  float error    = 0;
-  float deltaerr = (float)deltay/(float)deltax;
-
-  if (deltaerr<0)
-    deltaerr = -deltaerr;
-
-  RDLOG_MISC<<"Line slope is "<<deltaerr;
-  int y=y0;
-  for(int x=x0;x<=x1;x++){
+  //Modified Bresenham Line-Drawing Algorithm: diagonal steps also include a
+  //corner cell, so that flow cannot pass between the cells of the line
+  const int deltax = std::abs(x1-x0);
+  const int deltay = std::abs(y1-y0);
+  const int stepx  = sgn(x1-x0);
+  const int stepy  = sgn(y1-y0);
+  int       error  = deltax-deltay;
+  int       x      = x0;
+  int       y      = y0;
+  while(true){
     expansion.push(GridCell(x,y));
-    upslope_cells(x,y)=2;
-    error+=deltaerr;
-    if (error>=0.5) {
-      expansion.push(GridCell(x+1,y));
-      upslope_cells(x+1,y) = 2;
-      y                   += sgn(deltay);
-      error               -= 1;
+    upslope_cells(x,y) = 2;
+    if(x==x1 && y==y1)
+      break;
+    const bool movex = 2*error>-deltay;
+    const bool movey = 2*error< deltax;
+    if(movex){
+      error -= deltay;
+      x     += stepx;
+    }
+    if(movex && movey){
+      expansion.push(GridCell(x,y));
+      upslope_cells(x,y) = 2;
+    }
+    if(movey){
+      error += deltax;
+      y     += stepy;
     }
   }
 
-  progress.start(flowdirs.data_cells);
+  progress.start(flowdirs.size());
   long int ccount=0;
   while(expansion.size()>0){
     GridCell c=expansion.front();
-- 
2.43.0


From 748e504fbb678a9bb9483b285aaab992a28cfb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 10/75] fix: D-infinity accumulation gives the greater share to
 the nearer neighbour

---
 include/richdem/methods/dinf_methods.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/richdem/methods/dinf_methods.hpp b/include/richdem/methods/dinf_methods.hpp
index 6535315..6439146 100644
--- a/include/richdem/methods/dinf_methods.hpp
+++ b/include/richdem/methods/dinf_methods.hpp
@@ -81,8 +81,9 @@ static void area_proportion(float flowdir, int nhigh, int nlow, float &phigh, fl
     phigh = 1;
     plow  = 0;
   } else {
-    phigh = (nhigh*(M_PI/4.0)-flowdir)/(M_PI/4.0);
-    plow  = 1-phigh;
+    //The nearer the flow is to a neighbour's direction, the more it receives
+    plow  = (nhigh*(M_PI/4.0)-flowdir)/(M_PI/4.0);
+    phigh = 1-plow;
   }
 
   assert(phigh+plow==1);  //TODO: This isn't necessarily so in floating-point... or is it?
-- 
2.43.0


From df3a13d3951aecc243321a9304d7029132cb7d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 11/75] fix: D-infinity accumulation counts cells that neither
 receive nor pass on flow

---
 include/richdem/methods/dinf_methods.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/richdem/methods/dinf_methods.hpp b/include/richdem/methods/dinf_methods.hpp
index 6439146..d4637e9 100644
--- a/include/richdem/methods/dinf_methods.hpp
+++ b/include/richdem/methods/dinf_methods.hpp
@@ -192,8 +192,6 @@ void dinf_upslope_area(
     for(int x=0;x<flowdirs.width();x++)
       if(flowdirs(x,y)==flowdirs.noData())
         continue;
-      else if(flowdirs(x,y)==NO_FLOW)
-        continue;
       else if(dependency(x,y)==0)
         sources.emplace(x,y);
   }
-- 
2.43.0


From 94d47eef5cf3ba2a75bac5e9e589ba5f022a92f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 12/75] fix: D-infinity accumulation counts dependencies
 atomically

---
 include/richdem/methods/dinf_methods.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/richdem/methods/dinf_methods.hpp b/include/richdem/methods/dinf_methods.hpp
index d4637e9..b949bd8 100644
--- a/include/richdem/methods/dinf_methods.hpp
+++ b/include/richdem/methods/dinf_methods.hpp
@@ -170,10 +170,14 @@ void dinf_upslope_area(
         nlx = x+dinf_dx[n_low];
         nly = y+dinf_dy[n_low];
       }
-      if( n_low!=-1 && flowdirs.inGrid(nlx,nly) && flowdirs(nlx,nly)!=flowdirs.noData() )
+      if( n_low!=-1 && flowdirs.inGrid(nlx,nly) && flowdirs(nlx,nly)!=flowdirs.noData() ){
+        #pragma omp atomic
         dependency(nlx,nly)++;
-      if( flowdirs.inGrid(nhx,nhy) && flowdirs(nhx,nhy)!=flowdirs.noData() )
+      }
+      if( flowdirs.inGrid(nhx,nhy) && flowdirs(nhx,nhy)!=flowdirs.noData() ){
+        #pragma omp atomic
         dependency(nhx,nhy)++;
+      }
     }
   }
   RDLOG_TIME_USE<<"Succeeded in = "<<progress.stop()<<" s";
-- 
2.43.0


From 037b9c14e03e8b0fb59ec6eff38a2a2ce94d716b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 13/75] fix: D-infinity directions due east are no longer
 mistaken for no flow

---
 include/richdem/flats/flat_resolution_dinf.hpp | 4 +++-
 include/richdem/flowmet/dinf_flowdirs.hpp      | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/richdem/flats/flat_resolution_dinf.hpp b/include/richdem/flats/flat_resolution_dinf.hpp
index b683504..fa85764 100644
--- a/include/richdem/flats/flat_resolution_dinf.hpp
+++ b/include/richdem/flats/flat_resolution_dinf.hpp
@@ -12,7 +12,7 @@
 
 namespace richdem {
 
-static const float d8_to_dinf[9]={-1, 4*M_PI/4, 3*M_PI/4, 2*M_PI/4, 1*M_PI/4, 0, 7*M_PI/4, 6*M_PI/4, 5*M_PI/4};
+static const float d8_to_dinf[9]={-1, 4*M_PI/4, 3*M_PI/4, 2*M_PI/4, 1*M_PI/4, 8*M_PI/4, 7*M_PI/4, 6*M_PI/4, 5*M_PI/4};
 
 static float dinf_masked_FlowDir(
   const Array2D<int32_t> &flat_resolution_mask,
@@ -58,6 +58,8 @@ static float dinf_masked_FlowDir(
   double rg=NO_FLOW;
   if(nmax!=-1){
     rg=(af[nmax]*rmax+ac[nmax]*M_PI/2);
+    if(rg==0) //Due east is a full turn, since zero is NO_FLOW
+      rg = 2*M_PI;
   } else {
     for(int n=1;n<=8;n++){  //TODO: I have a feeling this is potentially unsafe as it may create dependency loops. Does it? TODO: Switch this to dinf_dx
       if(groups(x+d8x[n],y+d8y[n])==groups(x,y) && flat_resolution_mask(x+d8x[n],y+d8y[n])<flat_resolution_mask(x,y)){
diff --git a/include/richdem/flowmet/dinf_flowdirs.hpp b/include/richdem/flowmet/dinf_flowdirs.hpp
index dfc2a97..3e56533 100644
--- a/include/richdem/flowmet/dinf_flowdirs.hpp
+++ b/include/richdem/flowmet/dinf_flowdirs.hpp
@@ -40,7 +40,7 @@ static const double af[8] = { 1., -1.,  1., -1.,  1., -1., 1., -1.};
   @param[in] x            x-coordinate of cell to determine flow direction for
   @param[in] y            y-coordinate of cell to determine flow direction for
 
-  @return A floating-point value between [0,2*Pi) indicating flow direction
+  @return A floating-point value in (0,2*Pi] indicating flow direction, or NO_FLOW
 */
 template <class T>
 static float dinf_FlowDir(const Array2D<T> &elevations, const int x, const int y){
@@ -57,7 +57,7 @@ static float dinf_FlowDir(const Array2D<T> &elevations, const int x, const int y
     else if(x==0)
       return 4*M_PI/4;  //D8: 1
     else if(x==elevations.width()-1)
-      return 0*M_PI/4;  //D8: 5
+      return 8*M_PI/4;  //D8: 5. Not zero, since that is NO_FLOW
     else if(y==0)
       return 2*M_PI/4;  //D8: 3
     else if(y==elevations.height()-1)
@@ -111,6 +111,10 @@ static float dinf_FlowDir(const Array2D<T> &elevations, const int x, const int y
   if(nmax!=-1)
     rg = (af[nmax]*rmax+ac[nmax]*M_PI/2);
 
+  //Due east is a full turn, since zero is NO_FLOW
+  if(nmax!=-1 && rg==0)
+    rg = 2*M_PI;
+
   return rg;
 }
 
-- 
2.43.0


From 25f6a777c72e31ceb61240efff68e27d7af022e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 14/75] fix: Fill-Spill-Merge moves water that flows into the
 first cell

---
 include/richdem/depressions/fill_spill_merge.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/richdem/depressions/fill_spill_merge.hpp b/include/richdem/depressions/fill_spill_merge.hpp
index 1e33158..4a92d8e 100644
--- a/include/richdem/depressions/fill_spill_merge.hpp
+++ b/include/richdem/depressions/fill_spill_merge.hpp
@@ -279,17 +279,16 @@ static void MoveWaterIntoPits(
 
     //Coordinates of downstream neighbour, if any
     const auto ndir = flowdirs(c); //Neighbour direction
-    int n = NO_FLOW;               //Neighbour address
+    flat_c_idx n = NO_VALUE;       //Neighbour address
     if(ndir!=NO_FLOW){
       int x,y;
       topo.iToxy(c,x,y);
       const int nx = x+d8x[ndir];
       const int ny = y+d8y[ndir];
       n            = topo.xyToI(nx,ny);
-      assert(n>=0);
     }
 
-    if(n == NO_FLOW){    //If this is a pit cell, move the water to the appropriate depression's water_vol.
+    if(n == NO_VALUE){   //If this is a pit cell, move the water to the appropriate depression's water_vol.
       //Note that OCEAN cells have NO_FLOW so this will route water to the OCEAN
       //depression. This can be used to find out how much total run-off made it
       //into the ocean.
-- 
2.43.0


From 34e9befb3d2171ae2b6b5d9c0622dca5d4ff701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 15/75] fix: Array2D::flipHorz swaps with the last cell of its
 own row

---
 include/richdem/common/Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 46fd58e..a5a46c9 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -724,7 +724,7 @@ class Array2D {
   void flipHorz(){
     for(xy_t y=0;y<view_height;y++){
       T* start = &_data[xyToI(0,y)];
-      T* end   = &_data[xyToI(view_width,y)];
+      T* end   = &_data[xyToI(view_width-1,y)];
       while(start<end){
         std::swap(*start,*end);
         start++;
-- 
2.43.0


From 96eeeafcb3105f5615a0112d88262d09b04bb3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 16/75] fix: Array2D::transpose transposes

---
 include/richdem/common/Array2D.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index a5a46c9..d4ef0f4 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -738,11 +738,14 @@ class Array2D {
   */
   void transpose(){
     RDLOG_WARN<<"transpose() is an experimental feature.";
-    std::vector<T> new_data(view_width*view_height);
+    std::vector<T> new_data(size());
     for(xy_t y=0;y<view_height;y++)
     for(xy_t x=0;x<view_width;x++)
-      std::swap(_data[(i_t)x*(i_t)view_height+(i_t)y], _data[xyToI(x,y)]);
+      new_data[(i_t)x*(i_t)view_height+(i_t)y] = _data[xyToI(x,y)];
+    for(i_t i=0;i<size();i++)
+      _data[i] = new_data[i];
     std::swap(view_width,view_height);
+    _nshift = {{0,-1,-view_width-1,-view_width,-view_width+1,1,view_width+1,view_width,view_width-1}};
     //TODO: Offsets?
   }
 
-- 
2.43.0


From 361d2c0aa57eb33a4741d270c26aff96f25a755c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 17/75] fix: assigning to a ManagedVector no longer frees the
 memory it wraps

---
 include/richdem/common/ManagedVector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/richdem/common/ManagedVector.hpp b/include/richdem/common/ManagedVector.hpp
index 69b9d7c..39bfe90 100644
--- a/include/richdem/common/ManagedVector.hpp
+++ b/include/richdem/common/ManagedVector.hpp
@@ -111,6 +111,8 @@ class ManagedVector {
   template<class U>
   ManagedVector<T>& operator=(ManagedVector<U>&& other) noexcept {
     //std::cerr<<"ManagedVector move assignment of "<<((void*)other._data.get())<<std::endl;
+    if(!_owned)
+      _data.release();           //Wrapped memory belongs to someone else
     _size        = other.size();
     _data        = std::move(other._data);
     _owned       = other._owned;
-- 
2.43.0


From 08d6e33737e805bd55b366be99644f2e3d263878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 18/75] fix: Array2D::numDataCells no longer returns an
 outdated count

---
 include/richdem/common/Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index d4ef0f4..1b0f6e4 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -932,7 +932,7 @@ class Array2D {
     @return Returns the number of cells which are not NoData.
   */
   i_t numDataCells() const {
-    if(num_data_cells==NO_I)
+    if(num_data_cells==NO_I || !empty()) //Loaded data may have changed since the last count
       countDataCells();
     return num_data_cells;
   }
-- 
2.43.0


From 1b2edb852a1517a5af410f2c003e43e8bffd75de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 19/75] fix: metadata of a raster read through GDAL is kept

---
 include/richdem/common/Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 1b0f6e4..76f42eb 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -45,7 +45,7 @@ inline std::map<std::string, std::string> ProcessMetadata(char **metadata){
   if(metadata==NULL)
     return ret;
 
-  for(int metstri=0;metadata[metstri]==NULL;metstri++){
+  for(int metstri=0;metadata[metstri]!=NULL;metstri++){
     std::string metstr = metadata[metstri];
     const auto equals  = metstr.find("=");
     if(equals==std::string::npos){
-- 
2.43.0


From b521c0c4bcbe498827a19f4b3cc61bde3c76625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 20/75] fix: rasters without a geotransform can be saved to the
 native format

---
 include/richdem/common/Array2D.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 76f42eb..e841ef2 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -232,7 +232,9 @@ class Array2D {
     out.write(reinterpret_cast<const char*>(&num_data_cells), sizeof(i_t));
     out.write(reinterpret_cast<const char*>(&no_data),        sizeof(T  ));
 
-    out.write(reinterpret_cast<const char*>(geotransform.data()), 6*sizeof(double));
+    std::vector<double> out_geotransform = geotransform;
+    out_geotransform.resize(6);  //All zero if the raster has none
+    out.write(reinterpret_cast<const char*>(out_geotransform.data()), 6*sizeof(double));
     std::string::size_type projection_size = projection.size();
     out.write(reinterpret_cast<const char*>(&projection_size), sizeof(std::string::size_type));
     out.write(reinterpret_cast<const char*>(projection.data()), projection.size()*sizeof(const char));
@@ -268,6 +270,8 @@ class Array2D {
     in.read(reinterpret_cast<char*>(&no_data),        sizeof(T  ));
     geotransform.resize(6);
     in.read(reinterpret_cast<char*>(geotransform.data()), 6*sizeof(double));
+    if(geotransform==std::vector<double>(6,0))
+      geotransform.clear();      //The raster had none
 
     std::string::size_type projection_size;
     in.read(reinterpret_cast<char*>(&projection_size), sizeof(std::string::size_type));
-- 
2.43.0


From d192b3e074ab8147b905f982e9b1524d634dae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 21/75] fix: A2Array2D created from dimensions initialises its
 index of null tiles

---
 include/richdem/tiled/A2Array2D.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index 4b4654d..08bd956 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -244,6 +244,11 @@ class A2Array2D {
         data.back().back().created  = false;
       }
     }
+
+    not_null_tiles        = width*height;
+    quick_width_in_tiles  = width;
+    quick_height_in_tiles = height;
+    null_tile_quick.resize(quick_width_in_tiles*quick_height_in_tiles, false);
   }
 
   template<class U>
-- 
2.43.0


From 9f022fb23b7a41831a36235134605ae4370be8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 22/75] fix: A2Array2D::setNoData is not forgotten by tiles
 that are not in RAM

---
 include/richdem/tiled/A2Array2D.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index 08bd956..f3dff11 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -128,7 +128,9 @@ class A2Array2D {
     }
 
     if(tile.created){
+      const T ndval = tile.noData();
       tile.loadData();
+      tile.setNoData(ndval); //May have been changed while the tile was not in RAM
       tile.printStamp(5,"Tile load, before reorientating"); //Print stamp before reorientating since this must match parallel_pf.exe
       if(readonly){
         if((tile.geotransform[1]<0) ^ flipH)
-- 
2.43.0


From c600a2729fb0df4f48e199c169d287c50685bad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 23/75] fix: LRU does not ignore an item which has been evicted
 since it was last inserted

---
 include/richdem/tiled/lru.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/richdem/tiled/lru.hpp b/include/richdem/tiled/lru.hpp
index a81faf7..aceaf91 100644
--- a/include/richdem/tiled/lru.hpp
+++ b/include/richdem/tiled/lru.hpp
@@ -19,7 +19,6 @@ class LRU {
   typedef std::list<T> cachetype; ///< Container used for storage by the cache
   int len;                        ///< Number of items in the cache
   int maxlen;                     ///< Maximum size the cache is allowed to be
-  T   last;                       ///< Copy of the last inserted item. Speeds up insertion. TODO: This'd be better as a pointer
   std::unordered_map<T, typename std::list<T>::iterator> visited; ///< Used for O(1) access to members
 
  public:
@@ -39,9 +38,8 @@ class LRU {
   ///
   ///@param entry The item to add to the queue.
   void insert(const T &entry){
-    //Used to quickly move on if we've seen this item before (TODO: Should use a
-    //pointer in case T is not a POD.)
-    if(entry==last)
+    //Used to quickly move on if this item is already the most recently seen
+    if(!cache.empty() && entry==cache.front())
       return;
 
     if(visited.count(entry)){                     //Item is already in the queue
@@ -52,8 +50,6 @@ class LRU {
       visited[entry] = cache.begin();             //Make a note of its location
       len++;                                      //Queue just got bigger
     }
-
-    last = entry;                                 //Make a note of the new item
   }
 
   ///@brief Returns the number of itmes in the LRU cache
-- 
2.43.0


From 17ec058429ce7849caba500b8af944e1e6a6d107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:15 +0000
Subject: [PATCH 24/75] fix: A2Array2D::saveGDAL no longer constructs a string
 from a null pointer

---
 include/richdem/tiled/A2Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index f3dff11..7c8d682 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -524,7 +524,7 @@ class A2Array2D {
         temp.replace(temp.find("%f"),2,tile.basename);
         lfout.addEntry(temp);
 
-        tile.saveGDAL(temp, 0, 0);
+        tile.saveGDAL(temp, "", 0, 0);
       }
     }
 
-- 
2.43.0


From 324dfca9f966cfafc8ca5a393f791cd4b58dd937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:15 +0000
Subject: [PATCH 25/75] fix: A2Array2D::saveGDAL leaves the raster being saved
 as it was

---
 include/richdem/tiled/A2Array2D.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index 7c8d682..cabac44 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -511,9 +511,12 @@ class A2Array2D {
 
         tile.printStamp(5,"Saving, before reorientation");
 
-        if((tile.geotransform[1]<0) ^ flipH)
+        const bool has_gt = tile.geotransform.size()==6;
+        const bool reflipH = (has_gt && tile.geotransform[1]<0) ^ flipH;
+        const bool reflipV = (has_gt && tile.geotransform[5]>0) ^ flipV;
+        if(reflipH)
           tile.flipHorz();
-        if((tile.geotransform[5]>0) ^ flipV)
+        if(reflipV)
           tile.flipVert();
 
         tile.printStamp(5,"Saving, after reorientation");
@@ -525,6 +528,12 @@ class A2Array2D {
         lfout.addEntry(temp);
 
         tile.saveGDAL(temp, "", 0, 0);
+
+        //Only the saved tile is reorientated, not the raster being used
+        if(reflipH)
+          tile.flipHorz();
+        if(reflipV)
+          tile.flipVert();
       }
     }
 
-- 
2.43.0


From 54d792f59921dd930c6a6077a11a8f493605b228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:15 +0000
Subject: [PATCH 26/75] fix: A2Array2D::saveUnifiedGDAL ignores the NoData
 value of null tiles

---
 include/richdem/tiled/A2Array2D.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index cabac44..5f418d7 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -549,9 +549,13 @@ class A2Array2D {
       throw std::runtime_error("Could not open file '"+outputname+"' for GDAL save!");
 
     auto no_data = data[0][0].noData();
+    for(int32_t ty=heightInTiles()-1;ty>=0;ty--)
+    for(int32_t tx=widthInTiles()-1;tx>=0;tx--)
+      if(!data[ty][tx].null_tile)
+        no_data = data[ty][tx].noData(); //That of the first tile which is not null
     for(int32_t ty=0;ty<heightInTiles();ty++)
     for(int32_t tx=0;tx<widthInTiles();tx++)
-      if(data[ty][tx].noData()!=no_data)
+      if(!data[ty][tx].null_tile && data[ty][tx].noData()!=no_data)
         throw std::runtime_error("Files had differing NoData values :-(");
 
     auto out_geotransform = data[0][0].geotransform;
-- 
2.43.0


From 6da184079bbe6374be674de67cee0ed27bcd84ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:15 +0000
Subject: [PATCH 27/75] fix: A2Array2D copies the layout of a raster whose
 tiles have not been created yet

---
 include/richdem/tiled/A2Array2D.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index 5f418d7..a3f9373 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -280,10 +280,10 @@ class A2Array2D {
         this_tile.templateCopy(other_tile);
         this_tile.filename = filename_template;
         this_tile.filename.replace(data[y][x].filename.find("%f"), 2, data[y][x].basename);
-        per_tile_width               = std::max(per_tile_width, other_tile.width() );
-        per_tile_height              = std::max(per_tile_height,other_tile.height());
-        this_tile.create_with_width  = other_tile.width();
-        this_tile.create_with_height = other_tile.height();
+        per_tile_width               = other.per_tile_width;
+        per_tile_height              = other.per_tile_height;
+        this_tile.create_with_width  = other_tile.created ? other_tile.width()  : other_tile.create_with_width;
+        this_tile.create_with_height = other_tile.created ? other_tile.height() : other_tile.create_with_height;
         this_tile.null_tile          = other_tile.null_tile;
         this_tile.created            = false;
       }
-- 
2.43.0


From d3a917a5b6ca5542762f4cc00b121c8d093b8683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:58 +0000
Subject: [PATCH 28/75] fix: LayoutfileWriter writes gaps at the end of rows so
 that they are read again

---
 include/richdem/common/Layoutfile.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/Layoutfile.hpp b/include/richdem/common/Layoutfile.hpp
index 7fe032c..69f3cad 100644
--- a/include/richdem/common/Layoutfile.hpp
+++ b/include/richdem/common/Layoutfile.hpp
@@ -267,7 +267,10 @@ class LayoutfileWriter {
 
     if(gridx>0)
       flout<<",";
-    flout<<filename;
+    if(filename.empty())
+      flout<<" ";   //A gap at the end of a row would otherwise leave no trace
+    else
+      flout<<filename;
     gridx++;
   }
 };
-- 
2.43.0


From e6079c49f0e971520e237bf1d74eca53c9300e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:58 +0000
Subject: [PATCH 29/75] fix: LayoutfileReader rejects empty layout files
 instead of reading beyond their end

---
 include/richdem/common/Layoutfile.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/richdem/common/Layoutfile.hpp b/include/richdem/common/Layoutfile.hpp
index 69f3cad..9aa7131 100644
--- a/include/richdem/common/Layoutfile.hpp
+++ b/include/richdem/common/Layoutfile.hpp
@@ -131,6 +131,9 @@ class LayoutfileReader {
     if(!fin_layout.eof())
       throw std::runtime_error("Failed to read the entire layout file!");
 
+    if(fgrid.empty())
+      throw std::runtime_error("Layout file '"+layout_filename+"' is empty!");
+
     //Let's find the longest row
     auto max_row_length = fgrid.front().size();
     for(const auto &row: fgrid)
@@ -141,6 +144,9 @@ class LayoutfileReader {
         row.emplace_back();
       else if(row.size()<max_row_length) //The line was more than one short of max: uh oh
         throw std::runtime_error("Not all of the rows in the layout file had the same number of columns!");
+
+    if(max_row_length==0)
+      throw std::runtime_error("Layout file '"+layout_filename+"' is empty!");
   }
 
   ///@brief Advance the reader to the next layoutfile entry.
-- 
2.43.0


From 761a2881d105c4e2dcce270352a31d4c1d92c037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:58 +0000
Subject: [PATCH 30/75] fix: dots in directory names are not taken for file
 extensions

---
 include/richdem/common/Layoutfile.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/Layoutfile.hpp b/include/richdem/common/Layoutfile.hpp
index 9aa7131..43f9a6a 100644
--- a/include/richdem/common/Layoutfile.hpp
+++ b/include/richdem/common/Layoutfile.hpp
@@ -55,7 +55,7 @@ static std::string trimStr(std::string const& str){
 static std::string GetBaseName(std::string filename){
   auto last_slash  = filename.find_last_of(RICHDEM_SLASH_CHAR);
   auto last_period = filename.find_last_of(".");
-  if(last_period!=std::string::npos)
+  if(last_period!=std::string::npos && (last_slash==std::string::npos || last_period>last_slash))
     filename.replace(last_period, std::string::npos, "");
   if(last_slash!=std::string::npos)
     filename.replace(0,last_slash+1,"");
@@ -244,7 +244,7 @@ class LayoutfileWriter {
     std::size_t last_period = layout_filename.find_last_of(".");
     if(last_slash!=std::string::npos)
       path = layout_filename.substr(0,last_slash+1);
-    if(last_period!=std::string::npos)
+    if(last_period!=std::string::npos && (last_slash==std::string::npos || last_period>last_slash))
       layout_filename.replace(last_period+1, std::string::npos, "layout");
 
     flout.open(layout_filename);
-- 
2.43.0


From d823a034675aecbef30e044efd19cdf1d2bbf455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 31/75] fix: DisjointDenseIntSet::mergeAintoB merges sets, not
 single elements

---
 include/richdem/common/disjoint_dense_int_set.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/richdem/common/disjoint_dense_int_set.hpp b/include/richdem/common/disjoint_dense_int_set.hpp
index 632c091..a4576cb 100644
--- a/include/richdem/common/disjoint_dense_int_set.hpp
+++ b/include/richdem/common/disjoint_dense_int_set.hpp
@@ -130,6 +130,12 @@ class DisjointDenseIntSet {
   void mergeAintoB(unsigned int a, unsigned int b){
     checkSize(a);
     checkSize(b);
+    //Only the representatives of sets may be given a parent: otherwise A would
+    //leave its set behind or become its own ancestor.
+    a = findSet(a);
+    b = findSet(b);
+    if(a==b)
+      return;
     parent[a] = b;
     if(rank[a]==rank[b]){
       rank[b]++;
-- 
2.43.0


From 7527209c8b362af067b7a7fe8bdfc5a71bd1990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 32/75] fix: radix_heap::min does not return a key popped
 earlier

---
 include/richdem/common/radix_heap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/richdem/common/radix_heap.hpp b/include/richdem/common/radix_heap.hpp
index 774f41f..43ab395 100644
--- a/include/richdem/common/radix_heap.hpp
+++ b/include/richdem/common/radix_heap.hpp
@@ -229,6 +229,7 @@ class radix_heap {
   void pull() {
     assert(size_ > 0);
     if (!buckets_[0].empty()) return;
+    buckets_min_[0] = std::numeric_limits<unsigned_key_type>::max();
 
     const size_t i = bucket_flags_.find_first_non_empty();
     last_ = buckets_min_[i];
-- 
2.43.0


From 88beccab92eee17a208903436ff04d12154bc3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 33/75] fix: dumping a raster whose data is not in RAM does not
 overwrite its cache with nothing

---
 include/richdem/common/Array2D.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index e841ef2..1d20d4c 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -126,7 +126,7 @@ class Array2D {
 
   ///If TRUE, loadData() loads data from the cache assuming  the Native format.
   ///Otherwise, it assumes it is loading from a GDAL file.
-  bool from_cache;
+  bool from_cache = false;
 
   #ifdef USEGDAL
   ///TODO
@@ -446,6 +446,8 @@ class Array2D {
            the cache.
   */
   void dumpData(){
+    if(_data.empty()) //There is nothing in RAM: what has been cached is kept
+      return;
     saveToCache(filename);
     clear();
   }
-- 
2.43.0


From 3460539e961c6a7dfd918676a4de7f1135cfdf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 34/75] fix: SaveGDAL writes a raster without its padding

---
 include/richdem/common/loaders.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/loaders.hpp b/include/richdem/common/loaders.hpp
index 0eec83f..eb5aaba 100644
--- a/include/richdem/common/loaders.hpp
+++ b/include/richdem/common/loaders.hpp
@@ -106,7 +106,7 @@ void SaveGDAL(const Array2D<T> &arr, const std::string &filename, const std::str
   GDALDriver *poDriver = GetGDALDriverManager()->GetDriverByName("GTiff");
   if(poDriver==NULL)
     throw std::runtime_error("Could not open GDAL driver!");
-  GDALDataset *fout    = poDriver->Create(filename.c_str(), arr.width(), arr.height(), 1, NativeTypeToGDAL<T>(), papszOptions);
+  GDALDataset *fout    = poDriver->Create(filename.c_str(), arr.width()-2*padx, arr.height()-2*pady, 1, NativeTypeToGDAL<T>(), papszOptions);
   if(fout==NULL)
     throw std::runtime_error("Could not open file '"+filename+"' for GDAL save!");
 
-- 
2.43.0


From 7c57aeb812cc92101872c15385d30f6d47b02d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 35/75] fix: tiles of an A2Array2D created from dimensions have
 names, so that they are not saved to one file

---
 include/richdem/tiled/A2Array2D.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index a3f9373..5809176 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -243,6 +243,7 @@ class A2Array2D {
         tile++;
         data.back().emplace_back();
         data.back().back().setCacheFilename(prefix+std::to_string(tile)+".native");
+        data.back().back().basename = std::to_string(tile); //Names the tile's other files
         data.back().back().created  = false;
       }
     }
-- 
2.43.0


From 2e8c55c302c740fbf858e6ef705cef5247bb4eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 36/75] fix: A2Array2D made from a template counts its tiles

---
 include/richdem/tiled/A2Array2D.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index 5809176..b3c8f82 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -266,6 +266,7 @@ class A2Array2D {
     total_height_in_cells = other.total_height_in_cells;
     flipV                 = other.flipV;
     flipH                 = other.flipH;
+    not_null_tiles        = other.not_null_tiles;
 
     quick_width_in_tiles  = other.quick_width_in_tiles;
     quick_height_in_tiles = other.quick_height_in_tiles;
-- 
2.43.0


From fa2a82656e2f08bd54c3e5309a41a3fe2a5baebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:24 +0000
Subject: [PATCH 37/75] fix: A2Array2D::isNoData does not abort for tiles that
 have not been created yet

---
 include/richdem/tiled/A2Array2D.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index b3c8f82..af3ca1e 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -467,16 +467,16 @@ class A2Array2D {
     assert(tx<(int32_t)data[0].size());
     assert(ty<(int32_t)data.size());
 
-    assert(px>=0);
-    assert(py>=0);
-    assert(px<data[ty][tx].width() );
-    assert(py<data[ty][tx].height());
-
     if(isNullTile(tx,ty))
       return true;
 
     _LoadTile(tx, ty);
 
+    assert(px>=0);
+    assert(py>=0);
+    assert(px<data[ty][tx].width() );
+    assert(py<data[ty][tx].height());
+
     return data[ty][tx].isNoData(px,py);
   }
 
-- 
2.43.0


From dd3addaa288ca8636fe84f55a58869bfe7b95583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 38/75] fix: CommRecv receives the message it probed, whichever
 order messages arrive in

---
 include/richdem/common/communication.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/communication.hpp b/include/richdem/common/communication.hpp
index a44aa49..75e3853 100644
--- a/include/richdem/common/communication.hpp
+++ b/include/richdem/common/communication.hpp
@@ -139,7 +139,9 @@ void CommRecv(T* a, U* b, int from){
   char* buf = (char*)malloc(msg_size);
   assert(buf!=NULL);
 
-  MPI_Recv(buf, msg_size, MPI_BYTE, from, MPI_ANY_TAG, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
+  //Receive the very message which was probed: with wildcards another one might
+  //be matched, for which the buffer may be too small
+  MPI_Recv(buf, msg_size, MPI_BYTE, status.MPI_SOURCE, status.MPI_TAG, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
 
   bytes_recv += msg_size;
 
-- 
2.43.0


From e3764cc9fa54e641db3dc4d7d3ae4b7070146697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 39/75] fix: consumers of parallel_d8_accum receive the message
 which tells them to quit

---
 programs/parallel_d8_accum/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index a3840c6..cc35821 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -937,6 +937,8 @@ void Consumer(){
     //This message indicates that everything is done and the Consumer should shut
     //down.
     if(the_job==SYNC_MSG_KILL){
+      int temp;
+      CommRecv(&temp,nullptr,0); //Otherwise the producer may wait for ever
       return;
 
     //This message indicates that the consumer should prepare to perform the
-- 
2.43.0


From efcb5136098d0cabe23d176e15e3a9eb55feb491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 40/75] fix: consumers of parallel_priority_flood receive the
 message which tells them to quit

---
 programs/parallel_priority_flood/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index fe73795..b7bb660 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -615,6 +615,8 @@ void Consumer(){
     //This message indicates that everything is done and the Consumer should shut
     //down.
     if(the_job==SYNC_MSG_KILL){
+      int temp;
+      CommRecv(&temp,nullptr,0); //Otherwise the producer may wait for ever
       return;
 
     //This message indicates that the consumer should prepare to perform the
-- 
2.43.0


From bc242f51943ae9c905c28c7509b0f955a4d899b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 41/75] fix: parallel_priority_flood caches labels where it
 loads them from

---
 programs/parallel_priority_flood/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index b7bb660..fe0ae3c 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -244,7 +244,7 @@ class ConsumerSpecifics {
   void SaveToCache(const TileInfo &tile){
     timer_io.start();
     dem.setCacheFilename(tile.retention+"dem.dat");
-    labels.setCacheFilename(tile.retention+"dem.dat");
+    labels.setCacheFilename(tile.retention+"labels.dat");
     dem.dumpData();
     labels.dumpData();
     timer_io.stop();
-- 
2.43.0


From 205f9cc28a783995c99091f30c2edc306c56cb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 42/75] fix: parallel_d8_accum keeps flow which passes
 diagonally between two null tiles

---
 programs/parallel_d8_accum/main.cpp | 16 ----------------
 1 file changed, 16 deletions(-)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index cc35821..22dcc70 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -1275,22 +1275,6 @@ void Preparer(
     std::cerr<<"m Total cells to be processed = "<<cell_count<<std::endl;
     std::cerr<<"m Number of tiles which were not null = "<<not_null_tiles<<std::endl;
 
-    //nullTiles imply that the tiles around them have edges, as though they
-    //are on the edge of the raster.
-    for(int y=0;y<(int)tiles.size();y++)
-    for(int x=0;x<(int)tiles[0].size();x++){
-      if(tiles[y][x].nullTile)
-        continue;
-      if(y-1>0 && x>0 && tiles[y-1][x].nullTile)
-        tiles[y][x].edge |= GRID_TOP;
-      if(y+1<(int)tiles.size() && x>0 && tiles[y+1][x].nullTile)
-        tiles[y][x].edge |= GRID_BOTTOM;
-      if(y>0 && x-1>0 && tiles[y][x-1].nullTile)
-        tiles[y][x].edge |= GRID_LEFT;
-      if(y>0 && x+1<(int)tiles[0].size() && tiles[y][x+1].nullTile)
-        tiles[y][x].edge |= GRID_RIGHT;
-    }
-
   } else if(many_or_one=="one") {
     int32_t total_height;
     int32_t total_width;
-- 
2.43.0


From 672dd6fb32a49173a78001b1dbad00f8379b6fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 43/75] fix: parallel_priority_flood drains tiles into null
 tiles in the first rows and columns too

---
 programs/parallel_priority_flood/main.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index fe0ae3c..0f46978 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -966,13 +966,13 @@ void Preparer(
     for(int x=0;x<(int)tiles[0].size();x++){
       if(tiles[y][x].nullTile)
         continue;
-      if(y-1>0 && x>0 && tiles[y-1][x].nullTile)
+      if(y>0 && tiles[y-1][x].nullTile)
         tiles[y][x].edge |= GRID_TOP;
-      if(y+1<(int)tiles.size() && x>0 && tiles[y+1][x].nullTile)
+      if(y+1<(int)tiles.size() && tiles[y+1][x].nullTile)
         tiles[y][x].edge |= GRID_BOTTOM;
-      if(y>0 && x-1>0 && tiles[y][x-1].nullTile)
+      if(x>0 && tiles[y][x-1].nullTile)
         tiles[y][x].edge |= GRID_LEFT;
-      if(y>0 && x+1<(int)tiles[0].size() && tiles[y][x+1].nullTile)
+      if(x+1<(int)tiles[0].size() && tiles[y][x+1].nullTile)
         tiles[y][x].edge |= GRID_RIGHT;
     }
 
-- 
2.43.0


From 650a2d1e3377f505342062648ccaa6dc79eec09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 44/75] fix: parallel_d8_accum handles tiles of a single row

---
 programs/parallel_d8_accum/main.cpp       | 13 ++++++-------
 programs/parallel_d8_accum/perimeters.hpp |  3 ++-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index 22dcc70..202f473 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -510,9 +510,12 @@ class ConsumerSpecifics {
   }
 
   void FirstRound(const TileInfo &tile, Job1<T> &job1){
-    //-2 removes duplicate cells on vertical edges which would otherwise
-    //overlap horizontal edges
-    links.resize(2*flowdirs.width()+2*(flowdirs.height()-2), FLOW_TERMINATES);
+    //Construct output arrays
+    GridPerimToArray(flowdirs, job1.flowdirs);
+    GridPerimToArray(accum,    job1.accum   );
+
+    //One link for each entry of the perimeter
+    links.resize(job1.flowdirs.size(), FLOW_TERMINATES);
 
     //The following considers corner cells more than once. That's okay, though:
     //the repeated effort merely produces the same results in the same places
@@ -545,10 +548,6 @@ class ConsumerSpecifics {
         FollowPath(flowdirs.width()-1,y,tile,flowdirs,links);
 
     job1.links = std::move(links);
-
-    //Construct output arrays
-    GridPerimToArray(flowdirs, job1.flowdirs);
-    GridPerimToArray(accum,    job1.accum   );
     timer_calc.stop();
   }
 
diff --git a/programs/parallel_d8_accum/perimeters.hpp b/programs/parallel_d8_accum/perimeters.hpp
index e5a21ac..eb17300 100644
--- a/programs/parallel_d8_accum/perimeters.hpp
+++ b/programs/parallel_d8_accum/perimeters.hpp
@@ -57,5 +57,6 @@ void GridPerimToArray(const richdem::Array2D<U> &grid, std::vector<U> &vec){
   vec.insert(vec.end(),vec2copy.begin(),vec2copy.end()-1);
 
   vec2copy = grid.getColData(0);                         //Left
-  vec.insert(vec.end(),vec2copy.begin()+1,vec2copy.end()-1);
+  if(vec2copy.size()>1)                                  //A single row has no cells left
+    vec.insert(vec.end(),vec2copy.begin()+1,vec2copy.end()-1);
 }
\ No newline at end of file
-- 
2.43.0


From 0d7ab1058c6a20f4ff8be02cb5ce7be2c8c136b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 45/75] fix: parallel_priority_flood lists its tiles in the
 output layout in <one> mode too

---
 programs/parallel_priority_flood/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index 0f46978..a85c787 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -1006,6 +1006,7 @@ void Preparer(
     //TODO: Avoid creating extremely narrow or small strips
     for(int32_t y=0,gridy=0;y<total_height; y+=bheight, gridy++){
       tiles.emplace_back(std::vector<TileInfo>());
+      lfout.addRow();
       for(int32_t x=0,gridx=0;x<total_width;x+=bwidth,  gridx++){
         if(total_height-y<100){
           std::cerr<<"At least one tile is <100 cells in height. Please change rectangle size to avoid this!"<<std::endl;
@@ -1041,6 +1042,8 @@ void Preparer(
         }
         this_output_name.replace(this_output_name.find("%n"),2,coord_string);
 
+        lfout.addEntry(this_output_name);
+
         tiles.back().emplace_back(
           input_file,
           this_output_name,
-- 
2.43.0


From 1a8a0a309663fbbd2435dbee52f044e5c8c642f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:23 +0000
Subject: [PATCH 46/75] fix: misc_methods.hpp no longer shares the include
 guard of dinf_methods.hpp

---
 include/richdem/misc/misc_methods.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/misc/misc_methods.hpp b/include/richdem/misc/misc_methods.hpp
index 445ba0c..66b0728 100644
--- a/include/richdem/misc/misc_methods.hpp
+++ b/include/richdem/misc/misc_methods.hpp
@@ -7,8 +7,8 @@
   Tarboton (1997). It incorporates minor alterations and additional safe-guards
   described in Barnes (2013, TODO).
 */
-#ifndef _richdem_dinf_methods_hpp_
-#define _richdem_dinf_methods_hpp_
+#ifndef _richdem_misc_methods_hpp_
+#define _richdem_misc_methods_hpp_
 
 #include <richdem/common/Array2D.hpp>
 #include <richdem/common/constants.hpp>
-- 
2.43.0


From ef209923cac63f55c186fa135014261008a48743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:23 +0000
Subject: [PATCH 47/75] fix: Perimeter counts cells bordering NoData as
 documented

---
 include/richdem/misc/misc_methods.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/misc/misc_methods.hpp b/include/richdem/misc/misc_methods.hpp
index 66b0728..5366cb4 100644
--- a/include/richdem/misc/misc_methods.hpp
+++ b/include/richdem/misc/misc_methods.hpp
@@ -210,7 +210,7 @@ double Perimeter(
 
       if(perim_type==PerimType::CELL_COUNT){
         for(int n=1;n<=8;n++){
-          if(!arr.inGrid(x+d8x[n],y+d8y[n])){
+          if(!arr.inGrid(x+d8x[n],y+d8y[n]) || arr.isNoData(x+d8x[n],y+d8y[n])){
             cell_edges++;
             break;
           }
-- 
2.43.0


From d64b8059e703bf19ccd8fae3ea5a4774cc24b291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:23 +0000
Subject: [PATCH 48/75] fix: aspect of flat surfaces is -1 as documented

---
 include/richdem/methods/terrain_attributes.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/richdem/methods/terrain_attributes.hpp b/include/richdem/methods/terrain_attributes.hpp
index 97635a6..ba891c5 100644
--- a/include/richdem/methods/terrain_attributes.hpp
+++ b/include/richdem/methods/terrain_attributes.hpp
@@ -233,6 +233,9 @@ static inline double Terrain_Aspect(const Array2D<T> &elevations, const int x, c
   //See p. 18 of Horn (1981)
   double dzdx       = ( (tsv.c+2*tsv.f+tsv.i) - (tsv.a+2*tsv.d+tsv.g) ) / 8 / elevations.getCellLengthX();
   double dzdy       = ( (tsv.g+2*tsv.h+tsv.i) - (tsv.a+2*tsv.b+tsv.c) ) / 8 / elevations.getCellLengthY();
+  if(dzdx==0 && dzdy==0)
+    return -1; //Flat surfaces have no aspect
+
   double the_aspect = 180.0/M_PI*atan2(dzdy,-dzdx);
   if(the_aspect<0)
     return 90-the_aspect;
-- 
2.43.0


From 741feb8899bc48f88088c35bee63b2a84060be48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:23 +0000
Subject: [PATCH 49/75] fix: terrain attributes' NoData value no longer
 collides with attribute values

---
 include/richdem/methods/terrain_attributes.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/richdem/methods/terrain_attributes.hpp b/include/richdem/methods/terrain_attributes.hpp
index ba891c5..026fd27 100644
--- a/include/richdem/methods/terrain_attributes.hpp
+++ b/include/richdem/methods/terrain_attributes.hpp
@@ -341,6 +341,7 @@ static inline void TerrainProcessor(F func, const Array2D<T> &elevations, const
     RDLOG_WARN<<"Cell X and Y dimensions are not equal!";
 
   output.resize(elevations);
+  output.setNoData(-9999); //Must be distinct from the values an attribute can take
   ProgressBar progress;
 
   progress.start(elevations.size());
-- 
2.43.0


From 1f8753196fa727700afb68087da07a6b94a38240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 50/75] fix: seed_rand seeds every thread, and the first thread
 differently for each seed

---
 src/random.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/random.cpp b/src/random.cpp
index 74c0f8c..c4df0ef 100644
--- a/src/random.cpp
+++ b/src/random.cpp
@@ -20,26 +20,31 @@ static int rd_get_thread_num(){
   #endif
 }
 
-our_random_engine& rand_engine(){
+static std::array<our_random_engine, PRNG_THREAD_MAX>& rand_engines(){
   static std::array<our_random_engine, PRNG_THREAD_MAX> e;
-  return e[rd_get_thread_num()];
+  return e;
+}
+
+our_random_engine& rand_engine(){
+  return rand_engines()[rd_get_thread_num()];
 }
 
 
 //Be sure to read: http://www.pcg-random.org/posts/cpp-seeding-surprises.html
 //and http://www.pcg-random.org/posts/cpps-random_device.html
 void seed_rand(uint64_t seed){
-  #pragma omp parallel default(none) shared(seed) //All threads must come here
-  {
-    #pragma omp critical    //But only one at a time
+  //Seed the engines of all threads, including those not currently running
+  for(uint32_t thread=0;thread<PRNG_THREAD_MAX;thread++){
+    auto &engine = rand_engines()[thread];
     if(seed==0){
       std::array<std::uint_least32_t, std::mt19937::state_size> seed_data;
       std::random_device r;
       std::generate_n(seed_data.data(), std::mt19937::state_size, std::ref(r));
       std::seed_seq q(std::begin(seed_data), std::end(seed_data));
-      rand_engine().seed(q);
+      engine.seed(q);
     } else {
-      rand_engine().seed( seed*rd_get_thread_num() );
+      std::seed_seq q{static_cast<uint32_t>(seed), static_cast<uint32_t>(seed>>32), thread};
+      engine.seed(q);
     }
   }
 }
-- 
2.43.0


From dab7a9f0e59a4455605f9f1dbbbc18b728b5bca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 51/75] fix: normal_rand depends only on the generator's state

---
 src/random.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/random.cpp b/src/random.cpp
index c4df0ef..c9eebb0 100644
--- a/src/random.cpp
+++ b/src/random.cpp
@@ -65,9 +65,10 @@ double uniform_rand_real(double from, double thru){
 
 
 double normal_rand(double mean, double stddev){
-  static std::array<std::normal_distribution<double>, PRNG_THREAD_MAX> d;
-  using parm_t = std::normal_distribution<double>::param_type;
-  return d[rd_get_thread_num()]( rand_engine(), parm_t{mean, stddev} );
+  //A normal_distribution keeps the second of each pair of values it draws. Using
+  //a new one each time makes the value depend only on the engine's state.
+  std::normal_distribution<double> d(mean, stddev);
+  return d( rand_engine() );
 }
 
 RandomEngineState SaveRandomState(){
-- 
2.43.0


From a68b8bb68c392acff2fd15bffcf2ecb60d462d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:14 +0000
Subject: [PATCH 52/75] fix: LastLayer stops at the ocean

The ocean's outlet elevation is infinity(), which is 0 for integer
elevations, so that cells at or above 0 walked on to the ocean's (absent)
parent and the program was aborted by std::out_of_range.
---
 include/richdem/depressions/depression_hierarchy.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/richdem/depressions/depression_hierarchy.hpp b/include/richdem/depressions/depression_hierarchy.hpp
index 101fc9d..9579128 100644
--- a/include/richdem/depressions/depression_hierarchy.hpp
+++ b/include/richdem/depressions/depression_hierarchy.hpp
@@ -907,12 +907,11 @@ void LastLayer(Array2D<dh_label_t>& label, const Array2D<elev_t>& dem, const Dep
   for (int y = 0; y < label.height(); y++)
     for (int x = 0; x < label.width(); x++) {
       auto mylabel = label(x, y);
-      while (true) {
+      while (mylabel != OCEAN) { //The ocean is nobody's child
         if (dem(x, y) >= depressions.at(mylabel).out_elev) {
           mylabel = depressions.at(mylabel).parent;
         } else {
-          if (mylabel != 0)
-            mylabel = -3;
+          mylabel = -3;
           break;
         }
       }
-- 
2.43.0


From 10d3c601b17b7b9fb1e13d66db108a393b72dfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:31 +0000
Subject: [PATCH 53/75] fix: d8_flats_alter_dem raises doubles by the smallest
 step

nextafterf rounds a double elevation to float and steps from there, which
raises cells of a flat over higher neighbours less than a float's spacing
away.
---
 include/richdem/flats/flat_resolution.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/richdem/flats/flat_resolution.hpp b/include/richdem/flats/flat_resolution.hpp
index 6edc9c4..35dba49 100644
--- a/include/richdem/flats/flat_resolution.hpp
+++ b/include/richdem/flats/flat_resolution.hpp
@@ -562,10 +562,8 @@ void d8_flats_alter_dem(
       bool higher[9];
       for(int n=1;n<=8;++n)
         higher[n]=elevations(x,y)>elevations(x+d8x[n],y+d8y[n]);
-      //TODO: nextafterf is the floating point version; should use an
-      //overloaded version instead to be able to handle both double and float
       for(int i=0;i<flat_mask(x,y);++i)
-        elevations(x,y)=nextafterf(elevations(x,y),std::numeric_limits<U>::infinity());
+        elevations(x,y)=std::nextafter(elevations(x,y),std::numeric_limits<U>::infinity());
       for(int n=1;n<=8;++n){
         int nx=x+d8x[n];
         int ny=y+d8y[n];
-- 
2.43.0


From 3931fa075dc124e4b5b593e2790d28be728b925e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:05 +0000
Subject: [PATCH 54/75] fix: Python arrays that are not row-major are changed
 in place

---
 wrappers/pyrichdem/richdem/__init__.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index fca3ddd..06f5f33 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -199,7 +199,11 @@ class rdarray(np.ndarray):
         if dtype not in richdem_arrs:
             raise Exception(f"No equivalent RichDEM datatype to '{dtype}'.")
 
-        rda = richdem_arrs[dtype](self)
+        # RichDEM needs its cells in row-major order. `_buffer` keeps the memory
+        # alive for as long as it is wrapped.
+        buffer = np.ascontiguousarray(self)
+        rda = richdem_arrs[dtype](buffer)
+        rda._buffer = buffer
 
         if self.no_data is None:
             print("Warning! no_data was None. Setting it to -9999!")
@@ -218,6 +222,8 @@ class rdarray(np.ndarray):
         return rda
 
     def copyFromWrapped(self, wrapped):
+        if not np.may_share_memory(self, wrapped._buffer):
+            self[...] = wrapped._buffer
         self.no_data = wrapped.noData()
         # print("IS IT IN",("PROCESSING_HISTORY" in wrapped.metadata))
         # self.metadata += "\n"+wrapped.metadata["PROCESSING_HISTORY"].replace("\n","\t\n")
@@ -255,7 +261,11 @@ class rd3array(np.ndarray):
         if dtype not in richdem_arrs:
             raise Exception("No equivalent RichDEM datatype.")
 
-        rda = richdem_arrs[dtype](self)
+        # RichDEM needs its cells in row-major order. `_buffer` keeps the memory
+        # alive for as long as it is wrapped.
+        buffer = np.ascontiguousarray(self)
+        rda = richdem_arrs[dtype](buffer)
+        rda._buffer = buffer
 
         if self.no_data is None:
             print("Warning! no_data was None. Setting it to -9999!")
@@ -274,6 +284,8 @@ class rd3array(np.ndarray):
         return rda
 
     def copyFromWrapped(self, wrapped):
+        if not np.may_share_memory(self, wrapped._buffer):
+            self[...] = wrapped._buffer
         self.no_data = wrapped.noData()
         # print("IS IT IN",("PROCESSING_HISTORY" in wrapped.metadata))
         # self.metadata += "\n"+wrapped.metadata["PROCESSING_HISTORY"].replace("\n","\t\n")
@@ -841,6 +853,8 @@ def get_depression_hierarchy(dem: rdarray, labels: rdarray) -> Tuple[List[depres
 
     dhret = depression_hierarchy.get_depression_hierarchy(demw, labelsw, flowdirsw)
 
+    labels.copyFromWrapped(labelsw)
+
     return dhret, flowdirs
 
 def get_new_depression_hierarchy_labels(shape: Tuple[int, int], no_data: float = -9999, geotransform: Optional[np.ndarray] = None) -> rdarray:
@@ -899,4 +913,6 @@ def fill_spill_merge(dem: rdarray, labels: rdarray, flowdirs: rdarray, deps: Lis
     flowdirsw = flowdirs.wrap()
     wtdw = wtd.wrap()
 
-    dhret = depression_hierarchy.fill_spill_merge(demw, labelsw, flowdirsw, deps, wtdw)
+    depression_hierarchy.fill_spill_merge(demw, labelsw, flowdirsw, deps, wtdw)
+
+    wtd.copyFromWrapped(wtdw)
-- 
2.43.0


From 4ea19d8782822a7fe24f56eff023b8985f602050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:05 +0000
Subject: [PATCH 55/75] fix: Python flow accumulation leaves the weights alone
 unless in_place

---
 wrappers/pyrichdem/richdem/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index 06f5f33..88d8469 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -566,7 +566,7 @@ def FlowAccumulation(dem: rdarray, method: Optional[str] = None, exponent: Optio
     if weights is not None and in_place:
         accum = rdarray(weights, no_data=-1)
     elif weights is not None and not in_place:
-        accum = rdarray(weights, copy=True, meta_obj=dem, no_data=-1)
+        accum = rdarray(np.array(weights, copy=True), meta_obj=dem, no_data=-1)
     elif weights is None:
         accum = rdarray(
             np.ones(shape=dem.shape, dtype="float64"), meta_obj=dem, no_data=-1
@@ -632,7 +632,7 @@ def FlowAccumFromProps(props: rdarray, weights: Optional[rdarray] = None, in_pla
     if weights is not None and in_place:
         accum = rdarray(weights, no_data=-1)
     elif weights is not None and not in_place:
-        accum = rdarray(weights, copy=True, meta_obj=props, no_data=-1)
+        accum = rdarray(np.array(weights, copy=True), meta_obj=props, no_data=-1)
     elif weights is None:
         accum = rdarray(
             np.ones(shape=props.shape[0:2], dtype="float64"), meta_obj=props, no_data=-1
-- 
2.43.0


From cfdec96cc79f914e777d012ff3ab43a25bfd7c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:05 +0000
Subject: [PATCH 56/75] fix: rd3array accepts a numpy geotransform

---
 wrappers/pyrichdem/richdem/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index 88d8469..531c8e1 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -273,7 +273,7 @@ class rd3array(np.ndarray):
         else:
             rda.setNoData(self.no_data)
 
-        if self.geotransform:
+        if self.geotransform is not None:
             rda.geotransform = np.array(self.geotransform, dtype="float64")
         else:
             print(
-- 
2.43.0


From d4a1e48c4789e6dfb5cdece12e6ac35749574db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:05 +0000
Subject: [PATCH 57/75] fix: NoData values from Python are not rounded to float

---
 wrappers/pyrichdem/src/pywrapper.cpp | 1 -
 wrappers/pyrichdem/src/pywrapper.hpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/wrappers/pyrichdem/src/pywrapper.cpp b/wrappers/pyrichdem/src/pywrapper.cpp
index 07793b7..e29c846 100644
--- a/wrappers/pyrichdem/src/pywrapper.cpp
+++ b/wrappers/pyrichdem/src/pywrapper.cpp
@@ -90,7 +90,6 @@ PYBIND11_MODULE(_richdem, m) {
       .def("noData",    &Array3D<float>::noData)
 
       //TODO: Simplify by casting to double in Python
-      .def("setNoData", [](Array3D<float> &a, const float    ndval){ a.setNoData((float)ndval); })
       .def("setNoData", [](Array3D<float> &a, const double   ndval){ a.setNoData((float)ndval); })
       .def("setNoData", [](Array3D<float> &a, const int8_t   ndval){ a.setNoData((float)ndval); })
       .def("setNoData", [](Array3D<float> &a, const int16_t  ndval){ a.setNoData((float)ndval); })
diff --git a/wrappers/pyrichdem/src/pywrapper.hpp b/wrappers/pyrichdem/src/pywrapper.hpp
index c6419ef..9478436 100644
--- a/wrappers/pyrichdem/src/pywrapper.hpp
+++ b/wrappers/pyrichdem/src/pywrapper.hpp
@@ -131,7 +131,6 @@ void TemplatedArrayWrapper(pybind11::module &m, std::string tname){
       .def("max",       &Array2D<T>::max)
 
       //TODO: Simplify by casting to double in Python
-      .def("setNoData", [](Array2D<T> &a, const float    ndval){ a.setNoData((T)ndval); })
       .def("setNoData", [](Array2D<T> &a, const double   ndval){ a.setNoData((T)ndval); })
       .def("setNoData", [](Array2D<T> &a, const int8_t   ndval){ a.setNoData((T)ndval); })
       .def("setNoData", [](Array2D<T> &a, const int16_t  ndval){ a.setNoData((T)ndval); })
-- 
2.43.0


From f860e4d58dacb6f3b8c4a8a6bc4f1a66b5b91590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:05 +0000
Subject: [PATCH 58/75] fix: Python fill_spill_merge modifies the depression
 hierarchy it is given

---
 wrappers/pyrichdem/src/pywrapper.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/src/pywrapper.cpp b/wrappers/pyrichdem/src/pywrapper.cpp
index e29c846..423bca3 100644
--- a/wrappers/pyrichdem/src/pywrapper.cpp
+++ b/wrappers/pyrichdem/src/pywrapper.cpp
@@ -166,7 +166,13 @@ PYBIND11_MODULE(_richdem, m) {
   dephier_module.def("get_depression_hierarchy", &dephier::GetDepressionHierarchy<double, Topology::D8>, "Calculate the hierarchy of depressions. Takes as input a digital elevation model and a set of labels. The labels should have `OCEAN` for cells");
   dephier_module.def(
     "fill_spill_merge",
-    &dephier::FillSpillMerge<double, double>,
+    [](const Array2D<double> &topo, const Array2D<dephier::dh_label_t> &labels, const Array2D<flowdir_t> &flowdirs, const py::sequence &deps, Array2D<double> &wtd){
+      //Passing the hierarchy to C++ copies it, so the results are copied back
+      auto cdeps = deps.cast<dephier::DepressionHierarchy<double>>();
+      dephier::FillSpillMerge<double, double>(topo, labels, flowdirs, cdeps, wtd);
+      for(size_t i=0;i<cdeps.size();i++)
+        deps[i].cast<dephier::Depression<double>&>() = cdeps[i];
+    },
     "Perform Fill-Spill-Merge on a given landscape and its associated depression hierarchy and water table depths",
     py::arg("topo"),
     py::arg("labels"),
-- 
2.43.0


From 63c099c3b3989d80e4572a5b0d0402259732e4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:05 +0000
Subject: [PATCH 59/75] fix: Priority-Flood+Epsilon refuses every integer type

---
 include/richdem/depressions/Barnes2014.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/richdem/depressions/Barnes2014.hpp b/include/richdem/depressions/Barnes2014.hpp
index 4ccc433..0755c66 100644
--- a/include/richdem/depressions/Barnes2014.hpp
+++ b/include/richdem/depressions/Barnes2014.hpp
@@ -334,6 +334,9 @@ void PriorityFlood_Barnes2014(Array2D<elev_t> &elevations){
 */
 template <Topology topo, class elev_t>
 void PriorityFloodEpsilon_Barnes2014(Array2D<elev_t> &elevations){
+  if(!std::is_floating_point<elev_t>::value)
+    throw std::runtime_error("Priority-Flood+Epsilon is only available for floating-point data types!");
+
   GridCellZ_pq<elev_t> open;
   std::queue<GridCellZ<elev_t> > pit;
   ProgressBar progress;
-- 
2.43.0


From a2dd6c072fee5d3b8236b7210880ee388c3540bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:05 +0000
Subject: [PATCH 60/75] fix: rd_breach_depressions saves the breached DEM

---
 wrappers/pyrichdem/richdem/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/richdem/cli.py b/wrappers/pyrichdem/richdem/cli.py
index ab5fd38..b96acad 100644
--- a/wrappers/pyrichdem/richdem/cli.py
+++ b/wrappers/pyrichdem/richdem/cli.py
@@ -46,7 +46,7 @@ def BreachDepressions() -> None:
 
     dem = rd.LoadGDAL(args.dem)
     rd._AddAnalysis(dem, " ".join(sys.argv))
-    rd.BreachDepressions(dem)
+    rd.BreachDepressions(dem, in_place=True)
     rd.SaveGDAL(args.outname, dem)
 
 
-- 
2.43.0


From db63786e64cd566765298d132245d03542d02afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:05 +0000
Subject: [PATCH 61/75] fix: SaveGDAL keeps the values it is given

---
 wrappers/pyrichdem/richdem/__init__.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index 531c8e1..1007821 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -377,11 +377,20 @@ def SaveGDAL(filename: str, rda: rdarray) -> None:
         raise Exception("richdem.SaveGDAL() requires GDAL.")
 
     driver = gdal.GetDriverByName("GTiff")
-    data_type = gdal.GDT_Float32  # TODO
+    # Types GDAL (or LoadGDAL) lacks are saved as the widest floating-point type
+    data_type = {
+        "uint8": gdal.GDT_Byte,
+        "int16": gdal.GDT_Int16,
+        "int32": gdal.GDT_Int32,
+        "uint16": gdal.GDT_UInt16,
+        "uint32": gdal.GDT_UInt32,
+        "float32": gdal.GDT_Float32,
+    }.get(str(rda.dtype), gdal.GDT_Float64)
     data_set = driver.Create(
         filename, xsize=rda.shape[1], ysize=rda.shape[0], bands=1, eType=data_type
     )
-    data_set.SetGeoTransform(rda.geotransform)
+    if rda.geotransform is not None:
+        data_set.SetGeoTransform([float(x) for x in rda.geotransform])
     data_set.SetProjection(rda.projection)
     band = data_set.GetRasterBand(1)
     band.SetNoDataValue(rda.no_data)
-- 
2.43.0


From 509cd9b7966c0b45d0e05f956be2ce91798a746c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:10 +0000
Subject: [PATCH 62/75] fix: flat resolution raises integer elevations by whole
 units

---
 include/richdem/flats/Barnes2014.hpp      | 8 ++++++--
 include/richdem/flats/flat_resolution.hpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/richdem/flats/Barnes2014.hpp b/include/richdem/flats/Barnes2014.hpp
index 78ffb73..c2c856a 100644
--- a/include/richdem/flats/Barnes2014.hpp
+++ b/include/richdem/flats/Barnes2014.hpp
@@ -524,8 +524,12 @@ void ResolveFlatsEpsilon_Barnes2014(
       lower[n] = elevations(x,y)<elevations(x+d8x[n],y+d8y[n]);
 
     //Raise the focal cell by the appropriate number of increments
-    for(int i=0;i<flat_mask(x,y);++i)
-      elevations(x,y) = std::nextafter(elevations(x,y),std::numeric_limits<U>::infinity());
+    for(int i=0;i<flat_mask(x,y);++i){
+      if constexpr (std::is_integral<U>::value)
+        elevations(x,y)++;
+      else
+        elevations(x,y) = std::nextafter(elevations(x,y),std::numeric_limits<U>::infinity());
+    }
 
     //Check the surrounding cells to see if we are inappropriately higher than
     //any of them
diff --git a/include/richdem/flats/flat_resolution.hpp b/include/richdem/flats/flat_resolution.hpp
index 35dba49..0706772 100644
--- a/include/richdem/flats/flat_resolution.hpp
+++ b/include/richdem/flats/flat_resolution.hpp
@@ -562,8 +562,12 @@ void d8_flats_alter_dem(
       bool higher[9];
       for(int n=1;n<=8;++n)
         higher[n]=elevations(x,y)>elevations(x+d8x[n],y+d8y[n]);
-      for(int i=0;i<flat_mask(x,y);++i)
-        elevations(x,y)=std::nextafter(elevations(x,y),std::numeric_limits<U>::infinity());
+      for(int i=0;i<flat_mask(x,y);++i){
+        if constexpr (std::is_integral<U>::value)
+          elevations(x,y)++;
+        else
+          elevations(x,y)=std::nextafter(elevations(x,y),std::numeric_limits<U>::infinity());
+      }
       for(int n=1;n<=8;++n){
         int nx=x+d8x[n];
         int ny=y+d8y[n];
-- 
2.43.0


From aca14b3980cb12b57361a3aa29b7dc8b54dcbc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:10 +0000
Subject: [PATCH 63/75] fix: rd_compare compares integer datasets

---
 wrappers/pyrichdem/richdem/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/richdem/cli.py b/wrappers/pyrichdem/richdem/cli.py
index b96acad..31f711d 100644
--- a/wrappers/pyrichdem/richdem/cli.py
+++ b/wrappers/pyrichdem/richdem/cli.py
@@ -221,7 +221,7 @@ rda      -- A dataset
     if np.any(np.isnan(ds2)):
         print("NaN in '{0}'".format(args.rda2))
 
-    diff = np.array(ds1 - ds2)
+    diff = np.array(ds1, dtype="float64") - np.array(ds2, dtype="float64")
 
     print("Absolute Max difference: {0:10.6}".format(np.nanmax(np.abs(diff))))
     print("Absolute Min difference: {0:10.6}".format(np.nanmin(np.abs(diff))))
-- 
2.43.0


From c53187763014445c4f34fc64e0c7731249b521ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:35 +0000
Subject: [PATCH 64/75] fix: SaveGDAL accepts a numpy NoData value

---
 wrappers/pyrichdem/richdem/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index 1007821..e0a8872 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -393,7 +393,7 @@ def SaveGDAL(filename: str, rda: rdarray) -> None:
         data_set.SetGeoTransform([float(x) for x in rda.geotransform])
     data_set.SetProjection(rda.projection)
     band = data_set.GetRasterBand(1)
-    band.SetNoDataValue(rda.no_data)
+    band.SetNoDataValue(float(rda.no_data))
     band.WriteArray(np.array(rda))
     for k, v in rda.metadata.items():
         data_set.SetMetadataItem(str(k), str(v))
-- 
2.43.0


From acb2623c82651c2043c8b469cba0405ecbe070af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:05 +0000
Subject: [PATCH 65/75] fix: rd_no_data shows and sets any NoData value

---
 apps/rd_no_data.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/rd_no_data.cpp b/apps/rd_no_data.cpp
index 56d8f5a..c6356f7 100644
--- a/apps/rd_no_data.cpp
+++ b/apps/rd_no_data.cpp
@@ -8,7 +8,7 @@ using namespace richdem;
 template<class T>
 int PerformAlgorithm(std::string outname, char *nodata, std::string analysis, Array2D<T> inp){
   inp.loadData();
-  inp.setNoData((T)std::stoi(nodata)); //TODO
+  inp.setNoData((T)std::stod(nodata));
   inp.saveGDAL(outname,analysis);
   return 0;
 }
@@ -28,7 +28,7 @@ int main(int argc, char **argv){
   }
 
   if(argc==2){
-    Array2D<int8_t> temp(argv[1],false,0,0,0,0,false,false); //Data type doesn't matter since we're not loading it
+    Array2D<double> temp(argv[1],false,0,0,0,0,false,false); //Not loading the data: a double holds any NoData value
     std::cerr<<temp.noData()<<std::endl;
   } else {
     PerformAlgorithm(std::string(argv[1]),argv[2],argv[3],analysis);
-- 
2.43.0


From 7449aafc247907095e4f2fdec77ffe953da14831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:05 +0000
Subject: [PATCH 66/75] fix: rd_compare does not read beyond the smaller raster

---
 apps/rd_compare.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/rd_compare.cpp b/apps/rd_compare.cpp
index 73a6b0a..b0dc8de 100644
--- a/apps/rd_compare.cpp
+++ b/apps/rd_compare.cpp
@@ -19,6 +19,9 @@ int PerformAlgorithm(Array2D<T> a, Array2D<U> b){
   if(a.height()!=b.height())
     std::cout<<"Heights differ."<<std::endl;
 
+  if(a.width()!=b.width() || a.height()!=b.height()) //There is no telling which values correspond
+    return 0;
+
   uint64_t differs = 0;
   for(uint64_t i=0;i<a.size();i++)
     if(a(i)!=b(i))
-- 
2.43.0


From 3cce89e83d9be1099b9afe18f9bfe4573c05954b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:05 +0000
Subject: [PATCH 67/75] fix: rd_hist prints the values of byte rasters as
 numbers

---
 apps/rd_hist.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/rd_hist.cpp b/apps/rd_hist.cpp
index 253f332..93ffb77 100644
--- a/apps/rd_hist.cpp
+++ b/apps/rd_hist.cpp
@@ -14,10 +14,10 @@ int PerformAlgorithm(Array2D<T> rast){
   for(unsigned int i=0;i<rast.size();i++)
     counts[rast(i)]++;
 
-  std::cout<<"Nodata: "<<(int)rast.noData()<<std::endl;
+  std::cout<<"Nodata: "<<+rast.noData()<<std::endl;
 
   for(const auto &x: counts)
-    std::cout<<std::setw(20)<<x.first<<" "<<std::setw(20)<<x.second<<"\n";
+    std::cout<<std::setw(20)<<+x.first<<" "<<std::setw(20)<<x.second<<"\n";
 
   return 0;
 }
-- 
2.43.0


From 3d5cca763cc0a8321080643f87d7a24f5a6e4a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:29 +0000
Subject: [PATCH 68/75] fix: programs report failure in their exit code

---
 apps/rd_compare.cpp            | 4 +---
 apps/rd_d8_flowdirs.cpp        | 4 +---
 apps/rd_expand_dimensions.cpp  | 4 +---
 apps/rd_flood_for_flowdirs.cpp | 4 +---
 apps/rd_geotransform.cpp       | 4 +---
 apps/rd_hist.cpp               | 4 +---
 apps/rd_no_data.cpp            | 2 +-
 apps/rd_projection.cpp         | 4 +---
 apps/rd_raster_display.cpp     | 4 +---
 9 files changed, 9 insertions(+), 25 deletions(-)

diff --git a/apps/rd_compare.cpp b/apps/rd_compare.cpp
index b0dc8de..8598bb0 100644
--- a/apps/rd_compare.cpp
+++ b/apps/rd_compare.cpp
@@ -43,7 +43,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2]);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2]);
 }
\ No newline at end of file
diff --git a/apps/rd_d8_flowdirs.cpp b/apps/rd_d8_flowdirs.cpp
index dcfb251..2fb956e 100644
--- a/apps/rd_d8_flowdirs.cpp
+++ b/apps/rd_d8_flowdirs.cpp
@@ -34,7 +34,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2],analysis);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2],analysis);
 }
\ No newline at end of file
diff --git a/apps/rd_expand_dimensions.cpp b/apps/rd_expand_dimensions.cpp
index 4e713a2..1f2459a 100644
--- a/apps/rd_expand_dimensions.cpp
+++ b/apps/rd_expand_dimensions.cpp
@@ -40,7 +40,5 @@ int main(int argc, char **argv){
   int new_width  = std::stoi(argv[3]);
   int new_height = std::stoi(argv[4]);
 
-  PerformAlgorithm(argv[1],argv[2],new_width,new_height,analysis);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2],new_width,new_height,analysis);
 }
\ No newline at end of file
diff --git a/apps/rd_flood_for_flowdirs.cpp b/apps/rd_flood_for_flowdirs.cpp
index e53818e..0beb3d0 100644
--- a/apps/rd_flood_for_flowdirs.cpp
+++ b/apps/rd_flood_for_flowdirs.cpp
@@ -69,7 +69,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2],analysis);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2],analysis);
 }
\ No newline at end of file
diff --git a/apps/rd_geotransform.cpp b/apps/rd_geotransform.cpp
index 3d3a08b..eeab245 100644
--- a/apps/rd_geotransform.cpp
+++ b/apps/rd_geotransform.cpp
@@ -55,7 +55,7 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(
+  return PerformAlgorithm(
     std::string(argv[1]),
     std::string(argv[2]),
     std::string(argv[3]),
@@ -66,6 +66,4 @@ int main(int argc, char **argv){
     std::string(argv[8]),
     analysis
   );
-
-  return 0;
 }
\ No newline at end of file
diff --git a/apps/rd_hist.cpp b/apps/rd_hist.cpp
index 93ffb77..740c498 100644
--- a/apps/rd_hist.cpp
+++ b/apps/rd_hist.cpp
@@ -34,7 +34,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(std::string(argv[1]));
-
-  return 0;
+  return PerformAlgorithm(std::string(argv[1]));
 }
\ No newline at end of file
diff --git a/apps/rd_no_data.cpp b/apps/rd_no_data.cpp
index c6356f7..173bb3b 100644
--- a/apps/rd_no_data.cpp
+++ b/apps/rd_no_data.cpp
@@ -31,7 +31,7 @@ int main(int argc, char **argv){
     Array2D<double> temp(argv[1],false,0,0,0,0,false,false); //Not loading the data: a double holds any NoData value
     std::cerr<<temp.noData()<<std::endl;
   } else {
-    PerformAlgorithm(std::string(argv[1]),argv[2],argv[3],analysis);
+    return PerformAlgorithm(std::string(argv[1]),argv[2],argv[3],analysis);
   }
 
   return 0;
diff --git a/apps/rd_projection.cpp b/apps/rd_projection.cpp
index 582130b..a8ce70c 100644
--- a/apps/rd_projection.cpp
+++ b/apps/rd_projection.cpp
@@ -36,7 +36,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(std::string(argv[1]),std::string(argv[2]),std::string(argv[3]),analysis);
-
-  return 0;
+  return PerformAlgorithm(std::string(argv[1]),std::string(argv[2]),std::string(argv[3]),analysis);
 }
diff --git a/apps/rd_raster_display.cpp b/apps/rd_raster_display.cpp
index 993376c..0b702a0 100644
--- a/apps/rd_raster_display.cpp
+++ b/apps/rd_raster_display.cpp
@@ -57,7 +57,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2]);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2]);
 }
-- 
2.43.0


From eb7d9bf31597624b387b16339a53a4a2b9b71136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:29 +0000
Subject: [PATCH 69/75] fix: rd_fill_spill_merge georeferences its results

---
 apps/rd_fill_spill_merge.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/rd_fill_spill_merge.cpp b/apps/rd_fill_spill_merge.cpp
index de67af6..dca04c0 100644
--- a/apps/rd_fill_spill_merge.cpp
+++ b/apps/rd_fill_spill_merge.cpp
@@ -58,6 +58,8 @@ int main(int argc, char **argv){
   rd::Array2D<rd::flowdir_t>  flowdirs(topo.width(), topo.height(), rd::NO_FLOW);      //No cells flow anywhere
 
   wtd.setNoData(topo.noData());
+  wtd.geotransform = topo.geotransform;
+  wtd.projection   = topo.projection;
 
   //Label the ocean cells. This is a precondition for using
   //`GetDepressionHierarchy()`.
-- 
2.43.0


From 23ea117463e57f4dce3342682baf0d38cbed8619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:29 +0000
Subject: [PATCH 70/75] fix: rd_depression_hierarchy georeferences its labels

---
 apps/rd_depression_hierarchy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/rd_depression_hierarchy.cpp b/apps/rd_depression_hierarchy.cpp
index 4e1d17c..60a3e9c 100644
--- a/apps/rd_depression_hierarchy.cpp
+++ b/apps/rd_depression_hierarchy.cpp
@@ -61,7 +61,8 @@ int main(int argc, char **argv){
     }
   }
 
-  label.projection = topo.projection;
+  label.projection   = topo.projection;
+  label.geotransform = topo.geotransform;
   label.saveGDAL(out_name+"-label.tif");
 
   timer_io.stop();
-- 
2.43.0


From cc1a15ee9b31cf2a01701d8c87398a8412a465a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:29 +0000
Subject: [PATCH 71/75] fix: rasters saved without a description are marked as
 such in their history

---
 include/richdem/common/Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 1d20d4c..be4bd0f 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -1149,7 +1149,7 @@ class Array2D {
 
       //TODO: `metadata_str` may need removing
       metadata["PROCESSING_HISTORY"] += "\n" + std::string(time_str) + " | " + program_identifier + " | ";
-      if(!metadata.empty())
+      if(!metadata_str.empty())
         metadata["PROCESSING_HISTORY"] += metadata_str;
       else
         metadata["PROCESSING_HISTORY"] += "Unspecified Operation";
-- 
2.43.0


From b06ac53e7ad49326d60feaadc559ba027ecbb109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:29 +0000
Subject: [PATCH 72/75] fix: rd_raster_inspect does not read beyond the raster

---
 apps/rd_raster_inspect.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/rd_raster_inspect.cpp b/apps/rd_raster_inspect.cpp
index d990a17..35629b8 100644
--- a/apps/rd_raster_inspect.cpp
+++ b/apps/rd_raster_inspect.cpp
@@ -33,6 +33,9 @@ int PerformAlgorithm(int minx, int maxx, int miny, int maxy, bool flipV, bool fl
     maxy       = std::min(cy+radius,inp.height()-1);
   }
 
+  if(maxx>=inp.width() || maxy>=inp.height())
+    throw std::runtime_error("The area must lie within the raster!");
+
   if(minx>maxx)
     throw std::runtime_error("MinX must be smaller than MaxX!");
 
-- 
2.43.0


From 1835503bd2914fab3b01689207c068a9ad0ee435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:44 +0000
Subject: [PATCH 73/75] fix: merged tiles are georeferenced where their cells
 lie

---
 include/richdem/tiled/A2Array2D.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index af3ca1e..af94ffc 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -565,6 +565,17 @@ class A2Array2D {
     if(out_geotransform.size()!=6)
       throw std::runtime_error("Geotransform of output is not the right size. Found "+std::to_string(out_geotransform.size())+" expected 6.");
 
+    //Tiles are held with their first row in the north and their first column in
+    //the west, however they were stored
+    if(out_geotransform[1]<0){
+      out_geotransform[0] += out_geotransform[1]*tileWidth(0,0);
+      out_geotransform[1]  = -out_geotransform[1];
+    }
+    if(out_geotransform[5]>0){
+      out_geotransform[3] += out_geotransform[5]*tileHeight(0,0);
+      out_geotransform[5]  = -out_geotransform[5];
+    }
+
     fout->SetGeoTransform(out_geotransform.data());
     fout->SetProjection(data[0][0].projection.c_str());
 
-- 
2.43.0


From 1771e33acac8b3f96f8a803088c9dc733921325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:41 +0000
Subject: [PATCH 74/75] fix: unknown or disabled algorithm numbers are refused,
 not answered with a file

---
 apps/rd_flow_accumulation.cpp | 8 +++++---
 apps/rd_terrain_property.cpp  | 2 ++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/apps/rd_flow_accumulation.cpp b/apps/rd_flow_accumulation.cpp
index c8ee79d..c2929e1 100644
--- a/apps/rd_flow_accumulation.cpp
+++ b/apps/rd_flow_accumulation.cpp
@@ -26,14 +26,16 @@ int PerformAlgorithm(std::string output, int algorithm, float param, std::string
     case 6: //D∞     - Tarboton (1997)
       FA_Tarboton(dem,accum);                           break;
     case 7: //MD∞    - Seibert & McGlynn (2007)
-      std::cerr<<"This FA is temporarily disabled."; break;
+      std::cerr<<"This FA is temporarily disabled."<<std::endl; return -1;
       //FA_SeibertMcGlynn(dem,accum,param);               break;
     case 8: //D8-LTD - Orlandini et al. (2003)
-      std::cerr<<"This FA is temporarily disabled."; break;
+      std::cerr<<"This FA is temporarily disabled."<<std::endl; return -1;
       //FA_Orlandini(dem,accum,OrlandiniMode::LTD,param); break;
     case 9: //D8-LAD - Orlandini et al. (2003)
-      std::cerr<<"This FA is temporarily disabled."; break;
+      std::cerr<<"This FA is temporarily disabled."<<std::endl; return -1;
       //FA_Orlandini(dem,accum,OrlandiniMode::LAD,param); break;
+    default:
+      std::cerr<<"Unrecognised algorithm!"<<std::endl; return -1;
   }
 
   accum.scale(accum.getCellArea());
diff --git a/apps/rd_terrain_property.cpp b/apps/rd_terrain_property.cpp
index 6c49cb6..cf60579 100644
--- a/apps/rd_terrain_property.cpp
+++ b/apps/rd_terrain_property.cpp
@@ -29,6 +29,8 @@ int PerformAlgorithm(std::string output, int algorithm, float z_scale, std::stri
       TA_planform_curvature(dem,result,z_scale); break;
     case 8: 
       TA_profile_curvature (dem,result,z_scale); break;
+    default:
+      std::cerr<<"Unrecognised algorithm!"<<std::endl; return -1;
   }
 
   result.saveGDAL(output,analysis);
-- 
2.43.0


From 35f43532ade9df7bd58691bb8ecf6a4951119a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:41 +0000
Subject: [PATCH 75/75] fix: reports of NoData, geotransforms and values keep
 all their digits

---
 apps/rd_geotransform.cpp | 3 ++-
 apps/rd_hist.cpp         | 2 ++
 apps/rd_no_data.cpp      | 4 +++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/apps/rd_geotransform.cpp b/apps/rd_geotransform.cpp
index eeab245..7acf3aa 100644
--- a/apps/rd_geotransform.cpp
+++ b/apps/rd_geotransform.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <iomanip>
+#include <limits>
 #include <richdem/common/version.hpp>
 #include <richdem/common/Array2D.hpp>
 using namespace richdem;
@@ -39,7 +40,7 @@ int main(int argc, char **argv){
 
   if(argc==2){
     Array2D<int8_t> temp(argv[1],false,0,0,0,0,false,false); //Data type doesn't matter since we're not loading it
-    std::cout<<"Geotransform: ";
+    std::cout<<"Geotransform: "<<std::setprecision(std::numeric_limits<double>::digits10);
     for(auto v: temp.geotransform)
       std::cout<<std::setw(10)<<v<<" ";
     std::cout<<"Width:  "<<temp.width() <<std::endl;
diff --git a/apps/rd_hist.cpp b/apps/rd_hist.cpp
index 740c498..4ac34e1 100644
--- a/apps/rd_hist.cpp
+++ b/apps/rd_hist.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <iomanip>
+#include <limits>
 #include <unordered_map>
 #include <richdem/common/version.hpp>
 #include <richdem/common/Array2D.hpp>
@@ -14,6 +15,7 @@ int PerformAlgorithm(Array2D<T> rast){
   for(unsigned int i=0;i<rast.size();i++)
     counts[rast(i)]++;
 
+  std::cout<<std::setprecision(std::numeric_limits<T>::max_digits10); //Different values must look different
   std::cout<<"Nodata: "<<+rast.noData()<<std::endl;
 
   for(const auto &x: counts)
diff --git a/apps/rd_no_data.cpp b/apps/rd_no_data.cpp
index 173bb3b..24a0f68 100644
--- a/apps/rd_no_data.cpp
+++ b/apps/rd_no_data.cpp
@@ -1,4 +1,6 @@
+#include <iomanip>
 #include <iostream>
+#include <limits>
 #include <string>
 #include <cstdlib>
 #include <richdem/common/version.hpp>
@@ -29,7 +31,7 @@ int main(int argc, char **argv){
 
   if(argc==2){
     Array2D<double> temp(argv[1],false,0,0,0,0,false,false); //Not loading the data: a double holds any NoData value
-    std::cerr<<temp.noData()<<std::endl;
+    std::cerr<<std::setprecision(std::numeric_limits<double>::digits10)<<temp.noData()<<std::endl;
   } else {
     return PerformAlgorithm(std::string(argv[1]),argv[2],argv[3],analysis);
   }
-- 
2.43.0

