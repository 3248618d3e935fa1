From e7bfcabd5b5c94221aa4972cf286c7e67a7f1b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:51 +0000
Subject: [PATCH 01/67] fix: give every thread its own random generator

The Mersenne twister shared by all OpenMP threads was advanced without
synchronisation while domains are populated and beams are injected.
---
 src/math/rand.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/rand.cpp b/src/math/rand.cpp
index b80387c..bdfc580 100644
--- a/src/math/rand.cpp
+++ b/src/math/rand.cpp
@@ -21,8 +21,8 @@ using namespace std;
 
 namespace math::random
 {
-  std::random_device device;
-  std::mt19937 gen(device());
+  // every OpenMP thread must have its own generator
+  thread_local std::mt19937 gen(std::random_device{}());
 
   std::uniform_real_distribution<double> uniform_distribution(0., 1.);
   double uniform()
-- 
2.43.0


From 1d45474b8d1d5e617d48dfef0165c32b7d6c8012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:51 +0000
Subject: [PATCH 02/67] fix: do not race in the particle runaway collector

Domains i and i+2 are swept concurrently and may both hand particles to
domain i+1 (or to the MPI queues): list insertion and the counters need
synchronisation.
---
 src/SMB.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index b3677ba..e4cfab5 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -254,6 +254,7 @@ void SMB::particles_runaway_collector ()
                     LOG_S(ERROR) << "Particle's position is less, than 0. Position is: ["
                                  << P_POS_R((*o)) << ", "
                                  << P_POS_Z((*o)) << "]. Removing";
+#pragma omp atomic
                     ++r_c;
                     res = true;
                   }
@@ -264,12 +265,14 @@ void SMB::particles_runaway_collector ()
 #ifdef ENABLE_MPI
                   else if (z_cell < __geometry->cell_dims[1])
                   {
+#pragma omp critical (runaway)
                     queue_particles_minus.push_back(o);
                     res = true;
                   }
                   // send particle to next SMB
                   else if (z_cell >= __geometry->cell_dims[3])
                   {
+#pragma omp critical (runaway)
                     queue_particles_plus.push_back(o);
                     res = true;
                   }
@@ -291,6 +294,7 @@ void SMB::particles_runaway_collector ()
                                    << P_POS_R((*o)) << ", "
                                    << P_POS_Z((*o)) << "]. Removing";
                     }
+#pragma omp atomic
                     ++r_c;
                     res = true;
                   }
@@ -312,6 +316,7 @@ void SMB::particles_runaway_collector ()
                                    << P_POS_R((*o)) << ", "
                                    << P_POS_Z((*o)) << "]. Removing";
                     }
+#pragma omp atomic
                     ++r_c;
                     res = true;
                   }
@@ -319,6 +324,7 @@ void SMB::particles_runaway_collector ()
                   // move particles between cells
                   else if (i_dst != i || j_dst != j) // check that destination domain is different, than source
                   {
+#pragma omp atomic
                     ++j_c;
 
                     Domain *dst_domain = __domains(i_dst, j_dst);
@@ -331,6 +337,7 @@ void SMB::particles_runaway_collector ()
                                    << i << "," << j
                                    << "'' to domain ``"
                                    << i_dst << "," << j_dst << "''";
+#pragma omp critical (runaway)
                         (**pd).particles.push_back(o);
                       }
 
-- 
2.43.0


From 4a22a2d5f41248a69ae7b7771395bb15d89939ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:09 +0000
Subject: [PATCH 03/67] fix: do not write outside of the dims vector of col,
 row and dot probes

---
 src/cfg.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index e2d09e1..81695d5 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -257,6 +257,7 @@ void Cfg::init_probes ()
     else if ( p_shape.compare("col") == 0 )
     {
       p_p.shape = 1;
+      p_p.dims.resize(4);
       p_p.dims[0] = 0;
       p_p.dims[2] = 0;
       p_p.dims[3] = (int)o["z"].get<double>();
@@ -270,6 +271,7 @@ void Cfg::init_probes ()
     else if ( p_shape.compare("row") == 0 )
     {
       p_p.shape = 2;
+      p_p.dims.resize(4);
       p_p.dims[2] = (int)o["r"].get<double>();
       p_p.dims[0] = 0;
       p_p.dims[1] = 0;
@@ -283,6 +285,7 @@ void Cfg::init_probes ()
     else if ( p_shape.compare("dot") == 0 )
     {
       p_p.shape = 3;
+      p_p.dims.resize(4);
       p_p.dims[2] = (int)o["r"].get<double>();
       p_p.dims[0] = 0;
       p_p.dims[3] = (int)o["z"].get<double>();
-- 
2.43.0


From af3dba0094651ce933d52e25aeb654e8e99de8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:09 +0000
Subject: [PATCH 04/67] fix: number time steps by rounding, not by ceil

The current time is a sum of steps and carries rounding error, so ceil()
gave the same number to two steps and skipped the next one: frames were
lost or written twice.
---
 src/msg.cpp           | 2 +-
 src/outController.cpp | 2 +-
 src/outWriter.cpp     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/msg.cpp b/src/msg.cpp
index d833cfa..6c91c6a 100644
--- a/src/msg.cpp
+++ b/src/msg.cpp
@@ -49,7 +49,7 @@ namespace msg
                      unsigned int probe_schedule, TimeSim *time)
   {
 #ifndef ENABLE_DEBUG
-    int current_time_step = ceil(time->current / time->step);
+    int current_time_step = lround(time->current / time->step);
     std::string dump_step = std::to_string((int)current_time_step / probe_schedule);
     std::ostringstream time_conv;
     time_conv << time->current;
diff --git a/src/outController.cpp b/src/outController.cpp
index aeaf1de..22315a8 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -338,7 +338,7 @@ void OutController::init_datasets()
     OutEngineHDF5 engine (hdf5_file, prb->path, hdf5_prb_size, offset, true, false);
 #endif // end of ENABLE_HDF5
 
-    int current_time_step = ceil(time->current / time->step);
+    int current_time_step = lround(time->current / time->step);
     int is_run = current_time_step % prb->schedule;
 
     if (is_run == 0)
diff --git a/src/outWriter.cpp b/src/outWriter.cpp
index 6dc3912..e552e9d 100644
--- a/src/outWriter.cpp
+++ b/src/outWriter.cpp
@@ -48,7 +48,7 @@ OutWriter::OutWriter ( HighFive::File* _file, string _path, unsigned short _shap
 
 void OutWriter::operator()()
 {
-  int current_time_step = ceil(time->current / time->step);
+  int current_time_step = lround(time->current / time->step);
   int is_run = current_time_step % schedule;
 
   if (is_run == 0)
-- 
2.43.0


From a140c31a8a13d2b12888a0df79f156255717d019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:09 +0000
Subject: [PATCH 05/67] fix: do not attach a rec probe to a domain it only
 touches

The part of the probe inside such a domain is empty and writing it reads
the first element of an empty vector.
---
 src/outController.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/outController.cpp b/src/outController.cpp
index 22315a8..90b4ea6 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -89,10 +89,10 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
         // check if probe possition intersects the domain
         if (
           ( prb->shape == 0                      // condition for rec
-            && prb_size[0] <= domain_size[2]
-            && prb_size[1] <= domain_size[3]
-            && prb_size[2] >= domain_size[0]
-            && prb_size[3] >= domain_size[1] )
+            && prb_size[0] < domain_size[2]
+            && prb_size[1] < domain_size[3]
+            && prb_size[2] > domain_size[0]
+            && prb_size[3] > domain_size[1] )
           || ( prb->shape == 1                    // condition for column
                && prb_size[3] >= domain_size[1]
                && prb_size[3] <= domain_size[3]
-- 
2.43.0


From de6f25d6627b8246163ce079f7d292d6a3035bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:09 +0000
Subject: [PATCH 06/67] fix: allow configuration without probes

---
 src/outController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/outController.cpp b/src/outController.cpp
index 90b4ea6..057adcf 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -35,7 +35,7 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
 // write metadata
 #ifdef ENABLE_HDF5
   hdf5_file = _file;
-  OutEngineHDF5 engine (hdf5_file, _probes[0].path, {0,0}, {0,0}, true, false);
+  OutEngineHDF5 engine (hdf5_file, "/", {0,0}, {0,0}, true, false);
 #endif // end of ENABLE_HDF5
 
   engine.write_metadata( _metadata );
-- 
2.43.0


From f5086306a7c7b607cc013182871efe6dc5ba5570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:09 +0000
Subject: [PATCH 07/67] fix: allow several probes of the same component and
 shape

They share one group and creating it for the second time was fatal.
---
 src/outEngine/outEngineHDF5.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/outEngine/outEngineHDF5.cpp b/src/outEngine/outEngineHDF5.cpp
index 446e415..013a607 100644
--- a/src/outEngine/outEngineHDF5.cpp
+++ b/src/outEngine/outEngineHDF5.cpp
@@ -118,14 +118,11 @@ void OutEngineHDF5::write_dot(size_t _num, double data)
 
 void OutEngineHDF5::create_dataset()
 {
-  string group_name = path.substr(0, path.find_last_of("\\/"));
+  // the group can be shared by several probes
+  create_path();
 
   try
   {
-    LOG_S(MAX) << "Creating group ``" << group_name << "''";
-    Group group_instance = data_file->createGroup('/' + group_name);
-    LOG_S(MAX) << "Group ``" << group_name << "'' created";
-
     std::vector<size_t> dims_init = {1};
     std::vector<size_t> dims_final = {DataSpace::UNLIMITED};
     for (unsigned int i=0; i < size.size(); ++i)
-- 
2.43.0


From 7749a90a3aae028fdfef5672fb70fc58f625e029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:30 +0000
Subject: [PATCH 08/67] fix: do not overflow the buffer of the simulation
 duration

A single char was allocated for the whole string; every progress line
wrote past it.
---
 src/algo/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algo/common.cpp b/src/algo/common.cpp
index 76182c8..9698ce1 100644
--- a/src/algo/common.cpp
+++ b/src/algo/common.cpp
@@ -66,7 +66,7 @@ namespace algo::common
 
     int d, hr, min;
     double sec;
-    char* the_time = new char;
+    char the_time[64];
 
     int sec_in_min = 60;
     int sec_in_hr = 3600;
-- 
2.43.0


From 78e0f767702cbea6cf3de1bd245f88b50b9f6f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:52 +0000
Subject: [PATCH 09/67] fix: reflect particles located exactly at zero local
 coordinate

isnormal(0) is false, so a particle with a coordinate that is exactly
zero in its domain was never reflected.
---
 src/specieP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 1999711..4c5d84d 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -519,7 +519,7 @@ void SpecieP::reflect ()
     double pos_delta_z = pos_z - pos_old_z;
 
     while ( // catch multiple reflections
-      isnormal(pos_r) && isnormal(pos_z) && // ensure, that position components are not NANs
+      isfinite(pos_r) && isfinite(pos_z) && // ensure, that position components are not NANs
       (
         (pos_r > radius_wall && geometry->walls[2])
         || (pos_z > longitude_wall && geometry->walls[3])
-- 
2.43.0


From 37934ecf9b4f9cf5abf8b81280d82b76fb04abb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:28 +0000
Subject: [PATCH 10/67] fix: keep velocity finite when particle lands exactly
 on the axis

---
 src/specieP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 4c5d84d..af3d31d 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -615,7 +615,7 @@ void SpecieP::back_position_to_rz()
     double pos_r = P_POS_R((**p));
     double pos_phi = P_POS_PHI((**p));
     double r = algo::common::sq_rt(pos_r * pos_r + pos_phi * pos_phi);
-    P_SIN((**p)) = pos_phi / r;
+    P_SIN((**p)) = r > 0 ? pos_phi / r : 0; // particle could land exactly on the axis
     P_POS_R((**p)) = r;
     P_POS_PHI((**p)) = 0;
   }
-- 
2.43.0


From 6555fdd8e2ee3bfc8d3a08b6e068c837621c572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:46 +0000
Subject: [PATCH 11/67] fix: do not truncate probe schedule to 16 bits

---
 include/outWriter.hpp | 6 +++---
 src/outWriter.cpp     | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/outWriter.hpp b/include/outWriter.hpp
index 401e7fa..52179a1 100644
--- a/include/outWriter.hpp
+++ b/include/outWriter.hpp
@@ -37,7 +37,7 @@ private:
 #endif // end of ENABLE_HDF5
 
   TimeSim *time;
-  unsigned short schedule;
+  unsigned int schedule;
   unsigned short shape; // 0 - cube; 1 - rec; 2 - vec; 3 - dot
   std::vector<short> position; // { a_start, b_start, c_start, ... a_end, b_end, c_end ... } for rectangles and cubes - diagonal points
   Grid<double> *values;
@@ -47,13 +47,13 @@ public:
   OutWriter () {};
   OutWriter ( std::string _path, unsigned short _shape,
               std::vector<short> _position, std::vector<size_t> _engine_offset,
-              unsigned short _schedule, bool _append, unsigned short _compress,
+              unsigned int _schedule, bool _append, unsigned short _compress,
               TimeSim *_time, Grid<double> *_values );
 
 #ifdef ENABLE_HDF5
   OutWriter ( HighFive::File* _file, std::string _path, unsigned short _shape,
               std::vector<short> _position, std::vector<size_t> _engine_offset,
-              unsigned short _schedule, bool _append, unsigned short _compress,
+              unsigned int _schedule, bool _append, unsigned short _compress,
               TimeSim *_time, Grid<double> *_values );
 #endif // ENABLE_HDF5
 
diff --git a/src/outWriter.cpp b/src/outWriter.cpp
index e552e9d..88a9fec 100644
--- a/src/outWriter.cpp
+++ b/src/outWriter.cpp
@@ -21,7 +21,7 @@ using namespace std;
 
 OutWriter::OutWriter ( string _path, unsigned short _shape,
                        vector<short> _position, vector<size_t> _engine_offset,
-                       unsigned short _schedule, bool _append, unsigned short _compress,
+                       unsigned int _schedule, bool _append, unsigned short _compress,
                        TimeSim *_time, Grid<double> *_values )
   : time(_time)
 {
@@ -35,7 +35,7 @@ OutWriter::OutWriter ( string _path, unsigned short _shape,
 #ifdef ENABLE_HDF5
 OutWriter::OutWriter ( HighFive::File* _file, string _path, unsigned short _shape,
                        vector<short> _position, vector<size_t> _engine_offset,
-                       unsigned short _schedule, bool _append, unsigned short _compress,
+                       unsigned int _schedule, bool _append, unsigned short _compress,
                        TimeSim *_time, Grid<double> *_values )
   : OutWriter ( _path, _shape, _position, _engine_offset, _schedule,
                 _append, _compress, _time, _values)
-- 
2.43.0


From a90bed273ddf742a346c20477968a33e6fe23fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:36 +0000
Subject: [PATCH 12/67] fix: exchange corners of the domains when overlaying
 grids

---
 include/algo/grid.hpp |  12 ++--
 src/SMB.cpp           | 153 ++++++++++++++++--------------------------
 src/outController.cpp | 104 +++++++++++-----------------
 3 files changed, 103 insertions(+), 166 deletions(-)

diff --git a/include/algo/grid.hpp b/include/algo/grid.hpp
index 1343cd4..4dae3f8 100644
--- a/include/algo/grid.hpp
+++ b/include/algo/grid.hpp
@@ -100,7 +100,7 @@ public:
   {
     if (x_real_size == rhsgrid.x_real_size)
       for (unsigned int d = 0; d < o_s; ++d)
-        for (unsigned int i = o_s; i < x_real_size - o_s; ++i)
+        for (unsigned int i = 0; i < x_real_size; ++i)
         {
           rhsgrid.grid[i][2*o_s-d-1] += grid[i][y_real_size-1-d];
           grid[i][y_real_size-2*o_s+d] += rhsgrid.grid[i][d];
@@ -118,7 +118,7 @@ public:
   {
     if (y_real_size == rhsgrid.y_real_size)
       for (unsigned int d = 0; d < o_s; ++d)
-        for (unsigned int i = o_s; i < y_real_size - o_s; ++i)
+        for (unsigned int i = 0; i < y_real_size; ++i)
         {
           rhsgrid.grid[2*o_s-d-1][i] += grid[x_real_size-1-d][i];
           grid[x_real_size-2*o_s+d][i] += rhsgrid.grid[d][i];
@@ -138,11 +138,11 @@ public:
       for (unsigned int d = 0; d < o_s; ++d)
         for (unsigned int e = 0; e < o_s; ++e)
         {
-          rhsgrid.grid[2*o_s-d-1][2*o_s-e-1] += grid[x_real_size-1-d][x_real_size-1-e];
-          grid[x_real_size-2*o_s+d][x_real_size-2*o_s+e] += rhsgrid.grid[d][e];
+          rhsgrid.grid[2*o_s-d-1][2*o_s-e-1] += grid[x_real_size-1-d][y_real_size-1-e];
+          grid[x_real_size-2*o_s+d][y_real_size-2*o_s+e] += rhsgrid.grid[d][e];
 
-          rhsgrid.grid[d][e] = grid[y_real_size-2*o_s+d][y_real_size-2*o_s+e];
-          grid[x_real_size-1-d][x_real_size-1-e] = rhsgrid.grid[2*o_s-1-d][2*o_s-1-e];
+          rhsgrid.grid[d][e] = grid[x_real_size-2*o_s+d][y_real_size-2*o_s+e];
+          grid[x_real_size-1-d][y_real_size-1-e] = rhsgrid.grid[2*o_s-1-d][2*o_s-1-e];
         }
     else
     {
diff --git a/src/SMB.cpp b/src/SMB.cpp
index e4cfab5..cea0d45 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -572,35 +572,27 @@ void SMB::particles_runaway_collector ()
 
 void SMB::current_overlay ()
 {
+  // overlay whole borders (including corners) along r, then along z.
+  // Values of the corners reach diagonal neighbours in two steps
   for (unsigned int idx = 0; idx < 2; ++idx)
-    for (unsigned int idy = 0; idy < 2; ++idy)
-    {
-#pragma omp parallel for
-      for (unsigned int i = idx; i < r_domains; i+=2)
-        for (unsigned int j = idy; j < z_domains; j+=2)
-        {
-          Domain *sim_domain = domains(i, j);
-
-          // update grid
-          if (i < geometry->domains_amount[0] - 1)
-          {
-            Domain *dst_domain = domains(i+1, j);
-            sim_domain->current->current.overlay_x(dst_domain->current->current);
-          }
-
-          if (j < geometry->domains_amount[1] - 1)
-          {
-            Domain *dst_domain = domains(i, j + 1);
-            sim_domain->current->current.overlay_y(dst_domain->current->current);
-          }
+#pragma omp parallel for collapse(2)
+    for (unsigned int i = idx; i < r_domains - 1; i+=2)
+      for (unsigned int j = 0; j < z_domains; ++j)
+      {
+        Domain *sim_domain = domains(i, j);
+        Domain *dst_domain = domains(i + 1, j);
+        sim_domain->current->current.overlay_x(dst_domain->current->current);
+      }
 
-          if (i < geometry->domains_amount[0] - 1 && j < geometry->domains_amount[1] - 1)
-          {
-            Domain *dst_domain = domains(i + 1, j + 1);
-            sim_domain->current->current.overlay_xy(dst_domain->current->current);
-          }
-        }
-    }
+  for (unsigned int idy = 0; idy < 2; ++idy)
+#pragma omp parallel for collapse(2)
+    for (unsigned int i = 0; i < r_domains; ++i)
+      for (unsigned int j = idy; j < z_domains - 1; j+=2)
+      {
+        Domain *sim_domain = domains(i, j);
+        Domain *dst_domain = domains(i, j + 1);
+        sim_domain->current->current.overlay_y(dst_domain->current->current);
+      }
 
 #ifdef ENABLE_MPI
   ////
@@ -790,44 +782,29 @@ void SMB::current_overlay ()
 
 void SMB::field_h_overlay ()
 {
+  // overlay whole borders (including corners) along r, then along z.
+  // Values of the corners reach diagonal neighbours in two steps
   for (unsigned int idx = 0; idx < 2; ++idx)
-    for (unsigned int idy = 0; idy < 2; ++idy)
-    {
-#pragma omp parallel for
-      for (unsigned int i = idx; i < r_domains; i+=2)
-        for (unsigned int j = idy; j < z_domains; j+=2)
-        {
-          Domain *sim_domain = domains(i, j);
-
-          // update grid
-          if (i < geometry->domains_amount[0] - 1)
-          {
-            Domain *dst_domain = domains(i+1, j);
-            sim_domain->maxwell_solver->field_h.overlay_x(
-              dst_domain->maxwell_solver->field_h
-              );
-            sim_domain->maxwell_solver->field_h_at_et.overlay_x(
-              dst_domain->maxwell_solver->field_h_at_et
-              );
-          }
-
-          if (j < geometry->domains_amount[1] - 1)
-          {
-            Domain *dst_domain = domains(i, j + 1);
-            sim_domain->maxwell_solver->field_h.overlay_y(
-              dst_domain->maxwell_solver->field_h);
-            sim_domain->maxwell_solver->field_h_at_et.overlay_y(
-              dst_domain->maxwell_solver->field_h_at_et);
-          }
+#pragma omp parallel for collapse(2)
+    for (unsigned int i = idx; i < r_domains - 1; i+=2)
+      for (unsigned int j = 0; j < z_domains; ++j)
+      {
+        Domain *sim_domain = domains(i, j);
+        Domain *dst_domain = domains(i + 1, j);
+        sim_domain->maxwell_solver->field_h.overlay_x(dst_domain->maxwell_solver->field_h);
+        sim_domain->maxwell_solver->field_h_at_et.overlay_x(dst_domain->maxwell_solver->field_h_at_et);
+      }
 
-          if (i < geometry->domains_amount[0] - 1 && j < geometry->domains_amount[1] - 1)
-          {
-            Domain *dst_domain = domains(i + 1, j + 1);
-            sim_domain->maxwell_solver->field_h.overlay_xy(dst_domain->maxwell_solver->field_h);
-            sim_domain->maxwell_solver->field_h_at_et.overlay_xy(dst_domain->maxwell_solver->field_h_at_et);
-          }
-        }
-    }
+  for (unsigned int idy = 0; idy < 2; ++idy)
+#pragma omp parallel for collapse(2)
+    for (unsigned int i = 0; i < r_domains; ++i)
+      for (unsigned int j = idy; j < z_domains - 1; j+=2)
+      {
+        Domain *sim_domain = domains(i, j);
+        Domain *dst_domain = domains(i, j + 1);
+        sim_domain->maxwell_solver->field_h.overlay_y(dst_domain->maxwell_solver->field_h);
+        sim_domain->maxwell_solver->field_h_at_et.overlay_y(dst_domain->maxwell_solver->field_h_at_et);
+      }
 
 #ifdef ENABLE_MPI
   ////
@@ -1016,39 +993,27 @@ void SMB::field_h_overlay ()
 
 void SMB::field_e_overlay ()
 {
+  // overlay whole borders (including corners) along r, then along z.
+  // Values of the corners reach diagonal neighbours in two steps
   for (unsigned int idx = 0; idx < 2; ++idx)
-    for (unsigned int idy = 0; idy < 2; ++idy)
-    {
-#pragma omp parallel for
-      for (unsigned int i = idx; i < r_domains; i+=2)
-        for (unsigned int j = idy; j < z_domains; j+=2)
-        {
-          Domain *sim_domain = domains(i, j);
-
-          // update grid
-          if (i < geometry->domains_amount[0] - 1)
-          {
-            Domain *dst_domain = domains(i+1, j);
-            sim_domain->maxwell_solver->field_e.overlay_x(
-              dst_domain->maxwell_solver->field_e
-              );
-          }
-
-          if (j < geometry->domains_amount[1] - 1)
-          {
-            Domain *dst_domain = domains(i, j + 1);
-            sim_domain->maxwell_solver->field_e.overlay_y(
-              dst_domain->maxwell_solver->field_e
-              );
-          }
+#pragma omp parallel for collapse(2)
+    for (unsigned int i = idx; i < r_domains - 1; i+=2)
+      for (unsigned int j = 0; j < z_domains; ++j)
+      {
+        Domain *sim_domain = domains(i, j);
+        Domain *dst_domain = domains(i + 1, j);
+        sim_domain->maxwell_solver->field_e.overlay_x(dst_domain->maxwell_solver->field_e);
+      }
 
-          if (i < geometry->domains_amount[0] - 1 && j < geometry->domains_amount[1] - 1)
-          {
-            Domain *dst_domain = domains(i + 1, j + 1);
-            sim_domain->maxwell_solver->field_e.overlay_xy(dst_domain->maxwell_solver->field_e);
-          }
-        }
-    }
+  for (unsigned int idy = 0; idy < 2; ++idy)
+#pragma omp parallel for collapse(2)
+    for (unsigned int i = 0; i < r_domains; ++i)
+      for (unsigned int j = idy; j < z_domains - 1; j+=2)
+      {
+        Domain *sim_domain = domains(i, j);
+        Domain *dst_domain = domains(i, j + 1);
+        sim_domain->maxwell_solver->field_e.overlay_y(dst_domain->maxwell_solver->field_e);
+      }
 
 #ifdef ENABLE_MPI
   ////
diff --git a/src/outController.cpp b/src/outController.cpp
index 057adcf..42dc445 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -309,6 +309,25 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
   }
 }
 
+static SpecieP *find_specie(Domain *domain, const string &name)
+{
+  for (auto ps = domain->species_p.begin(); ps != domain->species_p.end(); ++ps)
+    if (name.compare((**ps).name) == 0)
+      return (*ps);
+
+  return nullptr;
+}
+
+// overlay grid with the grid of the next domain along r (axis 0) or z (axis 1)
+template <class G>
+static void overlay(G &src, G &dst, unsigned int axis)
+{
+  if (axis == 0)
+    src.overlay_x(dst);
+  else
+    src.overlay_y(dst);
+}
+
 void OutController::init_datasets()
 {
   // create empty
@@ -407,88 +426,41 @@ void OutController::init_datasets()
             speciep->calc_momentum();
         }
 
-      // overlay domains before dump
-      for (unsigned int i=0; i < geometry->domains_amount[0]; i++)
-        for (unsigned int j = 0; j < geometry->domains_amount[1]; j++)
-        {
-          Domain *sim_domain = smb->domains(i, j);
-          SpecieP *speciep;
-          bool specie_exists = false;
+      // overlay domains before dump: along r, then along z
+      // (values of the corners reach diagonal neighbours in two steps)
+      for (unsigned int axis = 0; axis < 2; ++axis)
+        for (unsigned int i = 0; i < geometry->domains_amount[0]; i++)
+          for (unsigned int j = 0; j < geometry->domains_amount[1]; j++)
+          {
+            unsigned int i_dst = i + (axis == 0 ? 1 : 0);
+            unsigned int j_dst = j + (axis == 1 ? 1 : 0);
 
-          for (auto ps = sim_domain->species_p.begin(); ps != sim_domain->species_p.end(); ++ps)
-            if (prb->specie.compare((**ps).name) == 0)
-            {
-              speciep = (*ps);
-              specie_exists = true;
-            }
+            if (i_dst >= geometry->domains_amount[0] || j_dst >= geometry->domains_amount[1])
+              continue;
 
-          if (!specie_exists)
-            continue; // skip if there is no specie for probe
+            SpecieP *speciep = find_specie(smb->domains(i, j), prb->specie);
+            SpecieP *speciep_dst = find_specie(smb->domains(i_dst, j_dst), prb->specie);
 
-          // update grid
-          if (i < geometry->domains_amount[0] - 1)
-          {
-            Domain *dst_domain = smb->domains(i+1, j);
-            SpecieP *speciep_dst;
-            bool specie_exists = false;
+            if (speciep == nullptr)
+              continue; // skip if there is no specie for probe
 
-            for (auto ps = dst_domain->species_p.begin(); ps != dst_domain->species_p.end(); ++ps)
-              if (prb->specie.compare((**ps).name) == 0)
-              {
-                speciep_dst = (*ps);
-                specie_exists = true;
-              }
-            if (!specie_exists)
+            if (speciep_dst == nullptr)
               LOG_S(FATAL) << "There is no particles specie ``"
                            << prb->specie
                            << "'' in destination domain, while overlaying for probe dump. Exiting";
 
             if (prb->component.compare("density") == 0)
-              speciep->density_map.overlay_x(speciep_dst->density_map);
+              overlay(speciep->density_map, speciep_dst->density_map, axis);
             else if (prb->component.compare("temperature") == 0)
-              speciep->temperature_map.overlay_x(speciep_dst->temperature_map);
+              overlay(speciep->temperature_map, speciep_dst->temperature_map, axis);
             else if (prb->component.compare("energy") == 0)
-              speciep->energy_map.overlay_x(speciep_dst->energy_map);
+              overlay(speciep->energy_map, speciep_dst->energy_map, axis);
             else if (prb->component.compare("momentum/r") == 0
                      || prb->component.compare("momentum/phi") == 0
                      || prb->component.compare("momentum/z") == 0)
-            {
-              speciep->momentum_map[0].overlay_x(speciep_dst->momentum_map[0]);
-              speciep->momentum_map[1].overlay_x(speciep_dst->momentum_map[1]);
-              speciep->momentum_map[2].overlay_x(speciep_dst->momentum_map[2]);
-            }
+              overlay(speciep->momentum_map, speciep_dst->momentum_map, axis);
           }
 
-          if (j < geometry->domains_amount[1] - 1)
-          {
-            Domain *dst_domain = smb->domains(i, j + 1);
-            SpecieP *speciep_dst;
-            bool specie_exists = false;
-
-            for (auto ps = dst_domain->species_p.begin(); ps != dst_domain->species_p.end(); ++ps)
-              if (prb->specie.compare((**ps).name) == 0)
-              {
-                speciep_dst = (*ps);
-                specie_exists = true;
-              }
-
-            if (!specie_exists)
-              LOG_S(FATAL) << "There is no particles specie ``"
-                           << prb->specie
-                           << "'' in destination domain, while overlaying for probe dump. Exiting";
-
-            if (prb->component.compare("density") == 0)
-              speciep->density_map.overlay_y(speciep_dst->density_map);
-            else if (prb->component.compare("temperature") == 0)
-              speciep->temperature_map.overlay_y(speciep_dst->temperature_map);
-          }
-
-          // if (i < geometry_global->domains_amount[0] - 1 && j < geometry_global->domains_amount[1] - 1)
-          // {
-          //   Domain *dst_domain = smb->domains(i + 1, j + 1);
-          //   sim_domain->current->current.overlay_xy(dst_domain->current->current);
-          // }
-        }
       if (print_progress_table)
         msg::print_values (prb->path, shape_name, prb->schedule, time);
     }
-- 
2.43.0


From d5d1d50b7d6637368f02877643b2dd9f7e89f03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:30 +0000
Subject: [PATCH 13/67] fix: sum moments of particles over domains before they
 are normalized

---
 include/specieP.hpp   | 11 +++++--
 src/outController.cpp | 72 +++++++++++++++++++++++--------------------
 src/specieP.cpp       | 31 +++++++++++++------
 3 files changed, 69 insertions(+), 45 deletions(-)

diff --git a/include/specieP.hpp b/include/specieP.hpp
index 8fe1ec0..d6a8e77 100644
--- a/include/specieP.hpp
+++ b/include/specieP.hpp
@@ -238,6 +238,15 @@ public:
   void calc_energy ();
   void calc_momentum ();
 
+  // weighted sums of momentums
+  void calc_momentum_abs_w ();
+  void calc_momentum_w ();
+
+  // convert weighted sums to the values per particle
+  void normalize_temperature ();
+  void normalize_energy ();
+  void normalize_momentum ();
+
 protected:
   void rectangular_random_placement (unsigned int int_cell_number,
                                      unsigned int ext_cell_number,
@@ -265,8 +274,6 @@ protected:
   void eigen_velocity_distribution ();
   void eigen_directed_velocity_distribution (unsigned int dir); // 0,1,2 are for r, phi, z
 
-  void calc_momentum_abs_w ();
-  void calc_momentum_w ();
 };
 
 #endif // end of _SPECIE_P_HPP_
diff --git a/src/outController.cpp b/src/outController.cpp
index 42dc445..2becde7 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -394,39 +394,31 @@ void OutController::init_datasets()
       engine.extend_dataset(slices);
 
       ////
-      //// calculate and overlay temperatures and densities before dump
+      //// calculate temperature, density etc. before dump
       ////
-      // calculate temperature and/or density before dump
+      bool is_temperature = prb->component.compare("temperature") == 0;
+      bool is_energy = prb->component.compare("energy") == 0;
+      bool is_momentum = prb->component.compare("momentum/r") == 0
+        || prb->component.compare("momentum/phi") == 0
+        || prb->component.compare("momentum/z") == 0;
+
+      // calculate weighted sums
       for (unsigned int r = 0; r < geometry->domains_amount[0]; ++r)
         for (unsigned int z = 0; z < geometry->domains_amount[1]; ++z)
         {
-          Domain *sim_domain = smb->domains(r, z);
-          SpecieP *speciep;
-          bool specie_exists = false;
-
-          for (auto ps = sim_domain->species_p.begin(); ps != sim_domain->species_p.end(); ++ps)
-            if (prb->specie.compare((**ps).name) == 0)
-            {
-              speciep = (*ps);
-              specie_exists = true;
-            }
+          SpecieP *speciep = find_specie(smb->domains(r, z), prb->specie);
 
-          if (!specie_exists)
+          if (speciep == nullptr)
             continue; // skip if there is no specie for probe
 
-          if (prb->component.compare("density") == 0)
-            speciep->calc_density();
-          else if (prb->component.compare("temperature") == 0)
-            speciep->calc_temperature();
-          else if (prb->component.compare("energy") == 0)
-            speciep->calc_energy();
-          else if (prb->component.compare("momentum/r") == 0
-                   || prb->component.compare("momentum/phi") == 0
-                   || prb->component.compare("momentum/z") == 0)
-            speciep->calc_momentum();
+          speciep->calc_density();
+          if (is_temperature || is_momentum)
+            speciep->calc_momentum_w();
+          if (is_temperature || is_energy)
+            speciep->calc_momentum_abs_w();
         }
 
-      // overlay domains before dump: along r, then along z
+      // overlay sums: along r, then along z
       // (values of the corners reach diagonal neighbours in two steps)
       for (unsigned int axis = 0; axis < 2; ++axis)
         for (unsigned int i = 0; i < geometry->domains_amount[0]; i++)
@@ -449,18 +441,30 @@ void OutController::init_datasets()
                            << prb->specie
                            << "'' in destination domain, while overlaying for probe dump. Exiting";
 
-            if (prb->component.compare("density") == 0)
-              overlay(speciep->density_map, speciep_dst->density_map, axis);
-            else if (prb->component.compare("temperature") == 0)
-              overlay(speciep->temperature_map, speciep_dst->temperature_map, axis);
-            else if (prb->component.compare("energy") == 0)
-              overlay(speciep->energy_map, speciep_dst->energy_map, axis);
-            else if (prb->component.compare("momentum/r") == 0
-                     || prb->component.compare("momentum/phi") == 0
-                     || prb->component.compare("momentum/z") == 0)
-              overlay(speciep->momentum_map, speciep_dst->momentum_map, axis);
+            overlay(speciep->density_map, speciep_dst->density_map, axis);
+            if (is_temperature || is_momentum)
+              overlay(speciep->momentum_map_w, speciep_dst->momentum_map_w, axis);
+            if (is_temperature || is_energy)
+              overlay(speciep->momentum_abs_map_w, speciep_dst->momentum_abs_map_w, axis);
           }
 
+      // normalize sums, collected from all of the domains
+      for (unsigned int r = 0; r < geometry->domains_amount[0]; ++r)
+        for (unsigned int z = 0; z < geometry->domains_amount[1]; ++z)
+        {
+          SpecieP *speciep = find_specie(smb->domains(r, z), prb->specie);
+
+          if (speciep == nullptr)
+            continue; // skip if there is no specie for probe
+
+          if (is_temperature)
+            speciep->normalize_temperature();
+          else if (is_energy)
+            speciep->normalize_energy();
+          else if (is_momentum)
+            speciep->normalize_momentum();
+        }
+
       if (print_progress_table)
         msg::print_values (prb->path, shape_name, prb->schedule, time);
     }
diff --git a/src/specieP.cpp b/src/specieP.cpp
index af3d31d..1e89f02 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -676,15 +676,20 @@ void SpecieP::calc_density()
 }
 
 void SpecieP::calc_temperature()
+{
+  // calculate density initially
+  calc_density();
+  calc_momentum_w();
+  calc_momentum_abs_w();
+  normalize_temperature();
+}
+
+void SpecieP::normalize_temperature()
 {
   // clear grid values
   temperature_map = 0;
   temperature_map.overlay_set(0);
 
-  // calculate density initially
-  calc_density();
-  calc_momentum_w(); // calculates absolute momentum values also
-
   for (int r = 0; r < geometry->cell_amount[0]; r++)
     for (int z = 0; z < geometry->cell_amount[1]; z++)
     {
@@ -788,13 +793,17 @@ void SpecieP::calc_momentum_w()
 
 void SpecieP::calc_energy()
 {
-  // clear grid values
-  energy_map = 0;
-  energy_map.overlay_set(0);
-
   // calculate density initially
   calc_density();
   calc_momentum_abs_w();
+  normalize_energy();
+}
+
+void SpecieP::normalize_energy()
+{
+  // clear grid values
+  energy_map = 0;
+  energy_map.overlay_set(0);
 
   for (int r = 0; r < geometry->cell_amount[0]; r++)
     for (int z = 0; z < geometry->cell_amount[1]; z++)
@@ -823,8 +832,12 @@ void SpecieP::calc_energy()
 void SpecieP::calc_momentum ()
 {
   calc_density();
-  calc_momentum_w(); // calculates absolute momentum values also
+  calc_momentum_w();
+  normalize_momentum();
+}
 
+void SpecieP::normalize_momentum ()
+{
   momentum_map = 0;
   momentum_map.overlay_set(0);
 
-- 
2.43.0


From fce745e6dc067bf6a18d1ca1970b141c5cac435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:30 +0000
Subject: [PATCH 14/67] fix: take relativistic momentum for fast particles, not
 for slow ones

---
 src/specieP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 1e89f02..30b3e48 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -734,7 +734,7 @@ void SpecieP::calc_momentum_abs_w()
 
     double p_abs = mass * P_WEIGHT((**i)) * v_abs;
 
-    if (v_abs < REL_LIMIT)
+    if (v_abs > REL_LIMIT)
     {
       double gamma = phys::rel::lorenz_factor(pow(v_abs, 2));
       p_abs *= gamma;
@@ -766,7 +766,7 @@ void SpecieP::calc_momentum_w()
 
     // check for relativistic case
     double v_abs_2 = pow(v_r, 2) + pow(v_phi, 2) + pow(v_z, 2);
-    if (v_abs_2 < REL_LIMIT_POW_2)
+    if (v_abs_2 > REL_LIMIT_POW_2)
     {
       double gamma = phys::rel::lorenz_factor(v_abs_2);
       p_r *= gamma;
-- 
2.43.0


From 2724300d5a497ec0f910123a555b00bb159439a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:17 +0000
Subject: [PATCH 15/67] fix: do not drop azimuthal current deposited out of the
 domain border

---
 src/current/currentVB.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 3c248b9..6d4b425 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -174,8 +174,6 @@ void CurrentVB::simple_current_distribution(double radius_new,
 
 void CurrentVB::rz_current_distribution()
 {
-  current.overlay_set(0);
-
   double dr = geometry->cell_size[0];
   double dz = geometry->cell_size[1];
 
@@ -397,8 +395,6 @@ void CurrentVB::rz_current_distribution()
 
 void CurrentVB::azimuthal_current_distribution()
 {
-  current.overlay_set(0);
-
   double dr = geometry->cell_size[0];
   double dz = geometry->cell_size[1];
 
@@ -730,6 +726,8 @@ void CurrentVB::strict_motion_distribution(double radius_new,
 
 void CurrentVB::current_distribution()
 {
+  current.overlay_set(0);
+
   azimuthal_current_distribution();
   rz_current_distribution();
 }
-- 
2.43.0


From 5e2fbbf9d206f2701b870e45b9e5c88969072d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:17 +0000
Subject: [PATCH 16/67] fix: do not wipe radial current of other particles on
 strict axial motion

---
 src/current/currentVB.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 6d4b425..49b3754 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -539,11 +539,6 @@ void CurrentVB::strict_motion_distribution(double radius_new,
       / (delta_t * 2 * PI * (i_n + 1) * dr * dr)
       * PI * (r3 * r3 - r2 * r2) / value_part;
 
-    // this_j->inc_j_r(i_n, k_n, 0.);
-    // this_j->inc_j_r(i_n, k_n + 1,0.);
-    current[0].set(i_n_shift, k_n_shift, 0.);
-    current[0].set(i_n_shift, k_n_shift + 1, 0.);
-
     int res_k = k_n - k_o;
 
     switch(res_k)
-- 
2.43.0


From d596db3ba421dc95c5c720924ce6f562bab89494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 17/67] fix: operator precedence in the current of strict
 radial motion

---
 src/current/currentVB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 49b3754..76ba7e0 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -661,7 +661,7 @@ void CurrentVB::strict_motion_distribution(double radius_new,
 
       wj = some_shit_density
         * (delta_r - r0 * r0 / (i_n * dr + delta_r)
-           + r0 * r0 / i_n * dr
+           + r0 * r0 / (i_n * dr)
            + dr * dr / (4. * (i_n * dr + delta_r))
            - dr * dr / (4. * i_n * dr));
 
@@ -702,7 +702,7 @@ void CurrentVB::strict_motion_distribution(double radius_new,
 
       wj = some_shit_density
         * (delta_r - r0 * r0 / ((i_n + 1) * dr + delta_r)
-           + r0 * r0 / (i_n + 1) * dr
+           + r0 * r0 / ((i_n + 1) * dr)
            + dr * dr / (4. * ((i_n + 1) * dr + delta_r))
            - dr * dr / (4. * (i_n + 1) * dr));
 
-- 
2.43.0


From ccada03cbc570642cb82b9052788d9ee4b24401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 18/67] fix: check longitudinal displacement in current
 weighting

---
 src/current/currentVB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 76ba7e0..a0e7a7d 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -194,7 +194,7 @@ void CurrentVB::rz_current_distribution()
 
       int res_cell = abs(i_n - i_o) + abs(k_n - k_o);
 
-      if (abs (i_n - i_o) > 1 || abs (i_n - i_o) > 1)
+      if (abs (i_n - i_o) > 1 || abs (k_n - k_o) > 1)
       {
         LOG_S(ERROR) << "rz_current_distribution: can not weight particle's currents. It moved to more than one grid cell. Particle's position (r_old:r_new, z_old:z_new): "
                      << i_o << ":" << i_n << ", "
-- 
2.43.0


From e046db851fdad9e5421ba7dbfb84830678157bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:21 +0000
Subject: [PATCH 19/67] fix: deposit current of the particle passing exactly
 through a grid node

---
 src/current/currentVB.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index a0e7a7d..bbb232a 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -299,7 +299,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n-1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1>k_n * dz)
+              else // also exactly through the node
               {
                 simple_current_distribution(r2, z2 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n-1, k_n-1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n-1, k_n, p_charge);
@@ -323,7 +323,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n + 1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1<(k_n + 1) * dz)
+              else // also exactly through the node
               {
                 simple_current_distribution(r2, z2 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n-1, k_n + 1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n-1, k_n, p_charge);
@@ -352,7 +352,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n-1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1>(k_n) * dz)
+              else // also exactly through the node
               {
                 simple_current_distribution(r2, z2 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n + 1, k_n-1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n + 1, k_n, p_charge);
@@ -378,7 +378,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n + 1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1<(k_n + 1) * dz)
+              else // also exactly through the node
               {
                 simple_current_distribution(r2, z2, P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n + 1, k_n + 1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n + 1, k_n, p_charge);
-- 
2.43.0


From 1c5203f0c4ac67db6c4b726058a8d798e3edd366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:21 +0000
Subject: [PATCH 20/67] fix: direction of radial motion started exactly at the
 cell border

---
 src/current/currentVB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index bbb232a..57a7f87 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -222,7 +222,7 @@ void CurrentVB::rz_current_distribution()
           if ((i_n != i_o) && (k_n == k_o))
           {
             // moving to center from outer to innter cell
-            if (P_POS_OLD_R((**i)) > (i_n + 1) * dr)
+            if (P_POS_OLD_R((**i)) >= (i_n + 1) * dr)
             {
               double a = (P_POS_OLD_R((**i)) - P_POS_R((**i))) / (P_POS_OLD_Z((**i)) - P_POS_Z((**i)));
               double r_boundary = (i_n + 1) * dr;
-- 
2.43.0


From c21558e8736f9f951a9d5e395be32cf35c066c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:07 +0000
Subject: [PATCH 21/67] fix: measure zigzag weights in cells, not in meters

---
 src/current/currentZigZag.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/current/currentZigZag.cpp b/src/current/currentZigZag.cpp
index 0bfd07c..fb6f940 100644
--- a/src/current/currentZigZag.cpp
+++ b/src/current/currentZigZag.cpp
@@ -78,10 +78,10 @@ void CurrentZigZag::current_distribution()
       double F_z1 = charge_over_dt * (z_relay_pos - z_pos_old);
       double F_z2 = charge_over_dt * (z_pos_new - z_relay_pos);
 
-      double W_r1 = (r_pos_old + r_relay_pos) / 2 - i_o * dr;
-      double W_r2 = (r_pos_new + r_relay_pos) / 2 - i_n * dr;
-      double W_z1 = (z_pos_old + z_relay_pos) / 2 - k_o * dz;
-      double W_z2 = (z_pos_new + z_relay_pos) / 2 - k_n * dz;
+      double W_r1 = (r_pos_old + r_relay_pos) / (2 * dr) - i_o;
+      double W_r2 = (r_pos_new + r_relay_pos) / (2 * dr) - i_n;
+      double W_z1 = (z_pos_old + z_relay_pos) / (2 * dz) - k_o;
+      double W_z2 = (z_pos_new + z_relay_pos) / (2 * dz) - k_n;
 
       double one_minus_Wr1 = 1 - W_r1;
       double one_minus_Wr2 = 1 - W_r2;
-- 
2.43.0


From c27f1cdc1e6f1e07d0540b07eb72cfc2de5794d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:07 +0000
Subject: [PATCH 22/67] fix: longitudinal weight of the zigzag azimuthal
 current

---
 src/current/currentZigZag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/current/currentZigZag.cpp b/src/current/currentZigZag.cpp
index fb6f940..993a2ac 100644
--- a/src/current/currentZigZag.cpp
+++ b/src/current/currentZigZag.cpp
@@ -101,7 +101,7 @@ void CurrentZigZag::current_distribution()
       // Let \f$ \phi_{relay} = \phi_{1} = 0
       // because geometry is axisymmetric
       double Jphi_i_jh_k = one_over_volume * F_phi * one_minus_Wr2 * one_minus_Wz2;
-      double Jphi_i_jh_k_1 = one_over_volume * F_phi * one_minus_Wr2 * W_z1;
+      double Jphi_i_jh_k_1 = one_over_volume * F_phi * one_minus_Wr2 * W_z2;
       double Jphi_i_1_jh_k = one_over_volume * F_phi * W_r2 * one_minus_Wz2;
       double Jphi_i_1_jh_k_1 = one_over_volume * F_phi * W_r2 * W_z2;
 
-- 
2.43.0


From c59f84e359e28e7721dd1e50e99d60472671ed10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:22 +0000
Subject: [PATCH 23/67] fix: weight density to both sides of a grid node with
 the same volume

The volume of the node r_i depended on the side of the node a particle was
at: 2 * r_i + 1 for particles above it, 2 * r_i for particles below it. So the
density of uniform plasma was not uniform along radius, and deposit of a particle
at exactly r=dr was three times larger than next to it.
---
 include/algo/weighter.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/algo/weighter.hpp b/include/algo/weighter.hpp
index 5891039..92675cd 100644
--- a/include/algo/weighter.hpp
+++ b/include/algo/weighter.hpp
@@ -46,8 +46,10 @@ void weight_cylindrical(Geometry *geometry, Grid<T> *grid, double pos_r, double
   T v_1 = CELL_VOLUME(r_i, dr, dz);
   T v_2 = CELL_VOLUME(r_i + 1, dr, dz);
 
-  if (pos_r > dr)
+  if (pos_r >= dr)
   {
+    // ring between (r_i - 0.5) * dr and (r_i + 0.5) * dr, as well as v_2 is for r_i + 1
+    v_1 = 2. * constant::PI * dz * dr * dr * r_i;
     r1 =  pos_r - 0.5 * dr;
     r2 = (r_i + 0.5) * dr;
     r3 = pos_r + 0.5 * dr;
-- 
2.43.0


From a6be9f1ac99d139e20a72c85c4b764e6fe9487b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:22 +0000
Subject: [PATCH 24/67] fix: weight azimuthal current to both sides of a grid
 node with the same volume

---
 src/current/currentVB.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 57a7f87..bb286f5 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -412,7 +412,8 @@ void CurrentVB::azimuthal_current_distribution()
       int r_i = P_CELL_R((**i));
       int z_k = P_CELL_Z((**i));
 
-      double v_1 = CELL_VOLUME(r_i, dr, dz);  // volume of [i][k] cell
+      // volume of [i][k] cell (ring around the node, consistent with v_2)
+      double v_1 = (r_i > 0) ? 2. * PI * dz * dr * dr * r_i : CELL_VOLUME(0, dr, dz);
       double v_2 = CELL_VOLUME(r_i + 1, dr, dz);  // volume of [i + 1][k] cell
 
       double p_charge = (**ps).charge * P_WEIGHT((**i));
-- 
2.43.0


From 4d91ca8c8ce5373dc470e020a7d84911fb3d1536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:22 +0000
Subject: [PATCH 25/67] fix: rotate velocity to the rz pane in the same
 direction as position

Free particle with azimuthal velocity was accelerated to the axis instead of
moving along a straight line.
---
 src/specieP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 30b3e48..14cb795 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -632,8 +632,8 @@ void SpecieP::back_velocity_to_rz()
     double v_r = P_VEL_R((**p));
     double v_phi = P_VEL_PHI((**p));
 
-    double u_2 = cos * v_r - sin * v_phi;
-    double v_2 = sin * v_r + cos * v_phi;
+    double u_2 = cos * v_r + sin * v_phi;
+    double v_2 = cos * v_phi - sin * v_r;
     P_VEL_R((**p)) = u_2;
     P_VEL_PHI((**p)) = v_2;
   }
-- 
2.43.0


From dc48be10446bf6dd8fda663a917eb3ff308e9bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:34 +0000
Subject: [PATCH 26/67] fix: rotate velocity to the rz pane before reflection

Reflection reverses velocity component of the rz pane, but it was applied to
the one, which was not rotated there yet.
---
 src/SMB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index cea0d45..a892266 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -1268,10 +1268,10 @@ void SMB::advance_particles()
       sim_domain->update_particles_coords();
       sim_domain->particles_back_position_to_rz();
 
-      sim_domain->reflect();
-
       sim_domain->particles_back_velocity_to_rz();
 
+      sim_domain->reflect();
+
       sim_domain->bind_cell_numbers();
     }
   particles_runaway_collector();
-- 
2.43.0


From e460dd7e792476ce9cc01090a4dac50b0381e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:35 +0000
Subject: [PATCH 27/67] fix: do not decide on relativistic push by an
 uninitialized flag

---
 src/pusher/pusherBoris.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pusher/pusherBoris.cpp b/src/pusher/pusherBoris.cpp
index 046e90d..10637b0 100644
--- a/src/pusher/pusherBoris.cpp
+++ b/src/pusher/pusherBoris.cpp
@@ -35,7 +35,7 @@ void PusherBoris::operator()()
       // define vars directly in loop, because of multithreading
       double charge_over_2mass_dt, const2, sq_velocity;
 #ifdef SWITCH_PUSHER_BORIS_ADAPTIVE
-      bool use_rel; // use relativistic calculations
+      bool use_rel = false; // use relativistic calculations
 #endif // SWITCH_PUSHER
 #if defined(SWITCH_PUSHER_BORIS_ADAPTIVE) || defined(SWITCH_PUSHER_BORIS_RELATIVISTIC) // do not use gamma in non-relativistic boris pusher
       double gamma = 1;
-- 
2.43.0


From 5e7d1681c70c10570f7d6754a37843b1f9050f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:35 +0000
Subject: [PATCH 28/67] fix: weight the last part of azimuthal electric field
 to its own component

---
 include/maxwellSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maxwellSolver.hpp b/include/maxwellSolver.hpp
index 9a5bf8d..eb05e6d 100644
--- a/include/maxwellSolver.hpp
+++ b/include/maxwellSolver.hpp
@@ -310,7 +310,7 @@ public:
     cmp[1] += field_e(1, i_r_shift, k_z_shift+1) * CYL_RNG_VOL(dz2, r1, r2) / vol_1;
 
     // weighting Efi[i+1][k+1]
-    cmp[2] += field_e(1, i_r_shift+1, k_z_shift+1) * CYL_RNG_VOL(dz2, r2, r3) / vol_2;
+    cmp[1] += field_e(1, i_r_shift+1, k_z_shift+1) * CYL_RNG_VOL(dz2, r2, r3) / vol_2;
 
     return cmp;
   };
-- 
2.43.0


From 1a6f2ffc4dc5d26a30215101ee386b862ec7760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:35 +0000
Subject: [PATCH 29/67] fix: indices in magnetic rotation of Higuera-Cary
 pusher

---
 src/pusher/pusherHC.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pusher/pusherHC.cpp b/src/pusher/pusherHC.cpp
index 7b39a80..5209dff 100644
--- a/src/pusher/pusherHC.cpp
+++ b/src/pusher/pusherHC.cpp
@@ -91,10 +91,10 @@ void PusherHC::operator()()
       b_cross[0] = b[0]*b[1];
       b_cross[1] = b[1]*b[2];
       b_cross[2] = b[2]*b[0];
-      double inv_det_B = 1.0/( 1.0+b2[0]+b2[1]+b2[0] );
+      double inv_det_B = 1.0/( 1.0+b2[0]+b2[1]+b2[2] );
 
       up[0] = ( ( 1.0+b2[0]-b2[1]-b2[2] ) * um[0] + 2. * ( b_cross[0]+b[2] )
-                * um[1] + 2. * ( b_cross[2] - b[2] ) * um[2] ) * inv_det_B;
+                * um[1] + 2. * ( b_cross[2] - b[1] ) * um[2] ) * inv_det_B;
       up[1] = ( 2. * ( b_cross[0]-b[2] ) * um[0] + ( 1. - b2[0]+b2[1]-b2[2] )
                 * um[1] + 2. * ( b_cross[1] + b[0] ) * um[2] ) * inv_det_B;
       up[2] = ( 2. * ( b_cross[2] + b[1] ) * um[0] + 2. * ( b_cross[1] - b[0] )
-- 
2.43.0


From fa18b418053c61e20d31d7bf3aac48a9a5da739f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:35 +0000
Subject: [PATCH 30/67] fix: measure momentum in units of mc in Lorentz factors
 of Vay and Higuera-Cary pushers

---
 src/pusher/pusherHC.cpp  | 4 ++--
 src/pusher/pusherVay.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pusher/pusherHC.cpp b/src/pusher/pusherHC.cpp
index 5209dff..cfe7b48 100644
--- a/src/pusher/pusherHC.cpp
+++ b/src/pusher/pusherHC.cpp
@@ -72,7 +72,7 @@ void PusherHC::operator()()
       um += psm;
       // Intermediate gamma factor: only this part differs from the Boris scheme
       // Square Gamma factor from um
-      double gfm2 = (1. + um.length2());
+      double gfm2 = (1. + um.length2() / LIGHT_VEL_POW_2);
 
       b *= charge_over_2mass_dt * MAGN_CONST;
       B2 = b.length2();
@@ -82,7 +82,7 @@ void PusherHC::operator()()
                                 sqrt ( pow( gfm2 - B2, 2 )
                                        + 4.0 * ( B2 + pow( b[0]*um[0]
                                                            + b[1]*um[1]
-                                                           + b[2]*um[2], 2 ) ) ) ) );
+                                                           + b[2]*um[2], 2 ) / LIGHT_VEL_POW_2 ) ) ) );
 
       b *= gamma;
       b2 = b;
diff --git a/src/pusher/pusherVay.cpp b/src/pusher/pusherVay.cpp
index 025c5b8..299a080 100644
--- a/src/pusher/pusherVay.cpp
+++ b/src/pusher/pusherVay.cpp
@@ -78,7 +78,7 @@ void PusherVay::operator()()
       uplocity[2] += gamma * ( velocity[0] * b[1] - velocity[1] * b[0] );
 
       // alpha is gamma^2
-      alpha = 1. + uplocity.length2();
+      alpha = 1. + uplocity.length2() / LIGHT_VEL_POW_2;
       B2 = b.length2();
 
       //
@@ -88,7 +88,7 @@ void PusherVay::operator()()
       // s is sigma
       s = alpha - B2;
       // TODO: implement * operator for vector3d
-      us2 = pow(uplocity.dot(b), 2);
+      us2 = pow(uplocity.dot(b), 2) / LIGHT_VEL_POW_2;
 
       // alpha becomes 1/gamma^{i+1}
       alpha = 1. / sqrt( 0.5 * ( s + sqrt( s * s + 4. * ( B2 + us2 ) ) ) );
-- 
2.43.0


From bba37fa0017f60dc5280e393feed835dc07987ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:14 +0000
Subject: [PATCH 31/67] fix: weight fields by volume of the ring of particle,
 not by shifted node volumes

---
 include/maxwellSolver.hpp | 69 ++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 41 deletions(-)

diff --git a/include/maxwellSolver.hpp b/include/maxwellSolver.hpp
index eb05e6d..26500ae 100644
--- a/include/maxwellSolver.hpp
+++ b/include/maxwellSolver.hpp
@@ -111,11 +111,11 @@ public:
     double dz = geometry->cell_size[1];
     double r1, r2, r3; // temp variables for calculation
     double dz1, dz2; // temp var.: width of k and k+1 cell
-    double vol_1 = 0; // volume of i cell; Q/V, V - volume of elementary cell
-    double vol_2 = 0; // volume of i+1 cell;
+    double vol; // volume of the ring, occupied by particle
 
     r1 = radius - 0.5 * dr;
     r3 = radius + 0.5 * dr;
+    vol = CYL_RNG_VOL(dz, r1, r3);
 
     //// weighting of H_z
     // finding number of cell. example dr=0.5, radius = 0.7, i_r =0;!!
@@ -128,23 +128,21 @@ public:
     // if (i_r < 0) i_r = 0;
     // if (k_z < 0) k_z = 0;
 
-    vol_1 = CELL_VOLUME(i_r+1, dr, dz);
-    vol_2 = CELL_VOLUME(i_r+3, dr, dz);
     dz1 = (k_z + 1) * dz - longitude;
     dz2 = longitude - k_z * dz;
     r2 = (i_r + 1) * dr;
 
     //weighting Hz[i][k]//
-    cmp[2] += field_h(2, i_r_shift, k_z_shift) * CYL_RNG_VOL(dz1, r1, r2) / vol_1;
+    cmp[2] += field_h(2, i_r_shift, k_z_shift) * CYL_RNG_VOL(dz1, r1, r2) / vol;
 
     //weighting Hz[i+1][k]//
-    cmp[2] += field_h(2, i_r_shift + 1, k_z_shift) * CYL_RNG_VOL(dz1, r2, r3) / vol_2;
+    cmp[2] += field_h(2, i_r_shift + 1, k_z_shift) * CYL_RNG_VOL(dz1, r2, r3) / vol;
 
     //weighting Hz[i][k+1]//
-    cmp[2] += field_h(2, i_r_shift, k_z_shift + 1) * CYL_RNG_VOL(dz2, r1, r2) / vol_1;
+    cmp[2] += field_h(2, i_r_shift, k_z_shift + 1) * CYL_RNG_VOL(dz2, r1, r2) / vol;
 
     //weighting Hz[i+1][k+1]//
-    cmp[2] += field_h(2, i_r_shift + 1, k_z_shift + 1) * CYL_RNG_VOL(dz2, r2, r3) / vol_2;
+    cmp[2] += field_h(2, i_r_shift + 1, k_z_shift + 1) * CYL_RNG_VOL(dz2, r2, r3) / vol;
 
     //// weighting of Hr
     // finding number of cell. example dz=0.5, longitude = 0.7, z_k =0;!!
@@ -157,24 +155,21 @@ public:
     // if (i_r < 0) i_r = 0;
     // if (k_z < 0) k_z = 0;
 
-    vol_1 = CELL_VOLUME(i_r, dr, dz);
-    vol_2 = CELL_VOLUME(i_r+2, dr, dz);
-
     r2 = (i_r + 0.5) * dr;
     dz1 = (k_z + 1.5) * dz - longitude;
     dz2 = longitude - (k_z + 0.5) * dz;
 
     //weighting Hr[i][k]//
-    cmp[0] += field_h(0, i_r_shift, k_z_shift) * CYL_RNG_VOL(dz1, r1, r2) / vol_1;
+    cmp[0] += field_h(0, i_r_shift, k_z_shift) * CYL_RNG_VOL(dz1, r1, r2) / vol;
 
     //weighting Hr[i+1][k]//
-    cmp[0] += field_h(0, i_r_shift + 1, k_z_shift) * CYL_RNG_VOL(dz1, r2, r3) / vol_2;
+    cmp[0] += field_h(0, i_r_shift + 1, k_z_shift) * CYL_RNG_VOL(dz1, r2, r3) / vol;
 
     //weighting Hr[i][k+1]//
-    cmp[0] += field_h(0, i_r_shift, k_z_shift + 1) * CYL_RNG_VOL(dz2, r1, r2) / vol_1;
+    cmp[0] += field_h(0, i_r_shift, k_z_shift + 1) * CYL_RNG_VOL(dz2, r1, r2) / vol;
 
     //weighting Hr[i+1][k+1]//
-    cmp[0] += field_h(0, i_r_shift + 1, k_z_shift + 1) * CYL_RNG_VOL(dz2, r2, r3) / vol_2;
+    cmp[0] += field_h(0, i_r_shift + 1, k_z_shift + 1) * CYL_RNG_VOL(dz2, r2, r3) / vol;
 
     //// weighting of H_fi
     // finding number of cell. example dz=0.5, longitude = 0.7, z_k =0;
@@ -188,22 +183,20 @@ public:
     // if (k_z < 0) k_z = 0;
 
     r2 = (i_r+1) * dr;
-    vol_1 = CELL_VOLUME(i_r + 1, dr, dz);
-    vol_2 = CELL_VOLUME(i_r + 3, dr, dz);
     dz1 = (k_z+1.5) * dz - longitude;
     dz2 = longitude - (k_z+0.5) * dz;
 
     //weighting Hphi[i][k]//
-    cmp[1] += field_h(1, i_r_shift, k_z_shift) * CYL_RNG_VOL(dz1, r1, r2) / vol_1;
+    cmp[1] += field_h(1, i_r_shift, k_z_shift) * CYL_RNG_VOL(dz1, r1, r2) / vol;
 
     //weighting Hphi[i+1][k]//
-    cmp[1] += field_h(1, i_r_shift + 1, k_z_shift) * CYL_RNG_VOL(dz1, r2, r3) / vol_2;
+    cmp[1] += field_h(1, i_r_shift + 1, k_z_shift) * CYL_RNG_VOL(dz1, r2, r3) / vol;
 
     //weighting Hphi[i][k+1]//
-    cmp[1] += field_h(1, i_r_shift, k_z_shift + 1) * CYL_RNG_VOL(dz2, r1, r2) / vol_1;
+    cmp[1] += field_h(1, i_r_shift, k_z_shift + 1) * CYL_RNG_VOL(dz2, r1, r2) / vol;
 
     //weighting Hphi[i+1][k+1]//
-    cmp[1] += field_h(1, i_r_shift + 1, k_z_shift + 1) * CYL_RNG_VOL(dz2, r2, r3) / vol_2;
+    cmp[1] += field_h(1, i_r_shift + 1, k_z_shift + 1) * CYL_RNG_VOL(dz2, r2, r3) / vol;
 
     return cmp;
   };
@@ -222,11 +215,11 @@ public:
     double dz = geometry->cell_size[1];
     double r1, r2, r3; // temp variables for calculation
     double dz1, dz2; // temp var.: width of k and k+1 cell
-    double vol_1 = 0; // volume of i cell; Q/V, V - volume of elementary cell
-    double vol_2 = 0; // volume of i+1 cell;
+    double vol; // volume of the ring, occupied by particle
 
     r1 = radius - 0.5 * dr;
     r3 = radius + 0.5 * dr;
+    vol = CYL_RNG_VOL(dz, r1, r3);
 
     // weighting of E_r
     // finding number of cell. example dr=0.5, radius = 0.7, i_r =0;!!
@@ -239,22 +232,20 @@ public:
     // if (i_r < 0) i_r = 0;
     // if (k_z < 0) k_z = 0;
 
-    vol_1 = CELL_VOLUME(i_r+1, dr, dz);
-    vol_2 = CELL_VOLUME(i_r+3, dr, dz);
     dz1 = (k_z+1) * dz - longitude;
     dz2 = longitude - k_z * dz;
     r2 = (i_r + 1) * dr;
     //weighting Er[i][k]//
-    cmp[0] += field_e(0, i_r_shift, k_z_shift) * CYL_RNG_VOL(dz1, r1, r2) / vol_1;
+    cmp[0] += field_e(0, i_r_shift, k_z_shift) * CYL_RNG_VOL(dz1, r1, r2) / vol;
 
     //weighting Er[i+1][k]//
-    cmp[0] += field_e(0, i_r_shift + 1, k_z_shift) * CYL_RNG_VOL(dz1, r2, r3) / vol_2;
+    cmp[0] += field_e(0, i_r_shift + 1, k_z_shift) * CYL_RNG_VOL(dz1, r2, r3) / vol;
 
     //weighting Er[i][k+1]//
-    cmp[0] += field_e(0, i_r_shift, k_z_shift + 1) * CYL_RNG_VOL(dz2, r1, r2) / vol_1;
+    cmp[0] += field_e(0, i_r_shift, k_z_shift + 1) * CYL_RNG_VOL(dz2, r1, r2) / vol;
 
     //weighting Er[i+1][k+1]//
-    cmp[0] += field_e(0, i_r_shift + 1, k_z_shift + 1) * CYL_RNG_VOL(dz2, r2, r3) / vol_2;
+    cmp[0] += field_e(0, i_r_shift + 1, k_z_shift + 1) * CYL_RNG_VOL(dz2, r2, r3) / vol;
 
     // weighting of E_z
     // finding number of cell. example dz=0.5, longitude = 0.7, z_k =0;!!
@@ -263,24 +254,22 @@ public:
     i_r_shift = i_r - geometry->cell_dims[0];
     k_z_shift = k_z - geometry->cell_dims[1];
 
-    vol_1 = CELL_VOLUME(i_r, dr, dz);
-    vol_2 = CELL_VOLUME(i_r+2, dr, dz);
     r2 = (i_r + 0.5) * dr;
 
     dz1 = (k_z + 1.5) * dz - longitude;
     dz2 = longitude - (k_z + 0.5) * dz;
 
     // weighting Ez[i][k]
-    cmp[2] += field_e(2, i_r_shift, k_z_shift) * CYL_RNG_VOL(dz1, r1, r2) / vol_1;
+    cmp[2] += field_e(2, i_r_shift, k_z_shift) * CYL_RNG_VOL(dz1, r1, r2) / vol;
 
     // weighting Ez[i+1][k]
-    cmp[2] += field_e(2, i_r_shift+1, k_z_shift) * CYL_RNG_VOL(dz1, r2, r3) / vol_2;
+    cmp[2] += field_e(2, i_r_shift+1, k_z_shift) * CYL_RNG_VOL(dz1, r2, r3) / vol;
 
     // weighting Ez[i][k+1]
-    cmp[2] += field_e(2, i_r_shift, k_z_shift+1) * CYL_RNG_VOL(dz2, r1, r2) / vol_1;
+    cmp[2] += field_e(2, i_r_shift, k_z_shift+1) * CYL_RNG_VOL(dz2, r1, r2) / vol;
 
     // weighting Ez[i+1][k+1]
-    cmp[2] += field_e(2, i_r_shift+1, k_z_shift+1) * CYL_RNG_VOL(dz2, r2, r3) / vol_2;
+    cmp[2] += field_e(2, i_r_shift+1, k_z_shift+1) * CYL_RNG_VOL(dz2, r2, r3) / vol;
 
     // weighting of E_fi
     // finding number of cell. example dz=0.5, longitude = 0.7, z_k =1;
@@ -293,24 +282,22 @@ public:
     // if (i_r < 0) i_r = 0;
     // if (k_z < 0) k_z = 0;
 
-    vol_1 = CELL_VOLUME(i_r, dr, dz);
-    vol_2 = CELL_VOLUME(i_r+2, dr, dz);
     r2 = (i_r + 0.5) * dr;
 
     dz1 = (k_z+1)*dz-longitude;
     dz2 = longitude - k_z * dz;
 
     // weighting Efi[i][k]
-    cmp[1] += field_e(1, i_r_shift, k_z_shift) * CYL_RNG_VOL(dz1, r1, r2) / vol_1;
+    cmp[1] += field_e(1, i_r_shift, k_z_shift) * CYL_RNG_VOL(dz1, r1, r2) / vol;
 
     // weighting Efi[i+1][k]
-    cmp[1] += field_e(1, i_r_shift+1, k_z_shift) * CYL_RNG_VOL(dz1, r2, r3) / vol_2;
+    cmp[1] += field_e(1, i_r_shift+1, k_z_shift) * CYL_RNG_VOL(dz1, r2, r3) / vol;
 
     // weighting Efi[i][k+1]
-    cmp[1] += field_e(1, i_r_shift, k_z_shift+1) * CYL_RNG_VOL(dz2, r1, r2) / vol_1;
+    cmp[1] += field_e(1, i_r_shift, k_z_shift+1) * CYL_RNG_VOL(dz2, r1, r2) / vol;
 
     // weighting Efi[i+1][k+1]
-    cmp[1] += field_e(1, i_r_shift+1, k_z_shift+1) * CYL_RNG_VOL(dz2, r2, r3) / vol_2;
+    cmp[1] += field_e(1, i_r_shift+1, k_z_shift+1) * CYL_RNG_VOL(dz2, r2, r3) / vol;
 
     return cmp;
   };
-- 
2.43.0


From b71dae5337bde0c56490193be7c9c107f07729db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:17 +0000
Subject: [PATCH 32/67] fix: calculate axial electric field in the corner of
 the axis and the left wall

---
 src/maxwellSolver/maxwellSolverYee.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/maxwellSolver/maxwellSolverYee.cpp b/src/maxwellSolver/maxwellSolverYee.cpp
index bb9345d..9edb2a0 100644
--- a/src/maxwellSolver/maxwellSolverYee.cpp
+++ b/src/maxwellSolver/maxwellSolverYee.cpp
@@ -169,7 +169,7 @@ void MaxwellSolverYee::calc_field_e()
 
   // E at the center axis (r=0) case
   if (geometry->walls[0]) // calculate only at the center axis (r=0)
-    for (unsigned int k = z_begin; k < z_end; ++k)
+    for (unsigned int k = 0; k < z_end; ++k) // E_z is calculated also at the left wall (z=0)
     {
       int i = 0;
       double epsilonx2 = 2 * epsilon(i, k);
@@ -183,10 +183,13 @@ void MaxwellSolverYee::calc_field_e()
       double koef_e = (epsilonx2 - sigma_t) / (epsilonx2 + sigma_t);
       double koef_h =  2 * time->step / (epsilonx2 + sigma_t);
 
-      field_e[0].m_a(i, k, koef_e);
-      field_e[0].dec(i, k, (curr(0, i, k)
-                            + (field_h_at_et(1, i, k)
-                               - field_h_at_et(1, i, k-1)) / dz) * koef_h);
+      if (k >= z_begin)
+      {
+        field_e[0].m_a(i, k, koef_e);
+        field_e[0].dec(i, k, (curr(0, i, k)
+                              + (field_h_at_et(1, i, k)
+                                 - field_h_at_et(1, i, k-1)) / dz) * koef_h);
+      }
 
       field_e[2].m_a(i, k, koef_e);
       field_e[2].dec(i, k, (curr(2, i, k)
-- 
2.43.0


From 83a8e307466b634787c788b2281ec715c70aba03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:17 +0000
Subject: [PATCH 33/67] fix: count beam bunches in all of domains and do not
 lose a step between bunches

---
 src/beamP.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/beamP.cpp b/src/beamP.cpp
index caeda24..be62789 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -70,6 +70,20 @@ BeamP::BeamP (unsigned int id, // ID for every particles specie
 
 void BeamP::inject()
 {
+  // pass to the next bunch after whole bunch injection.
+  // It should be done for all of domains and before injection
+  // to not lose the first step of the next bunch
+  while (current_bunch_number < bunches_amount
+         && time->current >= start_time
+         + (bunch_length + bunches_distance) / velocity * current_bunch_number
+         + bunch_length / velocity)
+  {
+    if (geometry->cell_dims[1] == 0 // print message only for domain 0,0
+        && geometry->cell_dims[0] == 0)
+      LOG_S(MAX) << "Bunch #" << current_bunch_number << " of beam ``" << name << "'' has been injected";
+    ++current_bunch_number;
+  }
+
   // check if limit of bunches is reached
   if (current_bunch_number < bunches_amount)
   {
@@ -144,15 +158,6 @@ void BeamP::inject()
         // particles_old.push_back(v_old);
       }
     }
-
-    // increase current bunch number after whole bunch injection
-    if (time->current > bunch_finish_time
-        && geometry->cell_dims[1] == 0 // print message only for domain 0,0
-        && geometry->cell_dims[0] == 0)
-    {
-      LOG_S(MAX) << "Bunch #" << current_bunch_number << " of beam ``" << name << "'' has been injected";
-      ++current_bunch_number;
-    }
   }
 }
 
-- 
2.43.0


From a67a2ec9822b7d0c687bff70579e66625c3d0d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:17 +0000
Subject: [PATCH 34/67] fix: longitudinal cell number of injected beam particle
 was taken from its radius

---
 src/beamP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beamP.cpp b/src/beamP.cpp
index be62789..9a3b1d5 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -148,7 +148,7 @@ void BeamP::inject()
 
         // set cell numbers
         int r_cell = CELL_NUMBER(P_POS_R((*v)), geometry->cell_size[0]);
-        int z_cell = CELL_NUMBER(P_POS_R((*v)), geometry->cell_size[1]);
+        int z_cell = CELL_NUMBER(P_POS_Z((*v)), geometry->cell_size[1]);
 
         P_CELL_R((*v)) = r_cell;
         P_CELL_Z((*v)) = z_cell;
-- 
2.43.0


From 6b3696b0a20b2924a1b27999eb1d540393629b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:17 +0000
Subject: [PATCH 35/67] fix: inject the given amount of beam macroparticles,
 also if it is fractional per step

---
 include/beamP.hpp | 1 +
 src/beamP.cpp     | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/beamP.hpp b/include/beamP.hpp
index 9d967a7..2ed4b75 100644
--- a/include/beamP.hpp
+++ b/include/beamP.hpp
@@ -38,6 +38,7 @@ public:
   double bunch_length;
   double bunch_macro_amount;
   double macro_per_step_to_inject;
+  double macro_to_inject;
   double domain_radius;
 
 public:
diff --git a/src/beamP.cpp b/src/beamP.cpp
index 9a3b1d5..fdd4da2 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -63,9 +63,10 @@ BeamP::BeamP (unsigned int id, // ID for every particles specie
 
   double macro_normalizer = domain_radius / radius;
 
-  bunch_macro_amount = macro_amount / bunches_amount * macro_normalizer;
+  bunch_macro_amount = (double)macro_amount / bunches_amount * macro_normalizer;
 
   macro_per_step_to_inject = bunch_macro_amount * velocity * time->step / bunch_length;
+  macro_to_inject = 0;
 }
 
 void BeamP::inject()
@@ -111,7 +112,10 @@ void BeamP::inject()
       double N_total = PI * radius * radius * bunch_length * bunches_amount * density;
       double n_per_macro_avg = N_total / macro_amount;
 
-      for (unsigned int i = 0; i < macro_per_step_to_inject; ++i)
+      // keep fractional part of macroparticles amount for the next steps
+      macro_to_inject += macro_per_step_to_inject;
+
+      for (; macro_to_inject >= 1; --macro_to_inject)
       {
         Particle *v = new Particle();
         P_SPECIE_ID((*v)) = id;
-- 
2.43.0


From f9da37a8069599bdb7496841b89d073ae39601a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:45 +0000
Subject: [PATCH 36/67] fix: thermal velocities: sample energies in units of
 rest energy, with isotropic directions

---
 src/specieP.cpp | 45 +++++++++++++++++----------------------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 14cb795..6072be5 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -345,39 +345,28 @@ void SpecieP::velocity_distribution ()
 
 void SpecieP::thermal_velocity_distribution ()
 {
-  // Sample the energies in the MJ distribution
-  vector<double> energies = math::maxwell_juettner::maxwellJuettner(macro_amount, temperature);
+  // temperature in units of rest energy
+  double rest_energy = mass * LIGHT_VEL_POW_2 / EL_CHARGE; // '/ EL_CHARGE' - convert J to eV
 
-  unsigned int macro_count = 0;
-
-  double two_over_mass = 2 * EL_CHARGE / mass; // '* EL_CHARGE' - convert eV to J
-  double mc_inv = EL_CHARGE / (mass * LIGHT_VEL); // 'EL_CHARGE /' - convert eV to J
+  // Sample the kinetic energies (in units of rest energy) in the MJ distribution
+  vector<double> energies = math::maxwell_juettner::maxwellJuettner(particles.size(), temperature / rest_energy);
 
-  // normalize to 1 / sqrt(2).
-  // TODO: I don't know, why, but it returns temperature correct values
-  const double norm = 0.7071067811865475;
+  unsigned int macro_count = 0;
 
   for (auto p = particles.begin(); p != particles.end(); ++p)
   {
-    double therm_vel_cmp = energies[macro_count] * mc_inv;
-
-    if (therm_vel_cmp > REL_LIMIT)
-    {
-      double gamma_inv = phys::rel::lorenz_factor_inv(pow(therm_vel_cmp, 2));
-      therm_vel_cmp *= gamma_inv;
-    }
-    else
-      therm_vel_cmp = algo::common::sq_rt(energies[macro_count] * two_over_mass);
-
-    therm_vel_cmp *= norm;
-
-    double rnd_0 = math::random::uniform2();
-    double rnd_1 = math::random::uniform2();
-    double rnd_2 = math::random::uniform2();
-
-    P_VEL_R((**p)) = rnd_0 * therm_vel_cmp;
-    P_VEL_PHI((**p)) = rnd_1 * therm_vel_cmp;
-    P_VEL_Z((**p)) = rnd_2 * therm_vel_cmp;
+    // kinetic energy is (gamma - 1) m c^2
+    double energy = energies[macro_count];
+    double therm_vel = LIGHT_VEL * algo::common::sq_rt(energy * (energy + 2)) / (energy + 1);
+
+    // isotropic direction
+    double cos_theta = math::random::uniform2();
+    double sin_theta = algo::common::sq_rt(1 - cos_theta * cos_theta);
+    double phi = math::random::uniform_angle();
+
+    P_VEL_R((**p)) = therm_vel * sin_theta * std::cos(phi);
+    P_VEL_PHI((**p)) = therm_vel * sin_theta * std::sin(phi);
+    P_VEL_Z((**p)) = therm_vel * cos_theta;
 
     ++macro_count;
   }
-- 
2.43.0


From 0bfd0bae02c7e134a590f496a4274fbbcbe9a9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:04 +0000
Subject: [PATCH 37/67] fix: do not lose a cell of the global grid by
 truncation

---
 include/geometry.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/geometry.hpp b/include/geometry.hpp
index 64b09ab..8c9031f 100644
--- a/include/geometry.hpp
+++ b/include/geometry.hpp
@@ -19,6 +19,7 @@
 #define _GEOMETRY_HPP_
 
 #include <vector>
+#include <cmath>
 
 #include "defines.hpp"
 #include "constant.hpp"
@@ -68,7 +69,7 @@ public:
       cell_size.push_back(size[i] / cell_amount[i]);
 
     for (size_t i = 0; i < _global_size.size(); ++i)
-      global_cell_amount.push_back(global_size[i] / cell_size[i]);
+      global_cell_amount.push_back(lround(global_size[i] / cell_size[i]));
 
     walls = _walls;
     pml_size = _pml_size;
-- 
2.43.0


From 48b6ca0d1c722c0091e4774fff91f8f1571a4cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:04 +0000
Subject: [PATCH 38/67] fix: refuse a grid that can not be divided to equal
 domains

---
 src/cfg.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index 81695d5..1fc9d94 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -587,6 +587,14 @@ bool Cfg::method_limitations_check ()
       LOG_S(FATAL) << "Amount of domains should be multiple of 2, or 1";
     }
 
+  // all domains should have the same size
+  for (unsigned int i = 0; i < 2; ++i)
+    if (geometry->domains_amount[i] == 0 || geometry->cell_amount[i] % geometry->domains_amount[i] != 0)
+      {
+        LOG_S(FATAL) << "Amount of grid cells ``" << geometry->cell_amount[i]
+                     << "'' should be multiple of amount of domains ``" << geometry->domains_amount[i] << "''";
+      }
+
   // if (geometry->cell_amount[0] / geometry->domains_amount[0] < MIN_DOMAIN_GRID_AMOUNT)
   //   {
   //     LOG_S(FATAL) << "Too small domain size by r. Must be ``" << MIN_DOMAIN_GRID_AMOUNT << "'' cells or more", 1);
-- 
2.43.0


From 32c56d7a161348f3d3bd549be315aeb91c0e8a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:04 +0000
Subject: [PATCH 39/67] fix: refuse a probe with schedule less than one time
 step

---
 src/cfg.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index 1fc9d94..0bb54f0 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -301,6 +301,9 @@ void Cfg::init_probes ()
     else
       LOG_S(FATAL) << "Unknown probe shape ``" << p_shape << "''";
 
+    if (o["schedule"].get<double>() < 1)
+      LOG_S(FATAL) << "Incorrect schedule of probe ``" << p_p.path << "''. Must be 1 or more";
+
     p_p.schedule = (int)o["schedule"].get<double>();
 
     if (p_p.dims[0] > p_p.dims[2] || p_p.dims[1] > p_p.dims[3])
-- 
2.43.0


From 247d9fa6061feafee15aeab25e6799a0e67287f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:04 +0000
Subject: [PATCH 40/67] fix: do not dump probes with unknown component from
 uninitialized pointer

---
 src/outController.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/outController.cpp b/src/outController.cpp
index 2becde7..729ad02 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -294,7 +294,10 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
           }
 //////////////////////////////////////////////////////////////////////
           else
-            LOG_S(ERROR) << "Unknown probe component ``" << prb->component << "''";
+          {
+            LOG_S(ERROR) << "Unknown probe component ``" << prb->component << "''. Probe dump is impossible";
+            continue;
+          }
 
           // create and push out writer
           OutWriter writer (hdf5_file, prb->path, prb->shape,
-- 
2.43.0


From fe2b999c1707456c36d5f4c039c54a1ae395af85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:27 +0000
Subject: [PATCH 41/67] fix: give every particle specie and beam an id of its
 own

---
 include/cfg.hpp |  1 +
 src/cfg.cpp     | 23 +++++++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/cfg.hpp b/include/cfg.hpp
index 3e8ba14..e84fc6d 100644
--- a/include/cfg.hpp
+++ b/include/cfg.hpp
@@ -218,6 +218,7 @@ public:
 private:
   picojson::value json_data;
 
+  unsigned short unique_id(unsigned short id);
   void init_particles();
   void init_probes();
   void init_beam();
diff --git a/src/cfg.cpp b/src/cfg.cpp
index 0bb54f0..578101b 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -159,6 +159,25 @@ Cfg::~Cfg()
 {
 }
 
+unsigned short Cfg::unique_id(unsigned short id)
+{
+  //! different names can have the same hash, so get next id,
+  //! that is not used by any of particle species and beams yet
+
+  for (bool used = true; used; )
+  {
+    used = false;
+    for (auto sp = particle_species.begin(); sp != particle_species.end(); ++sp)
+      used |= sp->id == id;
+    for (auto bm = particle_beams.begin(); bm != particle_beams.end(); ++bm)
+      used |= bm->id == id;
+    if (used)
+      ++id;
+  }
+
+  return id;
+}
+
 void Cfg::init_particles()
 {
   //! initialize particles charge, mass, number,
@@ -184,7 +203,7 @@ void Cfg::init_particles()
 
     LOG_S(MAX) << "Specie ID is ``" << current_specie_id << "'' for ``" << specie_name << "''";
 
-    p_s.id = current_specie_id;
+    p_s.id = unique_id(current_specie_id);
     p_s.name = specie_name;
     p_s.mass = (int)o["mass"].get<double>();
     p_s.charge = (int)o["charge"].get<double>();
@@ -357,7 +376,7 @@ void Cfg::init_beam()
 
       LOG_S(MAX) << "Beam ID is ``" << current_beam_id << "'' for ``" << beam_name << "''";
 
-      p_b.id = current_beam_id;
+      p_b.id = unique_id(current_beam_id);
       p_b.name = beam_name;
       p_b.mass = (int)o["mass"].get<double>();
       p_b.charge = (int)o["charge"].get<double>();
-- 
2.43.0


From be01e8462aaa57e62188df9f893d21ce6e626a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:39 +0000
Subject: [PATCH 42/67] fix: refuse a beam whose name in the data is taken by a
 particle specie

---
 src/cfg.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index 578101b..6b15e33 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -371,6 +371,11 @@ void Cfg::init_beam()
           LOG_S(FATAL) << "Beam name ``" << o["name"].get<string>()
                        << "'' already exists. Beam names should be unique";
 
+      for (auto sp = particle_species.begin(); sp != particle_species.end(); ++sp)
+        if (sp->name.compare(beam_name) == 0)
+          LOG_S(FATAL) << "Name ``" << beam_name << "'' of beam ``" << o["name"].get<string>()
+                       << "'' is used by particles specie. Names should be unique";
+
       // ! calculate current beam ID from its name:
       unsigned int current_beam_id = algo::common::hash_from_string(beam_name, BEAM_HASH_SALT);
 
-- 
2.43.0


From 83e2fd539268f67234ebc78505cf58d4ed6041df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:54 +0000
Subject: [PATCH 43/67] fix: refuse two probes that write to the same dataset

---
 src/cfg.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index 6b15e33..fd653f6 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -344,7 +344,13 @@ void Cfg::init_probes ()
                    << geometry->cell_amount[1];
     }
     else
+    {
+      for (auto pr = probes.begin(); pr != probes.end(); ++pr)
+        if (pr->path.compare(p_p.path) == 0)
+          LOG_S(FATAL) << "Probe ``" << p_p.path << "'' already exists. Data of both would be written to the same place";
+
       probes.push_back(p_p);
+    }
   }
 }
 
-- 
2.43.0


From e09fdccccf9ec48d40f7abefb5b28ef81a78fc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:25 +0000
Subject: [PATCH 44/67] fix: reopen the existing data file and pass it to the
 writers on continue

---
 include/outController.hpp |  4 ++++
 include/outWriter.hpp     |  2 ++
 src/PiCoPiC.cpp           | 13 ++++++++++++-
 src/outController.cpp     | 16 ++++++++++++++++
 src/outWriter.cpp         |  6 ++++++
 5 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/include/outController.hpp b/include/outController.hpp
index f00dd41..0250650 100644
--- a/include/outController.hpp
+++ b/include/outController.hpp
@@ -64,6 +64,10 @@ public:
 
   void operator()(); // launch writers on all domains of all SMBs
 
+#ifdef ENABLE_HDF5
+  void set_file(HighFive::File *_file); // use another (e.g. reopened) data file
+#endif // ENABLE_HDF5
+
 private:
   void init_datasets();
   bool print_progress_table;
diff --git a/include/outWriter.hpp b/include/outWriter.hpp
index 52179a1..4730fdf 100644
--- a/include/outWriter.hpp
+++ b/include/outWriter.hpp
@@ -60,6 +60,8 @@ public:
   void operator()();
 
 #ifdef ENABLE_HDF5
+  void set_file(HighFive::File *_file); // use another (e.g. reopened) data file
+
   HighFive::File *hdf5_file;
 #endif
 };
diff --git a/src/PiCoPiC.cpp b/src/PiCoPiC.cpp
index 23ddffe..137f6ac 100644
--- a/src/PiCoPiC.cpp
+++ b/src/PiCoPiC.cpp
@@ -357,7 +357,15 @@ int main(int argc, char **argv)
           try
           {
             LOG_S(INFO) << "Locking data file...";
-            file = new HighFive::File(hdf5_filepath.c_str(), HighFive::File::ReadWrite | HighFive::File::Excl);
+#ifdef ENABLE_MPI
+            file = new HighFive::File (
+              hdf5_filepath.c_str(),
+              HighFive::File::ReadWrite,
+              HighFive::MPIOFileDriver(COMM_WORLD, MPI_INFO_NULL)
+              );
+#else
+            file = new HighFive::File(hdf5_filepath.c_str(), HighFive::File::ReadWrite);
+#endif // ENABLE_MPI
             LOG_S(INFO) << "Locked";
           }
           catch (const HighFive::Exception&)
@@ -365,6 +373,9 @@ int main(int argc, char **argv)
             LOG_S(FATAL) << "Can not open data file ``" << hdf5_filepath << "''. Not accessible, or corrupted";
           }
 
+          // pass the reopened file to all of the writers
+          out_controller.set_file(file);
+
           // recreate all of the writers
           // data_writers.clear();
 
diff --git a/src/outController.cpp b/src/outController.cpp
index 729ad02..97c40a7 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -312,6 +312,22 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
   }
 }
 
+#ifdef ENABLE_HDF5
+void OutController::set_file(HighFive::File *_file)
+{
+  hdf5_file = _file;
+
+  for (unsigned int r = 0; r < geometry->domains_amount[0]; ++r)
+    for (unsigned int z = 0; z < geometry->domains_amount[1]; ++z)
+    {
+      Domain *dmn = smb->domains(r, z);
+
+      for (auto w = dmn->out_writers.begin(); w != dmn->out_writers.end(); ++w)
+        w->set_file(_file);
+    }
+}
+#endif // ENABLE_HDF5
+
 static SpecieP *find_specie(Domain *domain, const string &name)
 {
   for (auto ps = domain->species_p.begin(); ps != domain->species_p.end(); ++ps)
diff --git a/src/outWriter.cpp b/src/outWriter.cpp
index 88a9fec..4c991f2 100644
--- a/src/outWriter.cpp
+++ b/src/outWriter.cpp
@@ -44,6 +44,12 @@ OutWriter::OutWriter ( HighFive::File* _file, string _path, unsigned short _shap
   hdf5_file = _file;
   // engine.data_file = hdf5_file;
 }
+
+void OutWriter::set_file(HighFive::File* _file)
+{
+  hdf5_file = _file;
+  engine.data_file = _file;
+}
 #endif // ENABLE_HDF5
 
 void OutWriter::operator()()
-- 
2.43.0


From fff1ab6060d107deddf3b228d7a6daebd91ff37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:25 +0000
Subject: [PATCH 45/67] fix: pause, continue and stop at the end of the step,
 not inside of the signal handler

---
 src/PiCoPiC.cpp | 136 +++++++++++++++++++++++++-----------------------
 1 file changed, 72 insertions(+), 64 deletions(-)

diff --git a/src/PiCoPiC.cpp b/src/PiCoPiC.cpp
index 137f6ac..06ccff1 100644
--- a/src/PiCoPiC.cpp
+++ b/src/PiCoPiC.cpp
@@ -46,8 +46,7 @@ using namespace std;
 
 #define HDF5_DATA_FILE "data.h5"
 
-std::atomic<bool> lock_(false);
-std::atomic<bool> recreate_writers_(false);
+std::atomic<bool> lock_(false); // pause requested
 
 string hdf5_filepath;
 
@@ -56,45 +55,61 @@ string hdf5_filepath;
 HighFive::File *file;
 #endif // ENABLE_HDF5
 
-void signal_handler( int signum )
+std::atomic<bool> launched_(false);  // main calculation loop is launched
+std::atomic<int> stop_signal_(0);    // termination signal to be processed at the end of the step
+
+#ifdef ENABLE_HDF5
+void close_data_file()
+{
+  HighFive::File *data_file = file;
+  file = nullptr; // never close it twice, even if a signal is received here
+  delete data_file;
+}
+#endif // ENABLE_HDF5
+
+void stop_calculation( int signum )
 {
 #ifdef ENABLE_HDF5
-  if (signum == SIGUSR1 && !lock_)
-  {
-    LOG_S(INFO) << "Pause calculation";
-    LOG_S(INFO) << "Unlocking data file...";
-    delete file;
-    lock_.store(true, std::memory_order_relaxed);
-    LOG_S(INFO) << "Unlocked";
-    cout << "Waiting for ``USR2'' OS signal to continue" << flush;
-  }
-  else if (signum == SIGUSR2 && lock_) // reopen
-  {
-    cout << endl;
-    LOG_S(INFO) << "Continue calculation";
-    recreate_writers_.store(true, std::memory_order_relaxed);
-  }
+  close_data_file();
 #endif // ENABLE_HDF5
 
-  // exit
-  if ( signum == SIGINT
-       || signum == SIGQUIT
-       || signum == SIGPIPE
-       || signum == SIGTERM
-       || signum == SIGTSTP
-       || signum == SIGABRT
-       || signum == SIGBUS
-       || signum == SIGFPE
-       || signum == SIGILL
-       || signum == SIGSEGV )
+  const char * sigstr = strsignal(signum);
+  std::cerr << "Signal ``" << sigstr << " (" << signum << ")'' received. Exiting" << std::endl;
+  exit(signum);
+}
+
+void signal_handler( int signum )
+{
+  // the data file can be in use at the moment, when the signal is received. So,
+  // pause, continuation and termination are only requested here, and they are
+  // processed by the main calculation loop at the end of the step
+  switch (signum)
   {
 #ifdef ENABLE_HDF5
-    delete file;
+  case SIGUSR1:
+    lock_.store(true, std::memory_order_relaxed);
+    break;
+  case SIGUSR2:
+    lock_.store(false, std::memory_order_relaxed);
+    break;
 #endif // ENABLE_HDF5
-
-    const char * sigstr = strsignal(signum);
-    std::cerr << "Signal ``" << strdup(sigstr) << " (" << signum << ")'' received. Exiting" << std::endl;
-    exit(signum);
+  case SIGINT:
+  case SIGQUIT:
+  case SIGPIPE:
+  case SIGTERM:
+  case SIGTSTP:
+    if (launched_)
+      stop_signal_.store(signum, std::memory_order_relaxed);
+    else
+      stop_calculation(signum);
+    break;
+  case SIGABRT:
+  case SIGBUS:
+  case SIGFPE:
+  case SIGILL:
+  case SIGSEGV:
+    stop_calculation(signum);
+    break;
   }
 }
 
@@ -132,7 +147,6 @@ int main(int argc, char **argv)
 {
 #ifdef ENABLE_HDF5
   lock_.store(false, std::memory_order_relaxed);
-  recreate_writers_.store(false, std::memory_order_relaxed);
 #endif
 
   // handle signals
@@ -295,6 +309,7 @@ int main(int argc, char **argv)
 
     //! Main calculation loop
     LOG_S(INFO) << "Launching calculation";
+    launched_.store(true, std::memory_order_relaxed);
 
     while (sim_time_clock->current <= sim_time_clock->end)
     {
@@ -349,11 +364,25 @@ int main(int argc, char **argv)
 //// check if the simulation pause/unpause requested
       // (signals USR1 for pause and USR2 for unpause
 #ifdef ENABLE_HDF5
-      while (lock_)
+      if (lock_ && !stop_signal_)
       {
-        if (recreate_writers_)
+        LOG_S(INFO) << "Pause calculation";
+        LOG_S(INFO) << "Unlocking data file...";
+        close_data_file();
+        LOG_S(INFO) << "Unlocked";
+        cout << "Waiting for ``USR2'' OS signal to continue" << flush;
+
+        while (lock_ && !stop_signal_)
+        {
+          cout << "." << flush;
+          sleep(1);
+        }
+        cout << endl;
+
+        if (!stop_signal_)
         {
-          // reopen HDF file initially
+          LOG_S(INFO) << "Continue calculation";
+          // reopen HDF file
           try
           {
             LOG_S(INFO) << "Locking data file...";
@@ -375,38 +404,17 @@ int main(int argc, char **argv)
 
           // pass the reopened file to all of the writers
           out_controller.set_file(file);
-
-          // recreate all of the writers
-          // data_writers.clear();
-
-          // for (auto i = cfg.probes.begin(); i != cfg.probes.end(); ++i)
-          // {
-          //   int probe_size[4] = {i->dims[0], i->dims[1], i->dims[2], i->dims[3]};
-
-          //   DataWriter writer (cfg.output_data->data_root, i->component,
-          //                      i->specie, i->shape, probe_size, i->schedule,
-          //                      cfg.output_data->compress, cfg.output_data->compress_level,
-          //                      geometry_global, sim_time_clock, domains, cfg.cfg2str());
-
-          //   writer.hdf5_file = file; // pass pointer to opened HDF5 file to outEngineHDF5's object
-          //   writer.hdf5_init(cfg.cfg2str());
-
-          //   data_writers.push_back(writer);
-          // }
-          lock_.store(false, std::memory_order_relaxed);
-          recreate_writers_.store(false, std::memory_order_relaxed);
         }
-        else
-        {
-          cout << "." << flush;
-        }
-        sleep(1);
       }
 #endif
+
+//// check if the termination requested
+      if (stop_signal_)
+        stop_calculation(stop_signal_);
     }
 
 #ifdef ENABLE_HDF5
-    delete file;
+    close_data_file();
 #endif
     if (print_progress_table)
       msg::print_final();
-- 
2.43.0


From 2b774588222fc6fcd231309bae1f4e615824bb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:25 +0000
Subject: [PATCH 46/67] fix: do not run with the metadata lost, when they can
 not be written

---
 src/outEngine/outEngineHDF5.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/outEngine/outEngineHDF5.cpp b/src/outEngine/outEngineHDF5.cpp
index 013a607..f717a9c 100644
--- a/src/outEngine/outEngineHDF5.cpp
+++ b/src/outEngine/outEngineHDF5.cpp
@@ -374,14 +374,10 @@ void OutEngineHDF5::write_metadata(picojson::value _metadata)
     comment_a.write(comment);
 
   }
-  catch(GroupException& error)
+  catch(Exception& error)
   {
-    LOG_S(MAX) << "Group ``metadata'' already exists. Skipping";
-  }
-
-  catch(DataSetException& error)
-  {
-    LOG_S(MAX) << "metadata already exists. Skipping";
+    LOG_S(ERROR) << error.what();
+    LOG_S(FATAL) << "Can not write metadata";
   }
 }
 
-- 
2.43.0


From 395398edb4b2ff546038161591f5949a5e53fba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:25 +0000
Subject: [PATCH 47/67] fix: read columns, rows, dots and ranges of the frames
 from the places they are written to

---
 lib/python/picopic/h5_reader.py | 16 ++++++++--------
 lib/python/picopic/reader.py    | 17 ++++++++---------
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/lib/python/picopic/h5_reader.py b/lib/python/picopic/h5_reader.py
index 07e9778..494aaa7 100644
--- a/lib/python/picopic/h5_reader.py
+++ b/lib/python/picopic/h5_reader.py
@@ -17,7 +17,7 @@ GNU General Public License for more details.
 You should have received a copy of the GNU General Public License
 along with this program.  If not, see <http://www.gnu.org/licenses/>.
 """
-import os, sys, re
+import os, sys, re, errno
 
 import json
 import h5py
@@ -65,13 +65,13 @@ class H5Reader (Reader):
         return self
 
 
-    def __exit__(self):
-        self.__del__()
+    def __exit__(self, exc_type, exc_value, traceback):
+        self.file.close()
 
 
     def __ds_range__(self, p_component, p_type, shape):
         path = self.__path__(p_component, p_type, shape)
-        frange = len(self.file[path].keys())
+        frange = len(self.file[path])
 
         return frange
 
@@ -99,11 +99,11 @@ class H5Reader (Reader):
     def col(self, p_component, z, number): # longitude and number by time
         '''get column by number.'''
         p_type = 'col'
-        shape = [0, 0, z, 0]
+        shape = [0, 0, 0, z]
         path = self.__path__(p_component, p_type, shape)
         if self.__verbose__:
             sys.stdout.write("Loading data set {}/{}/{}..."
-                             .format(p_component, p_type, shape[2], number))
+                             .format(p_component, p_type, shape[3], number))
             sys.stdout.flush()
         self.__validate_col__(p_component, shape, number)
         col = self.file[path][number]
@@ -116,7 +116,7 @@ class H5Reader (Reader):
     def row(self, p_component, r, number): # latitude and number by time
         '''get row by number'''
         p_type = 'row'
-        shape = [0, 0, 0, r]
+        shape = [0, 0, r, 0]
         path = self.__path__(p_component, p_type, shape)
         if self.__verbose__:
             sys.stdout.write("Loading data set {}/{}/{}..."
@@ -133,7 +133,7 @@ class H5Reader (Reader):
     def dot(self, p_component, r, z, number): # latitude, longitude and number by time
         ''' get dot by number. Find required dataset automatically '''
         p_type = 'dot'
-        shape = [0, 0, z, r]
+        shape = [0, 0, r, z]
         path = self.__path__(p_component, p_type, shape)
         self.__validate_dot__(p_component, shape, number)
         if self.__verbose__:
diff --git a/lib/python/picopic/reader.py b/lib/python/picopic/reader.py
index 6efe75b..575ce47 100644
--- a/lib/python/picopic/reader.py
+++ b/lib/python/picopic/reader.py
@@ -56,7 +56,7 @@ class Reader:
         elif p_type == 'row':
             path = "/{}/{}/{}".format(p_component, p_type, shape[2])
         elif p_type == 'dot':
-            path = "/{}/{}/{}_{}".format(p_component, p_type, shape[3], shape[2])
+            path = "/{}/{}/{}_{}".format(p_component, p_type, shape[2], shape[3])
         else:
             raise TypeError("Incorrect data type {}. Must be rec/col/row/dot".format(p_type))
 
@@ -227,11 +227,11 @@ class Reader:
         csize = self.meta.geometry_grid[0]
         if end_number == None:
             end_number = self.__ds_range__(p_component, 'col', [0, 0, 0, z])
-        crange = start_number - end_number
+        crange = end_number - start_number
         cols = np.zeros((crange, csize))
 
         for i in range(start_number, end_number):
-            cols[i-start_number] = self.col(p_component, [0, 0, csize, z], i)
+            cols[i-start_number] = self.col(p_component, z, i)
 
         return(cols)
 
@@ -265,9 +265,9 @@ class Reader:
 
     def col_rec_range(self, p_component, z, rec_shape, start_number=0, end_number=None):
         '''get column range from rec range'''
-        rsize = self.meta.geometry_grid[0]
+        rsize = self.__rec_size__(rec_shape)[0]
         if end_number == None:
-            end_number = self.__ds_range__(p_component, 'rec', shape)
+            end_number = self.__ds_range__(p_component, 'rec', rec_shape)
         crange = end_number - start_number
         recs = np.zeros((crange, rsize))
         for i in range(start_number, end_number):
@@ -279,9 +279,9 @@ class Reader:
 
     def row_rec_range(self, p_component, r, rec_shape, start_number=0, end_number=None):
         '''get row range from rec range'''
-        rsize = self.meta.geometry_grid[1]
+        rsize = self.__rec_size__(rec_shape)[1]
         if end_number == None:
-            end_number = self.__ds_range__(p_component, 'rec', shape)
+            end_number = self.__ds_range__(p_component, 'rec', rec_shape)
         rrange = end_number - start_number
         recs = np.zeros((rrange, rsize))
         for i in range(start_number, end_number):
@@ -293,9 +293,8 @@ class Reader:
 
     def dot_rec_range(self, p_component, r, z, rec_shape, start_number=0, end_number=None):
         '''get dot range from rec range'''
-        dsize = self.meta.geometry_grid[1]
         if end_number == None:
-            end_number = self.__ds_range__(p_component, 'rec', shape)
+            end_number = self.__ds_range__(p_component, 'rec', rec_shape)
         drange = end_number - start_number
         recs = np.zeros((drange))
         for i in range(start_number, end_number):
-- 
2.43.0


From 009fb11020df3af706723132b5a9fa506556c67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:25 +0000
Subject: [PATCH 48/67] fix: do not create /tmp/tinycache on import of the
 reader

---
 lib/python/picopic/tinycache.py | 19 -------------------
 1 file changed, 19 deletions(-)

diff --git a/lib/python/picopic/tinycache.py b/lib/python/picopic/tinycache.py
index 2f8df33..4e5afbb 100644
--- a/lib/python/picopic/tinycache.py
+++ b/lib/python/picopic/tinycache.py
@@ -65,22 +65,3 @@ class TinyCache:
         intvalue = numpy.asarray(value, dtype='float')
         self.__cache__[key] = intvalue
         intvalue.tofile(cache_file)
-
-
-# In[42]:
-
-
-tc = TinyCache("/tmp/tinycache")
-
-
-# In[43]:
-
-
-tc.update_cache("test", 150)
-
-
-# In[44]:
-
-
-tc.get_cache("test")
-
-- 
2.43.0


From c5b6a43f8325f5cb7e84a795949077546373406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 49/67] fix: value of the dot is a scalar, as the range of dots
 expects

---
 lib/python/picopic/h5_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python/picopic/h5_reader.py b/lib/python/picopic/h5_reader.py
index 494aaa7..ff4adcb 100644
--- a/lib/python/picopic/h5_reader.py
+++ b/lib/python/picopic/h5_reader.py
@@ -140,7 +140,7 @@ class H5Reader (Reader):
             sys.stdout.write("Loading data set {}/{}_{}..."
                              .format(p_component, p_type, r, z))
             sys.stdout.flush()
-        dot = self.file[path][number]
+        dot = self.file[path][number][0]
         if self.__verbose__:
             sys.stdout.write('done\n')
 
-- 
2.43.0


From 0797e2c04fcdfc4a6c117f67ee56ebcb49d1f287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:09 +0000
Subject: [PATCH 50/67] fix: deposit currents of trajectory parts (almost)
 parallel to an axis

A particle, that crosses a border of a cell (almost) along an axis, is split
into parts, and displacement of a part can be below of MNZL, while displacement
of the particle is not. Such parts were silently dropped, and the charge was
not conserved. Formulas do not divide by the displacement anymore.
---
 src/current/currentVB.cpp | 72 +++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 41 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index bb286f5..cb7a591 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -42,22 +42,21 @@ void CurrentVB::simple_current_distribution(double radius_new,
 
   double some_shit_density;
 
-  if ((abs(delta_r) < MNZL) || (abs(delta_z) < MNZL)) // MNZL see constant.h
-    return;
+  // log(radius_new / radius_old) / delta_r, also for (almost) no radial motion:
+  // the part of a trajectory inside of one cell can be (almost) parallel to an axis
+  double log_part = (delta_r == 0) ? 1. / radius_old : log1p(delta_r / radius_old) / delta_r;
+
   // if i cell is not equal 0
   if (i_n>=1)
   {
-    // equation y = k*x + b; //
-    // finding k & b //
-    double k = delta_r / delta_z;
     double b = radius_old;
 
     // calculate current jz in [i,k] cell
     some_shit_density = SOME_SHIT_DENSITY_R(p_charge, i_n * dr, dr, dz, delta_t);
 
     wj = some_shit_density
-      * (dr * delta_z - k * delta_z * delta_z / 2. - delta_z * b + dr * dr / k
-         * ((i_n + 0.5) * (i_n + 0.5) - 0.25) * log((k * delta_z + b) / b));
+      * (dr * delta_z - delta_r * delta_z / 2. - delta_z * b + dr * dr * delta_z
+         * ((i_n + 0.5) * (i_n + 0.5) - 0.25) * log_part);
     // set new weighting current value
     // el_current->inc_j_z(i_n, k_n, wj);
     current[2].inc(i_n_shift, k_n_shift, wj);
@@ -66,17 +65,14 @@ void CurrentVB::simple_current_distribution(double radius_new,
 
     // calculate current in [i+1,k] cell //
     wj = some_shit_density
-      * (k * delta_z * delta_z / 2. + delta_z * b + delta_z * dr + dr * dr / k *
-         (0.25-(i_n + 0.5) * (i_n + 0.5)) * log((k * delta_z + b) / b));
+      * (delta_r * delta_z / 2. + delta_z * b + delta_z * dr + dr * dr * delta_z *
+         (0.25-(i_n + 0.5) * (i_n + 0.5)) * log_part);
     // set new weighting current value
     // el_current->inc_j_z(i_n+1, k_n, wj);
     current[2].inc(i_n_shift + 1, k_n_shift, wj);
 
     ////////////////////////////////// /
     // calculate current jr in [i,k] cell //
-    // equation y = k * x + b; //
-    // finding k & b //
-    k = -delta_z / delta_r;
     double r0 = (i_n + 0.5) * dr;
     double r1 =  radius_old;
     b = (k_n + 1.) * dz - longitude_old;
@@ -85,33 +81,30 @@ void CurrentVB::simple_current_distribution(double radius_new,
     some_shit_density = SOME_SHIT_DENSITY_Z(p_charge, r0, dr, dz, delta_t);
 
     wj = some_shit_density
-      * (r0 * k * delta_r + k / 2. * delta_r * (radius_old + delta_r / 2.)
-         + 0.5 * delta_r * (b - k * (2 * r0 + r1))
-         + delta_r * (b-k * r1) * (4 * r0 * r0-dr * dr)
-         / (8 * radius_old * (radius_old + delta_r)) +
-         (k * (r0 * r0 / 2.-dr * dr / 8.))
-         * log((radius_old + delta_r) / radius_old));
+      * (-r0 * delta_z - delta_z / 2. * (radius_old + delta_r / 2.)
+         + 0.5 * (delta_r * b + delta_z * (2 * r0 + r1))
+         + (delta_r * b + delta_z * r1) * (4 * r0 * r0-dr * dr)
+         / (8 * radius_old * (radius_old + delta_r))
+         - delta_z * (r0 * r0 / 2.-dr * dr / 8.)
+         * log_part);
     // el_current->inc_j_r(i_n,k_n, wj);
     current[0].inc(i_n_shift, k_n_shift, wj);
 
     b = longitude_old - k_n * dz;
     // weighting jr in [i][k+1] cell
     wj = some_shit_density
-      * (-r0 * k * delta_r - k / 2. * delta_r * (radius_old + delta_r / 2.)
-         + 0.5 * delta_r * (b + k * (2 * r0 + r1))
-         + delta_r * (b + k * r1) * (4 * r0 * r0 - dr * dr)
+      * (r0 * delta_z + delta_z / 2. * (radius_old + delta_r / 2.)
+         + 0.5 * (delta_r * b - delta_z * (2 * r0 + r1))
+         + (delta_r * b - delta_z * r1) * (4 * r0 * r0 - dr * dr)
          / (8 * radius_old * (radius_old + delta_r))
-         - (k * (r0 * r0 / 2.-dr * dr / 8.))
-         * log((radius_old + delta_r) / radius_old));
+         + delta_z * (r0 * r0 / 2.-dr * dr / 8.)
+         * log_part);
     // el_current->inc_j_r(i_n, k_n+1, wj);
     current[0].inc(i_n_shift, k_n_shift + 1, wj);
   }
   // if i cell is equal 0
   else
   {
-    // equation y = k * x + b; //
-    // finding k & b //
-    double k = delta_r / delta_z;
     double b = radius_old;
     // calculate current jz in [i,k] cell //
     some_shit_density = p_charge
@@ -120,7 +113,7 @@ void CurrentVB::simple_current_distribution(double radius_new,
          * dr);
 
     wj = some_shit_density
-      * (dr * delta_z - k * delta_z * delta_z / 2. - delta_z * b );
+      * (dr * delta_z - delta_r * delta_z / 2. - delta_z * b );
     // set new weighting current value
     // el_current->inc_j_z(i_n,k_n, wj);
     current[2].inc(i_n_shift, k_n_shift, wj);
@@ -129,16 +122,13 @@ void CurrentVB::simple_current_distribution(double radius_new,
     some_shit_density = SOME_SHIT_DENSITY_R(p_charge, dr, dr, dz, delta_t);
 
     wj = some_shit_density
-      * (k * delta_z * delta_z / 2. + delta_z * dr + delta_z * b);
+      * (delta_r * delta_z / 2. + delta_z * dr + delta_z * b);
     // set new weighting current value
     // el_current->inc_j_z(i_n + 1,k_n, wj);
     current[2].inc(i_n_shift + 1, k_n_shift, wj);
 
     ////////////////////////////////// /
     // calculate current jr in [i,k] cell //
-    // equation y = k * x + b; //
-    // finding k & b //
-    k = -delta_z / delta_r;
     double r0 = (i_n + 0.5) * dr;
     double r1 = radius_old;
     b= (k_n + 1.) * dz - longitude_old;
@@ -147,12 +137,12 @@ void CurrentVB::simple_current_distribution(double radius_new,
     some_shit_density = SOME_SHIT_DENSITY_Z(p_charge, r0, dr, dz, delta_t);
 
     wj = some_shit_density
-      * (r0 * k * delta_r + k / 2. * delta_r * (radius_old + delta_r / 2.)
-         + 0.5 * delta_r * (b-k * (2 * r0 + r1))
-         + delta_r * (b-k * r1) * (4 * r0 * r0-dr * dr)
+      * (-r0 * delta_z - delta_z / 2. * (radius_old + delta_r / 2.)
+         + 0.5 * (delta_r * b + delta_z * (2 * r0 + r1))
+         + (delta_r * b + delta_z * r1) * (4 * r0 * r0-dr * dr)
          / (8 * radius_old * (radius_old + delta_r))
-         + (k * (r0 * r0 / 2.-dr * dr / 8.))
-         * log((radius_old + delta_r) / radius_old));
+         - delta_z * (r0 * r0 / 2.-dr * dr / 8.)
+         * log_part);
     // el_current->inc_j_r(i_n,k_n, wj);
     current[0].inc(i_n_shift, k_n_shift, wj);
 
@@ -161,12 +151,12 @@ void CurrentVB::simple_current_distribution(double radius_new,
     // some_shit_density = SOME_SHIT_DENSITY_Z(p_charge, r0, dr, dz, delta_t);
 
     wj = some_shit_density
-      * (-r0 * k * delta_r - k / 2. * delta_r * (radius_old + delta_r / 2.)
-         + 0.5 * delta_r * (b + k * (2 * r0 + r1))
-         + delta_r * (b + k * r1) * (4 * r0 * r0-dr * dr)
+      * (r0 * delta_z + delta_z / 2. * (radius_old + delta_r / 2.)
+         + 0.5 * (delta_r * b - delta_z * (2 * r0 + r1))
+         + (delta_r * b - delta_z * r1) * (4 * r0 * r0-dr * dr)
          / (8 * radius_old * (radius_old + delta_r))
-         - (k * (r0 * r0 / 2.-dr * dr / 8.)) *
-         log((radius_old + delta_r) / radius_old));
+         + delta_z * (r0 * r0 / 2.-dr * dr / 8.) *
+         log_part);
     // el_current->inc_j_r(i_n, k_n + 1, wj);
     current[0].inc(i_n_shift, k_n_shift + 1, wj);
   }
-- 
2.43.0


From fc64cf83e5f874f8c60a0754e5aa470a417d382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:03 +0000
Subject: [PATCH 51/67] fix: probes in domains of more than 32767 cells along
 an axis

The positions were kept in shorts: the offsets wrapped and the run
crashed when the first frame was written.
---
 include/outWriter.hpp |  6 +++---
 src/outController.cpp |  2 +-
 src/outWriter.cpp     | 12 ++++++------
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/outWriter.hpp b/include/outWriter.hpp
index 4730fdf..5924a05 100644
--- a/include/outWriter.hpp
+++ b/include/outWriter.hpp
@@ -39,20 +39,20 @@ private:
   TimeSim *time;
   unsigned int schedule;
   unsigned short shape; // 0 - cube; 1 - rec; 2 - vec; 3 - dot
-  std::vector<short> position; // { a_start, b_start, c_start, ... a_end, b_end, c_end ... } for rectangles and cubes - diagonal points
+  std::vector<int> position; // { a_start, b_start, c_start, ... a_end, b_end, c_end ... } for rectangles and cubes - diagonal points
   Grid<double> *values;
   std::string path;
 
 public:
   OutWriter () {};
   OutWriter ( std::string _path, unsigned short _shape,
-              std::vector<short> _position, std::vector<size_t> _engine_offset,
+              std::vector<int> _position, std::vector<size_t> _engine_offset,
               unsigned int _schedule, bool _append, unsigned short _compress,
               TimeSim *_time, Grid<double> *_values );
 
 #ifdef ENABLE_HDF5
   OutWriter ( HighFive::File* _file, std::string _path, unsigned short _shape,
-              std::vector<short> _position, std::vector<size_t> _engine_offset,
+              std::vector<int> _position, std::vector<size_t> _engine_offset,
               unsigned int _schedule, bool _append, unsigned short _compress,
               TimeSim *_time, Grid<double> *_values );
 #endif // ENABLE_HDF5
diff --git a/src/outController.cpp b/src/outController.cpp
index 97c40a7..3e61e49 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -109,7 +109,7 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
           )
         {
           // calculate effective probe size
-          vector<short> eff_prb_size = {0,0,0,0};
+          vector<int> eff_prb_size = {0,0,0,0};
           if (prb_size[0] < domain_size[0])
             eff_prb_size[0] = domain_size[0];
           else
diff --git a/src/outWriter.cpp b/src/outWriter.cpp
index 4c991f2..d452347 100644
--- a/src/outWriter.cpp
+++ b/src/outWriter.cpp
@@ -20,7 +20,7 @@
 using namespace std;
 
 OutWriter::OutWriter ( string _path, unsigned short _shape,
-                       vector<short> _position, vector<size_t> _engine_offset,
+                       vector<int> _position, vector<size_t> _engine_offset,
                        unsigned int _schedule, bool _append, unsigned short _compress,
                        TimeSim *_time, Grid<double> *_values )
   : time(_time)
@@ -34,7 +34,7 @@ OutWriter::OutWriter ( string _path, unsigned short _shape,
 
 #ifdef ENABLE_HDF5
 OutWriter::OutWriter ( HighFive::File* _file, string _path, unsigned short _shape,
-                       vector<short> _position, vector<size_t> _engine_offset,
+                       vector<int> _position, vector<size_t> _engine_offset,
                        unsigned int _schedule, bool _append, unsigned short _compress,
                        TimeSim *_time, Grid<double> *_values )
   : OutWriter ( _path, _shape, _position, _engine_offset, _schedule,
@@ -69,8 +69,8 @@ void OutWriter::operator()()
       vector<vector<double>> val (position[2] - position[0],
                                   vector<double> (position[3] - position[1], 0));
 
-      for (short i = position[0]; i < position[2]; ++i)
-        for (short j = position[1]; j < position[3]; ++j)
+      for (int i = position[0]; i < position[2]; ++i)
+        for (int j = position[1]; j < position[3]; ++j)
           val[i - position[0]][j - position[1]] = (*values)(i, j);
 
       engine.write_rec(slice, val);
@@ -79,7 +79,7 @@ void OutWriter::operator()()
     case 1: // column shape
     {
       vector<double> val;
-      short col_offset = position[3];
+      int col_offset = position[3];
       for (unsigned int i = 0; i < values->x_size; ++i)
         val.push_back( (*values)(i, col_offset) );
 
@@ -89,7 +89,7 @@ void OutWriter::operator()()
     case 2: // row shape
     {
       vector<double> val;
-      short row_offset = position[2];
+      int row_offset = position[2];
       for (unsigned int i = 0; i < values->y_size; ++i)
         val.push_back( (*values)(row_offset, i) );
 
-- 
2.43.0


From cd731ed47a5f4ca588923722df9df14654576412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 52/67] fix: include mpi.h when MPI is enabled

---
 include/SMB.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/SMB.hpp b/include/SMB.hpp
index 64bce63..0558612 100644
--- a/include/SMB.hpp
+++ b/include/SMB.hpp
@@ -24,12 +24,13 @@
 // #define omp_get_thread_num() 0
 #endif // _OPENMP
 
+#include "defines.hpp"
+
 #ifdef ENABLE_MPI
 #include <mpi.h>
 // using namespace MPI;
 #endif // ENABLE_MPI
 
-#include "defines.hpp"
 #include "constant.hpp"
 #include "msg.hpp"
 #include "algo/grid.hpp"
-- 
2.43.0


From 9ae9264e17e4d8d8ca61e6e0d86a9c969e93382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 53/67] fix: exchange both magnetic fields between MPI
 processes

---
 src/SMB.cpp | 132 ++++++++++++++++++++++++++++------------------------
 1 file changed, 70 insertions(+), 62 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index a892266..06f71cc 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -807,6 +807,13 @@ void SMB::field_h_overlay ()
       }
 
 #ifdef ENABLE_MPI
+  // both fields: the next one (used to solve electrical field)
+  // and the one at the time of electrical field (used to push particles)
+  for (bool at_et : { false, true })
+  {
+  auto field = [at_et] (Domain *d) -> Grid3D<double>&
+    { return at_et ? d->maxwell_solver->field_h_at_et : d->maxwell_solver->field_h; };
+
   ////
   //// send particles to other domain
   ////
@@ -821,11 +828,11 @@ void SMB::field_h_overlay ()
     // send to +1 rank
     Domain *sim_domain_plus = domains(i, z_domains - 1);
 
-    int domain_r_size = sim_domain_plus->maxwell_solver->field_h_at_et[0].x_size;
-    int domain_r_real_size = sim_domain_plus->maxwell_solver->field_h_at_et[0].x_real_size;
-    int domain_o_s = sim_domain_plus->maxwell_solver->field_h_at_et[0].o_s;
-    int domain_z_size = sim_domain_plus->maxwell_solver->field_h_at_et[0].y_size;
-    int domain_z_real_size = sim_domain_plus->maxwell_solver->field_h_at_et[0].y_real_size;
+    int domain_r_size = field(sim_domain_plus)[0].x_size;
+    int domain_r_real_size = field(sim_domain_plus)[0].x_real_size;
+    int domain_o_s = field(sim_domain_plus)[0].o_s;
+    int domain_z_size = field(sim_domain_plus)[0].y_size;
+    int domain_z_real_size = field(sim_domain_plus)[0].y_real_size;
 
     MPICommOverlay item_plus (domain_r_real_size, i, 0);
     MPICommOverlay item_plus_recv (domain_r_real_size, i, 0);
@@ -836,21 +843,21 @@ void SMB::field_h_overlay ()
       int j_s = j - domain_o_s;
       int d_r_s = domain_z_size + domain_o_s;
 
-      item_plus.col_0_0[j] = sim_domain_plus->maxwell_solver->field_h_at_et[0](j_s, d_r_s - 4);
-      item_plus.col_0_1[j] = sim_domain_plus->maxwell_solver->field_h_at_et[1](j_s, d_r_s - 4);
-      item_plus.col_0_2[j] = sim_domain_plus->maxwell_solver->field_h_at_et[2](j_s, d_r_s - 4);
+      item_plus.col_0_0[j] = field(sim_domain_plus)[0](j_s, d_r_s - 4);
+      item_plus.col_0_1[j] = field(sim_domain_plus)[1](j_s, d_r_s - 4);
+      item_plus.col_0_2[j] = field(sim_domain_plus)[2](j_s, d_r_s - 4);
 
-      item_plus.col_1_0[j] = sim_domain_plus->maxwell_solver->field_h_at_et[0](j_s, d_r_s - 3);
-      item_plus.col_1_1[j] = sim_domain_plus->maxwell_solver->field_h_at_et[1](j_s, d_r_s - 3);
-      item_plus.col_1_2[j] = sim_domain_plus->maxwell_solver->field_h_at_et[2](j_s, d_r_s - 3);
+      item_plus.col_1_0[j] = field(sim_domain_plus)[0](j_s, d_r_s - 3);
+      item_plus.col_1_1[j] = field(sim_domain_plus)[1](j_s, d_r_s - 3);
+      item_plus.col_1_2[j] = field(sim_domain_plus)[2](j_s, d_r_s - 3);
 
-      item_plus.col_2_0[j] = sim_domain_plus->maxwell_solver->field_h_at_et[0](j_s, d_r_s - 2);
-      item_plus.col_2_1[j] = sim_domain_plus->maxwell_solver->field_h_at_et[1](j_s, d_r_s - 2);
-      item_plus.col_2_2[j] = sim_domain_plus->maxwell_solver->field_h_at_et[2](j_s, d_r_s - 2);
+      item_plus.col_2_0[j] = field(sim_domain_plus)[0](j_s, d_r_s - 2);
+      item_plus.col_2_1[j] = field(sim_domain_plus)[1](j_s, d_r_s - 2);
+      item_plus.col_2_2[j] = field(sim_domain_plus)[2](j_s, d_r_s - 2);
 
-      item_plus.col_3_0[j] = sim_domain_plus->maxwell_solver->field_h_at_et[0](j_s, d_r_s - 1);
-      item_plus.col_3_1[j] = sim_domain_plus->maxwell_solver->field_h_at_et[1](j_s, d_r_s - 1);
-      item_plus.col_3_2[j] = sim_domain_plus->maxwell_solver->field_h_at_et[2](j_s, d_r_s - 1);
+      item_plus.col_3_0[j] = field(sim_domain_plus)[0](j_s, d_r_s - 1);
+      item_plus.col_3_1[j] = field(sim_domain_plus)[1](j_s, d_r_s - 1);
+      item_plus.col_3_2[j] = field(sim_domain_plus)[2](j_s, d_r_s - 1);
     }
 
     domains_plus.push_back( item_plus );
@@ -859,8 +866,8 @@ void SMB::field_h_overlay ()
     // send to -1 rank
     Domain *sim_domain_minus = domains(i, 0);
 
-    domain_r_size = sim_domain_minus->maxwell_solver->field_h_at_et[0].x_size;
-    domain_o_s = sim_domain_minus->maxwell_solver->field_h_at_et[0].o_s;
+    domain_r_size = field(sim_domain_minus)[0].x_size;
+    domain_o_s = field(sim_domain_minus)[0].o_s;
 
     MPICommOverlay item_minus (domain_r_size + 2 * domain_o_s, i, 0);
     MPICommOverlay item_minus_recv (domain_r_size + 2 * domain_o_s, i, 0);
@@ -869,21 +876,21 @@ void SMB::field_h_overlay ()
     {
       int j_s = j + domain_o_s;
 
-      item_minus.col_0_0[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[0](j, 0 - domain_o_s);
-      item_minus.col_0_1[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[1](j, 0 - domain_o_s);
-      item_minus.col_0_2[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[2](j, 0 - domain_o_s);
+      item_minus.col_0_0[j_s] = field(sim_domain_minus)[0](j, 0 - domain_o_s);
+      item_minus.col_0_1[j_s] = field(sim_domain_minus)[1](j, 0 - domain_o_s);
+      item_minus.col_0_2[j_s] = field(sim_domain_minus)[2](j, 0 - domain_o_s);
 
-      item_minus.col_1_0[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[0](j, 1 - domain_o_s);
-      item_minus.col_1_1[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[1](j, 1 - domain_o_s);
-      item_minus.col_1_2[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[2](j, 1 - domain_o_s);
+      item_minus.col_1_0[j_s] = field(sim_domain_minus)[0](j, 1 - domain_o_s);
+      item_minus.col_1_1[j_s] = field(sim_domain_minus)[1](j, 1 - domain_o_s);
+      item_minus.col_1_2[j_s] = field(sim_domain_minus)[2](j, 1 - domain_o_s);
 
-      item_minus.col_2_0[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[0](j, 2 - domain_o_s);
-      item_minus.col_2_1[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[1](j, 2 - domain_o_s);
-      item_minus.col_2_2[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[2](j, 2 - domain_o_s);
+      item_minus.col_2_0[j_s] = field(sim_domain_minus)[0](j, 2 - domain_o_s);
+      item_minus.col_2_1[j_s] = field(sim_domain_minus)[1](j, 2 - domain_o_s);
+      item_minus.col_2_2[j_s] = field(sim_domain_minus)[2](j, 2 - domain_o_s);
 
-      item_minus.col_3_0[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[0](j, 3 - domain_o_s);
-      item_minus.col_3_1[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[1](j, 3 - domain_o_s);
-      item_minus.col_3_2[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[2](j, 3 - domain_o_s);
+      item_minus.col_3_0[j_s] = field(sim_domain_minus)[0](j, 3 - domain_o_s);
+      item_minus.col_3_1[j_s] = field(sim_domain_minus)[1](j, 3 - domain_o_s);
+      item_minus.col_3_2[j_s] = field(sim_domain_minus)[2](j, 3 - domain_o_s);
     }
 
     domains_minus.push_back( item_minus );
@@ -929,29 +936,29 @@ void SMB::field_h_overlay ()
     {
       Domain *dst_domain_minus = domains(i->dst_domain[0], 0);
 
-      int domain_r_size = dst_domain_minus->maxwell_solver->field_h_at_et[0].x_size;
-      int domain_o_s = dst_domain_minus->maxwell_solver->field_h_at_et[0].o_s;
-      int domain_z_size = dst_domain_minus->maxwell_solver->field_h_at_et[0].y_size;
+      int domain_r_size = field(dst_domain_minus)[0].x_size;
+      int domain_o_s = field(dst_domain_minus)[0].o_s;
+      int domain_z_size = field(dst_domain_minus)[0].y_size;
 
       for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)
       {
         int j_s = j + domain_o_s;
 
-        dst_domain_minus->maxwell_solver->field_h_at_et[0].inc(j, 0 - domain_o_s, i->col_0_0[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[1].inc(j, 0 - domain_o_s, i->col_0_1[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[2].inc(j, 0 - domain_o_s, i->col_0_2[j_s]);
+        field(dst_domain_minus)[0].inc(j, 0 - domain_o_s, i->col_0_0[j_s]);
+        field(dst_domain_minus)[1].inc(j, 0 - domain_o_s, i->col_0_1[j_s]);
+        field(dst_domain_minus)[2].inc(j, 0 - domain_o_s, i->col_0_2[j_s]);
 
-        dst_domain_minus->maxwell_solver->field_h_at_et[0].inc(j, 1 - domain_o_s, i->col_1_0[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[1].inc(j, 1 - domain_o_s, i->col_1_1[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[2].inc(j, 1 - domain_o_s, i->col_1_2[j_s]);
+        field(dst_domain_minus)[0].inc(j, 1 - domain_o_s, i->col_1_0[j_s]);
+        field(dst_domain_minus)[1].inc(j, 1 - domain_o_s, i->col_1_1[j_s]);
+        field(dst_domain_minus)[2].inc(j, 1 - domain_o_s, i->col_1_2[j_s]);
 
-        dst_domain_minus->maxwell_solver->field_h_at_et[0].inc(j, 2 - domain_o_s, i->col_2_0[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[1].inc(j, 2 - domain_o_s, i->col_2_1[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[2].inc(j, 2 - domain_o_s, i->col_2_2[j_s]);
+        field(dst_domain_minus)[0].inc(j, 2 - domain_o_s, i->col_2_0[j_s]);
+        field(dst_domain_minus)[1].inc(j, 2 - domain_o_s, i->col_2_1[j_s]);
+        field(dst_domain_minus)[2].inc(j, 2 - domain_o_s, i->col_2_2[j_s]);
 
-        dst_domain_minus->maxwell_solver->field_h_at_et[0].inc(j, 3 - domain_o_s, i->col_3_0[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[1].inc(j, 3 - domain_o_s, i->col_3_1[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[2].inc(j, 3 - domain_o_s, i->col_3_2[j_s]);
+        field(dst_domain_minus)[0].inc(j, 3 - domain_o_s, i->col_3_0[j_s]);
+        field(dst_domain_minus)[1].inc(j, 3 - domain_o_s, i->col_3_1[j_s]);
+        field(dst_domain_minus)[2].inc(j, 3 - domain_o_s, i->col_3_2[j_s]);
       }
     }
 
@@ -961,33 +968,34 @@ void SMB::field_h_overlay ()
 
       Domain *dst_domain_plus = domains(i->dst_domain[0], z_domains - 1);
 
-      int domain_r_size = dst_domain_plus->maxwell_solver->field_h_at_et[0].x_size;
-      int domain_o_s = dst_domain_plus->maxwell_solver->field_h_at_et[0].o_s;
-      int domain_z_size = dst_domain_plus->maxwell_solver->field_h_at_et[0].y_size;
-      int domain_z_real_size = dst_domain_plus->maxwell_solver->field_h_at_et[0].y_real_size;
+      int domain_r_size = field(dst_domain_plus)[0].x_size;
+      int domain_o_s = field(dst_domain_plus)[0].o_s;
+      int domain_z_size = field(dst_domain_plus)[0].y_size;
+      int domain_z_real_size = field(dst_domain_plus)[0].y_real_size;
 
       for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)
       {
         int j_s = j + domain_o_s;
         int d_r_s = domain_z_size + domain_o_s;
 
-        dst_domain_plus->maxwell_solver->field_h_at_et[0].inc(j, d_r_s - 1, i->col_3_0[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[1].inc(j, d_r_s - 1, i->col_3_1[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[2].inc(j, d_r_s - 1, i->col_3_2[j_s]);
+        field(dst_domain_plus)[0].inc(j, d_r_s - 1, i->col_3_0[j_s]);
+        field(dst_domain_plus)[1].inc(j, d_r_s - 1, i->col_3_1[j_s]);
+        field(dst_domain_plus)[2].inc(j, d_r_s - 1, i->col_3_2[j_s]);
 
-        dst_domain_plus->maxwell_solver->field_h_at_et[0].inc(j, d_r_s - 2, i->col_2_0[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[1].inc(j, d_r_s - 2, i->col_2_1[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[2].inc(j, d_r_s - 2, i->col_2_2[j_s]);
+        field(dst_domain_plus)[0].inc(j, d_r_s - 2, i->col_2_0[j_s]);
+        field(dst_domain_plus)[1].inc(j, d_r_s - 2, i->col_2_1[j_s]);
+        field(dst_domain_plus)[2].inc(j, d_r_s - 2, i->col_2_2[j_s]);
 
-        dst_domain_plus->maxwell_solver->field_h_at_et[0].inc(j, d_r_s - 3, i->col_1_0[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[1].inc(j, d_r_s - 3, i->col_1_1[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[2].inc(j, d_r_s - 3, i->col_1_2[j_s]);
+        field(dst_domain_plus)[0].inc(j, d_r_s - 3, i->col_1_0[j_s]);
+        field(dst_domain_plus)[1].inc(j, d_r_s - 3, i->col_1_1[j_s]);
+        field(dst_domain_plus)[2].inc(j, d_r_s - 3, i->col_1_2[j_s]);
 
-        dst_domain_plus->maxwell_solver->field_h_at_et[0].inc(j, d_r_s - 4, i->col_0_0[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[1].inc(j, d_r_s - 4, i->col_0_1[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[2].inc(j, d_r_s - 4, i->col_0_2[j_s]);
+        field(dst_domain_plus)[0].inc(j, d_r_s - 4, i->col_0_0[j_s]);
+        field(dst_domain_plus)[1].inc(j, d_r_s - 4, i->col_0_1[j_s]);
+        field(dst_domain_plus)[2].inc(j, d_r_s - 4, i->col_0_2[j_s]);
       }
     }
+  }
 #endif // ENABLE_MPI
 }
 
-- 
2.43.0


From d2df7f423f5b814a49ddfb30900b2c4eb9a36a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:27 +0000
Subject: [PATCH 54/67] fix: no deadlock of MPI processes when sends wait for
 their receivers

---
 src/SMB.cpp | 92 ++++++++++++++++++++++++++---------------------------
 1 file changed, 46 insertions(+), 46 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index 06f71cc..28bd212 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -407,34 +407,6 @@ void SMB::particles_runaway_collector ()
       }
   }
 
-  if (world_rank > 0)
-  {
-    MPI_Send (
-      /* data         = */ &prtls_minus,
-      /* count        = */ 1,
-      /* datatype     = */ MPI_UNSIGNED,
-      /* destination  = */ world_rank - 1,
-      /* tag          = */ 0,
-      /* communicator = */ MPI_COMM_WORLD);
-
-    LOG_S(MAX) << "Number of particles to be sent from MPI node ``"
-               << world_rank
-               << "'' to node ``" << world_rank - 1
-               << "'' is ``" << prtls_minus << "''";
-
-    if (prtls_minus > 0)
-      for (unsigned prtl = 0; prtl < prtls_minus; ++prtl)
-      {
-        MPI_Send (
-          /* data         = */ &(*queue_particles_minus[prtl]),
-          /* count        = */ 1,
-          /* datatype     = */ mpi_prtl_type,
-          /* destination  = */ world_rank - 1,
-          /* tag          = */ 0,
-          /* communicator = */ MPI_COMM_WORLD);
-      }
-  }
-
   ////
   //// receive particles from other MPI nodes
   ////
@@ -495,6 +467,34 @@ void SMB::particles_runaway_collector ()
       }
   }
 
+  if (world_rank > 0)
+  {
+    MPI_Send (
+      /* data         = */ &prtls_minus,
+      /* count        = */ 1,
+      /* datatype     = */ MPI_UNSIGNED,
+      /* destination  = */ world_rank - 1,
+      /* tag          = */ 0,
+      /* communicator = */ MPI_COMM_WORLD);
+
+    LOG_S(MAX) << "Number of particles to be sent from MPI node ``"
+               << world_rank
+               << "'' to node ``" << world_rank - 1
+               << "'' is ``" << prtls_minus << "''";
+
+    if (prtls_minus > 0)
+      for (unsigned prtl = 0; prtl < prtls_minus; ++prtl)
+      {
+        MPI_Send (
+          /* data         = */ &(*queue_particles_minus[prtl]),
+          /* count        = */ 1,
+          /* datatype     = */ mpi_prtl_type,
+          /* destination  = */ world_rank - 1,
+          /* tag          = */ 0,
+          /* communicator = */ MPI_COMM_WORLD);
+      }
+  }
+
   if (world_rank < world_size - 1)
   {
     unsigned int howrcv; // how many particles to receive
@@ -695,17 +695,17 @@ void SMB::current_overlay ()
 
   if (world_rank > 0)
   {
-    for (auto i = domains_minus.begin(); i != domains_minus.end(); ++i)
-    {
-      // LOG_S(WARNING) << "3 Sending from " << world_rank << " to " << world_rank - 1;
-      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD);
-    }
-
     for (auto i = domains_minus_recv.begin(); i != domains_minus_recv.end(); ++i)
     {
       // LOG_S(WARNING) << "2 Receiving from " << world_rank - 1 << " at " << world_rank;
       MPI_Recv(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD, NULL);
     }
+
+    for (auto i = domains_minus.begin(); i != domains_minus.end(); ++i)
+    {
+      // LOG_S(WARNING) << "3 Sending from " << world_rank << " to " << world_rank - 1;
+      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD);
+    }
   }
 
   MPI_Barrier(MPI_COMM_WORLD);
@@ -914,17 +914,17 @@ void SMB::field_h_overlay ()
 
   if (world_rank > 0)
   {
-    for (auto i = domains_minus.begin(); i != domains_minus.end(); ++i)
-    {
-      // LOG_S(WARNING) << "3 Sending from " << world_rank << " to " << world_rank - 1;
-      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD);
-    }
-
     for (auto i = domains_minus_recv.begin(); i != domains_minus_recv.end(); ++i)
     {
       // LOG_S(WARNING) << "2 Receiving from " << world_rank - 1 << " at " << world_rank;
       MPI_Recv(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD, NULL);
     }
+
+    for (auto i = domains_minus.begin(); i != domains_minus.end(); ++i)
+    {
+      // LOG_S(WARNING) << "3 Sending from " << world_rank << " to " << world_rank - 1;
+      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD);
+    }
   }
 
   MPI_Barrier(MPI_COMM_WORLD);
@@ -1124,17 +1124,17 @@ void SMB::field_e_overlay ()
 
   if (world_rank > 0)
   {
-    for (auto i = domains_minus.begin(); i != domains_minus.end(); ++i)
-    {
-      // LOG_S(WARNING) << "3 Sending from " << world_rank << " to " << world_rank - 1;
-      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD);
-    }
-
     for (auto i = domains_minus_recv.begin(); i != domains_minus_recv.end(); ++i)
     {
       // LOG_S(WARNING) << "2 Receiving from " << world_rank - 1 << " at " << world_rank;
       MPI_Recv(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD, NULL);
     }
+
+    for (auto i = domains_minus.begin(); i != domains_minus.end(); ++i)
+    {
+      // LOG_S(WARNING) << "3 Sending from " << world_rank << " to " << world_rank - 1;
+      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD);
+    }
   }
 
   MPI_Barrier(MPI_COMM_WORLD);
-- 
2.43.0


From 90a1fb653896f488b1b67fb278efbeace8c0867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 55/67] fix: beam particles leaving through the outer wall are
 not sent to other MPI processes

---
 src/SMB.cpp | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index 28bd212..07caf9a 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -258,25 +258,6 @@ void SMB::particles_runaway_collector ()
                     ++r_c;
                     res = true;
                   }
-                  ////
-                  //// check for conditions to send particle to previous/next SMB
-                  ////
-                  // send particle to previous SMB
-#ifdef ENABLE_MPI
-                  else if (z_cell < __geometry->cell_dims[1])
-                  {
-#pragma omp critical (runaway)
-                    queue_particles_minus.push_back(o);
-                    res = true;
-                  }
-                  // send particle to next SMB
-                  else if (z_cell >= __geometry->cell_dims[3])
-                  {
-#pragma omp critical (runaway)
-                    queue_particles_plus.push_back(o);
-                    res = true;
-                  }
-#endif // ENABLE_MPI
                   else if (r_cell >= __geometry->cell_dims[2])
                   {
                     // ``beam_'' at the begining of the name
@@ -298,6 +279,25 @@ void SMB::particles_runaway_collector ()
                     ++r_c;
                     res = true;
                   }
+                  ////
+                  //// check for conditions to send particle to previous/next SMB
+                  ////
+                  // send particle to previous SMB
+#ifdef ENABLE_MPI
+                  else if (z_cell < __geometry->cell_dims[1])
+                  {
+#pragma omp critical (runaway)
+                    queue_particles_minus.push_back(o);
+                    res = true;
+                  }
+                  // send particle to next SMB
+                  else if (z_cell >= __geometry->cell_dims[3])
+                  {
+#pragma omp critical (runaway)
+                    queue_particles_plus.push_back(o);
+                    res = true;
+                  }
+#endif // ENABLE_MPI
 
                   // remove out-of-simulation particles
                   else if (z_cell >= __geometry->cell_dims[3])
-- 
2.43.0


From 3a1006fc670ed726d0d7025c958117352acdc8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:32 +0000
Subject: [PATCH 56/67] fix: refuse numbers of a configuration no run can be
 made of

A time step of 0 never ended, a mass below 1 became 0 and gave infinite
velocities, fractional numbers of cells, masses, charges, schedules and
places of probes were silently cut to whole ones, negative densities,
sizes and the like were taken as they are.
---
 include/cfg.hpp |  1 +
 src/cfg.cpp     | 97 +++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 98 insertions(+)

diff --git a/include/cfg.hpp b/include/cfg.hpp
index e84fc6d..daabe54 100644
--- a/include/cfg.hpp
+++ b/include/cfg.hpp
@@ -221,6 +221,7 @@ private:
   unsigned short unique_id(unsigned short id);
   void init_particles();
   void init_probes();
+  void check_values();
   void init_beam();
   void init_geometry();
   void init_pml();
diff --git a/src/cfg.cpp b/src/cfg.cpp
index fd653f6..e03b990 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -17,6 +17,8 @@
 
 #include "cfg.hpp"
 
+#include <limits>
+
 using namespace std;
 using namespace picojson;
 
@@ -120,6 +122,9 @@ Cfg::Cfg(const std::string json_file_name)
 
   json_data.get<object>()["build_options"] = value(o);
 
+  //! there is no simulation for some of values
+  check_values();
+
   //! set amount of macroparticles
   macro_amount = json_data.get<object>()["macro_amount"].get<double>();
 
@@ -178,6 +183,98 @@ unsigned short Cfg::unique_id(unsigned short id)
   return id;
 }
 
+void Cfg::check_values()
+{
+  //! refuse numbers, that the simulation can not be performed with as they are:
+  //! out of their range, or fractional where only the whole part would be used
+
+  auto in_range = [] (object& o, string name, double min, double max)
+  {
+    double number = o[name].get<double>();
+    if (number < min || number > max)
+      LOG_S(FATAL) << "Incorrect value of option ``" << name << "'': ``" << number << "''";
+  };
+  auto positive = [] (object& o, string name)
+  {
+    double number = o[name].get<double>();
+    if (number <= 0)
+      LOG_S(FATAL) << "Incorrect value of option ``" << name << "'': ``" << number << "''. Must be more, than 0";
+  };
+  auto whole = [&in_range] (object& o, string name, double min)
+  {
+    in_range(o, name, min, numeric_limits<int>::max());
+    if (o[name].get<double>() != floor(o[name].get<double>()))
+      LOG_S(FATAL) << "Incorrect value of option ``" << name << "'': ``" << o[name].get<double>()
+                   << "''. Must be integer";
+  };
+  const double any = numeric_limits<double>::max();
+  const double any_int = numeric_limits<int>::lowest();
+
+  object& root = json_data.get<object>();
+  in_range(root, "macro_amount", 0, numeric_limits<int>::max());
+  whole(root, "beam_plasma_macro_size_ratio", 0);
+
+  object& geometry_o = root["geometry"].get<object>();
+  for (string name : {"radius", "longitude"})
+  {
+    positive(geometry_o["size"].get<object>(), name);
+    whole(geometry_o["grid"].get<object>(), name, 1);
+#ifndef ENABLE_SINGLETHREAD
+    whole(geometry_o["domains_amount"].get<object>(), name, any_int);
+#endif
+  }
+#ifdef ENABLE_PML
+  object& pml_o = geometry_o["pml"].get<object>();
+  for (string name : {"left_wall", "right_wall", "outer_wall"})
+    in_range(pml_o, name, 0, 1);
+  for (string name : {"sigma_1", "sigma_2"})
+    in_range(pml_o, name, 0, any);
+#endif // ENABLE_PML
+
+  positive(root["time"].get<object>(), "step");
+
+  for (auto& i : root["particles"].get<picojson::array>())
+  {
+    object& o = i.get<object>();
+    whole(o, "mass", 1);
+    whole(o, "charge", any_int);
+    in_range(o, "density", 0, any);
+    in_range(o, "temperature", 0, any);
+  }
+
+  for (auto& i : root["beams"].get<picojson::array>())
+  {
+    object& o = i.get<object>();
+    object& b_o = o["bunch"].get<object>();
+    whole(b_o, "amount", 0);
+    if (b_o["amount"].get<double>() > 0) // beam without bunches is not used
+    {
+      whole(o, "mass", 1);
+      whole(o, "charge", any_int);
+      positive(o, "velocity");
+      in_range(o, "velocity", 0, nextafter(constant::LIGHT_VEL, 0));
+      positive(b_o, "length");
+      positive(b_o, "radius");
+      in_range(b_o, "distance", 0, any);
+      in_range(b_o, "density", 0, any);
+    }
+  }
+
+  for (auto& i : root["data"].get<object>()["probes"].get<picojson::array>())
+  {
+    object& o = i.get<object>();
+    whole(o, "schedule", 1);
+    if (o["shape"].get<string>().compare("rec") == 0)
+      for (string side : {"start", "end"})
+        for (string name : {"r", "z"})
+          whole(o[side].get<object>(), name, 0);
+    if (o["shape"].get<string>().compare("col") == 0 || o["shape"].get<string>().compare("dot") == 0)
+      whole(o, "z", 0);
+    if (o["shape"].get<string>().compare("row") == 0 || o["shape"].get<string>().compare("dot") == 0)
+      whole(o, "r", 0);
+  }
+}
+
 void Cfg::init_particles()
 {
   //! initialize particles charge, mass, number,
-- 
2.43.0


From a69bf1da63b0f691dbd41df26842156bbae38c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:00 +0000
Subject: [PATCH 57/67] fix: start the clock at the configured start time

time.start of the configuration was read, but every run began at 0.
---
 src/cfg.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index e03b990..33ad49e 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -231,6 +231,7 @@ void Cfg::check_values()
     in_range(pml_o, name, 0, any);
 #endif // ENABLE_PML
 
+  in_range(root["time"].get<object>(), "start", 0, any);
   positive(root["time"].get<object>(), "step");
 
   for (auto& i : root["particles"].get<picojson::array>())
@@ -568,7 +569,7 @@ void Cfg::init_time ()
   time->start = json_root["start"].get<double>();
   time->end = json_root["end"].get<double>();
   time->step = json_root["step"].get<double>();
-  time->current = 0;
+  time->current = time->start;
 }
 
 void Cfg::init_output_data()
-- 
2.43.0


From 8eee2cbd6f44c6b7fab75c364f97a9f2f784db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:37 +0000
Subject: [PATCH 58/67] fix: collisions could not be compiled with any of the
 schemes

---
 include/domain.hpp | 2 +-
 src/domain.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/domain.hpp b/include/domain.hpp
index 1e8a764..fdb99ff 100644
--- a/include/domain.hpp
+++ b/include/domain.hpp
@@ -65,7 +65,7 @@
 #include "collisions/collisionsTA77S.hpp"
 #elif defined(SWITCH_COULOMB_COLLISIONS_SK98)
 #include "collisions/collisionsSK98.hpp"
-#elif defined(SWITCH_COULOMB_COLLISIONS_P12
+#elif defined(SWITCH_COULOMB_COLLISIONS_P12)
 #include "collisions/collisionsP12.hpp"
 #endif
 #endif
diff --git a/src/domain.cpp b/src/domain.cpp
index a15bbeb..6ede8cc 100644
--- a/src/domain.cpp
+++ b/src/domain.cpp
@@ -199,6 +199,6 @@ void Domain::dump_particle_positions_to_old()
 #ifdef ENABLE_COULOMB_COLLISIONS
 void Domain::collide()
 {
-  collisions->run();
+  (*collisions)();
 }
 #endif // ENABLE_COULOMB_COLLISIONS
-- 
2.43.0


From 1c9e2305f6d86faf117b605827acace9a312d69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:37 +0000
Subject: [PATCH 59/67] fix: collisions stopped at the first empty cell of a
 row

---
 src/collisions/collisionsP12.cpp   | 8 ++++----
 src/collisions/collisionsSK98.cpp  | 8 ++++----
 src/collisions/collisionsTA77S.cpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index f7ba7e5..308a999 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -348,10 +348,10 @@ void CollisionsP12::collide ()
       double density_el = get_el_density(i, j);
       double density_ion = get_ion_density(i, j);
 
-      if (!isnormal(temperature_ion)) break;
-      if (!isnormal(temperature_el)) break;
-      if (!isnormal(density_ion)) break;
-      if (!isnormal(density_el)) break;
+      if (!isnormal(temperature_ion)) continue;
+      if (!isnormal(temperature_el)) continue;
+      if (!isnormal(density_ion)) continue;
+      if (!isnormal(density_el)) continue;
 
       double debye = phys::plasma::debye_length(density_el, density_ion,
                                                 temperature_el, temperature_ion);
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 0776866..f72f81a 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -258,10 +258,10 @@ void CollisionsSK98::collide ()
       double density_el = get_el_density(i, j);
       double density_ion = get_ion_density(i, j);
 
-      if (!isnormal(temperature_ion)) break;
-      if (!isnormal(temperature_el)) break;
-      if (!isnormal(density_ion)) break;
-      if (!isnormal(density_el)) break;
+      if (!isnormal(temperature_ion)) continue;
+      if (!isnormal(temperature_el)) continue;
+      if (!isnormal(density_ion)) continue;
+      if (!isnormal(density_el)) continue;
 
       double debye = phys::plasma::debye_length(density_el, density_ion,
                                                 temperature_el, temperature_ion);
diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index 83d1e42..d599eb8 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -234,10 +234,10 @@ void CollisionsTA77S::collide ()
       double density_el = get_el_density(i, j);
       double density_ion = get_ion_density(i, j);
 
-      if (!isnormal(temperature_ion)) break;
-      if (!isnormal(temperature_el)) break;
-      if (!isnormal(density_ion)) break;
-      if (!isnormal(density_el)) break;
+      if (!isnormal(temperature_ion)) continue;
+      if (!isnormal(temperature_el)) continue;
+      if (!isnormal(density_ion)) continue;
+      if (!isnormal(density_el)) continue;
 
       double debye = phys::plasma::debye_length(density_el, density_ion,
                                                 temperature_el, temperature_ion);
-- 
2.43.0


From 8e4399ad4543c08d12e6e9fa277627e5220b59b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:37 +0000
Subject: [PATCH 60/67] fix: groups of colliding electrons and ions were
 counted in fractions, a pair was left out

---
 src/collisions/collisionsP12.cpp   | 28 ++++++++++++++--------------
 src/collisions/collisionsSK98.cpp  | 28 ++++++++++++++--------------
 src/collisions/collisionsTA77S.cpp | 28 ++++++++++++++--------------
 3 files changed, 42 insertions(+), 42 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 308a999..08cb71f 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -460,19 +460,19 @@ void CollisionsP12::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions > vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        unsigned int c_i = floor( (float)vec_size_ions / (float)vec_size_electrons );
-        double c_r = (float)vec_size_ions / (float)vec_size_electrons - c_i;
+        unsigned int c_i = vec_size_ions / vec_size_electrons;
+        unsigned int c_r = vec_size_ions % vec_size_electrons;
 
-        unsigned int ions_1st_group = (c_i + 1) * c_r * vec_size_electrons;
-        unsigned int els_1st_group = c_r * vec_size_electrons;
+        unsigned int ions_1st_group = (c_i + 1) * c_r;
+        unsigned int els_1st_group = c_r;
 
-        unsigned int ions_2nd_group = c_i * (1 - c_r) * vec_size_electrons;
+        unsigned int ions_2nd_group = c_i * (vec_size_electrons - c_r);
         // int els_2nd_group = (1 - c_r) * vec_size_electrons;
 
         // TA77: case 2b, 1st group, ions
         for (unsigned int fgi = 0; fgi < ions_1st_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i+1));
+          int fge = fgi / (c_i + 1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -483,7 +483,7 @@ void CollisionsP12::collide ()
         // TA77: case 2b, 2nd group, ions
         for (unsigned int fgi = 0; fgi < ions_2nd_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i));
+          int fge = fgi / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
@@ -495,19 +495,19 @@ void CollisionsP12::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions < vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        double c_i = floor( (float)vec_size_electrons / (float)vec_size_ions );
-        double c_r = (float)vec_size_electrons / (float)vec_size_ions - c_i;
+        unsigned int c_i = vec_size_electrons / vec_size_ions;
+        unsigned int c_r = vec_size_electrons % vec_size_ions;
 
-        unsigned int els_1st_group = (c_i + 1) * c_r * vec_size_ions;
-        unsigned int ions_1st_group = c_r * vec_size_ions;
+        unsigned int els_1st_group = (c_i + 1) * c_r;
+        unsigned int ions_1st_group = c_r;
 
-        unsigned int els_2nd_group = c_i * (1 - c_r) * vec_size_ions;
+        unsigned int els_2nd_group = c_i * (vec_size_ions - c_r);
         // int ions_2nd_group = (1 - c_r) * vec_size_ions;
 
         // TA77: case 2b, 1st group, electrons
         for (unsigned int fge = 0; fge < els_1st_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i+1));
+          int fgi = fge / (c_i + 1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -518,7 +518,7 @@ void CollisionsP12::collide ()
         // TA77: case 2b, 2nd group, electrons
         for (unsigned int fge = 0; fge < els_2nd_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i));
+          int fgi = fge / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index f72f81a..a495f4e 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -370,19 +370,19 @@ void CollisionsSK98::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions > vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        unsigned int c_i = floor( (float)vec_size_ions / (float)vec_size_electrons );
-        double c_r = (float)vec_size_ions / (float)vec_size_electrons - c_i;
+        unsigned int c_i = vec_size_ions / vec_size_electrons;
+        unsigned int c_r = vec_size_ions % vec_size_electrons;
 
-        unsigned int ions_1st_group = (c_i + 1) * c_r * vec_size_electrons;
-        unsigned int els_1st_group = c_r * vec_size_electrons;
+        unsigned int ions_1st_group = (c_i + 1) * c_r;
+        unsigned int els_1st_group = c_r;
 
-        unsigned int ions_2nd_group = c_i * (1 - c_r) * vec_size_electrons;
+        unsigned int ions_2nd_group = c_i * (vec_size_electrons - c_r);
         // int els_2nd_group = (1 - c_r) * vec_size_electrons;
 
         // TA77: case 2b, 1st group, ions
         for (unsigned int fgi = 0; fgi < ions_1st_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i+1));
+          int fge = fgi / (c_i + 1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -393,7 +393,7 @@ void CollisionsSK98::collide ()
         // TA77: case 2b, 2nd group, ions
         for (unsigned int fgi = 0; fgi < ions_2nd_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i));
+          int fge = fgi / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
@@ -405,19 +405,19 @@ void CollisionsSK98::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions < vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        double c_i = floor( (float)vec_size_electrons / (float)vec_size_ions );
-        double c_r = (float)vec_size_electrons / (float)vec_size_ions - c_i;
+        unsigned int c_i = vec_size_electrons / vec_size_ions;
+        unsigned int c_r = vec_size_electrons % vec_size_ions;
 
-        unsigned int els_1st_group = (c_i + 1) * c_r * vec_size_ions;
-        unsigned int ions_1st_group = c_r * vec_size_ions;
+        unsigned int els_1st_group = (c_i + 1) * c_r;
+        unsigned int ions_1st_group = c_r;
 
-        unsigned int els_2nd_group = c_i * (1 - c_r) * vec_size_ions;
+        unsigned int els_2nd_group = c_i * (vec_size_ions - c_r);
         // int ions_2nd_group = (1 - c_r) * vec_size_ions;
 
         // TA77: case 2b, 1st group, electrons
         for (unsigned int fge = 0; fge < els_1st_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i+1));
+          int fgi = fge / (c_i + 1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -428,7 +428,7 @@ void CollisionsSK98::collide ()
         // TA77: case 2b, 2nd group, electrons
         for (unsigned int fge = 0; fge < els_2nd_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i));
+          int fgi = fge / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index d599eb8..363d87a 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -346,19 +346,19 @@ void CollisionsTA77S::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions > vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        unsigned int c_i = floor( (float)vec_size_ions / (float)vec_size_electrons );
-        double c_r = (float)vec_size_ions / (float)vec_size_electrons - c_i;
+        unsigned int c_i = vec_size_ions / vec_size_electrons;
+        unsigned int c_r = vec_size_ions % vec_size_electrons;
 
-        unsigned int ions_1st_group = (c_i + 1) * c_r * vec_size_electrons;
-        unsigned int els_1st_group = c_r * vec_size_electrons;
+        unsigned int ions_1st_group = (c_i + 1) * c_r;
+        unsigned int els_1st_group = c_r;
 
-        unsigned int ions_2nd_group = c_i * (1 - c_r) * vec_size_electrons;
+        unsigned int ions_2nd_group = c_i * (vec_size_electrons - c_r);
         // int els_2nd_group = (1 - c_r) * vec_size_electrons;
 
         // TA77: case 2b, 1st group, ions
         for (unsigned int fgi = 0; fgi < ions_1st_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i+1));
+          int fge = fgi / (c_i + 1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -369,7 +369,7 @@ void CollisionsTA77S::collide ()
         // TA77: case 2b, 2nd group, ions
         for (unsigned int fgi = 0; fgi < ions_2nd_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i));
+          int fge = fgi / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
@@ -381,19 +381,19 @@ void CollisionsTA77S::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions < vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        double c_i = floor( (float)vec_size_electrons / (float)vec_size_ions );
-        double c_r = (float)vec_size_electrons / (float)vec_size_ions - c_i;
+        unsigned int c_i = vec_size_electrons / vec_size_ions;
+        unsigned int c_r = vec_size_electrons % vec_size_ions;
 
-        unsigned int els_1st_group = (c_i + 1) * c_r * vec_size_ions;
-        unsigned int ions_1st_group = c_r * vec_size_ions;
+        unsigned int els_1st_group = (c_i + 1) * c_r;
+        unsigned int ions_1st_group = c_r;
 
-        unsigned int els_2nd_group = c_i * (1 - c_r) * vec_size_ions;
+        unsigned int els_2nd_group = c_i * (vec_size_ions - c_r);
         // int ions_2nd_group = (1 - c_r) * vec_size_ions;
 
         // TA77: case 2b, 1st group, electrons
         for (unsigned int fge = 0; fge < els_1st_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i+1));
+          int fgi = fge / (c_i + 1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -404,7 +404,7 @@ void CollisionsTA77S::collide ()
         // TA77: case 2b, 2nd group, electrons
         for (unsigned int fge = 0; fge < els_2nd_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i));
+          int fgi = fge / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
-- 
2.43.0


From a93334c5f838e628bd0c7c80579de821db019c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:26 +0000
Subject: [PATCH 61/67] fix: densities for collisions were wrong in domains off
 the axis

---
 src/collisions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collisions.cpp b/src/collisions.cpp
index acf076d..d9fd440 100644
--- a/src/collisions.cpp
+++ b/src/collisions.cpp
@@ -166,7 +166,7 @@ double Collisions::geometry_cell_volume(int i)
   double dz = geometry->cell_size[1];
   double shift = geometry->cell_dims[0];
 
-  return CELL_VOLUME(i+shift, dr, dz);
+  return CELL_VOLUME((i+shift), dr, dz); // the macro does not put braces around its argument
 }
 
 void Collisions::collect_weighted_params_tot_grid ()
-- 
2.43.0


From 0cd231584998de7e06ae00e576926ba3b559df52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:12 +0000
Subject: [PATCH 62/67] fix: velocities of lone colliding particles became NaN
 in the default build

isnormal() is of no use with -ffast-math, which configure sets: 0/0 passed it
---
 src/collisions/collisionsTA77S.cpp | 55 ++++++++++++++++--------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index 363d87a..fc2989e 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -487,33 +487,34 @@ void CollisionsTA77S::correct_velocities()
       double E_tot_el = energy_tot_el(i, j);
       double V_0_sq_ion = V_0_r_ion*V_0_r_ion + V_0_phi_ion*V_0_phi_ion + V_0_z_ion*V_0_z_ion;
       double V_0_sq_el = V_0_r_el*V_0_r_el + V_0_phi_el*V_0_phi_el + V_0_z_el*V_0_z_el;
-      /// calculate alpha
-      double alpha_ion =
-        ( E_tot_ion - mass_tot_ion * V_0_sq_ion / 2 )
-        / ( E_tot_ion
-            + delta_E_tot_ion
-            - mass_tot_ion
-            * ( pow(V_0_r_ion + delta_V_r_ion, 2)
-                + pow(V_0_phi_ion + delta_V_phi_ion, 2)
-                + pow(V_0_z_ion + delta_V_z_ion, 2)
-              )
-            / 2
-          );
-      double alpha_el =
-        ( E_tot_el - mass_tot_el * V_0_sq_el / 2 )
-        / ( E_tot_el
-            + delta_E_tot_el
-            - mass_tot_el
-            * ( pow(V_0_r_el + delta_V_r_el, 2)
-                + pow(V_0_phi_el + delta_V_phi_el, 2)
-                + pow(V_0_z_el + delta_V_z_el, 2)
-              )
-            / 2
-          );
+      //// energy of motion relative to the mean, before and after collisions
+      double E_rel_ion = E_tot_ion - mass_tot_ion * V_0_sq_ion / 2;
+      double E_rel_ion_new = E_tot_ion
+        + delta_E_tot_ion
+        - mass_tot_ion
+        * ( pow(V_0_r_ion + delta_V_r_ion, 2)
+            + pow(V_0_phi_ion + delta_V_phi_ion, 2)
+            + pow(V_0_z_ion + delta_V_z_ion, 2)
+          )
+        / 2;
+      //// energy of motion relative to the mean, before and after collisions
+      double E_rel_el = E_tot_el - mass_tot_el * V_0_sq_el / 2;
+      double E_rel_el_new = E_tot_el
+        + delta_E_tot_el
+        - mass_tot_el
+        * ( pow(V_0_r_el + delta_V_r_el, 2)
+            + pow(V_0_phi_el + delta_V_phi_el, 2)
+            + pow(V_0_z_el + delta_V_z_el, 2)
+          )
+        / 2;
 
       // correct ion velocity
-      if (isnormal(alpha_ion)) // FIXME: sometimes E_tot_ion = mass_tot_ion(i, j) * V_0_sq_ion / 2
+      // nothing to correct without motion relative to the mean, e.g. for the only
+      // particle of the cell (isnormal() can not be used here: -ffast-math makes it useless)
+      if (E_rel_ion != 0 && E_rel_ion_new != 0)
       {
+        double alpha_ion = E_rel_ion / E_rel_ion_new;
+
         // FIXME: quick and dirty workadound
         // caused negative values under squared root
         // and zeros
@@ -538,8 +539,12 @@ void CollisionsTA77S::correct_velocities()
       }
 
       // correct electron velocity
-      if (isnormal(alpha_el)) // FIXME: sometimes E_tot_el = mass_tot_el(i, j) * V_0_sq_el / 2
+      // nothing to correct without motion relative to the mean, e.g. for the only
+      // particle of the cell (isnormal() can not be used here: -ffast-math makes it useless)
+      if (E_rel_el != 0 && E_rel_el_new != 0)
       {
+        double alpha_el = E_rel_el / E_rel_el_new;
+
         // FIXME: quick and dirty workadound
         // caused negative values under squared root
         // and zeros
-- 
2.43.0


From 522fdb1ce097b580b94a0725d12c3f789ca785a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:21 +0000
Subject: [PATCH 63/67] fix: TA77S collisions turned the relative velocity out
 of its length

the longitudinal part of the change had the wrong sign, so it was not across
the velocity unless that was along or across the axis
---
 src/collisions/collisionsTA77S.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index fc2989e..df2fb63 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -160,7 +160,7 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
       + (ux / u_p) * u * sin_Theta * sin_Phi
       - uy * (1 - cos_Theta);
 
-    d_uz = u_p * sin_Theta * cos_Phi
+    d_uz = -u_p * sin_Theta * cos_Phi
       - uz * (1 - cos_Theta);
 
     ////
@@ -173,7 +173,7 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
       + (ux / u_p) * u * sin_Theta2 * sin_Phi2
       - uy * (1 - cos_Theta2);
 
-    d_uz2 = u_p * sin_Theta2 * cos_Phi2
+    d_uz2 = -u_p * sin_Theta2 * cos_Phi2
       - uz * (1 - cos_Theta2);
   }
 
-- 
2.43.0


From 17c0dacdbdf7fd162034bf0193f2143e00f8c251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:26 +0000
Subject: [PATCH 64/67] fix: both particles of a TA77S collision were pushed to
 the same side

---
 src/collisions/collisionsTA77S.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index df2fb63..a0d8ba0 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -181,9 +181,9 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
   double vphi_a_new = vphi_a + m_ab/mass_a * d_uy;
   double vz_a_new = vz_a + m_ab/mass_a * d_uz;
 
-  double vr_b_new = vr_b + m_ab/mass_b * d_ux2;
-  double vphi_b_new = vphi_b + m_ab/mass_b * d_uy2;
-  double vz_b_new = vz_b + m_ab/mass_b * d_uz2;
+  double vr_b_new = vr_b - m_ab/mass_b * d_ux2;
+  double vphi_b_new = vphi_b - m_ab/mass_b * d_uy2;
+  double vz_b_new = vz_b - m_ab/mass_b * d_uz2;
 
   // set new velocity components
   if (swap)
-- 
2.43.0


From b69cd613dd4cb5e552ba65c521ca525162fdab58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:49 +0000
Subject: [PATCH 65/67] fix: velocities became NaN in SK98 and P12 collisions
 along the axis

---
 src/collisions/collisionsP12.cpp  | 12 ++++++++----
 src/collisions/collisionsSK98.cpp | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 08cb71f..820fff3 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -238,11 +238,15 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   double p_a_cm_abs = p_a_cm.length();
   double p_cm_prp = algo::common::sq_rt(p_a_cm[0] * p_a_cm[0] + p_a_cm[1] * p_a_cm[1]);
 
-  p_a_prime_cm[0] = p_a_cm[0] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
-    - p_a_cm[1] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
+  // direction of the momentum across the axis (any, if it is along the axis)
+  double dir_r = p_cm_prp == 0 ? 1 : p_a_cm[0] / p_cm_prp;
+  double dir_phi = p_cm_prp == 0 ? 0 : p_a_cm[1] / p_cm_prp;
+
+  p_a_prime_cm[0] = dir_r * p_a_cm[2] * sin_xi_cm * cos_phi_cm
+    - dir_phi * p_a_cm_abs * sin_xi_cm * sin_phi_cm
     + p_a_cm[0] * cos_xi_cm;
-  p_a_prime_cm[1] = p_a_cm[1] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
-    + p_a_cm[0] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
+  p_a_prime_cm[1] = dir_phi * p_a_cm[2] * sin_xi_cm * cos_phi_cm
+    + dir_r * p_a_cm_abs * sin_xi_cm * sin_phi_cm
     + p_a_cm[1] * cos_xi_cm;
   p_a_prime_cm[2] = -p_cm_prp * sin_xi_cm * cos_phi_cm + p_a_cm[2] * cos_xi_cm;
 
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index a495f4e..553978f 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -183,11 +183,15 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   double p_cm_abs = p_cm.length();
   double p_cm_prp = algo::common::sq_rt(p_cm[0] * p_cm[0] + p_cm[1] * p_cm[1]);
 
-  d_p[0] = p_cm[0] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
-    - p_cm[1] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
+  // direction of the momentum across the axis (any, if it is along the axis)
+  double dir_r = p_cm_prp == 0 ? 1 : p_cm[0] / p_cm_prp;
+  double dir_phi = p_cm_prp == 0 ? 0 : p_cm[1] / p_cm_prp;
+
+  d_p[0] = dir_r * p_cm[2] * sin_theta_cm * cos_phi
+    - dir_phi * p_cm_abs * sin_theta_cm * sin_phi
     - p_cm[0] * ( 1 - cos_theta_cm);
-  d_p[1] = p_cm[1] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
-    + p_cm[0] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
+  d_p[1] = dir_phi * p_cm[2] * sin_theta_cm * cos_phi
+    + dir_r * p_cm_abs * sin_theta_cm * sin_phi
     - p_cm[1] * ( 1 - cos_theta_cm);
   d_p[2] = -p_cm_prp * sin_theta_cm * cos_phi - p_cm[2] * ( 1 - cos_theta_cm );
 
-- 
2.43.0


From 6b160b5362fdc6beef34f140509bd87dc219fff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:49 +0000
Subject: [PATCH 66/67] fix: rare random numbers made velocities NaN in P12
 collisions

---
 src/collisions/collisionsP12.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 820fff3..434be9b 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -227,6 +227,9 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   else
     cos_xi_cm = 2 * U - 1;
 
+  // rare random numbers lead beyond the range of a cosine, most of all for s12 slightly below 0.1
+  cos_xi_cm = max(-1., min(1., cos_xi_cm));
+
   double sin_xi_cm = algo::common::sq_rt ( 1 - pow(cos_xi_cm, 2) );
 
   // find Phi angle
-- 
2.43.0


From b7dbdbc358bc8a001252ee65ceb97d46d90efd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:59 +0000
Subject: [PATCH 67/67] fix: like particles did not collide with SK98 and P12

the particles move towards each other in the center-of-mass frame: their
relative velocity is the sum, not the difference
---
 src/collisions/collisionsP12.cpp  | 10 ++++++----
 src/collisions/collisionsSK98.cpp | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 434be9b..2739a21 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -109,6 +109,8 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   // find lorenz-factor --- center-of-mass frame
   double v_cm_2 = beta_cm.length2() * LIGHT_VEL_POW_2;
   double gamma_cm = phys::rel::lorenz_factor(v_cm_2);
+  // ( gamma_cm - 1 ) / beta_cm^2, also for a center of mass at rest
+  double gamma_cm_ratio = gamma_cm * gamma_cm / ( gamma_cm + 1 );
 
   // convert LAB frame's p^0 momentum (aka \gamma * m * c)
   // to center-of-mass frame's p^0
@@ -118,7 +120,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   // convert LAB frame's 3-momentum to center-of-mass frame's 3-momentum
   vector3d<double> p_a_cm, p_b_cm;
   p_a_cm = p_a;
-  p_a_cm += beta_cm * beta_cm.dot(p_a) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_a_cm += beta_cm * beta_cm.dot(p_a) * gamma_cm_ratio;
   p_a_cm -= beta_cm * gamma_cm * p0_a;
 
   p_b_cm[0] = -p_a_cm[0];
@@ -135,7 +137,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   v_a_cm = p_a_cm / (mass_a * gamma_a_cm);
   v_b_cm = p_b_cm / (mass_b * gamma_b_cm);
 
-  double v_rel_abs = ( v_a_cm.length() - v_b_cm.length() )
+  double v_rel_abs = ( v_a_cm.length() + v_b_cm.length() )
     / ( 1 - v_a_cm.dot(v_b_cm) / LIGHT_VEL_POW_2 );
 
   double gamma_rel = phys::rel::lorenz_factor(v_rel_abs * v_rel_abs);
@@ -262,7 +264,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   {
     vector3d<double> p_a_prime;
     p_a_prime = p_a_prime_cm;
-    p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+    p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * gamma_cm_ratio;
     p_a_prime += beta_cm * gamma_cm * p0_a_cm;
 
     v_a_prime = p_a_prime / mass_a;
@@ -279,7 +281,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
     p_b_prime_cm[2] = -p_a_prime_cm[2];
 
     p_b_prime = p_b_prime_cm;
-    p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+    p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * gamma_cm_ratio;
     p_b_prime += beta_cm * gamma_cm * p0_b_cm;
 
     v_b_prime = p_b_prime / mass_b;
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 553978f..19b9ee6 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -102,6 +102,8 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   // find lorenz-factor --- center-of-mass frame
   double v_cm_2 = beta_cm.length2() * LIGHT_VEL_POW_2;
   double gamma_cm = phys::rel::lorenz_factor(v_cm_2);
+  // ( gamma_cm - 1 ) / beta_cm^2, also for a center of mass at rest
+  double gamma_cm_ratio = gamma_cm * gamma_cm / ( gamma_cm + 1 );
 
   // convert LAB frame's p^0 momentum (aka \gamma * m * c)
   // to center-of-mass frame's p^0
@@ -111,7 +113,7 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   // convert LAB frame's 3-momentum to center-of-mass frame's 3-momentum
   vector3d<double> p_a_cm, p_b_cm;
   p_a_cm = p_a;
-  p_a_cm += beta_cm * beta_cm.dot(p_a) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_a_cm += beta_cm * beta_cm.dot(p_a) * gamma_cm_ratio;
   p_a_cm -= beta_cm * gamma_cm * p0_a;
 
   p_b_cm[0] = -p_a_cm[0];
@@ -133,7 +135,7 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   vector3d<double> p_cm; // (0, 0, p_a_cm.length());
   p_cm = p_a_cm;
 
-  double v_rel_abs = ( v_a_cm.length() - v_b_cm.length() )
+  double v_rel_abs = ( v_a_cm.length() + v_b_cm.length() )
     / ( 1 - v_a_cm.dot(v_b_cm) / LIGHT_VEL_POW_2 );
 
   double gamma_rel = phys::rel::lorenz_factor(v_rel_abs * v_rel_abs);
@@ -202,11 +204,11 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
 
   vector3d<double> p_a_prime, p_b_prime;
   p_a_prime = p_a_prime_cm;
-  p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * gamma_cm_ratio;
   p_a_prime += beta_cm * gamma_cm * p0_a_cm;
 
   p_b_prime = p_b_prime_cm;
-  p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * gamma_cm_ratio;
   p_b_prime += beta_cm * gamma_cm * p0_b_cm;
 
   // calculate velocities
-- 
2.43.0

