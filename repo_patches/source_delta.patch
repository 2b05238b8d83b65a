From 7b9528b6b4d1ff052451cdb9d5d8db76e8bd5a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:47 +0000
Subject: [PATCH 01/56] fix: signed arithmetic for markers when checking 2:1
 balance

level_t is unsigned : (level + marker - 1) wrapped around when level_min is 0
and octants were marked for coarsening, and adapt() dropped octants.
---
 core/src/amr/AMRmesh_hashmap_new.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/src/amr/AMRmesh_hashmap_new.cpp b/core/src/amr/AMRmesh_hashmap_new.cpp
index d4fac06..14a4c18 100644
--- a/core/src/amr/AMRmesh_hashmap_new.cpp
+++ b/core/src/amr/AMRmesh_hashmap_new.cpp
@@ -721,7 +721,8 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
     // return true if marker was modified, false otherwise
     auto check_21_cell = KOKKOS_LAMBDA( oct_index_t iOct )
     {
-      level_t level_current = lmesh.getLevel({iOct, false});
+      // NOTE : signed, (level + marker - 1) may be negative when coarsening to level 0
+      int level_current = lmesh.getLevel({iOct, false});
       int marker_current = getMarker( {iOct, false} );
       int marker_old = marker_current;
 
@@ -744,7 +745,7 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
         {
           auto ns = lmesh.findNeighbors({iOct, false},{(int8_t)(sx*x),(int8_t)(sy*y),(int8_t)(sz*z)});
           DYABLO_ASSERT_KOKKOS_DEBUG(ns.size()>0, "Siblings can't be outside domain");
-          level_t level_siblings = lmesh.getLevel( ns[0] );
+          int level_siblings = lmesh.getLevel( ns[0] );
           DYABLO_ASSERT_KOKKOS_DEBUG( level_siblings >= level_current, "Siblings cannot be coarser");
 
           int marker_siblings = getMarker( ns[0] );
@@ -764,7 +765,7 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
         auto ns = lmesh.findNeighbors({iOct,false}, {nx,ny,nz});
         for(int n=0; n<ns.size(); n++)
         {
-          level_t level_neighbor = lmesh.getLevel(ns[n]);
+          int level_neighbor = lmesh.getLevel(ns[n]);
           int maker_neighbor = getMarker( ns[n] );
           // If current marker violates 2:1 (too coarse compared to neighbors)
           if( level_current+marker_current < level_neighbor+maker_neighbor-1 )
-- 
2.43.0


From 1485e010cfbd60d2a4679eef8c4701ec271089ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:19 +0000
Subject: [PATCH 02/56] fix: processes emptied by coarsening and non-square
 coarse grids in octree domain intervals

AMRmesh_hashmap_new::adapt() tested the octant count before adaptation and read
octant 0 of an empty storage when all the octants of a process were coarsened into
an octant of another process, and LightOctree_hashmap did the same. LightOctree_hashmap
also computed domain intervals as if the coarse grid was always a square, so that
getDomainFromPos() returned the wrong process with other coarse grid sizes.
---
 core/src/amr/AMRmesh_hashmap_new.cpp |  2 +-
 core/src/amr/LightOctree_hashmap.h   | 19 ++++++++++++-------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/core/src/amr/AMRmesh_hashmap_new.cpp b/core/src/amr/AMRmesh_hashmap_new.cpp
index 14a4c18..b1a5893 100644
--- a/core/src/amr/AMRmesh_hashmap_new.cpp
+++ b/core/src/amr/AMRmesh_hashmap_new.cpp
@@ -910,7 +910,7 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
     std::vector<morton_t> morton_intervals(mpi_size+1);
     {
       morton_t morton_interval_begin;
-      if( storage.getNumOctants() != 0 )
+      if( new_nbOcts != 0 )
       {
         Kokkos::View<morton_t> morton_interval_begin_device("morton_interval_begin");
         Kokkos::parallel_for( "adapt:compute_morton", 1, KOKKOS_LAMBDA(int)
diff --git a/core/src/amr/LightOctree_hashmap.h b/core/src/amr/LightOctree_hashmap.h
index 79b987a..cf03cd8 100644
--- a/core/src/amr/LightOctree_hashmap.h
+++ b/core/src/amr/LightOctree_hashmap.h
@@ -47,22 +47,27 @@ public:
         private_init();
 
         // TODO use logical coords directly or even morton_intervals from AMRmesh
-        morton_t first_morton;
+        constexpr morton_t morton_end = uint64_t(-1);
+        morton_t first_morton = morton_end; // Processes may be empty
+        if( pmesh->getNumOctants() > 0 )
         {
             int ndim = getNdim();
             auto pos = pmesh->getCoordinates((uint32_t)0);
             index_t<3> logical_coords;
-            uint32_t octant_count = std::pow(2, max_level );
-            real_t octant_size = 1.0/octant_count;
-            logical_coords[IX] = std::floor(pos[IX]/octant_size);
-            logical_coords[IY] = std::floor(pos[IY]/octant_size);
-            logical_coords[IZ] = (ndim-2)*std::floor(pos[IZ]/octant_size);
+            // Corners of octants are multiples of the size of octants at max_level
+            logical_coords[IX] = std::round(pos[IX]*this->storage.cell_count(IX, max_level));
+            logical_coords[IY] = std::round(pos[IY]*this->storage.cell_count(IY, max_level));
+            logical_coords[IZ] = (ndim-2)*std::round(pos[IZ]*this->storage.cell_count(IZ, max_level));
 
             first_morton = compute_morton_key( logical_coords );
         }
         auto morton_intervals_host = Kokkos::create_mirror_view( morton_intervals );
         pmesh->getMpiComm().MPI_Allgather( &first_morton, morton_intervals_host.data(), 1 );
-        morton_intervals_host(morton_intervals_host.size()-1) = uint64_t(-1);
+        morton_intervals_host(morton_intervals_host.size()-1) = morton_end;
+        // Interval is [next,next[ for empty processes
+        for(int rank=(int)morton_intervals_host.size()-2; rank>=0; rank--)
+            if( morton_intervals_host(rank) == morton_end )
+                morton_intervals_host(rank) = morton_intervals_host(rank+1);
         Kokkos::deep_copy(morton_intervals, morton_intervals_host);
 
     }
-- 
2.43.0


From 207a00c86c3dad98c9b7470f9f5ada4490c5e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:24 +0000
Subject: [PATCH 03/56] fix: clamp ghost slabs to the block size in
 partial-block ghost communicator

---
 core/src/mpi/GhostCommunicator_partial_blocks.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/mpi/GhostCommunicator_partial_blocks.cpp b/core/src/mpi/GhostCommunicator_partial_blocks.cpp
index 589af6a..b76d10f 100644
--- a/core/src/mpi/GhostCommunicator_partial_blocks.cpp
+++ b/core/src/mpi/GhostCommunicator_partial_blocks.cpp
@@ -54,13 +54,13 @@ void precompute_facemask_cells( uint32_t bx, uint32_t by, uint32_t bz, uint32_t
     uint32_t xmin = 0, xmax = bx; // avoid duplicates : all cells with x<xmin are already added
     if( has_face(mask, Face::XL) )
     {
-      uint32_t xl_xmax = ghost_count;
+      uint32_t xl_xmax = std::min( ghost_count, bx );
       add_cells( mask, 0, xl_xmax, 0, by, 0, bz );
       xmin = xl_xmax;
     }
     if( has_face(mask, Face::XR) )
     {
-      uint32_t xr_xmin = std::max( bx-ghost_count, xmin ); // avoid adding cells already added when ghost_count < 2*bx
+      uint32_t xr_xmin = std::max( (int)bx-(int)ghost_count, (int)xmin ); // avoid adding cells already added when ghost_count < 2*bx
       add_cells( mask, xr_xmin, bx, 0, by, 0, bz );
       xmax = xr_xmin;
     }
@@ -68,13 +68,13 @@ void precompute_facemask_cells( uint32_t bx, uint32_t by, uint32_t bz, uint32_t
     uint32_t ymin = 0, ymax = by;
     if( has_face(mask, Face::YL) )
     {
-      uint32_t yl_ymax = ghost_count;
+      uint32_t yl_ymax = std::min( ghost_count, by );
       add_cells( mask, xmin, xmax, 0, yl_ymax, 0, bz );
       ymin = yl_ymax;
     }
     if( has_face(mask, Face::YR) )
     {
-      uint32_t yr_ymin = std::max( by-ghost_count, ymin );
+      uint32_t yr_ymin = std::max( (int)by-(int)ghost_count, (int)ymin );
       add_cells( mask, xmin, xmax, yr_ymin, by, 0, bz );
       ymax = yr_ymin;
     }
-- 
2.43.0


From 0c448d00a08ee88f5afcae3ed04730a3c715867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:06 +0000
Subject: [PATCH 04/56] fix: load balancing permuted fields that were not
 created in alphabetical order

---
 core/src/UserData_fields.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/core/src/UserData_fields.h b/core/src/UserData_fields.h
index f03dbc4..2b94dc4 100644
--- a/core/src/UserData_fields.h
+++ b/core/src/UserData_fields.h
@@ -280,16 +280,21 @@ inline void UserData_fields::exchange_loadbalance( const ViewCommunicator& ghost
     {  
         UserData_fields::FieldAccessor fields_old = this->backup_and_realloc();
         int nb_fields = this->nbFields();
-        auto old_fields_View = Kokkos::subview( fields_old.fields.U, 
-                                                Kokkos::ALL(),
-                                                std::make_pair(0, nb_fields),
-                                                Kokkos::ALL()  );
-        auto new_fields_View = Kokkos::subview(this->fields.U, 
-                                                Kokkos::ALL(),
-                                                std::make_pair(0, nb_fields),
-                                                Kokkos::ALL()  );
-        
-        ghost_comm.exchange_ghosts<2>(old_fields_View, new_fields_View );
+        // backup_and_realloc() reorders fields : new field ivar was at index fm_active[ivar] in old array
+        for( int ivar=0; ivar<nb_fields; ivar++ )
+        {
+            int ivar_old = fields_old.fm_active[ivar];
+            auto old_fields_View = Kokkos::subview( fields_old.fields.U, 
+                                                    Kokkos::ALL(),
+                                                    std::make_pair(ivar_old, ivar_old+1),
+                                                    Kokkos::ALL()  );
+            auto new_fields_View = Kokkos::subview(this->fields.U, 
+                                                    Kokkos::ALL(),
+                                                    std::make_pair(ivar, ivar+1),
+                                                    Kokkos::ALL()  );
+            
+            ghost_comm.exchange_ghosts<2>(old_fields_View, new_fields_View );
+        }
     }// This block is important to deallocate fields_old before extend_fields()
 
     this->extend_fields();
-- 
2.43.0


From 37e3df76bdfdda56ab6e40960d3e64c3db72d4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:06 +0000
Subject: [PATCH 05/56] fix: moving a field or particle attribute onto itself
 deleted it

---
 core/src/UserData_fields.h    | 3 +++
 core/src/UserData_particles.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/core/src/UserData_fields.h b/core/src/UserData_fields.h
index 2b94dc4..1f5094f 100644
--- a/core/src/UserData_fields.h
+++ b/core/src/UserData_fields.h
@@ -160,6 +160,9 @@ public:
     {
         DYABLO_ASSERT_HOST_RELEASE( this->has_field(src), "UserData_fields::move_field() - field doesn't exist : " << src);
 
+        if( dest == src )
+            return;
+
         field_index[ dest ] = field_index.at( src );
         field_index.erase( src );
     }
diff --git a/core/src/UserData_particles.h b/core/src/UserData_particles.h
index 3995418..611dac8 100644
--- a/core/src/UserData_particles.h
+++ b/core/src/UserData_particles.h
@@ -125,6 +125,9 @@ public:
         {
             DYABLO_ASSERT_HOST_RELEASE( this->has_ParticleAttribute(attr_src), "move_ParticleAttribute() - source attribute doesn't exist : " << attr_src);
 
+            if( attr_dest == attr_src )
+                return;
+
             attribute_index[ attr_dest ] = attribute_index.at(attr_src);
             attribute_index.erase( attr_src );
         }
-- 
2.43.0


From 4e58f6b674e543e63c273d56ea5d358372ecb367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:06 +0000
Subject: [PATCH 06/56] fix: adding a particle attribute after deleting one
 failed on mismatched view extents

---
 core/src/UserData_particles.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/UserData_particles.h b/core/src/UserData_particles.h
index 611dac8..27dbdae 100644
--- a/core/src/UserData_particles.h
+++ b/core/src/UserData_particles.h
@@ -42,7 +42,7 @@ public:
             int nb_new_attributes = 1;
             int needed_attr_count = nbAttributes() + nb_new_attributes;
             this->max_particle_count = std::max( this->max_particle_count, needed_attr_count );
-            int allocated_attr_count = nbAttributes();
+            int allocated_attr_count = particles.nbfields();
             if( needed_attr_count > allocated_attr_count )
             {
                 ParticleData particles_new( particles, FieldManager(needed_attr_count) );
-- 
2.43.0


From 7893b1fd567745cc70d3750c51c4f616f436e59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:16 +0000
Subject: [PATCH 07/56] fix: remap of coarsened octants scattered over several
 processes recursed without end

---
 core/src/amr/MapUserData_mean.cpp            | 15 +++++++--------
 core/src/mpi/GhostCommunicator_full_blocks.h |  6 ++++++
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/core/src/amr/MapUserData_mean.cpp b/core/src/amr/MapUserData_mean.cpp
index 03b1530..3f83c62 100644
--- a/core/src/amr/MapUserData_mean.cpp
+++ b/core/src/amr/MapUserData_mean.cpp
@@ -1,5 +1,7 @@
 #include "amr/MapUserData_base.h"
 
+#include <memory>
+
 #include "amr/CellIndexRemapper.h"
 #include "mpi/GhostCommunicator_full_blocks.h"
 #include "UserData.h"
@@ -23,6 +25,7 @@ public:
   void save_old_mesh() override
   {
     this->lmesh_old = this->foreach_cell.get_amr_mesh().getLightOctree();
+    this->ghost_comm_old = std::make_unique<GhostCommunicator_full_blocks>( this->foreach_cell.get_amr_mesh().getMesh() );
   }
 
   void remap( UserData& user_data ) override
@@ -84,9 +87,6 @@ public:
               }
         }
       }, ghost_coarsen_count);
-      if( ghost_coarsen_count > 0 )
-        std::cout << "Warning : detected ghost subcells in coarsened octant during remap - this is so unlikely that it was never tested" << std::endl;
-
       return ghost_coarsen_count;
     };
 
@@ -97,19 +97,18 @@ public:
     {
       // In rare cases, a coarsened cell could have it's subcells scattered on multiple process
       // If this happens, we perform a complete full-block communication of all ghosts
-      // before remapping again
-      // TODO : find a test-case that uses that
+      // (in the old mesh) before remapping again
       // TODO : communicate only needed octants
 
-      GhostCommunicator_full_blocks ghost_comm(foreach_cell.get_amr_mesh(), Uin.getShape(), -1 );
-      ghost_comm.exchange_ghosts( Uin );
-      remap_aux(Uin, Uout);
+      this->ghost_comm_old->exchange_ghosts( Uin );
+      remap();
     }
   }
 
 private:
   ForeachCell& foreach_cell;
   LightOctree lmesh_old;
+  std::unique_ptr<GhostCommunicator_full_blocks> ghost_comm_old; // ghost communicator for lmesh_old
 };
 
 } // namespace dyablo;
diff --git a/core/src/mpi/GhostCommunicator_full_blocks.h b/core/src/mpi/GhostCommunicator_full_blocks.h
index f02125c..cf43fda 100644
--- a/core/src/mpi/GhostCommunicator_full_blocks.h
+++ b/core/src/mpi/GhostCommunicator_full_blocks.h
@@ -14,6 +14,12 @@ public:
     : ViewCommunicator( ViewCommunicator::from_mesh(amr_mesh, mpi_comm) )
     {}
 
+    /// Full blocks communication only depends on the mesh, not on the shape of the blocks
+    template< typename AMRmesh_t >
+    explicit GhostCommunicator_full_blocks( const AMRmesh_t& amr_mesh, const MpiComm& mpi_comm = GlobalMpiSession::get_comm_world() )
+    : ViewCommunicator( ViewCommunicator::from_mesh(amr_mesh, mpi_comm) )
+    {}
+
     static std::string name()
     {
       return "GhostCommunicator_full_blocks";
-- 
2.43.0


From 2b29b033098682ef55ac009c95d3bf9ced29e2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:31 +0000
Subject: [PATCH 08/56] fix: position lookup returned a cell outside the block
 in 2D when z differs from zmin

---
 core/src/foreach_cell/AMRBlockForeachCell.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/foreach_cell/AMRBlockForeachCell.h b/core/src/foreach_cell/AMRBlockForeachCell.h
index 4b603fd..40f39e9 100644
--- a/core/src/foreach_cell/AMRBlockForeachCell.h
+++ b/core/src/foreach_cell/AMRBlockForeachCell.h
@@ -117,7 +117,7 @@ public:
 
     uint32_t ix = (x-oct_corner[IX])/cell_size[IX];
     uint32_t iy = (y-oct_corner[IY])/cell_size[IY];
-    uint32_t iz = (z-oct_corner[IZ])/cell_size[IZ];      
+    uint32_t iz = (cdata.ndim == 2) ? 0 : (z-oct_corner[IZ])/cell_size[IZ];
 
     assert(!iOct.isGhost);
 
-- 
2.43.0


From 922be0fecdff6b8a0222fee79e5377538b7858e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:59 +0000
Subject: [PATCH 09/56] fix: apply the boundary condition of the side of the
 domain that is crossed (min and max were swapped)

---
 .../boundary_conditions/BoundaryConditions.h  | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/core/src/boundary_conditions/BoundaryConditions.h b/core/src/boundary_conditions/BoundaryConditions.h
index 3a5c29c..da16655 100644
--- a/core/src/boundary_conditions/BoundaryConditions.h
+++ b/core/src/boundary_conditions/BoundaryConditions.h
@@ -82,44 +82,44 @@ public:
 
     // X dir
     if (offset[IX] > 0) {
-      if (bc_min[IX] == BC_REFLECTING)
+      if (bc_max[IX] == BC_REFLECTING)
         res.rho_u = -ref.rho_u;
-      else if (bc_min[IX] == BC_USER)
+      else if (bc_max[IX] == BC_USER)
         res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IX);
     }
     else if (offset[IX] < 0) {
-      if (bc_max[IX] == BC_REFLECTING)
+      if (bc_min[IX] == BC_REFLECTING)
         res.rho_u = -ref.rho_u;
-      else if (bc_max[IX] == BC_USER)
+      else if (bc_min[IX] == BC_USER)
         res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IX);
     }
 
     // Y dir
     if (offset[IY] > 0) {
-      if (bc_min[IY] == BC_REFLECTING)
+      if (bc_max[IY] == BC_REFLECTING)
         res.rho_v = -ref.rho_v;
-      else if (bc_min[IY] == BC_USER)
+      else if (bc_max[IY] == BC_USER)
         res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IY);
     }
     else if (offset[IY] < 0) {
-      if (bc_max[IY] == BC_REFLECTING)
+      if (bc_min[IY] == BC_REFLECTING)
         res.rho_v = -ref.rho_v;
-      else if (bc_max[IY] == BC_USER)
+      else if (bc_min[IY] == BC_USER)
         res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IY);
     }
 
     // Z dir
     if (ndim == 3) {
       if (offset[IZ] > 0) {
-        if (bc_min[IZ] == BC_REFLECTING)
+        if (bc_max[IZ] == BC_REFLECTING)
           res.rho_w = -ref.rho_w;
-        else if (bc_min[IZ] == BC_USER)
+        else if (bc_max[IZ] == BC_USER)
           res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IZ);
       }
       else if (offset[IZ] < 0) {
-        if (bc_max[IZ] == BC_REFLECTING)
+        if (bc_min[IZ] == BC_REFLECTING)
           res.rho_w = -ref.rho_w;
-        else if (bc_max[IZ] == BC_USER)
+        else if (bc_min[IZ] == BC_USER)
           res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IZ);
       } 
     }
-- 
2.43.0


From 89a0499251dbfdf9a3b78fd4cc688ef8c79aa4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:20 +0000
Subject: [PATCH 10/56] fix: damp the GLM divergence-cleaning field once per
 step, after the fluxes of all directions

---
 core/src/hydro/HydroUpdate_utils.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/hydro/HydroUpdate_utils.h b/core/src/hydro/HydroUpdate_utils.h
index 625aba2..dce8a77 100644
--- a/core/src/hydro/HydroUpdate_utils.h
+++ b/core/src/hydro/HydroUpdate_utils.h
@@ -613,12 +613,13 @@ void euler_update(const RiemannParams&     params,
     u.e_tot += dt * 0.5 * (fluxR.rho + fluxL.rho)*gval;
   }
 
-  // GLM MHD -> Diffusion term
+  // GLM MHD -> Diffusion term, once per step, after the fluxes of every direction
   if constexpr (std::is_same_v<State, GLMMHDState>) {
     const real_t ch = params.ch / dt;
     const real_t cp = sqrt(params.cr*ch);
     const real_t para_term = exp(-0.5 * dt * ch*ch/(cp*cp));
-    u.psi *= para_term;
+    if (dir == (ndim == 3 ? IZ : IY))
+      u.psi *= para_term;
   }
 
   setConservativeState<ndim>(Uout, iCell_Uout, u);
-- 
2.43.0


From e4d4ace8cbcde0a89efe9ba9d0f060cd50bd0abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:49 +0000
Subject: [PATCH 11/56] fix: ghost cells at block corners next to a wall were
 mirrored in the wrong direction

---
 .../boundary_conditions/BoundaryConditions.h  | 45 ++++++++++++++++---
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/core/src/boundary_conditions/BoundaryConditions.h b/core/src/boundary_conditions/BoundaryConditions.h
index da16655..8d42466 100644
--- a/core/src/boundary_conditions/BoundaryConditions.h
+++ b/core/src/boundary_conditions/BoundaryConditions.h
@@ -5,6 +5,7 @@
 #include "BoundaryConditions.h"
 
 #include "RiemannSolvers.h"
+#include "foreach_cell/ForeachCell_utils.h"
 
 namespace dyablo {
 namespace {
@@ -67,17 +68,49 @@ public:
 
     auto sign = [](int x){return (x>0)-(x<0);};
 
-    CellIndex::offset_t symmetric_offset {
-      (int16_t)(-offset[IX] + sign(offset[IX])), 
-      (int16_t)(-offset[IY] + sign(offset[IY])), 
-      (int16_t)(-offset[IZ] + sign(offset[IZ]))
-    }; 
+    // Ghosts at the corner of a block may be outside of the domain along a direction, but in a neighbor 
+    // block along another : only mirror the position along directions which cross the domain boundary
+    const bool is_corner = (offset[IX]!=0) + (offset[IY]!=0) + (offset[IZ]!=0) > 1;
+    CellIndex::offset_t symmetric_offset{}, inside_offset{};
+    for( int dir=0; dir<ndim; dir++ )
+    {
+      offset_t offset_dir{};
+      offset_dir[dir] = offset[dir];
+      if( is_corner && offset[dir] != 0 && !iCell_ref.getNeighbor_ghost(offset_dir, Uin.getShape()).is_boundary() )
+      {
+        inside_offset[dir] = offset[dir];
+        offset[dir] = 0;
+      }
+      symmetric_offset[dir] = -offset[dir] + sign(offset[dir]);
+    }
 
     iCell_ref = iCell_ref.getNeighbor(symmetric_offset);
+    if( inside_offset[IX] || inside_offset[IY] || inside_offset[IZ] )
+    {
+      const CellIndex iCell_padded { iCell_ref.iOct, 
+        iCell_ref.i + iCell_ref.bx + inside_offset[IX], 
+        iCell_ref.j + iCell_ref.by + inside_offset[IY], 
+        iCell_ref.k + iCell_ref.bz + inside_offset[IZ],
+        3*iCell_ref.bx, 3*iCell_ref.by, 3*iCell_ref.bz,
+        CellIndex::LOCAL_TO_BLOCK };
+      iCell_ref = Uin.getShape().convert_index_ghost(iCell_padded);
+    }
   
     // By default, we define the result as the reference state (ie the symmetrical state wrt the boundary)
     ConsState res{}, ref{};
-    getConservativeState<ndim>(Uin, iCell_ref, ref);
+    if( iCell_ref.level_diff() == -1 )
+    {
+      ConsState ref_subcell{};
+      int nbCells = foreach_sibling<ndim>( iCell_ref, Uin.getShape(), 
+        [&](const CellIndex& iCell_subcell)
+      {
+        getConservativeState<ndim>(Uin, iCell_subcell, ref_subcell);
+        ref += ref_subcell;
+      });
+      ref = ref/nbCells;
+    }
+    else
+      getConservativeState<ndim>(Uin, iCell_ref, ref);
     res = ref;
 
     // X dir
-- 
2.43.0


From 223cdf061254779c8d4acff83d9d72b94ce0f79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:21 +0000
Subject: [PATCH 12/56] fix: computing the timestep failed when a process has
 no octant or no particle

---
 core/src/compute_dt/Compute_dt_hydro.cpp             | 3 ++-
 core/src/compute_dt/Compute_dt_parabolic.cpp         | 3 ++-
 core/src/compute_dt/Compute_dt_particle_velocity.cpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/compute_dt/Compute_dt_hydro.cpp b/core/src/compute_dt/Compute_dt_hydro.cpp
index e32b6c2..b3e5f91 100644
--- a/core/src/compute_dt/Compute_dt_hydro.cpp
+++ b/core/src/compute_dt/Compute_dt_hydro.cpp
@@ -119,7 +119,8 @@ public:
 
     }, Kokkos::Max<real_t>(inv_dt) );
 
-    real_t dt = cfl / inv_dt;
+    // inv_dt is negative (identity of Kokkos::Max) when there is nothing on this process : no restriction on dt
+    real_t dt = cfl / ( inv_dt < 0 ? 0 : inv_dt );
     DYABLO_ASSERT_HOST_RELEASE(dt>0, "invalid dt = " << dt);
     return dt;
   }
diff --git a/core/src/compute_dt/Compute_dt_parabolic.cpp b/core/src/compute_dt/Compute_dt_parabolic.cpp
index 9702db2..3b7d218 100644
--- a/core/src/compute_dt/Compute_dt_parabolic.cpp
+++ b/core/src/compute_dt/Compute_dt_parabolic.cpp
@@ -102,7 +102,8 @@ public:
       inv_dt_update = FMAX( inv_dt_update, max_dt_visc );
     }, Kokkos::Max<real_t>(inv_dt) );
 
-    real_t dt = cfl / inv_dt;
+    // inv_dt is negative (identity of Kokkos::Max) when there is nothing on this process : no restriction on dt
+    real_t dt = cfl / ( inv_dt < 0 ? 0 : inv_dt );
     DYABLO_ASSERT_HOST_RELEASE(dt>0, "invalid dt = " << dt);
     return dt;
   }
diff --git a/core/src/compute_dt/Compute_dt_particle_velocity.cpp b/core/src/compute_dt/Compute_dt_particle_velocity.cpp
index a36a67a..66b1f0e 100644
--- a/core/src/compute_dt/Compute_dt_particle_velocity.cpp
+++ b/core/src/compute_dt/Compute_dt_particle_velocity.cpp
@@ -76,7 +76,8 @@ public:
       inv_dt_update = FMAX( inv_dt_update, v/dmin);
     }, Kokkos::Max<real_t>(inv_dt));
 
-    real_t dt = cfl / inv_dt;
+    // inv_dt is negative (identity of Kokkos::Max) when there is nothing on this process : no restriction on dt
+    real_t dt = cfl / ( inv_dt < 0 ? 0 : inv_dt );
     DYABLO_ASSERT_HOST_RELEASE(dt>0, "invalid dt = " << dt);
     return dt;
   }
-- 
2.43.0


From f6dad42350a6af0e81bcf12ed9af87806d2afc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:21 +0000
Subject: [PATCH 13/56] fix: CIC weights of smaller cells across edges and
 corners lost mass and gravity

---
 core/src/particles/ParticleUpdate_CIC_density.cpp | 10 +++++-----
 core/src/particles/ParticleUpdate_CIC_move.cpp    |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/core/src/particles/ParticleUpdate_CIC_density.cpp b/core/src/particles/ParticleUpdate_CIC_density.cpp
index 0fc978b..c49f58e 100644
--- a/core/src/particles/ParticleUpdate_CIC_density.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_density.cpp
@@ -97,11 +97,11 @@ public:
         }
         else 
         {
-          // Smaller : write to all smaller neighbors
-          //real_t volume_fraction_smaller = volume_fraction/(2*(ndim-1)); // Mass distributed accross neighbors
-          //real_t Vcell_smaller = Vcell/( 2*2*(ndim-1) ) // Volume 2^ndim times smaller
-          //real_t rho_contrib_smaller = (part_mass * volume_fraction_smaller) / Vcell_smaller;
-          real_t rho_contrib = 2 * (part_mass * volume_fraction) / Vcell;
+          // Smaller : write to all smaller neighbors in contact (depends if neighbor accross face, edge or corner)
+          int nneighbors = ((offset[IX]==0)?2:1) * ((offset[IY]==0)?2:1) * ((ndim==3 && offset[IZ]==0)?2:1);
+          real_t volume_fraction_smaller = volume_fraction/nneighbors; // Mass distributed accross neighbors
+          real_t Vcell_smaller = Vcell/( 2*2*(ndim-1) ); // Volume 2^ndim times smaller
+          real_t rho_contrib = (part_mass * volume_fraction_smaller) / Vcell_smaller;
           foreach_smaller_neighbor<ndim>( iCell_neighbor, offset, Uin.getShape(),
             [&]( const ForeachCell::CellIndex& iCell_sn )
           {
diff --git a/core/src/particles/ParticleUpdate_CIC_move.cpp b/core/src/particles/ParticleUpdate_CIC_move.cpp
index 3c89bd0..7e7e85e 100644
--- a/core/src/particles/ParticleUpdate_CIC_move.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_move.cpp
@@ -98,7 +98,8 @@ public:
         }
         else 
         {
-          int nneighbors = 2*(ndim-1);
+          // Number of smaller neighbors in contact (depends if neighbor accross face, edge or corner)
+          int nneighbors = ((offset[IX]==0)?2:1) * ((offset[IY]==0)?2:1) * ((ndim==3 && offset[IZ]==0)?2:1);
           foreach_smaller_neighbor<ndim>( iCell_neighbor, offset, Uin.getShape(),
             [&]( const ForeachCell::CellIndex& iCell_sn )
           {
-- 
2.43.0


From 60a451cdc3c82f112c016db2b2cce7b2e2c3a99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:43 +0000
Subject: [PATCH 14/56] fix: particle projection and CIC interpolation in 2D
 (cell area, no neighbors along z)

---
 core/src/particles/ParticleUpdate_CIC_density.cpp | 15 +++++++++------
 core/src/particles/ParticleUpdate_CIC_move.cpp    | 13 ++++++++-----
 core/src/particles/ParticleUpdate_NGP_density.cpp |  3 ++-
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/core/src/particles/ParticleUpdate_CIC_density.cpp b/core/src/particles/ParticleUpdate_CIC_density.cpp
index c49f58e..546790d 100644
--- a/core/src/particles/ParticleUpdate_CIC_density.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_density.cpp
@@ -62,12 +62,12 @@ public:
       
       pos_t cell_size = cells.getCellSize( iCell );
       pos_t cell_pos = cells.getCellCenter( iCell );
-      real_t Vcell = cell_size[IX]*cell_size[IY]*cell_size[IZ];
+      real_t Vcell = cell_size[IX]*cell_size[IY]*(ndim==3 ? cell_size[IZ] : 1.0);
 
       pos_t p = { // Local position relative to center [-0.5, 0.5]^3
         (part_pos[IX] - cell_pos[IX])/cell_size[IX], 
         (part_pos[IY] - cell_pos[IY])/cell_size[IY], 
-        (part_pos[IZ] - cell_pos[IZ])/cell_size[IZ] 
+        (ndim==2) ? 0 : (part_pos[IZ] - cell_pos[IZ])/cell_size[IZ] 
       };
       auto sign = [](const auto& x) -> int8_t {return (x>=0)?1:-1;};
       ForeachCell::CellIndex::offset_t part_offset = {sign(p[IX]), sign(p[IY]), sign(p[IZ])};
@@ -114,10 +114,13 @@ public:
       apply_rho_contrib( {part_offset[IX],0              ,0              });
       apply_rho_contrib( {0              ,part_offset[IY],0              });
       apply_rho_contrib( {part_offset[IX],part_offset[IY],0              });
-      apply_rho_contrib( {0              ,0              ,part_offset[IZ]});
-      apply_rho_contrib( {part_offset[IX],0              ,part_offset[IZ]});
-      apply_rho_contrib( {0              ,part_offset[IY],part_offset[IZ]});
-      apply_rho_contrib( {part_offset[IX],part_offset[IY],part_offset[IZ]});
+      if( ndim == 3 )
+      {
+        apply_rho_contrib( {0              ,0              ,part_offset[IZ]});
+        apply_rho_contrib( {part_offset[IX],0              ,part_offset[IZ]});
+        apply_rho_contrib( {0              ,part_offset[IY],part_offset[IZ]});
+        apply_rho_contrib( {part_offset[IX],part_offset[IY],part_offset[IZ]});
+      }
 
     });
 
diff --git a/core/src/particles/ParticleUpdate_CIC_move.cpp b/core/src/particles/ParticleUpdate_CIC_move.cpp
index 7e7e85e..360e65c 100644
--- a/core/src/particles/ParticleUpdate_CIC_move.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_move.cpp
@@ -72,7 +72,7 @@ public:
       pos_t p = { // Local position relative to center [-0.5, 0.5]^3
         (part_pos[IX] - cell_pos[IX])/cell_size[IX], 
         (part_pos[IY] - cell_pos[IY])/cell_size[IY], 
-        (part_pos[IZ] - cell_pos[IZ])/cell_size[IZ] 
+        (ndim==2) ? 0 : (part_pos[IZ] - cell_pos[IZ])/cell_size[IZ] 
       };
       auto sign = [](const auto& x) -> int8_t {return (x>=0)?1:-1;};
       ForeachCell::CellIndex::offset_t part_offset = {sign(p[IX]), sign(p[IY]), sign(p[IZ])};
@@ -114,10 +114,13 @@ public:
       apply_g_contrib( {part_offset[IX],0              ,0              });
       apply_g_contrib( {0              ,part_offset[IY],0              });
       apply_g_contrib( {part_offset[IX],part_offset[IY],0              });
-      apply_g_contrib( {0              ,0              ,part_offset[IZ]});
-      apply_g_contrib( {part_offset[IX],0              ,part_offset[IZ]});
-      apply_g_contrib( {0              ,part_offset[IY],part_offset[IZ]});
-      apply_g_contrib( {part_offset[IX],part_offset[IY],part_offset[IZ]});
+      if( ndim == 3 )
+      {
+        apply_g_contrib( {0              ,0              ,part_offset[IZ]});
+        apply_g_contrib( {part_offset[IX],0              ,part_offset[IZ]});
+        apply_g_contrib( {0              ,part_offset[IY],part_offset[IZ]});
+        apply_g_contrib( {part_offset[IX],part_offset[IY],part_offset[IZ]});
+      }
 
       Pdata.at( iPart, IVX ) += dt * gx;
       Pdata.at( iPart, IVY ) += dt * gy;
diff --git a/core/src/particles/ParticleUpdate_NGP_density.cpp b/core/src/particles/ParticleUpdate_NGP_density.cpp
index 1c0033f..ef8c84a 100644
--- a/core/src/particles/ParticleUpdate_NGP_density.cpp
+++ b/core/src/particles/ParticleUpdate_NGP_density.cpp
@@ -32,6 +32,7 @@ public:
     const ForeachParticle::ParticleArray& Ppos = U.getParticleArray( "particles" );
     UserData::ParticleAccessor Pdata = U.getParticleAccessor( "particles", {{"mass", IMass}} );
 
+    int ndim = foreach_cell.getDim();
     ForeachCell::CellMetaData cells = foreach_cell.getCellMetaData();
 
     foreach_cell.foreach_cell( "ParticleUpdate_NGP_density::copy_density", Uin.getShape(),
@@ -45,7 +46,7 @@ public:
     {
       ForeachCell::CellIndex iCell = cells.getCellFromPos( {Ppos.pos(iPart, IX), Ppos.pos(iPart, IY), Ppos.pos(iPart, IZ)} );
       auto size = cells.getCellSize( iCell );
-      real_t rho_contrib = Pdata.at( iPart, IMass ) / (size[IX]*size[IY]*size[IZ]);
+      real_t rho_contrib = Pdata.at( iPart, IMass ) / (size[IX]*size[IY]*(ndim==3 ? size[IZ] : 1.0));
 
       Kokkos::atomic_add( &Uin.at( iCell, IRhoG ), rho_contrib ) ;
     });   
-- 
2.43.0


From 32f704637e170979dac50722e77031048236b067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:43 +0000
Subject: [PATCH 15/56] fix: tracer particles left the domain through periodic
 boundaries

---
 .../particles/ParticleUpdate_tracers_move.cpp | 28 ++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/core/src/particles/ParticleUpdate_tracers_move.cpp b/core/src/particles/ParticleUpdate_tracers_move.cpp
index b22192e..4f44a1c 100644
--- a/core/src/particles/ParticleUpdate_tracers_move.cpp
+++ b/core/src/particles/ParticleUpdate_tracers_move.cpp
@@ -12,7 +12,20 @@ public:
           Timers& timers) 
   : foreach_cell(foreach_cell),
     foreach_particle(foreach_cell.get_amr_mesh(), configMap),
-    timers(timers)
+    timers(timers),
+    data{
+      .xmin = configMap.getValue<real_t>("mesh", "xmin", 0.0),
+      .xmax = configMap.getValue<real_t>("mesh", "xmax", 1.0),
+      .ymin = configMap.getValue<real_t>("mesh", "ymin", 0.0),
+      .ymax = configMap.getValue<real_t>("mesh", "ymax", 1.0),
+      .zmin = configMap.getValue<real_t>("mesh", "zmin", 0.0),
+      .zmax = configMap.getValue<real_t>("mesh", "zmax", 1.0)
+    },
+    periodic{
+      configMap.getValue<BoundaryConditionType>("mesh","boundary_type_xmin", BC_ABSORBING) == BC_PERIODIC,
+      configMap.getValue<BoundaryConditionType>("mesh","boundary_type_ymin", BC_ABSORBING) == BC_PERIODIC,
+      configMap.getValue<BoundaryConditionType>("mesh","boundary_type_zmin", BC_ABSORBING) == BC_PERIODIC
+    }
   {}
 
   ~ParticleUpdate_tracers_move() {}
@@ -32,6 +45,9 @@ public:
 
     ForeachCell::CellMetaData cells = foreach_cell.getCellMetaData();
 
+    const Data& d = this->data;
+    const Kokkos::Array<bool, 3> periodic = this->periodic;
+
     foreach_particle.foreach_particle( "tracers_update_position", P,
       KOKKOS_LAMBDA( const ForeachParticle::ParticleIndex& iPart )
     {
@@ -41,6 +57,11 @@ public:
       P.pos(iPart, IX) += dt * Uin.at( iCell, IVX )/rho;
       P.pos(iPart, IY) += dt * Uin.at( iCell, IVY )/rho;
       P.pos(iPart, IZ) += dt * Uin.at( iCell, IVZ )/rho;
+
+      // Compute periodic position
+      if( periodic[IX] ) P.pos(iPart, IX) = fmod( (P.pos(iPart, IX) - d.xmin) + (d.xmax-d.xmin) , d.xmax-d.xmin) + d.xmin;
+      if( periodic[IY] ) P.pos(iPart, IY) = fmod( (P.pos(iPart, IY) - d.ymin) + (d.ymax-d.ymin) , d.ymax-d.ymin) + d.ymin;
+      if( periodic[IZ] ) P.pos(iPart, IZ) = fmod( (P.pos(iPart, IZ) - d.zmin) + (d.zmax-d.zmin) , d.zmax-d.zmin) + d.zmin;
     });   
 
     timers.get("ParticleUpdate_tracers_move").stop();
@@ -50,6 +71,11 @@ private:
   ForeachCell& foreach_cell;
   ForeachParticle foreach_particle;
   Timers& timers;  
+public: // Needed for nvcc
+  struct Data {
+    real_t xmin,xmax,ymin,ymax,zmin,zmax;
+  } data;
+  Kokkos::Array<bool, 3> periodic;
 };
 
 } // namespace dyablo
-- 
2.43.0


From 5aad9c2569d155fbb9f0fc65ad1c7319e74b2229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:38 +0000
Subject: [PATCH 16/56] fix: CIC projection counted previous content of ghost
 cells when rho_g already exists

---
 core/src/particles/ParticleUpdate_CIC_density.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/particles/ParticleUpdate_CIC_density.cpp b/core/src/particles/ParticleUpdate_CIC_density.cpp
index 546790d..fa7e613 100644
--- a/core/src/particles/ParticleUpdate_CIC_density.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_density.cpp
@@ -52,6 +52,12 @@ public:
     {
       Uin.at(iCell, IRhoG) = Uin.at(iCell, IRho);
     });
+    // Ghosts only contain contributions of local particles, that are sent to the owner by reduce_ghosts()
+    foreach_cell.foreach_ghost_cell( "ParticleUpdate_CIC_density::reset_ghosts", Uin.getShape(),
+      KOKKOS_LAMBDA( const ForeachCell::CellIndex& iCell )
+    {
+      Uin.at(iCell, IRhoG) = 0;
+    });
     
     foreach_particle.foreach_particle( "ParticleUpdate_CIC_density::projection", Ppos,
       KOKKOS_LAMBDA( const ForeachParticle::ParticleIndex& iPart )
-- 
2.43.0


From e1c3a51330431c32f2895b413d3ad4e1699ab101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:18 +0000
Subject: [PATCH 17/56] fix: RefineCondition_second_derivative_error never
 coarsened

---
 .../refine_condition/RefineCondition_second_derivative_error.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/refine_condition/RefineCondition_second_derivative_error.cpp b/core/src/refine_condition/RefineCondition_second_derivative_error.cpp
index 446e2b4..36836fa 100644
--- a/core/src/refine_condition/RefineCondition_second_derivative_error.cpp
+++ b/core/src/refine_condition/RefineCondition_second_derivative_error.cpp
@@ -117,6 +117,7 @@ public:
 
     uint32_t nbOcts = foreach_cell.get_amr_mesh().getNumOctants();
     Kokkos::View<int*> oct_marker_max("Oct_marker_max", nbOcts);
+    Kokkos::deep_copy(oct_marker_max, -1); // Coarsen unless one cell needs more
 
     const UserData::FieldAccessor Uin = Uin_.getAccessor( ConsState::getFieldsInfo() );
 
-- 
2.43.0


From e8a476387b71abf0f5417207c48f873d83825dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:53 +0000
Subject: [PATCH 18/56] fix: checkpoint of particle attributes was corrupt with
 several MPI processes

The attribute view has two dimensions and the distributed dimension has to be the last one:
the dataset was created with a different shape on each process.
---
 core/src/io/IOManager_checkpoint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/io/IOManager_checkpoint.cpp b/core/src/io/IOManager_checkpoint.cpp
index 64131d3..f192c5d 100644
--- a/core/src/io/IOManager_checkpoint.cpp
+++ b/core/src/io/IOManager_checkpoint.cpp
@@ -69,7 +69,7 @@ public:
         hdf5_file.collective_write( std::string("particles/")+particle_array+"/pos/y", Kokkos::subview( pos, Kokkos::ALL(), (int)IY ) );
         hdf5_file.collective_write( std::string("particles/")+particle_array+"/pos/z", Kokkos::subview( pos, Kokkos::ALL(), (int)IZ ) );
         for( const std::string& attr : U.getEnabledParticleAttributes( particle_array ) )
-          hdf5_file.collective_write( std::string("particles/")+particle_array+"/attributes/"+attr, U.getParticleAttribute(particle_array, attr).particle_data );
+          hdf5_file.collective_write( std::string("particles/")+particle_array+"/attributes/"+attr, Kokkos::subview( U.getParticleAttribute(particle_array, attr).particle_data, Kokkos::ALL(), 0 ) );
       }
 
       // Select subview containing local octants
-- 
2.43.0


From 707d8f41daaae9bcfe8bcb1d85cd83e1d3b0f0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:22 +0000
Subject: [PATCH 19/56] fix: particles were not on the process that owns their
 octant after a restart

---
 core/src/DyabloTimeLoop.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index 3c6a3fd..03fdc25 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -264,6 +264,8 @@ public:
             timers);
         initial_conditions->init( U );
       }     
+      // Initial conditions (e.g. restart) may create particles on any process
+      U.distributeAllParticles();
     } 
     timers.get("initial_conditions").stop();
 
-- 
2.43.0


From 5010b39c40b88f882a490b658a97dacfdd3d90ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:56 +0000
Subject: [PATCH 20/56] fix: null frequency in .ini (output, checkpoint, AMR,
 load balancing, log) divided by zero

---
 core/src/DyabloTimeLoop.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index 03fdc25..0c5a92d 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -47,7 +47,7 @@ public:
     : var(var),
       enabled( interval > 0 ),
       interval(interval),
-      last_trigger( std::floor(scalar_data.get<T>(var)/interval) * interval )
+      last_trigger( enabled ? std::floor(scalar_data.get<T>(var)/interval) * interval : 0 )
   {}
 
   bool trigger( const ScalarSimulationData& scalar_data )
@@ -626,7 +626,7 @@ public:
     // Log iteration    
     { // Todo make a logger
       int rank = m_communicator.MPI_Comm_rank();
-      if( m_scalar_data.get<int>("iter") % m_nlog == 0 )
+      if( m_nlog > 0 && m_scalar_data.get<int>("iter") % m_nlog == 0 )
       {
         if( rank == 0 )
           m_scalar_data.print();
-- 
2.43.0


From 337626e654dd3173a47cb9b0ef1db0f19fa97591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:46 +0000
Subject: [PATCH 21/56] fix: a run starting at or after its end (restart)
 advanced one step, with a negative dt past tEnd

---
 core/src/DyabloTimeLoop.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index 0c5a92d..d1c82be 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -517,7 +517,7 @@ public:
     // NOTE : mpirun catches SIGINT and forwards SIGTERM to child process
     // NOTE : scancel sends SIGTERM by default, you can use 'scancel -s INT'
     signal( SIGINT, interrupt_handler );
-    bool finished = false;
+    bool finished = m_iteration_handler->stop_criterion( m_scalar_data ); // e.g. restart of a finished simulation
     while( !finished )
     {
       step();      
-- 
2.43.0


From 2338deda88e22b7e20fc21bc3d81fdd038a77ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:23 +0000
Subject: [PATCH 22/56] fix: every run with GravitySolver_constant stopped at
 its first step (ghosts of gravity fields that do not exist)

---
 core/src/DyabloTimeLoop.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index d1c82be..fce7f00 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -692,9 +692,12 @@ public:
       gravity_solver->update_gravity_field(U, m_scalar_data);
 
       // Maybe put this only in CIC move since we don't need it for NGP
-      timers.get("MPI ghosts").start();
-      communicate_ghosts( {"gx", "gy", "gz"} );
-      timers.get("MPI ghosts").stop();
+      if( m_gravity_type & GRAVITY_FIELD ) // There is no field with GravitySolver_constant
+      {
+        timers.get("MPI ghosts").start();
+        communicate_ghosts( {"gx", "gy", "gz"} );
+        timers.get("MPI ghosts").stop();
+      }
 
       // Restore rho before projection (only if particle projection)
       if( particle_update_density )
-- 
2.43.0


From c288f970bf91b3b06fb8ddc978589476efe00497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:23 +0000
Subject: [PATCH 23/56] fix: HydroUpdate_legacy read stale ghost cells beyond
 the two exchanged, results depended on the number of processes

---
 core/src/DyabloTimeLoop.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index fce7f00..120970f 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -314,7 +314,7 @@ public:
       int hydro_ghost_count;      
       if( godunov_updater_id.find("oneneighbor") != std::string::npos )
         hydro_ghost_count = 2; // Could be 1 but other kernels may need 2
-      else if( godunov_updater_id.find("hancock") != std::string::npos )
+      else if( godunov_updater_id.find("hancock") != std::string::npos || godunov_updater_id.find("legacy") != std::string::npos )
         hydro_ghost_count = 4;
       else
         hydro_ghost_count = 2;
-- 
2.43.0


From d2679b95ef3d86d3cf7d3589ee81af50566c30df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 24/56] fix: end of run in aexp and CosmoManager ignored the
 cosmology used elsewhere (omegam/omegav vs omega_m/omega_v)

---
 core/src/Cosmo.h          | 17 +++++++++++++++--
 core/src/DyabloTimeLoop.h |  4 ++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/core/src/Cosmo.h b/core/src/Cosmo.h
index b4e5389..e816f5e 100644
--- a/core/src/Cosmo.h
+++ b/core/src/Cosmo.h
@@ -88,10 +88,23 @@ private:
   }
 
 public:
+  /// Cosmological parameters from .ini; default is the value used for initial conditions (omegam, omegav) if any
+  static real_t get_omega_m(ConfigMap &configMap)
+  {
+    real_t omega_m_default = configMap.hasValue("cosmology", "omegam") ? configMap.getValue<real_t>("cosmology", "omegam") : 0.3;
+    return configMap.getValue<real_t>("cosmology", "omega_m", omega_m_default);
+  }
+
+  static real_t get_omega_v(ConfigMap &configMap)
+  {
+    real_t omega_v_default = configMap.hasValue("cosmology", "omegav") ? configMap.getValue<real_t>("cosmology", "omegav") : 0.7;
+    return configMap.getValue<real_t>("cosmology", "omega_v", omega_v_default);
+  }
+
   CosmoManager(ConfigMap &configMap)
     : cosmo_run(configMap.getValue<bool>("cosmology", "active", false)),
-      omega_m(configMap.getValue<real_t>("cosmology",  "omega_m", 0.3)),
-      omega_v(configMap.getValue<real_t>("cosmology",  "omega_v", 0.7)),
+      omega_m(get_omega_m(configMap)),
+      omega_v(get_omega_v(configMap)),
       a_start(configMap.getValue<real_t>("cosmology",  "aStart",  1.0e-2)),
       a_end(configMap.getValue<real_t>("cosmology", "aEnd", 1.00)),
       da(configMap.getValue<real_t>("cosmology", "da", 1.02)),
diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index 120970f..50df231 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -126,8 +126,8 @@ public:
     if( t_end_var == "aexp" )
     {
       this->t_end_epsilon = 2e-8; // This is related to romberg precision in CosmoManager
-      this->omega_m = configMap.getValue<real_t>( "cosmology", "omegam" );
-      this->omega_v = configMap.getValue<real_t>( "cosmology", "omegav" );
+      this->omega_m = CosmoManager::get_omega_m( configMap );
+      this->omega_v = CosmoManager::get_omega_v( configMap );
     }
     else if( t_end_var != "time" ) 
       std::cout << "WARNING : can't correct dt to match t_end, possible overshoot. var=" << t_end_var << std::endl;
-- 
2.43.0


From 55034f4802502f43f366e21435e40d8e12aeffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:57 +0000
Subject: [PATCH 25/56] fix: aexp and z were one step late (outputs, slices,
 end of run: extra step with dt<=0) and wrong at restart

---
 core/src/DyabloTimeLoop.h | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index 50df231..e5ddc36 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -281,7 +281,6 @@ public:
     if( cosmo_manager->cosmo_run )
     {
       t0_default = cosmo_manager->expansionToTime( cosmo_manager->a_start );
-      m_scalar_data.set("aexp", cosmo_manager->a_start);
     }
 
     this->m_scalar_data.set("iter", m_iter_start);
@@ -289,6 +288,7 @@ public:
       real_t t0 = configMap.getValue<real_t>("run", "tStart", t0_default);
       this->m_scalar_data.set("time", t0);
     }
+    update_expansion_factor();
 
     this->m_loadbalance_coherent_levels = configMap.getValue<int>("amr", "loadbalance_coherent_levels", 3);
 
@@ -559,6 +559,20 @@ public:
 
   }
 
+  /**
+   * Update expansion factor and redshift after "time" has changed (cosmological runs)
+   **/
+  void update_expansion_factor()
+  {
+    if( cosmo_manager->cosmo_run )
+    {
+      real_t time = m_scalar_data.get<real_t>("time");
+      real_t aexp = cosmo_manager->timeToExpansion(time);
+      m_scalar_data.set("aexp", aexp);
+      m_scalar_data.set("z", 1.0/(aexp)-1.0);
+    }
+  }
+
   /**
    * Run one timestep of the simulation
    **/
@@ -596,14 +610,6 @@ public:
       timers.get("checkpoint").stop();
     }
 
-    if( cosmo_manager->cosmo_run )
-    {
-      real_t time = m_scalar_data.get<real_t>("time");
-      real_t aexp = cosmo_manager->timeToExpansion(time);
-      m_scalar_data.set("aexp", aexp);
-      m_scalar_data.set("z", 1.0/(aexp)-1.0);
-    }
-
     // Compute new dt
     {
       timers.get("dt").start();
@@ -749,6 +755,7 @@ public:
      
 
     m_iteration_handler->next_iter(m_scalar_data);
+    update_expansion_factor();
     
     if (m_gravity_type & GRAVITY_FIELD)
     {
-- 
2.43.0


From 93710e12c8e33eed21ff624b2cecacec91984e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:57 +0000
Subject: [PATCH 26/56] fix: expansion factor table was read out of bounds at
 its first entry and past its end

---
 core/src/Cosmo.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/Cosmo.h b/core/src/Cosmo.h
index e816f5e..895f5e0 100644
--- a/core/src/Cosmo.h
+++ b/core/src/Cosmo.h
@@ -14,7 +14,8 @@ namespace {
 real_t lookup_interpolate( const std::vector<real_t>& lookup_x, const std::vector<real_t>& lookup_y, real_t x )
   {
     auto lower_bound_it = std::lower_bound( lookup_x.begin(), lookup_x.end(), x );
-    int i = lower_bound_it - lookup_x.begin(); // First greater or equal
+    // First greater or equal (extrapolate from first/last interval outside of the table)
+    size_t i = std::clamp<size_t>( lower_bound_it - lookup_x.begin(), 1, lookup_x.size()-1 );
 
     real_t x_interp = ( x - lookup_x[i-1] ) / ( lookup_x[i] - lookup_x[i-1] );
     return lookup_y[i-1] + x_interp * ( lookup_y[i] - lookup_y[i-1]  );
@@ -62,7 +63,7 @@ real_t romberg(const Func& f, real_t a, real_t b, size_t max_steps, real_t acc)
     Rc = rt;
   }
 
-  std::cout << "WARNING : Romberg did not converge in " << max_steps << " iterations; Error = " << fabs(Rp[max_steps-1]-Rc[max_steps]) << std::endl;
+  std::cout << "WARNING : Romberg did not converge in " << max_steps << " iterations; Error = " << fabs(Rp[max_steps-1]-Rc[max_steps-2]) << std::endl;
   return Rp[max_steps-1]; // return our best guess
 }
   
-- 
2.43.0


From ff3aff925f06d9785af7ce4ccfbe95408b28ba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:03 +0000
Subject: [PATCH 27/56] fix: lines of .ini files longer than 199 characters
 were split, values truncated or comments read as values

---
 core/src/utils/config/inih/ini.cpp | 2 +-
 core/src/utils/config/inih/ini.h   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/utils/config/inih/ini.cpp b/core/src/utils/config/inih/ini.cpp
index 509952d..6463d5a 100644
--- a/core/src/utils/config/inih/ini.cpp
+++ b/core/src/utils/config/inih/ini.cpp
@@ -140,7 +140,7 @@ int ini_parse_stream(ini_reader reader, void* stream, ini_handler handler,
             max_line *= 2;
             if (max_line > INI_MAX_LINE)
                 max_line = INI_MAX_LINE;
-            new_line = ini_realloc(line, max_line);
+            new_line = (char*)ini_realloc(line, max_line);
             if (!new_line) {
                 ini_free(line);
                 return -2;
diff --git a/core/src/utils/config/inih/ini.h b/core/src/utils/config/inih/ini.h
index d1a2ba8..722df88 100644
--- a/core/src/utils/config/inih/ini.h
+++ b/core/src/utils/config/inih/ini.h
@@ -121,20 +121,20 @@ INI_API int ini_parse_string(const char* string, ini_handler handler, void* user
 
 /* Nonzero to use stack for line buffer, zero to use heap (malloc/free). */
 #ifndef INI_USE_STACK
-#define INI_USE_STACK 1
+#define INI_USE_STACK 0
 #endif
 
 /* Maximum line length for any line in INI file (stack or heap). Note that
    this must be 3 more than the longest line (due to '\r', '\n', and '\0'). */
 #ifndef INI_MAX_LINE
-#define INI_MAX_LINE 200
+#define INI_MAX_LINE 16777216
 #endif
 
 /* Nonzero to allow heap line buffer to grow via realloc(), zero for a
    fixed-size buffer of INI_MAX_LINE bytes. Only applies if INI_USE_STACK is
    zero. */
 #ifndef INI_ALLOW_REALLOC
-#define INI_ALLOW_REALLOC 0
+#define INI_ALLOW_REALLOC 1
 #endif
 
 /* Initial size in bytes for heap line buffer. Only applies if INI_USE_STACK
-- 
2.43.0


From 64fa8ab7d9733e8afe29f55b45b063735d7f5e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:03 +0000
Subject: [PATCH 28/56] fix: negative values of unsigned parameters were
 silently wrapped to huge values

---
 core/src/utils/config/ConfigMap.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/utils/config/ConfigMap.h b/core/src/utils/config/ConfigMap.h
index fa1d8e7..af40ba4 100644
--- a/core/src/utils/config/ConfigMap.h
+++ b/core/src/utils/config/ConfigMap.h
@@ -75,6 +75,10 @@ struct convert_to_t
       // Default : use std::ostringstream::operator<< to parse string. 
       // throws std::runtime_error if there is a parsing error (either << fails or stream contains too many tokens) 
 
+      // operator>> wraps negative values to large unsigned integers instead of failing
+      if constexpr ( std::is_unsigned_v<T> )
+        DYABLO_ASSERT_HOST_RELEASE( str.find('-') == std::string::npos, "Negative value for an unsigned parameter. Input : `" << str << "`" );
+
       std::istringstream value_stream( str );
       T res;
       value_stream >> res;
-- 
2.43.0


From 6d2d92bce5153ec4610156ef3f2a9a06840df294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 29/56] fix: in 2D the distance to the point mass included the
 distance along z (0.5 by default)

---
 core/src/gravity/GravitySolver_point_mass.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/gravity/GravitySolver_point_mass.cpp b/core/src/gravity/GravitySolver_point_mass.cpp
index cc88f35..9e16cff 100644
--- a/core/src/gravity/GravitySolver_point_mass.cpp
+++ b/core/src/gravity/GravitySolver_point_mass.cpp
@@ -16,6 +16,8 @@ private:
   real_t point_mass_Gmass;
   // Gravitational softening, to avoid divergence of the gravitational force.
   real_t softening;                                
+  // Number of dimensions : there is no distance along z in 2D
+  int ndim;
 
 
 public:
@@ -24,7 +26,8 @@ public:
     point_mass_y( configMap.getValue<real_t>("gravity", "point_mass_y",  0.5) ),
     point_mass_z( configMap.getValue<real_t>("gravity", "point_mass_z",  0.5) ),
     point_mass_Gmass( configMap.getValue<real_t>("gravity", "point_mass_Gmass", 1) ),
-    softening( configMap.getValue<real_t>("gravity", "softening",  0.005) )
+    softening( configMap.getValue<real_t>("gravity", "softening",  0.005) ),
+    ndim( configMap.getValue<int>("mesh", "ndim", 3) )
   {}
 
   KOKKOS_INLINE_FUNCTION
@@ -33,7 +36,7 @@ public:
     // Centered coordinates
     real_t rx = x - point_mass_x;
     real_t ry = y - point_mass_y;
-    real_t rz = z - point_mass_z;
+    real_t rz = (ndim==3) ? z - point_mass_z : 0;
 
     // Square radius from central object (softened)
     real_t r2 = rx*rx + ry*ry + rz*rz + softening*softening;
-- 
2.43.0


From 039c1a6b14c70a25a2b5bda4a58b9b7ad13bf9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 30/56] fix: GravitySolver_cg never stopped or returned NaN
 when density is uniform

---
 core/src/gravity/GravitySolver_cg.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/core/src/gravity/GravitySolver_cg.cpp b/core/src/gravity/GravitySolver_cg.cpp
index ac0bddd..8d0aa29 100644
--- a/core/src/gravity/GravitySolver_cg.cpp
+++ b/core/src/gravity/GravitySolver_cg.cpp
@@ -275,9 +275,9 @@ void GravitySolver_cg::update_gravity_field( UserData& U, ScalarSimulationData&
   real_t four_Pi_G = pdata->four_Pi_G;  
 
   // Compute initial residual
-  real_t R=0, B=0, r_dot_z=0;
+  real_t R=0, B=0, r_dot_z=0, B_ref=0;
   foreach_cell.reduce_cell( "Gravity_cg::init_gc", CGdata, 
-    KOKKOS_LAMBDA(const CellIndex& iCell_CGdata, real_t& update_r, real_t& update_b, real_t& update_r_dot_z )
+    KOKKOS_LAMBDA(const CellIndex& iCell_CGdata, real_t& update_r, real_t& update_b, real_t& update_r_dot_z, real_t& update_b_ref )
   {
     // Get gravity potential from last iteration as approximate solution
     CGdata.at(iCell_CGdata, CG_PHI) = Uin.at(iCell_CGdata, IGPHI);
@@ -296,16 +296,26 @@ void GravitySolver_cg::update_gravity_field( UserData& U, ScalarSimulationData&
     update_r += r*r ;
     update_b += bi*bi ;
     update_r_dot_z += r*z;
-  }, R, B, r_dot_z );  
+    // Same as bi without subtracting the mean density
+    real_t bi_ref = cosmo_run ? b_cosmo(Uin, iCell_CGdata, rho_mean, aexp, cell_size) - 6.0*aexp*cell_size[IX]*cell_size[IY]*cell_size[IZ]
+                              : b(Uin, iCell_CGdata, 0, four_Pi_G, cell_size);
+    update_b_ref += bi_ref*bi_ref;
+  }, R, B, r_dot_z, B_ref );  
   R = MPI_Allreduce_scalar(R);
   B = MPI_Allreduce_scalar(B);
   r_dot_z = MPI_Allreduce_scalar(r_dot_z);
+  B_ref = MPI_Allreduce_scalar(B_ref);
+
+  // When density is uniform the right-hand side is zero or only contains rounding errors : 
+  // A*phi=b has no solution in a periodic domain and relative residual R/B is meaningless
+  constexpr real_t rounding_eps = 1E-12;
+  real_t R_rounding = rounding_eps*rounding_eps*B_ref;
   
   if(pdata->print_cg_iter)
     std::cout << "GC : " << R << "...";
   // Conjugate gradient iteration
   int it=0;
-  while( R/B > eps*eps )
+  while( R > eps*eps*B && R > R_rounding )
   {
     it++;
     // Communicate ghosts for CG_IP
-- 
2.43.0


From 6862eed9b7bcb0ea379250802b5b9bee9c56b5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:47 +0000
Subject: [PATCH 31/56] fix: GravitySolver_cg applied the boundary conditions
 of the min sides to the max sides

---
 core/src/gravity/GravitySolver_cg.cpp | 31 +++++++++++++++++----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/core/src/gravity/GravitySolver_cg.cpp b/core/src/gravity/GravitySolver_cg.cpp
index 8d0aa29..2ecbe52 100644
--- a/core/src/gravity/GravitySolver_cg.cpp
+++ b/core/src/gravity/GravitySolver_cg.cpp
@@ -7,6 +7,12 @@
 
 namespace dyablo { 
 
+namespace {
+/// Boundary conditions for the min and max sides in each direction : bc[dir][0] for min and bc[dir][1] for max
+using BoundaryConditions_dir_t = Kokkos::Array< BoundaryConditionType, 2 >;
+using BoundaryConditions_t = Kokkos::Array< BoundaryConditions_dir_t, 3 >;
+} // namespace
+
 /**
  * @brief Structure storing all the necessary information for the 
  * resolution of the conjugate gradient
@@ -19,7 +25,7 @@ struct GravitySolver_cg::Data{
   real_t xmin, ymin, zmin;
   real_t xmax, ymax, zmax;
 
-  Kokkos::Array<BoundaryConditionType, 3> boundarycondition;
+  BoundaryConditions_t boundarycondition;
 
   bool cosmo_run;
   real_t four_Pi_G;
@@ -42,9 +48,12 @@ GravitySolver_cg::GravitySolver_cg(
       configMap.getValue<real_t>("mesh", "ymax", 1.0),
       configMap.getValue<real_t>("mesh", "zmax", 1.0),
       {
-        configMap.getValue<BoundaryConditionType>("mesh","boundary_type_xmin", BC_ABSORBING),
-        configMap.getValue<BoundaryConditionType>("mesh","boundary_type_ymin", BC_ABSORBING),
-        configMap.getValue<BoundaryConditionType>("mesh","boundary_type_zmin", BC_ABSORBING)
+        BoundaryConditions_dir_t{configMap.getValue<BoundaryConditionType>("mesh","boundary_type_xmin", BC_ABSORBING),
+                                 configMap.getValue<BoundaryConditionType>("mesh","boundary_type_xmax", BC_ABSORBING)},
+        BoundaryConditions_dir_t{configMap.getValue<BoundaryConditionType>("mesh","boundary_type_ymin", BC_ABSORBING),
+                                 configMap.getValue<BoundaryConditionType>("mesh","boundary_type_ymax", BC_ABSORBING)},
+        BoundaryConditions_dir_t{configMap.getValue<BoundaryConditionType>("mesh","boundary_type_zmin", BC_ABSORBING),
+                                 configMap.getValue<BoundaryConditionType>("mesh","boundary_type_zmax", BC_ABSORBING)}
       },
       configMap.getValue<bool>("cosmology", "active", false),
       -1.0, // gravity_constant 4*Pi*G, defined later
@@ -132,7 +141,7 @@ real_t get_value(const Array_t& U, const CellIndex& iCell_U, VarIndex var, const
  */
 template< typename Array_t >
 KOKKOS_INLINE_FUNCTION
-real_t matprod(const Array_t& GCdata, const CellIndex& iCell_CGdata, VarIndex var, real_t dx, real_t dy, real_t dz, const Kokkos::Array<BoundaryConditionType, 3>& boundarycondition)
+real_t matprod(const Array_t& GCdata, const CellIndex& iCell_CGdata, VarIndex var, real_t dx, real_t dy, real_t dz, const BoundaryConditions_t& boundarycondition)
 {
   //constexpr int ndim = 3;
 
@@ -157,8 +166,8 @@ real_t matprod(const Array_t& GCdata, const CellIndex& iCell_CGdata, VarIndex va
     real_t dvar_L = S*( GCdata.at(iCell_CGdata, var) - get_value( GCdata, iCell_L, var, off_L ) )/hl;
     real_t dvar_R = S*( get_value( GCdata, iCell_R, var, off_R ) - GCdata.at(iCell_CGdata, var) )/hr;
     
-    if( boundarycondition[dir] == BC_ABSORBING && iCell_L.is_boundary() ) dvar_L = 0;
-    if( boundarycondition[dir] == BC_ABSORBING && iCell_R.is_boundary() ) dvar_R = 0;
+    if( boundarycondition[dir][0] == BC_ABSORBING && iCell_L.is_boundary() ) dvar_L = 0;
+    if( boundarycondition[dir][1] == BC_ABSORBING && iCell_R.is_boundary() ) dvar_R = 0;
     
     res += (dvar_R - dvar_L);
   }
@@ -178,7 +187,7 @@ real_t matprod(const Array_t& GCdata, const CellIndex& iCell_CGdata, VarIndex va
  * @return the value of A_ii with i being the value of iCell_CGdata
  */
 KOKKOS_INLINE_FUNCTION
-real_t Aii(const UserData::FieldAccessor& GCdata, const CellIndex& iCell_CGdata, real_t dx, real_t dy, real_t dz, const Kokkos::Array<BoundaryConditionType, 3>& boundarycondition)
+real_t Aii(const UserData::FieldAccessor& GCdata, const CellIndex& iCell_CGdata, real_t dx, real_t dy, real_t dz, const BoundaryConditions_t& boundarycondition)
 {
   return (dx*dy*dz)*(2/(dx*dx)+2/(dy*dy)+2/(dz*dz));
 }
@@ -240,7 +249,7 @@ void GravitySolver_cg::update_gravity_field( UserData& U, ScalarSimulationData&
   ForeachCell& foreach_cell = pdata->foreach_cell;
   real_t xmin = pdata->xmin, ymin = pdata->ymin, zmin = pdata->zmin;
   real_t xmax = pdata->xmax, ymax = pdata->ymax, zmax = pdata->zmax;
-  Kokkos::Array<BoundaryConditionType, 3> boundarycondition = pdata->boundarycondition;
+  BoundaryConditions_t boundarycondition = pdata->boundarycondition;
   int ghost_count = 1; 
   GhostCommunicator ghost_comm(foreach_cell.get_amr_mesh(), U.getShape(), ghost_count );
 
@@ -415,8 +424,8 @@ void GravitySolver_cg::update_gravity_field( UserData& U, ScalarSimulationData&
       real_t dphi_L = (phi_L - phi_C)/hl;
       real_t dphi_R = (phi_C - phi_R)/hr;
 
-      if( boundarycondition[dir] == BC_ABSORBING && iCell_L.is_boundary() ) dphi_L = 0;
-      if( boundarycondition[dir] == BC_ABSORBING && iCell_R.is_boundary() ) dphi_R = 0;
+      if( boundarycondition[dir][0] == BC_ABSORBING && iCell_L.is_boundary() ) dphi_L = 0;
+      if( boundarycondition[dir][1] == BC_ABSORBING && iCell_R.is_boundary() ) dphi_R = 0;
 
       Kokkos::Array< VarIndex, 3 > IG = {IGX, IGY, IGZ};
 
-- 
2.43.0


From 61ec845642354850a8993ed435bc321d2ec56b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:33 +0000
Subject: [PATCH 32/56] fix: blast initial conditions ignore [blast]
 center_x/y/z

---
 core/src/init/InitialConditions_MHD_blast.cpp | 6 +++---
 core/src/init/InitialConditions_blast.cpp     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/src/init/InitialConditions_MHD_blast.cpp b/core/src/init/InitialConditions_MHD_blast.cpp
index cd51f6b..21cd6e4 100644
--- a/core/src/init/InitialConditions_MHD_blast.cpp
+++ b/core/src/init/InitialConditions_MHD_blast.cpp
@@ -83,9 +83,9 @@ struct AnalyticalFormula_MHD_blast : public AnalyticalFormula_base{
         int qiy = (int)(y / qsy);
         int qiz = (int)(z / qsz);
         // Quadrant physical center
-        real_t qcx = (qix+0.5)*qsx;
-        real_t qcy = (qiy+0.5)*qsy;
-        real_t qcz = (qiz+0.5)*qsz;
+        real_t qcx = (qix+this->blast_center_x)*qsx;
+        real_t qcy = (qiy+this->blast_center_y)*qsy;
+        real_t qcz = (qiz+this->blast_center_z)*qsz;
 
         const real_t Bx = blast_B * cos(blast_B_angle);
         const real_t By = blast_B * sin(blast_B_angle);
diff --git a/core/src/init/InitialConditions_blast.cpp b/core/src/init/InitialConditions_blast.cpp
index 23d7a93..dd8ee54 100644
--- a/core/src/init/InitialConditions_blast.cpp
+++ b/core/src/init/InitialConditions_blast.cpp
@@ -113,9 +113,9 @@ struct AnalyticalFormula_blast : public AnalyticalFormula_base{
         int qiy = (int)(y / qsy);
         int qiz = (int)(z / qsz);
         // Quadrant physical center
-        real_t qcx = (qix+0.5)*qsx;
-        real_t qcy = (qiy+0.5)*qsy;
-        real_t qcz = (qiz+0.5)*qsz;
+        real_t qcx = (qix+this->blast_center_x)*qsx;
+        real_t qcy = (qiy+this->blast_center_y)*qsy;
+        real_t qcz = (qiz+this->blast_center_z)*qsz;
 
         real_t r2 = (x-qcx)*(x-qcx) + (y-qcy)*(y-qcy);
         if( this->ndim == 3 ) r2 += (z-qcz)*(z-qcz);
-- 
2.43.0


From cf7ae38d12d57afa8f64c9931042194191c74b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:33 +0000
Subject: [PATCH 33/56] fix: random perturbations ignore the seed on the first
 process

---
 core/src/init/InitialConditions_rayleigh_taylor.cpp    | 2 +-
 core/src/init/wholesun/InitialConditions_C91.cpp       | 2 +-
 core/src/init/wholesun/InitialConditions_tri_layer.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/init/InitialConditions_rayleigh_taylor.cpp b/core/src/init/InitialConditions_rayleigh_taylor.cpp
index 9554bdc..cd971b4 100644
--- a/core/src/init/InitialConditions_rayleigh_taylor.cpp
+++ b/core/src/init/InitialConditions_rayleigh_taylor.cpp
@@ -49,7 +49,7 @@ struct AnalyticalFormula_RayleighTaylor : public AnalyticalFormula_base{
     amplitude(configMap.getValue<real_t>("RT", "amplitude", 1.0e-2)),
     multi_mode(configMap.getValue<bool>("RT", "multi_mode", false)),
     seed(configMap.getValue<int>("RT", "seed", 12345)),
-    rand_pool(seed*GlobalMpiSession::get_comm_world().MPI_Comm_rank()+1)
+    rand_pool(seed+GlobalMpiSession::get_comm_world().MPI_Comm_rank())
   {
 
     gz = (ndim == 2 ? configMap.getValue<real_t>("gravity", "gy", -0.1)
diff --git a/core/src/init/wholesun/InitialConditions_C91.cpp b/core/src/init/wholesun/InitialConditions_C91.cpp
index cf0f688..60b866b 100644
--- a/core/src/init/wholesun/InitialConditions_C91.cpp
+++ b/core/src/init/wholesun/InitialConditions_C91.cpp
@@ -48,7 +48,7 @@ struct AnalyticalFormula_C91 : public AnalyticalFormula_base{
     m(configMap.getValue<real_t>("C91", "mpoly", 1.0)),
     rho0(configMap.getValue<real_t>("C91", "rho0", 10.0)),
     T0(configMap.getValue<real_t>("C91", "T0", 10.0)),
-    rand_pool(seed*GlobalMpiSession::get_comm_world().MPI_Comm_rank()+1)
+    rand_pool(seed+GlobalMpiSession::get_comm_world().MPI_Comm_rank())
   {
   }
 
diff --git a/core/src/init/wholesun/InitialConditions_tri_layer.cpp b/core/src/init/wholesun/InitialConditions_tri_layer.cpp
index 064ade8..cb180e6 100644
--- a/core/src/init/wholesun/InitialConditions_tri_layer.cpp
+++ b/core/src/init/wholesun/InitialConditions_tri_layer.cpp
@@ -54,7 +54,7 @@ struct AnalyticalFormula_tri_layer : public AnalyticalFormula_base{
     rho0(configMap.getValue<real_t>("tri_layer", "rho0", 10.0)),
     T0(configMap.getValue<real_t>("tri_layer", "T0", 10.0)),
     perturbation(configMap.getValue<real_t>("tri_layer", "perturbation", 1.0e-3)),
-    rand_pool(seed*GlobalMpiSession::get_comm_world().MPI_Comm_rank()+1)
+    rand_pool(seed+GlobalMpiSession::get_comm_world().MPI_Comm_rank())
 
   {
   }
-- 
2.43.0


From e5ab253a5929ac3dff4d0ad3aa2bf41574b9e733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:34 +0000
Subject: [PATCH 34/56] fix: [KH] A and a are the same option for the
 case-insensitive ConfigMap

---
 core/src/init/InitialConditions_kelvin_helmholtz.cpp | 2 +-
 settings/hydro/block-based/kelvin_helmholtz.ini      | 2 +-
 settings/hydro/cell-based/kelvin_helmholtz_2D.ini    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/init/InitialConditions_kelvin_helmholtz.cpp b/core/src/init/InitialConditions_kelvin_helmholtz.cpp
index 0cd39b1..25e7cf3 100644
--- a/core/src/init/InitialConditions_kelvin_helmholtz.cpp
+++ b/core/src/init/InitialConditions_kelvin_helmholtz.cpp
@@ -40,7 +40,7 @@ struct AnalyticalFormula_KelvinHelmholtz : public AnalyticalFormula_base{
     z1(configMap.getValue<real_t>("KH", "z1", 0.5)),
     z2(configMap.getValue<real_t>("KH", "z2", 1.5)),
     a(configMap.getValue<real_t>("KH", "a", 0.05)),
-    A(configMap.getValue<real_t>("KH", "A", 0.01)),
+    A(configMap.getValue<real_t>("KH", "amplitude", 0.01)),
     sigma(configMap.getValue<real_t>("KH", "sigma", 0.2)),
     P0(configMap.getValue<real_t>("KH", "P0", 1.0)),
     uflow(configMap.getValue<real_t>("KH", "uflow", 1.0))
diff --git a/settings/hydro/block-based/kelvin_helmholtz.ini b/settings/hydro/block-based/kelvin_helmholtz.ini
index 4a850e9..3207e6e 100644
--- a/settings/hydro/block-based/kelvin_helmholtz.ini
+++ b/settings/hydro/block-based/kelvin_helmholtz.ini
@@ -52,7 +52,7 @@ rho_fac=1.0
 z1=0.5
 z2=1.5
 a=0.05
-A=0.01
+amplitude=0.01
 sigma=0.2
 P0=10.0
 uflow=1.0
diff --git a/settings/hydro/cell-based/kelvin_helmholtz_2D.ini b/settings/hydro/cell-based/kelvin_helmholtz_2D.ini
index 1a6b67c..65aa005 100644
--- a/settings/hydro/cell-based/kelvin_helmholtz_2D.ini
+++ b/settings/hydro/cell-based/kelvin_helmholtz_2D.ini
@@ -53,7 +53,7 @@ rho_fac=1.0
 z1=0.5
 z2=1.5
 a=0.05
-A=0.01
+amplitude=0.01
 sigma=0.2
 P0=10.0
 uflow=1.0
-- 
2.43.0


From 9af85c65b365e595d0b67c4a4f66bca9ffc0c575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:34 +0000
Subject: [PATCH 35/56] fix: simple_particles reads or writes out of bounds
 when npart is not the number of values

---
 core/src/init/InitialConditions_simple_particles.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/init/InitialConditions_simple_particles.cpp b/core/src/init/InitialConditions_simple_particles.cpp
index fe92b2f..cd56794 100644
--- a/core/src/init/InitialConditions_simple_particles.cpp
+++ b/core/src/init/InitialConditions_simple_particles.cpp
@@ -30,7 +30,7 @@ public:
     auto parse_array = [&](const Kokkos::View<double*>& a, const std::string& var)
     {
       std::vector<double> values = configMap.getValue< std::vector<double> >("simple_particles", var, {});
-      int nb_values = std::max((int)values.size(),npart); // Select at most npart values from .ini
+      int nb_values = std::min((int)values.size(),npart); // Select at most npart values from .ini
 
       // Create unmanaged view to copy vector
       using UnmanagedHostView = Kokkos::View<double*, Kokkos::HostSpace, Kokkos::MemoryTraits<Kokkos::Unmanaged> >;
-- 
2.43.0


From 1f564e1a7279e26ad9c53ea89ff1147591c2c0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:34 +0000
Subject: [PATCH 36/56] fix: 32-bit overflow of the number of particles in
 particle_grid

---
 core/src/init/InitialConditions_particle_grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/init/InitialConditions_particle_grid.cpp b/core/src/init/InitialConditions_particle_grid.cpp
index 81ef377..5108626 100644
--- a/core/src/init/InitialConditions_particle_grid.cpp
+++ b/core/src/init/InitialConditions_particle_grid.cpp
@@ -110,7 +110,7 @@ public:
     uint32_t nx = this->nx;
     uint32_t ny = this->ny;
     uint32_t nz = this->nz;
-    uint64_t nbpart_global = nx*ny*nz;
+    uint64_t nbpart_global = (uint64_t)nx*ny*nz;
     uint64_t ipart_global_begin = nbpart_global*mpi_rank/mpi_size;
     uint64_t ipart_global_end = nbpart_global*(mpi_rank+1)/mpi_size;
     uint32_t nbpart_local = ipart_global_end-ipart_global_begin;
-- 
2.43.0


From 83f54e12cb76591d73c37f3b38c8b8b0715a11de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:33 +0000
Subject: [PATCH 37/56] fix: header of byte-swapped grafic files is reversed as
 a whole

---
 core/src/init/InitialConditions_grafic_fields.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/src/init/InitialConditions_grafic_fields.cpp b/core/src/init/InitialConditions_grafic_fields.cpp
index 910fa7d..a05b48e 100644
--- a/core/src/init/InitialConditions_grafic_fields.cpp
+++ b/core/src/init/InitialConditions_grafic_fields.cpp
@@ -17,6 +17,13 @@ class InitialConditions_grafic_fields : public InitialConditions
     float om,ov,H0;
   };
 
+  /// Read header word by word : byte swapping applies to each member, not to the whole struct
+  static void read_header( std::istream& file, grafic_header& header )
+  {
+    static_assert( sizeof(grafic_header) == 11*sizeof(int32_t) );
+    FortranBinaryReader::read_record( file, reinterpret_cast<int32_t*>(&header), 11 );
+  }
+
 public:
   InitialConditions_grafic_fields(
         ConfigMap& configMap, 
@@ -43,7 +50,7 @@ public:
     std::string grafic_filename = this->graficDir + "/ic_deltab";
     std::ifstream grafic_file(grafic_filename , std::ios::in|std::ios::binary );
     DYABLO_ASSERT_HOST_RELEASE(grafic_file, "Could not open grafic file : `" + grafic_filename + "`");
-    FortranBinaryReader::read_record( grafic_file, &header, 1 );
+    read_header( grafic_file, header );
 
     printHeader(header, graficDir);
 
@@ -114,7 +121,7 @@ public:
       std::string grafic_filename = this->graficDir + "/ic_deltab";
       std::ifstream grafic_file(grafic_filename , std::ios::in|std::ios::binary );
       DYABLO_ASSERT_HOST_RELEASE(grafic_file, "Could not open grafic file : `" + grafic_filename + "`");
-      FortranBinaryReader::read_record( grafic_file, &header, 1 );
+      read_header( grafic_file, header );
     }
 
     int32_t nx = header.nx;
@@ -137,7 +144,7 @@ public:
         DYABLO_ASSERT_HOST_RELEASE(grafic_file, "Could not open grafic file : `" + grafic_filename + "`");
         // Read header from grafic file
         grafic_header header;
-        FortranBinaryReader::read_record( grafic_file, &header, 1 );
+        read_header( grafic_file, header );
         // Read array from grafic file
         auto grafic_field_host = Kokkos::create_mirror_view( grafic_field_device );
         for(uint32_t z=0; z<(uint32_t)nz; z++)
-- 
2.43.0


From 96c7b2bba8d77dd172fb747070e00d4514a894eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:33 +0000
Subject: [PATCH 38/56] fix: truncated fortran files are silently accepted

---
 core/src/utils/io/FortranBinaryReader.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/utils/io/FortranBinaryReader.h b/core/src/utils/io/FortranBinaryReader.h
index 7a98653..32ea901 100644
--- a/core/src/utils/io/FortranBinaryReader.h
+++ b/core/src/utils/io/FortranBinaryReader.h
@@ -39,6 +39,7 @@ public:
     // Fortran files write tags at beginning and end of writes containing the number for bytes written
     RecordTag_t begin_tag;
     istr.read((char*)&begin_tag, sizeof(RecordTag_t));
+    DYABLO_ASSERT_HOST_RELEASE( istr, "Could not read fortran record : unexpected end of file" );
     
     {
       RecordTag_t record_size = _byteswap ? endian_swap(begin_tag) : begin_tag;
@@ -63,6 +64,7 @@ public:
 
     RecordTag_t end_tag;
     istr.read((char*)&end_tag, sizeof(RecordTag_t));
+    DYABLO_ASSERT_HOST_RELEASE( istr, "Could not read fortran record : unexpected end of file" );
     // Tags are not swapped to match endianness but should still match
     DYABLO_ASSERT_HOST_RELEASE( begin_tag == end_tag, 
           "Fortran record end tag doesn't match begin tag.\n"
-- 
2.43.0


From e6e9e37eb0f2fd096d60cc22f95baebac8713357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:18 +0000
Subject: [PATCH 39/56] fix: 2D viscous fluxes are multiplied by the cell size
 along z

The face areas included size[IZ] in 2D although the volume they are divided by
does not : the effective viscosity depended on zmax-zmin and on the AMR level.
---
 core/src/parabolic/ParabolicTerm_viscosity.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/parabolic/ParabolicTerm_viscosity.h b/core/src/parabolic/ParabolicTerm_viscosity.h
index 76bec7f..22f7968 100644
--- a/core/src/parabolic/ParabolicTerm_viscosity.h
+++ b/core/src/parabolic/ParabolicTerm_viscosity.h
@@ -136,7 +136,7 @@ public:
 
         // Building flux
         real_t sign = (side == 0 ? -1.0 : 1.0);
-        real_t area = size[IY] * size[IZ];
+        real_t area = size[IY] * (ndim == 3 ? size[IZ] : 1.0);
         vf.rho_u += sign * area * tau_xx;
         vf.rho_v += sign * area * tau_xy;
         vf.rho_w += sign * area * tau_xz;
@@ -176,7 +176,7 @@ public:
 
         // Building flux
         real_t sign = (side == 0 ? -1.0 : 1.0);
-        real_t area = size[IX] * size[IZ];
+        real_t area = size[IX] * (ndim == 3 ? size[IZ] : 1.0);
         vf.rho_u += sign * area * tau_xy;
         vf.rho_v += sign * area * tau_yy;
         vf.rho_w += sign * area * tau_yz;
-- 
2.43.0


From 6001572b6fb1fbb8310d81cf38812cd90d443407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:31 +0000
Subject: [PATCH 40/56] fix: thermal conductivity is evaluated at the wrong
 position next to bigger or periodic neighbors

With an analytical kappa, the conductivity of the neighbor was evaluated at the center of
the (same-size) ghost cell instead of the center of the neighbor cell : the flux seen from
both sides of a coarse/fine interface or a periodic boundary was different, and the total energy was not conserved.
---
 core/src/parabolic/ParabolicTerm_thermal_conduction.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/parabolic/ParabolicTerm_thermal_conduction.h b/core/src/parabolic/ParabolicTerm_thermal_conduction.h
index 5726590..040158e 100644
--- a/core/src/parabolic/ParabolicTerm_thermal_conduction.h
+++ b/core/src/parabolic/ParabolicTerm_thermal_conduction.h
@@ -172,7 +172,7 @@ public:
       // LEFT :
       // Only one neighbor
       if (ldiff_L >= 0) {
-        auto pos = cellmetadata.getCellCenter(iCell_Ugroup + offsetm);
+        auto pos = cellmetadata.getCellCenter(iiL.is_boundary() ? iCell_Ugroup + offsetm : iiL);
         auto kappa = 0.5 * (kappaC + compute_kappa<ndim>(pos));
 
         PrimHydroState qL; 
@@ -205,7 +205,7 @@ public:
       // RIGHT :
       // Only one neighbor
       if (ldiff_R >= 0) {
-        auto pos = cellmetadata.getCellCenter(iCell_Ugroup + offsetp);
+        auto pos = cellmetadata.getCellCenter(iiR.is_boundary() ? iCell_Ugroup + offsetp : iiR);
         auto kappa = 0.5 * (kappaC + compute_kappa<ndim>(pos));
 
         PrimHydroState qR;
-- 
2.43.0


From 1ff6d501b2cf512ea24917982c6c96054d457403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:41 +0000
Subject: [PATCH 41/56] fix: AMRmesh::getBound() ignores the periodicity and is
 always true in 2D

In 2D the position along z is always 0, and periodic neighbors are documented as not
outside of the domain.
---
 core/src/amr/AMRmesh_hashmap_new.h | 9 ++++++++-
 core/src/amr/LightOctree_storage.h | 5 +++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/core/src/amr/AMRmesh_hashmap_new.h b/core/src/amr/AMRmesh_hashmap_new.h
index 6ee6fe5..f45eb98 100644
--- a/core/src/amr/AMRmesh_hashmap_new.h
+++ b/core/src/amr/AMRmesh_hashmap_new.h
@@ -69,7 +69,14 @@ public:
   { return first_local_oct + idx; }
 
   bool getBound( oct_index_t idx ) const
-  { return storage.getBound( {idx, false} ); }
+  {
+    auto pos = storage.get_logical_coords( {idx, false} );
+    auto level = storage.getLevel( {idx, false} );
+    for( int dir=0; dir<getDim(); dir++ )
+      if( !periodic[dir] && ( pos[dir] == 0 || pos[dir] == storage.cell_count( (ComponentIndex3D)dir, level )-1 ) )
+        return true;
+    return false;
+  }
 
   array_t<real_t, 3> getCenter( uint32_t idx ) const
   { 
diff --git a/core/src/amr/LightOctree_storage.h b/core/src/amr/LightOctree_storage.h
index b2c7e8e..5200501 100644
--- a/core/src/amr/LightOctree_storage.h
+++ b/core/src/amr/LightOctree_storage.h
@@ -191,8 +191,9 @@ public:
     logical_coord_t last_oct_y = cell_count(IY, level)-1;
     logical_coord_t last_oct_z = cell_count(IZ, level)-1;
 
-    return lp[IX] == 0 || lp[IY] == 0 || lp[IZ] == 0 
-        || lp[IX] == last_oct_x || lp[IY] == last_oct_y || lp[IZ] == last_oct_z;
+    return lp[IX] == 0 || lp[IY] == 0
+        || lp[IX] == last_oct_x || lp[IY] == last_oct_y
+        || ( getNdim() == 3 && ( lp[IZ] == 0 || lp[IZ] == last_oct_z ) );
   }
   //! @copydoc LightOctree_base::getSize()
   KOKKOS_INLINE_FUNCTION 
-- 
2.43.0


From 1d98f83fd3ef0e5239449dd27db1653822e048ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:33 +0000
Subject: [PATCH 42/56] fix: HydroUpdate_legacy divides by zero on processes
 without octants

---
 core/src/hydro/HydroUpdate_legacy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/hydro/HydroUpdate_legacy.cpp b/core/src/hydro/HydroUpdate_legacy.cpp
index 1c2f529..1f25a13 100644
--- a/core/src/hydro/HydroUpdate_legacy.cpp
+++ b/core/src/hydro/HydroUpdate_legacy.cpp
@@ -53,6 +53,10 @@ void HydroUpdate_legacy::update( UserData& U_, ScalarSimulationData& scalar_data
   ForeachCell& foreach_cell = pdata->foreach_cell;
   const LightOctree& lmesh = foreach_cell.get_amr_mesh().getLightOctree();
 
+  // This process may have no octants
+  if( lmesh.getNumOctants() == 0 )
+    return;
+
   uint32_t nbOctsPerGroup = std::min( 
       lmesh.getNumOctants(), 
       pdata->nbOctsPerGroup
-- 
2.43.0


From 71f6f12f714af93600adde8df841f8bf651dcae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:09 +0000
Subject: [PATCH 43/56] fix: HydroUpdate_legacy applies the gravity field of
 another cell in 2D

The non-ghosted cell index was used in the ghosted group array for gx and gy.
---
 core/src/legacy/MusclBlockGodunovUpdateFunctor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/legacy/MusclBlockGodunovUpdateFunctor.h b/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
index f8f10eb..de36199 100644
--- a/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
+++ b/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
@@ -765,8 +765,8 @@ public:
     real_t gx, gy, gz;
     if (params.gravity_type & GRAVITY_FIELD)
     {
-      gx = Ugroup(index, fm[IGX], iOct_g);
-      gy = Ugroup(index, fm[IGY], iOct_g);
+      gx = Ugroup(index_g, fm[IGX], iOct_g);
+      gy = Ugroup(index_g, fm[IGY], iOct_g);
 
       if (ndim == 3)
         gz = Ugroup(index_g, fm[IGZ], iOct_g);
-- 
2.43.0


From 02cf1dc035ef8b8aa4d7955cb32e6ce6d97b3035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:26 +0000
Subject: [PATCH 44/56] fix: HydroUpdate_legacy ignores constant gravity in 3D
 and varying gravity in the predictor

The 3D kernel read an inactive gravity field when gravity_type=constant_scalar, and
gravity_type=field was not taken into account by the half-step prediction.
---
 core/src/legacy/MusclBlockGodunovUpdateFunctor.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/src/legacy/MusclBlockGodunovUpdateFunctor.h b/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
index de36199..d055c60 100644
--- a/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
+++ b/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
@@ -534,7 +534,7 @@ public:
       if (ndim == 3)
         res[IZ] = params.gz;
     }
-    else if (params.gravity_type == GRAVITY_CST_FIELD) {
+    else if (params.gravity_type & GRAVITY_FIELD) {
       res[IX] = Ugroup(index, fm[IGX], iOct_local);
       res[IY] = Ugroup(index, fm[IGY], iOct_local);
       if (ndim == 3)
@@ -1829,9 +1829,10 @@ public:
 
     const auto& fm_state = fm_state_3D();
 
-    const real_t gx = Ugroup(index, fm[IGX], iOct_local);
-    const real_t gy = Ugroup(index, fm[IGY], iOct_local);
-    const real_t gz = Ugroup(index, fm[IGZ], iOct_local);
+    const GravityField g = get_gravity_field(index, iOct_local);
+    const real_t gx = g[IX];
+    const real_t gy = g[IY];
+    const real_t gz = g[IZ];
 
     real_t rhoOld = qOld[fm_state[ID]];
     real_t rhoNew = qNew[fm_state[ID]];
-- 
2.43.0


From 0acf3be758c312f10efe65060e370d55e550fdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:34 +0000
Subject: [PATCH 45/56] fix: MapUserData_legacy cannot remap when the number of
 octants changes

New fields were created next to fields still allocated for the old mesh,
which is rejected, and the sources of octants coarsened across processes
were read from ghosts that had not been exchanged.
---
 core/src/legacy/MapUserData_legacy.cpp | 41 +++++++++++++-------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/core/src/legacy/MapUserData_legacy.cpp b/core/src/legacy/MapUserData_legacy.cpp
index edb44cf..87bd57b 100644
--- a/core/src/legacy/MapUserData_legacy.cpp
+++ b/core/src/legacy/MapUserData_legacy.cpp
@@ -1,8 +1,11 @@
 #include "amr/MapUserData_base.h"
 
+#include <memory>
+
 #include "legacy/AMR_Remapper.h"
 #include "legacy/utils_block.h"
 #include "legacy/LegacyDataArray.h"
+#include "mpi/GhostCommunicator_full_blocks.h"
 
 namespace dyablo {
 
@@ -23,6 +26,7 @@ public:
   void save_old_mesh() override
   {
     this->lmesh_old = this->foreach_cell.get_amr_mesh().getLightOctree();
+    this->ghost_comm_old = std::make_unique<GhostCommunicator_full_blocks>( this->foreach_cell.get_amr_mesh().getMesh() );
   }
 
   void remap( UserData& U ) override;
@@ -31,6 +35,7 @@ private:
   uint32_t bx, by, bz;
   ForeachCell& foreach_cell;
   LightOctree lmesh_old;
+  std::unique_ptr<GhostCommunicator_full_blocks> ghost_comm_old; // ghost communicator for lmesh_old
 };
 
 namespace{
@@ -150,21 +155,19 @@ void fill_cell_newCoarse( const FunctorData& d,
 void apply_aux( const AMR_Remapper& remap,
                 uint8_t ndim,
                 blockSize_t blockSizes,
+                const GhostCommunicator_full_blocks& ghost_comm_old,
                 UserData& U  )
 {
-  auto original_fields = U.getEnabledFields();
-  std::vector< UserData::FieldAccessor_FieldInfo > old_fields, new_fields;
-  for( const std::string& name : original_fields )
-  {
-    std::string name_new = name + "_remapped";
-    U.new_fields({name_new});
-    
-    VarIndex last_index = (VarIndex)old_fields.size();
-    old_fields.push_back( {name, last_index} );
-    new_fields.push_back( {name+"_remapped", last_index} );
-  }
+  // Old values (on the old mesh) and new fields (on the new mesh), with the same indexes
+  UserData::FieldAccessor fields_old = U.backup_and_realloc();
+  std::vector< UserData::FieldAccessor_FieldInfo > new_fields;
+  for( const std::string& name : U.getEnabledFields() )
+    new_fields.push_back( {name, (VarIndex)new_fields.size()} );
+
+  // Source can be in a ghost octant when dst has just been coarsened
+  ghost_comm_old.exchange_ghosts( fields_old );
 
-  LegacyDataArray Uin = U.getAccessor( old_fields );
+  LegacyDataArray Uin = fields_old;
   LegacyDataArray Uout = U.getAccessor( new_fields );
 
 
@@ -207,20 +210,17 @@ void apply_aux( const AMR_Remapper& remap,
     });
   });
 
-  for( const std::string& name : original_fields )
-  {
-    U.move_field( name, name+"_remapped" );
-  }
-
+  U.extend_fields();
 }
 
 [[maybe_unused]] void MapUserDataFunctor_apply( const LightOctree_hashmap& lmesh_old,
                                 const LightOctree_hashmap& lmesh_new,
                                 blockSize_t blockSizes,
+                                const GhostCommunicator_full_blocks& ghost_comm_old,
                                 UserData& U  )
 {
   apply_aux( AMR_Remapper(lmesh_old, lmesh_new), lmesh_new.getNdim(),
-             blockSizes, U );
+             blockSizes, ghost_comm_old, U );
 }
 
 #ifdef DYABLO_COMPILE_PABLO
@@ -228,10 +228,11 @@ void apply_aux( const AMR_Remapper& remap,
 [[maybe_unused]] void MapUserDataFunctor_apply( const LightOctree_pablo& lmesh_old,
                                 const LightOctree_pablo& lmesh_new,
                                 blockSize_t blockSizes,
+                                const GhostCommunicator_full_blocks& ghost_comm_old,
                                 UserData& U )
 {
   apply_aux( AMR_Remapper(lmesh_new), lmesh_new.getNdim(),
-             blockSizes, U );
+             blockSizes, ghost_comm_old, U );
 }
 
 #endif // DYABLO_COMPILE_PABLO
@@ -243,7 +244,7 @@ void MapUserData_legacy::remap( UserData& U )
   const LightOctree& lmesh_new = foreach_cell.get_amr_mesh().getLightOctree();
   
 
-  MapUserDataFunctor_apply( this->lmesh_old, lmesh_new, blockSize_t{bx,by,bz}, U );
+  MapUserDataFunctor_apply( this->lmesh_old, lmesh_new, blockSize_t{bx,by,bz}, *ghost_comm_old, U );
 }
 
 } //namespace dyablo 
-- 
2.43.0


From 59b7a3eb718cc4951d55229e4a8e81817a991a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:42 +0000
Subject: [PATCH 46/56] fix: errors during setup are hidden by an exception in
 the destructor of Timers

An exception thrown while a timer is running (for instance by an unknown initial condition)
made ~Timers throw too: the program was terminated with a message about a timer.
---
 core/src/utils/monitoring/Timers.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/utils/monitoring/Timers.cpp b/core/src/utils/monitoring/Timers.cpp
index 042e3cc..d407771 100644
--- a/core/src/utils/monitoring/Timers.cpp
+++ b/core/src/utils/monitoring/Timers.cpp
@@ -140,6 +140,9 @@ struct Timers_pimpl
 
   ~Timers_pimpl()
   {
+    // Nested timers are still running if an exception was thrown
+    while( current_timer != &timer_total )
+      current_timer->stop();
     timer_total.stop();
   }
 
-- 
2.43.0


From af7da2733ea3563f5c07c3a441a59ce0702942a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:46 +0000
Subject: [PATCH 47/56] fix: missing or zero block size corrupts memory instead
 of being refused

---
 core/src/foreach_cell/AMRBlockForeachCell.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/foreach_cell/AMRBlockForeachCell.h b/core/src/foreach_cell/AMRBlockForeachCell.h
index 40f39e9..b354f7f 100644
--- a/core/src/foreach_cell/AMRBlockForeachCell.h
+++ b/core/src/foreach_cell/AMRBlockForeachCell.h
@@ -193,7 +193,11 @@ public:
       configMap.getValue<uint32_t>("amr", "nbOctsPerGroup", 1024)
     },
     patchmanager(cdata, pmesh)
-  {}
+  {
+    DYABLO_ASSERT_HOST_RELEASE( cdata.bx > 0 && cdata.by > 0 && cdata.bz > 0,
+      "Block size must be set to at least 1 cell in each direction : amr/bx=" << cdata.bx << " amr/by=" << cdata.by << " amr/bz=" << cdata.bz );
+    DYABLO_ASSERT_HOST_RELEASE( cdata.nbOctsPerGroup > 0, "amr/nbOctsPerGroup must be at least 1" );
+  }
 
   int getDim() const 
   {
-- 
2.43.0


From f431bdb258ab32c32637b45129a2f853d828dc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:46 +0000
Subject: [PATCH 48/56] fix: block-based kernels read out of bounds when blocks
 are smaller than their ghost cells

---
 core/src/foreach_cell/AMRBlockForeachCell_group.h   | 3 +++
 core/src/foreach_cell/AMRBlockForeachCell_scratch.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/core/src/foreach_cell/AMRBlockForeachCell_group.h b/core/src/foreach_cell/AMRBlockForeachCell_group.h
index 4f36846..faec195 100644
--- a/core/src/foreach_cell/AMRBlockForeachCell_group.h
+++ b/core/src/foreach_cell/AMRBlockForeachCell_group.h
@@ -112,6 +112,9 @@ public:
     uint32_t bz = cdata.bz+2*gz;
     uint32_t nbOctsPerGroup = cdata.nbOctsPerGroup;
     DYABLO_ASSERT_HOST_RELEASE( cdata.ndim != 2 || bz==1, "bz should be 1 in 2D" );
+    DYABLO_ASSERT_HOST_RELEASE( (int)cdata.bx >= gx && (int)cdata.by >= gy && (int)cdata.bz >= gz,
+      "Blocks (amr/bx=" << cdata.bx << ", amr/by=" << cdata.by << ", amr/bz=" << cdata.bz << ") are smaller than the " 
+      << std::max({gx,gy,gz}) << " ghost cells needed by this kernel. Use larger blocks or a cell-based kernel (*_oneneighbor)" );
 
     // Do not initialize View to improve first-touch behavior
     DataArrayBlock data(Kokkos::ViewAllocateWithoutInitializing(name), bx*by*bz, nvars, nbOctsPerGroup);
diff --git a/core/src/foreach_cell/AMRBlockForeachCell_scratch.h b/core/src/foreach_cell/AMRBlockForeachCell_scratch.h
index da4b187..42044cb 100644
--- a/core/src/foreach_cell/AMRBlockForeachCell_scratch.h
+++ b/core/src/foreach_cell/AMRBlockForeachCell_scratch.h
@@ -114,6 +114,9 @@ public:
     uint32_t by = cdata.by+2*gy;
     uint32_t bz = cdata.bz+2*gz;
     DYABLO_ASSERT_HOST_RELEASE( cdata.ndim != 2 || bz==1, "bz should be 1 in 2D" );
+    DYABLO_ASSERT_HOST_RELEASE( (int)cdata.bx >= gx && (int)cdata.by >= gy && (int)cdata.bz >= gz,
+      "Blocks (amr/bx=" << cdata.bx << ", amr/by=" << cdata.by << ", amr/bz=" << cdata.bz << ") are smaller than the " 
+      << std::max({gx,gy,gz}) << " ghost cells needed by this kernel. Use larger blocks or a cell-based kernel (*_oneneighbor)" );
 
     scratch_size += DataArrayBlock::shmem_size(bx*by*bz, nvars, 1);
     return CellArray_patch({ DataArrayBlock(), bx, by, bz, 1, fm }, nvars);
-- 
2.43.0


From 7e9f7959437666584ccbf22b06a5cb54cea9485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:43 +0000
Subject: [PATCH 49/56] fix: mesh parameters are uninitialized when neither
 level_min nor coarse_oct_resolution are set

---
 core/src/amr/AMRmesh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/amr/AMRmesh.cpp b/core/src/amr/AMRmesh.cpp
index eaf58d5..2101b1b 100644
--- a/core/src/amr/AMRmesh.cpp
+++ b/core/src/amr/AMRmesh.cpp
@@ -64,6 +64,10 @@ typename AMRmesh_impl<Impl_t>::Parameters AMRmesh_impl<Impl_t>::parse_parameters
     res.level_min = configMap.getValue<int>( "amr", "level_min", std::ceil(std::log2( width ))  );
     res.level_max = configMap.getValue<int>( "amr", "level_max", res.level_min + 3);
   }
+  else
+  {
+    DYABLO_ASSERT_HOST_RELEASE( false, "Size of the coarse mesh is undefined : set either amr/level_min or amr/coarse_oct_resolution_x, amr/coarse_oct_resolution_y" << ((ndim==3)?" and amr/coarse_oct_resolution_z":"") );
+  }
 
   return res;
 }
-- 
2.43.0


From 000672ea8f803238145743c34feef9a12c345128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:43 +0000
Subject: [PATCH 50/56] fix: particle_grid cannot be run again from last.ini
 without cosmology

---
 core/src/init/InitialConditions_particle_grid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/init/InitialConditions_particle_grid.cpp b/core/src/init/InitialConditions_particle_grid.cpp
index 5108626..5810692 100644
--- a/core/src/init/InitialConditions_particle_grid.cpp
+++ b/core/src/init/InitialConditions_particle_grid.cpp
@@ -50,7 +50,8 @@ public:
     this->nz = configMap.getValue<uint32_t>("particle_grid", "nz", default_nz);
     
     real_t default_total_mass=1.0, default_dt_perturb=0.0;
-    bool cosmo = configMap.hasValue("cosmology", "astart");
+    // Note : last.ini contains a default value for cosmology/astart even when cosmology is not active
+    bool cosmo = configMap.getValue<bool>("cosmology", "active", false);
     if( cosmo )
     {
       real_t astart = configMap.getValue<real_t>( "cosmology", "astart" );
-- 
2.43.0


From 5da0403b09b96400d16e90c4f65fc2268ed071a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:07 +0000
Subject: [PATCH 51/56] fix: an empty coarse mesh hangs instead of being
 refused

---
 core/src/amr/AMRmesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/amr/AMRmesh.cpp b/core/src/amr/AMRmesh.cpp
index 2101b1b..2bf1419 100644
--- a/core/src/amr/AMRmesh.cpp
+++ b/core/src/amr/AMRmesh.cpp
@@ -69,6 +69,9 @@ typename AMRmesh_impl<Impl_t>::Parameters AMRmesh_impl<Impl_t>::parse_parameters
     DYABLO_ASSERT_HOST_RELEASE( false, "Size of the coarse mesh is undefined : set either amr/level_min or amr/coarse_oct_resolution_x, amr/coarse_oct_resolution_y" << ((ndim==3)?" and amr/coarse_oct_resolution_z":"") );
   }
 
+  DYABLO_ASSERT_HOST_RELEASE( res.coarse_grid_size[IX] > 0 && res.coarse_grid_size[IY] > 0 && res.coarse_grid_size[IZ] > 0,
+    "amr/coarse_oct_resolution_x, amr/coarse_oct_resolution_y and amr/coarse_oct_resolution_z must be at least 1" );
+
   return res;
 }
 
-- 
2.43.0


From f31004651222c638fe95a3cecc879802757268b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:11 +0000
Subject: [PATCH 52/56] fix: cloud-in-cell projection and interpolation access
 memory out of bounds next to a domain boundary

---
 .../particles/ParticleUpdate_CIC_density.cpp    | 17 +++++++++++++----
 core/src/particles/ParticleUpdate_CIC_move.cpp  | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/core/src/particles/ParticleUpdate_CIC_density.cpp b/core/src/particles/ParticleUpdate_CIC_density.cpp
index fa7e613..b36b24d 100644
--- a/core/src/particles/ParticleUpdate_CIC_density.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_density.cpp
@@ -81,12 +81,21 @@ public:
       pos_t v_out = {abs(p[IX]), abs(p[IY]), abs(p[IZ])};     // volume fraction in neighbor cells [0,0.5]^3
       pos_t v_in =  {1-v_out[IX], 1-v_out[IY], 1-v_out[IZ]};  // Remaining volume fraction in local cell [0.5,1]^3
 
-      auto apply_rho_contrib = [&]( const ForeachCell::CellIndex::offset_t& offset )
+      auto apply_rho_contrib = [&]( const ForeachCell::CellIndex::offset_t& cloud_offset )
       {
+        // The part of the cloud which is outside of the domain is deposited in the closest cell inside
+        ForeachCell::CellIndex::offset_t offset = cloud_offset;
+        for( int dir=0; dir<ndim; dir++ )
+        {
+          ForeachCell::CellIndex::offset_t offset_dir{};
+          offset_dir[dir] = cloud_offset[dir];
+          if( cloud_offset[dir] != 0 && iCell.getNeighbor_ghost(offset_dir, Uin).is_boundary() )
+            offset[dir] = 0;
+        }
         ForeachCell::CellIndex iCell_neighbor = iCell.getNeighbor_ghost(offset, Uin);
-        real_t cx = (offset[IX]==0)?v_in[IX]:v_out[IX];
-        real_t cy = (offset[IY]==0)?v_in[IY]:v_out[IY];
-        real_t cz = (offset[IZ]==0)?v_in[IZ]:v_out[IZ];
+        real_t cx = (cloud_offset[IX]==0)?v_in[IX]:v_out[IX];
+        real_t cy = (cloud_offset[IY]==0)?v_in[IY]:v_out[IY];
+        real_t cz = (cloud_offset[IZ]==0)?v_in[IZ]:v_out[IZ];
         real_t volume_fraction = cx*cy*cz;
 
         assert( abs( iCell_neighbor.level_diff() ) <= 1 );
diff --git a/core/src/particles/ParticleUpdate_CIC_move.cpp b/core/src/particles/ParticleUpdate_CIC_move.cpp
index 360e65c..d5f4659 100644
--- a/core/src/particles/ParticleUpdate_CIC_move.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_move.cpp
@@ -80,12 +80,21 @@ public:
       pos_t v_out = {abs(p[IX]), abs(p[IY]), abs(p[IZ])};     // volume fraction in neighbor cells [0,0.5]^3
       pos_t v_in =  {1-v_out[IX], 1-v_out[IY], 1-v_out[IZ]};  // Remaining volume fraction in local cell [0.5,1]^3
 
-      auto apply_g_contrib = [&]( const ForeachCell::CellIndex::offset_t& offset )
+      auto apply_g_contrib = [&]( const ForeachCell::CellIndex::offset_t& cloud_offset )
       {
+        // The part of the cloud which is outside of the domain is taken from the closest cell inside
+        ForeachCell::CellIndex::offset_t offset = cloud_offset;
+        for( int dir=0; dir<ndim; dir++ )
+        {
+          ForeachCell::CellIndex::offset_t offset_dir{};
+          offset_dir[dir] = cloud_offset[dir];
+          if( cloud_offset[dir] != 0 && iCell.getNeighbor_ghost(offset_dir, Uin).is_boundary() )
+            offset[dir] = 0;
+        }
         ForeachCell::CellIndex iCell_neighbor = iCell.getNeighbor_ghost(offset, Uin);
-        real_t cx = (offset[IX]==0)?v_in[IX]:v_out[IX];
-        real_t cy = (offset[IY]==0)?v_in[IY]:v_out[IY];
-        real_t cz = (offset[IZ]==0)?v_in[IZ]:v_out[IZ];
+        real_t cx = (cloud_offset[IX]==0)?v_in[IX]:v_out[IX];
+        real_t cy = (cloud_offset[IY]==0)?v_in[IY]:v_out[IY];
+        real_t cz = (cloud_offset[IZ]==0)?v_in[IZ]:v_out[IZ];
         real_t volume_fraction = cx*cy*cz;
 
         assert( abs( iCell_neighbor.level_diff() ) <= 1 );
-- 
2.43.0


From 6d54e30b0b097dd92545a3d63c596af6abe5e5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:21 +0000
Subject: [PATCH 53/56] fix: tiled restart copies values from the wrong cells
 when a tile is not a contiguous range of a process

---
 .../init/InitialConditions_tiled_restart.cpp  | 73 +++++++++++--------
 1 file changed, 42 insertions(+), 31 deletions(-)

diff --git a/core/src/init/InitialConditions_tiled_restart.cpp b/core/src/init/InitialConditions_tiled_restart.cpp
index 415ebb0..9532c56 100644
--- a/core/src/init/InitialConditions_tiled_restart.cpp
+++ b/core/src/init/InitialConditions_tiled_restart.cpp
@@ -220,6 +220,7 @@ public:
 
     restart_file restart_file(filename);
     uint32_t nOcts_written;
+    std::unique_ptr<LightOctree_hashmap> input_lmesh_ptr;
 
     // Initialize AMR tree
     {
@@ -229,17 +230,14 @@ public:
         uint32_t nbCells_local = lmesh_data.extent(0);
         uint32_t nbCells_ghost = 0;
 
-        constexpr real_t one_plus_eps = 1.00001;
-        int ldiff_x = static_cast<int>(std::log2(nrep_x * one_plus_eps));
-        int ldiff_y = static_cast<int>(std::log2(nrep_y * one_plus_eps));
-        int ldiff_z = static_cast<int>(std::log2(nrep_z * one_plus_eps));
-
-        int level_diff = std::max({ldiff_x, ldiff_y, ldiff_z});
-        int old_lmin = level_min - level_diff;
-
-        std::cout << "Restart: old level min detected is : " << old_lmin << std::endl;
-        
         // Calculating coarse_oct_resolution of the original file
+        auto new_cor = pmesh.get_coarse_grid_size();
+        uint32_t old_cor_x = new_cor[IX] / nrep_x;
+        uint32_t old_cor_y = new_cor[IY] / nrep_y;
+        uint32_t old_cor_z = new_cor[IZ] / nrep_z;
+        DYABLO_ASSERT_HOST_RELEASE( old_cor_x*nrep_x == new_cor[IX] && old_cor_y*nrep_y == new_cor[IY] && old_cor_z*nrep_z == new_cor[IZ],
+          "When tiling a restart, the size of the coarse mesh has to be a multiple of the number of tiles" );
+
         // Oof ... Copying from LightOctree_storage.h. Maybe expose this as a public member in the class ?
         enum oct_data_field_t {
           ICORNERX, 
@@ -248,26 +246,22 @@ public:
           ILEVEL
         };
 
-        real_t lvl_min_size = 1.0 / (1U << old_lmin);
-        uint32_t old_cor_x = 0;
-        uint32_t old_cor_y = 0;
-        uint32_t old_cor_z = 0;
-
-        Kokkos::parallel_reduce("Restart, Coarse_oct_reduce", nbCells_local, 
-          KOKKOS_LAMBDA(uint32_t iOct, uint32_t &cor_loc_x, uint32_t &cor_loc_y, uint32_t &cor_loc_z) {
+        // Size of the original domain : number of octants at level 0 (may be < 1)
+        real_t old_width_x = 0;
+        Kokkos::parallel_reduce("Restart, domain_width", nbCells_local, 
+          KOKKOS_LAMBDA(uint32_t iOct, real_t &width_loc) {
             real_t oct_size = 1.0 / (1U << static_cast<uint32_t>(lmesh_data(iOct, ILEVEL)));
-            uint32_t Nx = one_plus_eps * (lmesh_data(iOct, ICORNERX) * oct_size + lvl_min_size) / lvl_min_size;
-            uint32_t Ny = one_plus_eps * (lmesh_data(iOct, ICORNERY) * oct_size + lvl_min_size) / lvl_min_size;
-            uint32_t Nz = one_plus_eps * (lmesh_data(iOct, ICORNERZ) * oct_size + lvl_min_size) / lvl_min_size;
-
-            cor_loc_x = (Nx > cor_loc_x ? Nx : cor_loc_x);
-            cor_loc_y = (Ny > cor_loc_y ? Ny : cor_loc_y);
-            cor_loc_z = (Nz > cor_loc_z ? Nz : cor_loc_z);
+            real_t width = (lmesh_data(iOct, ICORNERX) + 1) * oct_size;
+            width_loc = (width > width_loc ? width : width_loc);
           }, 
-          Kokkos::Max<uint32_t>(old_cor_x),
-          Kokkos::Max<uint32_t>(old_cor_y),
-          Kokkos::Max<uint32_t>(old_cor_z));
+          Kokkos::Max<real_t>(old_width_x));
+
+        // There are old_cor_x octants in the original domain at level old_lmin
+        int old_lmin = std::lround( std::log2( old_cor_x / old_width_x ) );
+        int level_diff = level_min - old_lmin;
 
+        std::cout << "Restart: old level min detected is : " << old_lmin << std::endl;
+        
         std::cout << "Restart: old coarse size detected : " << old_cor_x << " " << old_cor_y << " " << old_cor_z << std::endl;
 
         // Todo : Find this from input data ?
@@ -279,7 +273,8 @@ public:
 
         // Read mesh from restart file
         Kokkos::Array<bool,3> periodic{false, false, false};
-        LightOctree_hashmap input_lmesh( std::move(lmesh_storage), old_lmin, level_max, periodic );
+        input_lmesh_ptr = std::make_unique<LightOctree_hashmap>( std::move(lmesh_storage), old_lmin, level_max, periodic );
+        const LightOctree_hashmap& input_lmesh = *input_lmesh_ptr;
 
         std::cout << "Restart mesh : " << input_lmesh.getNumOctants() << " octs." << std::endl;
 
@@ -338,6 +333,9 @@ public:
 
     // Reallocate and fill U
     {
+      const LightOctree& lmesh = pmesh.getLightOctree();
+      const LightOctree_hashmap& input_lmesh = *input_lmesh_ptr;
+
       auto fields = restart_file.list_fields("fields/");
       
       for( std::string field : fields )
@@ -359,9 +357,22 @@ public:
         foreach_cell.foreach_cell( "restart_copy_field", U.getShape(),
           KOKKOS_LAMBDA( const ForeachCell::CellIndex& iCell )
         {
-          auto iCell_mod = iCell;
-          iCell_mod.iOct.iOct = iCell_mod.iOct.iOct % nOcts_written;
-          uint32_t index = iCell_mod.iOct.iOct * bz*by*bx + iCell_mod.k*bx*by + iCell_mod.j*bx + iCell_mod.i;
+          // Find the cell of the original mesh that contains the center of the cell
+          LightOctree::pos_t pos = lmesh.getCorner(iCell.iOct);
+          auto oct_size = lmesh.getSize(iCell.iOct);
+          pos[IX] = FMOD( (pos[IX] + oct_size[IX]*(iCell.i+0.5)/bx)*nrep_x, 1.0 );
+          pos[IY] = FMOD( (pos[IY] + oct_size[IY]*(iCell.j+0.5)/by)*nrep_y, 1.0 );
+          if( ndim==3 )
+            pos[IZ] = FMOD( (pos[IZ] + oct_size[IZ]*(iCell.k+0.5)/bz)*nrep_z, 1.0 );
+
+          LightOctree::OctantIndex iOct_input = input_lmesh.getiOctFromPos( pos );
+          auto pos_input = input_lmesh.getCorner( iOct_input );
+          auto size_input = input_lmesh.getSize( iOct_input );
+          uint32_t i = (pos[IX]-pos_input[IX])/size_input[IX]*bx;
+          uint32_t j = (pos[IY]-pos_input[IY])/size_input[IY]*by;
+          uint32_t k = (ndim==3) ? (pos[IZ]-pos_input[IZ])/size_input[IZ]*bz : 0;
+
+          uint32_t index = iOct_input.iOct * bz*by*bx + k*bx*by + j*bx + i;
           Ufield.at( iCell, Ifield ) = field_view(index);
         });
       }      
-- 
2.43.0


From 5ca12f0c23debd02970dc5e966ff35577d75322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:19 +0000
Subject: [PATCH 54/56] fix: mesh corrupted or crash when the first process has
 no octant (fewer octants than processes)

---
 core/src/amr/AMRmesh_hashmap_new.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/src/amr/AMRmesh_hashmap_new.cpp b/core/src/amr/AMRmesh_hashmap_new.cpp
index b1a5893..88064ef 100644
--- a/core/src/amr/AMRmesh_hashmap_new.cpp
+++ b/core/src/amr/AMRmesh_hashmap_new.cpp
@@ -552,13 +552,14 @@ AMRmesh_hashmap_new::GhostMap_t AMRmesh_hashmap_new::loadBalance(level_t level)
           if( storage.getNumOctants() != 0 )
             old_morton_interval_begin = compute_morton( storage, 0, level_max );
           else
-            old_morton_interval_begin = 0;
+            old_morton_interval_begin = std::numeric_limits<morton_t>::max();
           std::vector<morton_t> old_morton_intervals(mpi_size+1);
           // TODO maybe just send to mpi_rank-1 ?
           mpi_comm.MPI_Allgather( &old_morton_interval_begin, old_morton_intervals.data(), 1);
           old_morton_intervals[mpi_size] = std::numeric_limits<morton_t>::max();
-          for(int rank=mpi_size-1; rank>0; rank--)
-            if( old_morton_intervals[rank] == 0 )
+          // Interval is [next,next[ for empty processes (including the first)
+          for(int rank=mpi_size-1; rank>=0; rank--)
+            if( old_morton_intervals[rank] == std::numeric_limits<morton_t>::max() )
               old_morton_intervals[rank] = old_morton_intervals[rank+1];
           old_morton_interval_begin = old_morton_intervals[mpi_rank];
           old_morton_interval_end = old_morton_intervals[mpi_rank+1];
@@ -922,13 +923,14 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
         morton_interval_begin = morton_interval_begin_host();
       }
       else
-        morton_interval_begin = 0;
+        morton_interval_begin = std::numeric_limits<morton_t>::max();
       
       // TODO maybe just send to mpi_rank-1 ?
       mpi_comm.MPI_Allgather( &morton_interval_begin, morton_intervals.data(), 1);
       morton_intervals[mpi_size] = std::numeric_limits<morton_t>::max();
-      for(int rank=mpi_size-1; rank>0; rank--)
-        if( morton_intervals[rank] == 0 )
+      // Interval is [next,next[ for empty processes (including the first)
+      for(int rank=mpi_size-1; rank>=0; rank--)
+        if( morton_intervals[rank] == std::numeric_limits<morton_t>::max() )
          morton_intervals[rank] = morton_intervals[rank+1];
     }
   
-- 
2.43.0


From d8864cdac1ee66cb1d6370b2b2efcea0de7cced7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:29 +0000
Subject: [PATCH 55/56] fix: neighbour of a cell in a local array is invalid
 inside the block instead of outside

---
 core/src/foreach_cell/AMRBlockForeachCell_CellArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h b/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h
index e9b2e6c..8c355e3 100644
--- a/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h
+++ b/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h
@@ -775,7 +775,7 @@ CellIndex CellIndex::getNeighbor_ghost( const offset_t& offset, const CellArray_
   uint32_t j = this->j + offset[IY];
   uint32_t k = this->k + offset[IZ];
 
-  if( i>=bx || j>=by || k>=bz )
+  if( i<bx && j<by && k<bz )
   { // Neighbor cell is inside local octant
     CellIndex res = this->getNeighbor( offset );
     DYABLO_ASSERT_KOKKOS_DEBUG(res.is_valid() && res.is_local(), "internal error : found invalid neighbor");
-- 
2.43.0


From 25c47370e38a759dad0a33fec73e758fdc3f582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:52 +0000
Subject: [PATCH 56/56] fix: a tracer particle leaving through a wall reads out
 of the mesh instead of being reported

---
 core/src/particles/ParticleUpdate_tracers_move.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/core/src/particles/ParticleUpdate_tracers_move.cpp b/core/src/particles/ParticleUpdate_tracers_move.cpp
index 4f44a1c..8735ba2 100644
--- a/core/src/particles/ParticleUpdate_tracers_move.cpp
+++ b/core/src/particles/ParticleUpdate_tracers_move.cpp
@@ -64,6 +64,20 @@ public:
       if( periodic[IZ] ) P.pos(iPart, IZ) = fmod( (P.pos(iPart, IZ) - d.zmin) + (d.zmax-d.zmin) , d.zmax-d.zmin) + d.zmin;
     });   
 
+    // There is no cell to get a velocity from (and no process to own the particle) outside of the domain
+    int ndim = foreach_cell.getDim();
+    uint32_t nb_outside = 0;
+    Kokkos::parallel_reduce( "particles_outside", P.getNumParticles(),
+      KOKKOS_LAMBDA( uint32_t iPart, uint32_t& nb_outside )
+    {
+      bool inside = ( periodic[IX] || ( P.pos(iPart, IX) >= d.xmin && P.pos(iPart, IX) < d.xmax ) )
+                 && ( periodic[IY] || ( P.pos(iPart, IY) >= d.ymin && P.pos(iPart, IY) < d.ymax ) )
+                 && ( ndim==2 || periodic[IZ] || ( P.pos(iPart, IZ) >= d.zmin && P.pos(iPart, IZ) < d.zmax ) );
+      if( !inside )
+        nb_outside++;
+    }, nb_outside);
+    DYABLO_ASSERT_HOST_RELEASE( nb_outside == 0, "ParticleUpdate_tracers_move : " << nb_outside << " particle(s) left the domain through a boundary that is not periodic" );
+
     timers.get("ParticleUpdate_tracers_move").stop();
   }
 
-- 
2.43.0

