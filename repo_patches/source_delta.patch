From ec1afff6164c29c18dd87153051ec30ae28cfe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:40 +0000
Subject: [PATCH 01/32] fix: getBound is about non-periodic domain boundaries
 only, in 2D too

---
 core/src/amr/AMRmesh_hashmap_new.h |  2 +-
 core/src/amr/LightOctree_hashmap.h |  2 +-
 core/src/amr/LightOctree_storage.h | 13 +++++++------
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/core/src/amr/AMRmesh_hashmap_new.h b/core/src/amr/AMRmesh_hashmap_new.h
index 6ee6fe5..3d687c2 100644
--- a/core/src/amr/AMRmesh_hashmap_new.h
+++ b/core/src/amr/AMRmesh_hashmap_new.h
@@ -69,7 +69,7 @@ public:
   { return first_local_oct + idx; }
 
   bool getBound( oct_index_t idx ) const
-  { return storage.getBound( {idx, false} ); }
+  { return storage.getBound( {idx, false}, periodic ); }
 
   array_t<real_t, 3> getCenter( uint32_t idx ) const
   { 
diff --git a/core/src/amr/LightOctree_hashmap.h b/core/src/amr/LightOctree_hashmap.h
index 79b987a..1e2f174 100644
--- a/core/src/amr/LightOctree_hashmap.h
+++ b/core/src/amr/LightOctree_hashmap.h
@@ -128,7 +128,7 @@ public:
     
     KOKKOS_INLINE_FUNCTION
     bool getBound(const OctantIndex& iOct)  const
-    {return storage.getBound(iOct);}
+    {return storage.getBound(iOct, is_periodic);}
 
     const Storage_t getStorage() const 
     {
diff --git a/core/src/amr/LightOctree_storage.h b/core/src/amr/LightOctree_storage.h
index b2c7e8e..9551e6e 100644
--- a/core/src/amr/LightOctree_storage.h
+++ b/core/src/amr/LightOctree_storage.h
@@ -182,17 +182,18 @@ public:
       };
   }
    //! @copydoc LightOctree_base::getBound()
+   //! Periodic directions have no domain boundary
   KOKKOS_INLINE_FUNCTION 
-  bool getBound(const OctantIndex& iOct)  const
+  bool getBound(const OctantIndex& iOct, const Kokkos::Array<bool,3>& periodic)  const
   {
     auto lp = get_logical_coords(iOct);
     level_t level = getLevel(iOct);
-    logical_coord_t last_oct_x = cell_count(IX, level)-1;
-    logical_coord_t last_oct_y = cell_count(IY, level)-1;
-    logical_coord_t last_oct_z = cell_count(IZ, level)-1;
 
-    return lp[IX] == 0 || lp[IY] == 0 || lp[IZ] == 0 
-        || lp[IX] == last_oct_x || lp[IY] == last_oct_y || lp[IZ] == last_oct_z;
+    bool res = false;
+    for( ComponentIndex3D dim : {IX, IY, IZ} )
+      if( dim < getNdim() && !periodic[dim] )
+        res = res || lp[dim] == 0 || lp[dim] == cell_count(dim, level)-1;
+    return res;
   }
   //! @copydoc LightOctree_base::getSize()
   KOKKOS_INLINE_FUNCTION 
-- 
2.43.0


From 6c675a79f4332ca45e114032e155bd425f014e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:40 +0000
Subject: [PATCH 02/32] fix: AMR markers of level 0 octants (unsigned underflow
 in the 2:1 check)

---
 core/src/amr/AMRmesh_hashmap_new.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/src/amr/AMRmesh_hashmap_new.cpp b/core/src/amr/AMRmesh_hashmap_new.cpp
index d4fac06..bd13dbf 100644
--- a/core/src/amr/AMRmesh_hashmap_new.cpp
+++ b/core/src/amr/AMRmesh_hashmap_new.cpp
@@ -721,7 +721,8 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
     // return true if marker was modified, false otherwise
     auto check_21_cell = KOKKOS_LAMBDA( oct_index_t iOct )
     {
-      level_t level_current = lmesh.getLevel({iOct, false});
+      // Signed : level+marker-1 is negative at level 0
+      int level_current = lmesh.getLevel({iOct, false});
       int marker_current = getMarker( {iOct, false} );
       int marker_old = marker_current;
 
@@ -744,7 +745,7 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
         {
           auto ns = lmesh.findNeighbors({iOct, false},{(int8_t)(sx*x),(int8_t)(sy*y),(int8_t)(sz*z)});
           DYABLO_ASSERT_KOKKOS_DEBUG(ns.size()>0, "Siblings can't be outside domain");
-          level_t level_siblings = lmesh.getLevel( ns[0] );
+          int level_siblings = lmesh.getLevel( ns[0] );
           DYABLO_ASSERT_KOKKOS_DEBUG( level_siblings >= level_current, "Siblings cannot be coarser");
 
           int marker_siblings = getMarker( ns[0] );
@@ -764,7 +765,7 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
         auto ns = lmesh.findNeighbors({iOct,false}, {nx,ny,nz});
         for(int n=0; n<ns.size(); n++)
         {
-          level_t level_neighbor = lmesh.getLevel(ns[n]);
+          int level_neighbor = lmesh.getLevel(ns[n]);
           int maker_neighbor = getMarker( ns[n] );
           // If current marker violates 2:1 (too coarse compared to neighbors)
           if( level_current+marker_current < level_neighbor+maker_neighbor-1 )
-- 
2.43.0


From 937886c411754ae032fccf7a995013c49c4cdf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:00 +0000
Subject: [PATCH 03/32] fix: process left without octants by a coarsening

---
 core/src/amr/AMRmesh_hashmap_new.cpp | 14 +++++++-------
 core/src/amr/LightOctree_hashmap.h   |  6 +++++-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/core/src/amr/AMRmesh_hashmap_new.cpp b/core/src/amr/AMRmesh_hashmap_new.cpp
index bd13dbf..a33b561 100644
--- a/core/src/amr/AMRmesh_hashmap_new.cpp
+++ b/core/src/amr/AMRmesh_hashmap_new.cpp
@@ -552,13 +552,13 @@ AMRmesh_hashmap_new::GhostMap_t AMRmesh_hashmap_new::loadBalance(level_t level)
           if( storage.getNumOctants() != 0 )
             old_morton_interval_begin = compute_morton( storage, 0, level_max );
           else
-            old_morton_interval_begin = 0;
+            old_morton_interval_begin = std::numeric_limits<morton_t>::max(); // Empty process
           std::vector<morton_t> old_morton_intervals(mpi_size+1);
           // TODO maybe just send to mpi_rank-1 ?
           mpi_comm.MPI_Allgather( &old_morton_interval_begin, old_morton_intervals.data(), 1);
           old_morton_intervals[mpi_size] = std::numeric_limits<morton_t>::max();
-          for(int rank=mpi_size-1; rank>0; rank--)
-            if( old_morton_intervals[rank] == 0 )
+          for(int rank=mpi_size-1; rank>=0; rank--)
+            if( old_morton_intervals[rank] == std::numeric_limits<morton_t>::max() )
               old_morton_intervals[rank] = old_morton_intervals[rank+1];
           old_morton_interval_begin = old_morton_intervals[mpi_rank];
           old_morton_interval_end = old_morton_intervals[mpi_rank+1];
@@ -910,7 +910,7 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
     std::vector<morton_t> morton_intervals(mpi_size+1);
     {
       morton_t morton_interval_begin;
-      if( storage.getNumOctants() != 0 )
+      if( new_nbOcts != 0 )
       {
         Kokkos::View<morton_t> morton_interval_begin_device("morton_interval_begin");
         Kokkos::parallel_for( "adapt:compute_morton", 1, KOKKOS_LAMBDA(int)
@@ -922,13 +922,13 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
         morton_interval_begin = morton_interval_begin_host();
       }
       else
-        morton_interval_begin = 0;
+        morton_interval_begin = std::numeric_limits<morton_t>::max(); // Empty process
       
       // TODO maybe just send to mpi_rank-1 ?
       mpi_comm.MPI_Allgather( &morton_interval_begin, morton_intervals.data(), 1);
       morton_intervals[mpi_size] = std::numeric_limits<morton_t>::max();
-      for(int rank=mpi_size-1; rank>0; rank--)
-        if( morton_intervals[rank] == 0 )
+      for(int rank=mpi_size-1; rank>=0; rank--)
+        if( morton_intervals[rank] == std::numeric_limits<morton_t>::max() )
          morton_intervals[rank] = morton_intervals[rank+1];
     }
   
diff --git a/core/src/amr/LightOctree_hashmap.h b/core/src/amr/LightOctree_hashmap.h
index 1e2f174..3f5d958 100644
--- a/core/src/amr/LightOctree_hashmap.h
+++ b/core/src/amr/LightOctree_hashmap.h
@@ -47,7 +47,8 @@ public:
         private_init();
 
         // TODO use logical coords directly or even morton_intervals from AMRmesh
-        morton_t first_morton;
+        morton_t first_morton = uint64_t(-1); // Empty process
+        if( pmesh->getNumOctants() != 0 )
         {
             int ndim = getNdim();
             auto pos = pmesh->getCoordinates((uint32_t)0);
@@ -63,6 +64,9 @@ public:
         auto morton_intervals_host = Kokkos::create_mirror_view( morton_intervals );
         pmesh->getMpiComm().MPI_Allgather( &first_morton, morton_intervals_host.data(), 1 );
         morton_intervals_host(morton_intervals_host.size()-1) = uint64_t(-1);
+        for( int rank=(int)morton_intervals_host.size()-2; rank>=0; rank-- )
+            if( morton_intervals_host(rank) == uint64_t(-1) )
+                morton_intervals_host(rank) = morton_intervals_host(rank+1);
         Kokkos::deep_copy(morton_intervals, morton_intervals_host);
 
     }
-- 
2.43.0


From 2e1bfe40c18880dcd584960c402002df5fcb8814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:00 +0000
Subject: [PATCH 04/32] fix: process intervals of LightOctree_hashmap for
 coarse grids that are not 2^level_min wide

---
 core/src/amr/LightOctree_hashmap.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/src/amr/LightOctree_hashmap.h b/core/src/amr/LightOctree_hashmap.h
index 3f5d958..1d9b67d 100644
--- a/core/src/amr/LightOctree_hashmap.h
+++ b/core/src/amr/LightOctree_hashmap.h
@@ -53,11 +53,10 @@ public:
             int ndim = getNdim();
             auto pos = pmesh->getCoordinates((uint32_t)0);
             index_t<3> logical_coords;
-            uint32_t octant_count = std::pow(2, max_level );
-            real_t octant_size = 1.0/octant_count;
-            logical_coords[IX] = std::floor(pos[IX]/octant_size);
-            logical_coords[IY] = std::floor(pos[IY]/octant_size);
-            logical_coords[IZ] = (ndim-2)*std::floor(pos[IZ]/octant_size);
+            // Corners lie on the finest lattice : round (the number of octants is not always a power of two)
+            logical_coords[IX] = std::lround(pos[IX]*storage.cell_count(IX, max_level));
+            logical_coords[IY] = std::lround(pos[IY]*storage.cell_count(IY, max_level));
+            logical_coords[IZ] = (ndim-2)*std::lround(pos[IZ]*storage.cell_count(IZ, max_level));
 
             first_morton = compute_morton_key( logical_coords );
         }
-- 
2.43.0


From 66db9d17cb6f35d1ade40bcdde227796453cdce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:41 +0000
Subject: [PATCH 05/32] fix: remap of octants coarsened from siblings owned by
 different processes

The full-block ghost communicator was built from the new mesh (while the exchanged
array lives on the old one) and remap_aux() then called itself forever.
---
 core/src/amr/MapUserData_mean.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/src/amr/MapUserData_mean.cpp b/core/src/amr/MapUserData_mean.cpp
index 03b1530..c20d824 100644
--- a/core/src/amr/MapUserData_mean.cpp
+++ b/core/src/amr/MapUserData_mean.cpp
@@ -1,3 +1,5 @@
+#include <memory>
+
 #include "amr/MapUserData_base.h"
 
 #include "amr/CellIndexRemapper.h"
@@ -23,6 +25,9 @@ public:
   void save_old_mesh() override
   {
     this->lmesh_old = this->foreach_cell.get_amr_mesh().getLightOctree();
+    // Communication pattern of the old mesh (see remap_aux()) : it cannot be computed after the mesh has been modified
+    auto shape = this->foreach_cell.allocate_ghosted_array( "MapUserData_mean::shape", FieldManager(0) ).getShape();
+    this->ghost_comm_old = std::make_shared<GhostCommunicator_full_blocks>( this->foreach_cell.get_amr_mesh().getMesh(), shape, -1 );
   }
 
   void remap( UserData& user_data ) override
@@ -85,7 +90,7 @@ public:
         }
       }, ghost_coarsen_count);
       if( ghost_coarsen_count > 0 )
-        std::cout << "Warning : detected ghost subcells in coarsened octant during remap - this is so unlikely that it was never tested" << std::endl;
+        std::cout << "Warning : detected ghost subcells in coarsened octant during remap" << std::endl;
 
       return ghost_coarsen_count;
     };
@@ -101,15 +106,16 @@ public:
       // TODO : find a test-case that uses that
       // TODO : communicate only needed octants
 
-      GhostCommunicator_full_blocks ghost_comm(foreach_cell.get_amr_mesh(), Uin.getShape(), -1 );
-      ghost_comm.exchange_ghosts( Uin );
-      remap_aux(Uin, Uout);
+      // Uin is an array on the old mesh
+      this->ghost_comm_old->exchange_ghosts( Uin );
+      remap();
     }
   }
 
 private:
   ForeachCell& foreach_cell;
   LightOctree lmesh_old;
+  std::shared_ptr<GhostCommunicator_full_blocks> ghost_comm_old;
 };
 
 } // namespace dyablo;
-- 
2.43.0


From 56bc63e0c2217d0478a181826301912a02eefd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:49 +0000
Subject: [PATCH 06/32] fix: load balancing attributed cell values to the wrong
 field when fields are not stored in name order

---
 core/src/UserData_fields.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/core/src/UserData_fields.h b/core/src/UserData_fields.h
index f03dbc4..a2e4f93 100644
--- a/core/src/UserData_fields.h
+++ b/core/src/UserData_fields.h
@@ -279,17 +279,22 @@ inline void UserData_fields::exchange_loadbalance( const ViewCommunicator& ghost
 {
     {  
         UserData_fields::FieldAccessor fields_old = this->backup_and_realloc();
+        // Position of a field in the old view is arbitrary, fields are reordered in the new view
         int nb_fields = this->nbFields();
-        auto old_fields_View = Kokkos::subview( fields_old.fields.U, 
-                                                Kokkos::ALL(),
-                                                std::make_pair(0, nb_fields),
-                                                Kokkos::ALL()  );
-        auto new_fields_View = Kokkos::subview(this->fields.U, 
-                                                Kokkos::ALL(),
-                                                std::make_pair(0, nb_fields),
-                                                Kokkos::ALL()  );
-        
-        ghost_comm.exchange_ghosts<2>(old_fields_View, new_fields_View );
+        for( int i=0; i<nb_fields; i++ )
+        {
+            int index_old = fields_old.fm_active[i];
+            auto old_field_View = Kokkos::subview( fields_old.fields.U, 
+                                                   Kokkos::ALL(),
+                                                   std::make_pair(index_old, index_old+1),
+                                                   Kokkos::ALL()  );
+            auto new_field_View = Kokkos::subview( this->fields.U, 
+                                                   Kokkos::ALL(),
+                                                   std::make_pair(i, i+1),
+                                                   Kokkos::ALL()  );
+
+            ghost_comm.exchange_ghosts<2>( old_field_View, new_field_View );
+        }
     }// This block is important to deallocate fields_old before extend_fields()
 
     this->extend_fields();
-- 
2.43.0


From fe47a1ab8d381f0fe3a54abb43155273d03ae451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:49 +0000
Subject: [PATCH 07/32] fix: moving a field onto itself deleted it

---
 core/src/UserData_fields.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/UserData_fields.h b/core/src/UserData_fields.h
index a2e4f93..e5f3c89 100644
--- a/core/src/UserData_fields.h
+++ b/core/src/UserData_fields.h
@@ -160,6 +160,9 @@ public:
     {
         DYABLO_ASSERT_HOST_RELEASE( this->has_field(src), "UserData_fields::move_field() - field doesn't exist : " << src);
 
+        if( dest == src )
+            return;
+
         field_index[ dest ] = field_index.at( src );
         field_index.erase( src );
     }
-- 
2.43.0


From 34894992e9d32c3d76976070eb495adc165eea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:50 +0000
Subject: [PATCH 08/32] fix: new_fields() refused because of an existing name
 had already created some fields

---
 core/src/UserData_fields.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/UserData_fields.h b/core/src/UserData_fields.h
index e5f3c89..6d6ca65 100644
--- a/core/src/UserData_fields.h
+++ b/core/src/UserData_fields.h
@@ -71,6 +71,10 @@ public:
             DYABLO_ASSERT_HOST_RELEASE( fields.Ughost.extent(2) == foreach_cell.get_amr_mesh().getNumGhosts(), "UserData_fields internal error : mismatch between allocated size and ghost octant count" );
         }
         
+        for( const std::string& name : names )
+            if( this->has_field(name) )
+                throw std::runtime_error(std::string("UserData_fields::new_fields() - field already exists : ") + name);
+
         int needed_field_count = nbFields() + names.size();
         this->max_field_count = std::max( this->max_field_count, needed_field_count );
         int allocated_field_count = fields.nbfields();
@@ -82,8 +86,6 @@ public:
 
         for( const std::string& name : names )
         {
-            if( this->has_field(name) )
-                throw std::runtime_error(std::string("UserData_fields::new_fields() - field already exists : ") + name);
             /// Find first free ivar in `fields` view
             auto first_free = [&]() -> int
             {
-- 
2.43.0


From 807bb289452e809013317ba8457b20c3b2f3bc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:42 +0000
Subject: [PATCH 09/32] fix: adding a particle attribute after deleting one
 failed or lost values (allocated and enabled counts differ)

---
 core/src/UserData_particles.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/UserData_particles.h b/core/src/UserData_particles.h
index 3995418..7a8507e 100644
--- a/core/src/UserData_particles.h
+++ b/core/src/UserData_particles.h
@@ -42,7 +42,7 @@ public:
             int nb_new_attributes = 1;
             int needed_attr_count = nbAttributes() + nb_new_attributes;
             this->max_particle_count = std::max( this->max_particle_count, needed_attr_count );
-            int allocated_attr_count = nbAttributes();
+            int allocated_attr_count = particles.nbfields();
             if( needed_attr_count > allocated_attr_count )
             {
                 ParticleData particles_new( particles, FieldManager(needed_attr_count) );
-- 
2.43.0


From 1d8e28f0e7bf3d780a75632602cf4d6532d9f9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:42 +0000
Subject: [PATCH 10/32] fix: moving a particle attribute onto itself deleted it

---
 core/src/UserData_particles.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/UserData_particles.h b/core/src/UserData_particles.h
index 7a8507e..27dbdae 100644
--- a/core/src/UserData_particles.h
+++ b/core/src/UserData_particles.h
@@ -125,6 +125,9 @@ public:
         {
             DYABLO_ASSERT_HOST_RELEASE( this->has_ParticleAttribute(attr_src), "move_ParticleAttribute() - source attribute doesn't exist : " << attr_src);
 
+            if( attr_dest == attr_src )
+                return;
+
             attribute_index[ attr_dest ] = attribute_index.at(attr_src);
             attribute_index.erase( attr_src );
         }
-- 
2.43.0


From 5781ea7d2ce9e9c62dffb43bbbd1b28125c7e2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:34 +0000
Subject: [PATCH 11/32] fix: neighbour in a diagonal direction could be a
 smaller cell that does not touch the current cell

---
 core/src/foreach_cell/AMRBlockForeachCell_CellArray.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h b/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h
index e9b2e6c..40889fb 100644
--- a/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h
+++ b/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h
@@ -698,9 +698,9 @@ CellIndex CellIndex::getNeighbor_ghost( const offset_t& offset, const CellArray_
 
       // Compute cell position in neighbor meta-bloc of size {2*bx, 2*by, 2*bz}
       // Pick the smallest index {i_smaller, j_smaller, k_smaller} contiguous to current cell
-      uint32_t i_smaller = i*2 + (int)(i<0) - oct_offset[IX] * bx * 2; 
-      uint32_t j_smaller = j*2 + (int)(j<0) - oct_offset[IY] * by * 2;
-      uint32_t k_smaller = k*2 + (int)(k<0) - oct_offset[IZ] * bz * 2;
+      uint32_t i_smaller = i*2 + (int)(offset[IX]<0) - oct_offset[IX] * bx * 2; 
+      uint32_t j_smaller = j*2 + (int)(offset[IY]<0) - oct_offset[IY] * by * 2;
+      uint32_t k_smaller = k*2 + (int)(offset[IZ]<0) - oct_offset[IZ] * bz * 2;
 
       DYABLO_ASSERT_KOKKOS_DEBUG(i_smaller<2*bx, "internal error : i out of block bounds");
       DYABLO_ASSERT_KOKKOS_DEBUG(j_smaller<2*by, "internal error : j out of block bounds");
-- 
2.43.0


From 52a153e6a57e80c732145b385bae2476bbcde150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:59 +0000
Subject: [PATCH 12/32] fix: ghost depth larger than one dimension of the block
 was not refused and exchanged wrong cells

---
 core/src/mpi/GhostCommunicator_partial_blocks.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/mpi/GhostCommunicator_partial_blocks.cpp b/core/src/mpi/GhostCommunicator_partial_blocks.cpp
index 589af6a..1e7d22a 100644
--- a/core/src/mpi/GhostCommunicator_partial_blocks.cpp
+++ b/core/src/mpi/GhostCommunicator_partial_blocks.cpp
@@ -42,7 +42,7 @@ void precompute_facemask_cells( uint32_t bx, uint32_t by, uint32_t bz, uint32_t
   };
 
   int masks_count = (1 << Face::FACE_COUNT);
-  DYABLO_ASSERT_HOST_RELEASE( ghost_count <= bx || ghost_count <= by, "GhostCommunicator_partial_blocks::init : ghost_count ("<<ghost_count<<") not compatible with block size (" << bx << "," << by << "," << bz << ")"  );
+  DYABLO_ASSERT_HOST_RELEASE( ghost_count <= bx && ghost_count <= by, "GhostCommunicator_partial_blocks::init : ghost_count ("<<ghost_count<<") not compatible with block size (" << bx << "," << by << "," << bz << ")"  );
 
   for( CellMask mask = 1; mask < masks_count; mask++  )
   {
@@ -111,7 +111,7 @@ void GhostCommunicator_partial_blocks::init( const AMRmesh_hashmap_new& amr_mesh
 
   int mpi_size = mpi_comm.MPI_Comm_size();
 
-  DYABLO_ASSERT_HOST_RELEASE( ghost_count <= shape.bx || ghost_count <= shape.by, "GhostCommunicator_partial_blocks::init : ghost_count ("<<ghost_count<<") not compatible with block size (" << shape.bx << "," << shape.by << "," << shape.bz << ")"  );
+  DYABLO_ASSERT_HOST_RELEASE( ghost_count <= (int)shape.bx && ghost_count <= (int)shape.by, "GhostCommunicator_partial_blocks::init : ghost_count ("<<ghost_count<<") not compatible with block size (" << shape.bx << "," << shape.by << "," << shape.bz << ")"  );
 
   // Exchange ghostmap sizes
   GhostMap_t ghostmap = amr_mesh.getGhostMap();
-- 
2.43.0


From 7c11b9c92233d130496b239c899bbf7ddc26acb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:57 +0000
Subject: [PATCH 13/32] fix: a frequency of 0 crashed with a division by zero

---
 core/src/DyabloTimeLoop.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index 3c6a3fd..cb0487a 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -47,7 +47,7 @@ public:
     : var(var),
       enabled( interval > 0 ),
       interval(interval),
-      last_trigger( std::floor(scalar_data.get<T>(var)/interval) * interval )
+      last_trigger( enabled ? (T)(std::floor(scalar_data.get<T>(var)/interval) * interval) : T(0) )
   {}
 
   bool trigger( const ScalarSimulationData& scalar_data )
-- 
2.43.0


From 7a9270bc0f01f2c9f49cc2e5095577bc97206f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:57 +0000
Subject: [PATCH 14/32] fix: particles read by a restart were left on the wrong
 process

---
 core/src/DyabloTimeLoop.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index cb0487a..e543dea 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -264,6 +264,11 @@ public:
             timers);
         initial_conditions->init( U );
       }     
+
+      // Particles may have been created (or read from a checkpoint) on any process :
+      // send them to the process that owns their octant
+      for( const std::string& particle_array : U.getEnabledParticleArrays() )
+        U.distributeParticles( particle_array );
     } 
     timers.get("initial_conditions").stop();
 
-- 
2.43.0


From bac6246dc72f92390a43b4c37c2088908bc97820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:57 +0000
Subject: [PATCH 15/32] fix: HydroUpdate_legacy read ghost cells that were not
 exchanged next to smaller octants

---
 core/src/DyabloTimeLoop.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index e543dea..e9c01f7 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -317,8 +317,9 @@ public:
       int hydro_ghost_count;      
       if( godunov_updater_id.find("oneneighbor") != std::string::npos )
         hydro_ghost_count = 2; // Could be 1 but other kernels may need 2
-      else if( godunov_updater_id.find("hancock") != std::string::npos )
-        hydro_ghost_count = 4;
+      else if( godunov_updater_id.find("hancock") != std::string::npos 
+            || godunov_updater_id.find("legacy") != std::string::npos )
+        hydro_ghost_count = 4; // 2 ghost cells around the block : 4 cells in a smaller neighbor
       else
         hydro_ghost_count = 2;
 
-- 
2.43.0


From 07906957f0ccc619677d04e1187eea3962bf40f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:57 +0000
Subject: [PATCH 16/32] fix: a run with nothing left to do made an extra step

---
 core/src/DyabloTimeLoop.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index e9c01f7..1f1e540 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -521,7 +521,8 @@ public:
     // NOTE : mpirun catches SIGINT and forwards SIGTERM to child process
     // NOTE : scancel sends SIGTERM by default, you can use 'scancel -s INT'
     signal( SIGINT, interrupt_handler );
-    bool finished = false;
+    // There may be nothing left to do (ex: restart from the last checkpoint)
+    bool finished = m_iteration_handler->stop_criterion( m_scalar_data );
     while( !finished )
     {
       step();      
-- 
2.43.0


From 90d025e4217f0538017dc4cc2724f4fb9c5ff9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:57 +0000
Subject: [PATCH 17/32] fix: checkpoints of particle attributes were
 inconsistent between processes

---
 core/src/io/IOManager_checkpoint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/io/IOManager_checkpoint.cpp b/core/src/io/IOManager_checkpoint.cpp
index 64131d3..f192c5d 100644
--- a/core/src/io/IOManager_checkpoint.cpp
+++ b/core/src/io/IOManager_checkpoint.cpp
@@ -69,7 +69,7 @@ public:
         hdf5_file.collective_write( std::string("particles/")+particle_array+"/pos/y", Kokkos::subview( pos, Kokkos::ALL(), (int)IY ) );
         hdf5_file.collective_write( std::string("particles/")+particle_array+"/pos/z", Kokkos::subview( pos, Kokkos::ALL(), (int)IZ ) );
         for( const std::string& attr : U.getEnabledParticleAttributes( particle_array ) )
-          hdf5_file.collective_write( std::string("particles/")+particle_array+"/attributes/"+attr, U.getParticleAttribute(particle_array, attr).particle_data );
+          hdf5_file.collective_write( std::string("particles/")+particle_array+"/attributes/"+attr, Kokkos::subview( U.getParticleAttribute(particle_array, attr).particle_data, Kokkos::ALL(), 0 ) );
       }
 
       // Select subview containing local octants
-- 
2.43.0


From 2e4effb7b2a64d222f3b3267026229c9fc9846a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:57 +0000
Subject: [PATCH 18/32] fix: compute_dt kernels aborted on a process without
 cells or particles

---
 core/src/compute_dt/Compute_dt_hydro.cpp             | 5 ++++-
 core/src/compute_dt/Compute_dt_parabolic.cpp         | 5 ++++-
 core/src/compute_dt/Compute_dt_particle_velocity.cpp | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/core/src/compute_dt/Compute_dt_hydro.cpp b/core/src/compute_dt/Compute_dt_hydro.cpp
index e32b6c2..0e7ad06 100644
--- a/core/src/compute_dt/Compute_dt_hydro.cpp
+++ b/core/src/compute_dt/Compute_dt_hydro.cpp
@@ -1,3 +1,5 @@
+#include <limits>
+
 #include "Compute_dt_base.h"
 
 #include "utils_hydro.h"
@@ -119,7 +121,8 @@ public:
 
     }, Kokkos::Max<real_t>(inv_dt) );
 
-    real_t dt = cfl / inv_dt;
+    // inv_dt < 0 : there are no cells on this process, nothing constrains the time step
+    real_t dt = inv_dt < 0 ? std::numeric_limits<real_t>::max() : cfl / inv_dt;
     DYABLO_ASSERT_HOST_RELEASE(dt>0, "invalid dt = " << dt);
     return dt;
   }
diff --git a/core/src/compute_dt/Compute_dt_parabolic.cpp b/core/src/compute_dt/Compute_dt_parabolic.cpp
index 9702db2..723091b 100644
--- a/core/src/compute_dt/Compute_dt_parabolic.cpp
+++ b/core/src/compute_dt/Compute_dt_parabolic.cpp
@@ -1,3 +1,5 @@
+#include <limits>
+
 #include "Compute_dt_base.h"
 
 #include "utils_hydro.h"
@@ -102,7 +104,8 @@ public:
       inv_dt_update = FMAX( inv_dt_update, max_dt_visc );
     }, Kokkos::Max<real_t>(inv_dt) );
 
-    real_t dt = cfl / inv_dt;
+    // inv_dt < 0 : there are no cells on this process, nothing constrains the time step
+    real_t dt = inv_dt < 0 ? std::numeric_limits<real_t>::max() : cfl / inv_dt;
     DYABLO_ASSERT_HOST_RELEASE(dt>0, "invalid dt = " << dt);
     return dt;
   }
diff --git a/core/src/compute_dt/Compute_dt_particle_velocity.cpp b/core/src/compute_dt/Compute_dt_particle_velocity.cpp
index a36a67a..f710f13 100644
--- a/core/src/compute_dt/Compute_dt_particle_velocity.cpp
+++ b/core/src/compute_dt/Compute_dt_particle_velocity.cpp
@@ -1,3 +1,5 @@
+#include <limits>
+
 #include "Compute_dt_base.h"
 
 #include "utils_hydro.h"
@@ -76,7 +78,8 @@ public:
       inv_dt_update = FMAX( inv_dt_update, v/dmin);
     }, Kokkos::Max<real_t>(inv_dt));
 
-    real_t dt = cfl / inv_dt;
+    // inv_dt < 0 : there are no particles on this process, nothing constrains the time step
+    real_t dt = inv_dt < 0 ? std::numeric_limits<real_t>::max() : cfl / inv_dt;
     DYABLO_ASSERT_HOST_RELEASE(dt>0, "invalid dt = " << dt);
     return dt;
   }
-- 
2.43.0


From 81e7f45cac200f35676928fe1f4053768ead7ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:57 +0000
Subject: [PATCH 19/32] fix: HydroUpdate_legacy divided by zero on a process
 without octants

---
 core/src/hydro/HydroUpdate_legacy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/hydro/HydroUpdate_legacy.cpp b/core/src/hydro/HydroUpdate_legacy.cpp
index 1c2f529..a696f15 100644
--- a/core/src/hydro/HydroUpdate_legacy.cpp
+++ b/core/src/hydro/HydroUpdate_legacy.cpp
@@ -53,6 +53,10 @@ void HydroUpdate_legacy::update( UserData& U_, ScalarSimulationData& scalar_data
   ForeachCell& foreach_cell = pdata->foreach_cell;
   const LightOctree& lmesh = foreach_cell.get_amr_mesh().getLightOctree();
 
+  // Nothing to update on a process without octants (groups would have size 0)
+  if( lmesh.getNumOctants() == 0 )
+    return;
+
   uint32_t nbOctsPerGroup = std::min( 
       lmesh.getNumOctants(), 
       pdata->nbOctsPerGroup
-- 
2.43.0


From 414c931ea37db0b763c0999ca2c5974b2421ba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:49 +0000
Subject: [PATCH 20/32] fix: lines of 200 characters and more in .ini files
 were split or refused

---
 core/src/utils/config/inih/ini.cpp | 2 +-
 core/src/utils/config/inih/ini.h   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/utils/config/inih/ini.cpp b/core/src/utils/config/inih/ini.cpp
index 509952d..6463d5a 100644
--- a/core/src/utils/config/inih/ini.cpp
+++ b/core/src/utils/config/inih/ini.cpp
@@ -140,7 +140,7 @@ int ini_parse_stream(ini_reader reader, void* stream, ini_handler handler,
             max_line *= 2;
             if (max_line > INI_MAX_LINE)
                 max_line = INI_MAX_LINE;
-            new_line = ini_realloc(line, max_line);
+            new_line = (char*)ini_realloc(line, max_line);
             if (!new_line) {
                 ini_free(line);
                 return -2;
diff --git a/core/src/utils/config/inih/ini.h b/core/src/utils/config/inih/ini.h
index d1a2ba8..e491b10 100644
--- a/core/src/utils/config/inih/ini.h
+++ b/core/src/utils/config/inih/ini.h
@@ -121,20 +121,20 @@ INI_API int ini_parse_string(const char* string, ini_handler handler, void* user
 
 /* Nonzero to use stack for line buffer, zero to use heap (malloc/free). */
 #ifndef INI_USE_STACK
-#define INI_USE_STACK 1
+#define INI_USE_STACK 0
 #endif
 
 /* Maximum line length for any line in INI file (stack or heap). Note that
    this must be 3 more than the longest line (due to '\r', '\n', and '\0'). */
 #ifndef INI_MAX_LINE
-#define INI_MAX_LINE 200
+#define INI_MAX_LINE (1<<24)
 #endif
 
 /* Nonzero to allow heap line buffer to grow via realloc(), zero for a
    fixed-size buffer of INI_MAX_LINE bytes. Only applies if INI_USE_STACK is
    zero. */
 #ifndef INI_ALLOW_REALLOC
-#define INI_ALLOW_REALLOC 0
+#define INI_ALLOW_REALLOC 1
 #endif
 
 /* Initial size in bytes for heap line buffer. Only applies if INI_USE_STACK
-- 
2.43.0


From e7081fde5b3fc929f3d3b24a5b3620690e350e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:49 +0000
Subject: [PATCH 21/32] fix: RefineCondition_second_derivative_error never
 coarsened

---
 .../refine_condition/RefineCondition_second_derivative_error.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/refine_condition/RefineCondition_second_derivative_error.cpp b/core/src/refine_condition/RefineCondition_second_derivative_error.cpp
index 446e2b4..e37f1b8 100644
--- a/core/src/refine_condition/RefineCondition_second_derivative_error.cpp
+++ b/core/src/refine_condition/RefineCondition_second_derivative_error.cpp
@@ -117,6 +117,7 @@ public:
 
     uint32_t nbOcts = foreach_cell.get_amr_mesh().getNumOctants();
     Kokkos::View<int*> oct_marker_max("Oct_marker_max", nbOcts);
+    Kokkos::deep_copy( oct_marker_max, (int)RefineCondition::COARSEN );
 
     const UserData::FieldAccessor Uin = Uin_.getAccessor( ConsState::getFieldsInfo() );
 
-- 
2.43.0


From 37bb7a1452e32c783fbc62e9608dd0926e6fbd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:49 +0000
Subject: [PATCH 22/32] fix: CIC shares of several smaller neighbours did not
 sum to the share of the region

---
 core/src/particles/ParticleUpdate_CIC_density.cpp | 8 ++++++--
 core/src/particles/ParticleUpdate_CIC_move.cpp    | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/src/particles/ParticleUpdate_CIC_density.cpp b/core/src/particles/ParticleUpdate_CIC_density.cpp
index 0fc978b..3a88b86 100644
--- a/core/src/particles/ParticleUpdate_CIC_density.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_density.cpp
@@ -98,10 +98,14 @@ public:
         else 
         {
           // Smaller : write to all smaller neighbors
-          //real_t volume_fraction_smaller = volume_fraction/(2*(ndim-1)); // Mass distributed accross neighbors
+          //real_t volume_fraction_smaller = volume_fraction/nneighbors; // Mass distributed accross neighbors
           //real_t Vcell_smaller = Vcell/( 2*2*(ndim-1) ) // Volume 2^ndim times smaller
           //real_t rho_contrib_smaller = (part_mass * volume_fraction_smaller) / Vcell_smaller;
-          real_t rho_contrib = 2 * (part_mass * volume_fraction) / Vcell;
+          // Number of neighbors is divided by 2 for each direction with an offset
+          int nneighbors_inv = 1; // 2^ndim / nneighbors
+          for( int i=0; i<ndim; i++ )
+            if( offset[i] != 0 ) nneighbors_inv *= 2;
+          real_t rho_contrib = nneighbors_inv * (part_mass * volume_fraction) / Vcell;
           foreach_smaller_neighbor<ndim>( iCell_neighbor, offset, Uin.getShape(),
             [&]( const ForeachCell::CellIndex& iCell_sn )
           {
diff --git a/core/src/particles/ParticleUpdate_CIC_move.cpp b/core/src/particles/ParticleUpdate_CIC_move.cpp
index 3c89bd0..a20ba51 100644
--- a/core/src/particles/ParticleUpdate_CIC_move.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_move.cpp
@@ -98,7 +98,10 @@ public:
         }
         else 
         {
-          int nneighbors = 2*(ndim-1);
+          // 2^ndim, divided by 2 for each direction with an offset
+          int nneighbors = 1;
+          for( int i=0; i<ndim; i++ )
+            if( offset[i] == 0 ) nneighbors *= 2;
           foreach_smaller_neighbor<ndim>( iCell_neighbor, offset, Uin.getShape(),
             [&]( const ForeachCell::CellIndex& iCell_sn )
           {
-- 
2.43.0


From a8bff073fa6e70a109254456c6d398d24a525f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:49 +0000
Subject: [PATCH 23/32] fix: CIC kernels accessed a cell outside the domain
 next to a wall

---
 core/src/particles/ParticleUpdate_CIC_density.cpp | 2 ++
 core/src/particles/ParticleUpdate_CIC_move.cpp    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/core/src/particles/ParticleUpdate_CIC_density.cpp b/core/src/particles/ParticleUpdate_CIC_density.cpp
index 3a88b86..14663f2 100644
--- a/core/src/particles/ParticleUpdate_CIC_density.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_density.cpp
@@ -78,6 +78,8 @@ public:
       auto apply_rho_contrib = [&]( const ForeachCell::CellIndex::offset_t& offset )
       {
         ForeachCell::CellIndex iCell_neighbor = iCell.getNeighbor_ghost(offset, Uin);
+        if( iCell_neighbor.is_boundary() ) // No cell outside the domain
+          return;
         real_t cx = (offset[IX]==0)?v_in[IX]:v_out[IX];
         real_t cy = (offset[IY]==0)?v_in[IY]:v_out[IY];
         real_t cz = (offset[IZ]==0)?v_in[IZ]:v_out[IZ];
diff --git a/core/src/particles/ParticleUpdate_CIC_move.cpp b/core/src/particles/ParticleUpdate_CIC_move.cpp
index a20ba51..9ca7831 100644
--- a/core/src/particles/ParticleUpdate_CIC_move.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_move.cpp
@@ -83,6 +83,8 @@ public:
       auto apply_g_contrib = [&]( const ForeachCell::CellIndex::offset_t& offset )
       {
         ForeachCell::CellIndex iCell_neighbor = iCell.getNeighbor_ghost(offset, Uin);
+        if( iCell_neighbor.is_boundary() ) // No cell outside the domain
+          return;
         real_t cx = (offset[IX]==0)?v_in[IX]:v_out[IX];
         real_t cy = (offset[IY]==0)?v_in[IY]:v_out[IY];
         real_t cz = (offset[IZ]==0)?v_in[IZ]:v_out[IZ];
-- 
2.43.0


From 542802fee0ac79006559571cc496023110088346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:49 +0000
Subject: [PATCH 24/32] fix: CIC density accumulated previous ghost values of
 rho_g

---
 core/src/particles/ParticleUpdate_CIC_density.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/particles/ParticleUpdate_CIC_density.cpp b/core/src/particles/ParticleUpdate_CIC_density.cpp
index 14663f2..36390f3 100644
--- a/core/src/particles/ParticleUpdate_CIC_density.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_density.cpp
@@ -52,6 +52,13 @@ public:
     {
       Uin.at(iCell, IRhoG) = Uin.at(iCell, IRho);
     });
+
+    // Ghosts only accumulate contributions for the owner : forget previous values
+    foreach_cell.foreach_ghost_cell( "ParticleUpdate_CIC_density::reset_ghosts", Uin.getShape(),
+      KOKKOS_LAMBDA( const ForeachCell::CellIndex& iCell )
+    {
+      Uin.at(iCell, IRhoG) = 0;
+    });
     
     foreach_particle.foreach_particle( "ParticleUpdate_CIC_density::projection", Ppos,
       KOKKOS_LAMBDA( const ForeachParticle::ParticleIndex& iPart )
-- 
2.43.0


From 2c28fc185205cb4ea7dcadc36d5c2c0400700950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:32 +0000
Subject: [PATCH 25/32] fix: HydroUpdate_legacy: use the gravity field in the
 prediction for every field gravity type

---
 core/src/legacy/MusclBlockGodunovUpdateFunctor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/legacy/MusclBlockGodunovUpdateFunctor.h b/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
index f8f10eb..a58351b 100644
--- a/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
+++ b/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
@@ -534,7 +534,7 @@ public:
       if (ndim == 3)
         res[IZ] = params.gz;
     }
-    else if (params.gravity_type == GRAVITY_CST_FIELD) {
+    else if (params.gravity_type & GRAVITY_FIELD) {
       res[IX] = Ugroup(index, fm[IGX], iOct_local);
       res[IY] = Ugroup(index, fm[IGY], iOct_local);
       if (ndim == 3)
-- 
2.43.0


From 6d8ffb446e933a50d4c47f21b0766cbc25ce5cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:32 +0000
Subject: [PATCH 26/32] fix: HydroUpdate_legacy: read gx and gy in the cell the
 gravity source term is applied to

---
 core/src/legacy/MusclBlockGodunovUpdateFunctor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/legacy/MusclBlockGodunovUpdateFunctor.h b/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
index a58351b..1638c30 100644
--- a/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
+++ b/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
@@ -765,8 +765,8 @@ public:
     real_t gx, gy, gz;
     if (params.gravity_type & GRAVITY_FIELD)
     {
-      gx = Ugroup(index, fm[IGX], iOct_g);
-      gy = Ugroup(index, fm[IGY], iOct_g);
+      gx = Ugroup(index_g, fm[IGX], iOct_g);
+      gy = Ugroup(index_g, fm[IGY], iOct_g);
 
       if (ndim == 3)
         gz = Ugroup(index_g, fm[IGZ], iOct_g);
-- 
2.43.0


From a4b93296cf7f5221bb1b9b6ea39ac6f5a0b5630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:32 +0000
Subject: [PATCH 27/32] fix: HydroUpdate_legacy: 3D gravity source term with a
 constant scalar gravity

---
 core/src/legacy/MusclBlockGodunovUpdateFunctor.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/src/legacy/MusclBlockGodunovUpdateFunctor.h b/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
index 1638c30..d055c60 100644
--- a/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
+++ b/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
@@ -1829,9 +1829,10 @@ public:
 
     const auto& fm_state = fm_state_3D();
 
-    const real_t gx = Ugroup(index, fm[IGX], iOct_local);
-    const real_t gy = Ugroup(index, fm[IGY], iOct_local);
-    const real_t gz = Ugroup(index, fm[IGZ], iOct_local);
+    const GravityField g = get_gravity_field(index, iOct_local);
+    const real_t gx = g[IX];
+    const real_t gy = g[IY];
+    const real_t gz = g[IZ];
 
     real_t rhoOld = qOld[fm_state[ID]];
     real_t rhoNew = qNew[fm_state[ID]];
-- 
2.43.0


From f0472605cb1c0c90583f5e0cbeab449883c5bcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:14 +0000
Subject: [PATCH 28/32] fix: simple_particles: do not read past the end of the
 configured lists

---
 core/src/init/InitialConditions_simple_particles.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/init/InitialConditions_simple_particles.cpp b/core/src/init/InitialConditions_simple_particles.cpp
index fe92b2f..cd56794 100644
--- a/core/src/init/InitialConditions_simple_particles.cpp
+++ b/core/src/init/InitialConditions_simple_particles.cpp
@@ -30,7 +30,7 @@ public:
     auto parse_array = [&](const Kokkos::View<double*>& a, const std::string& var)
     {
       std::vector<double> values = configMap.getValue< std::vector<double> >("simple_particles", var, {});
-      int nb_values = std::max((int)values.size(),npart); // Select at most npart values from .ini
+      int nb_values = std::min((int)values.size(),npart); // Select at most npart values from .ini
 
       // Create unmanaged view to copy vector
       using UnmanagedHostView = Kokkos::View<double*, Kokkos::HostSpace, Kokkos::MemoryTraits<Kokkos::Unmanaged> >;
-- 
2.43.0


From 726049a96e493136e98925ea59c9cf9a8b1d4273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:14 +0000
Subject: [PATCH 29/32] fix: particle_grid: particles of a 2D run belong to the
 plane of the mesh

---
 core/src/init/InitialConditions_particle_grid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/init/InitialConditions_particle_grid.cpp b/core/src/init/InitialConditions_particle_grid.cpp
index 81ef377..eec3a61 100644
--- a/core/src/init/InitialConditions_particle_grid.cpp
+++ b/core/src/init/InitialConditions_particle_grid.cpp
@@ -126,6 +126,7 @@ public:
     real_t xmin = this->xmin;
     real_t ymin = this->ymin;
     real_t zmin = this->zmin;
+    bool is_2D = foreach_cell.getDim() == 2;
 
     {
       UserData::ParticleArray_t P = U.getParticleArray( particle_array_name );
@@ -141,7 +142,7 @@ public:
 
         P.pos(iPart, IX) = xmin + i*dx + 0.5*dx;
         P.pos(iPart, IY) = ymin + j*dy + 0.5*dy;
-        P.pos(iPart, IZ) = zmin + k*dz + 0.5*dz;
+        P.pos(iPart, IZ) = is_2D ? zmin : zmin + k*dz + 0.5*dz; // in 2D, particles live in the z=zmin plane
       });
     }
 
-- 
2.43.0


From 04efae375c4d8259722f817451d57d0b59ea5297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:14 +0000
Subject: [PATCH 30/32] fix: blast, MHD_blast: use the configured center of the
 blast

---
 core/src/init/InitialConditions_MHD_blast.cpp | 6 +++---
 core/src/init/InitialConditions_blast.cpp     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/src/init/InitialConditions_MHD_blast.cpp b/core/src/init/InitialConditions_MHD_blast.cpp
index cd51f6b..21cd6e4 100644
--- a/core/src/init/InitialConditions_MHD_blast.cpp
+++ b/core/src/init/InitialConditions_MHD_blast.cpp
@@ -83,9 +83,9 @@ struct AnalyticalFormula_MHD_blast : public AnalyticalFormula_base{
         int qiy = (int)(y / qsy);
         int qiz = (int)(z / qsz);
         // Quadrant physical center
-        real_t qcx = (qix+0.5)*qsx;
-        real_t qcy = (qiy+0.5)*qsy;
-        real_t qcz = (qiz+0.5)*qsz;
+        real_t qcx = (qix+this->blast_center_x)*qsx;
+        real_t qcy = (qiy+this->blast_center_y)*qsy;
+        real_t qcz = (qiz+this->blast_center_z)*qsz;
 
         const real_t Bx = blast_B * cos(blast_B_angle);
         const real_t By = blast_B * sin(blast_B_angle);
diff --git a/core/src/init/InitialConditions_blast.cpp b/core/src/init/InitialConditions_blast.cpp
index 23d7a93..dd8ee54 100644
--- a/core/src/init/InitialConditions_blast.cpp
+++ b/core/src/init/InitialConditions_blast.cpp
@@ -113,9 +113,9 @@ struct AnalyticalFormula_blast : public AnalyticalFormula_base{
         int qiy = (int)(y / qsy);
         int qiz = (int)(z / qsz);
         // Quadrant physical center
-        real_t qcx = (qix+0.5)*qsx;
-        real_t qcy = (qiy+0.5)*qsy;
-        real_t qcz = (qiz+0.5)*qsz;
+        real_t qcx = (qix+this->blast_center_x)*qsx;
+        real_t qcy = (qiy+this->blast_center_y)*qsy;
+        real_t qcz = (qiz+this->blast_center_z)*qsz;
 
         real_t r2 = (x-qcx)*(x-qcx) + (y-qcy)*(y-qcy);
         if( this->ndim == 3 ) r2 += (z-qcz)*(z-qcz);
-- 
2.43.0


From 6f9951d0253054f76ed8fff1a3c4859ad0c45932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:14 +0000
Subject: [PATCH 31/32] fix: time loop: exchange gx, gy, gz only when gravity
 is a field

---
 core/src/DyabloTimeLoop.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index 1f1e540..361897a 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -697,9 +697,13 @@ public:
       gravity_solver->update_gravity_field(U, m_scalar_data);
 
       // Maybe put this only in CIC move since we don't need it for NGP
-      timers.get("MPI ghosts").start();
-      communicate_ghosts( {"gx", "gy", "gz"} );
-      timers.get("MPI ghosts").stop();
+      // (there is no gravity field with a constant scalar gravity)
+      if( m_gravity_type & GRAVITY_FIELD )
+      {
+        timers.get("MPI ghosts").start();
+        communicate_ghosts( {"gx", "gy", "gz"} );
+        timers.get("MPI ghosts").stop();
+      }
 
       // Restore rho before projection (only if particle projection)
       if( particle_update_density )
-- 
2.43.0


From f4cf0ff6678868e919a8d4c7a4bef2aec94d163d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:06 +0000
Subject: [PATCH 32/32] fix: well balanced hydro update: no gravity where none
 is configured

gx, gy and gz were left uninitialised when gravity is off (or a field) and
the well balanced reconstruction added them to the pressures of the faces.
---
 core/src/hydro/HydroUpdate_RK2.cpp   | 2 +-
 core/src/hydro/HydroUpdate_euler.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/hydro/HydroUpdate_RK2.cpp b/core/src/hydro/HydroUpdate_RK2.cpp
index 31d7c40..bbfeed4 100644
--- a/core/src/hydro/HydroUpdate_RK2.cpp
+++ b/core/src/hydro/HydroUpdate_RK2.cpp
@@ -273,7 +273,7 @@ private:
   BoundaryConditions bc_manager;
   
   GravityType gravity_type;
-  real_t gx, gy, gz;
+  real_t gx = 0, gy = 0, gz = 0;
   bool well_balanced;
 };
 
diff --git a/core/src/hydro/HydroUpdate_euler.cpp b/core/src/hydro/HydroUpdate_euler.cpp
index c54eee7..c0a9eca 100644
--- a/core/src/hydro/HydroUpdate_euler.cpp
+++ b/core/src/hydro/HydroUpdate_euler.cpp
@@ -237,7 +237,7 @@ private:
 
   BoundaryConditions bc_manager;
   GravityType gravity_type;
-  real_t gx, gy, gz;
+  real_t gx = 0, gy = 0, gz = 0;
   bool well_balanced;
 };
 
-- 
2.43.0

