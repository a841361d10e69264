From d9dd99ab3b6688d151d905d087f487caa564034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:59 +0000
Subject: [PATCH 01/18] fix: initialise right-side flux solvers of periodic
 faces the left element does not point to

---
 src/impl/advection/solvers/common.hpp   | 2 +-
 src/impl/seismic/solvers/AderDgInit.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/impl/advection/solvers/common.hpp b/src/impl/advection/solvers/common.hpp
index 2e46f9c..44e4429 100644
--- a/src/impl/advection/solvers/common.hpp
+++ b/src/impl/advection/solvers/common.hpp
@@ -231,7 +231,7 @@ class edge::advection::solvers::common {
 
         // disable elements without face ids (allowed for periodic faces, where elFa only points to one of them)
         l_exL = l_exL && l_fLocIdL != std::numeric_limits< unsigned short >::max();
-        l_exR = l_exL && l_fLocIdR != std::numeric_limits< unsigned short >::max();
+        l_exR = l_exR && l_fLocIdR != std::numeric_limits< unsigned short >::max();
 
         // ids of neigh contribution flux solvers for the elements
         unsigned short l_fNegIdL = l_exL ? l_fLocIdL + C_ENT[T_SDISC.ELEMENT].N_FACES :
diff --git a/src/impl/seismic/solvers/AderDgInit.hpp b/src/impl/seismic/solvers/AderDgInit.hpp
index cd28185..ed57210 100644
--- a/src/impl/seismic/solvers/AderDgInit.hpp
+++ b/src/impl/seismic/solvers/AderDgInit.hpp
@@ -510,7 +510,7 @@ class edge::seismic::solvers::AderDgInit {
 
         // disable elements without face ids (allowed for periodic faces, where elFa only points to one of them)
         l_exL = l_exL && l_fIdL != std::numeric_limits< unsigned short >::max();
-        l_exR = l_exL && l_fIdR != std::numeric_limits< unsigned short >::max();
+        l_exR = l_exR && l_fIdR != std::numeric_limits< unsigned short >::max();
 
         // compute solvers for the left element
         if( l_exL ) {
-- 
2.43.0


From f04aebac43340788b3ddf1201bb5d591d29257ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:36 +0000
Subject: [PATCH 02/18] fix: use the given gravity in the f-wave solver's
 speeds

---
 src/impl/swe/solvers/Fwave.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/impl/swe/solvers/Fwave.hpp b/src/impl/swe/solvers/Fwave.hpp
index 6597f67..3a215d8 100644
--- a/src/impl/swe/solvers/Fwave.hpp
+++ b/src/impl/swe/solvers/Fwave.hpp
@@ -222,7 +222,8 @@ class edge::swe::solvers::Fwave {
       // compute eigenvalues
       evs( i_hL,   i_hR,
            l_uL,   l_uR,
-           l_lam );
+           l_lam,
+           i_g );
 
       // compute jumps in fluxes
       for( unsigned short l_cr = 0; l_cr < TL_N_CRS; l_cr++ ) {
-- 
2.43.0


From 0102bab44a74533d44da6c94eb2d0ca374b235da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:36 +0000
Subject: [PATCH 03/18] fix: hand the communication buffers to the advection
 solver

---
 src/impl/advection/inc/time/tgs_steps.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/impl/advection/inc/time/tgs_steps.inc b/src/impl/advection/inc/time/tgs_steps.inc
index 5c3d9b7..712b979 100644
--- a/src/impl/advection/inc/time/tgs_steps.inc
+++ b/src/impl/advection/inc/time/tgs_steps.inc
@@ -24,7 +24,7 @@
 if( i_step == 0 ) {
   real_base (** l_sendPtrs)[N_ELEMENT_MODES][N_CRUNS] = nullptr;
   if( m_nCommBuffers > 0 ) {
-    (real_base (**) [N_ELEMENT_MODES][N_CRUNS]) m_sendPtrs[getUpdatesSync()%m_nCommBuffers];
+    l_sendPtrs = (real_base (**) [N_ELEMENT_MODES][N_CRUNS]) m_sendPtrs[getUpdatesSync()%m_nCommBuffers];
   }
   m_internal.m_globalShared4[0]->local(  i_first,
                                          i_size,
@@ -40,7 +40,7 @@ if( i_step == 0 ) {
 else if( i_step == 1 ) {
   real_base (** l_recvPtrs)[N_ELEMENT_MODES][N_CRUNS] = nullptr;
   if( m_nCommBuffers > 0 ) {
-    (real_base (**) [N_ELEMENT_MODES][N_CRUNS]) m_recvPtrs[(getUpdatesSync()/m_nCommBuffers)%m_nCommBuffers];
+    l_recvPtrs = (real_base (**) [N_ELEMENT_MODES][N_CRUNS]) m_recvPtrs[(getUpdatesSync()/m_nCommBuffers)%m_nCommBuffers];
   }
   m_internal.m_globalShared4[0]->neigh( i_first,
                                         i_size,
-- 
2.43.0


From e12e53c2fb45cbd80f4b51d52b051e887903665e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:55 +0000
Subject: [PATCH 04/18] fix: consider all momentum components in the shallow
 water CFL condition

---
 src/impl/swe/solvers/FiniteVolume.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/impl/swe/solvers/FiniteVolume.hpp b/src/impl/swe/solvers/FiniteVolume.hpp
index 08afea7..f4fd78b 100644
--- a/src/impl/swe/solvers/FiniteVolume.hpp
+++ b/src/impl/swe/solvers/FiniteVolume.hpp
@@ -193,8 +193,14 @@ class edge::swe::solvers::FiniteVolume {
         // compute minum CFL associated time step for all concurrent runs
         double l_cDt = std::numeric_limits< double >::max();
         for( unsigned short l_ru = 0; l_ru < TL_N_CRS; l_ru++ ) {
+          // derive absolute momentum, considering all dimensions
+          double l_mom = 0;
+          for( unsigned short l_di = 0; l_di < TL_N_DIS; l_di++ )
+            l_mom += double(i_dofs[l_el][1+l_di][0][l_ru]) * double(i_dofs[l_el][1+l_di][0][l_ru]);
+          l_mom = std::sqrt( l_mom );
+
           l_cDt = std::min( l_cDt, computeCflTimeStep( i_dofs[l_el][0][0][l_ru],
-                                                       i_dofs[l_el][1][0][l_ru],
+                                                       l_mom,
                                                        i_charsEl[l_el].inDia ) );
         }
 
-- 
2.43.0


From c0a883fbe30966de2c505104c5ae0a6ef09f9399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:32 +0000
Subject: [PATCH 05/18] fix: use all modes of the derivatives when evaluating
 viscoelastic time predictions

---
 src/impl/seismic/kernels/TimePred.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/impl/seismic/kernels/TimePred.hpp b/src/impl/seismic/kernels/TimePred.hpp
index f0b3d04..1c0e2d2 100644
--- a/src/impl/seismic/kernels/TimePred.hpp
+++ b/src/impl/seismic/kernels/TimePred.hpp
@@ -145,8 +145,11 @@ class edge::seismic::kernels::TimePred {
           // update scalar
           l_scalar *= i_pts[l_pt] / l_de;
 
+          // the reactive part keeps all modes alive in viscoelastic settings
+          unsigned short l_nCpMds = (TL_N_RMS == 0) ? CE_N_ELEMENT_MODES_CK( TL_T_EL, TL_O_SP, l_de ) : TL_N_MDS;
+
           for( unsigned short l_qt = 0; l_qt < TL_N_QTS_E; l_qt++ ) {
-            for( unsigned short l_md = 0; l_md < CE_N_ELEMENT_MODES_CK( TL_T_EL, TL_O_SP, l_de ); l_md++ ) {
+            for( unsigned short l_md = 0; l_md < l_nCpMds; l_md++ ) {
               for( unsigned short l_ru = 0; l_ru < TL_N_CRS; l_ru++ )
                 o_preDofs[l_pt][l_qt][l_md][l_ru] += l_scalar * i_der[l_de][l_qt][l_md][l_ru];
             }
-- 
2.43.0


From 454753c5dc63408006935689535e601a5d7905cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:04 +0000
Subject: [PATCH 06/18] fix: use the receive pointers of the step's
 communication buffers

With two communication buffers there are four tables of receive pointers, one
per combination of the buffers of slower and of faster or equal neighbours.
The steps only ever used the first two of them and, for neighbours with a
greater or equal time step, read the other step's buffer.
---
 src/impl/advection/inc/time/tgs_steps.inc | 2 +-
 src/impl/seismic/steps.inc                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/impl/advection/inc/time/tgs_steps.inc b/src/impl/advection/inc/time/tgs_steps.inc
index 712b979..4e84988 100644
--- a/src/impl/advection/inc/time/tgs_steps.inc
+++ b/src/impl/advection/inc/time/tgs_steps.inc
@@ -40,7 +40,7 @@ if( i_step == 0 ) {
 else if( i_step == 1 ) {
   real_base (** l_recvPtrs)[N_ELEMENT_MODES][N_CRUNS] = nullptr;
   if( m_nCommBuffers > 0 ) {
-    l_recvPtrs = (real_base (**) [N_ELEMENT_MODES][N_CRUNS]) m_recvPtrs[(getUpdatesSync()/m_nCommBuffers)%m_nCommBuffers];
+    l_recvPtrs = (real_base (**) [N_ELEMENT_MODES][N_CRUNS]) m_recvPtrs[getUpdatesSync()%(m_nCommBuffers*m_nCommBuffers)];
   }
   m_internal.m_globalShared4[0]->neigh( i_first,
                                         i_size,
diff --git a/src/impl/seismic/steps.inc b/src/impl/seismic/steps.inc
index 1bf7d3d..1ba4bb8 100644
--- a/src/impl/seismic/steps.inc
+++ b/src/impl/seismic/steps.inc
@@ -54,7 +54,7 @@ else if( i_step == 1 ) {
 }
 else if( i_step == 2 ) {
   // ADER-DG: neigh contrib
-  real_base (** l_recvPtrs)[N_FACE_MODES][N_CRUNS] = (real_base (**) [N_FACE_MODES][N_CRUNS]) m_recvPtrs[(getUpdatesSync()/m_nCommBuffers)%m_nCommBuffers];
+  real_base (** l_recvPtrs)[N_FACE_MODES][N_CRUNS] = (real_base (**) [N_FACE_MODES][N_CRUNS]) m_recvPtrs[getUpdatesSync()%(m_nCommBuffers*m_nCommBuffers)];
   m_internal.m_globalShared4[0][0].neigh( i_first,
                                           i_size,
                                           getUpdatesSync()%2 == 0,
-- 
2.43.0


From e00255a5db72e552f8b6b9ef2b537b25dd21f0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:47 +0000
Subject: [PATCH 07/18] fix: integrate series correctly if both ends are in the
 same interval

---
 src/linalg/Series.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/linalg/Series.hpp b/src/linalg/Series.hpp
index 0fdbd77..aad08f7 100644
--- a/src/linalg/Series.hpp
+++ b/src/linalg/Series.hpp
@@ -74,7 +74,7 @@ class edge::linalg::Series {
       std::size_t l_first = std::max( (i_x1 - i_xStart + i_dx)/i_dx, (TL_T_REAL) 0 );
       std::size_t l_last  = std::max( (i_x2 - i_xStart       )/i_dx, (TL_T_REAL) 0 );
                   l_last  = std::min( l_last,  i_nPts-1 );
-                  l_first = std::min( l_first, l_last );
+                  l_first = std::min( l_first, i_nPts-1 );
 
 
       // add contribution of the covered intervals
@@ -87,6 +87,13 @@ class edge::linalg::Series {
         }
       }
 
+      // both ends are in the same interval: its overlap with the two remaining contributions is counted once too often
+      if( l_first > l_last ) {
+        for( unsigned short l_se = 0; l_se < TL_N_SERIES; l_se++ ) {
+          o_int[l_se] -= l_dxH*( i_vals[l_last][l_se] + i_vals[l_first][l_se] );
+        }
+      }
+
       // determine the case we are in
       // false: x1/x2 is outside the defined series
       // true:  x1/x2 it outside the defined series
-- 
2.43.0


From 698d577d26d977f9cf54fe26a31db08858975a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:29 +0000
Subject: [PATCH 08/18] fix: write no wave field if the type of the output is
 unknown

---
 src/io/WaveField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/WaveField.cpp b/src/io/WaveField.cpp
index 4faafd0..f81516c 100644
--- a/src/io/WaveField.cpp
+++ b/src/io/WaveField.cpp
@@ -101,7 +101,7 @@ void edge::io::WaveField::write( double i_time ) {
   l_outFile += "_" + parallel::g_rankStr + "_" + std::to_string((unsigned long long) m_writeStep) + ".vtk";
 
   // write output
-  if( m_elPrint.size() > 0 )
+  if( m_type != none && m_elPrint.size() > 0 )
     m_vtk.write( l_outFile,
                   m_type==vtkBinary,
                   m_nVes,
-- 
2.43.0


From 054dfefa1cfe66605bf0f80f4cfd849d716daead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:49 +0000
Subject: [PATCH 09/18] fix: initialize the centroid before summing up the
 vertices

---
 tools/edge_v/src/geom/Generic.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/edge_v/src/geom/Generic.cpp b/tools/edge_v/src/geom/Generic.cpp
index cf0fff0..da78a41 100644
--- a/tools/edge_v/src/geom/Generic.cpp
+++ b/tools/edge_v/src/geom/Generic.cpp
@@ -29,6 +29,10 @@ void edge_v::geom::Generic::centroid( t_entityType         i_enTy,
                                       double               o_cen[3] ) {
   unsigned short l_nEnVes = CE_N_VES( i_enTy );
 
+  for( unsigned short l_di = 0; l_di < 3; l_di++ ) {
+    o_cen[l_di] = 0;
+  }
+
   for( unsigned short l_ve = 0; l_ve < l_nEnVes; l_ve++ ) {
     for( unsigned short l_di = 0; l_di < 3; l_di++ ) {
       o_cen[l_di] += i_veCrds[l_ve][l_di];
-- 
2.43.0


From d9846c1f2e2ed4c0255030be44e63080d4dc05a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 10/18] fix: return the derivative of line basis functions for
 the first dimension

---
 src/dg/Basis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg/Basis.cpp b/src/dg/Basis.cpp
index 3f2f70d..66c3c4f 100644
--- a/src/dg/Basis.cpp
+++ b/src/dg/Basis.cpp
@@ -376,7 +376,7 @@ real_base edge::dg::Basis::evalBasis( unsigned int  i_b,
   real_base l_val = std::numeric_limits< real_base >::max();
 
   if( i_entType == LINE )
-    if( i_der != 1 ) evalBasisLine( i_b,
+    if( i_der != 0 ) evalBasisLine( i_b,
                                     i_xi,
                                     l_val );
     else             evalBasisDerLine( i_b,
@@ -428,7 +428,7 @@ real_base edge::dg::Basis::evalBasis( unsigned int        i_b,
   real_base l_val = std::numeric_limits< real_base >::max();
 
   if( i_enType == LINE )
-    if( i_der != 1 ) evalBasisLine( i_b,
+    if( i_der != 0 ) evalBasisLine( i_b,
                                     i_pt[0],
                                     l_val );
     else             evalBasisDerLine( i_b,
-- 
2.43.0


From fcad7c6ff85310474b0c6fef2e8f3fc46c5217b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:37 +0000
Subject: [PATCH 11/18] fix: reset the pointers of released velocity models

---
 tools/edge_v/src/models/GridExpression.cpp | 3 +++
 tools/edge_v/src/models/seismic/Ucvm.cpp   | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/tools/edge_v/src/models/GridExpression.cpp b/tools/edge_v/src/models/GridExpression.cpp
index 17e45c3..95c54e8 100644
--- a/tools/edge_v/src/models/GridExpression.cpp
+++ b/tools/edge_v/src/models/GridExpression.cpp
@@ -33,6 +33,9 @@ edge_v::models::GridExpression::GridExpression( io::Grid    const * i_grid,
 void edge_v::models::GridExpression::free() {
   if( m_speedsMin != nullptr ) delete[] m_speedsMin;
   if( m_speedsMax != nullptr ) delete[] m_speedsMax;
+
+  m_speedsMin = nullptr;
+  m_speedsMax = nullptr;
 }
 
 edge_v::models::GridExpression::~GridExpression() {
diff --git a/tools/edge_v/src/models/seismic/Ucvm.cpp b/tools/edge_v/src/models/seismic/Ucvm.cpp
index e7a761e..1a78b18 100644
--- a/tools/edge_v/src/models/seismic/Ucvm.cpp
+++ b/tools/edge_v/src/models/seismic/Ucvm.cpp
@@ -42,6 +42,10 @@ void edge_v::models::seismic::Ucvm::free() {
   if( m_velP != nullptr ) delete[] m_velP;
   if( m_velS != nullptr ) delete[] m_velS;
   if( m_rho  != nullptr ) delete[] m_rho;
+
+  m_velP = nullptr;
+  m_velS = nullptr;
+  m_rho  = nullptr;
 }
 
 edge_v::models::seismic::Ucvm::~Ucvm() {
-- 
2.43.0


From 5c9cb91b8a46bdbd2089e3971b229ce8e30a5783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:37 +0000
Subject: [PATCH 12/18] fix: initialize the bathymetry grid at the centroids
 for centroid-based time steps

---
 tools/edge_v/src/main.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tools/edge_v/src/main.cpp b/tools/edge_v/src/main.cpp
index 4ef81ae..321a967 100644
--- a/tools/edge_v/src/main.cpp
+++ b/tools/edge_v/src/main.cpp
@@ -262,6 +262,10 @@ int main( int   i_argc,
 
   if( l_config.getCenCfl() ) {
     EDGE_V_LOG_INFO << "re-initializing velocity model at elements' centroids";
+    if( l_tsunamiGridBath != nullptr ) {
+      l_tsunamiGridBath->init( l_mesh->nEls(),
+                               l_mesh->getCentroidsEl() );
+    }
     l_velMod->init( l_mesh->nEls(),
                     l_mesh->getCentroidsEl() );
   }
@@ -522,6 +526,10 @@ int main( int   i_argc,
 
   if( l_config.getCenCfl() ) {
     EDGE_V_LOG_INFO << "re-initializing velocity model at elements' centroids";
+    if( l_tsunamiGridBath != nullptr ) {
+      l_tsunamiGridBath->init( l_mesh->nEls(),
+                               l_mesh->getCentroidsEl() );
+    }
     l_velMod->init( l_mesh->nEls(),
                     l_mesh->getCentroidsEl() );
   }
-- 
2.43.0


From 29b7ae2098c4c27b045e2ebdb8317591647b79cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:57 +0000
Subject: [PATCH 13/18] fix: compare adjacent coarse points when deriving the
 smallest spacing in y-direction

---
 tools/edge_cut/src/mesh/Extrude.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/edge_cut/src/mesh/Extrude.cpp b/tools/edge_cut/src/mesh/Extrude.cpp
index cd37b94..c5b8202 100644
--- a/tools/edge_cut/src/mesh/Extrude.cpp
+++ b/tools/edge_cut/src/mesh/Extrude.cpp
@@ -313,7 +313,7 @@ edge_cut::mesh::Extrude::Extrude( std::size_t          i_nVes,
   // derive minimum dx and dy in the coarse mesh
   for( std::size_t l_ve = 0; l_ve < m_ny[1]-1; l_ve++ ) {
     std::size_t l_veNext = (l_ve+1) * m_refRatio;
-    double l_diff = std::get<1>( m_veCrdsSurf[l_veNext] ) - std::get<1>( m_veCrdsSurf[l_ve] );
+    double l_diff = std::get<1>( m_veCrdsSurf[l_veNext] ) - std::get<1>( m_veCrdsSurf[l_ve * m_refRatio] );
     m_dMin[1] = std::min( m_dMin[1], l_diff );
   }
   for( std::size_t l_ve = 0; l_ve < (m_nx[0]-m_refRatio)*m_ny[0]; l_ve+=m_ny[0]*m_refRatio ) {
-- 
2.43.0


From fa2ff2e8b1289fa1f1201addebac78d02c4aa7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:57 +0000
Subject: [PATCH 14/18] fix: refuse surfaces which are too small for the number
 of coarsening levels

---
 tools/edge_cut/src/mesh/Extrude.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/edge_cut/src/mesh/Extrude.cpp b/tools/edge_cut/src/mesh/Extrude.cpp
index c5b8202..019698a 100644
--- a/tools/edge_cut/src/mesh/Extrude.cpp
+++ b/tools/edge_cut/src/mesh/Extrude.cpp
@@ -301,6 +301,10 @@ edge_cut::mesh::Extrude::Extrude( std::size_t          i_nVes,
   EDGE_CUT_CHECK_EQ( (m_nx[0]-1)%m_refRatio, 0 );
   EDGE_CUT_CHECK_EQ( (m_ny[0]-1)%m_refRatio, 0 );
 
+  // the levels coarsen 2*(m_refRatio-1) fine cells at each of the boundaries
+  EDGE_CUT_CHECK_GE( m_nx[0]-1, std::size_t(4*(m_refRatio-1)) );
+  EDGE_CUT_CHECK_GE( m_ny[0]-1, std::size_t(4*(m_refRatio-1)) );
+
   if( m_refRatio > 1 ) {
     m_nx[1] = m_nx[0] / m_refRatio + 1;
     m_ny[1] = m_ny[0] / m_refRatio + 1;
-- 
2.43.0


From 3da1b9fda79411a558bc5b775e3d3cff5d767219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:25 +0000
Subject: [PATCH 15/18] fix: order the shape functions of hexahedral sub-cells
 as their vertices

---
 tools/edge_pre/edge_pre/sc/grid/Hex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/edge_pre/edge_pre/sc/grid/Hex.py b/tools/edge_pre/edge_pre/sc/grid/Hex.py
index 744786e..ec0628c 100644
--- a/tools/edge_pre/edge_pre/sc/grid/Hex.py
+++ b/tools/edge_pre/edge_pre/sc/grid/Hex.py
@@ -277,15 +277,15 @@ def scSfSc( i_deg ):
 def intSc( i_deg, i_syms ):
   assert( len(i_syms) == 3 )
 
-  # hex shape functions
+  # hex shape functions (dimension-wise ordering of the sub-cells' vertices)
   l_shape = [ (1 - i_syms[0]) * (1 - i_syms[1]) * (1 - i_syms[2]),
                i_syms[0]      * (1 - i_syms[1]) * (1 - i_syms[2]),
-               i_syms[0]      *  i_syms[1]      * (1 - i_syms[2]),
               (1 - i_syms[0]) *  i_syms[1]      * (1 - i_syms[2]),
+               i_syms[0]      *  i_syms[1]      * (1 - i_syms[2]),
               (1 - i_syms[0]) * (1 - i_syms[1]) *  i_syms[2],
                i_syms[0]      * (1 - i_syms[1]) *  i_syms[2],
-               i_syms[0]      *  i_syms[1]      *  i_syms[2],
-              (1 - i_syms[0]) *  i_syms[1]      *  i_syms[2] ]
+              (1 - i_syms[0]) *  i_syms[1]      *  i_syms[2],
+               i_syms[0]      *  i_syms[1]      *  i_syms[2] ]
 
   # get sub-cell coords
   l_svs = svs( i_deg )
-- 
2.43.0


From d2c5f87015c547e6f66b75fa50883438fab94159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:41 +0000
Subject: [PATCH 16/18] fix: simplify the mappings of sub-cells only, lists are
 not accepted by sympy

---
 tools/edge_pre/edge_pre/sc/grid/Generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/edge_pre/edge_pre/sc/grid/Generic.py b/tools/edge_pre/edge_pre/sc/grid/Generic.py
index 3770265..fd5e99c 100644
--- a/tools/edge_pre/edge_pre/sc/grid/Generic.py
+++ b/tools/edge_pre/edge_pre/sc/grid/Generic.py
@@ -107,8 +107,8 @@ def intSc( i_deg, i_ty, i_syms, i_shape, i_svs, i_scSv, i_scSfScRecv ):
       l_maps[2][-1]  = l_maps[2][-1]  + [ l_mapsFlat[ l_scId ]  ]
       l_aDets[2][-1] = l_aDets[2][-1] + [ l_aDetsFlat[ l_scId ] ]
 
-  # simplify mappings
-  for l_ty in range( len(l_maps) ):
+  # simplify mappings (the ones at the DG-faces share those of the sub-cells)
+  for l_ty in range(2):
     for l_ma in range( len(l_maps[l_ty]) ):
       for l_di in range( len(l_maps[l_ty][l_ma]) ):
         l_maps[l_ty][l_ma][l_di] = sympy.simplify( l_maps[l_ty][l_ma][l_di] )
-- 
2.43.0


From 04e4fe31ca0eff1b3dc8e2ff33a42d8e47ba83a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:41 +0000
Subject: [PATCH 17/18] fix: pass a symbol to the interval of line faces, the
 quadrature fails for a list

---
 tools/edge_pre/edge_pre.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/edge_pre/edge_pre.py b/tools/edge_pre/edge_pre.py
index ca6f4f2..2f34d77 100755
--- a/tools/edge_pre/edge_pre.py
+++ b/tools/edge_pre/edge_pre.py
@@ -191,7 +191,7 @@ for l_ty in l_conf.m_types:
       l_symsEl, l_basisEl = edge_pre.dg.basis.Mod.unify( l_symsFa, l_basisFa, l_symsEl, l_basisEl )
 
       # get face integration interval
-      l_intFa = edge_pre.types.Line.Line( l_de ).intEl( l_symsFa )
+      l_intFa = edge_pre.types.Line.Line( l_de ).intEl( l_symsFa[0] )
 
       # get element integration interval
       l_intEl = l_elTy.intEl( l_symsEl )
@@ -276,7 +276,7 @@ for l_ty in l_conf.m_types:
       l_symsEl, l_basisEl = edge_pre.dg.basis.Mod.unify( l_symsFa, l_basisFa, l_symsEl, l_basisEl )
 
       # get face integration interval
-      l_intFa = edge_pre.types.Line.Line( l_de ).intEl( l_symsFa )
+      l_intFa = edge_pre.types.Line.Line( l_de ).intEl( l_symsFa[0] )
 
       # get element integration interval
       l_intEl = l_elTy.intEl( l_symsEl )
-- 
2.43.0


From 57fc95f06410120f2aad561fedd8d70bbf7e7499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:32 +0000
Subject: [PATCH 18/18] fix: 2D friction: a slipping fault carries its strength
 in the direction of the total shear stress, not of its initial part

---
 src/impl/seismic/solvers/FrictionLaws.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/impl/seismic/solvers/FrictionLaws.hpp b/src/impl/seismic/solvers/FrictionLaws.hpp
index 01ecfff..fac8c6a 100644
--- a/src/impl/seismic/solvers/FrictionLaws.hpp
+++ b/src/impl/seismic/solvers/FrictionLaws.hpp
@@ -141,9 +141,9 @@ class edge::seismic::solvers::FrictionLaws< 2, TL_N_CRUNS > {
 
       // perturb middle states and update friction coefficient
       for( unsigned short l_ru = 0; l_ru < TL_N_CRUNS; l_ru++ ) {
-        // compute traction
-        o_tr[l_ru] = o_st[l_ru] - std::abs(i_ss0[l_ru]);
-        o_tr[l_ru] = (i_ss0[l_ru] > 0) ? o_tr[l_ru] : -o_tr[l_ru];
+        // compute traction: strength in the direction of the total shear stress
+        o_tr[l_ru]  = (i_ss0[l_ru] + i_ms[2][l_ru] > 0) ? o_st[l_ru] : -o_st[l_ru];
+        o_tr[l_ru] -= i_ss0[l_ru];
 
         // fall back to middle state if the fault is locked
         o_tr[l_ru] = (o_per[l_ru]) ? o_tr[l_ru] : i_ms[2][l_ru];
-- 
2.43.0

