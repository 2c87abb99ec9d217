From b005ed128bb89bea2547686ef8aa541895d56be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:57 +0000
Subject: [PATCH 001/101] fix: momentum site index was negative for odd lattice
 lengths

---
 src/Geometry/geometry.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Geometry/geometry.c b/src/Geometry/geometry.c
index fc8bc4e..a246fac 100755
--- a/src/Geometry/geometry.c
+++ b/src/Geometry/geometry.c
@@ -48,12 +48,11 @@ get_site_2piBZ( int x[ ND ] ,
     L_2 = Latt.dims[ mu ] >> 1 ;
     temp[mu] = x[mu] ;
     if( mu != DIMS ) {
-      if( temp[ mu ] >= (int)L_2 ) {
+      // for odd lengths the modes are -L/2,...,L/2 inclusive
+      if( temp[ mu ] >= (int)( Latt.dims[ mu ] - L_2 ) ) {
 	temp [ mu ] -= (int)Latt.dims[ mu ] ;
       } 
-      if( temp[ mu ] < (int)L_2 ) {
-	temp [ mu ] += (int)L_2 ;
-      }
+      temp [ mu ] += (int)L_2 ;
     } else { // fill the rest with 0's
       temp[ mu ] = 0 ;
     }
-- 
2.43.0


From 4b97e84dedd2aa2bb6ea1c00235a21eb17903504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:57 +0000
Subject: [PATCH 002/101] fix: draughtboard gave neighbours the same color on
 odd lengths 7, 13, ...

---
 src/Geometry/draughtboard.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Geometry/draughtboard.c b/src/Geometry/draughtboard.c
index f857884..89ea007 100644
--- a/src/Geometry/draughtboard.c
+++ b/src/Geometry/draughtboard.c
@@ -59,7 +59,8 @@ get_midx( const size_t i ,
     if( ( Latt.dims[mu]&1 ) == 0 ) {
       even_sum += n[mu] ;
     } else {
-      odd_sum  += n[mu] ;
+      // alternate, closing the ring of odd length with the third color
+      odd_sum  += ( n[mu] > 0 && n[mu] == (int)Latt.dims[mu] - 1 ) ? 2 : ( n[mu]&1 ) ;
     }
   }
 #ifdef verbose
-- 
2.43.0


From 932feba8032da036ba04372fb1953976eac512bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 003/101] fix: NC=2 plaquette did not compile without
 immintrin.h

---
 src/Field/plaqs_links.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field/plaqs_links.c b/src/Field/plaqs_links.c
index a2518d1..deabe2a 100755
--- a/src/Field/plaqs_links.c
+++ b/src/Field/plaqs_links.c
@@ -190,7 +190,7 @@ complete_plaquette( const GLU_complex *__restrict a ,
   tr += (double)creal( ( tra3 * conj(c[0]) + tra4 * conj(c[1]))*conj(d[2]) ) ;
   tr += (double)creal( ( tra3 * conj(c[2]) + tra4 * conj(c[3]))*conj(d[3]) ) ;
 
-  return tra + trb ;
+  return tr ;
   
   #endif
 #else
-- 
2.43.0


From 63c2da77d227e08aebe230e3563da6ec9c9795b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:04 +0000
Subject: [PATCH 004/101] fix: plaquette normalisation assumed ND=4 in several
 places

---
 src/Field/plaqs_links.c   | 6 +++---
 src/Smear/adaptive_flow.c | 2 +-
 src/Smear/wflow.c         | 2 +-
 src/Update/KPHB.c         | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Field/plaqs_links.c b/src/Field/plaqs_links.c
index deabe2a..3552352 100755
--- a/src/Field/plaqs_links.c
+++ b/src/Field/plaqs_links.c
@@ -234,8 +234,8 @@ all_plaquettes( const struct site *__restrict lat ,
     tplaq = tplaq + (double)p ;
   }
   *sp_plaq = 2.0 * spplaq / (double)( ( ND - 1 ) * ( ND - 2 ) * NC * LVOLUME ) ;
-  *t_plaq  = 2.0 * tplaq /  (double)( ( ND - 1 ) * ( ND - 2 ) * NC * LVOLUME ) ;
-  return 0.5 * ( *sp_plaq + *t_plaq ) ; 
+  *t_plaq  = tplaq /  (double)( ( ND - 1 ) * NC * LVOLUME ) ;
+  return 2.0 * ( spplaq + tplaq ) / (double)( ND * ( ND - 1 ) * NC * LVOLUME ) ; 
 }
 
 // average plaquette
@@ -339,7 +339,7 @@ t_plaq( const struct site *__restrict lat )
     }
     plaq = plaq + (double)p ;
   }
-  return 2.0 * ( plaq ) / (double)( ( ND - 1 ) * ( ND - 2 ) * NC * LVOLUME ) ; 
+  return plaq / (double)( ( ND - 1 ) * NC * LVOLUME ) ; 
 }
 
 // sexy wrapper for the topological charge measurements to be called in parallel
diff --git a/src/Smear/adaptive_flow.c b/src/Smear/adaptive_flow.c
index c895a77..3de36df 100755
--- a/src/Smear/adaptive_flow.c
+++ b/src/Smear/adaptive_flow.c
@@ -78,7 +78,7 @@ get_plaq_th( struct site *lat ,
   for( size_t k = 0 ; k < Latt.Nthreads ; k++ ) {
     new_plaq += WF.red[ 3 + CLINE*k ] ;
   }
-  return new_plaq/( NC * ( ND-1 ) * ( ND - 2 ) * LVOLUME ) ;
+  return 2.0*new_plaq/( NC * ND * ( ND - 1 ) * LVOLUME ) ;
 }
 
 // two step adaptive routine
diff --git a/src/Smear/wflow.c b/src/Smear/wflow.c
index d0eff63..bcff78a 100755
--- a/src/Smear/wflow.c
+++ b/src/Smear/wflow.c
@@ -124,7 +124,7 @@ flow_RK3( struct site *__restrict lat ,
       for( k = 0 ; k < Latt.Nthreads ; k++ ) {
 	new_plaq += WF.red[ 3 + CLINE*k ] ;
       }
-      new_plaq /= ( NC * ( ND-1 ) * ( ND - 2 ) * LVOLUME ) ;
+      new_plaq *= 2.0 / ( NC * ND * ( ND - 1 ) * LVOLUME ) ;
       update_meas_list( head , curr , WF.red ,
 			new_plaq , t , delta_t ,
 			err_est , lat ) ;
diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index b5338a3..b73b185 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -63,7 +63,7 @@ perform_measurements( double *PLAQred ,
   {
     // write out the plaquette
     fprintf( stdout , "[UPDATE] %zu :: {P} %1.12f \n" , 
-	     conf_idx , pl/( NC*(ND-1)*(ND-2)*LVOLUME ) ) ;
+	     conf_idx , 2.0*pl/( NC*ND*(ND-1)*LVOLUME ) ) ;
   }
 
   // icc really hates this for some reason
-- 
2.43.0


From d810f7b24e641bcf9d88e82f1cf128d0b63e0974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:04 +0000
Subject: [PATCH 005/101] fix: printed Polyakov loops were divided by the
 transverse volume twice

---
 src/Wrappers/OBS_wrap.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/Wrappers/OBS_wrap.c b/src/Wrappers/OBS_wrap.c
index 94247ae..1979812 100755
--- a/src/Wrappers/OBS_wrap.c
+++ b/src/Wrappers/OBS_wrap.c
@@ -213,13 +213,8 @@ gauge( const struct site *__restrict lat )
 #if !(defined OBC_HACK)
   size_t mu ;
   for( mu = 0 ; mu < ND ; mu++ ) {
-    // compute correct denominator
-    size_t denom = 1 , nu ;
-    for( nu = 0 ; nu < ND ; nu++ ) {
-      denom *= ( nu != mu ) ? Latt.dims[nu] : 1 ;
-    }
-    // average
-    const double DENOM = 1.0 / ( ( double )NC * denom ) ;
+    // poly() has averaged over the transverse sites
+    const double DENOM = 1.0 / (double)NC ;
     double complex R = poly( lat , mu ) ;
     fprintf( stdout , "[POLY SU(%d) DIR_%zu] ( %e , %e ) , MODULUS :: %e \n" ,
 	    NC , mu , creal( R ) * DENOM , cimag( R ) * DENOM , 
-- 
2.43.0


From ba410ad85b49fd3ead3ad4bc31b0dfdce2c56f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:27 +0000
Subject: [PATCH 006/101] fix: mat_mult_vec used the wrong element of the
 second row for NC=3

---
 src/Matrix_Ops/U_Nops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/U_Nops.c b/src/Matrix_Ops/U_Nops.c
index 6d3a881..9e67b50 100755
--- a/src/Matrix_Ops/U_Nops.c
+++ b/src/Matrix_Ops/U_Nops.c
@@ -414,7 +414,7 @@ mat_mult_vec( GLU_complex vect[ NC ] ,
 {
 #if NC == 3
   vect[0] = S[0] * v[0] + S[1] * v[1] + S[2] * v[2] ; 
-  vect[1] = S[3] * v[0] + S[4] * v[1] + S[6] * v[2] ; 
+  vect[1] = S[3] * v[0] + S[4] * v[1] + S[5] * v[2] ; 
   vect[2] = S[6] * v[0] + S[7] * v[1] + S[8] * v[2] ; 
 #elif NC == 2
   vect[0] = S[ 0 ] * v[ 0 ] + S[ 1 ] * v[ 1 ] ;
-- 
2.43.0


From dd0603df5b991929ed34e4a5d8ed18bcf8a8f8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:27 +0000
Subject: [PATCH 007/101] fix: multab_dagdag returned the complex conjugate for
 NC>3 without immintrin.h

---
 src/Matrix_Ops/MMUL/MMULdagdag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/MMUL/MMULdagdag.c b/src/Matrix_Ops/MMUL/MMULdagdag.c
index 5cd8171..b53af30 100755
--- a/src/Matrix_Ops/MMUL/MMULdagdag.c
+++ b/src/Matrix_Ops/MMUL/MMULdagdag.c
@@ -63,7 +63,7 @@ multab_dagdag( GLU_complex a[ NCNC ] ,
 	sumi += REB * IMC + IMB * REC ;
 	pB += NC ;
       }
-      a[ j + NC*i ] = sumr + I * sumi ;
+      a[ j + NC*i ] = sumr - I * sumi ;
       pC += NC ;
     }
   }
-- 
2.43.0


From b39456bd44178c323d881ad438901fd51b22e749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 008/101] fix: last entry of the diagonal SU(N) generators
 overflowed an unsigned negation

---
 src/Matrix_Ops/lie_mats.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/lie_mats.c b/src/Matrix_Ops/lie_mats.c
index b344bea..5417a44 100755
--- a/src/Matrix_Ops/lie_mats.c
+++ b/src/Matrix_Ops/lie_mats.c
@@ -417,7 +417,7 @@ init_generators( void )
     for( i = 0 ; i < subblock-1 ; i++ ) {
       lambda[idx][ mat_idx(i,i) ] = fact ;
     }
-    lambda[idx][ mat_idx(i,i) ] = fact * ( -i ) ;
+    lambda[idx][ mat_idx(i,i) ] = -fact * (GLU_real)i ;
     idx++ ;
     // increment the size of the block matrix we are in
     subblock ++ ;
-- 
2.43.0


From 55c70ea382ced0e0fe3cef974a3fd494c27303af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 009/101] fix: NC=2 lie elements were half of 2.Tr(A.T^a),
 breaking ifabc_dabc == 4.Tr(ABC)

---
 src/Matrix_Ops/lie_mats.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Matrix_Ops/lie_mats.c b/src/Matrix_Ops/lie_mats.c
index 5417a44..0a03edc 100755
--- a/src/Matrix_Ops/lie_mats.c
+++ b/src/Matrix_Ops/lie_mats.c
@@ -254,9 +254,9 @@ lie_data( GLU_complex a[ NCNC - 1 ]  ,
   a[6] = I * ( A[5] - A[7] ) ;
   a[7] = -A[8] * 1.7320508075688772 ; // multiply by sqrt 3
 #elif NC == 2
-  a[0] = 0.5 * ( A[1] + A[2] ) ;
-  a[1] = 0.5 * ( I * ( A[1] - A[2] ) ) ;
-  a[2] = ( A[0] ) ;
+  a[0] = A[1] + A[2] ;
+  a[1] = I * ( A[1] - A[2] ) ;
+  a[2] = A[0] - A[3] ;
 #else
   // calculation of this is not so bad, a[i] = 2 Tr( A T^{i} )
   size_t i ;
-- 
2.43.0


From 1ea77df380f9605fcdd6b22a2b8f286ddf29124d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:28 +0000
Subject: [PATCH 010/101] fix: SSE matrix inverse searched for the pivot in the
 wrong matrix

---
 src/Matrix_Ops/invert_SSE.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/invert_SSE.c b/src/Matrix_Ops/invert_SSE.c
index f63b7e3..db01cc0 100644
--- a/src/Matrix_Ops/invert_SSE.c
+++ b/src/Matrix_Ops/invert_SSE.c
@@ -118,7 +118,7 @@ gauss_jordan( GLU_complex M_1[ NCNC ] ,
     piv = i ;
     best = absfac( *( pA + i*(NC+1) ) ) ;
     for( j = i+1 ; j < NC ; j++ ) {
-       attempt = absfac( *( pB + i + j*NC ) ) ;
+       attempt = absfac( *( pA + i + j*NC ) ) ;
       if( _mm_ucomilt_sd( best , attempt ) ) { 
 	piv = j ; 
 	best = attempt ; 
-- 
2.43.0


From 34589e56aeebbb7a3d7b9a2d6f39c2c3d1cab3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:26 +0000
Subject: [PATCH 011/101] fix: Vandermonde back-substitution skipped the first
 node, breaking the GSL/LAPACKE exponential

---
 src/Matrix_Ops/vandermonde.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Matrix_Ops/vandermonde.c b/src/Matrix_Ops/vandermonde.c
index 0286a3c..3af6ee8 100755
--- a/src/Matrix_Ops/vandermonde.c
+++ b/src/Matrix_Ops/vandermonde.c
@@ -36,7 +36,7 @@ solvandermonde( double complex f[ NC ] ,
     }
   }
   /// plug in values for the interpolator ///
-  for( k = NC - 1 ; k != 0 ; k-- ) {
+  for( k = NC - 1 ; k-- != 0 ; ) {
     for(i = k ; i < NC - 1 ; i++ ) {
       f[i] = f[i] - ( f[ i + 1 ] * x[k] ) ;
     }
@@ -68,7 +68,7 @@ solvandermonde_new( const double q[ NC ] ,
     }
   }
   /// plug in values for the interpolator ///
-  for( k = NC - 1 ; k != 0 ; k-- ) {
+  for( k = NC - 1 ; k-- != 0 ; ) {
     for(i = k ; i < NC - 1 ; i++ ) {
       f[ i ] -= ( f[ i + 1 ] * q[k] ) ;
     }
-- 
2.43.0


From f6d53f608ca969c8caef43aaf4f3028004da251b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:26 +0000
Subject: [PATCH 012/101] fix: AntiHermitian_proj_short subtracted the trace
 from the real part for NC>3

---
 src/Matrix_Ops/exactQ.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index 54dee52..102c253 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -135,7 +135,7 @@ AntiHermitian_proj_short( GLU_complex Q[ HERMSIZE ] ,
   *( Q + 1 ) = U[1] ; //0.5 * ( U[1] - conj( U[2] ) ) ;  
 #else
   size_t i , j , idx = 0 ;
-  GLU_complex tr = 0. ;
+  GLU_real tr = 0. ;
   // compute the trace first
   for( i = 0 ; i < NC ; i++ ) {
     tr += cimag( U[ i*(NC+1) ] ) ;
@@ -143,7 +143,7 @@ AntiHermitian_proj_short( GLU_complex Q[ HERMSIZE ] ,
   tr /= (GLU_real)NC ;
   for( i = 0 ; i < NC-1 ; i++ ) {
     for( j = i ; j < NC ; j++ ) { 
-      Q[idx] = ( i != j ) ? ( U[ j + NC * i ] - conj( U[ i + NC * j ] ) ) * 0.5 : I * cimag( U[ j + NC * i ] ) - tr ;
+      Q[idx] = ( i != j ) ? ( U[ j + NC * i ] - conj( U[ i + NC * j ] ) ) * 0.5 : I * ( cimag( U[ j + NC * i ] ) - tr ) ;
       idx++ ;
     }
   }
-- 
2.43.0


From 74165eeda5b1dd8cd4e0e2d3b20fa9173079b3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:26 +0000
Subject: [PATCH 013/101] fix: NC=2 small-angle series of sin(z)/z expanded in
 z instead of z^2

---
 src/Matrix_Ops/effs.c   | 2 +-
 src/Matrix_Ops/exactQ.c | 4 ++--
 src/Matrix_Ops/expMat.c | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Matrix_Ops/effs.c b/src/Matrix_Ops/effs.c
index 990cc9b..6455a4f 100755
--- a/src/Matrix_Ops/effs.c
+++ b/src/Matrix_Ops/effs.c
@@ -95,7 +95,7 @@ f_hermitian_log_suNC( double complex f[ NC ] ,
   f[2] *= denom ;  
 #elif NC == 2
   f[0] = cos( z ) ;
-  f[1] = ( fabs( z ) < SINTOLSU2 ) ? I * ( 1 - z / 6. * ( 1 - z / 20. * ( 1 - z / 42. ) ) ) : I * sin( z ) / z ; 
+  f[1] = ( fabs( z ) < SINTOLSU2 ) ? I * ( 1 - z*z / 6. * ( 1 - z*z / 20. * ( 1 - z*z / 42. ) ) ) : I * sin( z ) / z ; 
 #else
   calculate_effs_VDM_suNC( f , z ) ;
 #endif
diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index 102c253..0cffe8e 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -196,7 +196,7 @@ exact_log_slow( GLU_complex Q[ NCNC ] ,
   const double complex z = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
   const double herm_z = carg( z ) ;
   const double f0 = creal( z ) ; //cos( herm_z ) ;
-  const double f1 = ( fabs(herm_z) < SINTOLSU2 ) ? ( 1. - herm_z / 6. * ( 1. - herm_z / 20. * ( 1. - herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
+  const double f1 = ( fabs(herm_z) < SINTOLSU2 ) ? ( 1. - herm_z*herm_z / 6. * ( 1. - herm_z*herm_z / 20. * ( 1. - herm_z*herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
 
   // use Cayley-Hamilton again A = ( U - f0 ) / f1 //
   // for su2 this is nice as they both tend to 1
@@ -294,7 +294,7 @@ exact_log_slow_short( GLU_complex Q[ HERMSIZE ] ,
   const double complex z = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
   const double herm_z = carg( z ) ;
   const double f0 = reU0 ; //cos( herm_z ) ;
-  const double f1 = ( fabs( herm_z ) < SINTOLSU2 ) ? ( 1 - herm_z / 6. * ( 1 - herm_z / 20. * ( 1 - herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
+  const double f1 = ( fabs( herm_z ) < SINTOLSU2 ) ? ( 1 - herm_z*herm_z / 6. * ( 1 - herm_z*herm_z / 20. * ( 1 - herm_z*herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
   register const double complex oneOf1 = -I / ( f1 ) ;
   // use Cayley-Hamilton again A = ( U - f0 ) / f1 //
   // for su2 this is nice as they both tend to 1
diff --git a/src/Matrix_Ops/expMat.c b/src/Matrix_Ops/expMat.c
index a283c29..17b567a 100755
--- a/src/Matrix_Ops/expMat.c
+++ b/src/Matrix_Ops/expMat.c
@@ -276,7 +276,7 @@ exponentiate( GLU_complex U[ NCNC ] ,
   // have eigenvalues, now for the "fun" bit.
   f0 = cos( z ) ;
   // taylor expand 
-  f1 = fabs ( z ) < SINTOLSU2 ? ( 1 - z / 6. * ( 1 - z / 20. * ( 1 - z / 42. ) ) ) : sin( z ) / z ;
+  f1 = fabs ( z ) < SINTOLSU2 ? ( 1 - z*z / 6. * ( 1 - z*z / 20. * ( 1 - z*z / 42. ) ) ) : sin( z ) / z ;
 
   const double complex f1Q0 = I * f1 * creal( Q[0] ) ;
   const double complex f1Q1 = I * f1 * Q[1] ;
@@ -501,7 +501,7 @@ exponentiate_short( GLU_complex U[ NCNC ] ,
   // have eigenvalues, now for the "fun" bit.
   f0 = cos( z ) ;
   // taylor expand 
-  f1 = fabs ( z ) < SINTOLSU2 ? ( 1.0 - z / 6. * ( 1 - z / 20. * ( 1 - z / 42. ) ) ) : sin( z ) / z ;
+  f1 = fabs ( z ) < SINTOLSU2 ? ( 1.0 - z*z / 6. * ( 1 - z*z / 20. * ( 1 - z*z / 42. ) ) ) : sin( z ) / z ;
 
   const double complex f1Q0 = I * f1 * Q[0] ;
   const double complex f1Q1 = I * f1 * Q[1] ;
-- 
2.43.0


From ac5b170980950df939762979d0f3e0c7bbd9c69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:26 +0000
Subject: [PATCH 014/101] fix: NC=2 logarithm and eigenvalues were NaN for
 links equal to the identity up to rounding

---
 src/Matrix_Ops/evalues.c |  5 ++++-
 src/Matrix_Ops/exactQ.c  | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/Matrix_Ops/evalues.c b/src/Matrix_Ops/evalues.c
index 30e6fec..2d54879 100755
--- a/src/Matrix_Ops/evalues.c
+++ b/src/Matrix_Ops/evalues.c
@@ -338,7 +338,10 @@ Eigenvalues_suNC( double complex z[ NC ] ,
   z[2] = z[1] - minus ; 
 #elif NC == 2
   const double reU0 = (double)creal( U[0] ) ;
-  z[0] = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
+  // sine from the vector part, 1-reU0^2 cancels (or is negative) near the identity
+  z[0] = reU0 + I * sqrt ( cimag( U[0] ) * cimag( U[0] ) +
+			   creal( U[1] ) * creal( U[1] ) +
+			   cimag( U[1] ) * cimag( U[1] ) ) ;
   z[1] = conj( z[0] ) ;
 #else
   // not supported, yet. Wrap to eigenvalues ....
diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index 0cffe8e..322fbe3 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -193,7 +193,10 @@ exact_log_slow( GLU_complex Q[ NCNC ] ,
 #elif NC == 2
   // inlined the two necessary routines ...
   register const double reU0 = (double)creal( U[0] ) ;
-  const double complex z = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
+  // sine from the vector part, 1-reU0^2 cancels (or is negative) near the identity
+  const double complex z = reU0 + I * sqrt ( cimag( U[0] ) * cimag( U[0] ) +
+					     creal( U[1] ) * creal( U[1] ) +
+					     cimag( U[1] ) * cimag( U[1] ) ) ;
   const double herm_z = carg( z ) ;
   const double f0 = creal( z ) ; //cos( herm_z ) ;
   const double f1 = ( fabs(herm_z) < SINTOLSU2 ) ? ( 1. - herm_z*herm_z / 6. * ( 1. - herm_z*herm_z / 20. * ( 1. - herm_z*herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
@@ -291,7 +294,10 @@ exact_log_slow_short( GLU_complex Q[ HERMSIZE ] ,
   *( Q + 4 ) = trce * ( con * U[5] - f[2] * conj( U[7] ) ) ; 
 #elif NC == 2
   register const double reU0 = (double)creal( U[0] ) ;
-  const double complex z = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
+  // sine from the vector part, 1-reU0^2 cancels (or is negative) near the identity
+  const double complex z = reU0 + I * sqrt ( cimag( U[0] ) * cimag( U[0] ) +
+					     creal( U[1] ) * creal( U[1] ) +
+					     cimag( U[1] ) * cimag( U[1] ) ) ;
   const double herm_z = carg( z ) ;
   const double f0 = reU0 ; //cos( herm_z ) ;
   const double f1 = ( fabs( herm_z ) < SINTOLSU2 ) ? ( 1 - herm_z*herm_z / 6. * ( 1 - herm_z*herm_z / 20. * ( 1 - herm_z*herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
-- 
2.43.0


From f7ffe2dcc259fb3c8eb155127865398856a590a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:26 +0000
Subject: [PATCH 015/101] fix: NC=3 exponential was NaN for degenerate
 eigenvalues and tiny matrices

---
 src/Matrix_Ops/expMat.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Matrix_Ops/expMat.c b/src/Matrix_Ops/expMat.c
index 17b567a..3803ebc 100755
--- a/src/Matrix_Ops/expMat.c
+++ b/src/Matrix_Ops/expMat.c
@@ -207,7 +207,9 @@ exponentiate( GLU_complex U[ NCNC ] ,
   // compute the constants c0_max and the root of c1 ...
   const double rc1 = sqrt( c1 ) ;
   const double c0_max = 2. * rc1 * c1 ; 
-  const double theta = acos( c0 / c0_max ) / 3. ;
+  // rounding can push the ratio above one for degenerate eigenvalues, and
+  // for tiny matrices both underflow
+  const double theta = c0 < c0_max ? acos( c0 / c0_max ) / 3. : 0.0 ;
 
   // use sincos as it is cheaper
   double s , c ;
@@ -427,7 +429,9 @@ exponentiate_short( GLU_complex U[ NCNC ] ,
     // compute the constants c0_max and the root of c1 ...
   const double rc1 = sqrt( c1 ) ;
   const double c0_max = 2. * rc1 * c1 ; 
-  const double theta = acos( c0 / c0_max ) / 3. ;
+  // rounding can push the ratio above one for degenerate eigenvalues, and
+  // for tiny matrices both underflow
+  const double theta = c0 < c0_max ? acos( c0 / c0_max ) / 3. : 0.0 ;
 
   // use sincos as it is cheaper
   double s , c ;
-- 
2.43.0


From 827c392dd7082f481d7164964fd23c8498f103af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:34 +0000
Subject: [PATCH 016/101] fix: GSL exponential for NC>3 divided by zero for
 degenerate eigenvalues

---
 src/Matrix_Ops/expMat.c | 46 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/expMat.c b/src/Matrix_Ops/expMat.c
index 3803ebc..89f3a03 100755
--- a/src/Matrix_Ops/expMat.c
+++ b/src/Matrix_Ops/expMat.c
@@ -27,6 +27,13 @@
 #include "effs.h"     // compute the f-constants of Cayley-Hamilton
 #include "evalues.h"   // characteristic equation eigensolver
 
+#if ( defined HAVE_GSL && !defined HAVE_LAPACKE_H && NC > 3 )
+  #include <gsl/gsl_complex.h>
+  #include <gsl/gsl_complex_math.h>
+  #include <gsl/gsl_matrix.h>
+  #include <gsl/gsl_eigen.h>
+#endif
+
 // sqrt of three appears everywhere
 #define r3 (1.7320508075688772935)
 
@@ -288,7 +295,44 @@ exponentiate( GLU_complex U[ NCNC ] ,
   *( U + 3 ) = (GLU_complex)( f0 - f1Q0 ) ; 
 #else
   // hmmm could be a toughy
-  #if ( defined HAVE_LAPACKE_H || defined HAVE_GSL )
+  #if ( defined HAVE_GSL && !defined HAVE_LAPACKE_H )
+  // spectral decomposition U = V e^{iz} V^{\dagger}, well defined for
+  // degenerate eigenvalues too
+  gsl_matrix_complex *mat = gsl_matrix_complex_alloc( NC , NC ) ;
+  gsl_matrix_complex *vec = gsl_matrix_complex_alloc( NC , NC ) ;
+  gsl_vector *eval = gsl_vector_alloc( NC ) ;
+  gsl_eigen_hermv_workspace *work = gsl_eigen_hermv_alloc( NC ) ;
+  size_t i , j , k ;
+  for( i = 0 ; i < NC ; i++ ) {
+    for( j = 0 ; j < NC ; j++ ) {
+      gsl_matrix_complex_set( mat , i , j , 
+			      gsl_complex_rect( (double)creal( Q[j+NC*i] ) ,
+						(double)cimag( Q[j+NC*i] ) ) ) ;
+    }
+  }
+  gsl_eigen_hermv( mat , eval , vec , work ) ;
+  double complex v[ NCNC ] ;
+  for( i = 0 ; i < NC ; i++ ) {
+    for( j = 0 ; j < NC ; j++ ) {
+      const gsl_complex el = gsl_matrix_complex_get( vec , i , j ) ;
+      v[ j + NC*i ] = GSL_REAL( el ) + I * GSL_IMAG( el ) ;
+    }
+  }
+  zero_mat( U ) ;
+  for( k = 0 ; k < NC ; k++ ) {
+    const double z = gsl_vector_get( eval , k ) ;
+    const double complex eiz = cos( z ) + I * sin( z ) ;
+    for( i = 0 ; i < NC ; i++ ) {
+      for( j = 0 ; j < NC ; j++ ) {
+	U[ j + NC*i ] += eiz * v[ k + NC*i ] * conj( v[ k + NC*j ] ) ;
+      }
+    }
+  }
+  gsl_vector_free( eval ) ;
+  gsl_matrix_complex_free( mat ) ;
+  gsl_matrix_complex_free( vec ) ;
+  gsl_eigen_hermv_free( work ) ;
+  #elif ( defined HAVE_LAPACKE_H )
   double complex f[ NC ] ;
   double z[ NC ] ;
   Eigenvalues_hermitian( z , Q ) ;
-- 
2.43.0


From 3a6b84d1acbf369ae4a214c2d2b753e69c3ca8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:04 +0000
Subject: [PATCH 017/101] fix: NC=3 logarithm was NaN, uninitialised or
 inaccurate for the identity, links close to it and degenerate eigenvalues

---
 src/Matrix_Ops/exactQ.c | 94 +++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 51 deletions(-)

diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index 322fbe3..97b6dc2 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -151,6 +151,34 @@ AntiHermitian_proj_short( GLU_complex Q[ HERMSIZE ] ,
   return ;
 }
 
+#if NC == 3
+// Q = asin( S ) for links near the identity, S = ( U - U^{\dagger} ) / 2i
+static void
+series_log( GLU_complex Q[ NCNC ] , 
+	    const GLU_complex U[ NCNC ] )
+{
+  // asin( x ) = x * ( 1 + x^2/6 + 3x^4/40 + ... )
+  const double c[ 7 ] = { 1. , 1./6. , 3./40. , 5./112. , 35./1152. , 
+			  63./2816. , 231./13312. } ;
+  GLU_complex S[ NCNC ] GLUalign , SS[ NCNC ] GLUalign ;
+  size_t i ;
+  AntiHermitian_proj( S , U ) ; // keeps the trace, tr[ sin( Q ) ] is not zero
+  for( i = 0 ; i < NCNC ; i++ ) { S[i] *= -I ; }
+  multab( SS , S , S ) ;
+  diag( Q , c[ 6 ] ) ;
+  for( i = 6 ; i > 0 ; i-- ) {
+    multab_atomic_left( Q , SS ) ;
+    add_constant( Q , c[ i-1 ] ) ;
+  }
+  multab_atomic_left( Q , S ) ;
+  // exactly hermitian and traceless
+  Q[0] = creal( Q[0] ) ; Q[4] = creal( Q[4] ) ;
+  Q[3] = conj( Q[1] ) ; Q[6] = conj( Q[2] ) ; Q[7] = conj( Q[5] ) ;
+  Q[8] = -( Q[0] + Q[4] ) ;
+  return ;
+}
+#endif
+
 // this code is called literally all the time, computes 
 // Q in e^{iQ} up to roughly numerical precision and fairly quickly too
 void
@@ -158,16 +186,26 @@ exact_log_slow( GLU_complex Q[ NCNC ] ,
 		const GLU_complex U[ NCNC ] ) 
 {
 #if NC == 3   
+  // the characteristic equation is ill-conditioned close to the identity
+  // where the series converges quickly
+  if( 3.0 - creal( U[0] ) - creal( U[4] ) - creal( U[8] ) < 2E-3 ) {
+    series_log( Q , U ) ;
+    return ;
+  }
   double complex f[ NC ] , z[ NC ] ;
   Eigenvalues_suNC( z , U ) ; 
   z[0] = carg( z[0] ) ; 
   z[1] = carg( z[1] ) ;
   // This is now "numerically stable", just as the MP prescription
   // logically the log of these gives the hermitian z's
-  z[2] = -( z[0] - z[1] ) ; 
-  if( ( z[0] == z[1] ) && ( z[1] == z[2] ) ) {
-    return ;
-  }
+  z[2] = -( z[0] + z[1] ) ; 
+  // the f's divide by ( z0 - z1 )( z0 - z2 ), have the eigenvalue largest in
+  // magnitude first as it is never part of a degenerate pair
+  size_t big = 0 ;
+  if( fabs( creal( z[1] ) ) > fabs( creal( z[big] ) ) ) { big = 1 ; }
+  if( fabs( creal( z[2] ) ) > fabs( creal( z[big] ) ) ) { big = 2 ; }
+  const double complex tmp = z[0] ;
+  z[0] = z[big] ; z[big] = tmp ;
   f_hermitian_log_suNC( f , z ) ;
 
   // I think we can do better
@@ -246,53 +284,7 @@ void
 exact_log_slow_short( GLU_complex Q[ HERMSIZE ] , 
 		      const GLU_complex U[ NCNC ] )
 {
-#if NC == 3 
-  double complex f[NC] , z[NC] ;
-  Eigenvalues_suNC( z , U ) ; 
-  z[0] = carg( z[0] ) ; 
-  z[1] = carg( z[1] ) ;
-  // This is now "numerically stable", just as the MP prescription
-  // logically the log of these gives the hermitian z's
-  z[2] = -( z[0] - z[1] ) ; 
-  register const double a = 0.5 * creal( z[0] ) ;
-  const double u = a ;
-  register const double w = creal( z[1] ) + a ;
-  const double cw = cos( w ) ;
-  register const double cu = cos( u ) ;
-  register const double su = sin( u ) ; //sin( u ) ;
-  const double complex one1 = cu - I * su ;
-  double complex two1 = conj( one1 ) ; //cu + I * su ;
-  two1 *= two1 ;
-  const double uu = u * u ;
-  const double ww = w * w ; 
-  // control for degeneracies, if we are degenerate the solution is basically
-  // the identity matrix, is definitely an ad hoc solution
-  const double denom = 1.0 / ( 9. * uu - ww ) ;
-  //double E0 = 0. ; 
-  // we only allow the taylor expansion at a very low acc to allow the 3D
-  // hyl smearing to not get stuck, this is similar to the problem I saw with
-  // the su2 log and stout expansions
-  const double E0 = fabs( w ) < STOL ? 1 - ww / 6. * ( 1 - ww / 20. * ( 1 - ww / 42. ) ) : sin( w ) / w ; 
-  //const register double twou = 2. * u ;
-  f[0] = ( uu - ww ) * two1 + one1 * ( 8 * uu * cw + I * 2 * u * ( 3 * uu + ww ) * E0 ) ; 
-  f[1] = 2 * u * two1 - one1 * ( 2 * u * cw - I * ( 3 * uu - ww ) * E0 ) ; 
-  f[2] = two1 - one1 * ( cw + 3 * I * u * E0 ) ; 
-  f[0] *= denom ; 
-  f[1] *= denom ; 
-  f[2] *= denom ; 
-  const double complex con = conj( f[2] ) ;
-  const double mod = 1.0 / cimag( f[1] * con ) ;
-  const double imf = cimag( f[0] * con ) * mod ; 
-  const double complex trce = -I * mod/2. ; 
-  // complete the resulting hermitian matrix, 
-  // "forcing" it slightly to be hermitian
-  // to alleviate any resulting round-off errors.
-  *( Q + 0 ) = trce * ( con * U[0] - f[2] * conj( U[0] ) ) - imf ; 
-  *( Q + 1 ) = trce * ( con * U[1] - f[2] * conj( U[3] ) ) ; 
-  *( Q + 2 ) = trce * ( con * U[2] - f[2] * conj( U[6] ) ) ; 
-  *( Q + 3 ) = trce * ( con * U[4] - f[2] * conj( U[4] ) ) - imf ;  
-  *( Q + 4 ) = trce * ( con * U[5] - f[2] * conj( U[7] ) ) ; 
-#elif NC == 2
+#if NC == 2
   register const double reU0 = (double)creal( U[0] ) ;
   // sine from the vector part, 1-reU0^2 cancels (or is negative) near the identity
   const double complex z = reU0 + I * sqrt ( cimag( U[0] ) * cimag( U[0] ) +
-- 
2.43.0


From 207de6c4f7955a4d403ca979593975182cd7652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:56 +0000
Subject: [PATCH 018/101] fix: NC=3 Hermitian eigenvalues of the zero matrix
 were NaN

---
 src/Matrix_Ops/evalues.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/evalues.c b/src/Matrix_Ops/evalues.c
index 2d54879..903e1cc 100755
--- a/src/Matrix_Ops/evalues.c
+++ b/src/Matrix_Ops/evalues.c
@@ -262,7 +262,7 @@ Eigenvalues_hermitian( double z[ NC ] ,
   // reuse 'R'
   cubert( &R , temp ) ; 
   register const double complex A = -R ; 
-  register const double complex B = Q/A ; 
+  register const double complex B = ( A != 0.0 ? Q/A : 0.0 ) ; 
   register const double complex plus = A + B ;
   register const double complex minus = A - B ; 
   z[0] = (double)creal( plus ) ; 
-- 
2.43.0


From 39578638507904028b86a02340585455f68f5091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:06 +0000
Subject: [PATCH 019/101] fix: NC>3 logarithm deadlocked when first used inside
 a parallel loop (single inside worksharing)

---
 src/Headers/taylor_logs.h    |  7 ------
 src/Matrix_Ops/taylor_logs.c | 49 ++++++------------------------------
 src/Wrappers/GLUlib_wrap.c   |  5 ----
 3 files changed, 7 insertions(+), 54 deletions(-)

diff --git a/src/Headers/taylor_logs.h b/src/Headers/taylor_logs.h
index dc0d16e..98510a3 100755
--- a/src/Headers/taylor_logs.h
+++ b/src/Headers/taylor_logs.h
@@ -60,13 +60,6 @@ brute_force_log( GLU_complex *Q ,
 		 const GLU_complex *U ,
 		 const size_t NROOTS ) ;
 
-/**
-   @fn free_taylors( void )
-   @brief frees the Taylor expansion coefficients for the log
- */
-void
-free_taylors( void ) ;
-
 /**
    @fn void nape_reunit( GLU_complex *__restrict U )
    @brief reunitarizes a matrix to SU(N) using the n-APE projection
diff --git a/src/Matrix_Ops/taylor_logs.c b/src/Matrix_Ops/taylor_logs.c
index 89dd8d0..0d00d2a 100755
--- a/src/Matrix_Ops/taylor_logs.c
+++ b/src/Matrix_Ops/taylor_logs.c
@@ -34,18 +34,6 @@
  */
 static const size_t NMAX = 25 ; // set this quite high to give it a chance
 
-/**
-   @param TAYLOR_SET
-   @brief have we set the Taylor expansion coefficients?
- */
-static int TAYLOR_SET ;
-
-/**
-   @param fact
-   @breif Taylor expansion coefficients precomputes
- */
-static double *fact ;
-
 // Computes the square-root of the matrix A
 //  using a denman-beavers iteration routine
 //  A must be invertible for this to make any sense
@@ -152,21 +140,11 @@ denman_rootZ( GLU_complex *__restrict Z )
   return GLU_SUCCESS ;
 }
 
-// precomputation, this should be put in Mainfile.c
-static void
-precompute_taylor_factors( void ) 
+// n'th coefficient of the series, cheap enough not to be shared by the threads
+static inline double
+taylor_factor( const size_t n )
 {
-  // make sure this isn't getting overwritten by different threads
-#pragma omp single
-  {
-    fact = malloc( NMAX * sizeof( double ) ) ;
-    size_t n ;
-    for( n = 0 ; n < NMAX ; n++ ) {
-      fact[ n ] = 1.0 / (double)( 2 * ( n ) - 1 ) ;
-    }
-    TAYLOR_SET = GLU_TRUE ;
-  }
-  return ;
+  return 1.0 / ( 2.0 * n - 1.0 ) ;
 }
 
 static int
@@ -323,9 +301,6 @@ brute_force_log( GLU_complex *Q ,
 		 const GLU_complex *U ,
 		 const size_t NROOTS )
 {
-  // check to see if we can do precomputations
-  if( TAYLOR_SET == GLU_FALSE ) { precompute_taylor_factors( ) ; } 
-
 #if NC < 10
   const double SCALING = pow( 2.0 , ( NROOTS ) ) ;
 #else
@@ -391,7 +366,7 @@ brute_force_log( GLU_complex *Q ,
     // power of the yy matrix
     matrix_power( pert , yy , n + 1 ) ;
     for( j = 0 ; j < NCNC ; j++ ) { 
-      pert[ j ] *= fact[ n + 1 ] ;
+      pert[ j ] *= taylor_factor( n + 1 ) ;
     }
     // multiply finally by the parameter "y"
     multab_atomic_left( pert , y ) ;
@@ -414,7 +389,7 @@ brute_force_log( GLU_complex *Q ,
   // compute the next order term in the series in step Q is the n+1 series approx
   //double fact = 1.0 / ( 2. * (n+1) - 1.0 ) ;
   for( j = 0 ; j < NCNC ; j++ ) { 
-    Q[j] = yy[j] * fact[ n+1 ] ;
+    Q[j] = yy[j] * taylor_factor( n+1 ) ;
   }
 
   // Now we have an estimate for when the last term in the series is negligible
@@ -423,7 +398,7 @@ brute_force_log( GLU_complex *Q ,
   for ( i = n ; i > 1 ; i-- ) {
     //fact = 1.0 / ( 2. * i - 1.0 ) ;
     for( j = 0 ; j < NC ; j++ ) { 
-      Q[j*(NC+1)]  += fact[ i ] ; 
+      Q[j*(NC+1)]  += taylor_factor( i ) ; 
     }
     //xx = yy * ( fact + xx ) ;
     multab_atomic_left( Q , yy ) ;
@@ -459,16 +434,6 @@ brute_force_log( GLU_complex *Q ,
   return GLU_SUCCESS ;
 }
 
-// we free this in Mainfile.c
-void
-free_taylors( void )
-{
-  if( TAYLOR_SET == GLU_TRUE ) {
-    free( fact ) ;
-  }
-  return ;
-}
-
 // rescaled Denman-Beavers projection, used in the n-APE projection
 // which creates a differentiable SU(NC) projection from APE links
 int
diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index fc10871..6fea672 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -40,10 +40,6 @@
 #include "writers.h"        // write out a configuration
 #include "GLU_timer.h"      // reporting IO timing
 
-// allow for some very necessary precomputations ...
-#if NC > 3 
-  #include "taylor_logs.h"  // precomputes Taylor series coefficients
-#endif
 
 // initialisations
 void
@@ -356,7 +352,6 @@ unstick_GLU( void )
   #if !( defined HAVE_LAPACKE_H || defined HAVE_GSL )
   free_factorial( ) ;
   #endif
-  free_taylors( ) ;
 #endif
   return ;
 }
-- 
2.43.0


From 6e7215e6bf0756939e6dd8ebb30859bcc244ff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:06 +0000
Subject: [PATCH 020/101] fix: IMPROVED_SMEARING stored the wrong slice for the
 third to last time-slice

---
 src/Smear/smear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Smear/smear.c b/src/Smear/smear.c
index 64a30f1..8f434ce 100755
--- a/src/Smear/smear.c
+++ b/src/Smear/smear.c
@@ -343,7 +343,7 @@ smear4D( struct site *__restrict lat ,
 	for( mu = 0 ; mu < ND ; mu++ ) {
           #ifdef IMPROVED_SMEARING
 	  equiv( lat[behind2+i].O[mu] , lat3[i].O[mu] ) ;
-	  equiv( lat[back].O[mu]      , lat3[i].O[mu] ) ;
+	  equiv( lat[back].O[mu]      , lat3[i+LCU].O[mu] ) ;
 	  equiv( lat[it].O[mu]        , lat4[i].O[mu] ) ;
 	  equiv( lat[it+LCU].O[mu]    , lat4[i+LCU].O[mu] ) ;
           #else
-- 
2.43.0


From b084a748d963f2b43700f6914b5e3796de994538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:06 +0000
Subject: [PATCH 021/101] fix: every thread repeated the last slice update of
 smear4D concurrently (parallel for inside a parallel region)

---
 src/Smear/smear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Smear/smear.c b/src/Smear/smear.c
index 8f434ce..1cb9695 100755
--- a/src/Smear/smear.c
+++ b/src/Smear/smear.c
@@ -335,7 +335,7 @@ smear4D( struct site *__restrict lat ,
       const size_t behind2 = lat[ behind ].back[ ND-1 ] ;
       #endif
 
-      #pragma omp parallel for private(i)
+      #pragma omp for private(i)
       for( i = 0 ; i < LCU ; i++ ) {
 	register const size_t back = behind + i ;
 	register const size_t it = slice + i ;
-- 
2.43.0


From 096f2832b15dd6910ade38c42920f2658864697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:11 +0000
Subject: [PATCH 022/101] fix: fixed-step flow reported the stale plaquette and
 time after stepping back to the stopping time

---
 src/Smear/wflow.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Smear/wflow.c b/src/Smear/wflow.c
index bcff78a..052ec55 100755
--- a/src/Smear/wflow.c
+++ b/src/Smear/wflow.c
@@ -146,10 +146,19 @@ flow_RK3( struct site *__restrict lat ,
     if( t > WFLOW_TIME_STOP ) {
       const double delta_tcorr = WFLOW_TIME_STOP - count * delta_t ; 
       f( lat , WF , delta_tcorr , SM_TYPE , project ) ;
+      // measure the corrected field
+      av_plaquette_th( WF.red , lat ) ;
+      size_t k ;
+      new_plaq = 0.0 ;
+      for( k = 0 ; k < Latt.Nthreads ; k++ ) {
+	new_plaq += WF.red[ 3 + CLINE*k ] ;
+      }
+      new_plaq *= 2.0 / ( NC * ND * ( ND - 1 ) * LVOLUME ) ;
+      t = WFLOW_TIME_STOP ;
       // update the linked list
       curr = (struct wfmeas*)malloc( sizeof( struct wfmeas ) ) ;
       update_meas_list( head , curr , WF.red ,
-			new_plaq , t , delta_t ,
+			new_plaq , t , delta_tcorr ,
 			err_est , lat ) ;
       head = curr ;
       count++ ;
-- 
2.43.0


From 46e984c71eab9b8c5e03c3453ecf4b43a6df22af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:11 +0000
Subject: [PATCH 023/101] fix: free_WF freed twice the allocated length of lat2
 for IMPROVED_SMEARING

---
 src/Smear/wflowfuncs.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Smear/wflowfuncs.c b/src/Smear/wflowfuncs.c
index 464ee55..f6746a3 100755
--- a/src/Smear/wflowfuncs.c
+++ b/src/Smear/wflowfuncs.c
@@ -378,12 +378,11 @@ free_WF( struct wflow_temps *WF ,
   if( memcheap == GLU_TRUE ) {
     // free our fields
     free_s_site( WF->Z , LVOLUME , ND ) ;
+    free_s_site( WF->lat2 , LCU , ND ) ;
 #ifdef IMPROVED_SMEARING
-    free_s_site( WF->lat2 , 2*LCU , ND ) ;
     free_s_site( WF->lat3 , 2*LCU , ND ) ;
     free_s_site( WF->lat4 , 2*LCU , ND ) ;
 #else
-    free_s_site( WF->lat2 , LCU , ND ) ;
     free_s_site( WF->lat3 , LCU , ND ) ;
     free_s_site( WF->lat4 , LCU , ND ) ;
 #endif
-- 
2.43.0


From 49eaf6971d57db91e5283040659b30372b1440dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:22 +0000
Subject: [PATCH 024/101] fix: clover measurements used uninitialised memory
 away from four dimensions

---
 src/Field/clover.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Field/clover.c b/src/Field/clover.c
index 6cec5a5..d2f276b 100755
--- a/src/Field/clover.c
+++ b/src/Field/clover.c
@@ -926,6 +926,8 @@ compute_q( GLU_complex q[ NCNC ] ,
   #endif
   // compute the product of G_MUNU_1 with G_MUNU_2
   multab( q , GMUNU_1 , GMUNU_2 ) ;
+#else
+  zero_mat( q ) ; // not defined away from four dimensions
 #endif
   return ;
 }
@@ -979,6 +981,9 @@ compute_Gmunu_kernel( double *__restrict plaq_t ,
   *plaq_sp = 2.0 * ( (double)NC - (double)trace( sum_1 ) ) ;
   *plaq_t  = 2.0 * ( (double)NC - (double)trace( sum_2 ) ) ;
 #endif
+#else
+  // not defined away from four dimensions
+  *plaq_t = *plaq_sp = *qtop = 0.0 ;
 #endif
   return ;
 }
-- 
2.43.0


From 2e61746f1533615ec3d57bfdbe41b31a823e35e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:48 +0000
Subject: [PATCH 025/101] fix: flow scale setting left out the last measurement
 and read its derivative uninitialised

---
 src/Smear/wflowfuncs.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Smear/wflowfuncs.c b/src/Smear/wflowfuncs.c
index f6746a3..50e002a 100755
--- a/src/Smear/wflowfuncs.c
+++ b/src/Smear/wflowfuncs.c
@@ -461,8 +461,9 @@ scaleset( struct wfmeas *curr ,
     }
     curr = curr -> next ;
   }
-  if( count > 0 ) {
-    t0 = evaluate_scale( der , time , GT , count , T_0 ) ;
+  // there are count + 1 measurements, the spline needs at least three
+  if( count > 1 ) {
+    t0 = evaluate_scale( der , time , GT , count + 1 , T_0 ) ;
   }
   if( t0 == -1 ) {
     #pragma omp master
@@ -482,7 +483,7 @@ scaleset( struct wfmeas *curr ,
       GT[ i ] = time[ i ] * der[ i ] ;
     }
   }
-  w0 = evaluate_scale( der , time , GT , count , W_0 ) ;
+  w0 = evaluate_scale( der , time , GT , count + 1 , W_0 ) ;
   if( w0 == -1 ) {
     #pragma omp master
     {
-- 
2.43.0


From 8aa21e187f956cfa9baa3a490a40a82f46af7144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:48 +0000
Subject: [PATCH 026/101] fix: every thread set the flow scale, its messages
 tore the measurement rows apart

---
 src/Smear/adaptive_flow.c | 8 ++++++--
 src/Smear/wflow.c         | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Smear/adaptive_flow.c b/src/Smear/adaptive_flow.c
index 3de36df..62c416c 100755
--- a/src/Smear/adaptive_flow.c
+++ b/src/Smear/adaptive_flow.c
@@ -388,8 +388,12 @@ flow_adaptive_RK3( struct site *__restrict lat ,
 #ifndef WFLOW_TIME_ONLY
     if( ( fabs( curr -> time - WFLOW_TIME_STOP ) > PREC_TOL ) && 
 	meas_count > 0 ) {
-      scaleset( curr , T0_STOP , W0_STOP , meas_count , GLU_TRUE ) ;
-      scaleset( curr , T0_STOP , W0_STOP , meas_count , GLU_FALSE ) ;
+      // every thread has the same list, only one reports
+      #pragma omp master
+      {
+	scaleset( curr , T0_STOP , W0_STOP , meas_count , GLU_TRUE ) ;
+	scaleset( curr , T0_STOP , W0_STOP , meas_count , GLU_FALSE ) ;
+      }
     }
 #endif
     
diff --git a/src/Smear/wflow.c b/src/Smear/wflow.c
index 052ec55..5b92255 100755
--- a/src/Smear/wflow.c
+++ b/src/Smear/wflow.c
@@ -173,8 +173,12 @@ flow_RK3( struct site *__restrict lat ,
 	count <= smiters &&
 	meas_count > 0 ) {
       // set the scale at t_0 and w_0
-      scaleset( curr , T0_STOP , W0_STOP , meas_count , GLU_TRUE ) ;
-      scaleset( curr , T0_STOP , W0_STOP , meas_count , GLU_FALSE ) ;
+      // every thread has the same list, only one reports
+      #pragma omp master
+      {
+	scaleset( curr , T0_STOP , W0_STOP , meas_count , GLU_TRUE ) ;
+	scaleset( curr , T0_STOP , W0_STOP , meas_count , GLU_FALSE ) ;
+      }
     }
 #endif
 
-- 
2.43.0


From b8a9e044387ecfdbc4acb66e81699f3778928827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:38 +0000
Subject: [PATCH 027/101] fix: adaptive flow overshot the stopping time by a
 long step and came back with an uncontrolled unstable one

---
 src/Smear/adaptive_flow.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Smear/adaptive_flow.c b/src/Smear/adaptive_flow.c
index 62c416c..2893047 100755
--- a/src/Smear/adaptive_flow.c
+++ b/src/Smear/adaptive_flow.c
@@ -247,6 +247,12 @@ flow_adaptive_RK3( struct site *__restrict lat ,
     }
     
     errmax = 10. ;
+
+    // do not step past the stopping time, the step back is not under
+    // error control and is unstable for the long steps at large flow times
+    if( t + delta_t > WFLOW_TIME_STOP ) {
+      delta_t = WFLOW_TIME_STOP - t ;
+    }
     
     // perform two-step adaptive
     if( twostep_adaptive( lat , WF , &delta_t , &errmax , &new_plaq ,
-- 
2.43.0


From e8b990d4f4dfc6dd3d7a113f747d8b4941f9ef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:39 +0000
Subject: [PATCH 028/101] fix: tenth topological moment divided by 362800
 instead of 10!

---
 src/Field/Qmoments.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field/Qmoments.c b/src/Field/Qmoments.c
index d222d3b..88afacf 100644
--- a/src/Field/Qmoments.c
+++ b/src/Field/Qmoments.c
@@ -84,7 +84,7 @@ Time_Moments( double *Moment ,
   
   // factorials
   const double fac[ NQMOMENTS ] = { 1 , 1 , 2 , 6 , 24 , 120 , 720 ,
-				    5040 , 40320 , 362880 , 362800 ,
+				    5040 , 40320 , 362880 , 3628800 ,
 				    39916800 } ;
   const int LT = (int)Latt.dims[ DIR ] ;
   size_t dims[ ND ] ;
-- 
2.43.0


From bae3ee095ae9f775dba64f06b08306abc43d6c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:39 +0000
Subject: [PATCH 029/101] fix: integer overflow of the powers of t in the
 topological moments

---
 src/Field/Qmoments.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Field/Qmoments.c b/src/Field/Qmoments.c
index 88afacf..68c3225 100644
--- a/src/Field/Qmoments.c
+++ b/src/Field/Qmoments.c
@@ -113,7 +113,8 @@ Time_Moments( double *Moment ,
   }
 
   // initialise powers of t to t^0
-  int *tpow = malloc( Latt.dims[ DIR ] * sizeof( int ) ) ;
+  // (an integer overflows for long directions)
+  double *tpow = malloc( Latt.dims[ DIR ] * sizeof( double ) ) ;
   for( t = 0 ; t < (int)LT ; t++ ) {
     tpow[ t ] = 1 ;
   }
-- 
2.43.0


From 7027bca95556d2bb1561a7c8efdac56be715fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:39 +0000
Subject: [PATCH 030/101] fix: topological moments dropped two slices of a
 direction of odd length

---
 src/Field/Qmoments.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Field/Qmoments.c b/src/Field/Qmoments.c
index 68c3225..78396da 100644
--- a/src/Field/Qmoments.c
+++ b/src/Field/Qmoments.c
@@ -122,7 +122,8 @@ Time_Moments( double *Moment ,
   // loop increasing powers of moments of Q
   for( n = 0 ; n < NQMOMENTS ; n++ ) {
     double sum = 0.0 ;
-    for( t = -LT/2+1 ; t < LT/2 ; t++ ) {
+    // symmetric about zero, an odd length has no midpoint to leave out
+    for( t = -(LT-1)/2 ; t <= (LT-1)/2 ; t++ ) {
       const int posit = ( t + LT ) % LT ;
       sum += tpow[ posit ] * creal( Qt[ posit ] ) ;
       tpow[ posit ] *= t ;
-- 
2.43.0


From 53df893cacf5e20610d079539b9de3176fb866d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:39 +0000
Subject: [PATCH 031/101] fix: race on the slab sum without FFTW, the slab
 correlator was never freed

---
 src/Field/Qslab.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Field/Qslab.c b/src/Field/Qslab.c
index 0bb25b1..0d330f4 100644
--- a/src/Field/Qslab.c
+++ b/src/Field/Qslab.c
@@ -150,7 +150,7 @@ compute_slabs( const GLU_complex *qtop ,
       }
       // perform convolution the dumb way
       #else
-      #pragma omp parallel for private(i)
+      #pragma omp parallel for private(i) reduction(+:sum_slab)
       for( i = 0 ; i < subvol ; i++ ) {
 	const size_t src = slab_idx( i , dims , SLAB_DIR , T0 ) ;
 	const double qsrc = qtop[ src ] ;
@@ -188,6 +188,7 @@ compute_slabs( const GLU_complex *qtop ,
   write_g2_to_list( Ap , ct , lt ) ;
 
   // free allocated memory
+  free( ct ) ;
   free( str ) ;
   fclose( Ap ) ;
 
-- 
2.43.0


From 67148a193e62878d3ddb89142e7abb22d91c0d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:39 +0000
Subject: [PATCH 032/101] fix: static potential without FFTW left out the
 conjugate and reversed the separation

---
 src/Field/POLY.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Field/POLY.c b/src/Field/POLY.c
index b176010..7a395fd 100755
--- a/src/Field/POLY.c
+++ b/src/Field/POLY.c
@@ -288,13 +288,13 @@ static_quark_correlator( double complex *result ,
 	const size_t sink   = translate + LCU * t ;
 	
 	// trace of the product
-	trace_ab_dag( &res , poly[source] , poly[sink] ) ;
+	trace_ab_dag( &res , poly[sink] , poly[source] ) ;
 	tr += res ;
 	
 	// and the trace-trace
 	const GLU_complex tr1 = trace( poly[source] ) ;
 	const GLU_complex tr2 = trace( poly[sink] ) ;
-	tracetrace += tr1 * tr2 ;
+	tracetrace += tr2 * conj( tr1 ) ;
       }
     }
     result[i] = tr * NORM ;
-- 
2.43.0


From 1834f3c45bf02f1a6c47afff52261b613680351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:39 +0000
Subject: [PATCH 033/101] fix: temporal topological correlator without FFTW
 summed the charge instead of its correlator

---
 src/Field/Qcorr.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/Field/Qcorr.c b/src/Field/Qcorr.c
index f858a70..1affeb7 100644
--- a/src/Field/Qcorr.c
+++ b/src/Field/Qcorr.c
@@ -120,6 +120,7 @@ compute_Qcorr( struct site *__restrict lat ,
 #ifndef HAVE_FFTW3_H
   FFTW.in = FFTW.out = FFTW.psq = NULL ;
   FFTW.in = malloc( LVOLUME * sizeof( GLU_complex ) ) ;
+  FFTW.out = malloc( LVOLUME * sizeof( GLU_complex ) ) ;
 #else
   small_create_plans_DFT( &FFTW , Latt.dims , ND ) ;
 #endif
@@ -131,7 +132,7 @@ compute_Qcorr( struct site *__restrict lat ,
   // logic to fail
   if( list == NULL ) goto memfree ;
   if( qcorr == NULL ) goto memfree ;
-  if( FFTW.in == NULL ) goto memfree ;
+  if( FFTW.in == NULL || FFTW.out == NULL ) goto memfree ;
 
   // precompute all of charge densities q(x)
   compute_Gmunu_array( FFTW.in , lat ) ;
@@ -174,14 +175,14 @@ compute_Qcorr( struct site *__restrict lat ,
   // above it probably shouldn't be used unless under duress
 #else
 
-  // loop the possible rsqs
+  // the full correlator, the temporal one needs every separation
   #pragma omp parallel for private(i)
-  for( i = 0 ; i < size[0] ; i++ ) {
+  for( i = 0 ; i < LVOLUME ; i++ ) {
     // some storage for the traces
     register double sumqq = 0.0 ;
 
     int separation[ ND ] ;
-    get_mom_2piBZ( separation , list[i].idx , ND ) ;
+    get_mom_2piBZ( separation , i , ND ) ;
 
     // loop the lattice varying source and sink with the correct separation
     size_t source = 0 ;
@@ -191,7 +192,13 @@ compute_Qcorr( struct site *__restrict lat ,
       //trace of the products
       sumqq += creal( FFTW.in[source] * FFTW.in[sink] ) ;
     }
-    qcorr[i] = sumqq * NORMSQ ;
+    FFTW.out[i] = sumqq * NORMSQ ;
+  }
+  for( i = 0 ; i < LVOLUME ; i++ ) {
+    FFTW.in[i] = FFTW.out[i] ;
+  }
+  for( i = 0 ; i < size[0] ; i++ ) {
+    qcorr[i] = creal( FFTW.in[ list[i].idx ] ) ;
   }
 #endif
 
@@ -220,6 +227,7 @@ compute_Qcorr( struct site *__restrict lat ,
   small_clean_up_fftw( FFTW ) ;
 #else
   free( FFTW.in ) ;
+  free( FFTW.out ) ;
 #endif
   
   // free the list
-- 
2.43.0


From f80371f95ed05f0e7fbda4e9798f52a2e33e6e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:02 +0000
Subject: [PATCH 034/101] fix: cylinder cut projected onto the body diagonal
 correctly only in four dimensions

---
 src/Cuts/cut_routines.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Cuts/cut_routines.c b/src/Cuts/cut_routines.c
index 8497415..c9cdfcf 100755
--- a/src/Cuts/cut_routines.c
+++ b/src/Cuts/cut_routines.c
@@ -194,7 +194,8 @@ cylinder_DF( const GLU_real q[ ND ] ,
 	     const double cyl_width )
 {
   // test that this satisfies the correct cylinder cutting procedure
-  const GLU_real norm = 1. / ( 2. * sqrt( DIMS ) ) ;
+  // the squared length of a body diagonal is DIMS
+  const GLU_real norm = 1. / (GLU_real)DIMS ;
   const int diagonals = 2 << ( ND - 1 ) ;
  
   // generix for loop over the diagonals
-- 
2.43.0


From 2145d573096df00a0349c2d3304c94e0e80f4376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:02 +0000
Subject: [PATCH 035/101] fix: conical cut dropped momenta exactly on a body
 diagonal to a rounding NaN

---
 src/Cuts/cut_routines.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Cuts/cut_routines.c b/src/Cuts/cut_routines.c
index c9cdfcf..5fb8f17 100755
--- a/src/Cuts/cut_routines.c
+++ b/src/Cuts/cut_routines.c
@@ -285,7 +285,8 @@ cylinder_CJD( const GLU_real q[ ND ] ,
     }
 
     // the angle theta is 
-    const GLU_real theta = acos( scalar_prod ) ;
+    // rounding can push the product just past one on the diagonal itself
+    const GLU_real theta = acos( scalar_prod > 1.0 ? 1.0 : scalar_prod ) ;
     const GLU_real delta_q = sin( theta ) / qnorm ;
 
     if( ( delta_q <= cyl_width ) && ( theta <= ang( arc ) ) ) {
-- 
2.43.0


From 09be46f2407d82d4d6ea3265e708c30e2c2e873c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:31 +0000
Subject: [PATCH 036/101] fix: gluon correlators paired a momentum with the
 wrong reflection when the list reached -pi, and went on without an FFT

---
 src/Cuts/3Dcuts.c         | 20 ++++++++++----------
 src/Cuts/MOMgg.c          | 36 +++++++++++++++++++-----------------
 src/Cuts/glueprop.c       | 29 ++++++-----------------------
 src/Cuts/smearing_param.c | 15 +++++++++------
 4 files changed, 44 insertions(+), 56 deletions(-)

diff --git a/src/Cuts/3Dcuts.c b/src/Cuts/3Dcuts.c
index 067a158..b8368b0 100755
--- a/src/Cuts/3Dcuts.c
+++ b/src/Cuts/3Dcuts.c
@@ -118,7 +118,7 @@ mom_gauge_spatial( struct site *__restrict A ,
 
 #else
 
-static short int
+static int
 mom_gauge_spatial( struct site *__restrict A ,
 		   const lie_field_def def )
 {
@@ -135,7 +135,10 @@ cuts_spatial ( struct site *__restrict A ,
 {
   fprintf( stdout , "\n[CUTS] Instantaneous Spatial/Temporal prop calculating ... \n" ) ; 
   // performs LOG and FFT of A, rewrites "A" to save space
-  mom_gauge_spatial( A , CUTINFO.definition ) ; 
+  if( mom_gauge_spatial( A , CUTINFO.definition ) == GLU_FAILURE ) {
+    fprintf( stderr , "[CUTS] FFT of the fields failed\n" ) ;
+    return GLU_FAILURE ;
+  }
 
   if( check_psq( CUTINFO ) == GLU_FAILURE ) {
     return GLU_FAILURE ;
@@ -183,29 +186,26 @@ g( p ) =   ----------    >    Tr < A_( ND - 1 )( p ) . A_( ND - 1 )( -p ) >
   const double g2_norm = ND > 2 ? 2.0 / ( ( NCNC - 1 ) * ( ND - 2 ) * LVOLUME ) : 2.0 / ( ( NCNC - 1 ) * LVOLUME ) ; 
   const double g0_norm = ND > 1 ? 2.0 / ( ( NCNC - 1 ) * ( ND - 1 ) * LVOLUME ) : 2.0 / ( ( NCNC - 1 ) * LVOLUME ) ; 
 
-  // logically this is the zero momentum position as our list is symmetric
-  const size_t midpoint = ( num_mom[0] - 1 ) >> 1 ;
-
   size_t i ;
 #pragma omp parallel for private(i) 
   for( i = 0  ;  i < num_mom[0]  ;  i++  ) {
     double sum_spatial = 0. ; 
     double sum_temporal = 0. ;
     GLU_complex tr ;
-    size_t t , mu , mom , cnj ;
+    size_t t , mu , mom ;
     for( t = 0 ;  t < Latt.dims[ ND - 1 ]  ;  t++ ) {
       mom = LCU * t + list[ i ].idx ;  
-      cnj = LCU * t + list[ num_mom[0] - i - 1 ].idx ;  
+      // the matrices at -p are the Hermitian conjugates of those at p
       // prod all spatial directions
       for( mu = 0 ; mu < ND - 1 ; mu++ ) {      
-	trace_ab( &tr , A[ mom ].O[mu] , A[ cnj ].O[mu] ) ;
+	trace_ab_dag( &tr , A[ mom ].O[mu] , A[ mom ].O[mu] ) ;
 	sum_spatial += (double)creal( tr ) ;
       }
-      trace_ab( &tr , A[ mom ].O[ ND - 1 ] , A[ cnj ].O[ ND - 1 ] ) ;
+      trace_ab_dag( &tr , A[ mom ].O[ ND - 1 ] , A[ mom ].O[ ND - 1 ] ) ;
       sum_temporal += (double)creal( tr ) ;
     }
       
-    if( i != midpoint ) {
+    if( list[ i ].idx != 0 ) {
       sum_spatial *= g2_norm ; 
       sum_temporal *= g2_norm ; 
     } else {	  
diff --git a/src/Cuts/MOMgg.c b/src/Cuts/MOMgg.c
index c9484b2..d755e14 100755
--- a/src/Cuts/MOMgg.c
+++ b/src/Cuts/MOMgg.c
@@ -39,21 +39,22 @@
 static double complex
 contraction_lies( const struct site *__restrict A ,
 		  const size_t posit ,
-		  const size_t conj ,
 		  const size_t lzero_mat ,
 		  const double mom[ ND ] ,
 		  const double spsq )
 {
   double complex res = 0.0 , tr ;
+  GLU_complex Aconj[ NCNC ] GLUalign ; // A(-p) is the dagger of A(p)
   size_t mu , nu , rho ;
   for( mu = 0 ; mu < ND ; mu++ ) {
     for( nu = 0 ; nu < ND ; nu++ ) {
+      dagger( Aconj , A[ posit ].O[nu] ) ;
       for( rho = 0 ; rho < ND ; rho++ ) {
 	// OK so the vertex should be proportional to if^{abc} unless we messed up somewhere
 	// I checked the symmetric piece and it averages to 0
-	//tr = ifabc_dabc_ABC( A[ posit ].O[mu] , A[ conj ].O[nu] , A[ lzero_mat ].O[rho] ) ;
-	//tr = dabc_ABC( A[ posit ].O[mu] , A[ conj ].O[nu] , A[ lzero_mat ].O[rho] ) ;
-	tr = ifabc_ABC( A[ posit ].O[mu] , A[ conj ].O[nu] , A[ lzero_mat ].O[rho] ) ;
+	//tr = ifabc_dabc_ABC( A[ posit ].O[mu] , Aconj , A[ lzero_mat ].O[rho] ) ;
+	//tr = dabc_ABC( A[ posit ].O[mu] , Aconj , A[ lzero_mat ].O[rho] ) ;
+	tr = ifabc_ABC( A[ posit ].O[mu] , Aconj , A[ lzero_mat ].O[rho] ) ;
 	tr = (mu!=nu) ? (-mom[mu]*mom[nu]/spsq)*mom[rho]*tr : (1.0-mom[mu]*mom[nu]/spsq)*mom[rho]*tr ;
 	res += tr ;
       }
@@ -66,19 +67,20 @@ contraction_lies( const struct site *__restrict A ,
 static double complex
 contraction_traces( const struct site *__restrict A ,
 		    const size_t posit ,
-		    const size_t conj ,
 		    const size_t lzero_mat ,
 		    const double mom[ ND ] ,
 		    const double spsq )
 {
   const double invspsq = spsq == 0.0 ? 1.0 : 1.0 / spsq ;
   double complex res = 0.0 ;
+  GLU_complex Aconj[ NCNC ] GLUalign ; // A(-p) is the dagger of A(p)
   GLU_complex tr ;
   size_t mu , nu , rho ;
   for( mu = 0 ; mu < ND ; mu++ ) {
     for( nu = 0 ; nu < ND ; nu++ ) {
+      dagger( Aconj , A[ posit ].O[nu] ) ;
       for( rho = 0 ; rho < ND ; rho++ ) {
-	trace_abc( &tr , A[ posit ].O[mu] , A[ conj ].O[nu] , 
+	trace_abc( &tr , A[ posit ].O[mu] , Aconj , 
 		   A[ lzero_mat ].O[rho] ) ;
 	tr = (mu!=nu) ? (-mom[mu]*mom[nu]*invspsq)*mom[rho]*tr :\
 	  (1.0-mom[mu]*mom[nu]*invspsq)*mom[rho]*tr ;
@@ -92,7 +94,6 @@ contraction_traces( const struct site *__restrict A ,
 static double complex
 contraction_matrices( const struct site *__restrict A ,
 		      const size_t posit ,
-		      const size_t conj , 
 		      const size_t lzero_mat ,
 		      const double mom[ ND ] , 
 		      const double spsq )
@@ -106,14 +107,16 @@ contraction_matrices( const struct site *__restrict A ,
   size_t mu ;
   for( mu = 0 ; mu < ND ; mu++ ) {
     // AA is g_{\mu\nu}A_\mu(p) A_\nu(-p)
-    multab( temp , A[ posit ].O[mu] , A[ conj ].O[mu] ) ;
+    // the matrices at -p are the Hermitian conjugates of those at p
+    multab_dag( temp , A[ posit ].O[mu] , A[ posit ].O[mu] ) ;
     a_plus_b( AA , temp ) ;
     // Arho portion
     a_plus_Sxb( Arho , A[ lzero_mat ].O[mu] , mom[mu] ) ;
     // AP portion
     a_plus_Sxb( AP , A[ posit ].O[mu] , mom[mu] ) ;
     // AM portion
-    a_plus_Sxb( AM , A[ conj ].O[mu] , -mom[mu] / spsq ) ;
+    dagger( temp , A[ posit ].O[mu] ) ;
+    a_plus_Sxb( AM , temp , -mom[mu] / spsq ) ;
   }
   GLU_complex WIV , TRANS ;
   trace_ab( &TRANS , AA , Arho ) ;
@@ -161,8 +164,8 @@ write_exceptional_g2g3_MOMgg( FILE *__restrict Ap ,
   const double g3_norm = 4.0 / ( 2.0 * NC * ( NCNC - 1 ) * ( ND - 1 ) *	\
 				 LVOLUME ) ;
 
-  const size_t posit_zero_mat = ( num_mom[0] - 1 ) / 2 ;
-  const size_t lzero_mat = list [ posit_zero_mat ].idx ;
+  // zero momentum is the first site, it need not be the middle of the list
+  const size_t lzero_mat = 0 ;
   
   double *g2 = malloc( num_mom[0] * sizeof( double ) ) ;
   double *g3 = malloc( num_mom[0] * sizeof( double ) ) ;
@@ -171,18 +174,17 @@ write_exceptional_g2g3_MOMgg( FILE *__restrict Ap ,
   #pragma omp parallel for private(i)
   for( i = 0 ; i < num_mom[0] ; i++ ) {
     const size_t posit = list[i].idx ;
-    const size_t conj =  list[ num_mom[0] - i - 1].idx ;
     
     // Two point function calc
     size_t mu ;
     g2[i] = 0. ;
     for( mu = 0 ; mu < ND ; mu++ ) {	  
       GLU_complex t ;
-      trace_ab( &t , A[ posit ].O[ mu ] , A[ conj ].O[mu] ) ;
+      trace_ab_dag( &t , A[ posit ].O[ mu ] , A[ posit ].O[mu] ) ;
       g2[i] += (double)creal( t ) ;
     }
 
-    if( i != posit_zero_mat ) {
+    if( posit != lzero_mat ) {
       g2[i] *= g2_norm ;
     } else {
       g2[i] *= g0_norm ;
@@ -194,11 +196,11 @@ write_exceptional_g2g3_MOMgg( FILE *__restrict Ap ,
     const double spsq = psq_calc( mom , posit ) ;
 
 #ifdef LIE_PROJECTION
-    g3[i] = creal( contraction_lies( A , posit , conj , lzero_mat , mom , spsq ) ) * g3_norm ;
+    g3[i] = creal( contraction_lies( A , posit , lzero_mat , mom , spsq ) ) * g3_norm ;
 #elif (defined TRACE_PROJECTION)
-    g3[i] = creal( contraction_traces( A , posit , conj , lzero_mat , mom , spsq ) ) * g3_norm ;
+    g3[i] = creal( contraction_traces( A , posit , lzero_mat , mom , spsq ) ) * g3_norm ;
 #else
-    g3[i] = creal( contraction_matrices( A , posit , conj , lzero_mat , mom , spsq ) ) * g3_norm ;
+    g3[i] = creal( contraction_matrices( A , posit , lzero_mat , mom , spsq ) ) * g3_norm ;
 #endif    
 
     // end of parallel contractions loop
diff --git a/src/Cuts/glueprop.c b/src/Cuts/glueprop.c
index 680988f..c06b6be 100755
--- a/src/Cuts/glueprop.c
+++ b/src/Cuts/glueprop.c
@@ -107,39 +107,22 @@ compute_gluon_prop( FILE *__restrict Ap ,
   double *transverse = malloc( num_mom[0] * sizeof( double ) ) ;
   double *longitudinal = malloc( num_mom[0] * sizeof( double ) ) ;
 
-  // set up the zero position
-  const size_t zero_pos = ( num_mom[0] ) >> 1 ;
-  const size_t zero_mom = list[ zero_pos ].idx ; // ist das wahr?
-
-  // obviously only need to compute num_mom[0]/2 of these due to symmetry
+  // the list need not be p,-p symmetric about its middle as -pi is its
+  // own reflection, so we compute all of them
   size_t i ;
   #pragma omp parallel for private(i)
-  for( i = 0 ; i < zero_pos ; i++ ) {
+  for( i = 0 ; i < num_mom[0] ; i++ ) {
     // uses p of list -p contrib IS the hermitian conjugate.
-    const int posit = list[i].idx ;
+    const size_t posit = list[i].idx ;
     
     // projections
     project_trans_long( &transverse[i] , &longitudinal[i] , A , posit ) ;
 
-    // normalisations
-    transverse[i] *= g2_norm ;
+    // normalisations, idx 0 is the zero momentum
+    transverse[i] *= ( posit == 0 ) ? g0_norm : g2_norm ;
     longitudinal[i] *= long_norm ;
   }
 
-  // contract the zero
-  project_trans_long( &transverse[zero_pos] , 
-		      &longitudinal[zero_pos] ,
-		      A , zero_mom ) ;
-  transverse[zero_pos] *= g0_norm ;
-  longitudinal[zero_pos] *= long_norm ;
-
-  // fill up the rest using p, -p symmetry
-  #pragma omp parallel for private(i)
-  for( i = zero_pos+1 ; i < num_mom[0] ; i++ ) {
-    transverse[i] = transverse[ num_mom[0] - i - 1 ] ;
-    longitudinal[i] = longitudinal[ num_mom[0] - i - 1 ] ;
-  }
-
   // and write out to a file ...
   write_g2g3_to_list( Ap , transverse , longitudinal , num_mom ) ;
 
diff --git a/src/Cuts/smearing_param.c b/src/Cuts/smearing_param.c
index 063b86f..c4cc989 100755
--- a/src/Cuts/smearing_param.c
+++ b/src/Cuts/smearing_param.c
@@ -235,8 +235,12 @@ cuts_struct_smeared( struct site *__restrict A ,
 #endif
 
   // performs LOG and FFT , rewrites "A"
-  mom_gauge( A , CUTINFO.definition ) ;
-  mom_gauge( SM_A , CUTINFO.definition ) ;
+  if( mom_gauge( A , CUTINFO.definition ) == GLU_FAILURE ||
+      mom_gauge( SM_A , CUTINFO.definition ) == GLU_FAILURE ) {
+    fprintf( stderr , "[CUTS] FFT of the fields failed\n" ) ;
+    free( SM_A ) ;
+    return GLU_FAILURE ;
+  }
   
   // this contains the length of the momentum list
   size_t *in = malloc( sizeof(size_t) ) ;
@@ -263,18 +267,17 @@ cuts_struct_smeared( struct site *__restrict A ,
   size_t i ;
 #pragma omp parallel for private(i)
   for( i = 0 ; i < in[0] ; i++ ) {
-    // these require that this list is p -> -p symmetric, it is
+    // idx 0 is the zero momentum
     const size_t posit = list[i].idx ;
-    const size_t conj  = list[ in[0] - i - 1 ].idx ;
     double trans , longitudinal ;
 
     // project out the transverse and longitudinal for the unsmeared case ...
     project_trans_long( &trans , &longitudinal , A , posit ) ;
-    g2[i] = ( conj != posit ) ? trans * g2_norm : trans * g0_norm ;
+    g2[i] = ( posit != 0 ) ? trans * g2_norm : trans * g0_norm ;
 
     // projection for the smeared case ...
     project_trans_long( &trans , &longitudinal , SM_A , posit ) ;
-    g2_SM[i] = ( conj != posit ) ? trans * g2_norm : trans * g0_norm ;
+    g2_SM[i] = ( posit != 0 ) ? trans * g2_norm : trans * g0_norm ;
 
 #ifdef TADPOLE_IMPROVE
     // our u0's are ( 1 / u0 ) ^ 2, one correction for each A-field 
-- 
2.43.0


From 2eb0f9942e060dbc18128b47e748274e696e430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:56 +0000
Subject: [PATCH 037/101] fix: nonexceptional triplets: uninitialised trailing
 entry, overflow for odd MAXMOM, unlisted momenta, inconsistent momentum
 definition

---
 src/Cuts/MOMggg.c      | 39 +++++++++++++++--------------------
 src/Cuts/cuts.c        |  2 +-
 src/Cuts/triplet_gen.c | 47 ++++++++++++++++++++++++++++--------------
 3 files changed, 50 insertions(+), 38 deletions(-)

diff --git a/src/Cuts/MOMggg.c b/src/Cuts/MOMggg.c
index cc2e74a..994a46c 100755
--- a/src/Cuts/MOMggg.c
+++ b/src/Cuts/MOMggg.c
@@ -97,7 +97,7 @@ write_nonexceptional_g2g3( FILE *__restrict Ap ,
   read_trip( trip , nnmax ) ;
 
   size_t nn ;
-  size_t counter[ 1 ] = { 1 } ;
+  size_t counter[ 1 ] = { 0 } ;
   for( nn = 0 ; nn < nnmax/2 ; nn++ ) {
     counter[ 0 ] += trip[ nn ] ;
   }
@@ -137,37 +137,32 @@ write_nonexceptional_g2g3( FILE *__restrict Ap ,
 
   for( nn = 0 ; nn < nnmax/2 ; nn ++ ) {
 
-    double psq = 0. ;
-    double oneOpsq = 0. ;
-    if( trip[ nn ] != 0 ) {
-      // compute psq
-      size_t mu ;
-      for( mu = 0 ; mu < ND ; mu++ ) {
-	const double cache = momentum[ triplet[ checker ][ 0 ] ][ mu ] * \
-	  Latt.twiddles[ mu ] ; 
+    // count through the available triplets .. should be able to parallelize
+    for( i = 0 ; i < (size_t)trip[ nn ] ; i++ ) { 	  
+      const size_t place = checker + i ;
+	  
+      // initialise the threepoint
+      g3[ place ] = 0. ;
+
+      // compute psq, not all momenta of an orbit have the same
+      double psq = 0. ;
+      size_t nu ;
+      for( nu = 0 ; nu < ND ; nu++ ) {
+	const double cache = momentum[ triplet[ place ][ 0 ] ][ nu ] *	\
+	  Latt.twiddles[ nu ] ;
         #ifdef PSQ_MOM
 	const double temp =  cache ;
-        #else 
-	// Sin variant hmmm, psq's may (will) be different in this case
-	const double temp =  2. * sin( 0.5 * cache );
+        #else
+	const double temp =  2. * sin( 0.5 * cache ) ;
         #endif
 	psq += temp * temp ;
       }
-	
       if( psq < PREC_TOL ) {
 	psq = 1.0 ;
       }
 
       // wrap the psq into the g3 normalisation ...
-      oneOpsq = g3_norm / ( psq ) ;
-    }
-
-    // count through the available triplets .. should be able to parallelize
-    for( i = 0 ; i < (size_t)trip[ nn ] ; i++ ) { 	  
-      const size_t place = checker + i ;
-	  
-      // initialise the threepoint
-      g3[ place ] = 0. ;
+      const double oneOpsq = g3_norm / ( psq ) ;
       
       const size_t trip0 = list[ triplet[ place ][ 0 ] ].idx ; 
       const size_t trip1 = list[ triplet[ place ][ 1 ] ].idx ; 
diff --git a/src/Cuts/cuts.c b/src/Cuts/cuts.c
index de4a2b5..082b3c6 100755
--- a/src/Cuts/cuts.c
+++ b/src/Cuts/cuts.c
@@ -156,7 +156,7 @@ cuts_struct( struct site *__restrict A ,
   case NONEXCEPTIONAL :
     // we write the mom-list internally in the g2g3 code as it can
     // be different from the cut-momentum one..
-    write_nonexceptional_g2g3( Ap , A , list , in , CUTINFO.max_mom ) ;
+    check = write_nonexceptional_g2g3( Ap , A , list , in , CUTINFO.max_mom ) ;
     break ;
   case GLUON_PROPS :
     write_mom_veclist( Ap , in , list , ND ) ;
diff --git a/src/Cuts/triplet_gen.c b/src/Cuts/triplet_gen.c
index 530fa80..25abf60 100755
--- a/src/Cuts/triplet_gen.c
+++ b/src/Cuts/triplet_gen.c
@@ -53,6 +53,14 @@ get_posit( const int *p ,
   return GLU_FAILURE ;
 }
 
+// directions whose ratio to the smallest is not an integer are left at zero
+static int
+max_mode( const size_t mu ,
+	  const size_t r_nn )
+{
+  return ( fabs( rats[mu] - (int)rats[mu] ) < PREC_TOL ) ? (int)r_nn : 0 ;
+}
+
 // initialise the delta function
 static void
 init_delta( void )
@@ -150,13 +158,13 @@ recurse_p2( int *__restrict *__restrict triplet ,
 
   // loop the smallest first
   for( mu = ND ; mu > 0 ; mu-- ) {
-    if( p2[mu-1] < (int)r_nn ) {
+    if( p2[mu-1] < max_mode( mu-1 , r_nn ) ) {
       p2[mu-1]++ ;
       return recurse_p2( triplet , momentum , p1 , p2 , 
 			 nn , r_nn , nmom , 
 			 count , check , FIRST_PASS ) ;
     } else {
-      p2[mu-1] = -(int)r_nn ;
+      p2[mu-1] = -max_mode( mu-1 , r_nn ) ;
     }
   }
   return check ;
@@ -181,7 +189,7 @@ recurse_p( int *__restrict *__restrict triplet ,
   if( sum == nn ) {
     int *p2 = malloc( ND * sizeof( int ) ) ;
     for( mu = 0 ; mu < ND ; mu++ ) {
-      p2[ mu ] = -(int)r_nn ; 
+      p2[ mu ] = -max_mode( mu , r_nn ) ; 
     }  
     count += recurse_p2( triplet , momentum , p1 , p2 , 
 			 nn , r_nn , nmom ,  
@@ -190,13 +198,13 @@ recurse_p( int *__restrict *__restrict triplet ,
   }
   // loop the smallest first
   for( mu = ND ; mu > 0 ; mu-- ) {
-    if( p1[mu-1] < (int)r_nn ) {
+    if( p1[mu-1] < max_mode( mu-1 , r_nn ) ) {
       p1[mu-1]++ ;
       return recurse_p( triplet , momentum , p1 , 
 			nn , r_nn , nmom , 
 			count , FIRST_PASS ) ;
     } else {
-      p1[mu-1] = -(int)r_nn ;
+      p1[mu-1] = -max_mode( mu-1 , r_nn ) ;
     }
   }
   return count ;
@@ -222,13 +230,12 @@ get_triplet( int *__restrict *__restrict triplet ,
   simorb_ratios( ND ) ;
   for( nn = 0 ; nn < ND ; nn++ ) { rats[ nn ] = 1. / rats[nn] ; }
 
-  // loop the nn's
-  for( nn = 0 ; nn < nnmax ; nn += 2 ) {
+  // loop the nn's, there are nnmax/2 of them
+  for( nn = 0 ; nn + 1 < nnmax ; nn += 2 ) {
     const size_t root_nn = (size_t)sqrt( nn ) ;
     int *p = malloc( ND * sizeof( int ) ) ;
     for( mu = 0 ; mu < ND ; mu ++ ) {
-      p[mu] = ( fabs( rats[mu] - (int)rats[mu] ) < PREC_TOL ) ? \
-	-(int)root_nn : 0.0 ;
+      p[mu] = -max_mode( mu , root_nn ) ;
     }
 
     count = recurse_p( triplet , momentum , p , 
@@ -259,13 +266,13 @@ get_trip( int *__restrict trip ,
   simorb_ratios( ND ) ;
   for( nn = 0 ; nn < ND ; nn++ ) { rats[ nn ] = 1. / rats[nn] ; }
 
-  // loop the nn's
-  for( nn = 0 ; nn < nnmax ; nn += 2 ) {
+  // loop the nn's, there are nnmax/2 of them
+  for( nn = 0 ; nn + 1 < nnmax ; nn += 2 ) {
 
     const size_t root_nn = (size_t)sqrt( nn ) ;
     int *p = malloc( ND * sizeof( int ) ) ;
     for( mu = 0 ; mu < ND ; mu ++ ) {
-      p[mu] = ( fabs( rats[mu] - (int)rats[mu] ) < PREC_TOL ) ? -(int)root_nn : 0.0 ;
+      p[mu] = -max_mode( mu , root_nn ) ;
     }
 
     size_t check = count ;
@@ -440,9 +447,9 @@ compute_projector( int *__restrict *__restrict triplet ,
       mom[ 2 ][ mu ] = momentum[ triplet[ i ][ 2 ] ][ mu ] * Latt.twiddles[ mu ] ;
       #else
       // SIN variant
-      mom[ 0 ][ mu ] = 2.0 * sin( momentum[ triplet[ i ][ 0 ] ][ mu ] * Latt.twiddles[ mu ] ) ;
-      mom[ 1 ][ mu ] = 2.0 * sin( momentum[ triplet[ i ][ 1 ] ][ mu ] * Latt.twiddles[ mu ] ) ;
-      mom[ 2 ][ mu ] = 2.0 * sin( momentum[ triplet[ i ][ 2 ] ][ mu ] * Latt.twiddles[ mu ] ) ;
+      mom[ 0 ][ mu ] = 2.0 * sin( 0.5 * momentum[ triplet[ i ][ 0 ] ][ mu ] * Latt.twiddles[ mu ] ) ;
+      mom[ 1 ][ mu ] = 2.0 * sin( 0.5 * momentum[ triplet[ i ][ 1 ] ][ mu ] * Latt.twiddles[ mu ] ) ;
+      mom[ 2 ][ mu ] = 2.0 * sin( 0.5 * momentum[ triplet[ i ][ 2 ] ][ mu ] * Latt.twiddles[ mu ] ) ;
       #endif
     }
 
@@ -617,6 +624,16 @@ read_triplet_and_proj( int *__restrict *__restrict triplet ,
     free_delta( ) ;
     return GLU_FAILURE ;
   }
+  // triplets can leave the momenta that we kept
+  size_t i ;
+  for( i = 0 ; i < count ; i++ ) {
+    if( triplet[i][0] < 0 || triplet[i][1] < 0 || triplet[i][2] < 0 ) {
+      fprintf( stderr , "[CUTS] Triplets outside of the momentum list "
+	       "... Leaving\n" ) ;
+      free_delta( ) ;
+      return GLU_FAILURE ;
+    }
+  }
   // compute the projector here 
   compute_projector( triplet , proj , momentum , count ) ;
   // and free the delta
-- 
2.43.0


From 8d4cd517a6c4c5900050083a4fa782cf4d3fe428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 038/101] fix: stored triplet counts were shared by lattices
 with different aspect ratios

---
 src/Cuts/triplet_gen.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Cuts/triplet_gen.c b/src/Cuts/triplet_gen.c
index 25abf60..79e31af 100755
--- a/src/Cuts/triplet_gen.c
+++ b/src/Cuts/triplet_gen.c
@@ -483,7 +483,14 @@ read_trip( int *__restrict trip ,
   const size_t nn = nnmax / 2 ;
   char *str = malloc( (1+strlen(HAVE_PREFIX))*sizeof(char)) , tmp[ 64 ] ;
   sprintf( str , "%s" , HAVE_PREFIX ) ;
-  sprintf( tmp , "/Local/Moments/TRIP_%zu.config" , nnmax ) ;
+  append_char( &str , "/Local/Moments/TRIP." ) ;
+  // the number of triplets depends on the aspect ratios
+  size_t mu ;
+  for( mu = 0 ; mu < ND-1 ; mu++ ) {
+    sprintf( tmp , "%zux" , Latt.dims[mu] ) ;
+    append_char( &str , tmp ) ;
+  }
+  sprintf( tmp , "%zu_%zu.config" , Latt.dims[mu] , nnmax ) ;
   append_char( &str , tmp ) ;
   
   FILE *tripfile = fopen( str , "rb" ) ;
-- 
2.43.0


From b382259e6f4d05389a5bcc23caedec036af8bbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:09 +0000
Subject: [PATCH 039/101] fix: smeared gluon correlator shared its links with
 the thin field, which was smeared and transformed twice

---
 src/Cuts/smearing_param.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/Cuts/smearing_param.c b/src/Cuts/smearing_param.c
index c4cc989..aab9cf0 100755
--- a/src/Cuts/smearing_param.c
+++ b/src/Cuts/smearing_param.c
@@ -28,7 +28,6 @@
 #include "cut_routines.h"  // momentum cuts
 #include "cut_output.h"    // output file
 #include "geometry.h"      // general geometry for the p-calcs
-#include "init.h"          // init_navig()
 #include "plan_ffts.h"     // FFTW plan wrappers
 #include "plaqs_links.h"   // plaquettes and links calculations
 #include "pspace_landau.h" // momentum space Landau correction
@@ -212,8 +211,11 @@ cuts_struct_smeared( struct site *__restrict A ,
   }
 
   // allocate room for the smeared gauge field
-  struct site *SM_A = malloc( LVOLUME * sizeof ( struct site ) ) ;
-  init_navig( SM_A ) ;
+  struct site *SM_A = allocate_lat( ) ;
+  if( SM_A == NULL ) {
+    fprintf( stderr , "[CUTS] smeared field allocation failure\n" ) ;
+    return GLU_FAILURE ;
+  }
 
   // dirty, create a very weak field
 #ifdef WEAK_FIELD
@@ -223,7 +225,10 @@ cuts_struct_smeared( struct site *__restrict A ,
   size_t j ; 
 #pragma omp parallel for private(j)
   for( j = 0 ; j < LVOLUME ; j++ ) {
-    memcpy( &SM_A[j] , &A[j] , sizeof( struct site ) ) ; 
+    size_t mu ;
+    for( mu = 0 ; mu < ND ; mu++ ) {
+      equiv( SM_A[j].O[mu] , A[j].O[mu] ) ;
+    }
   }
   SM_wrap_struct( SM_A , SMINFO ) ;
 
@@ -238,7 +243,7 @@ cuts_struct_smeared( struct site *__restrict A ,
   if( mom_gauge( A , CUTINFO.definition ) == GLU_FAILURE ||
       mom_gauge( SM_A , CUTINFO.definition ) == GLU_FAILURE ) {
     fprintf( stderr , "[CUTS] FFT of the fields failed\n" ) ;
-    free( SM_A ) ;
+    free_lat( SM_A ) ;
     return GLU_FAILURE ;
   }
   
@@ -302,7 +307,7 @@ cuts_struct_smeared( struct site *__restrict A ,
   free( (void*)list ) ;
   free( in ) ;
   free( str ) ;
-  free( SM_A ) ;
+  free_lat( SM_A ) ;
 
   return GLU_SUCCESS ;
 }
-- 
2.43.0


From 3299700e5f5d60f77da6d5ee1d350722d4df4abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:01 +0000
Subject: [PATCH 040/101] fix: configuration-space gluon correlator raced on
 its direction index between threads

---
 src/Cuts/config_gluons.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Cuts/config_gluons.c b/src/Cuts/config_gluons.c
index bc9eb0c..af34773 100755
--- a/src/Cuts/config_gluons.c
+++ b/src/Cuts/config_gluons.c
@@ -137,7 +137,7 @@ spatial_correlator( struct site *__restrict A ,
   }
 
   // compute the convolution in momentum space
-#pragma omp parallel for private(i)
+#pragma omp parallel for private(i) private(mu)
   for( i = 0 ; i < LVOLUME ; i++ ) {
     GLU_complex tr , sum = 0.0 ;
     #ifdef CUT_FORWARD
@@ -165,7 +165,7 @@ spatial_correlator( struct site *__restrict A ,
 
   // compute the sum
   size_t t ;
-#pragma omp parallel for private(i)
+#pragma omp parallel for private(t) private(i)
   for( t = 0 ; t < Latt.dims[ND-1] ; t++ ) {
     #ifdef CUT_FORWARD
     GLU_complex *p = FFTW.in + LCU * t ;
-- 
2.43.0


From 977c2607ffc782d8fd1b10eb2a29204a50910671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:27 +0000
Subject: [PATCH 041/101] fix: maximum gauge-fixing deviation could be
 overwritten by a smaller value from another thread

---
 src/Gfix/gftests.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Gfix/gftests.c b/src/Gfix/gftests.c
index a3eccc5..826678d 100755
--- a/src/Gfix/gftests.c
+++ b/src/Gfix/gftests.c
@@ -236,7 +236,7 @@ theta_test_lin( const struct site *__restrict lat ,
     #ifdef GLU_OMP_MEAS
     if( res > *max ) { 
       omp_set_lock( &writelock ) ;
-      *max = res ;
+      if( res > *max ) { *max = res ; }
       omp_unset_lock( &writelock ) ;
     } 
     #else
@@ -276,7 +276,7 @@ theta_test_log( const struct site *__restrict lat ,
     #ifdef GLU_OMP_MEAS
     if( res > *max ) { 
       omp_set_lock( &writelock ) ;
-      *max = res ;
+      if( res > *max ) { *max = res ; }
       omp_unset_lock( &writelock ) ;
     } 
     #else
-- 
2.43.0


From 964bcd368ce157da687eb1cb3047b4814e5cdb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:34 +0000
Subject: [PATCH 042/101] fix: count the diagonal of the derivative in the
 gauge fixing traces

---
 src/Gfix/CFACG.c | 7 ++++---
 src/Gfix/FACG.c  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/Gfix/CFACG.c b/src/Gfix/CFACG.c
index b87add8..2117841 100755
--- a/src/Gfix/CFACG.c
+++ b/src/Gfix/CFACG.c
@@ -185,7 +185,7 @@ sum_DER2( double *red ,
     GLU_complex temp[ HERMSIZE ] ;
     size_t mu ;
     for( mu = 0 ; mu < HERMSIZE ; mu++ ) {
-      temp[mu] = in[mu][i] ;
+      temp[mu] = -I * in[mu][i] ; // "in" is anti-hermitian
     }
     GLU_real tr ;
     trace_ab_herm_short( &tr , temp , temp ) ;
@@ -232,8 +232,9 @@ sum_PR( double *red ,
     GLU_complex temp1[ HERMSIZE ] , temp2[ HERMSIZE ] ;
     size_t mu ;
     for( mu = 0 ; mu < HERMSIZE ; mu++ ) {
-      temp1[mu] = in[mu][i] ;
-      temp2[mu] = in[mu][i] - in_old[mu][i] ;
+      // "in" is anti-hermitian, the trace expects hermitian matrices
+      temp1[mu] = -I * in[mu][i] ;
+      temp2[mu] = -I * ( in[mu][i] - in_old[mu][i] ) ;
     }
     GLU_real tr1 , tr2 ;
     trace_ab_herm_short( &tr1 , temp1 , temp1 ) ;
diff --git a/src/Gfix/FACG.c b/src/Gfix/FACG.c
index 41d0c2c..da40042 100755
--- a/src/Gfix/FACG.c
+++ b/src/Gfix/FACG.c
@@ -131,8 +131,9 @@ sum_PR3( double *red ,
     GLU_complex a[ HERMSIZE ] GLUalign = {} , b[ HERMSIZE ] GLUalign = {} ;
     size_t mu ;
     for( mu = 0 ; mu < HERMSIZE ; mu++ ) {
-      a[mu] = in[mu][i] ;
-      b[mu] = in[mu][i] - in_old[mu][i];
+      // "in" is anti-hermitian, the trace expects hermitian matrices
+      a[mu] = -I * in[mu][i] ;
+      b[mu] = -I * ( in[mu][i] - in_old[mu][i] ) ;
     }
     trace_ab_herm_short( &loc_sum1 , a , a ) ;
     trace_ab_herm_short( &loc_sum2 , a , b ) ;
@@ -165,7 +166,7 @@ sum_DER3( double *red ,
     GLU_complex temp[ HERMSIZE ] GLUalign ;
     size_t mu ;
     for( mu = 0 ; mu < HERMSIZE ; mu++ ) {
-      temp[mu] = in[mu][i] ;
+      temp[mu] = -I * in[mu][i] ; // "in" is anti-hermitian
     }
     GLU_real tr ;
     trace_ab_herm_short( &tr , temp , temp ) ;
-- 
2.43.0


From 16bab9c11d964161de872373d9424ebdb96bffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:34 +0000
Subject: [PATCH 043/101] fix: conjugate gradient of an already fixed slice
 divided zero by zero

---
 src/Gfix/CFACG.c | 12 ++++++++----
 src/Gfix/FACG.c  | 14 +++++++++-----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/Gfix/CFACG.c b/src/Gfix/CFACG.c
index 2117841..f9e0d4e 100755
--- a/src/Gfix/CFACG.c
+++ b/src/Gfix/CFACG.c
@@ -349,10 +349,14 @@ steep_step_FACG( GLU_complex **gauge ,
   *tr = insum * GFNORM_COULOMB ;
   
   // compute the beta value, who knows what value is best?
-  double beta = PRfmax( 0.0 , sum_conj / inold ) ;
-  // switch to the fletcher reeves
-  if( *tr < CG_TOL ) {
-    beta = insum / inold ;
+  double beta = 0.0 ;
+  // an already fixed slice has no previous search direction
+  if( inold > 0.0 ) {
+    beta = PRfmax( 0.0 , sum_conj / inold ) ;
+    // switch to the fletcher reeves
+    if( *tr < CG_TOL ) {
+      beta = insum / inold ;
+    }
   }
   inold = insum ;
   
diff --git a/src/Gfix/FACG.c b/src/Gfix/FACG.c
index da40042..d917041 100755
--- a/src/Gfix/FACG.c
+++ b/src/Gfix/FACG.c
@@ -305,11 +305,15 @@ steep_Landau_FACG( struct site *lat ,
   }
       
   // compute the beta value, who knows what value is best?
-  double beta = PRfmax( 0.0 , ( sum_conj ) / inold ) ;
-  
-  // switch to the fletcher reeves
-  if( *tr < CG_TOL ) {
-    beta = insum / inold ;
+  double beta = 0.0 ;
+
+  // an already fixed field has no previous search direction
+  if( inold > 0.0 ) {
+    beta = PRfmax( 0.0 , ( sum_conj ) / inold ) ;
+    // switch to the fletcher reeves
+    if( *tr < CG_TOL ) {
+      beta = insum / inold ;
+    }
   }
   inold = insum ;
   
-- 
2.43.0


From af9ec3691f427c25e8f9b40362621322c39a89d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:10 +0000
Subject: [PATCH 044/101] fix: SU(2) Landau accuracy was measured a factor of
 four too small

---
 src/Gfix/lin_derivs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Gfix/lin_derivs.c b/src/Gfix/lin_derivs.c
index 2cd6c36..c5659e2 100755
--- a/src/Gfix/lin_derivs.c
+++ b/src/Gfix/lin_derivs.c
@@ -187,7 +187,7 @@ fast_deriv_AntiHermitian_proj( GLU_complex sum[ HERMSIZE ] ,
   *( sum + 0 ) = REsum0 ;
   *( sum + 1 ) = -I * REsum1 + IMsum1 ;
 
-  return ( REsum0 * REsum0 + REsum1 * REsum1 + IMsum1 * IMsum1 ) ;
+  return 4.0 * ( REsum0 * REsum0 + REsum1 * REsum1 + IMsum1 * IMsum1 ) ;
 
 #endif
 }
-- 
2.43.0


From aed6198389d57ed81494d7dae2eb8990135f6133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:10 +0000
Subject: [PATCH 045/101] fix: steepest descent failures were lost when the
 iterations were added to the flag

---
 src/Gfix/FACG.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Gfix/FACG.c b/src/Gfix/FACG.c
index d917041..8440445 100755
--- a/src/Gfix/FACG.c
+++ b/src/Gfix/FACG.c
@@ -426,7 +426,6 @@ FASD( struct site *lat ,
     
     if( loc_iters >= max_iters ) {
       if( ( *th < 1E3*acc ) ) {
-	loc_iters = 0 ;
 	#pragma omp master
 	{
 	  iters += loc_iters ;
@@ -434,12 +433,13 @@ FASD( struct site *lat ,
 	}
 	goto top ;
       } else {
-	iters = 123456789 ;
+	loc_iters = 123456789 ;
       }
     }
 #pragma omp master
     {
-      iters += loc_iters ;
+      // the failure flag must not be mixed with an iteration count
+      iters = loc_iters == 123456789 ? loc_iters : iters + loc_iters ;
     }
   }
 
-- 
2.43.0


From d37f517ab640ec2ae2bb939fca15e9fa98d8ed2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:10 +0000
Subject: [PATCH 046/101] fix: a Landau restart that cannot go back to its
 configuration is a failure

---
 src/Gfix/Landau.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Gfix/Landau.c b/src/Gfix/Landau.c
index 53580b0..9b793a8 100755
--- a/src/Gfix/Landau.c
+++ b/src/Gfix/Landau.c
@@ -242,12 +242,23 @@ grab_file( struct site *lat ,
 	   GLU_complex **gauge , 
 	   const char *infile )
 {
+  // generated fields have no file to go back to, lat is still gauge equivalent
+  if( Latt.head == RANDOM_CONFIG || Latt.head == UNIT_GAUGE ||
+      Latt.head == INSTANTON ) {
+    random_transform( lat , gauge ) ;
+    return GLU_SUCCESS ;
+  }
   struct head_data HEAD_DATA ;
   FILE *config = fopen( infile , "rb" ) ;
+  if( config == NULL ) {
+    fprintf( stderr , "[IO] cannot open %s again\n" , infile ) ;
+    return GLU_FAILURE ;
+  }
   // assume the chksum is correct
   if( read_header( config , &HEAD_DATA , GLU_FALSE ) == GLU_FAILURE ||
       get_config_SUNC( config , lat , HEAD_DATA , infile ) == GLU_FAILURE ) {
     printf( "[IO] binary file read error \n" ) ;
+    fclose( config ) ;
     return GLU_FAILURE ;
   } 
   random_transform( lat , gauge ) ; 
@@ -323,6 +334,7 @@ Landau( struct site *lat ,
       //repeat procedure have to read in the file :( 
       if( grab_file( lat , gauge , infile ) == GLU_FAILURE ) { 
 	printf( "[IO] Something funky happened when trying to read in config again!\n" ) ;
+	failure = GF_GLU_FAILURES ; // we have not fixed the gauge
 	goto MemFree ; 
       }
       // and the callback
-- 
2.43.0


From 229a7ecdee8b31bfd5f328c42f8de16cd7d6e841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:10 +0000
Subject: [PATCH 047/101] fix: luxury gauge returned an unset field when no
 copy converged

---
 src/Gfix/Landau.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Gfix/Landau.c b/src/Gfix/Landau.c
index 9b793a8..b1c0e48 100755
--- a/src/Gfix/Landau.c
+++ b/src/Gfix/Landau.c
@@ -123,6 +123,15 @@ luxury_copy_fast( struct site *lat ,
 #else
   double maxlink = 0.0 , newlink ;
 #endif
+  // start from our field in case none of the copies converge
+#pragma omp parallel for private(i)
+  for( i = 0 ; i < LVOLUME ; i++ ) {
+    size_t mu ;
+    for( mu = 0 ; mu < ND ; mu++ ) {
+      equiv( lat_best[i].O[mu] , lat[i].O[mu] ) ;
+    }
+  }
+
   // loop over the number of gauge copies !
   for( copies = 0 ; copies < LUXURY_GAUGE ; copies++ ) {
     
-- 
2.43.0


From 72af32e3997e220de95f8d386d9fb2a1f0682dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:10 +0000
Subject: [PATCH 048/101] fix: report a failure of the gauge fixing to the
 caller

---
 src/Wrappers/GLUlib_wrap.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index 6fea672..4867be7 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -271,9 +271,10 @@ read_and_fix( const char *infile ,
   // if we want a random transform then here is where we do it
   if( rtrans == GLU_TRUE ) { random_gtrans( lat ) ; }
 
-  GF_wrap( infile , lat , GFINFO ) ;
-
-  if( (Latt.argc-1) == WRITE ) {
+  // do not hand over something that failed to be fixed
+  if( GF_wrap( infile , lat , GFINFO ) == GLU_FAILURE ) {
+    FLAG = GLU_FAILURE ;
+  } else if( (Latt.argc-1) == WRITE ) {
     FLAG = write_configuration( lat , outfile , storage , output_details ) ;
   }
 
-- 
2.43.0


From c73454e62a1d6e9567f2df1222a36ed97d4d8402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:54 +0000
Subject: [PATCH 049/101] fix: temporal constance of SU(2) fields compared the
 first slice with itself

---
 src/Gfix/gftests.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Gfix/gftests.c b/src/Gfix/gftests.c
index 826678d..14229d0 100755
--- a/src/Gfix/gftests.c
+++ b/src/Gfix/gftests.c
@@ -94,11 +94,11 @@ const_time( const struct site *__restrict lat ,
 
       #elif NC == 2
 
-      register const double re0 = creal( sum1[0] ) - creal( sum1[0] ) ;
+      register const double re0 = creal( sum1[0] ) - creal( sum2[0] ) ;
       av += (double)fabs( re0 ) ; 
       av += (double)cabs( sum1[1] - sum2[1] ) ;
       // log def
-      register const double rel0 = creal( sum1[0] ) - creal( sum1[0] ) ;
+      register const double rel0 = creal( sum1_log[0] ) - creal( sum2_log[0] ) ;
       avlog += (double)fabs( rel0 ) ; 
       avlog += (double)cabs( sum1_log[1] - sum2_log[1] ) ;
 
-- 
2.43.0


From dec11fbb19d38e1f87519284937e0a507194604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:11 +0000
Subject: [PATCH 050/101] fix: continue gauge fixing only when it has not
 converged, NaN is not convergence

---
 src/Gfix/CFACG.c | 9 ++++-----
 src/Gfix/FACG.c  | 6 ++++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Gfix/CFACG.c b/src/Gfix/CFACG.c
index f9e0d4e..3b8f39a 100755
--- a/src/Gfix/CFACG.c
+++ b/src/Gfix/CFACG.c
@@ -498,14 +498,13 @@ steep_fix( GLU_complex **gauge ,
     }
 
     // attempt a continuation run if we are close to the desired accuracy
-    if( loc_iters >= (max_iters) ) {
-      if( tr < 1E4*accuracy && !isnan( tr ) && !isinf( tr ) ) {
+    // this is the case too when it is not a number
+    if( !( tr <= accuracy ) ) {
+      if( tr < 1E4*accuracy ) {
 	tot_iters += loc_iters ;
 	goto top ;
       }
-      if( tr > accuracy || isnan( tr ) || isinf( tr ) ) {
-	trans_flag = GLU_TRUE ;
-      }
+      trans_flag = GLU_TRUE ;
     }
 
     // random gauge transformation
diff --git a/src/Gfix/FACG.c b/src/Gfix/FACG.c
index 8440445..ec8e217 100755
--- a/src/Gfix/FACG.c
+++ b/src/Gfix/FACG.c
@@ -375,7 +375,8 @@ FACG( struct site *lat ,
       iters = loc_iters ;
     }
     
-    if( loc_iters >= max_iters ) {
+    // not there yet, or not even a number
+    if( !( *th <= acc ) ) {
       if( ( *th < 1E3*acc ) ) {
 	#pragma omp master
 	{
@@ -424,7 +425,8 @@ FASD( struct site *lat ,
     loc_iters = steep_Landau_FASD( lat , FFTW , &CG , th ,
 				   acc , max_iters ) ;
     
-    if( loc_iters >= max_iters ) {
+    // not there yet, or not even a number
+    if( !( *th <= acc ) ) {
       if( ( *th < 1E3*acc ) ) {
 	#pragma omp master
 	{
-- 
2.43.0


From e05f1267bf1fb0fc95943bc0dd8c7dcd1f45a0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:56 +0000
Subject: [PATCH 051/101] fix: gribov copy fixing hides that the final run did
 not converge

---
 src/Gfix/Landau.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Gfix/Landau.c b/src/Gfix/Landau.c
index b1c0e48..2cde811 100755
--- a/src/Gfix/Landau.c
+++ b/src/Gfix/Landau.c
@@ -193,10 +193,11 @@ luxury_copy_fast( struct site *lat ,
   }
   
   // final convergence run god I hope this one doesn't fail! Pretty unlikely
+  // its failure flag must not be added to the iterations of the last copy
   #ifdef GLU_GFIX_SD
-  iters += FASD( lat , FFTW , tr , acc , max_iters ) ; 
+  iters = FASD( lat , FFTW , tr , acc , max_iters ) ; 
   #else
-  iters += FACG( lat , FFTW , tr , acc , max_iters ) ; 
+  iters = FACG( lat , FFTW , tr , acc , max_iters ) ; 
   #endif
   
   printf( "FINISHED\n" ) ;
-- 
2.43.0


From 0f7488337a67bafa68dfb2ac6e6701cc0d0909c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:42 +0000
Subject: [PATCH 052/101] fix: a field or slice transformation that has left
 the group is not a gauge fixing success

---
 src/Gfix/CFACG.c | 51 ++++++++++++++++++++++++++++++++++--------------
 src/Gfix/FACG.c  | 36 ++++++++++++++++++++++++++++++++--
 2 files changed, 70 insertions(+), 17 deletions(-)

diff --git a/src/Gfix/CFACG.c b/src/Gfix/CFACG.c
index 3b8f39a..a64948c 100755
--- a/src/Gfix/CFACG.c
+++ b/src/Gfix/CFACG.c
@@ -437,15 +437,13 @@ steep_step_FASD( GLU_complex **gauge ,
 // test the gauge transformation solution
 static GLU_bool
 adequate_solution( GLU_complex **slice_gauge , 
+		   double *red ,
 		   const size_t iters ) 
 {
-  GLU_bool failure = GLU_TRUE ;
+  GLU_bool adequate = GLU_TRUE ;
   size_t i ;
 #pragma omp for private(i)
   for( i = 0 ; i < LCU ; i++ ) {
-
-    // reunitarise the solution
-    gram_reunit( slice_gauge[i] ) ;
     
     const double *p = (const double*)slice_gauge[i] ;
     register double sum = 0.0 ;
@@ -454,11 +452,26 @@ adequate_solution( GLU_complex **slice_gauge ,
       sum += *p * ( *p ) ; p++ ; // re^2
       sum += *p * ( *p ) ; p++ ; // im^2
     }
-    if( fabs( sum - NC ) > iters*PREC_TOL ) {
-      failure = GLU_FALSE ;
+    // something that is not a number is not adequate
+    if( !( fabs( sum - NC ) <= iters*PREC_TOL ) ) {
+      adequate = GLU_FALSE ;
     }
+
+    // reunitarise the solution
+    gram_reunit( slice_gauge[i] ) ;
+  }
+  // all threads have to come to the same conclusion
+  red[ CLINE*get_GLU_thread( ) ] = ( adequate == GLU_TRUE ) ? 0.0 : 1.0 ;
+  {
+    #pragma omp barrier
+  }
+  for( i = 0 ; i < (size_t)Latt.Nthreads ; i++ ) {
+    if( red[ CLINE*i ] != 0.0 ) { adequate = GLU_FALSE ; }
+  }
+  {
+    #pragma omp barrier
   }
-  return failure ;
+  return adequate ;
 }
 
 // coulomb gauge fix on slice t
@@ -489,14 +502,6 @@ steep_fix( GLU_complex **gauge ,
     loc_iters = f( gauge , CG , FFTW , &tr ,
 		   lat , t , accuracy , max_iters ) ;
     
-    // quick test for unitarity of our gauge transformation matrices
-    if( tr < accuracy ) {
-      if( adequate_solution( gauge , loc_iters > 0 ? loc_iters : 1 ) 
-	  == GLU_FALSE ) {
-	trans_flag = GLU_TRUE ;
-      }
-    }
-
     // attempt a continuation run if we are close to the desired accuracy
     // this is the case too when it is not a number
     if( !( tr <= accuracy ) ) {
@@ -505,6 +510,11 @@ steep_fix( GLU_complex **gauge ,
 	goto top ;
       }
       trans_flag = GLU_TRUE ;
+    // quick test for unitarity of our gauge transformation matrices
+    } else if( adequate_solution( gauge , CG.red , 
+				  loc_iters > 0 ? loc_iters : 1 ) 
+	       == GLU_FALSE ) {
+      trans_flag = GLU_TRUE ;
     }
 
     // random gauge transformation
@@ -526,6 +536,17 @@ steep_fix( GLU_complex **gauge ,
     }
     tot_iters += loc_iters ;
 
+    // a solution that has left the group cannot be used, and is no success
+    if( trans_flag == GLU_TRUE && 
+	adequate_solution( gauge , CG.red , max_iters ) == GLU_FALSE ) {
+      size_t i ;
+      #pragma omp for private(i)
+      for( i = 0 ; i < LCU ; i++ ) {
+	identity( gauge[i] ) ;
+      }
+      tr = 1.0 ;
+    }
+
     // get the general gauge fixing information
     get_info( t , tr , tot_iters , control , accuracy ) ;
 
diff --git a/src/Gfix/FACG.c b/src/Gfix/FACG.c
index ec8e217..6787d80 100755
--- a/src/Gfix/FACG.c
+++ b/src/Gfix/FACG.c
@@ -341,6 +341,30 @@ steep_Landau_FACG( struct site *lat ,
   return loc_iters ;
 }
 
+// a diverging search direction can take the links off the group, and a field
+// that vanishes satisfies any accuracy
+static int
+field_is_unitary( const struct site *lat )
+{
+  double sum = 0.0 ;
+  size_t i ;
+#pragma omp parallel for private(i) reduction(+:sum)
+  for( i = 0 ; i < LVOLUME ; i++ ) {
+    double loc_sum = 0.0 ;
+    size_t mu , j ;
+    for( mu = 0 ; mu < ND ; mu++ ) {
+      for( j = 0 ; j < NCNC ; j++ ) {
+	const GLU_complex u = lat[i].O[mu][j] ;
+	loc_sum += creal( u ) * creal( u ) + cimag( u ) * cimag( u ) ;
+      }
+    }
+    sum = sum + loc_sum ;
+  }
+  // written such that it is not satisfied by something that is not a number
+  return fabs( sum / ( NC * ND * (double)LVOLUME ) - 1.0 ) < 1E-6 ?
+    GLU_SUCCESS : GLU_FAILURE ;
+}
+
 // overwrites the lattice links in lat to Landau gauge fixed links using CG
 size_t
 FACG( struct site *lat , 
@@ -355,7 +379,7 @@ FACG( struct site *lat ,
   size_t iters = 0 ;
   
   // have the option to leave early before allocations
-  if( *th < acc ) return iters ;
+  if( *th < acc && field_is_unitary( lat ) == GLU_SUCCESS ) return iters ;
   
   struct CGtemps CG ;
   if( allocate_temp_lg( &CG , GLU_TRUE ) == GLU_FAILURE ) {
@@ -389,6 +413,10 @@ FACG( struct site *lat ,
     }
   }
 
+  if( field_is_unitary( lat ) == GLU_FAILURE ) {
+    iters = 123456789 ;
+  }
+
  end :
 
   free_temp_lg( CG , GLU_TRUE ) ;
@@ -410,7 +438,7 @@ FASD( struct site *lat ,
   size_t iters = 0 ;
   
   // have the option to leave early before allocations
-  if( *th < acc ) return iters ;
+  if( *th < acc && field_is_unitary( lat ) == GLU_SUCCESS ) return iters ;
   
   struct CGtemps CG ;
   if( allocate_temp_lg( &CG , GLU_FALSE ) == GLU_FAILURE ) {
@@ -445,6 +473,10 @@ FASD( struct site *lat ,
     }
   }
 
+  if( field_is_unitary( lat ) == GLU_FAILURE ) {
+    iters = 123456789 ;
+  }
+
  end :
 
   free_temp_lg( CG , GLU_FALSE ) ;
-- 
2.43.0


From b9d9a87ad4eb8e4db77e207671c5bfc64b494fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:56 +0000
Subject: [PATCH 053/101] fix: heat bath and over-relaxation skip a subgroup in
 which the staple vanishes

---
 src/Update/hb.c    | 2 ++
 src/Update/relax.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/Update/hb.c b/src/Update/hb.c
index 7336315..ebb6f27 100644
--- a/src/Update/hb.c
+++ b/src/Update/hb.c
@@ -145,6 +145,8 @@ hb( GLU_complex U[ NCNC ] ,
     const size_t stoch = i ;
     #endif
     only_subgroup( &s0 , &s1 , &scale , U , staple , stoch ) ;
+    // the staple has no component in this subgroup, no direction to normalise
+    if( !isfinite( scale ) ) continue ;
     generate_SU2( &s0 , &s1 , invbeta*scale , thread ) ;
     su2_rotate( U , s0 , s1 , stoch ) ;
   }
diff --git a/src/Update/relax.c b/src/Update/relax.c
index 5f59ac8..4bc374b 100644
--- a/src/Update/relax.c
+++ b/src/Update/relax.c
@@ -65,6 +65,8 @@ overrelax( GLU_complex U[ NCNC ] ,
     if( par_rng_dbl( thread ) < 0.5 ) continue ;
     #endif
     only_subgroup( &s0 , &s1 , &scale , U , staple , stoch ) ;
+    // the staple has no component in this subgroup, no direction to normalise
+    if( !isfinite( scale ) ) continue ;
     microcanonical( &s0 , &s1 ) ;
     su2_rotate( U , s0 , s1 , stoch ) ;
   }
-- 
2.43.0


From 0e3fc10c68246db687beebb2248f32b8dda07de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:10 +0000
Subject: [PATCH 054/101] fix: improved-action draughtboard needs extents that
 are multiples of four, not the others

---
 src/Geometry/draughtboard.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/draughtboard.c b/src/Geometry/draughtboard.c
index 89ea007..a46c9e9 100644
--- a/src/Geometry/draughtboard.c
+++ b/src/Geometry/draughtboard.c
@@ -135,7 +135,7 @@ init_improved_cb( struct draughtboard *db )
     return GLU_FAILURE ;
   }
   for( int mu = 0 ; mu < ND ; mu++ ) {
-    if( (Latt.dims[mu]%4 == 0 && Latt.dims[mu] >=4) ) {
+    if( Latt.dims[mu] < 4 || Latt.dims[mu]%4 != 0 ) {
       fprintf( stderr , "Unsuitable lattice dimension hit %zu\n" , Latt.dims[mu] ) ;
       return GLU_FAILURE ;
     }
-- 
2.43.0


From 58077c1d27002ded6176a1ba3dfad6334cb93201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:39 +0000
Subject: [PATCH 055/101] fix: strong-coupling heat bath kept the last rejected
 Kennedy-Pendleton proposal, use Creutz's there

---
 src/Update/hb.c | 48 ++++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/Update/hb.c b/src/Update/hb.c
index ebb6f27..c5d5ea8 100644
--- a/src/Update/hb.c
+++ b/src/Update/hb.c
@@ -47,6 +47,9 @@ a    GLU is distributed in the hope that it will be useful,
 #define USE_KP
 
 #ifdef USE_KP
+// above this KP hardly ever accepts, strong coupling is left to Creutz
+#define KP_NORM_MAX (1.0)
+
 // Kennedy-Pendleton heatbath algorithm
 static int
 KP( double *__restrict d ,
@@ -58,21 +61,34 @@ KP( double *__restrict d ,
   *d = -( log( par_rng_dbl( thread ) ) + log( par_rng_dbl( thread ) ) * x3*x3 ) * NORM ;
   return ( 1. - 0.5*(*d) ) < x4*x4 ;
 }
-#else
-// Creutz heatbath algorithm
+#endif
+
+// Creutz heatbath algorithm, xlm1 is exp(-2/NORM)-1
 static int
 Creutz( double *__restrict d ,
-	const double xl ,
+	const double xlm1 ,
 	const double NORM ,
 	const uint32_t thread ) 
 {
   register const double x4 = par_rng_dbl( thread ) ;
   register const double a0 = 1.0 + \
-    log( xl + ( 1.0 - xl ) * par_rng_dbl( thread ) ) * NORM ;
+    log1p( xlm1 * ( 1.0 - par_rng_dbl( thread ) ) ) * NORM ;
   *d = 1.0 - a0 ;
   return ( 1.0 - a0*a0 ) < x4*x4 ;
 }
+
+// one proposal for d, non-zero if it is rejected
+static int
+propose( double *__restrict d ,
+	 const double xlm1 ,
+	 const double NORM ,
+	 const uint32_t thread )
+{
+#ifdef USE_KP
+  if( NORM < KP_NORM_MAX ) return KP( d , NORM , thread ) ;
 #endif
+  return Creutz( d , xlm1 , NORM , thread ) ;
+}
 
 // generate SU(2) matrix proportional to boltzmann weight
 static int
@@ -85,22 +101,18 @@ generate_SU2( GLU_complex *s0 ,
   size_t iters = 1 ;
 
   // compute d which is (1-a0) = the leftmost su2 matrix element
-#ifdef USE_KP
-  if( KP( &d ,  NORM , thread ) ) {
-    // redo the algorithm
-    while( KP( &d , NORM , thread ) && iters < NHBMAX ) {
-      iters++ ;
-    }
+  const double xlm1 = expm1( -2./NORM ) ;
+  int rejected ;
+  while( ( rejected = propose( &d , xlm1 , NORM , thread ) ) && iters < NHBMAX ) {
+    iters++ ;
   }
-#else
-  const double xl = exp( -2./NORM ) ; 
-  if( Creutz( &d , xl , NORM , thread ) ) {
-    // redo the algorithm
-    while( Creutz( &d , xl , NORM , thread ) && iters < NHBMAX ) {
-      iters++ ;
-    }
+
+  // if nothing was accepted d is not a draw from the distribution and need
+  // not even give an SU(2) matrix, leaving the link alone satisfies balance
+  if( rejected ) {
+    *s0 = 1.0 ; *s1 = 0.0 ;
+    return GLU_FAILURE ;
   }
-#endif
   
   // generate SU(2) matrix
   const double a0  = 1.0 - d ;
-- 
2.43.0


From a6a48e636325decd9d5d7e6eee3d6f13717a140d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:29 +0000
Subject: [PATCH 056/101] fix: over-relaxation with the documented NSTOCH
 option did not compile

---
 src/Update/relax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Update/relax.c b/src/Update/relax.c
index 4bc374b..fb9ab7b 100644
--- a/src/Update/relax.c
+++ b/src/Update/relax.c
@@ -48,7 +48,7 @@ static void
 overrelax( GLU_complex U[ NCNC ] , 
 	   const GLU_complex staple[ NCNC ] )
 {
-  #ifdef SOR
+  #if (defined SOR) || (NSTOCH != NSU2SUBGROUPS)
   const uint32_t thread = get_GLU_thread() ;
   #endif
   GLU_complex s0 GLUalign , s1 GLUalign ;
-- 
2.43.0


From e1494cc07d6a55b404d0902d4f7a457835195fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:40 +0000
Subject: [PATCH 057/101] fix: update run cut its output name at the first dot
 of the whole path and overflowed the name buffer

---
 src/Update/KPHB.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index b73b185..9da9e27 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -128,8 +128,14 @@ hb_update( struct site *lat ,
 	   const char *output_details )
 {
   // strip the number in the infile if it has one
-  char *pch = strtok( (char*)traj_name , "." ) ;
-  char str[ strlen(pch)+6+sizeof(size_t) ] ;
+  // careful, the directories in its path can have dots in them
+  char pch[ strlen( traj_name ) + 1 ] ;
+  strcpy( pch , traj_name ) ;
+  char *base = strrchr( pch , '/' ) ;
+  base = ( base == NULL ) ? pch : base + 1 ;
+  base[ strcspn( base , "." ) ] = '\0' ;
+  // "." , the largest size_t has 20 digits , ".rand" and the terminator
+  char str[ strlen(pch) + 27 ] ;
   sprintf( str , "%s.%zu.rand" , pch , Latt.flow ) ;
   
   if( HBINFO.continuation == GLU_FALSE ) {
-- 
2.43.0


From 7e0acd8fb2235427f0dcce2454f1db79099c3055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:09 +0000
Subject: [PATCH 058/101] fix: MWC_4096 reset its index on every call and so
 never used its table

---
 src/Utils/par_MWC_4096.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Utils/par_MWC_4096.c b/src/Utils/par_MWC_4096.c
index ae207fc..25c123e 100644
--- a/src/Utils/par_MWC_4096.c
+++ b/src/Utils/par_MWC_4096.c
@@ -32,7 +32,6 @@ static uint32_t *mcwc_i ; // index
 static uint32_t
 par_MWC_4096( const uint32_t thread )
 {
-  mcwc_i[thread] = 4095 ;
   mcwc_i[thread] = ( mcwc_i[thread]+1 )&4095 ;
 
   const uint64_t t = 18782LL*table[thread][mcwc_i[thread]] + carry[thread] ;
-- 
2.43.0


From c4fecd923f32ad8055e634e4c1b5b6ba6e244fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:09 +0000
Subject: [PATCH 059/101] fix: KISS generator state was written big endian but
 read back without swapping

---
 src/Utils/par_KISS.c     | 6 ++++++
 src/Utils/par_MWC_4096.c | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Utils/par_KISS.c b/src/Utils/par_KISS.c
index 6f97899..e159761 100644
--- a/src/Utils/par_KISS.c
+++ b/src/Utils/par_KISS.c
@@ -104,6 +104,12 @@ read_par_KISS_table( FILE *rng_file )
       return GLU_FAILURE ;
     }
   }
+  // swap them if we aren't big endian
+  if( !WORDS_BIGENDIAN ) { 
+    for( i = 0 ; i < Latt.Nthreads ; i++ ) {
+      bswap_32( RNG_TABLE , table[i] ) ;
+    }
+  }
   return GLU_SUCCESS ;
 }
 
diff --git a/src/Utils/par_MWC_4096.c b/src/Utils/par_MWC_4096.c
index 25c123e..a5dd4cc 100644
--- a/src/Utils/par_MWC_4096.c
+++ b/src/Utils/par_MWC_4096.c
@@ -70,7 +70,7 @@ free_par_MWC_4096( void )
 void
 GLU_set_par_MWC_4096_table( const uint32_t seed[ Latt.Nthreads ] )
 {
-  table = malloc( RNG_TABLE * sizeof( uint32_t* ) ) ;
+  table = malloc( Latt.Nthreads * sizeof( uint32_t* ) ) ;
   mcwc_i = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
   carry  = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
   size_t i , j ;
-- 
2.43.0


From a1ada991cf118503fdcd1e4f2f8858a6cfb29be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:09 +0000
Subject: [PATCH 060/101] fix: the WELL_512 generator could neither be built
 nor save its state

---
 src/Utils/par_rng.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Utils/par_rng.c b/src/Utils/par_rng.c
index 6a66874..0b28899 100644
--- a/src/Utils/par_rng.c
+++ b/src/Utils/par_rng.c
@@ -198,7 +198,7 @@ par_rng_dbl( const uint32_t thread )
 #elif (defined MWC_1038_RNG)
   return par_MWC_1038_dbl( thread ) ;
 #elif (defined WELL_512_RNG)
-  return par_Well_512_dbl( thread ) ;
+  return par_WELL_512_dbl( thread ) ;
 #else
   return par_MWC_4096_dbl( thread ) ;
 #endif
@@ -329,6 +329,8 @@ write_par_rng_state( const char *outfile )
   fprintf( out , "RNG = PAR_XOR_1024\n" ) ;
 #elif (defined MWC_1038_RNG)
   fprintf( out , "RNG = PAR_MWC_1038\n" ) ;
+#elif (defined WELL_512_RNG)
+  fprintf( out , "RNG = PAR_WELL_512\n" ) ;
 #else
   fprintf( out , "RNG = PAR_MWC_4096\n" ) ;
 #endif
@@ -344,6 +346,8 @@ write_par_rng_state( const char *outfile )
   write_par_XOR_1024_table( out ) ;
 #elif (defined MWC_1038_RNG)
   write_par_MWC_1038_table( out ) ;
+#elif (defined WELL_512_RNG)
+  write_par_WELL_512_table( out ) ;
 #else
   write_par_MWC_4096_table( out ) ;
 #endif
-- 
2.43.0


From 611f769f7046217ef711a0a1aed5a2d0192d6242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:23 +0000
Subject: [PATCH 061/101] fix: selecting the GSL generator ran MWC_4096 on a
 table of one entry

---
 src/Headers/GLU_definitions.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Headers/GLU_definitions.h b/src/Headers/GLU_definitions.h
index 9317445..71bc3c1 100755
--- a/src/Headers/GLU_definitions.h
+++ b/src/Headers/GLU_definitions.h
@@ -687,8 +687,9 @@ Defines for the gauge fixing routines ( Landau/{}.c )
  */
 // Default to the MWC_4096 RNG if gsl is specified but no header found
 #if ( defined GSL_RNG ) && ( defined HAVE_GSL )  
-  #include <gsl/gsl_rng.h>
-  #define RNG_TABLE 1
+  // gsl's generators are not wrapped by par_rng, we get the default
+  #define MWC_4096_RNG
+  #define RNG_TABLE 4096
 #elif defined KISS_RNG
   #define RNG_TABLE 5
 #elif defined MWC_1038_RNG
-- 
2.43.0


From 5ac429df48420cde6436f2955cb01088bbb221a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:39 +0000
Subject: [PATCH 062/101] fix: a generator state read from file was not marked
 as initialised and got reseeded; unopenable state files

---
 src/Utils/par_rng.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Utils/par_rng.c b/src/Utils/par_rng.c
index 0b28899..1c25e28 100644
--- a/src/Utils/par_rng.c
+++ b/src/Utils/par_rng.c
@@ -234,6 +234,7 @@ read_par_rng_state( const char *infile )
   
   if( ( hdr = get_header( in ) ) == NULL ) {
     fprintf( stderr , "[PAR_RNG] Unable to read state header\n" ) ;
+    fclose( in ) ;
     return init_new_rng_sequence( ) ;
   }
 
@@ -307,6 +308,9 @@ read_par_rng_state( const char *infile )
 
   fclose( in ) ;
 
+  // from here on these are our tables
+  RNG_inited = GLU_TRUE ;
+
   return GLU_SUCCESS ;
 }
 
@@ -316,6 +320,11 @@ write_par_rng_state( const char *outfile )
 {
   FILE *out = fopen( outfile , "wb" ) ;
 
+  if( out == NULL ) {
+    fprintf( stderr , "[PAR_RNG] State file %s cannot be opened\n" , outfile ) ;
+    return ;
+  }
+
   // write out in a NERSC-like header so I can reuse that code
   fprintf( out , "BEGIN_HEADER\n" ) ;
   // write out number of threads
-- 
2.43.0


From eb0ff9c62d24d258ff2afb99b0a76f5fb9174108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:39 +0000
Subject: [PATCH 063/101] fix: a saved configuration could carry the previous
 trajectory number

---
 src/Update/KPHB.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index 9da9e27..c74d73c 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -237,7 +237,8 @@ hb_update( struct site *lat ,
       // perform a hb-OR step
       update_lattice( lat , inverse_beta , db , HBINFO.Nor ) ;
 
-      #pragma omp master
+      // all threads wait, the trajectory number goes into what we save next
+      #pragma omp single
       {
 	Latt.flow = i + 1 ; 
       }
-- 
2.43.0


From f0070ce6723a264c7282e1fbd8b68abf380b76bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:39 +0000
Subject: [PATCH 064/101] fix: heatbath reported success for updates that could
 not start

---
 src/Wrappers/GLUlib_wrap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index 4867be7..33ff62a 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -197,12 +197,12 @@ heatbath( const char *infile ,
   if( lat == NULL ) return GLU_FAILURE ;
 
   // heatbath updates
-  hb_update( lat , HBINFO , infile , storage , output_details ) ;
+  const int FLAG = hb_update( lat , HBINFO , infile , storage , output_details ) ;
   
   // free the gauge fields
   free_lat( lat ) ;
 
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
 
 // checks unitarity and can write out a configuration
-- 
2.43.0


From a6258507705eaa2a4bc9c89bde4488577fb9d228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:44 +0000
Subject: [PATCH 065/101] fix: double precision BQCD files dereferenced the
 single precision buffer, checksum carried over between files

---
 src/Headers/crc.h | 2 +-
 src/IO/crc.c      | 4 ++++
 src/IO/readers.c  | 4 ++--
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Headers/crc.h b/src/Headers/crc.h
index ec902aa..ffff4b7 100755
--- a/src/Headers/crc.h
+++ b/src/Headers/crc.h
@@ -47,7 +47,7 @@ CKSUM_ADD( void *memptr ,
 
 /**
    @fn void CKSUM_GET( uint32_t *total_crc, uint32_t *total_bytes ) ;
-   @brief BQCD's crc
+   @brief BQCD's crc, also resets the accumulator for the next file
  */
 void 
 CKSUM_GET( uint32_t *total_crc, 
diff --git a/src/IO/crc.c b/src/IO/crc.c
index 3217901..b84079a 100755
--- a/src/IO/crc.c
+++ b/src/IO/crc.c
@@ -251,6 +251,10 @@ CKSUM_GET( INT8 *total_crc , INT8 *total_bytes )
 
   *total_crc = (INT8) crc;
   *total_bytes = the_bytes;
+
+  // the next file starts afresh
+  the_crc = 0 ;
+  the_bytes = 0 ;
   return ;
 }
 
diff --git a/src/IO/readers.c b/src/IO/readers.c
index 5022953..429726b 100755
--- a/src/IO/readers.c
+++ b/src/IO/readers.c
@@ -213,8 +213,8 @@ lattice_reader_suNC( struct site *lat ,
       size_t i ;
       for( i = 0 ; i < LVOLUME ; i++ ) {
 	// BQCD's
-	CKSUM_ADD( ( uin + ( i * ND * LOOP_VAR ) ) , 
-		   sizeof(float) * ND * LOOP_VAR ) ;
+	CKSUM_ADD( ( uind + ( i * ND * LOOP_VAR ) ) , 
+		   sizeof(double) * ND * LOOP_VAR ) ;
       }
       uint32_t nbytes ;
       CKSUM_GET( &CRC_BQCD , &nbytes ) ;
-- 
2.43.0


From b7c5488757e18ff3020b57e2e9c48b8be683ae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:44 +0000
Subject: [PATCH 066/101] fix: slice by slice writer wrote every slice but the
 first outside its buffer

---
 src/IO/writers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IO/writers.c b/src/IO/writers.c
index 48554ef..6d375d8 100755
--- a/src/IO/writers.c
+++ b/src/IO/writers.c
@@ -266,7 +266,7 @@ copy_data( GLU_real *uout ,
     grab_sitedata( site , lat[i] , LOOP_VAR , checktype ) ;
 
     // set this up here
-    const size_t val = (size_t)( LOOP_VAR * ( i * ND ) ) ;
+    const size_t val = (size_t)( LOOP_VAR * ( ( i - START ) * ND ) ) ;
     for( size_t j = 0 ; j < ND*LOOP_VAR ; j++ ) {
 #ifdef OUT_DOUBLE
       uout[ val + j ] = (double)site[ j ] ;
-- 
2.43.0


From afd76e63c2e6e33f8e0772522b689934c9bf13d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:34 +0000
Subject: [PATCH 067/101] fix: a checksum of 0xffffffff was taken for a read
 failure and failed HIREP or CERN reads for success

---
 src/Gfix/Landau.c          |  3 ++-
 src/Headers/read_config.h  |  6 ++++--
 src/Headers/readers.h      | 16 ++++++++++------
 src/IO/read_config.c       | 15 +++++++--------
 src/IO/readers.c           | 34 ++++++++++++++++++----------------
 src/Wrappers/GLUlib_wrap.c |  5 +++--
 6 files changed, 44 insertions(+), 35 deletions(-)

diff --git a/src/Gfix/Landau.c b/src/Gfix/Landau.c
index 2cde811..0789e63 100755
--- a/src/Gfix/Landau.c
+++ b/src/Gfix/Landau.c
@@ -259,6 +259,7 @@ grab_file( struct site *lat ,
     return GLU_SUCCESS ;
   }
   struct head_data HEAD_DATA ;
+  uint32_t chksum ;
   FILE *config = fopen( infile , "rb" ) ;
   if( config == NULL ) {
     fprintf( stderr , "[IO] cannot open %s again\n" , infile ) ;
@@ -266,7 +267,7 @@ grab_file( struct site *lat ,
   }
   // assume the chksum is correct
   if( read_header( config , &HEAD_DATA , GLU_FALSE ) == GLU_FAILURE ||
-      get_config_SUNC( config , lat , HEAD_DATA , infile ) == GLU_FAILURE ) {
+      get_config_SUNC( config , lat , HEAD_DATA , infile , &chksum ) == GLU_FAILURE ) {
     printf( "[IO] binary file read error \n" ) ;
     fclose( config ) ;
     return GLU_FAILURE ;
diff --git a/src/Headers/read_config.h b/src/Headers/read_config.h
index 4c25046..4879c1a 100755
--- a/src/Headers/read_config.h
+++ b/src/Headers/read_config.h
@@ -39,18 +39,20 @@ checks( struct site *__restrict lat ,
 	struct head_data HEAD_DATA ) ;
 
 /**
-   @fn int get_config_SUNC( FILE *__restrict CONFIG , struct site *__restrict lat , const struct head_data HEAD_DATA , const char *config_in )
+   @fn int get_config_SUNC( FILE *__restrict CONFIG , struct site *__restrict lat , const struct head_data HEAD_DATA , const char *config_in , uint32_t *chksum )
    @brief wrapper for reading a configuration
    @param CONFIG :: our configuration file
    @param lat :: the lattice gauge field being read
    @param HEAD_DATA :: uses the header data
    @param config_in :: file
+   @param chksum :: the checksum of the data read
    @returns #GLU_SUCCESS or #GLU_FAILURE
  **/
 int
 get_config_SUNC( FILE *__restrict CONFIG , 
 		 struct site *__restrict lat ,
 		 const struct head_data HEAD_DATA ,
-		 const char *config_in ) ;
+		 const char *config_in ,
+		 uint32_t *chksum ) ;
 
 #endif
diff --git a/src/Headers/readers.h b/src/Headers/readers.h
index 40a53e3..90ab54d 100755
--- a/src/Headers/readers.h
+++ b/src/Headers/readers.h
@@ -24,31 +24,35 @@
 #define GLU_READERS_H
 
 /**
-   @fn uint32_t lattice_reader_suNC( struct site *__restrict lat , FILE *__restrict in , const struct head_data HEAD_DATA )
+   @fn int lattice_reader_suNC( struct site *__restrict lat , FILE *__restrict in , const struct head_data HEAD_DATA , uint32_t *chksum )
    @brief reads in a NERSC configuration ...
    @param lat :: lattice gauge field
    @param in :: NERSC configuration being read
    @param HEAD_DATA :: the header data
+   @param chksum :: the checksum of the data read
 
    @returns #GLU_SUCCESS or #GLU_FAILURE
  **/
-uint32_t
+int
 lattice_reader_suNC( struct site *__restrict lat , 
 		     FILE *__restrict in , 
-		     const struct head_data HEAD_DATA ) ;
+		     const struct head_data HEAD_DATA ,
+		     uint32_t *chksum ) ;
 
 /**
-   @fn uint32_t lattice_reader_suNC_cheaper( struct site *__restrict lat , FILE *__restrict in , const struct head_data HEAD_DATA )
+   @fn int lattice_reader_suNC_cheaper( struct site *__restrict lat , FILE *__restrict in , const struct head_data HEAD_DATA , uint32_t *chksum )
    @brief reads in a NERSC configuration, cheaper and a little slower than the other needed for the Q.
    @param lat :: lattice gauge field
    @param in :: NERSC configuration being read
    @param HEAD_DATA :: the header data
+   @param chksum :: the checksum of the data read
 
    @returns #GLU_SUCCESS or #GLU_FAILURE
  **/
-uint32_t
+int
 lattice_reader_suNC_cheaper( struct site *__restrict lat , 
 			     FILE *__restrict in , 
-			     const struct head_data HEAD_DATA ) ;
+			     const struct head_data HEAD_DATA ,
+			     uint32_t *chksum ) ;
 
 #endif
diff --git a/src/IO/read_config.c b/src/IO/read_config.c
index 32a1df3..5c9d94f 100755
--- a/src/IO/read_config.c
+++ b/src/IO/read_config.c
@@ -137,9 +137,10 @@ int
 get_config_SUNC( FILE *__restrict CONFIG , 
 		 struct site *__restrict lat ,
 		 const struct head_data HEAD_DATA ,
-		 const char *config_in )
+		 const char *config_in ,
+		 uint32_t *chksum )
 {
-  uint32_t chksum ;
+  *chksum = 0 ;
   switch( Latt.head ) {
   case LIME_HEADER : // is the same but doesn't care about the checksums
   case ILDG_BQCD_HEADER : // basically all the same NERSC NCxNC
@@ -153,17 +154,15 @@ get_config_SUNC( FILE *__restrict CONFIG ,
 	HEAD_DATA.config_type == OUTPUT_NCxNC ) {
       const int SAFETY = have_memory_readers_writers( HEAD_DATA.config_type ) ;
       if( SAFETY != FAST ) {
-	return lattice_reader_suNC_cheaper( lat , CONFIG , HEAD_DATA ) ;
+	return lattice_reader_suNC_cheaper( lat , CONFIG , HEAD_DATA , chksum ) ;
       } else {
-	return lattice_reader_suNC( lat , CONFIG , HEAD_DATA ) ;
+	return lattice_reader_suNC( lat , CONFIG , HEAD_DATA , chksum ) ;
       }
     } break ;
   case HIREP_HEADER : // HIREP uses a weird geometry compared to everyone else
-    read_gauge_field( lat , CONFIG , &chksum ) ;
-    return chksum ;
+    return read_gauge_field( lat , CONFIG , chksum ) ;
   case CERN_HEADER :
-    read_CLS_field( lat , config_in , &chksum ) ;
-    return chksum ;
+    return read_CLS_field( lat , config_in , chksum ) ;
   case RANDOM_CONFIG :
     random_suNC( lat ) ;
     return GLU_SUCCESS ;
diff --git a/src/IO/readers.c b/src/IO/readers.c
index 429726b..994eacf 100755
--- a/src/IO/readers.c
+++ b/src/IO/readers.c
@@ -160,10 +160,11 @@ rebuild_lat( GLU_complex *__restrict link ,
 }
 
 //////////// MEMSPENSIVE VERSION ///////////////
-uint32_t
+int
 lattice_reader_suNC( struct site *lat , 
 		     FILE *__restrict in , 
-		     const struct head_data HEAD_DATA )
+		     const struct head_data HEAD_DATA ,
+		     uint32_t *chksum )
 {
   // this is checked previously, nice to be certain though
   if( in == NULL ) {
@@ -336,22 +337,23 @@ lattice_reader_suNC( struct site *lat ,
 
   // if we are reading a MILC file we output the sum29 checksum
   switch( Latt.head ) {
-  case NERSC_HEADER : return k ;
-  case MILC_HEADER : return sum29 ;
+  case NERSC_HEADER : *chksum = k ; return GLU_SUCCESS ;
+  case MILC_HEADER : *chksum = sum29 ; return GLU_SUCCESS ;
   case ILDG_SCIDAC_HEADER :
-  case SCIDAC_HEADER : return CRCsum29 ;
-  case ILDG_BQCD_HEADER : return CRC_BQCD ;
-  case LIME_HEADER : return GLU_SUCCESS ;
-  case JLQCD_HEADER : return GLU_SUCCESS ;
+  case SCIDAC_HEADER : *chksum = CRCsum29 ; return GLU_SUCCESS ;
+  case ILDG_BQCD_HEADER : *chksum = CRC_BQCD ; return GLU_SUCCESS ;
+  case LIME_HEADER : 
+  case JLQCD_HEADER : *chksum = 0 ; return GLU_SUCCESS ;
   default : return GLU_FAILURE ; // should print an error here
   }
 }
 
 // MEMCHEAP READER
-uint32_t
+int
 lattice_reader_suNC_cheaper( struct site *lat , 
 			     FILE *__restrict in , 
-			     const struct head_data HEAD_DATA )
+			     const struct head_data HEAD_DATA ,
+			     uint32_t *chksum )
 {
   // this is checked previously, nice to be certain though
   if( in == NULL ) {
@@ -479,13 +481,13 @@ lattice_reader_suNC_cheaper( struct site *lat ,
 
   // if we are reading a MILC file we output the sum29 checksum
   switch( Latt.head ) {
-  case NERSC_HEADER : return k ;
-  case MILC_HEADER : return sum29 ;
+  case NERSC_HEADER : *chksum = k ; return GLU_SUCCESS ;
+  case MILC_HEADER : *chksum = sum29 ; return GLU_SUCCESS ;
   case ILDG_SCIDAC_HEADER :
-  case SCIDAC_HEADER : return CRCsum29 ;
-  case ILDG_BQCD_HEADER : return CRC_BQCD ;
-  case LIME_HEADER : return GLU_SUCCESS ;
-  case JLQCD_HEADER : return GLU_SUCCESS ;
+  case SCIDAC_HEADER : *chksum = CRCsum29 ; return GLU_SUCCESS ;
+  case ILDG_BQCD_HEADER : *chksum = CRC_BQCD ; return GLU_SUCCESS ;
+  case LIME_HEADER : 
+  case JLQCD_HEADER : *chksum = 0 ; return GLU_SUCCESS ;
   default : return GLU_FAILURE ; // should print an error here
   }
 }
diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index 33ff62a..717c625 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -114,7 +114,8 @@ read_file( struct head_data *HEAD_DATA ,
 
   start_timer() ;
   fprintf( stdout , "[IO] Read gauge field\n" ) ; 
-  const int check = get_config_SUNC( infile , lat , tmp , config_in ) ;
+  uint32_t chksum = 0 ;
+  const int check = get_config_SUNC( infile , lat , tmp , config_in , &chksum ) ;
   print_time() ;
   // read in the configuration ...  
   if( check == GLU_FAILURE ) {
@@ -132,7 +133,7 @@ read_file( struct head_data *HEAD_DATA ,
   }
 
   // have a look at some available checks
-  if( checks( lat , check , tmp ) == GLU_FAILURE ) { 
+  if( checks( lat , chksum , tmp ) == GLU_FAILURE ) { 
     fclose( infile ) ;
     free( lat ) ;
     return NULL ; 
-- 
2.43.0


From 3bb9d88630cd374991e781ca40e28d4b28baf47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:11 +0000
Subject: [PATCH 068/101] fix: unusable lattice extents in a header,
 uninitialised header data and leaked fields on read failures

---
 src/Wrappers/GLUlib_wrap.c | 54 +++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index 717c625..9f9bdd9 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -22,6 +22,9 @@
  */
 #include "Mainfile.h"
 
+#include <limits.h>
+#include <stdint.h>
+
 #include "CUT_wrap.h"       // wrap the cutting operations
 #include "GLU_memcheck.h"   // basic memory checking
 #include "GF_wrap.h"        // wrap the gauge fixing
@@ -55,6 +58,33 @@ attach_GLU( void )
   return ;
 }
 
+// close a file that may not have been opened
+static void
+close_file( FILE *file )
+{
+  if( file != NULL ) fclose( file ) ;
+  return ;
+}
+
+// are the lattice dimensions something that can be indexed? Coordinates are ints
+static GLU_bool
+sensible_dims( void )
+{
+  // whether it fits into memory is looked at later
+  const size_t max_volume = SIZE_MAX >> 16 ;
+  size_t volume = 1 , mu ;
+  for( mu = 0 ; mu < ND ; mu++ ) {
+    if( Latt.dims[mu] == 0 || Latt.dims[mu] > INT_MAX ||
+	Latt.dims[mu] > max_volume / volume ) {
+      fprintf( stderr , "[IO] cannot use lattice dimension %zu in direction %zu"
+	       " ... Leaving\n" , Latt.dims[mu] , mu ) ;
+      return GLU_FALSE ;
+    }
+    volume *= Latt.dims[mu] ;
+  }
+  return GLU_TRUE ;
+}
+
 // read a file, has to be out of order because it is called by the others
 struct site*
 read_file( struct head_data *HEAD_DATA , 
@@ -86,18 +116,25 @@ read_file( struct head_data *HEAD_DATA ,
  
   // initialise the configuration number to zero
   struct head_data tmp ;
+  memset( &tmp , 0 , sizeof( tmp ) ) ;
   if( read_header( infile , &tmp , GLU_TRUE ) == GLU_FAILURE ) {
     fprintf( stderr , "[IO] Header reading failure\n" ) ;
-    fclose( infile ) ;
+    close_file( infile ) ;
     return NULL ;
   } 
 
+  // the geometry comes from the header or the input file, check we can use it
+  if( sensible_dims( ) == GLU_FALSE ) {
+    close_file( infile ) ;
+    return NULL ;
+  }
+
   // initialise geometry so that we can use LVOLUME and stuff
   init_latt( ) ;
 
   // check for having enough memory for the gauge field
   if( have_memory_gauge( ) == GLU_FAILURE ) {
-    fclose( infile ) ;
+    close_file( infile ) ;
     return NULL ;
   }
 
@@ -105,6 +142,7 @@ read_file( struct head_data *HEAD_DATA ,
   struct site *lat = NULL ;
   if( ( lat = allocate_lat( ) ) == NULL ) {
     fprintf( stderr , "[IO] Gauge field allocation failure\n" ) ;
+    close_file( infile ) ;
     return NULL ;
   }
 
@@ -120,8 +158,8 @@ read_file( struct head_data *HEAD_DATA ,
   // read in the configuration ...  
   if( check == GLU_FAILURE ) {
     fprintf( stderr , "[IO] File read error ... Leaving \n" ) ;
-    fclose( infile ) ;
-    free( lat ) ;
+    close_file( infile ) ;
+    free_lat( lat ) ;
     return NULL ;
   }
 
@@ -134,8 +172,8 @@ read_file( struct head_data *HEAD_DATA ,
 
   // have a look at some available checks
   if( checks( lat , chksum , tmp ) == GLU_FAILURE ) { 
-    fclose( infile ) ;
-    free( lat ) ;
+    close_file( infile ) ;
+    free_lat( lat ) ;
     return NULL ; 
   }
 
@@ -143,9 +181,7 @@ read_file( struct head_data *HEAD_DATA ,
   *HEAD_DATA = tmp ;
 
   // free it if it was opened
-  if( infile != NULL ) {
-    fclose( infile ) ;
-  }
+  close_file( infile ) ;
 
   // and finally set the header data into a constant struct
   return lat ;
-- 
2.43.0


From e8d6eb766882e390750a5f9d002136f9ea4be315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:33 +0000
Subject: [PATCH 069/101] fix: SU(2) HIREP files were written in a different
 basis than they are read in

---
 src/IO/HIREP.c | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/IO/HIREP.c b/src/IO/HIREP.c
index 0b58f63..1508f0f 100755
--- a/src/IO/HIREP.c
+++ b/src/IO/HIREP.c
@@ -111,6 +111,27 @@ read_gauge_field( struct site *__restrict lat ,
   return GLU_SUCCESS ; 
 }
 
+// HiRep stores SU(2) links as the quaternion the reader expects
+static size_t
+pack_link( double *uoutd ,
+	   const GLU_complex *U )
+{
+#if NC==2
+  uoutd[0] =  ( double )creal( U[0] ) ;
+  uoutd[1] =  ( double )cimag( U[1] ) ;
+  uoutd[2] = -( double )creal( U[1] ) ;
+  uoutd[3] =  ( double )cimag( U[0] ) ;
+  return 2*NC ;
+#else
+  size_t j ;
+  for( j = 0 ; j < NCNC ; j++ ) {
+    uoutd[ 2*j + 0 ] = ( double )creal( U[j] ) ;
+    uoutd[ 2*j + 1 ] = ( double )cimag( U[j] ) ;
+  }
+  return 2*NCNC ;
+#endif
+}
+
 // writes my gauge field out in the HiRep format 
 void
 write_gauge_field( const struct site *__restrict lat ,
@@ -162,20 +183,12 @@ write_gauge_field( const struct site *__restrict lat ,
   for( i = 0 ; i < LVOLUME ; i++ ) {
     // loop HiRep indices
     const size_t idx = translate_to_GLU_geom( i ) ;
-    size_t mu , j , a = 0 ;
+    size_t mu , a = 0 ;
     // t first
-    for( j = 0 ; j < mat_stride ; j++ ) {
-      uoutd[ a + 0 ] = ( double )creal( lat[idx].O[ ND - 1 ][ j ] ) ; 
-      uoutd[ a + 1 ] = ( double )cimag( lat[idx].O[ ND - 1 ][ j ] ) ; 
-      a += 2 ;
-    }
+    a += pack_link( uoutd + a , lat[idx].O[ ND - 1 ] ) ;
     // then xyz
     for( mu = 0 ;  mu < ND - 1 ; mu++ ) {
-      for( j = 0 ; j < mat_stride ; j++ ) {
-	uoutd[ a + 0 ] = ( double )creal( lat[idx].O[mu][j] ) ; 
-	uoutd[ a + 1 ] = ( double )cimag( lat[idx].O[mu][j] ) ; 
-	a += 2 ;
-      }
+      a += pack_link( uoutd + a , lat[idx].O[ mu ] ) ;
     } 
     #ifdef OUT_BIG
     if( !WORDS_BIGENDIAN ) {
-- 
2.43.0


From 5928546c59c7348cd6488f2eb1dd0743e0a65219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:57 +0000
Subject: [PATCH 070/101] fix: CERN fields overflowed the stack for ordinary
 volumes, ended the program on a short file and silently lost links for odd
 extents

---
 src/Headers/CERN.h |  5 ++--
 src/IO/CERN.c      | 59 ++++++++++++++++++++++++++++++++++------------
 src/IO/writers.c   |  4 ++--
 3 files changed, 49 insertions(+), 19 deletions(-)

diff --git a/src/Headers/CERN.h b/src/Headers/CERN.h
index 8454322..fac4c19 100644
--- a/src/Headers/CERN.h
+++ b/src/Headers/CERN.h
@@ -37,12 +37,13 @@ read_CLS_field( struct site *lat ,
 		uint32_t *chksum ) ;
 
 /**
-   @fn void write_CLS_field( const struct site *lat ,  FILE *outfile )
+   @fn int write_CLS_field( const struct site *lat ,  FILE *outfile )
    @param lat :: lattice gauge field
    @param outfile :: string we are writing out to
    @brief write a CERN gauge field
+   @return #GLU_SUCCESS or #GLU_FAILURE
  */
-void
+int
 write_CLS_field( const struct site *lat ,
 		 FILE *outfile ) ;
 
diff --git a/src/IO/CERN.c b/src/IO/CERN.c
index 79a46bf..bc78c59 100644
--- a/src/IO/CERN.c
+++ b/src/IO/CERN.c
@@ -35,33 +35,58 @@
 #include "plaqs_links.h"   // compute the plaquette
 #include "GLU_timer.h"
 
+// only the links around the odd sites are stored, which are all of them
+// just if every extent is even
+static GLU_bool
+even_extents( void )
+{
+  size_t mu ;
+  for( mu = 0 ; mu < ND ; mu++ ) {
+    if( Latt.dims[mu] % 2 != 0 ) {
+      fprintf( stderr , "[IO] CERN format needs even extents\n" ) ;
+      return GLU_FALSE ;
+    }
+  }
+  return GLU_TRUE ;
+}
+
 // read a CERN gauge field
 int
 read_CLS_field( struct site *__restrict lat , 
 		const char *config_in ,
 		uint32_t *chksum )
 {
-  if( ND != 4 ) return GLU_FAILURE ;
+  if( ND != 4 || even_extents( ) == GLU_FALSE ) return GLU_FAILURE ;
 
   // these guys also seem to save only in double, making things easy
   const size_t stride = 16*NCNC ;
   uint32_t k = 0 ;
+  int fails = 0 ;
   size_t t ;
-  #pragma omp parallel for private(t)
+  #pragma omp parallel for private(t) reduction(+:fails)
   for( t = 0 ; t < Latt.dims[ND-1] ; t++ ) {
 
     // test idea
     FILE *file = fopen( config_in , "rb" ) ;
 
-    double uin[ LCU*8*NCNC ] GLUalign ;
+    // too large for the stack
+    double *uin = malloc( LCU*8*NCNC * sizeof( double ) ) ;
     const size_t offset = 4*sizeof(int)+sizeof(double) +( LCU*t )*8*NCNC*sizeof(double) ;
-    fseek( file , offset , SEEK_CUR) ;
-    if( fread( uin , sizeof( double ) , 2*LCU*NCNC*ND , file ) != 2*LCU*NCNC*ND ) {
-      fprintf( stderr , "File read error .. Leaving \n " ) ;
-      exit(1) ;
+    if( file == NULL || uin == NULL ||
+	fseek( file , offset , SEEK_CUR) != 0 ||
+	fread( uin , sizeof( double ) , 2*LCU*NCNC*ND , file ) != 2*LCU*NCNC*ND ) {
+      fails++ ;
+      free( uin ) ;
+      if( file != NULL ) fclose( file ) ;
+      continue ;
     }
     
-    double *uind = (double*)(uin) ;
+    // the file is little endian
+    if( WORDS_BIGENDIAN ) {
+      bswap_64( LCU*8*NCNC , uin ) ;
+    }
+
+    double *uind = uin ;
     size_t x , y , z ;
     for( x = 0 ; x < Latt.dims[0] ; x++ ) {
       for( y = 0 ; y < Latt.dims[1] ; y++ ) {
@@ -115,26 +140,30 @@ read_CLS_field( struct site *__restrict lat ,
 	}
       }
     }
+    free( uin ) ;
     fclose( file ) ;
   }
 
-  if( WORDS_BIGENDIAN ) {
-    bswap_32( LVOLUME*NCNC*2 , lat ) ;
+  if( fails != 0 ) {
+    fprintf( stderr , "[IO] CERN file read error .. Leaving \n " ) ;
+    return GLU_FAILURE ;
   }
-  
+
   *chksum = k ;
   return GLU_SUCCESS ; 
 }
 
 // writes my gauge field out in the CERN format 
-void
+int
 write_CLS_field( const struct site *__restrict lat ,
 		 FILE *__restrict outfile )
 {
   if( ND != 4 ) {
     fprintf( stderr , "No known CERN format for Nd != 4\n" ) ;
-    return ;
+    return GLU_FAILURE ;
   }
+  if( even_extents( ) == GLU_FALSE ) return GLU_FAILURE ;
+
   
   const size_t stride = 16*NCNC ; 
   
@@ -158,7 +187,7 @@ write_CLS_field( const struct site *__restrict lat ,
   // create a copy
   double *uout = NULL ;
   if( GLU_malloc( (void**)&uout , ALIGNMENT, LVOLUME*ND*NCNC*2*sizeof(double) ) != 0 ) {
-    return ;
+    return GLU_FAILURE ;
   }
 
   // the idea is to do all of the translation stuff in parallel and then dump it to a file
@@ -238,5 +267,5 @@ write_CLS_field( const struct site *__restrict lat ,
   
   free( uout ) ;
   
-  return ;
+  return GLU_SUCCESS ;
 }
diff --git a/src/IO/writers.c b/src/IO/writers.c
index 6d375d8..c819908 100755
--- a/src/IO/writers.c
+++ b/src/IO/writers.c
@@ -339,9 +339,9 @@ write_lat( struct site *lat ,
   if( type == OUTPUT_CERN ) {
     printf( "[IO] Writing out in CERN format\n" ) ;
     start_timer() ;
-    write_CLS_field( lat , out ) ;
+    const int flag = write_CLS_field( lat , out ) ;
     print_time() ;
-    return GLU_SUCCESS ;
+    return flag ;
   }
   // HIREP stuff is all handled in HIREP.c
   if( type == OUTPUT_HIREP ) {
-- 
2.43.0


From 30852c013fea0d236b8a42bd4f0d8de7f3ebb154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:14 +0000
Subject: [PATCH 071/101] fix: unwritable or failing output was not noticed or
 crashed, NERSC_SMALL for NC > 3 ended the program, unreadable files were
 overwritten

---
 src/IO/readers.c           |  6 ++++--
 src/IO/writers.c           | 10 ++++++++--
 src/Wrappers/GLUlib_wrap.c | 18 +++++++++++++++---
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/IO/readers.c b/src/IO/readers.c
index 994eacf..6f50773 100755
--- a/src/IO/readers.c
+++ b/src/IO/readers.c
@@ -85,6 +85,10 @@ construct_loop_variables( size_t *LATT_LOOP ,
   // dump it all in memory...
   switch( type ) {
   case OUTPUT_SMALL :
+    #if NC > 3
+    fprintf( stderr , "[IO] NERSC_SMALL is only available for NC < 4\n" ) ;
+    return GLU_FAILURE ;
+    #endif
     *LATT_LOOP = ND * LOOP_SMALL * Latt.Volume ;
     *LOOP_VAR = LOOP_SMALL ;
     return GLU_SUCCESS ;
@@ -144,8 +148,6 @@ rebuild_lat( GLU_complex *__restrict link ,
   case OUTPUT_SMALL :
     #if NC<4
     exhume_O( link , utemp ) ;
-    #else
-    exit(1) ;
     #endif
     return ;
   case OUTPUT_GAUGE :
diff --git a/src/IO/writers.c b/src/IO/writers.c
index c819908..038973b 100755
--- a/src/IO/writers.c
+++ b/src/IO/writers.c
@@ -125,8 +125,6 @@ grab_sitedata( GLU_real *__restrict chunk ,
       for( j = 0 ; j < LOOP_VAR ; j++ ) {
 	chunk[ val++ ] = tmp[ j ] ;
       }
-      #else
-      exit(1) ;
       #endif
       break ;
     default :
@@ -352,6 +350,14 @@ write_lat( struct site *lat ,
     return GLU_SUCCESS ;
   }
 
+#if NC > 3
+  // there is no short form of these
+  if( type == OUTPUT_SMALL ) {
+    fprintf( stderr , "[IO] NERSC_SMALL is only available for NC < 4\n" ) ;
+    return GLU_FAILURE ;
+  }
+#endif
+
   // loop variables
   size_t LOOP_VAR , LATT_LOOP ;
   const GLU_output checktype = \
diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index 9f9bdd9..03edc93 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -212,10 +212,22 @@ write_configuration( struct site *lat ,
 	     "file %s .. I will not do this!\n" , outfile ) ;
     return GLU_FAILURE ;
   } else {
-    FILE *out_config = fopen( outfile , "w" ) ;
-    write_lat( lat , out_config , storage , output_details ) ;
+    // something may be there that we are not allowed to read
+    FILE *out_config = fopen( outfile , "wx" ) ;
+    if( out_config == NULL ) {
+      fprintf( stderr , "\n[IO] cannot open %s for writing\n" , outfile ) ;
+      return GLU_FAILURE ;
+    }
+    int flag = write_lat( lat , out_config , storage , output_details ) ;
+    // some of it may only be written when the file is closed
+    if( ferror( out_config ) != 0 ) flag = GLU_FAILURE ;
+    if( fclose( out_config ) != 0 ) flag = GLU_FAILURE ;
+    if( flag != GLU_SUCCESS ) {
+      fprintf( stderr , "\n[IO] failed to write the configuration to %s\n" , 
+	       outfile ) ;
+      return GLU_FAILURE ;
+    }
     fprintf( stdout , "[IO] Configuration written to %s \n", outfile ) ; 
-    fclose( out_config ) ;
   }
   return GLU_SUCCESS ;
 }
-- 
2.43.0


From c76422efc099113b3ce01e4d3b25e95408f72466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:54 +0000
Subject: [PATCH 072/101] fix: malformed NERSC headers overflowed buffers or
 dereferenced NULL, sequence number 0 could not be read back

---
 src/Headers/chklat_stuff.h |  9 +++++
 src/IO/chklat_stuff.c      | 70 ++++++++++++++++++++++++--------------
 src/IO/read_headers.c      | 36 ++++++++++----------
 3 files changed, 72 insertions(+), 43 deletions(-)

diff --git a/src/Headers/chklat_stuff.h b/src/Headers/chklat_stuff.h
index 0934ce9..309ea4a 100755
--- a/src/Headers/chklat_stuff.h
+++ b/src/Headers/chklat_stuff.h
@@ -34,6 +34,15 @@
 struct QCDheader * 
 get_header( FILE *__restrict in ) ;
 
+/**
+   @fn void free_header( struct QCDheader *hdr )
+   @brief frees the tokens, the values and the header itself
+
+   @param hdr :: the NERSC header that #get_header allocated
+ **/
+void
+free_header( struct QCDheader *hdr ) ;
+
 /**
    @fn int get_string( char *s , struct QCDheader *hdr , char **q )
    @brief Gets a string from the header 
diff --git a/src/IO/chklat_stuff.c b/src/IO/chklat_stuff.c
index 5305d68..f471884 100755
--- a/src/IO/chklat_stuff.c
+++ b/src/IO/chklat_stuff.c
@@ -57,8 +57,7 @@ get_float( char *s ,
   if( p == NULL ) {
     return ( GLU_FAILURE ) ;
   }
-  sscanf( p , "%f" , q ) ;
-  return GLU_SUCCESS ;
+  return ( sscanf( p , "%f" , q ) == 1 ) ? GLU_SUCCESS : GLU_FAILURE ;
 }
 
 // get_int: return value as an int  
@@ -72,8 +71,7 @@ get_int( char *s ,
   if( p == NULL ) {
     return ( GLU_FAILURE ) ;
   }
-  sscanf( p , "%d" , q ) ;
-  return GLU_SUCCESS ;
+  return ( sscanf( p , "%d" , q ) == 1 ) ? GLU_SUCCESS : GLU_FAILURE ;
 }
 
 // get a long unsigned int
@@ -87,8 +85,22 @@ get_size_t( char *s ,
   if( p == NULL ) {
     return ( GLU_FAILURE ) ;
   }
-  sscanf( p , "%zu" , q ) ;
-  return GLU_SUCCESS ;
+  return ( sscanf( p , "%zu" , q ) == 1 ) ? GLU_SUCCESS : GLU_FAILURE ;
+}
+
+// free_header: free the tokens and values and everything
+void
+free_header( struct QCDheader *hdr )
+{
+  int i ;
+  for( i = 0 ; i < hdr -> ntoken ; i++ ) {
+    free( hdr -> token[ i ] ) ;
+    free( hdr -> value[ i ] ) ;
+  }
+  free( hdr -> token ) ;
+  free( hdr -> value ) ;
+  free( hdr ) ;
+  return ;
 }
 
 // get_header: read from stream, parsing tokens 
@@ -96,7 +108,7 @@ struct QCDheader *
 get_header( FILE *__restrict in )
 {
   char line[ MAX_LINE_LENGTH ] ;
-  size_t  n , len ;
+  size_t len ;
   struct QCDheader *hdr ;
   char **tokens , **values ;
   char *p , *q ;
@@ -117,45 +129,53 @@ get_header( FILE *__restrict in )
   hdr = ( struct QCDheader * ) malloc( sizeof ( struct QCDheader ) ) ;
   hdr -> token = tokens ;
   hdr -> value = values ;
+  hdr -> ntoken = 0 ;
 
   // Begin loop on tokens 
-  n = 0 ;
   while (1) {
 
     if( fgets( line , MAX_LINE_LENGTH , in ) == NULL ) {
       fprintf( stderr , "Header reading failed ... Leaving \n" ) ;
-      free( hdr -> token ) ;
-      free( hdr -> value ) ;
-      free( hdr ) ;
+      free_header( hdr ) ;
       return NULL ;
     }
     if( strcmp ( line , "END_HEADER\n" ) == 0 ) {
       break;
     }
 
-    // Tokens are terminated by a space 
-    q = index( line,' ' ) ;
+    // lines that are too long are cut, nothing we look for is
+    if( index( line , '\n' ) == NULL ) {
+      int c ;
+      while( ( c = fgetc( in ) ) != EOF && c != '\n' ) { }
+    } else {
+      *index( line , '\n' ) = '\0' ;
+    }
+
+    // Tokens are terminated by a space and values start after an equals sign
+    q = index( line , ' ' ) ;
+    p = ( q == NULL ) ? NULL : index( q + 1 , '=' ) ;
+    if( p == NULL || hdr -> ntoken == MAX_TOKENS ) {
+      fprintf( stderr , "[IO] Header line \"%s\" not understood, or too many of"
+	       " them ... Leaving\n" , line ) ;
+      free_header( hdr ) ;
+      return NULL ;
+    }
 
     // Overwrite space with a terminating null 
     *q = '\0';
     len = q - line ;
+    q = p + 1 ;
 
     // allocate space and copy the token in to it 
     p = malloc( len+1 ) ;
-    (*hdr).token[n] = p ;
     strcpy( p , line ) ;
+    (*hdr).token[ (*hdr).ntoken ] = p ;
 
-    q = index(++q,'=') ;
-    q++ ;
-
-    len = strlen( q ) ;
-    q[len-1] = 0;
-    p = malloc( len ) ;
-    (*hdr).value[n] = p ;
+    p = malloc( strlen( q ) + 1 ) ;
     strcpy( p , q ) ;
-    n++ ;
+    (*hdr).value[ (*hdr).ntoken ] = p ;
+    (*hdr).ntoken++ ;
   }
-  (*hdr).ntoken = n ;
   return (hdr) ;
 }
 
@@ -170,10 +190,10 @@ get_uint32_t( char *s ,
   if( p == NULL ) { return GLU_FAILURE ; }
 
 #ifdef INTS_ARE_32BIT
-  sscanf( p , "%x" , q ) ;
+  if( sscanf( p , "%x" , q ) != 1 ) { return GLU_FAILURE ; }
 #else
   uint32_t j ;
-  sscanf( p , "%x" , &j ) ;
+  if( sscanf( p , "%x" , &j ) != 1 ) { return GLU_FAILURE ; }
   *q = (uint32_t) j ;
 #endif
   return GLU_SUCCESS;
diff --git a/src/IO/read_headers.c b/src/IO/read_headers.c
index 3105066..1c9958a 100755
--- a/src/IO/read_headers.c
+++ b/src/IO/read_headers.c
@@ -226,20 +226,12 @@ get_header_data_MILC( FILE *in ,
 
 // reads the NERSC header and sets up our data ...
 static int 
-get_header_data_NERSC( FILE *CONFIG ,
+set_header_data_NERSC( struct QCDheader *hdr ,
 		       struct head_data *HEAD_DATA ,
 		       const GLU_bool VERB )
 {
-  struct QCDheader *get_header( FILE *__restrict in ) , * hdr ; 
   char *str ; 
 
-  hdr = get_header( CONFIG ) ; 
-
-  // we have stderr reports hers so no need to repeat them
-  if( hdr == NULL ) {
-    return GLU_FAILURE ;
-  }
- 
   // Look for basic info, reporting if avalailable
   get_string( "ENSEMBLE_LABEL" , hdr , &str ) ; 
   if( str == NULL ) { str = "(not specified)" ; }
@@ -248,7 +240,7 @@ get_header_data_NERSC( FILE *CONFIG ,
   if( str == NULL ) { str = "(not specified)" ; }
 
   size_t i = get_size_t( "SEQUENCE_NUMBER" , hdr , &Latt.flow ) ; 
-  if( i != 0 || Latt.flow == 0 ) {
+  if( i != 0 ) {
     fprintf( stderr , "[IO] Unknown sequence number.... \n" ) ; 
     return GLU_FAILURE ;
   }
@@ -349,17 +341,25 @@ get_header_data_NERSC( FILE *CONFIG ,
   }
   HEAD_DATA -> trace = (double)tr ;
 
-  for( i = 0 ; i < (size_t)(*hdr).ntoken ; i++ ) {
-    free( hdr -> token[ i ] ) ;
-    free( hdr -> value[ i ] ) ;
-  }
-  free( hdr -> value ) ;
-  free( hdr -> token ) ;
-  free( hdr ) ;
-
   return GLU_SUCCESS ;
 }
 
+static int 
+get_header_data_NERSC( FILE *CONFIG ,
+		       struct head_data *HEAD_DATA ,
+		       const GLU_bool VERB )
+{
+  struct QCDheader *hdr = get_header( CONFIG ) ; 
+
+  // we have stderr reports hers so no need to repeat them
+  if( hdr == NULL ) {
+    return GLU_FAILURE ;
+  }
+  const int flag = set_header_data_NERSC( hdr , HEAD_DATA , VERB ) ;
+  free_header( hdr ) ;
+  return flag ;
+}
+
 // switch for reading the header file ...
 int
 read_header( FILE *infile ,
-- 
2.43.0


From ff38948c5ec4bb87d657eb502f06ef307b35af07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:19 +0000
Subject: [PATCH 073/101] fix: malformed LIME records overflowed buffers, were
 accepted for other colours or extents; NaN compared equal to any checksum; NC
 != 3 ILDG files named the wrong field

---
 src/IO/Scidac.c      | 64 ++++++++++++++++++++++++++++++++++----------
 src/IO/XML_info.c    | 11 +++++---
 src/IO/read_config.c |  9 ++++---
 src/IO/readers.c     | 20 +++++++-------
 src/IO/writers.c     |  4 +--
 5 files changed, 74 insertions(+), 34 deletions(-)

diff --git a/src/IO/Scidac.c b/src/IO/Scidac.c
index 1f7852e..68ae64c 100755
--- a/src/IO/Scidac.c
+++ b/src/IO/Scidac.c
@@ -66,7 +66,9 @@ static unsigned char *lime_hdr_rec_type = &header.uchr[16] ;
  */
 static int
 parse_SCIDAC_hdr( FILE *infile , 
-		  struct head_data *HEAD_DATA )
+		  struct head_data *HEAD_DATA ,
+		  GLU_bool *is_binary ,
+		  uint64_t *length )
 {
   // assumes we have opened it fine and are at the start of the file
   const char myname[] = "GLU::parse_SCIDAC_hdr";
@@ -94,17 +96,25 @@ parse_SCIDAC_hdr( FILE *infile ,
 
   const size_t padding = lime_padding( (size_t)i_data_length[0] ) ;
 
-  // again, typebuf is uninteresting ...
+  // again, typebuf is uninteresting ... but has to be terminated
+  header.uchr[ 8 * MAX_HDR64 - 1 ] = '\0' ;
   unsigned char *typebuf = (unsigned char*)lime_hdr_rec_type ;
   // if we hit the binary data we exit for a binary read, could pass the length
   // of the data but the header has already given us the logical dimensions
   if( strcmp( (const char*)typebuf , "scidac-binary-data" ) == 0 ||
       strcmp( (const char*)typebuf , "ildg-binary-data" ) == 0 ) {
+    *is_binary = GLU_TRUE ;
+    *length = i_data_length[0] ;
     // and so we exit ...
     return GLU_EOF ; // is not end of file, but not error either
   }
   // we should be able to read the remaining data
-  char *io_data = malloc( ( i_data_length[0] + 1 ) * sizeof( char ) ) ;
+  char *io_data = NULL ;
+  if( i_data_length[0] >= SIZE_MAX ||
+      ( io_data = malloc( i_data_length[0] + 1 ) ) == NULL ) {
+    fprintf( stderr , "[IO] unusable record length ... Leaving \n" ) ;
+    return GLU_FAILURE ;
+  }
   if( fread( io_data , sizeof( char ) , i_data_length[0] , infile ) != 
       i_data_length[0] ) {
     fprintf( stderr , "[IO] xml information reading failed ... Leaving \n" ) ;
@@ -119,6 +129,7 @@ parse_SCIDAC_hdr( FILE *infile ,
     tmp.plaquette = strtod( io_data , &endptr ) ;
     if( io_data == endptr ) {
       printf( "[IO] BQCD plaquette misread \n" ) ;
+      free( io_data ) ;
       return GLU_FAILURE ;
     }
     *HEAD_DATA = tmp ;
@@ -127,15 +138,24 @@ parse_SCIDAC_hdr( FILE *infile ,
   if( strcmp( (const char*)typebuf , "bqcd-cksum" ) == 0 ) {
     struct head_data tmp = *HEAD_DATA ;
     unsigned long int cksum ;
-    sscanf( io_data , "%lu" , &cksum ) ;
+    if( sscanf( io_data , "%lu" , &cksum ) != 1 ) {
+      printf( "[IO] BQCD cksum misread \n" ) ;
+      free( io_data ) ;
+      return GLU_FAILURE ;
+    }
     tmp.checksum = (uint32_t)cksum ;
     *HEAD_DATA = tmp ;
   }
-  parse_and_set_xml_SCIDAC( io_data , HEAD_DATA ) ;
+  const int parsed = parse_and_set_xml_SCIDAC( io_data , HEAD_DATA ) ;
 
   // free for now
   free( io_data ) ;
 
+  // this file is not meant for us
+  if( parsed == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
+
   // and skip the file along by "padding" amount
   if( padding > 0 ) {
     char pad_str[ padding ] ;
@@ -197,14 +217,29 @@ int
 get_header_data_SCIDAC( FILE *infile ,
 			struct head_data *HEAD_DATA )
 {
-  // loop the records, zealously set max number to be 12
-  int record = 0 , validity ;
-  while( record < 12 ) { // hmmm
-    validity = parse_SCIDAC_hdr( infile , HEAD_DATA ) ; record++ ;
-    if( validity == GLU_FAILURE ) { // if the reader doesn't work
+  // loop the records until the binary data or the end of the file
+  GLU_bool is_binary = GLU_FALSE ;
+  uint64_t length = 0 ;
+  int validity = GLU_SUCCESS ;
+  while( validity == GLU_SUCCESS ) {
+    validity = parse_SCIDAC_hdr( infile , HEAD_DATA , &is_binary , &length ) ;
+  }
+  if( validity == GLU_FAILURE ) { // if the reader doesn't work
+    return GLU_FAILURE ;
+  }
+  // the links have to be the ones of the lattice that was described
+  if( is_binary == GLU_TRUE ) {
+    size_t mu ;
+    uint64_t expected = 2 * ND * NCNC *
+      ( HEAD_DATA -> precision == FLOAT_PREC ? sizeof( float ) :
+	sizeof( double ) ) ;
+    for( mu = 0 ; mu < ND ; mu++ ) {
+      expected *= Latt.dims[ mu ] ;
+    }
+    if( length != expected ) {
+      fprintf( stderr , "[IO] %zu bytes of links, %zu expected ... Leaving \n" ,
+	       (size_t)length , (size_t)expected ) ;
       return GLU_FAILURE ;
-    } else if( validity == GLU_EOF ) {
-      break ;
     }
   }
   return GLU_SUCCESS ;
@@ -364,10 +399,11 @@ write_header_ILDG( FILE *__restrict out )
   // begin with the usual spiel and the versioning ...
   sprintf( ILDG_str , "%s" , ILDG_start ) ;
 #ifdef SINGLE_PREC
-  append_char( &ILDG_str , "<field>su3gauge</field><precision>32</precision>" ) ;
+  sprintf( tmp , "<field>su%dgauge</field><precision>32</precision>" , NC ) ;
 #else
-  append_char( &ILDG_str , "<field>su3gauge</field><precision>64</precision>" ) ;
+  sprintf( tmp , "<field>su%dgauge</field><precision>64</precision>" , NC ) ;
 #endif
+  append_char( &ILDG_str , tmp ) ;
   // and input the geometry .. I enumerate the extra (>4) dimensions, always leaving t running slowest
   const char open[4][5] = { "<lx>" , "<ly>" , "<lz>" , "<lt>" } ;
   const char close[4][6] = { "</lx>" , "</ly>" , "</lz>" , "</lt>" } ;
diff --git a/src/IO/XML_info.c b/src/IO/XML_info.c
index 9d4f381..36487dc 100755
--- a/src/IO/XML_info.c
+++ b/src/IO/XML_info.c
@@ -65,7 +65,7 @@ get_prec_tag( char *pch , const char *tag )
   // loop tokens
   while( ( pch = strtok( 0 , "<>" ) ) ) {
     if( !strncmp( pch , tmp , length+1 ) ) break ;
-    sprintf( prec , "%s" , pch ) ;
+    snprintf( prec , sizeof( prec ) , "%s" , pch ) ;
   }
   if( !strcmp( prec , "F" ) ) return FLOAT_PREC ;
   if( !strcmp( prec , "D" ) ) return DOUBLE_PREC ;
@@ -86,7 +86,7 @@ parse_and_set_xml_SCIDAC( char *xml_info ,
   // We use the C tokenize capabilities to parse this string
   char *pch = strtok( xml_info , "<>" ) ;
   // this is not an error
-  if (strncmp( pch , "?xml" , 4 ) ) {
+  if( pch == NULL || strncmp( pch , "?xml" , 4 ) ) {
     return 0 ;
   }
   int dimensions = 0 ;
@@ -188,6 +188,7 @@ parse_and_set_xml_SCIDAC( char *xml_info ,
 	  Latt.dims[ idx++ ] = strtol( token , &pEnd , 10 ) ;
 	  while( ( token = strtok( NULL , " " ) ) != NULL ) {
 	    if(  ( are_equal( token , "/dims" ) ) ) break ;
+	    if( idx == ND ) return GLU_FAILURE ;
 	    Latt.dims[ idx ] = strtol( token , &pEnd , 10 ) ;
 	    idx++ ;
 	  } 
@@ -229,9 +230,11 @@ parse_and_set_xml_SCIDAC( char *xml_info ,
 	  if( are_equal( pch , "/field" ) ) break ;
 	  // sometimes there is whitespace around these for some unknown reason
 	  char *token = realFront( pch ) ;
-	  char compare[10] ;
+	  char compare[16] ;
 	  sprintf( compare , "su%dgauge" , NC ) ;
-	  if( !strncmp( compare , token , 8 ) ) {
+	  // su3gauge is the only one ILDG defines and what we used to write
+	  if( !strncmp( compare , token , strlen( compare ) ) ||
+	      !strncmp( "su3gauge" , token , 8 ) ) {
 	    HEAD_DATA -> config_type = OUTPUT_NCxNC ;
 	  } else {
 	    fprintf( stderr , "[ILDG] Expected %s, got \"%s\" \n" , 
diff --git a/src/IO/read_config.c b/src/IO/read_config.c
index 5c9d94f..7945a99 100755
--- a/src/IO/read_config.c
+++ b/src/IO/read_config.c
@@ -41,6 +41,7 @@ check_sums( const double plaq ,
   int error = 0 ;
   enum{ DISASTER = 3 } ;
   
+  // the comparisons are written such that a NaN is unequal to everything
   switch( Latt.head ) {
   case MILC_HEADER :
   case ILDG_SCIDAC_HEADER :
@@ -58,7 +59,7 @@ check_sums( const double plaq ,
     } else {
       TTOL = PLAQ_AND_TRACE_TOL ;
     }
-    if( fabs( HEAD_DATA.plaquette - plaq ) > TTOL ) {
+    if( !( fabs( HEAD_DATA.plaquette - plaq ) <= TTOL ) ) {
       fprintf( stderr , "\n[IO] Unequal Plaquettes %e %e \n\n" , 
 	       plaq , HEAD_DATA.plaquette ) ; 
       return GLU_FAILURE ;
@@ -73,7 +74,7 @@ check_sums( const double plaq ,
   case HIREP_HEADER :
   case CERN_HEADER :
     // only check available is the plaquette
-    if( fabs( plaq - HEAD_DATA.plaquette ) > 10*PREC_TOL ) {
+    if( !( fabs( plaq - HEAD_DATA.plaquette ) <= 10*PREC_TOL ) ) {
       fprintf( stderr , "[IO] Config Plaquette Mismatch %e vs %e "
 	       " < diff > %e ... Leaving \n" , plaq , HEAD_DATA.plaquette , 
 	       fabs( plaq - HEAD_DATA.plaquette ) ) ;
@@ -87,12 +88,12 @@ check_sums( const double plaq ,
 	       chksum , HEAD_DATA.checksum ) ; 
       error ++ ; 
       // TOL is defined as 10^-6
-    } if( fabs( plaq - HEAD_DATA.plaquette ) > PLAQ_AND_TRACE_TOL ) {
+    } if( !( fabs( plaq - HEAD_DATA.plaquette ) <= PLAQ_AND_TRACE_TOL ) ) {
       fprintf( stderr , "\n[IO] Unequal Plaquettes Calc %f || Read %f " 
 	       " < diff > %e \n\n" , plaq , HEAD_DATA.plaquette , 
 	       fabs( plaq - HEAD_DATA.plaquette ) ) ; 
       error ++ ; 
-    } if( fabs( tr - HEAD_DATA.trace) > PLAQ_AND_TRACE_TOL ) {
+    } if( !( fabs( tr - HEAD_DATA.trace) <= PLAQ_AND_TRACE_TOL ) ) {
       fprintf( stderr , "\n[IO] Unequal Link_Traces Calc %1.8f || "
 	       "Read %1.8f \n\n" , tr , HEAD_DATA.trace ) ; 
       error ++ ; 
diff --git a/src/IO/readers.c b/src/IO/readers.c
index 6f50773..cbf4db3 100755
--- a/src/IO/readers.c
+++ b/src/IO/readers.c
@@ -120,8 +120,8 @@ DML_checksum_accum( uint32_t *checksuma ,
   const uint32_t rank29 = rank % 29 ;
   const uint32_t rank31 = rank % 31 ;
   const uint32_t work = (uint32_t)crc32(0, (unsigned char*)buf, size);
-  *checksuma ^= work<<rank29 | work>>(32-rank29);
-  *checksumb ^= work<<rank31 | work>>(32-rank31);
+  *checksuma ^= work<<rank29 | work>> ( ( 32 - rank29 ) & 31 );
+  *checksumb ^= work<<rank31 | work>> ( ( 32 - rank31 ) & 31 );
   return ;
 }
 
@@ -205,8 +205,8 @@ lattice_reader_suNC( struct site *lat ,
 	const uint32_t work =
 	  (uint32_t)crc32(0, (unsigned char*)( uind + i*ND*LOOP_VAR ) ,
 			  sizeof(double) * ND * LOOP_VAR );
-	CRCsum29 = CRCsum29 ^ ( work<<rank29 | work>>(32-rank29));
-	CRCsum31 = CRCsum31 ^ ( work<<rank31 | work>>(32-rank31) );
+	CRCsum29 = CRCsum29 ^ ( work<<rank29 | work>> ( ( 32 - rank29 ) & 31 ));
+	CRCsum31 = CRCsum31 ^ ( work<<rank31 | work>> ( ( 32 - rank31 ) & 31 ) );
 	// TDOD -> an unthreaded bswap here ?
       }
     }
@@ -246,8 +246,8 @@ lattice_reader_suNC( struct site *lat ,
 	const uint32_t work =
 	  (uint32_t)crc32(0, (unsigned char*)( uin + i*ND*LOOP_VAR ) ,
 			  sizeof(float) * ND * LOOP_VAR );
-	CRCsum29 = CRCsum29 ^ ( work<<rank29 | work>>(32-rank29));
-	CRCsum31 = CRCsum31 ^ ( work<<rank31 | work>>(32-rank31) );
+	CRCsum29 = CRCsum29 ^ ( work<<rank29 | work>> ( ( 32 - rank29 ) & 31 ));
+	CRCsum31 = CRCsum31 ^ ( work<<rank31 | work>> ( ( 32 - rank31 ) & 31 ) );
 	// TDOD -> an unthreaded bswap here ?
       }
     }
@@ -303,8 +303,8 @@ lattice_reader_suNC( struct site *lat ,
 	count++ ;
 
 	// milc checksums ...
-	sum29_loc ^= (uint32_t)( res << rank29 | res >> ( 32 - rank29 ) ) ;
-	sum31_loc ^= (uint32_t)( res << rank31 | res >> ( 32 - rank31 ) ) ;
+	sum29_loc ^= (uint32_t)( res << rank29 | res >> ( ( 32 - rank29 ) & 31 ) ) ;
+	sum31_loc ^= (uint32_t)( res << rank31 | res >> ( ( 32 - rank31 ) & 31 ) ) ;
 
 	/// and perform the mods
 	rank29 = ( rank29 < 28 ) ? rank29 + 1 : 0 ;
@@ -444,8 +444,8 @@ lattice_reader_suNC_cheaper( struct site *lat ,
 	  *( utemp + j ) = ( GLU_real )*( q + t ) ; 
 	} 
 	// local computations
-	sum29_loc ^= (uint32_t)( res << rank29 | res >> ( 32 - rank29 ) ) ;
-	sum31_loc ^= (uint32_t)( res << rank31 | res >> ( 32 - rank31 ) ) ;
+	sum29_loc ^= (uint32_t)( res << rank29 | res >> ( ( 32 - rank29 ) & 31 ) ) ;
+	sum31_loc ^= (uint32_t)( res << rank31 | res >> ( ( 32 - rank31 ) & 31 ) ) ;
 
 	/// and perform the mods
 	rank29 = ( rank29 < 28 ) ? rank29 + 1 : 0 ;
diff --git a/src/IO/writers.c b/src/IO/writers.c
index 038973b..2e09171 100755
--- a/src/IO/writers.c
+++ b/src/IO/writers.c
@@ -203,8 +203,8 @@ compute_checksum( uint32_t *nersc_cksum ,
       k_loc += work;
 	
       // the first milc checksums
-      sum29_loc ^= ( work << rank29 | work >> ( 32 - rank29 ) ) ;
-      sum31_loc ^= ( work << rank31 | work >> ( 32 - rank31 ) ) ;
+      sum29_loc ^= ( work << rank29 | work >> ( ( 32 - rank29 ) & 31 ) ) ;
+      sum31_loc ^= ( work << rank31 | work >> ( ( 32 - rank31 ) & 31 ) ) ;
       rank29 = ( rank29 < 28 ) ? rank29 + 1 : 0 ;
       rank31 = ( rank31 < 30 ) ? rank31 + 1 : 0 ;
     }
-- 
2.43.0


From bbc9d2b5f3b6c84c82baf8d74f876754017e93c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:36 +0000
Subject: [PATCH 074/101] fix: input files overflowed buffers, missing or
 nonsensical settings were used uninitialised, CONFNO was ignored for
 generated configurations, documented values not accepted

---
 src/IO/input_help.c   |   5 +-
 src/IO/input_reader.c | 123 ++++++++++++++++++++++++++++--------------
 2 files changed, 85 insertions(+), 43 deletions(-)

diff --git a/src/IO/input_help.c b/src/IO/input_help.c
index d539e0a..adedf23 100755
--- a/src/IO/input_help.c
+++ b/src/IO/input_help.c
@@ -344,8 +344,7 @@ storage_types( void )
 	   "link matrices\n" ) ;
   fprintf( stdout , "        = SCIDAC      - Writes a SCIDAC format "
 	   "configuration\n" ) ;
-  fprintf( stdout , "        = {ALL ELSE}  - Defaults to the NERSC_NCxNC "
-	   "format\n" ) ;
+  fprintf( stdout , "        = {ALL ELSE}  - Is refused\n" ) ;
   fprintf( stdout , "\n*caution* our MILC configurations are not *actually* "
 	   "MILC standard, as they don't have a double precision\n"
 	   "           output at the moment. We will see if that changes.\n" ) ;
@@ -438,7 +437,7 @@ GLU_helps_those_who_help_themselves( const char *help_str )
 	     "                  where L is the smallest lattice direction's "
 	     "length\n" ) ;
   } else if( are_equal( help_str , "--help=ANGLE" ) ) {
-    fprintf( stdout , "ANGLE = %%lf - conical cut's angle of the apex of "
+    fprintf( stdout , "ANGLE = %%d - conical cut's angle of the apex of "
 	     "the cone\n" ) ;
   } else if( are_equal( help_str , "--help=OUTPUT" ) ) {
     fprintf( stdout , "OUTPUT = %%s - prefix destination for where the "
diff --git a/src/IO/input_reader.c b/src/IO/input_reader.c
index 28ccc58..0f83bad 100755
--- a/src/IO/input_reader.c
+++ b/src/IO/input_reader.c
@@ -31,7 +31,7 @@
 // we might want to change this at some point
 #define GLU_STR_LENGTH 64
 
-// maximum number of tokens
+// number of tokens we allocate at a time
 #define INPUTS_LENGTH 64
 
 // tokenize the input file
@@ -46,25 +46,45 @@ static struct inputs *INPUT = NULL ;
 // counter for the number of tags
 static int NTAGS = 0 ;
 
-// allocate the input file struct
-static void 
-pack_inputs( FILE *setup )
-{
-  INPUT = ( struct inputs* )calloc( INPUTS_LENGTH , sizeof( struct inputs ) ) ;
-  // and put into the buffer
-  while( NTAGS++ , fscanf( setup , "%s = %s" , INPUT[ NTAGS ].TOKEN , 
-			   INPUT[ NTAGS ].VALUE )  != EOF ) { }
-  return ;
-}
-
 // frees up the struct
 static void
 unpack_inputs( void )
 {
   free( INPUT ) ;
+  INPUT = NULL ;
+  NTAGS = 0 ;
   return ;
 }
 
+// allocate the input file struct
+static int
+pack_inputs( FILE *setup )
+{
+  // one more than fits so that we can tell what is too long
+  char token[ GLU_STR_LENGTH + 1 ] = "" , value[ GLU_STR_LENGTH + 1 ] = "" ;
+  NTAGS = 0 ;
+  // and put into the buffer
+  while( fscanf( setup , "%64s = %64s" , token , value ) != EOF ) {
+    if( strlen( token ) >= GLU_STR_LENGTH ||
+	strlen( value ) >= GLU_STR_LENGTH ) {
+      fprintf( stderr , "[IO] \"%s = %s\" is too long ... Leaving\n" ,
+	       token , value ) ;
+      return GLU_FAILURE ;
+    }
+    if( NTAGS%INPUTS_LENGTH == 0 ) {
+      struct inputs *tmp = realloc( INPUT , ( NTAGS + INPUTS_LENGTH ) *
+				    sizeof( struct inputs ) ) ;
+      if( tmp == NULL ) return GLU_FAILURE ;
+      INPUT = tmp ;
+    }
+    strcpy( INPUT[ NTAGS ].TOKEN , token ) ;
+    strcpy( INPUT[ NTAGS ].VALUE , value ) ;
+    token[0] = value[0] = '\0' ;
+    NTAGS++ ;
+  }
+  return GLU_SUCCESS ;
+}
+
 // prints out the problematic tag
 static int
 tag_failure( const char *tag )
@@ -94,10 +114,14 @@ setint( size_t *val ,
   errno = 0 ;
   const int idx = tag_search( tag ) ;
   if( idx == GLU_FAILURE ) { return tag_failure( tag ) ; }
-  *val = (size_t)strtol( INPUT[idx].VALUE , &endptr , 10 ) ;
-  if( endptr == INPUT[idx].VALUE || errno == ERANGE ) {
+  const long int ival = strtol( INPUT[idx].VALUE , &endptr , 10 ) ;
+  if( endptr == INPUT[idx].VALUE || *endptr != '\0' || errno == ERANGE ||
+      ival < 0 ) {
+    fprintf( stderr , "[IO] %s = %s is not a positive integer ... Leaving\n" ,
+	     tag , INPUT[idx].VALUE ) ;
     return GLU_FAILURE ;
   }
+  *val = (size_t)ival ;
   return GLU_SUCCESS ;
 }
 
@@ -111,7 +135,10 @@ setdbl( double *val ,
   const int idx = tag_search( tag ) ;
   if( idx == GLU_FAILURE ) { return tag_failure( tag ) ; }
   *val = strtod( INPUT[idx].VALUE , &endptr ) ;
-  if( endptr == INPUT[idx].VALUE || errno == ERANGE ) {
+  if( endptr == INPUT[idx].VALUE || *endptr != '\0' || errno == ERANGE ||
+      !isfinite( *val ) ) {
+    fprintf( stderr , "[IO] %s = %s is not a number ... Leaving\n" ,
+	     tag , INPUT[idx].VALUE ) ;
     return GLU_FAILURE ;
   }
   return GLU_SUCCESS ;
@@ -119,16 +146,15 @@ setdbl( double *val ,
 
 // quickly get the configuration number from the input file
 // must be greater than or equal to zero
-static size_t
-confno( void )
+static int
+confno( size_t *conf )
 {
-  size_t conf = 0 ;
-  if( setint( &conf , "CONFNO" ) == GLU_FAILURE ) {
-    fprintf( stderr , "[IO] I do not understand CONFNO %zu \n" , conf ) ;
-    fprintf( stderr , "[IO] CONFNO should be greater than 0\n" ) ;
-    return 0 ;
+  if( setint( conf , "CONFNO" ) == GLU_FAILURE ) {
+    fprintf( stderr , "[IO] I do not understand CONFNO\n" ) ;
+    fprintf( stderr , "[IO] CONFNO should be greater than or equal to 0\n" ) ;
+    return GLU_FAILURE ;
   }
-  return conf ;
+  return GLU_SUCCESS ;
 }
 
 // read from the input file our dimensions
@@ -158,6 +184,7 @@ static int
 config_information( char *details )
 {
   const int details_idx = tag_search( "CONFIG_INFO" ) ;
+  if( details_idx == GLU_FAILURE ) { return tag_failure( "CONFIG_INFO" ) ; }
   sprintf( details , "%s" , INPUT[details_idx].VALUE ) ;
   return GLU_SUCCESS ;
 }
@@ -187,9 +214,13 @@ get_mode( GLU_mode *mode )
   }
   // look at what seed type we are going to use
   {
-    const int seed_idx = tag_search( "SEED" ) ;
-    if( seed_idx == GLU_FAILURE ) { return tag_failure( "SEED" ) ; }
-    sscanf( INPUT[seed_idx].VALUE , "%u" , &Latt.Seed[0] ) ;
+    size_t seed ;
+    if( setint( &seed , "SEED" ) == GLU_FAILURE ) { return GLU_FAILURE ; }
+    if( seed > UINT32_MAX ) {
+      fprintf( stderr , "[IO] SEED %zu is too large ... Leaving\n" , seed ) ;
+      return GLU_FAILURE ;
+    }
+    Latt.Seed[0] = (uint32_t)seed ;
   }
   return GLU_SUCCESS ;
 }
@@ -242,7 +273,7 @@ header_type( header_mode *HEADINFO )
   {
     const int header_idx = tag_search( "HEADER" ) ;
     if( header_idx == GLU_FAILURE ) { return tag_failure( "HEADER" ) ; }
-    Latt.flow = confno( ) ;
+    if( confno( &Latt.flow ) == GLU_FAILURE ) { return GLU_FAILURE ; }
     if( are_equal( INPUT[header_idx].VALUE , "NERSC" ) ) {
       fprintf( stdout , "[IO] Attempting to read a NERSC file \n" ) ;
       *HEADINFO = NERSC_HEADER ;
@@ -303,7 +334,7 @@ header_type( header_mode *HEADINFO )
     } else if( are_equal( INPUT[header_idx].VALUE , "UNIT" ) ) {
       fprintf( stdout , "[IO] Attempting to generate an %dx%d UNIT config \n" 
 	       , NC , NC ) ;
-      read_random_lattice_info( ) ;
+      if( read_random_lattice_info( ) == GLU_FAILURE ) return GLU_FAILURE ;
       *HEADINFO = UNIT_GAUGE ;
     } else if( are_equal( INPUT[header_idx].VALUE , "INSTANTON" ) ) {
       fprintf( stdout , "[IO] Attempting to generate a SU(%d) BPST "
@@ -369,7 +400,8 @@ read_cuts_struct( struct cut_info *CUTINFO )
       CUTINFO -> dir = SMEARED_GLUONS ;
     } else if( are_equal( INPUT[cuttype_idx].VALUE , "INSTANTANEOUS_GLUONS" ) ) {
       CUTINFO -> dir = INSTANTANEOUS_GLUONS ;
-    } else if( are_equal( INPUT[cuttype_idx].VALUE , "CONFIGSPACE_GLUONS" ) ) {
+    } else if( are_equal( INPUT[cuttype_idx].VALUE , "CONFIGSPACE_GLUONS" ) ||
+	       are_equal( INPUT[cuttype_idx].VALUE , "CONFIGSPACE_GLUE" ) ) {
       CUTINFO -> dir = CONFIGSPACE_GLUONS ;
     } else if( are_equal( INPUT[cuttype_idx].VALUE , "GLUON_PROPS" ) ) {
       CUTINFO -> dir = GLUON_PROPS ;
@@ -412,7 +444,8 @@ read_cuts_struct( struct cut_info *CUTINFO )
     const int field_idx = tag_search( "FIELD_DEFINITION" ) ;
     if( field_idx == GLU_FAILURE ) { return tag_failure( "FIELD_DEFINITION" ) ; }
     CUTINFO -> definition = LINEAR_DEF ;
-    if( are_equal( INPUT[field_idx].VALUE , "LOGARITHMIC" ) ) {
+    if( are_equal( INPUT[field_idx].VALUE , "LOGARITHMIC" ) ||
+	are_equal( INPUT[field_idx].VALUE , "LOG" ) ) {
       CUTINFO -> definition = LOG_DEF ;
     } 
   }
@@ -508,12 +541,13 @@ read_suNC_x_U1( struct u1_info *U1INFO )
 }
 
 // are we performing a random transform?
-static GLU_bool
-rtrans( void )
+static int
+get_rtrans( GLU_bool *rtrans )
 {
   const int rtrans_idx = tag_search( "RANDOM_TRANSFORM" ) ;
-  if( are_equal( INPUT[rtrans_idx].VALUE , "YES" ) ) return GLU_TRUE ;
-  return GLU_FALSE ;
+  if( rtrans_idx == GLU_FAILURE ) { return tag_failure( "RANDOM_TRANSFORM" ) ; }
+  *rtrans = are_equal( INPUT[rtrans_idx].VALUE , "YES" ) ? GLU_TRUE : GLU_FALSE ;
+  return GLU_SUCCESS ;
 }
 
 // pack the sm_info struct
@@ -593,7 +627,11 @@ get_input_data( struct infile_data *INFILE ,
   }
 
   // if we can open the file we push it into a big structure
-  pack_inputs( infile ) ;
+  if( pack_inputs( infile ) == GLU_FAILURE ) {
+    fclose( infile ) ;
+    unpack_inputs( ) ;
+    return GLU_FAILURE ;
+  }
 
   int INPUT_FAILS = 0 ; // counter for the number of failures
 
@@ -611,7 +649,7 @@ get_input_data( struct infile_data *INFILE ,
   if( read_suNC_x_U1( &( INFILE -> U1INFO ) ) == GLU_FAILURE ) INPUT_FAILS++ ;
  
   // are we performing a random transform
-  INFILE -> rtrans = rtrans( ) ;
+  if( get_rtrans( &( INFILE -> rtrans ) ) == GLU_FAILURE ) INPUT_FAILS++ ;
 
   // get the header type
   if( header_type( &( INFILE -> head ) ) == GLU_FAILURE ) { 
@@ -626,7 +664,9 @@ get_input_data( struct infile_data *INFILE ,
   }
 
   // put the config info 
-  config_information( INFILE -> output_details ) ;
+  if( config_information( INFILE -> output_details ) == GLU_FAILURE ) {
+    INPUT_FAILS++ ;
+  }
 
   // poke in some heatbath related things
   INFILE -> HBINFO.continuation = GLU_FALSE ;
@@ -636,9 +676,12 @@ get_input_data( struct infile_data *INFILE ,
 	     " performing thermalisation\n" ) ;
     INFILE -> HBINFO.therm = 0 ;
   } else {
-    fprintf( stdout , "[UPDATE] initialising trajectory number to 0 for "
-	     "this new run\n" ) ;
-    Latt.flow = 0 ;
+    // the other modes keep the number from the input file
+    if( INFILE -> mode == MODE_HEATBATH ) {
+      fprintf( stdout , "[UPDATE] initialising trajectory number to 0 for "
+	       "this new run\n" ) ;
+      Latt.flow = 0 ;
+    }
   }
 
   // close the file and deallocate the buffer
-- 
2.43.0


From 325bf755bd328ebc57fd210ed70f7381017c47eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:37 +0000
Subject: [PATCH 075/101] fix: SAVE or MEASURE of zero divided by zero

---
 src/Update/KPHB.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index c74d73c..266275d 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -127,6 +127,12 @@ hb_update( struct site *lat ,
 	   const GLU_output storage , 
 	   const char *output_details )
 {
+  // these are what we count the trajectories in
+  if( HBINFO.Nsave == 0 || HBINFO.Nmeasure == 0 ) {
+    fprintf( stderr , "[UPDATE] SAVE and MEASURE have to be greater than 0\n" ) ;
+    return GLU_FAILURE ;
+  }
+
   // strip the number in the infile if it has one
   // careful, the directories in its path can have dots in them
   char pch[ strlen( traj_name ) + 1 ] ;
-- 
2.43.0


From b308ab72706f920ab3c5a0e319e6d174708ca560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:52 +0000
Subject: [PATCH 076/101] fix: U(1) fields for ND != 4 were not real,
 self-conjugate modes had half their variance, failed RNG initialisation was
 ignored

---
 src/U1/SUNCxU1_config.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/U1/SUNCxU1_config.c b/src/U1/SUNCxU1_config.c
index a9025d2..de97650 100755
--- a/src/U1/SUNCxU1_config.c
+++ b/src/U1/SUNCxU1_config.c
@@ -46,8 +46,8 @@ compute_zeropoint( void )
   return ( Latt.dims[0] * ( 1 + Latt.dims[1] * ( 1 + Latt.dims[2] * ( 1 + Latt.dims[3] ) ) ) ) >> 1 ;
 #else
   size_t check = Latt.dims[ ND-1 ] , mu ;
-  for( mu = ND-2 ; mu != 0 ; mu-- ) {
-    check = Latt.dims[ mu ] * ( 1 + check ) ;
+  for( mu = ND-1 ; mu != 0 ; mu-- ) {
+    check = Latt.dims[ mu - 1 ] * ( 1 + check ) ;
   }
   return check >> 1 ;
 #endif
@@ -99,7 +99,8 @@ periodic_dft( struct fftw_stuff *FFTW )
     const size_t b = conjugate_site( i ) ;
     if( i == b ) {
       for( size_t mu = 0 ; mu < ND ; mu++ ) {
-	FFTW -> in[mu][i] = creal( FFTW -> in[mu][i] ) + I*0.0 ;
+	// has all of the variance in its real part
+	FFTW -> in[mu][i] = sqrt( 2. ) * creal( FFTW -> in[mu][i] ) + I*0.0 ;
       }
     } else if( b < i ) { // case is already done
       continue ;
@@ -205,7 +206,9 @@ suNC_cross_u1( struct site *lat ,
   start_timer( ) ;
 
   // initialise the rng
-  initialise_par_rng( NULL ) ;
+  if( initialise_par_rng( NULL ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
 
   struct fftw_stuff FFTW ;
   create_plans_DFT( &FFTW , Latt.dims , ND , ND ) ;
-- 
2.43.0


From dfdbc09a8093cef6ad0139b4d754972fac0109f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:48 +0000
Subject: [PATCH 077/101] fix: failed smearing, measurements, U(1) fields and
 output files were reported as success, or dereferenced NULL;
 TOPOLOGICAL_MOMENTS with MAX_T=0 did not terminate

---
 src/Cuts/3Dcuts.c            | 10 +++++---
 src/Cuts/config_gluons.c     | 10 +++++---
 src/Cuts/cut_output.c        | 46 ++++++++++++++++++++++++++++++------
 src/Cuts/cuts.c              |  8 +++++--
 src/Cuts/smearing_param.c    | 15 ++++++++----
 src/Field/POLY.c             | 21 +++++++++-------
 src/Field/Qcorr.c            | 19 +++++++++------
 src/Field/Qslab.c            | 17 +++++++++----
 src/Field/Qsusc.c            | 16 +++++++++----
 src/Field/balls.c            |  2 +-
 src/Headers/CUT_wrap.h       |  5 ++--
 src/Headers/SUNCxU1_config.h |  5 ++--
 src/Headers/cut_output.h     | 21 ++++++++++++++--
 src/Run/Mainfile.c           | 15 ++++++------
 src/Wrappers/CUT_wrap.c      | 20 +++++++++-------
 src/Wrappers/GLUlib_wrap.c   | 18 +++++++-------
 src/Wrappers/SM_wrap.c       | 45 +++++++++++++++++------------------
 17 files changed, 195 insertions(+), 98 deletions(-)

diff --git a/src/Cuts/3Dcuts.c b/src/Cuts/3Dcuts.c
index b8368b0..0b9ef23 100755
--- a/src/Cuts/3Dcuts.c
+++ b/src/Cuts/3Dcuts.c
@@ -154,7 +154,11 @@ cuts_spatial ( struct site *__restrict A ,
 
   // create some useful output and open the file
   char *str = output_str_struct( CUTINFO ) ;
-  FILE *Aps = fopen( str , "wb" ) ; 
+  FILE *Aps = open_cut_output( str ) ;
+  if( Aps == NULL ) {
+    free( str ) ; free( (void*)list ) ; free( num_mom ) ;
+    return GLU_FAILURE ;
+  }
 
   write_mom_veclist( Aps , num_mom , list , ND - 1 ) ;
 
@@ -224,7 +228,7 @@ g( p ) =   ----------    >    Tr < A_( ND - 1 )( p ) . A_( ND - 1 )( -p ) >
   fprintf( stdout , "[CUTS] Writing finished...\n[CUTS] Outputting to %s \n" , str ) ;
  
   // FREE STUFF //
-  fclose( Aps ) ;
+  const int flag = close_cut_output( Aps , str ) ;
   free( (void*)list ) ; 
   free( num_mom ) ; 
   free( str ) ;
@@ -232,7 +236,7 @@ g( p ) =   ----------    >    Tr < A_( ND - 1 )( p ) . A_( ND - 1 )( -p ) >
   free( g2_temporal ) ;
 
   // Exit with a smile
-  return GLU_SUCCESS ;
+  return flag ;
 }
 
 
diff --git a/src/Cuts/config_gluons.c b/src/Cuts/config_gluons.c
index af34773..672d7c8 100755
--- a/src/Cuts/config_gluons.c
+++ b/src/Cuts/config_gluons.c
@@ -346,7 +346,7 @@ cuts_struct_configspace( struct site *__restrict A ,
 	   "gluon propagator\n" ) ;
 
   // smeared gluon field to extract the ground state?
-  SM_wrap_struct( A , SMINFO ) ;
+  if( SM_wrap_struct( A , SMINFO ) == GLU_FAILURE ) { return GLU_FAILURE ; }
 
   // take the log
   if( Amu_fields( A , CUTINFO.definition ) != GLU_SUCCESS ) {
@@ -360,7 +360,11 @@ cuts_struct_configspace( struct site *__restrict A ,
 
   // set up the outputs
   char *str = output_str_struct( CUTINFO ) ;  
-  FILE *Ap = fopen( str , "wb" ) ; 
+  FILE *Ap = open_cut_output( str ) ;
+  if( Ap == NULL ) {
+    free( str ) ;
+    return GLU_FAILURE ;
+  }
 
   // compute the temporal and spatial correlators
   double *gsp = malloc( Latt.dims[ ND-1 ] * sizeof( double ) ) ;
@@ -395,7 +399,7 @@ cuts_struct_configspace( struct site *__restrict A ,
  memfree :
 
   // close the file
-  fclose( Ap ) ;
+  if( close_cut_output( Ap , str ) == GLU_FAILURE ) { FLAG = GLU_FAILURE ; }
   // and its name
   free( str ) ;
 
diff --git a/src/Cuts/cut_output.c b/src/Cuts/cut_output.c
index 4505df2..c62a993 100755
--- a/src/Cuts/cut_output.c
+++ b/src/Cuts/cut_output.c
@@ -397,8 +397,33 @@ write_mom_veclist( FILE *Ap ,
   return ;
 }
 
+// open an output file
+FILE *
+open_cut_output( const char *str )
+{
+  FILE *file = fopen( str , "wb" ) ;
+  if( file == NULL ) {
+    fprintf( stderr , "[CUTS] cannot open %s for writing\n" , str ) ;
+  }
+  return file ;
+}
+
+// close an output file, some of it may only be written here
+int
+close_cut_output( FILE *file ,
+		  const char *str )
+{
+  int flag = GLU_SUCCESS ;
+  if( ferror( file ) != 0 ) flag = GLU_FAILURE ;
+  if( fclose( file ) != 0 ) flag = GLU_FAILURE ;
+  if( flag == GLU_FAILURE ) {
+    fprintf( stderr , "[CUTS] failed to write to %s\n" , str ) ;
+  }
+  return flag ;
+}
+
 // write out some moments, re and imaginary
-void
+int
 write_moments( struct Qmoments *Qmom ,
 	       const size_t Nmeasurements )
 {
@@ -406,15 +431,21 @@ write_moments( struct Qmoments *Qmom ,
   double *re = malloc( NQMOMENTS * sizeof( double ) ) ;
   uint32_t nmom[ 1 ] = { NQMOMENTS } ;
   uint32_t Nmeas[ 1 ] = { Nmeasurements } ;
-  char filename[ 256 ] ;
+  char filename[ 256 ] , filename2[ 256 ] ;
+  int flag = GLU_SUCCESS ;
   
   size_t mu , i , j ;
   for( mu = 0 ; mu < ND ; mu++ ) {
 
     sprintf( filename , "Qmoment_d%zu.%zu.bin" , mu , Latt.flow ) ;
-    Qm = fopen( filename , "wb" ) ;
-    sprintf( filename , "Q2moment_d%zu.%zu.bin" , mu , Latt.flow ) ;
-    Q2m = fopen( filename , "wb" ) ;
+    Qm = open_cut_output( filename ) ;
+    sprintf( filename2 , "Q2moment_d%zu.%zu.bin" , mu , Latt.flow ) ;
+    Q2m = open_cut_output( filename2 ) ;
+    if( Qm == NULL || Q2m == NULL ) {
+      if( Qm != NULL ) fclose( Qm ) ;
+      if( Q2m != NULL ) fclose( Q2m ) ;
+      flag = GLU_FAILURE ; break ;
+    }
 
     FWRITE( Nmeas , sizeof( uint32_t ) , 1 , Qm ) ;
     FWRITE( Nmeas , sizeof( uint32_t ) , 1 , Q2m ) ;
@@ -433,12 +464,13 @@ write_moments( struct Qmoments *Qmom ,
       FWRITE( re , sizeof( double ) , NQMOMENTS , Q2m ) ;
     }
 
-    fclose( Qm ) ; fclose( Q2m ) ; 
+    if( close_cut_output( Qm , filename ) == GLU_FAILURE ) flag = GLU_FAILURE ;
+    if( close_cut_output( Q2m , filename2 ) == GLU_FAILURE ) flag = GLU_FAILURE ;
   }
   
   free( re ) ;
   
-  return ;
+  return flag ;
 }
 
 // write out rsq's for the correlator
diff --git a/src/Cuts/cuts.c b/src/Cuts/cuts.c
index 082b3c6..2e98c92 100755
--- a/src/Cuts/cuts.c
+++ b/src/Cuts/cuts.c
@@ -140,7 +140,11 @@ cuts_struct( struct site *__restrict A ,
   correct_pspace_landau( A , list , in , ND ) ;
   
   char *str = output_str_struct( CUTINFO ) ;  
-  FILE *Ap = fopen( str , "wb" ) ; 
+  FILE *Ap = open_cut_output( str ) ;
+  if( Ap == NULL ) {
+    free( str ) ; free( (void*)list ) ; free( in ) ;
+    return GLU_FAILURE ;
+  }
 
   int check = 0 ;
   switch( CUTINFO.dir ) {
@@ -171,7 +175,7 @@ cuts_struct( struct site *__restrict A ,
 	            "[CUTS] Outputting to %s\n" , str ) ;
 
   // Free allocated memory
-  fclose( Ap ) ;
+  if( close_cut_output( Ap , str ) == GLU_FAILURE ) { check = GLU_FAILURE ; }
   free( (void*)list ) ;
   free( in ) ;
   free( str ) ;
diff --git a/src/Cuts/smearing_param.c b/src/Cuts/smearing_param.c
index aab9cf0..b778337 100755
--- a/src/Cuts/smearing_param.c
+++ b/src/Cuts/smearing_param.c
@@ -230,7 +230,10 @@ cuts_struct_smeared( struct site *__restrict A ,
       equiv( SM_A[j].O[mu] , A[j].O[mu] ) ;
     }
   }
-  SM_wrap_struct( SM_A , SMINFO ) ;
+  if( SM_wrap_struct( SM_A , SMINFO ) == GLU_FAILURE ) {
+    free_lat( SM_A ) ;
+    return GLU_FAILURE ;
+  }
 
 #ifdef TADPOLE_IMPROVE
   const double u0 = 1.0 / sqrt( av_plaquette( A ) ) ;
@@ -258,7 +261,11 @@ cuts_struct_smeared( struct site *__restrict A ,
 
   // set up the outputs
   char *str = output_str_struct( CUTINFO ) ;  
-  FILE *Ap = fopen( str , "wb" ) ; 
+  FILE *Ap = open_cut_output( str ) ;
+  if( Ap == NULL ) {
+    free( str ) ; free( (void*)list ) ; free( in ) ; free_lat( SM_A ) ;
+    return GLU_FAILURE ;
+  }
 
   // Here we write the two LANDAU gauge gluon propagators, 
   // unsmeared first and then smeared
@@ -303,13 +310,13 @@ cuts_struct_smeared( struct site *__restrict A ,
   free( g2_SM ) ;
 
   // free everything else
-  fclose( Ap ) ;
+  const int flag = close_cut_output( Ap , str ) ;
   free( (void*)list ) ;
   free( in ) ;
   free( str ) ;
   free_lat( SM_A ) ;
 
-  return GLU_SUCCESS ;
+  return flag ;
 }
 
 // undefine the weak field
diff --git a/src/Field/POLY.c b/src/Field/POLY.c
index 7a395fd..68cae34 100755
--- a/src/Field/POLY.c
+++ b/src/Field/POLY.c
@@ -313,7 +313,7 @@ Coul_staticpot( struct site *lat ,
 {
   // do some smearing? Overwrites lat, should I state that I only think
   // SPATIAL dimensional smearing is safe ... probably
-  SM_wrap_struct( lat , SMINFO ) ;
+  if( SM_wrap_struct( lat , SMINFO ) == GLU_FAILURE ) { return GLU_FAILURE ; }
 
   // important!! T is the length of the polyakov loop in time direction
   const size_t T = CUTINFO.max_t ;
@@ -323,6 +323,14 @@ Coul_staticpot( struct site *lat ,
 
   fprintf( stdout , "\n[STATIC-POTENTIAL] measurements at T = %zu\n" , T ) ;
 
+  // set up the outputs
+  char *str = output_str_struct( CUTINFO ) ;  
+  FILE *Ap = open_cut_output( str ) ;
+  if( Ap == NULL ) {
+    free( str ) ;
+    return GLU_FAILURE ;
+  }
+
   // compute the ratios of the dimensions in terms of the smallest
   simorb_ratios( ND ) ;
 
@@ -330,6 +338,7 @@ Coul_staticpot( struct site *lat ,
   // compute all of the poly loops, lattice-wide
   GLU_complex **poly = NULL ;
   if( GLU_malloc( (void**)&poly , 16 , LVOLUME * sizeof( GLU_complex* ) ) != 0 ) {
+    fclose( Ap ) ; free( str ) ;
     return GLU_FAILURE ;
   }
 
@@ -344,10 +353,6 @@ Coul_staticpot( struct site *lat ,
   size_t size[1] = { 0 } ;
   struct veclist *list = compute_veclist( size , CUTINFO , ND-1 , GLU_TRUE ) ;
 
-  // set up the outputs
-  const char *str = output_str_struct( CUTINFO ) ;  
-  FILE *Ap = fopen( str , "wb" ) ;
-
   // write the list, in cut_outputs.c
   write_mom_veclist( Ap , size , list , ND-1 ) ;
 
@@ -400,12 +405,12 @@ Coul_staticpot( struct site *lat ,
   }
 
   // close the file
-  fclose( Ap ) ; 
+  const int flag = close_cut_output( Ap , str ) ;
 
   // memory free ...
   free( result ) ;
   free( trtr ) ;
-  free( (void*)str ) ;
+  free( str ) ;
 #pragma omp parallel for private(i)
   for( i = 0 ; i < LVOLUME ; i++ ) { 
     free( poly[i] ) ;
@@ -415,5 +420,5 @@ Coul_staticpot( struct site *lat ,
   // free the momentum list
   free( list ) ;
 
-  return GLU_SUCCESS ;
+  return flag ;
 }
diff --git a/src/Field/Qcorr.c b/src/Field/Qcorr.c
index 1affeb7..834af87 100644
--- a/src/Field/Qcorr.c
+++ b/src/Field/Qcorr.c
@@ -40,7 +40,8 @@ temporal_correlator( const GLU_complex *qtop ,
   // append .tcorr onto the output
   char cstr[ strlen(str)+7 ] ;
   sprintf( cstr , "%s.tcorr" , str ) ; 
-  FILE *Ap = fopen( cstr , "wb" ) ; 
+  FILE *Ap = open_cut_output( cstr ) ;
+  if( Ap == NULL ) return GLU_FAILURE ;
 
   // timeslice length
   size_t lt[ 1 ] = { Latt.dims[ND-1] } ;
@@ -74,10 +75,10 @@ temporal_correlator( const GLU_complex *qtop ,
   write_g2_to_list( Ap , ct , lt ) ;
 
   // memory frees
-  fclose( Ap ) ;
+  const int flag = close_cut_output( Ap , cstr ) ;
   free( ct ) ;
 
-  return GLU_SUCCESS ;
+  return flag ;
 }
 
 // computation of the correlator
@@ -107,7 +108,11 @@ compute_Qcorr( struct site *__restrict lat ,
   char tmp[64] ;
   sprintf( tmp , "m%zu" , measurement ) ;
   append_char( &str , tmp ) ; 
-  FILE *Ap = fopen( str , "wb" ) ; 
+  FILE *Ap = open_cut_output( str ) ;
+  if( Ap == NULL ) {
+    free( str ) ; free( list ) ;
+    return GLU_FAILURE ;
+  }
 
   // flag for success or failure
   int FLAG = GLU_FAILURE ;
@@ -203,7 +208,7 @@ compute_Qcorr( struct site *__restrict lat ,
 #endif
 
   // look at the correlator of this thing too
-  temporal_correlator( FFTW.in , str ) ;
+  const int tflag = temporal_correlator( FFTW.in , str ) ;
 
   // tell us where to go
   fprintf( stdout , "[CUTS] Outputting to %s \n" , str ) ;
@@ -212,12 +217,12 @@ compute_Qcorr( struct site *__restrict lat ,
   write_g2_to_list( Ap , qcorr , size ) ;
   
   // we are quite successful if we get here
-  FLAG = GLU_SUCCESS ;
+  FLAG = tflag ;
 
  memfree :
 
   // close the file and its name
-  fclose( Ap ) ;
+  if( close_cut_output( Ap , str ) == GLU_FAILURE ) { FLAG = GLU_FAILURE ; }
   free( str ) ;
 
   // free up all of the allocations
diff --git a/src/Field/Qslab.c b/src/Field/Qslab.c
index 0d330f4..3571e21 100644
--- a/src/Field/Qslab.c
+++ b/src/Field/Qslab.c
@@ -82,7 +82,11 @@ compute_slabs( const GLU_complex *qtop ,
   char tmp[64] ;
   sprintf( tmp , ".m%zu.tcorr_d%zu" , measurement , SLAB_DIR ) ;
   append_char( &str , tmp ) ;
-  FILE *Ap = fopen( str , "wb" ) ;
+  FILE *Ap = open_cut_output( str ) ;
+  if( Ap == NULL ) {
+    free( str ) ;
+    return GLU_FAILURE ;
+  }
 
   // timeslice length
   size_t lt[ 1 ] = { Latt.dims[ SLAB_DIR ] } ;
@@ -188,11 +192,11 @@ compute_slabs( const GLU_complex *qtop ,
   write_g2_to_list( Ap , ct , lt ) ;
 
   // free allocated memory
+  const int flag = close_cut_output( Ap , str ) ;
   free( ct ) ;
   free( str ) ;
-  fclose( Ap ) ;
 
-  return GLU_SUCCESS ;
+  return flag ;
 }
 
 // compute the topological susceptibility on a "slab"
@@ -208,12 +212,15 @@ compute_Qsusc( struct site *lat ,
   compute_Gmunu_array( qtop , lat ) ;
 
   // slabby slab slab
+  int flag = GLU_SUCCESS ;
   size_t mu ;
   for( mu = 0 ; mu < ND ; mu++ ) {
-    compute_slabs( qtop , CUTINFO , mu , measurement ) ;
+    if( compute_slabs( qtop , CUTINFO , mu , measurement ) == GLU_FAILURE ) {
+      flag = GLU_FAILURE ; break ;
+    }
   }
   
   free( qtop ) ;
   
-  return GLU_SUCCESS ;
+  return flag ;
 }
diff --git a/src/Field/Qsusc.c b/src/Field/Qsusc.c
index 5bd26e2..cd260f7 100755
--- a/src/Field/Qsusc.c
+++ b/src/Field/Qsusc.c
@@ -37,6 +37,8 @@ compute_Qsusc_step( struct site *__restrict lat ,
 {
   // measurement counter
   size_t measurement ;
+  // there is one fewer than MAX_T
+  const size_t Nmeas = CUTINFO.max_t > 0 ? CUTINFO.max_t - 1 : 0 ;
   int flag = GLU_SUCCESS ;
   
   fprintf( stdout , "[QSUSC] performing %zu measurements at %zu" 
@@ -45,9 +47,9 @@ compute_Qsusc_step( struct site *__restrict lat ,
   // allocations for the moments
   struct Qmoments *Qmom = NULL ;
   if( CUTINFO.dir == TOPOLOGICAL_MOMENTS ) {
-    Qmom = malloc( ( CUTINFO.max_t - 1 ) * sizeof( struct Qmoments ) ) ;
+    Qmom = malloc( ( Nmeas + 1 ) * sizeof( struct Qmoments ) ) ;
     size_t t ;
-    for( t = 0 ; t < CUTINFO.max_t-1 ; t++ ) {
+    for( t = 0 ; t < Nmeas ; t++ ) {
       Qmom[t].Q  = malloc( ND * NQMOMENTS * sizeof( double ) ) ;
       Qmom[t].Q2 = malloc( ND * NQMOMENTS * sizeof( double ) ) ;
     }
@@ -64,7 +66,9 @@ compute_Qsusc_step( struct site *__restrict lat ,
   for( measurement = 1 ; measurement < CUTINFO.max_t ; measurement++ ) {
 
     // do some smearing ...
-    SM_wrap_struct( lat , SMINFO ) ;
+    if( SM_wrap_struct( lat , SMINFO ) == GLU_FAILURE ) {
+      flag = GLU_FAILURE ; break ;
+    }
     
     // compute the topological correlator in r and the temporal correlator
     if( CUTINFO.dir == TOPOLOGICAL_SUSCEPTIBILITY ) {
@@ -89,10 +93,12 @@ compute_Qsusc_step( struct site *__restrict lat ,
   if( CUTINFO.dir == TOPOLOGICAL_MOMENTS ) {
 
     // write to a file
-    write_moments( Qmom , CUTINFO.max_t-1 ) ;
+    if( flag == GLU_SUCCESS ) {
+      flag = write_moments( Qmom , Nmeas ) ;
+    }
     
     size_t t ;
-    for( t = 0 ; t < CUTINFO.max_t-1 ; t++ ) {
+    for( t = 0 ; t < Nmeas ; t++ ) {
       free( Qmom[t].Q ) ; free( Qmom[t].Q2 ) ;
     }
     free( Qmom ) ; 
diff --git a/src/Field/balls.c b/src/Field/balls.c
index f8b5c3d..068f065 100644
--- a/src/Field/balls.c
+++ b/src/Field/balls.c
@@ -131,7 +131,7 @@ int
 GLU_balls( struct site *lat ,
 	   struct sm_info SMINFO )
 {
-  SM_wrap_struct( lat , SMINFO ) ;
+  if( SM_wrap_struct( lat , SMINFO ) == GLU_FAILURE ) { return GLU_FAILURE ; }
 
   GLU_complex *result = NULL ;
   GLU_malloc( (void**)&result , 16 , LVOLUME*sizeof(GLU_complex) ) ;
diff --git a/src/Headers/CUT_wrap.h b/src/Headers/CUT_wrap.h
index c5ef364..478e6c3 100755
--- a/src/Headers/CUT_wrap.h
+++ b/src/Headers/CUT_wrap.h
@@ -24,14 +24,15 @@
 #define GLU_CUT_WRAP
 
 /**
-   @fn void cuts_wrap_struct( struct site *__restrict lat , const struct cut_info CUTINFO , const struct sm_info SMINFO )
+   @fn int cuts_wrap_struct( struct site *__restrict lat , const struct cut_info CUTINFO , const struct sm_info SMINFO )
    @brief Wrapper function
 
    @param lat :: Gauge fields
    @param CUTINFO :: cutting information
    @param SMINFO :: smearing information
+   @return #GLU_SUCCESS or #GLU_FAILURE
  */
-void
+int
 cuts_wrap_struct( struct site *__restrict lat , 
 		  const struct cut_info CUTINFO ,
 		  const struct sm_info SMINFO ) ;
diff --git a/src/Headers/SUNCxU1_config.h b/src/Headers/SUNCxU1_config.h
index 6d81587..24ff108 100755
--- a/src/Headers/SUNCxU1_config.h
+++ b/src/Headers/SUNCxU1_config.h
@@ -24,16 +24,17 @@
 #define GLU_SUNCxU1_CONFIG_H
 
 /**
-   @fn void suNC_cross_u1( struct site *__restrict lat , const struct u1_info U1INFO ) 
+   @fn int suNC_cross_u1( struct site *__restrict lat , const struct u1_info U1INFO ) 
    @brief creates links which are multiplied by a non-compact U(1) field
 
    @warning rewrites the gauge field
    @warning cannot write out configurations in any format but NCxNC #config_size
 
    calls compute_U1_obs()
+   @return #GLU_SUCCESS or #GLU_FAILURE
    
  */
-void 
+int 
 suNC_cross_u1( struct site *__restrict lat , 
 	       const struct u1_info U1INFO ) ;
 
diff --git a/src/Headers/cut_output.h b/src/Headers/cut_output.h
index ef30e84..5724d92 100755
--- a/src/Headers/cut_output.h
+++ b/src/Headers/cut_output.h
@@ -129,9 +129,26 @@ write_mom_veclist( FILE *Ap ,
 		   const size_t DIR ) ;
 
 /**
-   @fn void write_moments( struct Qmoments *Qmom , const size_t Nmeasurements )
+   @fn FILE *open_cut_output( const char *str )
+   @brief opens the output file @str, complaining if it can not be
+   @return the file, or NULL
+ */
+FILE *
+open_cut_output( const char *str ) ;
+
+/**
+   @fn int close_cut_output( FILE *file , const char *str )
+   @brief closes the output file and checks that everything has been written
+   @return #GLU_SUCCESS or #GLU_FAILURE
+ */
+int
+close_cut_output( FILE *file ,
+		  const char *str ) ;
+
+/**
+   @fn int write_moments( struct Qmoments *Qmom , const size_t Nmeasurements )
  **/
-void
+int
 write_moments( struct Qmoments *Qmom ,
 	       const size_t Nmeasurements ) ;
 
diff --git a/src/Run/Mainfile.c b/src/Run/Mainfile.c
index 6e7303f..57857d5 100755
--- a/src/Run/Mainfile.c
+++ b/src/Run/Mainfile.c
@@ -60,28 +60,29 @@ main( const int argc ,
   const struct infile_data INFILE = infile_struct ;
 
   // and the options
+  int flag = GLU_SUCCESS ;
   switch( INFILE.mode ) {
   case MODE_GF :
-    read_and_fix( argv[ READ ] , INFILE.rtrans , INFILE.GFINFO ,
+    flag = read_and_fix( argv[ READ ] , INFILE.rtrans , INFILE.GFINFO ,
 		  argv[ WRITE ] , INFILE.storage , INFILE.output_details ) ;
     break ;
   case MODE_CUTS :
-    read_and_cut( argv[ READ ] , INFILE.CUTINFO , INFILE.SMINFO ) ;
+    flag = read_and_cut( argv[ READ ] , INFILE.CUTINFO , INFILE.SMINFO ) ;
     break ;
   case MODE_SMEARING :
-    read_and_smear( argv[ READ ] , INFILE.rtrans , INFILE.SMINFO ,
+    flag = read_and_smear( argv[ READ ] , INFILE.rtrans , INFILE.SMINFO ,
 		    argv[ WRITE ] , INFILE.storage , INFILE.output_details ) ;
     break ;
   case MODE_CROSS_U1 :
-    read_and_U1( argv[ READ ] , INFILE.rtrans , INFILE.U1INFO ,
+    flag = read_and_U1( argv[ READ ] , INFILE.rtrans , INFILE.U1INFO ,
 		 argv[ WRITE ] , INFILE.storage , INFILE.output_details ) ;
     break ;
   case MODE_HEATBATH :
-    heatbath( argv[ READ ] , INFILE.HBINFO , INFILE.storage ,
+    flag = heatbath( argv[ READ ] , INFILE.HBINFO , INFILE.storage ,
 	      INFILE.output_details ) ;
     break ;
   default :
-    read_and_check( argv[ READ ] , INFILE.rtrans , argv[ WRITE ] , 
+    flag = read_and_check( argv[ READ ] , INFILE.rtrans , argv[ WRITE ] , 
 		    INFILE.storage , INFILE.output_details ) ;
     break ;
   }
@@ -89,5 +90,5 @@ main( const int argc ,
   // un-initialise GLU
   unstick_GLU( ) ;
 
-  return GLU_SUCCESS ;
+  return flag ;
 }
diff --git a/src/Wrappers/CUT_wrap.c b/src/Wrappers/CUT_wrap.c
index 0506e6d..9e18b35 100755
--- a/src/Wrappers/CUT_wrap.c
+++ b/src/Wrappers/CUT_wrap.c
@@ -31,44 +31,46 @@
 #include "smearing_param.h" // smeared gluon propagator
 
 // wrapper for the variousfa momentum-cutting and other measurement options
-void
+int
 cuts_wrap_struct( struct site *__restrict lat , 
 		  const struct cut_info CUTINFO ,
 		  const struct sm_info SMINFO )
 {
+  int flag = GLU_SUCCESS ;
+
   start_timer( ) ;
 
   ///////////// CREATE CUTS ////////////
   switch( CUTINFO.dir ) {
   case INSTANTANEOUS_GLUONS :
-    cuts_spatial( lat , CUTINFO ) ;
+    flag = cuts_spatial( lat , CUTINFO ) ;
     break ;
   case CONFIGSPACE_GLUONS :
-    cuts_struct_configspace( lat , CUTINFO , SMINFO ) ;
+    flag = cuts_struct_configspace( lat , CUTINFO , SMINFO ) ;
     break ;
   case SMEARED_GLUONS :
-    cuts_struct_smeared( lat , CUTINFO , SMINFO ) ;
+    flag = cuts_struct_smeared( lat , CUTINFO , SMINFO ) ;
     break ;
   case STATIC_POTENTIAL :
-    Coul_staticpot( lat , CUTINFO , SMINFO ) ;
+    flag = Coul_staticpot( lat , CUTINFO , SMINFO ) ;
     break ;
   case TOPOLOGICAL_CORRELATOR :
   case TOPOLOGICAL_MOMENTS :
   case TOPOLOGICAL_SUSCEPTIBILITY :
-    compute_Qsusc_step( lat , CUTINFO , SMINFO ) ;
+    flag = compute_Qsusc_step( lat , CUTINFO , SMINFO ) ;
     break ;
   case GLUON_PROPS :
   case EXCEPTIONAL :
   case NONEXCEPTIONAL :
   case FIELDS :
     // all of the other momentum space routines are in here
-    cuts_struct( lat , CUTINFO ) ;
+    flag = cuts_struct( lat , CUTINFO ) ;
     break ;
   default :
-    return ;
+    return GLU_SUCCESS ;
   }
 
   print_time( ) ;
 
-  return ;
+  return flag ;
 }
diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index 03edc93..2071332 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -295,11 +295,11 @@ read_and_cut( const char *infile ,
   // should print out a warning
   if( lat == NULL ) return GLU_FAILURE ;
 
-  cuts_wrap_struct( lat , CUTINFO , SMINFO ) ;
+  const int FLAG = cuts_wrap_struct( lat , CUTINFO , SMINFO ) ;
 
   free_lat( lat ) ;
 
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
 
 // gauge fixing
@@ -350,9 +350,10 @@ read_and_smear( const char *infile ,
   // if we want a random transform then here is where we do it
   if( rtrans == GLU_TRUE ) { random_gtrans( lat ) ; }
 
-  SM_wrap_struct( lat , SMINFO ) ;
-
-  if( (Latt.argc-1) == WRITE ) {
+  // do not hand over something that failed to be smeared
+  if( SM_wrap_struct( lat , SMINFO ) == GLU_FAILURE ) {
+    FLAG = GLU_FAILURE ;
+  } else if( (Latt.argc-1) == WRITE ) {
     FLAG = write_configuration( lat , outfile , storage , output_details ) ;
   }
 
@@ -379,9 +380,10 @@ read_and_U1( const char *infile ,
   // if we want a random transform then here is where we do it
   if( rtrans == GLU_TRUE ) { random_gtrans( lat ) ; }
 
-  suNC_cross_u1( lat , U1INFO ) ;
-
-  if( (Latt.argc-1) == WRITE ) {
+  // do not hand over something that does not have the U(1) field
+  if( suNC_cross_u1( lat , U1INFO ) == GLU_FAILURE ) {
+    FLAG = GLU_FAILURE ;
+  } else if( (Latt.argc-1) == WRITE ) {
     FLAG = write_configuration( lat , outfile , storage , output_details ) ;
   }
 
diff --git a/src/Wrappers/SM_wrap.c b/src/Wrappers/SM_wrap.c
index f679820..1b952c5 100755
--- a/src/Wrappers/SM_wrap.c
+++ b/src/Wrappers/SM_wrap.c
@@ -38,7 +38,7 @@
 #include "wflow.h"          // fixed-epsilon wilson flow
 
 // Selects the correct code to run ...
-static void
+static int
 hyp_chooser( struct site *__restrict lat ,
 	     const struct sm_info SMINFO ,
 	     const int meminfo )
@@ -50,9 +50,8 @@ hyp_chooser( struct site *__restrict lat ,
     if( SMINFO.type == SM_ADAPTWFLOW_LOG ) {
       GENTYPE = SM_LOG ;
     }
-    flow_adaptive_RK3( lat , SMINFO.smiters , 
-		      GLU_FORWARD , GENTYPE ) ;
-    return ;
+    return flow_adaptive_RK3( lat , SMINFO.smiters , 
+			      GLU_FORWARD , GENTYPE ) ;
   }
   // RK4 method of integrating the flow equation
   if( SMINFO.type == SM_WFLOW_LOG || 
@@ -63,13 +62,11 @@ hyp_chooser( struct site *__restrict lat ,
     }
     switch( meminfo ){
     case FAST :
-      flow_RK3( lat , SMINFO.smiters , 
-		GLU_FORWARD , GENTYPE , GLU_FALSE ) ;
-      return ;
+      return flow_RK3( lat , SMINFO.smiters , 
+		       GLU_FORWARD , GENTYPE , GLU_FALSE ) ;
     case MODERATE :
-      flow_RK3( lat , SMINFO.smiters , 
-		GLU_FORWARD , GENTYPE , GLU_TRUE ) ;
-      return ;
+      return flow_RK3( lat , SMINFO.smiters , 
+		       GLU_FORWARD , GENTYPE , GLU_TRUE ) ;
     }
   }
   // The original decision for the smearing methods
@@ -78,31 +75,28 @@ hyp_chooser( struct site *__restrict lat ,
   if( SMINFO.type == SM_APE || SMINFO.type == SM_STOUT 
       || SMINFO.type == SM_LOG ) {
     if( SMINFO.dir == SPATIAL_LINKS_ONLY ) {
-      smear3D( lat , SMINFO.smiters , GENTYPE ) ;
+      return smear3D( lat , SMINFO.smiters , GENTYPE ) ;
     } else {
-      smear4D( lat , SMINFO.smiters , GENTYPE ) ;
+      return smear4D( lat , SMINFO.smiters , GENTYPE ) ;
     }
   } else {
     #if ND != 4
-    HYsmearND( lat , SMINFO.smiters , GENTYPE , SMINFO.dir ) ;
+    return HYsmearND( lat , SMINFO.smiters , GENTYPE , SMINFO.dir ) ;
     #else
     if( SMINFO.dir == SPATIAL_LINKS_ONLY ) {
-      HYPSLsmear3D( lat , SMINFO.smiters , GENTYPE ) ; 
-      return ;
+      return HYPSLsmear3D( lat , SMINFO.smiters , GENTYPE ) ;
     } else {
       switch( meminfo ) {
       case FAST :
-	HYPSLsmear4D_expensive( lat , SMINFO.smiters , GENTYPE ) ;
-	return ;
+	return HYPSLsmear4D_expensive( lat , SMINFO.smiters , GENTYPE ) ;
       case MODERATE :
       case SLOW :
-	HYsmearND( lat , SMINFO.smiters , GENTYPE , SMINFO.dir ) ;
-	return ;
+	return HYsmearND( lat , SMINFO.smiters , GENTYPE , SMINFO.dir ) ;
       }
     }
     #endif
   }
-  return ;
+  return GLU_FAILURE ;
 }
 
 // is it smear or wilson flow?
@@ -238,24 +232,29 @@ SM_wrap_struct( struct site *__restrict lat ,
   fprintf( stdout , "[SMEAR] O(a^2) Clover Term being used ... \n" ) ;
   #endif
 #endif
+  int flag = GLU_SUCCESS ;
   start_timer( ) ;
   print_smearinfo( SMINFO ) ;
   if( SMINFO.type == SM_HYP || 
       SMINFO.type == SM_HEX || 
       SMINFO.type == SM_HYL )  {
     const int meminfo = have_memory_hyp( SMINFO ) ;
-    hyp_chooser( lat , SMINFO , meminfo ) ;
+    flag = hyp_chooser( lat , SMINFO , meminfo ) ;
   } else if( SMINFO.type == SM_WFLOW_LOG || 
 	     SMINFO.type == SM_ADAPTWFLOW_LOG ||
 	     SMINFO.type == SM_WFLOW_STOUT || 
 	     SMINFO.type == SM_ADAPTWFLOW_STOUT )  {
     const int meminfo = have_memory_wf( SMINFO ) ;
     if( meminfo == GLU_FAILURE ) { return GLU_FAILURE ; }
-    hyp_chooser( lat , SMINFO , meminfo ) ;
+    flag = hyp_chooser( lat , SMINFO , meminfo ) ;
   } else {
     const int meminfo = 0 ;
-    hyp_chooser( lat , SMINFO , meminfo ) ;
+    flag = hyp_chooser( lat , SMINFO , meminfo ) ;
   }
   print_time( ) ;
+  if( flag != GLU_SUCCESS ) {
+    fprintf( stderr , "[SMEAR] smearing was not performed\n" ) ;
+    return GLU_FAILURE ;
+  }
   return GLU_SUCCESS ;
 }
-- 
2.43.0


From 3df346a4c3ea98b7bd9b3c158ea82ef92669d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:26 +0000
Subject: [PATCH 078/101] fix: U(1) topology for ND < 4 read out of bounds and
 windings were truncated before the division

---
 src/U1/U1_top.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/U1/U1_top.c b/src/U1/U1_top.c
index 401f1e8..c1ea8e6 100755
--- a/src/U1/U1_top.c
+++ b/src/U1/U1_top.c
@@ -44,7 +44,7 @@ current( const int **M )
 static inline int 
 mod_2pi( const GLU_real theta )
 {
-  return (int)theta / TWOPI ; 
+  return (int)( theta / TWOPI ) ;
 }
 
 // the noncompact face of the plaquette
@@ -135,6 +135,8 @@ static double
 non_Qtop( const GLU_complex **O )
 {
   double charge = 0.0 ;
+  // needs four directions
+#if ND > 3
   size_t i;
 #pragma omp parallel for private(i) reduction(+:charge)
   for( i = 0 ; i < LVOLUME ; i++ ) {
@@ -145,6 +147,7 @@ non_Qtop( const GLU_complex **O )
     // parallel reduction on charge
     charge = charge + (double)qtemp ;
   }
+#endif
   return charge * 0.001583143494411527678811 ;
 }
 
-- 
2.43.0


From 2be3a320921fb3b782a15ab600aac4c29eb3b191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:26 +0000
Subject: [PATCH 079/101] fix: headers contained uninitialised memory, missing
 USER was dereferenced

---
 src/IO/write_headers.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/IO/write_headers.c b/src/IO/write_headers.c
index c7bd907..e3080c9 100755
--- a/src/IO/write_headers.c
+++ b/src/IO/write_headers.c
@@ -58,8 +58,10 @@ write_header_MILC( FILE *__restrict out ,
   for (int i = 0; i < ND; i ++) dims[i] = Latt.dims[i];
   swap_and_write_int( out , dims , ND ) ;
 
+  // all of it is written
   char str[ 64 ] ;
-  sprintf( str , "%s GMT" , get_date( ) ) ;
+  memset( str , 0 , sizeof( str ) ) ;
+  snprintf( str , sizeof( str ) , "%s GMT" , get_date( ) ) ;
   fprintf( stdout , "[IO] MILC time %s\n" , str ) ;
   fwrite( str , sizeof( char ) , 64 , out ) ;
 
@@ -114,7 +116,9 @@ write_header_NERSC( FILE *__restrict out ,
  fprintf( out , "ENSEMBLE_ID = ukqcd\n" ) ; 
  fprintf( out , "SEQUENCE_NUMBER = %zu\n" , Latt.flow ) ; 
  fprintf( out , "ENSEMBLE_LABEL = %s\n" , details ) ; 
- fprintf( out , "CREATOR_MACHINE = %s\n" , getenv( "USER" ) ) ; 
+ // does not have to be set
+ const char *user = getenv( "USER" ) ;
+ fprintf( out , "CREATOR_MACHINE = %s\n" , user == NULL ? "unknown" : user ) ; 
 #ifdef HAVE_TIME_H
  fprintf( out , "CREATION_DATE = %s\n" , get_date( ) ) ;
 #endif
-- 
2.43.0


From 248ec0266452a753c80def93d8113653fcdbcfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:43 +0000
Subject: [PATCH 080/101] fix: SCIDAC checksums shifted by the width of the
 word

---
 src/IO/writers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/IO/writers.c b/src/IO/writers.c
index 2e09171..a37c9bb 100755
--- a/src/IO/writers.c
+++ b/src/IO/writers.c
@@ -215,8 +215,8 @@ compute_checksum( uint32_t *nersc_cksum ,
     const uint32_t u31 = (uint32_t)(r31) ;
     work = (uint32_t)crc32( 0 , (unsigned char*)site , 
 			    ND * LOOP_VAR * sizeof( GLU_real ) ) ;
-    CRCsum29 = CRCsum29 ^ (uint32_t) ( work << u29 | work >> ( 32 - u29 ) ) ;
-    CRCsum31 = CRCsum31 ^ (uint32_t) ( work << u31 | work >> ( 32 - u31 ) ) ;
+    CRCsum29 = CRCsum29 ^ (uint32_t) ( work << u29 | work >> ( ( 32 - u29 ) & 31 ) ) ;
+    CRCsum31 = CRCsum31 ^ (uint32_t) ( work << u31 | work >> ( ( 32 - u31 ) & 31 ) ) ;
 
     // and the local values reductions
     // nersc
-- 
2.43.0


From 180218bd27cd77337a87f421f8641835140bb642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:03 +0000
Subject: [PATCH 081/101] fix: ILDG files closed the scidacFile tag with
 ScidacFile

---
 src/IO/Scidac.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IO/Scidac.c b/src/IO/Scidac.c
index 68ae64c..d9d729c 100755
--- a/src/IO/Scidac.c
+++ b/src/IO/Scidac.c
@@ -352,7 +352,7 @@ write_header_ILDG( FILE *__restrict out )
   sprintf( tmp , "%zu" , Latt.dims[mu] ) ;
   append_char( &str , tmp ) ;
 
-  append_char( &str , "</dims><volfmt>0</volfmt></ScidacFile>" ) ;
+  append_char( &str , "</dims><volfmt>0</volfmt></scidacFile>" ) ;
   // some dummy file
   write_SCIDAC_binary( out , str , strlen( str ) , "scidac-private-file-xml" ) ;
   free( str ) ;
-- 
2.43.0


From 0468d07983dc03eaef46323cf33cdbdc2fbeb823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:28 +0000
Subject: [PATCH 082/101] fix: every LIME record was flagged as the beginning
 of a message and none as its end

---
 src/IO/Scidac.c | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/IO/Scidac.c b/src/IO/Scidac.c
index d9d729c..53d6941 100755
--- a/src/IO/Scidac.c
+++ b/src/IO/Scidac.c
@@ -172,7 +172,8 @@ static int
 write_SCIDAC_binary( FILE *__restrict out ,
 		     char *record ,
 		     const size_t record_length ,
-		     const char *banf )
+		     const char *banf ,
+		     const unsigned char flags )
 {
   // padding ...
   const unsigned char padbuf[7] = {0x00,0x00,0x00,0x00,0x00,0x00,0x00};
@@ -187,8 +188,8 @@ write_SCIDAC_binary( FILE *__restrict out ,
   uint16_t i_version[1] = { 1 } ;
   if( !WORDS_BIGENDIAN ) { bswap_16( 1 , i_version ) ; }
   header.int16[2] = i_version[0] ;
-  // is ME and MB
-  header.uchr[6] = MB_MASK ;
+  // is ME and MB, the file is a single message
+  header.uchr[6] = flags ;
   // is datalength
   uint64_t datalength[1] = { record_length } ;
   if( !WORDS_BIGENDIAN ) { bswap_64( 1 , datalength ) ; }
@@ -270,11 +271,11 @@ write_header_SCIDAC( FILE *__restrict out )
   append_char( &str , "</dims><volfmt>0</volfmt></scidacFile>" ) ;
 
   // some dummy file
-  write_SCIDAC_binary( out , str , strlen( str ) , "scidac-private-file-xml" ) ;
+  write_SCIDAC_binary( out , str , strlen( str ) , "scidac-private-file-xml" , MB_MASK ) ;
   free( str ) ;
   write_SCIDAC_binary( out , "<title>GLU SCIDAC archival gauge configuration</title>" ,
 		       strlen( "<title>GLU SCIDAC archival gauge configuration</title>" ) ,
-		       "scidac-file-xml" ) ;
+		       "scidac-file-xml" , 0 ) ;
   
   // gauge file informations
   char *gstr = malloc( (1+strlen(start))*sizeof(char) ) ;
@@ -297,19 +298,19 @@ write_header_SCIDAC( FILE *__restrict out )
 					/ sizeof( float ) ) , ND ) ;
   append_char( &gstr , tmp ) ;
   write_SCIDAC_binary( out , gstr , strlen( gstr ) , 
-		       "scidac-private-record-xml" ) ;
+		       "scidac-private-record-xml" , 0 ) ;
   free( gstr ) ;
 
   // dummy again
   write_SCIDAC_binary( out , "<info>GLU library configuration file</info>" ,
 		       strlen( "<info>GLU library configuration file</info>" ) ,
-		       "scidac-record-xml" ) ;
+		       "scidac-record-xml" , 0 ) ;
   
   // and then leave space for the gauge field
   char *nada = "" ; 
   write_SCIDAC_binary( out , nada , sizeof( GLU_real ) * \
 		       LVOLUME * ND * NCNC * 2 ,// the 2 is for complex
-		       "scidac-binary-data" ) ; 
+		       "scidac-binary-data" , 0 ) ; 
   return ;
 }
 
@@ -326,7 +327,7 @@ write_trailing_header_SCIDAC( FILE *__restrict out ,
 	   cksuma , cksumb ) ;
   append_char( &str , tmp ) ;
   append_char( &str , "</scidacChecksum>" ) ;
-  write_SCIDAC_binary( out , str , strlen( str ) , "scidac-checksum" ) ;
+  write_SCIDAC_binary( out , str , strlen( str ) , "scidac-checksum" , ME_MASK ) ;
   free( str ) ;
   return ;
 }
@@ -354,11 +355,11 @@ write_header_ILDG( FILE *__restrict out )
 
   append_char( &str , "</dims><volfmt>0</volfmt></scidacFile>" ) ;
   // some dummy file
-  write_SCIDAC_binary( out , str , strlen( str ) , "scidac-private-file-xml" ) ;
+  write_SCIDAC_binary( out , str , strlen( str ) , "scidac-private-file-xml" , MB_MASK ) ;
   free( str ) ;
   write_SCIDAC_binary( out , "<title>GLU ILDG archival gauge configuration</title>" ,
 		       strlen( "<title>GLU ILDG archival gauge configuration</title>" ) ,
-		       "scidac-file-xml" ) ;
+		       "scidac-file-xml" , 0 ) ;
 
   // SCIDAC gauge file informations
   char *gstr = malloc( (1+strlen(start))*sizeof( char ) ) ;
@@ -381,12 +382,12 @@ write_header_ILDG( FILE *__restrict out )
 				       / sizeof( float ) ) , ND ) ;
   append_char( &gstr , tmp ) ;
   write_SCIDAC_binary( out , gstr , strlen( gstr ) ,
-		       "scidac-private-record-xml" ) ;
+		       "scidac-private-record-xml" , 0 ) ;
   free( gstr ) ;
   // and finally an xml
   write_SCIDAC_binary( out , "<info>GLU library configuration file</info>" ,
 		       strlen( "<info>GLU library configuration file</info>" ) ,
-		       "scidac-record-xml" ) ;
+		       "scidac-record-xml" , 0 ) ;
 
   // FINALLY WE HAVE THE ILDG FORMAT STUFF //
   const char *ILDG_start = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>"
@@ -418,16 +419,16 @@ write_header_ILDG( FILE *__restrict out )
   }
   sprintf( tmp , "%s%zu%s%s" , open[3] , Latt.dims[ND-1] , close[3] , ILDG_end ) ;
   append_char( &ILDG_str , tmp ) ;
-  write_SCIDAC_binary( out , ILDG_str , strlen( ILDG_str ) , "ildg-format" ) ;
+  write_SCIDAC_binary( out , ILDG_str , strlen( ILDG_str ) , "ildg-format" , 0 ) ;
   free( ILDG_str ) ;
 
   // Logical file name; just leave it blank for now
-  write_SCIDAC_binary( out , "lfn://" , strlen( "lfn://" ) , "ildg-data-lfn" ) ;
+  write_SCIDAC_binary( out , "lfn://" , strlen( "lfn://" ) , "ildg-data-lfn" , 0 ) ;
 	   
   // and then leave space for the gauge field
   char *nada = "" ; 
   write_SCIDAC_binary( out , nada , sizeof( GLU_real )*LVOLUME*ND*NCNC*2 , 
-		       "ildg-binary-data" ) ; // the 2 is for complex
+		       "ildg-binary-data" , 0 ) ; // the 2 is for complex
   return ;
 }
 
-- 
2.43.0


From c0f2f1802c10d29fd99fdf441a6ffcb2294a9c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:42 +0000
Subject: [PATCH 083/101] fix: updates whose configurations or generator state
 could not be saved reported success

---
 src/Headers/par_rng.h |  7 ++++---
 src/Update/KPHB.c     |  9 +++++++--
 src/Utils/par_rng.c   | 14 +++++++++-----
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/Headers/par_rng.h b/src/Headers/par_rng.h
index 5d22747..48c1123 100755
--- a/src/Headers/par_rng.h
+++ b/src/Headers/par_rng.h
@@ -95,11 +95,12 @@ int
 read_par_rng_state( const char *infile ) ;
 
 /**
-   @fn int read_par_rng_state( const char *outfile )
-   @brief read the rng table to outfile
+   @fn int write_par_rng_state( const char *outfile )
+   @brief write the rng table to outfile
+   @return #GLU_SUCCESS or #GLU_FAILURE
    @param outfile :: file to be written
 */
-void
+int
 write_par_rng_state( const char *outfile ) ;
 
 #endif
diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index 266275d..8aee7e0 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -187,6 +187,9 @@ hb_update( struct site *lat ,
 #ifdef POLY_MEAS
   double *POLYred = calloc( CLINE*Latt.Nthreads , sizeof( double ) ) ;
 #endif
+  // set if something could not be saved
+  int FLAG = GLU_SUCCESS ;
+
   // thermalise
   start_timer( ) ;
   
@@ -235,7 +238,9 @@ hb_update( struct site *lat ,
 	      != GLU_FAILURE ) {
 	    // write out the rng state
 	    sprintf( str , "%s.%zu.rand" , pch , i ) ;
-	    write_par_rng_state( str ) ;
+	    if( write_par_rng_state( str ) == GLU_FAILURE ) FLAG = GLU_FAILURE ;
+	  } else {
+	    FLAG = GLU_FAILURE ;
 	  }
 	}
       }
@@ -266,6 +271,6 @@ hb_update( struct site *lat ,
   // free the rng
   free_par_rng( ) ;
 
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
 
diff --git a/src/Utils/par_rng.c b/src/Utils/par_rng.c
index 1c25e28..c4fff8e 100644
--- a/src/Utils/par_rng.c
+++ b/src/Utils/par_rng.c
@@ -315,14 +315,14 @@ read_par_rng_state( const char *infile )
 }
 
 // write out the parallel rng
-void
+int
 write_par_rng_state( const char *outfile )
 {
   FILE *out = fopen( outfile , "wb" ) ;
 
   if( out == NULL ) {
     fprintf( stderr , "[PAR_RNG] State file %s cannot be opened\n" , outfile ) ;
-    return ;
+    return GLU_FAILURE ;
   }
 
   // write out in a NERSC-like header so I can reuse that code
@@ -361,7 +361,11 @@ write_par_rng_state( const char *outfile )
   write_par_MWC_4096_table( out ) ;
 #endif
 
-  fclose( out ) ;
-
-  return ;
+  // some of it may only be written when the file is closed
+  int flag = ( ferror( out ) != 0 ) ? GLU_FAILURE : GLU_SUCCESS ;
+  if( fclose( out ) != 0 ) flag = GLU_FAILURE ;
+  if( flag == GLU_FAILURE ) {
+    fprintf( stderr , "[PAR_RNG] failed to write state file %s\n" , outfile ) ;
+  }
+  return flag ;
 }
-- 
2.43.0


From 10fe97c6f1ec87a049e35e32e40c7e46a579ec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:48 +0000
Subject: [PATCH 084/101] fix: HIREP files with more links than their lattice
 were accepted

---
 src/IO/HIREP.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/IO/HIREP.c b/src/IO/HIREP.c
index 1508f0f..2f1a495 100755
--- a/src/IO/HIREP.c
+++ b/src/IO/HIREP.c
@@ -104,10 +104,17 @@ read_gauge_field( struct site *__restrict lat ,
 
 #endif
   }
+  free( uind ) ;
+
+  // the links of the lattice in the header should be all there is
+  if( fgetc( in ) != EOF ) {
+    fprintf( stderr , "[IO] file is larger than the lattice it describes"
+	     ".. Leaving \n" ) ;
+    return GLU_FAILURE ;
+  }
   latt_reunitU( lat ) ;
   
   *chksum = k ;
-  free( uind ) ;
   return GLU_SUCCESS ; 
 }
 
-- 
2.43.0


From 7458062e946b388cbdd6e0d16e438b3b814a262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:53 +0000
Subject: [PATCH 085/101] fix: lattice extents beyond an int in XML headers
 were truncated

---
 src/IO/XML_info.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/IO/XML_info.c b/src/IO/XML_info.c
index 36487dc..d47595f 100755
--- a/src/IO/XML_info.c
+++ b/src/IO/XML_info.c
@@ -23,6 +23,7 @@
 #include "Mainfile.h"
 
 #include <errno.h>
+#include <limits.h>
 
 #include "str_stuff.h" // are_equal
 
@@ -46,10 +47,12 @@ get_int_tag( char *pch , const char *tag )
   errno = 0 ;
   while( ( pch = strtok( 0 , "<>" ) ) ) {
     if( !strncmp( pch , tmp , length+1 ) ) break ;
-    value = (int)strtol( realFront( pch ) , &endptr , 10 ) ;
-    if( errno == ERANGE || endptr == realFront( pch ) ) {
+    const long lvalue = strtol( realFront( pch ) , &endptr , 10 ) ;
+    if( errno == ERANGE || endptr == realFront( pch ) ||
+	lvalue < INT_MIN || lvalue > INT_MAX ) {
       return GLU_FAILURE ;
     }
+    value = (int)lvalue ;
   }
   return value ;
 }
-- 
2.43.0


From 90b371518c68895aaa0355f79b036c5e1a8b7c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:58 +0000
Subject: [PATCH 086/101] fix: U(1) modes were not hermitian for odd extents

---
 src/U1/SUNCxU1_config.c | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/U1/SUNCxU1_config.c b/src/U1/SUNCxU1_config.c
index de97650..1168425 100755
--- a/src/U1/SUNCxU1_config.c
+++ b/src/U1/SUNCxU1_config.c
@@ -58,20 +58,13 @@ static size_t
 conjugate_site( const size_t i )
 {
   int x[ ND ] ;
-  get_mom_pipi( x , i , ND ) ;
-  #if ND == 4
-  x[0] = -x[0] ;
-  x[1] = -x[1] ;
-  x[2] = -x[2] ;
-  x[3] = -x[3] ;
-  #else
   size_t mu ;
-  for( mu = 0 ; mu < ND ; mu++ ) { x[mu] = -x[mu] ; }
-  #endif
-  //  contrary to what its name may suggest get_site_2piBZ translates
-  //  the -pi to pi BZ coordinates to a site in the 0->2Pi lattice
-  //  which is what the FFT uses
-  return get_site_2piBZ( x , ND ) ;
+  // the FFT uses the 0->2Pi lattice
+  get_mom_2piBZ( x , i , ND ) ;
+  for( mu = 0 ; mu < ND ; mu++ ) {
+    x[mu] = ( (int)Latt.dims[mu] - x[mu] ) % (int)Latt.dims[mu] ;
+  }
+  return gen_site( x ) ;
 }
 
 // periodic fields using the DFT
-- 
2.43.0


From a60d687a81d14af9d58a3ebc00bd7816b93f1ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:04 +0000
Subject: [PATCH 087/101] fix: signs of the U(1) monopole current

---
 src/U1/U1_top.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/U1/U1_top.c b/src/U1/U1_top.c
index c1ea8e6..485de23 100755
--- a/src/U1/U1_top.c
+++ b/src/U1/U1_top.c
@@ -112,10 +112,10 @@ dirac( int **M ,
 	      if( sigma == mu || rho == mu || sigma == nu || rho == nu ) {
 		continue ;
 	      } else {
-		int factor = -1 ;
-		if( ( nu % 2 ) == 1 ) {
-		  factor = 1 ;
-		}
+		// sign of the permutation, from the place of nu among
+		// the directions other than mu
+		const size_t place = ( nu > mu ) ? nu - 1 : nu ;
+		const int factor = ( place % 2 ) == 0 ? 1 : -1 ;
 		const size_t temp = gen_shift( i , nu ) ;
 		M[ mu ][ i ] = M[ mu ][ i ] + factor * ( obtain_S( O , temp , rho , sigma )
 							 - obtain_S( O , i , rho , sigma ) ) ;
-- 
2.43.0


From e6daa60c152f89e6bd6851542acdbfd09066bc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:10 +0000
Subject: [PATCH 088/101] fix: residual Coulomb gauge fixing went on without
 having fixed to Coulomb gauge

---
 src/Wrappers/GF_wrap.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Wrappers/GF_wrap.c b/src/Wrappers/GF_wrap.c
index bcc8850..a650ff8 100755
--- a/src/Wrappers/GF_wrap.c
+++ b/src/Wrappers/GF_wrap.c
@@ -195,7 +195,9 @@ GF_wrap( const char *infile ,
   case GLU_COULOMB_FIX :
     return GF_wrap_coulomb( lat , GFINFO ) ;
   case GLU_COULOMB_RESIDUAL_FIX :
-    GF_wrap_coulomb( lat , GFINFO ) ;
+    if( GF_wrap_coulomb( lat , GFINFO ) == GLU_FAILURE ) { 
+      return GLU_FAILURE ; 
+    }
     fprintf( stdout , "\n[GF] Residual gauge fixing step \n" ) ;
     residual_fix( lat ) ;
     output_information( lat ) ;
-- 
2.43.0


From e40146af14be45da1a754130ac8fda0a8cc0dba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:15 +0000
Subject: [PATCH 089/101] fix: the U(1) field was projected out of the
 configurations written by SUNCxU1

---
 src/IO/writers.c           | 3 ---
 src/Update/KPHB.c          | 3 ++-
 src/Wrappers/GLUlib_wrap.c | 7 +++++++
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/IO/writers.c b/src/IO/writers.c
index a37c9bb..582477f 100755
--- a/src/IO/writers.c
+++ b/src/IO/writers.c
@@ -330,9 +330,6 @@ write_lat( struct site *lat ,
 	   const GLU_output type , 
 	   char *__restrict details )
 {
-  // reunitarise the field before writing out
-  latt_reunitU( lat ) ;
-  
   // CERN stuff is all handled in CERN.c
   if( type == OUTPUT_CERN ) {
     printf( "[IO] Writing out in CERN format\n" ) ;
diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index 8aee7e0..23feb52 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -232,7 +232,8 @@ hb_update( struct site *lat ,
       if( i%HBINFO.Nsave == 0 && i != start ) {
 	#pragma omp single
 	{
-	  // write a configuration
+	  // reunitarise the field and write a configuration
+	  latt_reunitU( lat ) ;
 	  sprintf( str , "%s.%zu" , pch , i ) ;
 	  if( write_configuration( lat , str , storage , output_details )
 	      != GLU_FAILURE ) {
diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index 2071332..8635c3f 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -275,6 +275,8 @@ read_and_check( const char *infile ,
   gauge( lat ) ;
 
   if( (Latt.argc-1) == WRITE ) {
+    // reunitarise the field before writing out
+    latt_reunitU( lat ) ;
     FLAG = write_configuration( lat , outfile , storage , output_details ) ;
   }
 
@@ -324,6 +326,8 @@ read_and_fix( const char *infile ,
   if( GF_wrap( infile , lat , GFINFO ) == GLU_FAILURE ) {
     FLAG = GLU_FAILURE ;
   } else if( (Latt.argc-1) == WRITE ) {
+    // reunitarise the field before writing out
+    latt_reunitU( lat ) ;
     FLAG = write_configuration( lat , outfile , storage , output_details ) ;
   }
 
@@ -354,6 +358,8 @@ read_and_smear( const char *infile ,
   if( SM_wrap_struct( lat , SMINFO ) == GLU_FAILURE ) {
     FLAG = GLU_FAILURE ;
   } else if( (Latt.argc-1) == WRITE ) {
+    // reunitarise the field before writing out
+    latt_reunitU( lat ) ;
     FLAG = write_configuration( lat , outfile , storage , output_details ) ;
   }
 
@@ -384,6 +390,7 @@ read_and_U1( const char *infile ,
   if( suNC_cross_u1( lat , U1INFO ) == GLU_FAILURE ) {
     FLAG = GLU_FAILURE ;
   } else if( (Latt.argc-1) == WRITE ) {
+    // these are U(NC) links, reunitarising them removes the U(1) field
     FLAG = write_configuration( lat , outfile , storage , output_details ) ;
   }
 
-- 
2.43.0


From 475f78638e9ffdfcec379e786c0620edbab89dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:21 +0000
Subject: [PATCH 090/101] fix: searching momentum triplets recursed once per
 momentum

---
 src/Cuts/triplet_gen.c | 50 ++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/Cuts/triplet_gen.c b/src/Cuts/triplet_gen.c
index 79e31af..4fbe45e 100755
--- a/src/Cuts/triplet_gen.c
+++ b/src/Cuts/triplet_gen.c
@@ -61,6 +61,22 @@ max_mode( const size_t mu ,
   return ( fabs( rats[mu] - (int)rats[mu] ) < PREC_TOL ) ? (int)r_nn : 0 ;
 }
 
+// step to the next mode, smallest direction first, GLU_FALSE after the last
+static GLU_bool
+next_mode( int *p ,
+	   const size_t r_nn )
+{
+  size_t mu ;
+  for( mu = ND ; mu > 0 ; mu-- ) {
+    if( p[mu-1] < max_mode( mu-1 , r_nn ) ) {
+      p[mu-1]++ ;
+      return GLU_TRUE ;
+    }
+    p[mu-1] = -max_mode( mu-1 , r_nn ) ;
+  }
+  return GLU_FALSE ;
+}
+
 // initialise the delta function
 static void
 init_delta( void )
@@ -105,7 +121,9 @@ recurse_p2( int *__restrict *__restrict triplet ,
 	    size_t check , 
 	    const GLU_bool FIRST_PASS )
 { 
-  size_t mu , sum = 0 , test = 0 ; 
+  size_t mu , sum , test ;
+  do {
+  sum = test = 0 ;
   for( mu = 0 ; mu < ND ; mu++ ) {
     sum += p2[mu] * p2[mu] ;
   }
@@ -156,17 +174,8 @@ recurse_p2( int *__restrict *__restrict triplet ,
     }
   }
 
-  // loop the smallest first
-  for( mu = ND ; mu > 0 ; mu-- ) {
-    if( p2[mu-1] < max_mode( mu-1 , r_nn ) ) {
-      p2[mu-1]++ ;
-      return recurse_p2( triplet , momentum , p1 , p2 , 
-			 nn , r_nn , nmom , 
-			 count , check , FIRST_PASS ) ;
-    } else {
-      p2[mu-1] = -max_mode( mu-1 , r_nn ) ;
-    }
-  }
+  } while( next_mode( p2 , r_nn ) == GLU_TRUE ) ;
+
   return check ;
 }
 
@@ -181,7 +190,9 @@ recurse_p( int *__restrict *__restrict triplet ,
 	   size_t count ,
 	   const GLU_bool FIRST_PASS )
 { 
-  size_t mu , sum = 0 , check = 0 ; 
+  size_t mu , sum , check = 0 ;
+  do {
+  sum = 0 ;
   for( mu = 0 ; mu < ND ; mu++ ) {
     sum += p1[mu] * p1[mu] ;
   }
@@ -196,17 +207,8 @@ recurse_p( int *__restrict *__restrict triplet ,
 			 count , check , FIRST_PASS ) ;
     free( p2 ) ;
   }
-  // loop the smallest first
-  for( mu = ND ; mu > 0 ; mu-- ) {
-    if( p1[mu-1] < max_mode( mu-1 , r_nn ) ) {
-      p1[mu-1]++ ;
-      return recurse_p( triplet , momentum , p1 , 
-			nn , r_nn , nmom , 
-			count , FIRST_PASS ) ;
-    } else {
-      p1[mu-1] = -max_mode( mu-1 , r_nn ) ;
-    }
-  }
+  } while( next_mode( p1 , r_nn ) == GLU_TRUE ) ;
+
   return count ;
 }
 
-- 
2.43.0


From 7bbfc62066065ba92f297fdb4bab3af49d303f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:26 +0000
Subject: [PATCH 091/101] fix: configuration-space gluons with MAX_T = 0 never
 ended without FFTW

---
 src/Cuts/config_gluons.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Cuts/config_gluons.c b/src/Cuts/config_gluons.c
index 672d7c8..7689466 100755
--- a/src/Cuts/config_gluons.c
+++ b/src/Cuts/config_gluons.c
@@ -309,6 +309,11 @@ spatial_correlator( const struct site *__restrict A ,
 		    const double gsnorm ,
 		    const size_t spacing )
 {
+  // there has to be some distance between the sources
+  if( spacing < 1 ) {
+    fprintf( stderr , "[CUTS] source spacing of MAX_T = 0\n" ) ;
+    return GLU_FAILURE ;
+  }
   // this one is more effective
   if( spacing == 1 ) {
     return spatial_pointsource( A , gs , gsnorm ) ;
-- 
2.43.0


From a4a6374b632bb8c1c11260c902e1ccdc94c75f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:26 +0000
Subject: [PATCH 092/101] fix: Coulomb gauge fixing used a second time slice
 that need not exist

---
 src/Gfix/CFACG.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/Gfix/CFACG.c b/src/Gfix/CFACG.c
index a64948c..8f62d36 100755
--- a/src/Gfix/CFACG.c
+++ b/src/Gfix/CFACG.c
@@ -606,13 +606,15 @@ Coulomb_FA( struct site  *__restrict lat ,
     thread_its = steep_fix( G.g_end , CG , FFTW ,
 			    lat , t , bcval , max_iter , f ) ;
     
-    // and t+1
-    thread_its += steep_fix( G.g , CG , FFTW ,
-			     lat , t+1 , accuracy , max_iter , f ) ;
-       
-    //gauge transform the links at x and set slice_gauge_up to be slice_gauge
-    gtransform_slice_th( (const GLU_complex **)G.g_end , lat , 
-			 (const GLU_complex **)G.g , 0 ) ;
+    // and t+1, if there is one
+    if( Latt.dims[ ND - 1 ] > 1 ) {
+      thread_its += steep_fix( G.g , CG , FFTW ,
+			       lat , t+1 , accuracy , max_iter , f ) ;
+
+      //gauge transform the links at x and set slice_gauge_up to be slice_gauge
+      gtransform_slice_th( (const GLU_complex **)G.g_end , lat , 
+			   (const GLU_complex **)G.g , 0 ) ;
+    }
     
     //now we do the same for all time slices
     for( t = 2 ; t < Latt.dims[ ND - 1 ] ; t++ ) {
@@ -640,8 +642,13 @@ Coulomb_FA( struct site  *__restrict lat ,
 
     // no need for a reunitarisation step as it has already been done
     // gauge transform the very final slice
-    gtransform_slice_th( (const GLU_complex **)G.g , lat , 
-			 (const GLU_complex **)G.g_end , t - 1 ) ;
+    if( Latt.dims[ ND - 1 ] > 1 ) {
+      gtransform_slice_th( (const GLU_complex **)G.g , lat , 
+			   (const GLU_complex **)G.g_end , t - 1 ) ;
+    } else {
+      gtransform_slice_th( (const GLU_complex **)G.g_end , lat , 
+			   (const GLU_complex **)G.g_end , 0 ) ;
+    }
 
 #pragma omp master
     {
-- 
2.43.0


From c1602329f98e42260e1c4d4ce948d4a90a9ae7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:30 +0000
Subject: [PATCH 093/101] fix: a trailing LIME record could change the extents
 of the lattice that was read

---
 src/Wrappers/GLUlib_wrap.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index 8635c3f..dc2fbc2 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -167,7 +167,18 @@ read_file( struct head_data *HEAD_DATA ,
   // this is taken from the bottom of the file
   if( Latt.head == SCIDAC_HEADER || Latt.head == ILDG_SCIDAC_HEADER ||
       Latt.head == ILDG_BQCD_HEADER ) {
+    size_t dims[ ND ] , mu ;
+    memcpy( dims , Latt.dims , sizeof( dims ) ) ;
     get_header_data_SCIDAC( infile , &tmp ) ;
+    // it cannot be about another lattice than the one we have read
+    for( mu = 0 ; mu < ND ; mu++ ) {
+      if( Latt.dims[ mu ] != dims[ mu ] ) {
+	fprintf( stderr , "[IO] Trailing header is of another lattice\n" ) ;
+	close_file( infile ) ;
+	free_lat( lat ) ;
+	return NULL ;
+      }
+    }
   }
 
   // have a look at some available checks
-- 
2.43.0


From 276f3eb1be7ddd3ce843831040dc297ff35c157e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:01 +0000
Subject: [PATCH 094/101] fix: Coulomb gauge fixing freed what it had not
 allocated on a lattice of one spatial site

---
 src/Geometry/draughtboard.c | 1 +
 src/Gfix/CGalloc.c          | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/Geometry/draughtboard.c b/src/Geometry/draughtboard.c
index a46c9e9..a2fded3 100644
--- a/src/Geometry/draughtboard.c
+++ b/src/Geometry/draughtboard.c
@@ -87,6 +87,7 @@ init_cb( struct draughtboard *db ,
   
   // set the counters to zero
   for( i = 0 ; i < db -> Ncolors ; i++ ) {
+    db -> square[i]  = NULL ;
     db -> Nsquare[i] = 0 ;
   }
 
diff --git a/src/Gfix/CGalloc.c b/src/Gfix/CGalloc.c
index b644877..58f9c23 100644
--- a/src/Gfix/CGalloc.c
+++ b/src/Gfix/CGalloc.c
@@ -32,6 +32,10 @@ allocate_temp_cg( struct gauges *G ,
 {
   GLU_bool FLAG = GLU_FALSE ;
   size_t i ;
+  // what we fail to get to must be safe to free
+  G -> g = NULL ; G -> g_end = NULL ; G -> g_up = NULL ;
+  CG -> sn = NULL ; CG -> in_old = NULL ;
+  CG -> db.Ncolors = 0 ; CG -> db.square = NULL ; CG -> db.Nsquare = NULL ;
   if( ( CG -> red = calloc( LINE_NSTEPS + CLINE * Latt.Nthreads , sizeof( double ) ) ) == NULL ) {
     FLAG = GLU_TRUE ;  goto end ;
   }
-- 
2.43.0


From 62cbdacd43aadc37594677c92d86cb0f4f272f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:23 +0000
Subject: [PATCH 095/101] fix: all threads wrote the number of threads

---
 src/Geometry/init.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Geometry/init.c b/src/Geometry/init.c
index d85fd70..6bb75bc 100644
--- a/src/Geometry/init.c
+++ b/src/Geometry/init.c
@@ -71,7 +71,10 @@ init_latt( void )
   // set the global number of threads we will use
 #if (defined _OPENMP ) && (defined HAVE_OMP_H)
   #pragma omp parallel
-  { Latt.Nthreads = omp_get_num_threads( ) ; }
+  {
+    #pragma omp master
+    { Latt.Nthreads = omp_get_num_threads( ) ; }
+  }
 #else
   Latt.Nthreads = 1 ;
 #endif
-- 
2.43.0


From 5d8edf2f6f2c2de7fa49917f3740247f2d09f464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:29 +0000
Subject: [PATCH 096/101] fix: the largest gauge-fixing measure was read
 outside of its lock

---
 src/Gfix/gftests.c | 55 +++++++---------------------------------------
 1 file changed, 8 insertions(+), 47 deletions(-)

diff --git a/src/Gfix/gftests.c b/src/Gfix/gftests.c
index 14229d0..80fc648 100755
--- a/src/Gfix/gftests.c
+++ b/src/Gfix/gftests.c
@@ -25,12 +25,6 @@
 #include "lin_derivs.h" // Hermitian approximation derivatives
 #include "log_derivs.h" // Logarithmic field definition derivatives
 
-// the one with the openmp locks, just an excuse to try this out to be honest
-#if ( defined HAVE_OMP_H ) && ( defined _OPENMP )
-   #define GLU_OMP_MEAS
-   #include <omp.h>
-#endif
-
 // look at constant-ness of our gauge fields in all directions
 void
 const_time( const struct site *__restrict lat ,
@@ -218,12 +212,8 @@ theta_test_lin( const struct site *__restrict lat ,
 {
   double tr = 0. ; 
   size_t i ; 
-  *max = 0. ;
-  #ifdef GLU_OMP_MEAS
-  omp_lock_t writelock ;
-  omp_init_lock( &writelock ) ;
-  #endif
-#pragma omp parallel for private(i) reduction(+:tr)
+  double loc_max = 0. ;
+#pragma omp parallel for private(i) reduction(+:tr) reduction(max:loc_max)
   for( i = 0 ; i < LVOLUME ; i++ ) {
     GLU_complex temp[ HERMSIZE ] ;
     size_t mu ;
@@ -233,19 +223,9 @@ theta_test_lin( const struct site *__restrict lat ,
     register double res = latt_deriv_AntiHermitian_proj( temp , lat , 
 							 i , MAX_DIR ) ; 
     tr = tr + (double)res ; 
-    #ifdef GLU_OMP_MEAS
-    if( res > *max ) { 
-      omp_set_lock( &writelock ) ;
-      if( res > *max ) { *max = res ; }
-      omp_unset_lock( &writelock ) ;
-    } 
-    #else
-    if( res > *max ) { *max = res ; } 
-    #endif
+    if( res > loc_max ) { loc_max = res ; }
   }
-  #ifdef GLU_OMP_MEAS
-  omp_destroy_lock( &writelock ) ;
-  #endif
+  *max = loc_max ;
   return 2. * tr / (double)( NC * LVOLUME ) ;
 }
 
@@ -257,12 +237,8 @@ theta_test_log( const struct site *__restrict lat ,
 {
   double tr = 0. ; 
   size_t i ; 
-  *max = 0. ; 
-  #ifdef GLU_OMP_MEAS
-  omp_lock_t writelock ;
-  omp_init_lock( &writelock ) ;
-  #endif
-  #pragma omp parallel for private(i) reduction(+:tr) 
+  double loc_max = 0. ;
+  #pragma omp parallel for private(i) reduction(+:tr) reduction(max:loc_max)
   for( i = 0 ; i < LVOLUME ; i++ ) {
     GLU_complex temp[ HERMSIZE ] ; 
     size_t mu ;
@@ -273,23 +249,8 @@ theta_test_log( const struct site *__restrict lat ,
     register const double res = log_deriv( temp , &functional , lat ,
 					   i , MAX_DIR ) ; 
     tr = tr + (double)res ; 
-    #ifdef GLU_OMP_MEAS
-    if( res > *max ) { 
-      omp_set_lock( &writelock ) ;
-      if( res > *max ) { *max = res ; }
-      omp_unset_lock( &writelock ) ;
-    } 
-    #else
-    if( res > *max ) { *max = res ; } 
-    #endif
+    if( res > loc_max ) { loc_max = res ; }
   }
-  #ifdef GLU_OMP_MEAS
-  omp_destroy_lock( &writelock ) ;
-  #endif
+  *max = loc_max ;
   return 2. * tr / ( NC * LVOLUME ) ; 
 }
-
-// and clean it up
-#ifdef GLU_OMP_MEAS
-  #undef GLU_OMP_MEAS
-#endif
-- 
2.43.0


From 12b7226b323ad55c756564b53142c0660a1d5e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:37 +0000
Subject: [PATCH 097/101] fix: unsynchronised writes in the conjugate gradient
 gauge fixing

---
 src/Gfix/CFACG.c |  1 +
 src/Gfix/FACG.c  | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Gfix/CFACG.c b/src/Gfix/CFACG.c
index 8f62d36..d1a1b3d 100755
--- a/src/Gfix/CFACG.c
+++ b/src/Gfix/CFACG.c
@@ -330,6 +330,7 @@ steep_step_FACG( GLU_complex **gauge ,
 
   // set everything to zero
   insum = sum_conj =  trAA = 0.0 ;
+  #pragma omp for private(k)
   for( k = 0 ; k < LINE_NSTEPS + CLINE*Latt.Nthreads ; k++ ) {
     CG.red[ k ] = 0.0 ;
   }
diff --git a/src/Gfix/FACG.c b/src/Gfix/FACG.c
index 6787d80..27f572b 100755
--- a/src/Gfix/FACG.c
+++ b/src/Gfix/FACG.c
@@ -226,7 +226,10 @@ steep_Landau_FASD( struct site *lat ,
   for( k = 0 ; k < Latt.Nthreads ; k++ ) {
     trAA += CG -> red[ LINE_NSTEPS + 2 + k*CLINE ] ;
   }
-  *tr = trAA * GFNORM_LANDAU ;
+  #pragma omp single
+  {
+    *tr = trAA * GFNORM_LANDAU ;
+  }
 
   loc_iters++ ;
   
@@ -252,7 +255,10 @@ steep_Landau_FACG( struct site *lat ,
   for( k = 0 ; k < Latt.Nthreads ; k++ ) {
     trAA += CG -> red[ LINE_NSTEPS + 2 + k*CLINE ] ;
   }
-  *tr = trAA * GFNORM_LANDAU ;
+  #pragma omp single
+  {
+    *tr = trAA * GFNORM_LANDAU ;
+  }
   
   size_t i ;
 #pragma omp for private(i)
@@ -289,7 +295,10 @@ steep_Landau_FACG( struct site *lat ,
   for( k = 0 ; k < Latt.Nthreads ; k++ ) {
     trAA += CG -> red[ LINE_NSTEPS + 2 + k*CLINE ] ;
   }
-  *tr = trAA * GFNORM_LANDAU ;
+  #pragma omp single
+  {
+    *tr = trAA * GFNORM_LANDAU ;
+  }
   
   // and FA
   FOURIER_ACCELERATE3( FFTW ) ;
-- 
2.43.0


From 60e4f6a29dd4934151c7a0beb09b2c5d30daf1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:48 +0000
Subject: [PATCH 098/101] fix: compare both of the checksums of MILC and SCIDAC
 files

---
 src/Gfix/Landau.c          |  4 ++--
 src/Headers/read_config.h  |  8 ++++----
 src/Headers/readers.h      |  4 ++--
 src/IO/XML_info.c          |  9 ++++++++-
 src/IO/read_config.c       | 24 +++++++++++++-----------
 src/IO/readers.c           | 12 ++++++++----
 src/Wrappers/GLUlib_wrap.c |  4 ++--
 7 files changed, 39 insertions(+), 26 deletions(-)

diff --git a/src/Gfix/Landau.c b/src/Gfix/Landau.c
index 0789e63..4d6d326 100755
--- a/src/Gfix/Landau.c
+++ b/src/Gfix/Landau.c
@@ -259,7 +259,7 @@ grab_file( struct site *lat ,
     return GLU_SUCCESS ;
   }
   struct head_data HEAD_DATA ;
-  uint32_t chksum ;
+  uint32_t chksum[2] ;
   FILE *config = fopen( infile , "rb" ) ;
   if( config == NULL ) {
     fprintf( stderr , "[IO] cannot open %s again\n" , infile ) ;
@@ -267,7 +267,7 @@ grab_file( struct site *lat ,
   }
   // assume the chksum is correct
   if( read_header( config , &HEAD_DATA , GLU_FALSE ) == GLU_FAILURE ||
-      get_config_SUNC( config , lat , HEAD_DATA , infile , &chksum ) == GLU_FAILURE ) {
+      get_config_SUNC( config , lat , HEAD_DATA , infile , chksum ) == GLU_FAILURE ) {
     printf( "[IO] binary file read error \n" ) ;
     fclose( config ) ;
     return GLU_FAILURE ;
diff --git a/src/Headers/read_config.h b/src/Headers/read_config.h
index 4879c1a..4c15729 100755
--- a/src/Headers/read_config.h
+++ b/src/Headers/read_config.h
@@ -24,10 +24,10 @@
 #define GLU_READ_CONFIG
 
 /**
-   @fn int checks( struct site *__restrict lat , uint32_t chksum , struct head_data HEAD_DATA )
+   @fn int checks( struct site *__restrict lat , const uint32_t chksum[2] , struct head_data HEAD_DATA )
    @brief perform a calculation/check of some checksums against the header ...
    @param lat :: lattice gauge field
-   @param chksum :: the checksum
+   @param chksum :: the checksums
    @param HEAD_DATA :: the header data we compare to
 
    @warning I am optimistic here, I only claim we are a #GLU_FAILURE if all the checksums fail
@@ -35,7 +35,7 @@
  **/
 int 
 checks( struct site *__restrict lat , 
-	uint32_t chksum ,
+	const uint32_t chksum[2] ,
 	struct head_data HEAD_DATA ) ;
 
 /**
@@ -45,7 +45,7 @@ checks( struct site *__restrict lat ,
    @param lat :: the lattice gauge field being read
    @param HEAD_DATA :: uses the header data
    @param config_in :: file
-   @param chksum :: the checksum of the data read
+   @param chksum :: the two checksums of the data read
    @returns #GLU_SUCCESS or #GLU_FAILURE
  **/
 int
diff --git a/src/Headers/readers.h b/src/Headers/readers.h
index 90ab54d..e5205c1 100755
--- a/src/Headers/readers.h
+++ b/src/Headers/readers.h
@@ -29,7 +29,7 @@
    @param lat :: lattice gauge field
    @param in :: NERSC configuration being read
    @param HEAD_DATA :: the header data
-   @param chksum :: the checksum of the data read
+   @param chksum :: the two checksums of the data read
 
    @returns #GLU_SUCCESS or #GLU_FAILURE
  **/
@@ -45,7 +45,7 @@ lattice_reader_suNC( struct site *__restrict lat ,
    @param lat :: lattice gauge field
    @param in :: NERSC configuration being read
    @param HEAD_DATA :: the header data
-   @param chksum :: the checksum of the data read
+   @param chksum :: the two checksums of the data read
 
    @returns #GLU_SUCCESS or #GLU_FAILURE
  **/
diff --git a/src/IO/XML_info.c b/src/IO/XML_info.c
index d47595f..dfa3961 100755
--- a/src/IO/XML_info.c
+++ b/src/IO/XML_info.c
@@ -201,7 +201,7 @@ parse_and_set_xml_SCIDAC( char *xml_info ,
 	continue ;
       }
 
-      // I just take the first checksum ...
+      // and both of the checksums
       if( are_equal( pch , "suma" ) ) {
 	while( ( pch = strtok( 0 , "<>" ) ) ) {
 	  if( are_equal( pch , "/suma" ) ) break ;
@@ -209,6 +209,13 @@ parse_and_set_xml_SCIDAC( char *xml_info ,
 	}
 	continue ;
       }
+      if( are_equal( pch , "sumb" ) ) {
+	while( ( pch = strtok( 0 , "<>" ) ) ) {
+	  if( are_equal( pch , "/sumb" ) ) break ;
+	  sscanf( pch , "%x" , &(HEAD_DATA -> checksumb) ) ;
+	}
+	continue ;
+      }
 
       ////////////////////////  ILDG SPECIFIC TAGS ////////////////////
       // If I were to make up a format it would be exactly the       //
diff --git a/src/IO/read_config.c b/src/IO/read_config.c
index 7945a99..0a6bf07 100755
--- a/src/IO/read_config.c
+++ b/src/IO/read_config.c
@@ -34,7 +34,7 @@
 static int 
 check_sums( const double plaq , 
 	    const double tr ,
-	    const uint32_t chksum ,
+	    const uint32_t chksum[2] ,
 	    const struct head_data HEAD_DATA )
 {
   double TTOL = 0.0 ;
@@ -46,10 +46,12 @@ check_sums( const double plaq ,
   case MILC_HEADER :
   case ILDG_SCIDAC_HEADER :
   case SCIDAC_HEADER :
-    // do a check only on the sum29
-    if( chksum != HEAD_DATA.checksum )  {
-      fprintf( stderr , "\n[IO] Unequal checksums [Calc] %x [Read] %x \n\n" , 
-	       chksum , HEAD_DATA.checksum ) ; 
+    // check both the sum29 and the sum31, neither sees everything on its own
+    if( chksum[0] != HEAD_DATA.checksum ||
+	chksum[1] != HEAD_DATA.checksumb )  {
+      fprintf( stderr , "\n[IO] Unequal checksums [Calc] %x %x [Read] %x %x \n\n" , 
+	       chksum[0] , chksum[1] ,
+	       HEAD_DATA.checksum , HEAD_DATA.checksumb ) ; 
       return GLU_FAILURE ;
     }
     break ;
@@ -65,9 +67,9 @@ check_sums( const double plaq ,
       return GLU_FAILURE ;
     }
     // and the CRC of the binary data
-    if( chksum != HEAD_DATA.checksum )  {
+    if( chksum[0] != HEAD_DATA.checksum )  {
       fprintf( stderr , "\n[IO] Unequal checksums Calc %x || Read %x \n\n" , 
-	       chksum , HEAD_DATA.checksum ) ; 
+	       chksum[0] , HEAD_DATA.checksum ) ; 
       return GLU_FAILURE ;
     }
     break ;
@@ -83,9 +85,9 @@ check_sums( const double plaq ,
     break ;
   case NERSC_HEADER :
     // it is disastrous if all three checks fail ...
-    if( chksum != HEAD_DATA.checksum )  {
+    if( chksum[0] != HEAD_DATA.checksum )  {
       fprintf( stderr , "\n[IO] Unequal checksums Calc %x || Read %x \n\n" , 
-	       chksum , HEAD_DATA.checksum ) ; 
+	       chksum[0] , HEAD_DATA.checksum ) ; 
       error ++ ; 
       // TOL is defined as 10^-6
     } if( !( fabs( plaq - HEAD_DATA.plaquette ) <= PLAQ_AND_TRACE_TOL ) ) {
@@ -125,7 +127,7 @@ check_sums( const double plaq ,
 // things that check the checksums //
 int
 checks( struct site *__restrict lat , 
-	uint32_t chksum ,
+	const uint32_t chksum[2] ,
 	struct head_data HEAD_DATA )
 {
   const double plaq = av_plaquette( lat ) ; 
@@ -141,7 +143,7 @@ get_config_SUNC( FILE *__restrict CONFIG ,
 		 const char *config_in ,
 		 uint32_t *chksum )
 {
-  *chksum = 0 ;
+  chksum[0] = chksum[1] = 0 ;
   switch( Latt.head ) {
   case LIME_HEADER : // is the same but doesn't care about the checksums
   case ILDG_BQCD_HEADER : // basically all the same NERSC NCxNC
diff --git a/src/IO/readers.c b/src/IO/readers.c
index cbf4db3..92ee56a 100755
--- a/src/IO/readers.c
+++ b/src/IO/readers.c
@@ -337,12 +337,14 @@ lattice_reader_suNC( struct site *lat ,
     free( uin ) ;
   }
 
+  // MILC and SCIDAC have a second checksum, of ranks mod 31
+  chksum[1] = 0 ;
   // if we are reading a MILC file we output the sum29 checksum
   switch( Latt.head ) {
   case NERSC_HEADER : *chksum = k ; return GLU_SUCCESS ;
-  case MILC_HEADER : *chksum = sum29 ; return GLU_SUCCESS ;
+  case MILC_HEADER : chksum[0] = sum29 ; chksum[1] = sum31 ; return GLU_SUCCESS ;
   case ILDG_SCIDAC_HEADER :
-  case SCIDAC_HEADER : *chksum = CRCsum29 ; return GLU_SUCCESS ;
+  case SCIDAC_HEADER : chksum[0] = CRCsum29 ; chksum[1] = CRCsum31 ; return GLU_SUCCESS ;
   case ILDG_BQCD_HEADER : *chksum = CRC_BQCD ; return GLU_SUCCESS ;
   case LIME_HEADER : 
   case JLQCD_HEADER : *chksum = 0 ; return GLU_SUCCESS ;
@@ -481,12 +483,14 @@ lattice_reader_suNC_cheaper( struct site *lat ,
     free( uin ) ;
   }
 
+  // MILC and SCIDAC have a second checksum, of ranks mod 31
+  chksum[1] = 0 ;
   // if we are reading a MILC file we output the sum29 checksum
   switch( Latt.head ) {
   case NERSC_HEADER : *chksum = k ; return GLU_SUCCESS ;
-  case MILC_HEADER : *chksum = sum29 ; return GLU_SUCCESS ;
+  case MILC_HEADER : chksum[0] = sum29 ; chksum[1] = sum31 ; return GLU_SUCCESS ;
   case ILDG_SCIDAC_HEADER :
-  case SCIDAC_HEADER : *chksum = CRCsum29 ; return GLU_SUCCESS ;
+  case SCIDAC_HEADER : chksum[0] = CRCsum29 ; chksum[1] = CRCsum31 ; return GLU_SUCCESS ;
   case ILDG_BQCD_HEADER : *chksum = CRC_BQCD ; return GLU_SUCCESS ;
   case LIME_HEADER : 
   case JLQCD_HEADER : *chksum = 0 ; return GLU_SUCCESS ;
diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index dc2fbc2..f61f03e 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -152,8 +152,8 @@ read_file( struct head_data *HEAD_DATA ,
 
   start_timer() ;
   fprintf( stdout , "[IO] Read gauge field\n" ) ; 
-  uint32_t chksum = 0 ;
-  const int check = get_config_SUNC( infile , lat , tmp , config_in , &chksum ) ;
+  uint32_t chksum[2] = { 0 , 0 } ;
+  const int check = get_config_SUNC( infile , lat , tmp , config_in , chksum ) ;
   print_time() ;
   // read in the configuration ...  
   if( check == GLU_FAILURE ) {
-- 
2.43.0


From 5912d766caea5a4122adef3bf2823258030203a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:22 +0000
Subject: [PATCH 099/101] fix: flow measurements that start at a later time do
 not end the flow

---
 src/Smear/wflow.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Smear/wflow.c b/src/Smear/wflow.c
index 5b92255..f9b10ee 100755
--- a/src/Smear/wflow.c
+++ b/src/Smear/wflow.c
@@ -130,7 +130,11 @@ flow_RK3( struct site *__restrict lat ,
 			err_est , lat ) ;
       flow_next = curr -> Gt ;
       #ifndef WFLOW_TIME_ONLY
-      wapprox = ( flow_next - flow ) * curr -> time / delta_t ;
+      // the derivative is of two successive measurements, of which the first
+      // is at t = 0 if we start measuring straight away
+      if( meas_count > 0 || count == 1 ) {
+	wapprox = ( flow_next - flow ) * curr -> time / delta_t ;
+      }
       #endif
       flow = flow_next ;
       head = curr ;
-- 
2.43.0


From c82680f73b545247cf58d3071a7e0c0a6631380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:37 +0000
Subject: [PATCH 100/101] fix: instanton links are the integral of the field
 along the link

---
 src/Geometry/BPST_config.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Geometry/BPST_config.c b/src/Geometry/BPST_config.c
index 4a9c94e..33f5957 100755
--- a/src/Geometry/BPST_config.c
+++ b/src/Geometry/BPST_config.c
@@ -35,10 +35,11 @@ Asing( GLU_real y[ ND ] , const GLU_real rho , int mu )
   int nu ;
   for( nu = 0 ; nu < ND ; nu++ ){
     if( nu != mu ){ sum += y[nu]*y[nu] ; }
-    sumr += y[nu] * y[nu] + y[nu];
+    sumr += y[nu] * y[nu] ;
   }
   sum = sqrt(sum + rho*rho);
-  sumr = sumr + rho*rho;
+  // the integral is along the link, only y[mu] changes
+  sumr = sumr + y[mu] + rho*rho;
   
   return atan2( sum , sumr ) / sum; 
 }
-- 
2.43.0


From 81e65050ea8b20806aedcd8ab4cc53d115b1cf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:31 +0000
Subject: [PATCH 101/101] fix: solve for the flow scales within their bracket

---
 src/Utils/GLU_splines.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/Utils/GLU_splines.c b/src/Utils/GLU_splines.c
index 18d16c6..b19db35 100755
--- a/src/Utils/GLU_splines.c
+++ b/src/Utils/GLU_splines.c
@@ -388,19 +388,25 @@ solve_spline( const double *__restrict x ,
   const double c = yp ;
   const double d = y[change_up-1] ;
 
-  //return cubic_solve( a , b , c , d , mu ) ;//* diff + x[change_up-1] ;
-  double complex Z[ 3 ] = { 0.0 , 0.0 , 0.0 } ;
-  cubic_solve( Z , a , b , c , d , mu ) ;
-
-  // should sanity-check the solution here too
-  size_t roots = 0 ;
-  for( roots = 0 ; roots < 3 ; roots++ ) {
-    const double sol = creal( Z[ roots ] ) * diff + x[ change_up - 1 ] ;
-    if( sol < x[ change_up ] && sol > x[ change_up - 1 ] ) {
-      return sol ;
-    }
+  // we need the target between the two points
+  if( !( ( d - mu ) * ( y[change_up] - mu ) < 0.0 ) ) return -1.0 ;
+
+  // Newton's method, with bisection wherever it would leave the bracket
+  const double sign = ( d < mu ) ? 1.0 : -1.0 ;
+  double low = 0.0 , high = 1.0 , t = 0.5 ;
+  size_t iters ;
+  for( iters = 0 ; iters < 200 ; iters++ ) {
+    const double f = d - mu + t * ( c + t * ( b + t * a ) ) ;
+    const double df = c + t * ( 2.0 * b + t * 3.0 * a ) ;
+    if( f * sign > 0.0 ) { high = t ; } else { low = t ; }
+    const double newton = t - f / df ;
+    const double next = ( newton > low && newton < high ) ?	\
+      newton : 0.5 * ( low + high ) ;
+    const double shift = fabs( next - t ) ;
+    t = next ;
+    if( shift < 1E-15 ) break ;
   }
-  return -1.0 ;
+  return t * diff + x[ change_up - 1 ] ;
 }
 
 #undef TWOPI
-- 
2.43.0

