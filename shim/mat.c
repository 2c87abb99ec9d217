// every matrix kernel behind one call; inputs are copied to aligned storage
// and compared afterwards
#include "shim.h"
#include <string.h>
#include "LU.h"
#include "invert.h"
#include "lie_mats.h"

#define OP(x) if( !strcmp( op , x ) )
typedef GLU_complex M[ NCNC ] GLUalign ;

static void rd( GLU_complex *a , const double *x , int n )
{ for( int i = 0 ; i < n ; i++ ) a[i] = x[2*i] + I*x[2*i+1] ; }
static void wr( double *x , const GLU_complex *a , int n )
{ for( int i = 0 ; i < n ; i++ ) { x[2*i] = creal( a[i] ) ; x[2*i+1] = cimag( a[i] ) ; } }

// returns the number of complex numbers written to out, -1 unknown, -2 input changed
int z_mat( const char *op , const double *ia , const double *ib , const double *ic ,
	   double sr , double si , int n , double *out )
{
  GLU_complex a[ NCNC ] GLUalign , b[ NCNC ] GLUalign , c[ NCNC ] GLUalign , r[ NCNC ] GLUalign ;
  GLU_complex a0[ NCNC ] , b0[ NCNC ] , c0[ NCNC ] ;
  rd( a , ia , NCNC ) ; rd( b , ib , NCNC ) ; rd( c , ic , NCNC ) ;
  memcpy( a0 , a , sizeof( a ) ) ; memcpy( b0 , b , sizeof( b ) ) ; memcpy( c0 , c , sizeof( c ) ) ;
  for( int i = 0 ; i < NCNC ; i++ ) r[i] = 1E30 + I*1E30 ;
  const GLU_complex s = sr + I*si ;
  int k = NCNC , in = 7 ; // in: which inputs must be unchanged
  GLU_real gr = 1E30 ; double d = 1E30 ; GLU_complex z = 1E30 ;
  OP( "multab" ) multab( r , a , b ) ;
  else OP( "multab_dag" ) multab_dag( r , a , b ) ;
  else OP( "multabdag" ) multabdag( r , a , b ) ;
  else OP( "multab_dagdag" ) multab_dagdag( r , a , b ) ;
  else OP( "multab_suNC" ) multab_suNC( r , a , b ) ;
  else OP( "multab_dag_suNC" ) multab_dag_suNC( r , a , b ) ;
  else OP( "multabdag_suNC" ) multabdag_suNC( r , a , b ) ;
  else OP( "multab_dagdag_suNC" ) multab_dagdag_suNC( r , a , b ) ;
  else OP( "multab_atomic_left" ) { memcpy( r , a , sizeof( a ) ) ; multab_atomic_left( r , b ) ; }
  else OP( "multab_atomic_right" ) { memcpy( r , a , sizeof( a ) ) ; multab_atomic_right( r , b ) ; }
  else OP( "add_constant" ) { memcpy( r , a , sizeof( a ) ) ; add_constant( r , s ) ; }
  else OP( "a_plus_b" ) { memcpy( r , a , sizeof( a ) ) ; a_plus_b( r , b ) ; }
  else OP( "a_plus_CSxb" ) { memcpy( r , a , sizeof( a ) ) ; a_plus_CSxb( r , b , s ) ; }
  else OP( "a_plus_Sxb" ) { memcpy( r , a , sizeof( a ) ) ; a_plus_Sxb( r , b , sr ) ; }
  else OP( "a_plus_Sxbminc_short" ) { memcpy( r , a , sizeof( a ) ) ; a_plus_Sxbminc_short( r , sr , b , c ) ; k = HERMSIZE ; }
  else OP( "b_min_c" ) b_min_c( r , b , c ) ;
  else OP( "cofactor_transpose" ) { z = cofactor_transpose( r , a ) ; wr( out + 2*NCNC , &z , 1 ) ; }
  else OP( "dagger" ) dagger( r , a ) ;
  else OP( "transpose" ) transpose( r , a ) ;
  else OP( "det" ) { r[0] = det( a ) ; k = 1 ; }
  else OP( "speed_det" ) { speed_det( r , a ) ; k = 1 ; }
#if NC > 3
  else OP( "LU_det" ) { r[0] = LU_det( n , a ) ; k = 1 ; }
  else OP( "LU_det_overwrite" ) { r[0] = LU_det_overwrite( n , a ) ; k = 1 ; in = 6 ; }
#endif
  else OP( "diag" ) diag( r , s ) ;
  else OP( "diag_vect" ) diag_vect( r , a ) ;
  else OP( "equiv" ) equiv( r , a ) ;
  else OP( "identity" ) identity( r ) ;
  else OP( "zero_mat" ) zero_mat( r ) ;
  else OP( "is_unitary" ) { r[0] = is_unitary( a ) == GLU_TRUE ; k = 1 ; }
  else OP( "mat_mult_vec" ) { mat_mult_vec( r , a , b ) ; k = NC ; }
  else OP( "M_times_c" ) { memcpy( r , a , sizeof( a ) ) ; M_times_c( r , s ) ; }
  else OP( "matrix_power" ) matrix_power( r , a , n ) ;
  else OP( "outerproduct" ) outerproduct( r , a , b ) ;
  else OP( "pack_hermitian" ) { pack_hermitian( r , a ) ; k = HERMSIZE ; }
  else OP( "rebuild_hermitian" ) rebuild_hermitian( r , a ) ;
  else OP( "rebuild_antihermitian" ) rebuild_antihermitian( r , a ) ;
#if NC < 4
  else OP( "shortrebuild" ) { GLU_real t[ NCNC ] ; shorten( t , a ) ; rebuild( r , t ) ; }
#endif
  else OP( "speed_trace" ) { speed_trace( r , a ) ; k = 1 ; }
  else OP( "speed_trace_Re" ) { speed_trace_Re( &d , a ) ; r[0] = d ; k = 1 ; }
  else OP( "trace" ) { r[0] = trace( a ) ; k = 1 ; }
  else OP( "trace_ab" ) { trace_ab( r , a , b ) ; k = 1 ; }
  else OP( "trace_ab_dag" ) { trace_ab_dag( r , a , b ) ; k = 1 ; }
  else OP( "trace_ab_dag_Re" ) { trace_ab_dag_Re( &gr , a , b ) ; r[0] = gr ; k = 1 ; }
  else OP( "trace_ab_herm" ) { trace_ab_herm( &gr , a , b ) ; r[0] = gr ; k = 1 ; }
  else OP( "trace_ab_herm_short" ) { trace_ab_herm_short( &gr , a , b ) ; r[0] = gr ; k = 1 ; }
  else OP( "trace_prod_herm" ) { trace_prod_herm( &gr , a ) ; r[0] = gr ; k = 1 ; }
  else OP( "trace_abc" ) { trace_abc( r , a , b , c ) ; k = 1 ; }
  else OP( "trace_abc_dag" ) { trace_abc_dag( r , a , b , c ) ; k = 1 ; }
  else OP( "trace_abc_dag_Re" ) { trace_abc_dag_Re( &gr , a , b , c ) ; r[0] = gr ; k = 1 ; }
  else OP( "Re_trace_abc_dag_suNC" ) { r[0] = Re_trace_abc_dag_suNC( a , b , c ) ; k = 1 ; }
  else OP( "inverse" ) { z = inverse( r , a ) == GLU_SUCCESS || NC == 2 ; wr( out + 2*NCNC , &z , 1 ) ; }
  else OP( "ifabc" ) { r[0] = ifabc_ABC( a , b , c ) ; k = 1 ; }
  else OP( "dabc" ) { r[0] = dabc_ABC( a , b , c ) ; k = 1 ; }
  else OP( "ifabc_dabc" ) { r[0] = ifabc_dabc_ABC( a , b , c ) ; k = 1 ; }
  else return -1 ;
  wr( out , r , k ) ;
  if( ( in&1 && memcmp( a , a0 , sizeof( a ) ) ) || memcmp( b , b0 , sizeof( b ) ) ||
      memcmp( c , c0 , sizeof( c ) ) ) return -2 ;
  return k ;
}
void z_lie( int on )
{
  if( on ) { init_generators( ) ; compute_fs_and_ds( ) ; }
  else { free_f_and_d( ) ; free_generators( ) ; }
}
int z_herm( void ) { return HERMSIZE ; }
