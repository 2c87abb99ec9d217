// exponential, logarithms and projections
#include "shim.h"
#include <string.h>
#include "expMat.h"
#include "exactQ.h"
#include "gramschmidt.h"
#include "givens.h"
#include "taylor_logs.h"
#include "evalues.h"
#include "projectors.h"

#define OP(x) if( !strcmp( op , x ) )
static void rd( GLU_complex *a , const double *x , int n )
{ for( int i = 0 ; i < n ; i++ ) a[i] = x[2*i] + I*x[2*i+1] ; }
static void wr( double *x , const GLU_complex *a , int n )
{ for( int i = 0 ; i < n ; i++ ) { x[2*i] = creal( a[i] ) ; x[2*i+1] = cimag( a[i] ) ; } }

int z_herm( void ) { return HERMSIZE ; }

// n matrices in, n*k numbers out; returns k, -1 unknown, -2 input changed
int z_proj( const char *op , const double *x , const double *y , double s , double t , int n , double *out )
{
  int k = NCNC , ch = 0 ;
  for( int i = 0 ; i < n ; i++ ) {
    GLU_complex a[ NCNC ] GLUalign , b[ NCNC ] GLUalign , r[ NCNC ] GLUalign , a0[ NCNC ] , b0[ NCNC ] ;
    double d[ NC ] ; double complex z[ NC ] ;
    rd( a , x + 2*NCNC*i , NCNC ) ; rd( b , y + 2*NCNC*i , NCNC ) ;
    memcpy( a0 , a , sizeof( a ) ) ; memcpy( b0 , b , sizeof( b ) ) ;
    for( int j = 0 ; j < NCNC ; j++ ) r[j] = 1E30 + I*1E30 ;
    int bmay = 0 ;
    OP( "exponentiate" ) exponentiate( r , a ) ;
    else OP( "exponentiate_short" ) exponentiate_short( r , a ) ;
    else OP( "exact_log_slow" ) exact_log_slow( r , a ) ;
    else OP( "exact_log_slow_short" ) { exact_log_slow_short( r , a ) ; k = HERMSIZE ; }
#if NC < 4
    else OP( "get_iQ" ) get_iQ( r , a ) ;
    else OP( "Eigenvalues_suNC" ) { Eigenvalues_suNC( z , a ) ; for( int j = 0 ; j < NC ; j++ ) r[j] = z[j] ; k = NC ; }
#endif
    else OP( "brute_force_log" ) brute_force_log( r , a , NC ) ;
    else OP( "Eigenvalues_hermitian" ) { Eigenvalues_hermitian( d , a ) ; for( int j = 0 ; j < NC ; j++ ) r[j] = d[j] ; k = NC ; }
    else OP( "Hermitian_proj" ) Hermitian_proj( r , a ) ;
    else OP( "Hermitian_proj_short" ) { Hermitian_proj_short( r , a ) ; k = HERMSIZE ; }
    else OP( "AntiHermitian_proj" ) AntiHermitian_proj( r , a ) ;
    else OP( "AntiHermitian_proj_short" ) { AntiHermitian_proj_short( r , a ) ; k = HERMSIZE ; }
    else OP( "trf_AntiHermitian_proj" ) trf_AntiHermitian_proj( r , a ) ;
    else OP( "gram_reunit" ) { memcpy( r , a , sizeof( a ) ) ; gram_reunit( r ) ; }
    else OP( "givens_reunit" ) { memcpy( r , a , sizeof( a ) ) ; givens_reunit( r ) ; }
    else OP( "nape_reunit" ) { memcpy( r , a , sizeof( a ) ) ; nape_reunit( r ) ; }
    else OP( "project_APE" ) { bmay = 1 ; project_APE( r , b , a , s , t ) ; }
    else OP( "project_STOUT" ) { bmay = 1 ; project_STOUT( r , b , a , s , t ) ; }
    else OP( "project_LOG" ) { bmay = 1 ; project_LOG( r , b , a , s , t ) ; }
    else return -1 ;
    if( memcmp( a , a0 , sizeof( a ) ) || ( !bmay && memcmp( b , b0 , sizeof( b ) ) ) ) ch = 1 ;
    wr( out + 2*k*i , r , k ) ;
  }
  return ch ? -2 : k ;
}
