// the quenched U(1) field
#include "shim.h"
#include "SUNCxU1_config.h"
#include "U1_obs.h"
#include "U1_top.h"

int x_cross( struct site *lat , double alpha , double charge , int meas )
{
  struct u1_info U = { .alpha = alpha , .charge = charge , .meas = meas == 2 ? U1_TOPOLOGICAL : meas == 1 ? U1_RECTANGLE : U1_PLAQUETTE } ;
  return suNC_cross_u1( lat , U ) == GLU_SUCCESS ? 0 : 1 ;
}
static GLU_complex **field( const double *A )
{
  GLU_complex **O = malloc( ND * sizeof( GLU_complex* ) ) ;
  for( int mu = 0 ; mu < ND ; mu++ ) {
    O[mu] = malloc( LVOLUME * sizeof( GLU_complex ) ) ;
    for( size_t i = 0 ; i < LVOLUME ; i++ ) O[mu][i] = A[ mu + ND*i ] ;
  }
  return O ;
}
static void clear( GLU_complex **O ) { for( int mu = 0 ; mu < ND ; mu++ ) { free( O[mu] ) ; } free( O ) ; }
void x_top( const double *A , int *m , int *d , double *q )
{
  GLU_complex **O = field( A ) ;
  U1_topological( m , d , q , (const GLU_complex**)O ) ;
  clear( O ) ;
}
void x_obs( const struct site *lat , const double *A , int meas )
{
  GLU_complex **O = field( A ) ;
  compute_U1_obs( (const GLU_complex**)O , lat , meas == 2 ? U1_TOPOLOGICAL : meas == 1 ? U1_RECTANGLE : U1_PLAQUETTE ) ;
  clear( O ) ;
}
