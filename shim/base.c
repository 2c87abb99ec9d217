// set-up and data exchange shared by every check
#include "shim.h"
#include "GLU_malloc.h"
#include "random_config.h"
#include "par_rng.h"

int v_NC( void ) { return NC ; }
int v_ND( void ) { return ND ; }

static int attached = 0 ;

void v_setup( const int *dims , int nthreads , unsigned seed , int head )
{
  if( attached == 0 ) { attach_GLU( ) ; attached = 1 ; }
  else { free_par_rng( ) ; free_latt( ) ; Latt.su2_data = NULL ; }
#ifdef _OPENMP
  omp_set_dynamic( 0 ) ;
  omp_set_num_threads( nthreads ) ;
#endif
  for( size_t mu = 0 ; mu < ND ; mu++ ) Latt.dims[mu] = (size_t)dims[mu] ;
  Latt.Seed[0] = seed ;
  Latt.head = (header_mode)head ;
  Latt.flow = 0 ;
  init_latt( ) ;
}
void v_flow( size_t f ) { Latt.flow = f ; }
size_t v_getflow( void ) { return Latt.flow ; }
void v_seed( unsigned s ) { Latt.Seed[0] = s ; }
void v_gfalpha( double a ) { Latt.gf_alpha = a ; }
void v_smalpha( const double *a )
{
  for( size_t mu = 0 ; mu < ND-1 ; mu++ ) Latt.sm_alpha[mu] = a[mu] ;
}
void v_head( int h ) { Latt.head = h ; }
void v_argc( int a ) { Latt.argc = a ; }
void v_getdims( int *d ) { for( int mu = 0 ; mu < ND ; mu++ ) d[mu] = (int)Latt.dims[mu] ; }
size_t v_volume( void ) { return Latt.Volume ; }
int v_nthreads( void ) { return (int)Latt.Nthreads ; }

struct site *v_alloc( void ) { return allocate_lat( ) ; }
void v_free( struct site *lat ) { free_lat( lat ) ; }
void v_set( struct site *lat , const double *u )
{
  for( size_t i = 0 ; i < LVOLUME ; i++ )
    for( size_t mu = 0 ; mu < ND ; mu++ )
      for( size_t j = 0 ; j < NCNC ; j++ ) {
	const size_t k = 2*( j + NCNC*( mu + ND*i ) ) ;
	lat[i].O[mu][j] = u[k] + I*u[k+1] ;
      }
}
void v_get( const struct site *lat , double *u )
{
  for( size_t i = 0 ; i < LVOLUME ; i++ )
    for( size_t mu = 0 ; mu < ND ; mu++ )
      for( size_t j = 0 ; j < NCNC ; j++ ) {
	const size_t k = 2*( j + NCNC*( mu + ND*i ) ) ;
	u[k] = creal( lat[i].O[mu][j] ) ; u[k+1] = cimag( lat[i].O[mu][j] ) ;
      }
}
// per-site matrix fields (gauge transformations)
GLU_complex **v_galloc( const double *g )
{
  GLU_complex **p = malloc( LVOLUME*sizeof( GLU_complex* ) ) ;
  for( size_t i = 0 ; i < LVOLUME ; i++ ) {
    GLU_malloc( (void**)&p[i] , ALIGNMENT , NCNC*sizeof( GLU_complex ) ) ;
    for( size_t j = 0 ; j < NCNC ; j++ )
      p[i][j] = g ? g[2*(j+NCNC*i)] + I*g[2*(j+NCNC*i)+1] : 0.0 ;
  }
  return p ;
}
void v_gget( GLU_complex **p , double *g )
{
  for( size_t i = 0 ; i < LVOLUME ; i++ )
    for( size_t j = 0 ; j < NCNC ; j++ ) {
      g[2*(j+NCNC*i)] = creal( p[i][j] ) ; g[2*(j+NCNC*i)+1] = cimag( p[i][j] ) ;
    }
}
void v_gfree( GLU_complex **p )
{
  for( size_t i = 0 ; i < LVOLUME ; i++ ) free( p[i] ) ;
  free( p ) ;
}
void v_nav( const struct site *lat , long *nb , long *bk )
{
  for( size_t i = 0 ; i < LVOLUME ; i++ )
    for( size_t mu = 0 ; mu < ND ; mu++ ) {
      nb[mu+ND*i] = (long)lat[i].neighbor[mu] ;
      bk[mu+ND*i] = (long)lat[i].back[mu] ;
    }
}
void v_flush( void ) { fflush( stdout ) ; fflush( stderr ) ; }
