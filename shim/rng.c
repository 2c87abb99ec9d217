#include "shim.h"
#include "random_config.h"
#include "gramschmidt.h"
int r_init( const char *file ) { return initialise_par_rng( file ) ; }
void r_free( void ) { free_par_rng( ) ; }
void r_write( const char *file ) { write_par_rng_state( file ) ; }
int r_read( const char *file ) { return read_par_rng_state( file ) ; }
void r_draw( double *out , long n , unsigned thread ) { for( long i = 0 ; i < n ; i++ ) out[i] = par_rng_dbl( thread ) ; }
// every thread draws its own stream at the same time; out[thread][n]
void r_par( double *out , long n )
{
#pragma omp parallel
  {
    const uint32_t t = get_GLU_thread( ) ;
    for( long i = 0 ; i < n ; i++ ) out[ t*n + i ] = par_rng_dbl( t ) ;
  }
}
void r_int( uint32_t *out , long n , unsigned thread ) { for( long i = 0 ; i < n ; i++ ) out[i] = par_rng_int( thread ) ; }
void r_polar( double *out , long n , unsigned thread ) { for( long i = 0 ; i < n ; i++ ) out[i] = par_polar( thread ) ; }
void r_box( GLU_complex *out , long n , unsigned thread ) { for( long i = 0 ; i < n ; i++ ) out[i] = par_polar_box( thread ) ; }
void r_sun( GLU_complex *out , long n , unsigned thread )
{
  for( long i = 0 ; i < n ; i++ ) {
    GLU_complex u[ NCNC ] GLUalign ;
    Sunitary_gen( u , thread ) ;
    memcpy( out + i*NCNC , u , sizeof( u ) ) ;
  }
}
void r_field( struct site *lat ) { random_suNC( lat ) ; }
void r_transform( struct site *lat , GLU_complex **g ) { random_transform( lat , g ) ; }
void r_gtrans( struct site *lat ) { random_gtrans( lat ) ; }
