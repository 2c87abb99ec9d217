#include "shim.h"
#include "Landau.h"
#include "Coulomb.h"
#include "Or.h"
#include "MAG.h"
#include "GF_wrap.h"
#include "gftests.h"

#include "par_rng.h"
size_t z_landau( struct site *lat , double acc , size_t iters , const char *file ) { return Landau( lat , acc , iters , file ) ; }
size_t z_coulomb( struct site *lat , double acc , size_t iters ) { return Coulomb( lat , acc , iters ) ; }
size_t z_orlandau( struct site *lat , double *th , size_t it , double acc , double w ) { return OrLandau( lat , th , it , acc , w ) ; }
size_t z_orcoulomb( struct site *lat , double *th , size_t it , double acc , double w ) { return OrCoulomb( lat , th , it , acc , w ) ; }
int z_axial( struct site *lat , size_t dir ) { return axial_gauge( lat , dir ) ; }
int z_mag( struct site *lat ) { return mag( lat ) ; }
int z_residual( struct site *lat ) { return residual_fix( lat ) ; }
int z_gfwrap( struct site *lat , const char *file , int type , double acc , size_t iters )
{
  struct gf_info g ;
  memset( &g , 0 , sizeof(g) ) ;
  g.type = type ; g.accuracy = acc ; g.max_iters = iters ;
  return GF_wrap( file , lat , g ) ;
}
double z_functional( struct site *lat ) { return gauge_functional( lat ) ; }
double z_theta_lin( struct site *lat , double *max , size_t dir ) { GLU_real m ; const double t = theta_test_lin( lat , &m , dir ) ; *max = m ; return t ; }
double z_theta_log( struct site *lat , double *max , size_t dir ) { GLU_real m ; const double t = theta_test_log( lat , &m , dir ) ; *max = m ; return t ; }
void z_const_time( struct site *lat , double *a , double *b ) { const_time( lat , a , b ) ; }
double z_slice_functional( struct site *lat , GLU_complex **g , size_t t ) { return gtrans_functional( lat , (const GLU_complex**)g , t ) ; }
double z_gauge_test( GLU_complex **g ) { return gauge_test( (const GLU_complex**)g ) ; }
int z_write( struct site *lat , const char *file , int storage ) { return write_configuration( lat , file , storage , "gf" ) ; }
