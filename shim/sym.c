#include "shim.h"
#include "gtrans.h"
#include "random_config.h"
#include "GLU_malloc.h"
// which 0: whole lattice, 1: inside a parallel region, 2: slice by slice, 3: slice by slice inside a parallel region
void z_gauge_transform( struct site *lat , GLU_complex **g , int which )
{
  const GLU_complex **c = (const GLU_complex**)g ;
  const size_t LT = Latt.dims[ND-1] ;
  if( which == 0 ) gtransform( lat , c ) ;
  else if( which == 1 ) {
    #pragma omp parallel
    { gtransform_th( lat , c ) ; }
  } else {
    for( size_t t = 0 ; t < LT ; t++ ) {
      const GLU_complex **a = c + LCU*t , **b = c + LCU*((t+1)%LT) ;
      if( which == 2 ) gtransform_slice( a , lat , b , t ) ;
      else {
        #pragma omp parallel
        { gtransform_slice_th( a , lat , b , t ) ; }
      }
    }
  }
}
void z_random( struct site *lat , GLU_complex **g ) { if( g ) random_transform( lat , g ) ; else random_gtrans( lat ) ; }
