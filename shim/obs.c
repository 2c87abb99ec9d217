#include "shim.h"
#include "plaqs_links.h"
#include "POLY.h"
#include "OBS_wrap.h"
#include "clover.h"
#include "GLU_malloc.h"

void z_plaqs( struct site *lat , double *o )
{
  double sp = -9 , tp = -9 ;
  o[0] = all_plaquettes( lat , &sp , &tp ) ; o[1] = sp ; o[2] = tp ;
  o[3] = av_plaquette( lat ) ; o[4] = s_plaq( lat ) ; o[5] = t_plaq( lat ) ;
}
void z_links( struct site *lat , double *o )
{
  double sl = -9 , tl = -9 ; GLU_real mx = -9 ;
  o[0] = all_links( lat , &sl , &tl ) ; o[1] = sl ; o[2] = tl ;
  o[3] = links( lat ) ; o[4] = s_links( lat ) ; o[5] = t_links( lat ) ;
  o[6] = indivlinks( lat , &mx ) ; o[7] = mx ;
}
void z_poly( struct site *lat , double *o )
{
  for( size_t mu = 0 ; mu < ND ; mu++ ) {
    const double complex p = poly( lat , mu ) ;
    o[2*mu] = creal( p ) ; o[2*mu+1] = cimag( p ) ;
  }
}
// the versions called inside parallel regions; plaquette sum and loops
void z_th( struct site *lat , double *o )
{
  double *red = NULL , *red2 = NULL ;
  GLU_malloc( (void**)&red , 16 , CLINE*Latt.Nthreads*sizeof( double ) ) ;
  GLU_malloc( (void**)&red2 , 16 , CLINE*Latt.Nthreads*sizeof( double ) ) ;
  for( size_t i = 0 ; i < CLINE*Latt.Nthreads ; i++ ) { red[i] = 0.0 ; red2[i] = 0.0 ; }
  #pragma omp parallel
  {
    av_plaquette_th( red , lat ) ;
    for( size_t mu = 0 ; mu < ND ; mu++ ) poly_th( red2 , lat , mu ) ;
  }
  o[0] = 0.0 ;
  for( size_t mu = 0 ; mu < 2*ND ; mu++ ) o[1+mu] = 0.0 ;
  for( size_t i = 0 ; i < Latt.Nthreads ; i++ ) {
    o[0] += red[ 3 + CLINE*i ] ;
    for( size_t mu = 0 ; mu < 2*ND ; mu++ ) o[1+mu] += red2[ mu + CLINE*i ] ;
  }
  free( red ) ; free( red2 ) ;
}
void z_gauge( struct site *lat ) { gauge( lat ) ; }
// field strength sums (GG, q) of the parallel version
void z_gmunu( struct site *lat , double *o )
{
  double *red = NULL ;
  GLU_malloc( (void**)&red , 16 , CLINE*Latt.Nthreads*sizeof( double ) ) ;
  for( size_t i = 0 ; i < CLINE*Latt.Nthreads ; i++ ) red[i] = 0.0 ;
  #pragma omp parallel
  { compute_Gmunu_th( red , lat ) ; }
  o[0] = o[1] = 0.0 ;
  for( size_t i = 0 ; i < Latt.Nthreads ; i++ ) {
    o[0] += red[ 0 + CLINE*i ] ; o[1] += red[ 1 + CLINE*i ] ;
  }
  free( red ) ;
}
void z_qtop( struct site *lat , double *o )
{
  GLU_complex *q = NULL ;
  GLU_malloc( (void**)&q , 16 , LVOLUME*sizeof( GLU_complex ) ) ;
  compute_Gmunu_array( q , lat ) ;
  for( size_t i = 0 ; i < LVOLUME ; i++ ) { o[2*i] = creal( q[i] ) ; o[2*i+1] = cimag( q[i] ) ; }
  free( q ) ;
}
// per-iteration topological measurement as the smearing loops use it
int z_meas( struct site *lat , double *qnew , double *qold , long iter )
{
  double *red = NULL ; int f = -5 ;
  GLU_malloc( (void**)&red , 16 , CLINE*Latt.Nthreads*sizeof( double ) ) ;
  for( size_t i = 0 ; i < CLINE*Latt.Nthreads ; i++ ) red[i] = 0.0 ;
  #pragma omp parallel
  {
    double a = *qnew , b = *qold ;
    const int r = gauge_topological_meas_th( red , lat , &a , &b , (size_t)iter ) ;
    #pragma omp barrier
    #pragma omp master
    { *qnew = a ; *qold = b ; f = r ; }
  }
  free( red ) ;
  return f ;
}
