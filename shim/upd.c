// heat bath, over-relaxation and the update driver
#include "shim.h"
#include "draughtboard.h"
#include "hb.h"
#include "relax.h"
#include "KPHB.h"
#include "SU2_rotate.h"

int u_nsub( void ) { return NSU2SUBGROUPS ; }
void u_only( int idx , const GLU_complex *U , const GLU_complex *S , GLU_complex *s , double *scale )
{
  GLU_complex s0 GLUalign , s1 GLUalign , u[ NCNC ] GLUalign , t[ NCNC ] GLUalign ;
  double sc GLUalign ;
  memcpy( u , U , sizeof( u ) ) ; memcpy( t , S , sizeof( t ) ) ;
  only_subgroup( &s0 , &s1 , &sc , u , t , idx ) ;
  s[0] = s0 ; s[1] = s1 ; *scale = sc ;
}
void u_micro( GLU_complex *s )
{
  GLU_complex s0 GLUalign = s[0] , s1 GLUalign = s[1] ;
  microcanonical( &s0 , &s1 ) ;
  s[0] = s0 ; s[1] = s1 ;
}
// which: 0 rotate, 1 left multiply, 2 right multiply by the dagger
void u_rot( int which , int idx , GLU_complex *U , const GLU_complex *s )
{
  GLU_complex u[ NCNC ] GLUalign ;
  memcpy( u , U , sizeof( u ) ) ;
  switch( which ) {
  case 0 : su2_rotate( u , s[0] , s[1] , idx ) ; break ;
  case 1 : shortened_su2_multiply( u , s[0] , s[1] , idx ) ; break ;
  default : shortened_su2_multiply_dag( u , s[0] , s[1] , idx ) ; break ;
  }
  memcpy( U , u , sizeof( u ) ) ;
}
static int make_cb( struct draughtboard *db )
{
#ifdef IMPROVED_SMEARING
  return init_improved_cb( db ) ;
#else
  return init_cb( db , LVOLUME , ND ) ;
#endif
}
int u_sweep( struct site *lat , double beta , int nhb , int nor , int n )
{
  struct draughtboard db ;
  if( make_cb( &db ) == GLU_FAILURE ) return -1 ;
  if( nhb ) initialise_par_rng( NULL ) ;
#pragma omp parallel
  for( int k = 0 ; k < n ; k++ ) {
    for( int i = 0 ; i < nhb ; i++ ) hb_lattice( lat , NC/beta , db ) ;
    for( int i = 0 ; i < nor ; i++ ) OR_lattice( lat , db ) ;
  }
  free_cb( &db ) ;
  return 0 ;
}
// updates only the links leaving one site
int u_site( struct site *lat , double beta , size_t site , int nhb , int nor )
{
  size_t one[1] = { site } , *sq[1] = { one } , nsq[1] = { 1 } ;
  struct draughtboard db ;
  memset( &db , 0 , sizeof( db ) ) ;
  db.Ncolors = 1 ; db.square = sq ; db.Nsquare = nsq ;
  if( nhb ) initialise_par_rng( NULL ) ;
#pragma omp parallel
  {
    for( int i = 0 ; i < nhb ; i++ ) hb_lattice( lat , NC/beta , db ) ;
    for( int i = 0 ; i < nor ; i++ ) OR_lattice( lat , db ) ;
  }
  return 0 ;
}
// ------- measurements written independently of the library's ------------
static void mul( GLU_complex *c , const GLU_complex *a , int da , const GLU_complex *b , int db )
{
  for( int i = 0 ; i < NC ; i++ ) for( int j = 0 ; j < NC ; j++ ) {
    GLU_complex s = 0 ;
    for( int k = 0 ; k < NC ; k++ )
      s += ( da ? conj( a[i+NC*k] ) : a[k+NC*i] )*( db ? conj( b[k+NC*j] ) : b[j+NC*k] ) ;
    c[j+NC*i] = s ;
  }
}
static size_t step( size_t i , int mu , int n )
{
  size_t str = 1 ;
  for( int k = 0 ; k < mu ; k++ ) str *= Latt.dims[k] ;
  const size_t L = Latt.dims[mu] , x = ( i/str )%L , y = ( x + L + n )%L ;
  return i + y*str - x*str ;
}
// o[0] mean Re tr P/N, o[1] mean C_F Re tr W beta/N, o[2] mean (beta/N)^2 tr H^2/2
// o[3] |mean Polyakov|, o[4] largest unitarity defect
static void measure( const struct site *lat , double beta , double *o )
{
  double pl = 0 , a = 0 , b = 0 , uni = 0 ;
  const double CF = ( NC*NC - 1. )/( 2.*NC ) ;
  for( size_t i = 0 ; i < LVOLUME ; i++ )
    for( int mu = 0 ; mu < ND ; mu++ ) {
      GLU_complex A[ NCNC ] , t[ NCNC ] , v[ NCNC ] , W[ NCNC ] ;
      for( int k = 0 ; k < NCNC ; k++ ) A[k] = 0 ;
      for( int nu = 0 ; nu < ND ; nu++ ) {
	if( nu == mu ) continue ;
	const size_t xn = step( i , nu , 1 ) , xm = step( i , mu , 1 ) ;
	mul( t , lat[i].O[nu] , 0 , lat[xn].O[mu] , 0 ) ;
	mul( v , t , 0 , lat[xm].O[nu] , 1 ) ;
	for( int k = 0 ; k < NCNC ; k++ ) A[k] += v[k] ;
	const size_t d = step( i , nu , -1 ) , dm = step( d , mu , 1 ) ;
	mul( t , lat[d].O[nu] , 1 , lat[d].O[mu] , 0 ) ;
	mul( v , t , 0 , lat[dm].O[nu] , 0 ) ;
	for( int k = 0 ; k < NCNC ; k++ ) A[k] += v[k] ;
      }
      mul( W , lat[i].O[mu] , 0 , A , 1 ) ;
      GLU_complex tr = 0 , H[ NCNC ] ;
      for( int k = 0 ; k < NC ; k++ ) tr += W[k*(NC+1)] ;
      for( int r = 0 ; r < NC ; r++ ) for( int c = 0 ; c < NC ; c++ )
	H[c+NC*r] = ( W[c+NC*r] - conj( W[r+NC*c] ) )/( 2.*I ) - ( r == c ? cimag( tr )/NC : 0 ) ;
      double h2 = 0 ;
      for( int k = 0 ; k < NCNC ; k++ ) h2 += creal( H[k] )*creal( H[k] ) + cimag( H[k] )*cimag( H[k] ) ;
      pl += creal( tr ) ;
      a += beta/NC*CF*creal( tr ) ;
      b += beta/NC*beta/NC*0.5*h2 ;
      mul( t , lat[i].O[mu] , 0 , lat[i].O[mu] , 1 ) ;
      for( int k = 0 ; k < NCNC ; k++ ) {
	const double e = cabs( t[k] - ( k%(NC+1) ? 0. : 1. ) ) ;
	if( !( e <= uni ) ) uni = e ;
      }
    }
  const double n = (double)LVOLUME*ND ;
  o[0] = pl/( n*NC*2*(ND-1) ) ; o[1] = a/n ; o[2] = b/n ; o[3] = uni ;
}
// therm sweeps, then nmeas measurements nsep sweeps apart; out[nmeas][4]
int u_chain( struct site *lat , double beta , int nhb , int nor , int therm , int nmeas , int nsep , double *out )
{
  if( u_sweep( lat , beta , nhb , nor , therm ) ) return -1 ;
  for( int m = 0 ; m < nmeas ; m++ ) {
    if( u_sweep( lat , beta , nhb , nor , nsep ) ) return -1 ;
    measure( lat , beta , out + 4*m ) ;
  }
  return 0 ;
}
int u_update( struct site *lat , double beta , size_t iters , size_t nmeas , size_t nor , size_t nsave , size_t therm ,
	      int cont , const char *traj , int storage , const char *details )
{
  struct hb_info H ;
  memset( &H , 0 , sizeof( H ) ) ;
  H.beta = beta ; H.iterations = iters ; H.Nmeasure = nmeas ; H.Nor = nor ; H.Nsave = nsave ; H.therm = therm ;
  H.continuation = cont ? GLU_TRUE : GLU_FALSE ;
  char *t = strdup( traj ) ;
  const int f = hb_update( lat , H , t , (GLU_output)storage , details ) ;
  free( t ) ;
  return f ;
}
struct site *u_read( const char *path , int head , int *st )
{
  struct head_data hd ;
  Latt.head = (header_mode)head ;
  struct site *lat = read_file( &hd , path ) ;
  *st = lat ? 0 : -1 ;
  return lat ;
}
int u_heatbath( const char *path , int head , double beta , size_t iters , size_t nmeas , size_t nor , size_t nsave , size_t therm ,
		int cont , int storage , const char *details )
{
  struct hb_info H ;
  memset( &H , 0 , sizeof( H ) ) ;
  H.beta = beta ; H.iterations = iters ; H.Nmeasure = nmeas ; H.Nor = nor ; H.Nsave = nsave ; H.therm = therm ;
  H.continuation = cont ? GLU_TRUE : GLU_FALSE ;
  Latt.head = (header_mode)head ;
  return heatbath( path , H , (GLU_output)storage , details ) ;
}
int u_write( struct site *lat , const char *path , int storage , const char *details )
{
  return write_configuration( lat , path , (GLU_output)storage , details ) ;
}
// n heat-bath hits of the links leaving one site; out[n][ND][NCNC] are U A^dagger afterwards
int u_pit( struct site *lat , double beta , size_t site , int n , GLU_complex *out )
{
  for( int m = 0 ; m < n ; m++ ) {
    u_site( lat , beta , site , 1 , 0 ) ;
    for( int mu = 0 ; mu < ND ; mu++ ) {
      GLU_complex A[ NCNC ] , t[ NCNC ] , v[ NCNC ] ;
      for( int k = 0 ; k < NCNC ; k++ ) A[k] = 0 ;
      for( int nu = 0 ; nu < ND ; nu++ ) {
	if( nu == mu ) continue ;
	const size_t xn = step( site , nu , 1 ) , xm = step( site , mu , 1 ) ;
	mul( t , lat[site].O[nu] , 0 , lat[xn].O[mu] , 0 ) ;
	mul( v , t , 0 , lat[xm].O[nu] , 1 ) ;
	for( int k = 0 ; k < NCNC ; k++ ) A[k] += v[k] ;
	const size_t d = step( site , nu , -1 ) , dm = step( d , mu , 1 ) ;
	mul( t , lat[d].O[nu] , 1 , lat[d].O[mu] , 0 ) ;
	mul( v , t , 0 , lat[dm].O[nu] , 0 ) ;
	for( int k = 0 ; k < NCNC ; k++ ) A[k] += v[k] ;
      }
      mul( out + NCNC*( mu + (size_t)ND*m ) , lat[site].O[mu] , 0 , A , 1 ) ;
    }
  }
  return 0 ;
}
