#include "shim.h"
#include "draughtboard.h"
static struct draughtboard db ;
int s_cb( long length , long dir , long *color , long *count )
{
  // color[i] = colour of site i (or -1), count[i] = how often it is listed
  const int f = init_cb( &db , (size_t)length , (size_t)dir ) ;
  if( f == GLU_FAILURE ) return -1 ;
  for( long i = 0 ; i < length ; i++ ) { color[i] = -1 ; count[i] = 0 ; }
  for( size_t c = 0 ; c < db.Ncolors ; c++ )
    for( size_t j = 0 ; j < db.Nsquare[c] ; j++ ) {
      const size_t i = db.square[c][j] ;
      if( i >= (size_t)length ) return -2 ;
      color[i] = (long)c ; count[i]++ ;
    }
  const int n = (int)db.Ncolors ;
  free_cb( &db ) ;
  return n ;
}
// improved action: classes are listed per direction, color[mu+ND*i]
int s_icb( int *color , int *count )
{
  struct draughtboard d ;
  if( init_improved_cb( &d ) == GLU_FAILURE ) return -1 ;
  const size_t per = d.Ncolors/ND ;
  for( size_t c = 0 ; c < d.Ncolors ; c++ )
    for( size_t j = 0 ; j < d.Nsquare[c] ; j++ ) {
      const size_t i = d.square[c][j] ;
      if( i >= LVOLUME ) return -2 ;
      color[ c/per + ND*i ] = (int)c ; count[ c/per + ND*i ]++ ;
    }
  const int n = (int)d.Ncolors ;
  free_cb( &d ) ;
  return n ;
}
