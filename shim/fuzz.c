// libFuzzer target: a file of the format GLUFUZZ selects, or an input file
#include "Mainfile.h"
#include "geometry.h"
#include "GLUlib_wrap.h"
#include "input_reader.h"
#include <unistd.h>

static int head = 1 , input = 0 ;
static char path[ 64 ] ;

static void gone( void ) { unlink( path ) ; }

int LLVMFuzzerInitialize( int *argc , char ***argv )
{
  const char *t = getenv( "GLU_FUZZ" ) ;
  if( t != NULL && !strcmp( t , "input" ) ) { input = 1 ; } else if( t != NULL ) { head = atoi( t ) ; }
  snprintf( path , sizeof( path ) , "/dev/shm/glufuzz-%d" , (int)getpid() ) ;
  atexit( gone ) ;
  Latt.argc = 1 ;
  Latt.Nthreads = 1 ;
  return 0 ;
}

int LLVMFuzzerTestOneInput( const uint8_t *data , size_t n )
{
  FILE *f = fopen( path , "wb" ) ;
  if( f == NULL ) { return 0 ; }
  fwrite( data , 1 , n , f ) ;
  fclose( f ) ;
  int mu ;
  for( mu = 0 ; mu < ND ; mu++ ) { Latt.dims[ mu ] = 2 ; }
  if( input ) {
    struct infile_data in ;
    memset( &in , 0 , sizeof( in ) ) ;
    get_input_data( &in , path ) ;
  } else {
    struct head_data hd ;
    Latt.head = (header_mode)head ;
    Latt.flow = 77 ;
    struct site *lat = read_file( &hd , path ) ;
    if( lat != NULL ) { free_lat( lat ) ; }
  }
  return 0 ;
}
