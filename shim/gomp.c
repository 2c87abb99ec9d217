// a small OpenMP runtime on POSIX threads that ThreadSanitizer can follow: every
// region starts and joins its threads, work is handed out with relaxed atomics
// only (which order nothing), and threads are delayed at random at all the places
// where their order is left to chance
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

typedef unsigned long long ull ;
#define SLOTS 64
struct work { long gen ; ull next , end , incr , chunk ; int init ; long sections ; } ;
struct team {
  int n ;
  pthread_mutex_t m ; pthread_cond_t c ; int arrived ; unsigned gen ;
  pthread_mutex_t wm ; struct work w[ SLOTS ] ;
  long single ; void *copy ;
  void (*fn)( void* ) ; void *data ;
  ull order ;
} ;
struct self { struct team *team ; int id ; long nwork , nsingle ; ull rnd ; } ;
static __thread struct self *me = NULL ;
static int nthreads = -1 , delays = 0 ;
static ull seed0 = 1 , regions = 0 , barriers = 0 , steps = 0 ;
static pthread_mutex_t atomic_m = PTHREAD_MUTEX_INITIALIZER , critical_m = PTHREAD_MUTEX_INITIALIZER , log_m = PTHREAD_MUTEX_INITIALIZER ;
#define NSEEN 65536
static ull seen[ NSEEN ] ; static ull distinct = 0 ;

static ull rnd( struct self *s ) { s->rnd ^= s->rnd << 13 ; s->rnd ^= s->rnd >> 7 ; s->rnd ^= s->rnd << 17 ; return s->rnd ; }
static void delay( void )
{
  if( me == NULL || delays == 0 ) return ;
  const ull r = rnd( me ) ;
  switch( r & 15 ) {
  case 0 : case 1 : usleep( 1 + ( ( r >> 8 ) % 60 ) ) ; break ;
  case 2 : usleep( ( r >> 8 ) % ( delays * 100 ) ) ; break ;
  case 3 : case 4 : case 5 : sched_yield( ) ; break ;
  default : break ;
  }
}
// how many different orders of arrival there were
static void note( ull h )
{
  pthread_mutex_lock( &log_m ) ;
  barriers++ ;
  ull i = ( h * 0x9E3779B97F4A7C15ull ) >> 48 ;
  for( int k = 0 ; k < 64 ; k++ , i = ( i + 1 ) % NSEEN ) {
    if( seen[i] == h ) break ;
    if( seen[i] == 0 ) { seen[i] = h ; distinct++ ; break ; }
  }
  pthread_mutex_unlock( &log_m ) ;
}
static void finish( void )
{
  const char *f = getenv( "GLU_GOMP_LOG" ) ;
  if( f == NULL ) return ;
  FILE *o = fopen( f , "w" ) ;
  if( o == NULL ) return ;
  fprintf( o , "%llu %llu %llu %llu\n" , regions , barriers , distinct , steps ) ;
  fclose( o ) ;
}
static void init( void )
{
  if( nthreads > 0 ) return ;
  const char *e = getenv( "OMP_NUM_THREADS" ) ; nthreads = e ? atoi( e ) : 4 ; if( nthreads < 1 ) nthreads = 1 ;
  e = getenv( "GLU_GOMP_SEED" ) ; if( e ) seed0 = strtoull( e , NULL , 10 ) ;
  e = getenv( "GLU_GOMP_DELAYS" ) ; delays = e ? atoi( e ) : 1 ;
  atexit( finish ) ;
}
static void team_barrier( struct self *s )
{
  struct team *t = s->team ;
  if( t->n == 1 ) return ;
  delay( ) ;
  pthread_mutex_lock( &t->m ) ;
  const unsigned g = t->gen ;
  t->order = ( t->order ^ (ull)( s->id + 1 ) ) * 1099511628211ull ;
  if( ++t->arrived == t->n ) {
    const ull h = t->order ^ (ull)t->n ; t->order = 14695981039346656037ull ;
    t->arrived = 0 ; t->gen++ ; pthread_cond_broadcast( &t->c ) ; pthread_mutex_unlock( &t->m ) ;
    note( h ) ;
  } else {
    while( g == t->gen ) pthread_cond_wait( &t->c , &t->m ) ;
    pthread_mutex_unlock( &t->m ) ;
  }
  delay( ) ;
}
static void *entry( void *p )
{
  me = p ; delay( ) ; me->team->fn( me->team->data ) ; delay( ) ;
  return NULL ;
}
void GOMP_parallel( void (*fn)( void* ) , void *data , unsigned n , unsigned flags )
{
  init( ) ;
  struct self *outer = me ;
  if( n == 0 ) n = (unsigned)nthreads ;
  if( outer != NULL && outer->team->n > 1 ) n = 1 ;
  struct team *t = calloc( 1 , sizeof( *t ) ) ;
  t->n = (int)n ; t->fn = fn ; t->data = data ; t->order = 14695981039346656037ull ;
  pthread_mutex_init( &t->m , NULL ) ; pthread_mutex_init( &t->wm , NULL ) ; pthread_cond_init( &t->c , NULL ) ;
  struct self *s = calloc( n , sizeof( *s ) ) ;
  pthread_t *th = calloc( n , sizeof( *th ) ) ;
  const ull region = __atomic_add_fetch( &regions , 1 , __ATOMIC_RELAXED ) ;
  for( unsigned i = 0 ; i < n ; i++ ) { s[i].team = t ; s[i].id = (int)i ; s[i].rnd = ( seed0 * 0x9E3779B97F4A7C15ull + region * 2654435761ull + i * 40503ull ) | 1 ; }
  for( unsigned i = 1 ; i < n ; i++ ) if( pthread_create( th + i , NULL , entry , s + i ) ) { fprintf( stderr , "gomp stub: no thread\n" ) ; _exit( 97 ) ; }
  entry( s ) ;
  for( unsigned i = 1 ; i < n ; i++ ) pthread_join( th[i] , NULL ) ;
  me = outer ;
  pthread_mutex_destroy( &t->m ) ; pthread_mutex_destroy( &t->wm ) ; pthread_cond_destroy( &t->c ) ;
  free( t ) ; free( s ) ; free( th ) ;
}
static struct team lone = { .n = 1 , .wm = PTHREAD_MUTEX_INITIALIZER } ; static struct self alone = { .team = &lone , .rnd = 1 } ;
static struct self *who( void ) { init( ) ; return me ? me : &alone ; }

void GOMP_barrier( void ) { team_barrier( who( ) ) ; }
bool GOMP_single_start( void )
{
  struct self *s = who( ) ; delay( ) ;
  long mine = s->nsingle++ ;
  return __atomic_compare_exchange_n( &s->team->single , &mine , mine + 1 , 0 , __ATOMIC_RELAXED , __ATOMIC_RELAXED ) ;
}
void *GOMP_single_copy_start( void )
{
  if( GOMP_single_start( ) ) return NULL ;
  team_barrier( who( ) ) ;
  return who( )->team->copy ;
}
void GOMP_single_copy_end( void *p ) { who( )->team->copy = p ; team_barrier( who( ) ) ; }
void GOMP_atomic_start( void ) { delay( ) ; pthread_mutex_lock( &atomic_m ) ; }
void GOMP_atomic_end( void ) { pthread_mutex_unlock( &atomic_m ) ; }
void GOMP_critical_start( void ) { delay( ) ; pthread_mutex_lock( &critical_m ) ; }
void GOMP_critical_end( void ) { pthread_mutex_unlock( &critical_m ) ; }
void GOMP_critical_name_start( void **p ) { (void)p ; delay( ) ; pthread_mutex_lock( &critical_m ) ; }
void GOMP_critical_name_end( void **p ) { (void)p ; pthread_mutex_unlock( &critical_m ) ; }

// work sharing: one slot per construct, set up by whoever comes first
static struct work *construct( struct self *s , ull start , ull end , ull incr , ull chunk )
{
  struct team *t = s->team ; const long g = ++s->nwork ; struct work *w = t->w + g % SLOTS ;
  pthread_mutex_lock( &t->wm ) ;
  if( w->gen != g ) { w->next = start ; w->end = end ; w->incr = incr ; w->chunk = chunk ? chunk : 1 ; __atomic_store_n( &w->gen , g , __ATOMIC_RELAXED ) ; }
  pthread_mutex_unlock( &t->wm ) ;
  return w ;
}
static bool take_long( struct self *s , long *a , long *b )
{
  struct work *w = s->team->w + s->nwork % SLOTS ; delay( ) ;
  const long incr = (long)w->incr , step = incr * (long)w->chunk , end = (long)w->end ;
  const long x = (long)__atomic_fetch_add( &w->next , (ull)step , __ATOMIC_RELAXED ) ;
  __atomic_fetch_add( &steps , 1 , __ATOMIC_RELAXED ) ;
  if( incr > 0 ? x >= end : x <= end ) return false ;
  long y = x + step ; if( incr > 0 ? y > end : y < end ) y = end ;
  *a = x ; *b = y ; return true ;
}
static bool take_ull( struct self *s , bool up , ull *a , ull *b )
{
  struct work *w = s->team->w + s->nwork % SLOTS ; delay( ) ;
  const ull step = w->incr * w->chunk , x = __atomic_fetch_add( &w->next , step , __ATOMIC_RELAXED ) ;
  __atomic_fetch_add( &steps , 1 , __ATOMIC_RELAXED ) ;
  if( up ) { if( x >= w->end ) return false ; ull y = x + step ; if( y > w->end ) y = w->end ; *a = x ; *b = y ; return true ; }
  if( (long long)x <= (long long)w->end ) return false ;
  long long y = (long long)( x + step ) ; if( y < (long long)w->end ) y = (long long)w->end ; *a = x ; *b = (ull)y ; return true ;
}
#define LONG_LOOP(NAME) \
bool GOMP_loop_##NAME##_start( long s , long e , long i , long c , long *a , long *b ) { struct self *m = who( ) ; construct( m , (ull)s , (ull)e , (ull)i , (ull)c ) ; return take_long( m , a , b ) ; } \
bool GOMP_loop_##NAME##_next( long *a , long *b ) { return take_long( who( ) , a , b ) ; }
#define LONG_LOOP_RT(NAME) \
bool GOMP_loop_##NAME##_start( long s , long e , long i , long *a , long *b ) { struct self *m = who( ) ; construct( m , (ull)s , (ull)e , (ull)i , 1 ) ; return take_long( m , a , b ) ; } \
bool GOMP_loop_##NAME##_next( long *a , long *b ) { return take_long( who( ) , a , b ) ; }
#define ULL_LOOP(NAME) \
static __thread bool up_##NAME ; \
bool GOMP_loop_ull_##NAME##_start( bool up , ull s , ull e , ull i , ull c , ull *a , ull *b ) { struct self *m = who( ) ; up_##NAME = up ; construct( m , s , e , i , c ) ; return take_ull( m , up , a , b ) ; } \
bool GOMP_loop_ull_##NAME##_next( ull *a , ull *b ) { return take_ull( who( ) , up_##NAME , a , b ) ; }
LONG_LOOP(dynamic) LONG_LOOP(guided) LONG_LOOP(static) LONG_LOOP(nonmonotonic_dynamic) LONG_LOOP(nonmonotonic_guided)
LONG_LOOP_RT(runtime) LONG_LOOP_RT(nonmonotonic_runtime) LONG_LOOP_RT(maybe_nonmonotonic_runtime)
ULL_LOOP(dynamic) ULL_LOOP(guided) ULL_LOOP(static) ULL_LOOP(nonmonotonic_dynamic) ULL_LOOP(nonmonotonic_guided)
void GOMP_loop_end( void ) { team_barrier( who( ) ) ; }
void GOMP_loop_end_nowait( void ) { }
#define PARALLEL_LOOP(NAME) \
void GOMP_parallel_loop_##NAME( void (*fn)( void* ) , void *d , unsigned n , long s , long e , long i , long c , unsigned flags ) ;
// combined constructs start the loop before the threads
struct combined { void (*fn)( void* ) ; void *d ; long s , e , i , c ; } ;
static void combined_entry( void *p ) { struct combined *q = p ; construct( who( ) , (ull)q->s , (ull)q->e , (ull)q->i , (ull)q->c ) ; q->fn( q->d ) ; }
#define COMBINED(NAME) void GOMP_parallel_loop_##NAME( void (*fn)( void* ) , void *d , unsigned n , long s , long e , long i , long c , unsigned flags ) { struct combined q = { fn , d , s , e , i , c } ; GOMP_parallel( combined_entry , &q , n , flags ) ; }
#define COMBINED_RT(NAME) void GOMP_parallel_loop_##NAME( void (*fn)( void* ) , void *d , unsigned n , long s , long e , long i , unsigned flags ) { struct combined q = { fn , d , s , e , i , 1 } ; GOMP_parallel( combined_entry , &q , n , flags ) ; }
COMBINED(dynamic) COMBINED(guided) COMBINED(static) COMBINED(nonmonotonic_dynamic) COMBINED(nonmonotonic_guided)
COMBINED_RT(runtime) COMBINED_RT(nonmonotonic_runtime) COMBINED_RT(maybe_nonmonotonic_runtime)
unsigned GOMP_sections_start( unsigned n ) { struct self *s = who( ) ; construct( s , 1 , n + 1 , 1 , 1 ) ; long a , b ; return take_long( s , &a , &b ) ? (unsigned)a : 0 ; }
unsigned GOMP_sections_next( void ) { long a , b ; return take_long( who( ) , &a , &b ) ? (unsigned)a : 0 ; }
void GOMP_sections_end( void ) { team_barrier( who( ) ) ; }
void GOMP_sections_end_nowait( void ) { }
void GOMP_parallel_sections( void (*fn)( void* ) , void *d , unsigned n , unsigned k , unsigned flags ) { struct combined q = { fn , d , 1 , k + 1 , 1 , 1 } ; GOMP_parallel( combined_entry , &q , n , flags ) ; }

int omp_get_thread_num( void ) { return who( )->id ; }
int omp_get_num_threads( void ) { return who( )->team->n ; }
int omp_get_max_threads( void ) { init( ) ; return nthreads ; }
int omp_get_num_procs( void ) { return 8 ; }
int omp_in_parallel( void ) { return who( )->team->n > 1 ; }
int omp_get_thread_limit( void ) { return 4096 ; }
int omp_get_level( void ) { return me != NULL ; }
void omp_set_num_threads( int n ) { init( ) ; if( n > 0 ) nthreads = n ; }
void omp_set_dynamic( int d ) { (void)d ; }
int omp_get_dynamic( void ) { return 0 ; }
void omp_set_nested( int d ) { (void)d ; }
void omp_set_schedule( int k , int c ) { (void)k ; (void)c ; }
double omp_get_wtime( void ) { struct timespec t ; clock_gettime( CLOCK_MONOTONIC , &t ) ; return t.tv_sec + 1e-9*t.tv_nsec ; }
// omp_lock_t has room for four bytes only
void omp_init_lock( int *l ) { __atomic_store_n( l , 0 , __ATOMIC_RELEASE ) ; }
void omp_destroy_lock( int *l ) { (void)l ; }
void omp_set_lock( int *l ) { delay( ) ; for( ;; ) { int z = 0 ; if( __atomic_compare_exchange_n( l , &z , 1 , 0 , __ATOMIC_ACQUIRE , __ATOMIC_RELAXED ) ) return ; sched_yield( ) ; } }
int omp_test_lock( int *l ) { int z = 0 ; return __atomic_compare_exchange_n( l , &z , 1 , 0 , __ATOMIC_ACQUIRE , __ATOMIC_RELAXED ) ; }
void omp_unset_lock( int *l ) { __atomic_store_n( l , 0 , __ATOMIC_RELEASE ) ; }
