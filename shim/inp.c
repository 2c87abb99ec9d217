// the input file reader
#include "shim.h"
#include "input_reader.h"

#define IDX( x , ... ) ({ const int _l[] = { __VA_ARGS__ } ; int _k = -1 ; for( size_t _i = 0 ; _i < sizeof(_l)/sizeof(int) ; _i++ ) { if( _l[_i] == (int)( x ) ) { _k = (int)_i ; } } (double)_k ; })

// everything as doubles in the order of the settings, enumerations as places in the documented lists
int n_read( const char *file , double *v , char *where , char *info )
{
  struct infile_data in ;
  memset( &in , 0x5a , sizeof( in ) ) ;
  memset( in.CUTINFO.where , 0 , sizeof( in.CUTINFO.where ) ) ; memset( in.output_details , 0 , sizeof( in.output_details ) ) ;
  for( int mu = 0 ; mu < ND ; mu++ ) { Latt.dims[mu] = 77 ; }
  for( int mu = 0 ; mu < ND-1 ; mu++ ) { Latt.sm_alpha[mu] = -77 ; }
  Latt.flow = 77 ; Latt.gf_alpha = -77 ; Latt.Seed[0] = 77 ; Latt.head = UNSUPPORTED ;
  const int st = get_input_data( &in , file ) ;
  if( st == GLU_FAILURE ) return -1 ;
  int n = 0 ;
  v[n++] = IDX( in.mode , MODE_REWRITE , MODE_GF , MODE_CUTS , MODE_SMEARING , MODE_CROSS_U1 , MODE_HEATBATH ) ;
  v[n++] = IDX( in.head , NERSC_HEADER , HIREP_HEADER , MILC_HEADER , SCIDAC_HEADER , ILDG_SCIDAC_HEADER , ILDG_BQCD_HEADER , JLQCD_HEADER , LIME_HEADER , CERN_HEADER , RANDOM_CONFIG , UNIT_GAUGE , INSTANTON ) ;
  v[n++] = IDX( Latt.head , NERSC_HEADER , HIREP_HEADER , MILC_HEADER , SCIDAC_HEADER , ILDG_SCIDAC_HEADER , ILDG_BQCD_HEADER , JLQCD_HEADER , LIME_HEADER , CERN_HEADER , RANDOM_CONFIG , UNIT_GAUGE , INSTANTON ) ;
  v[n++] = Latt.flow ;
  v[n++] = in.rtrans == GLU_TRUE ;
  v[n++] = Latt.Seed[0] ;
  v[n++] = IDX( in.GFINFO.type , DEFAULT_NOFIX , GLU_AXIALT_FIX , GLU_COULOMB_FIX , GLU_COULOMB_RESIDUAL_FIX , GLU_LANDAU_FIX , GLU_MAG_FIX ) ;
  v[n++] = Latt.gf_alpha ;
  v[n++] = in.GFINFO.accuracy ;
  v[n++] = in.GFINFO.max_iters ;
  v[n++] = IDX( in.CUTINFO.dir , GLU_NOCUTS , EXCEPTIONAL , NONEXCEPTIONAL , FIELDS , SMEARED_GLUONS , INSTANTANEOUS_GLUONS , CONFIGSPACE_GLUONS , GLUON_PROPS , STATIC_POTENTIAL , TOPOLOGICAL_CORRELATOR , TOPOLOGICAL_SUSCEPTIBILITY , TOPOLOGICAL_MOMENTS ) ;
  v[n++] = IDX( in.CUTINFO.definition , LINEAR_DEF , LOG_DEF ) ;
  v[n++] = IDX( in.CUTINFO.type , HYPERCUBIC_CUT , PSQ_CUT , CYLINDER_CUT , CYLINDER_AND_CONICAL_CUT ) ;
  v[n++] = in.CUTINFO.max_t ;
  v[n++] = in.CUTINFO.max_mom ;
  v[n++] = in.CUTINFO.cyl_width ;
  v[n++] = in.CUTINFO.angle ;
  v[n++] = IDX( in.SMINFO.type , SM_NOSMEARING , SM_APE , SM_STOUT , SM_LOG , SM_HYP , SM_HEX , SM_HYL , SM_WFLOW_LOG , SM_WFLOW_STOUT , SM_ADAPTWFLOW_LOG , SM_ADAPTWFLOW_STOUT ) ;
  v[n++] = IDX( in.SMINFO.dir , SPATIAL_LINKS_ONLY , ALL_DIRECTIONS ) ;
  v[n++] = in.SMINFO.smiters ;
  v[n++] = IDX( in.U1INFO.meas , U1_PLAQUETTE , U1_RECTANGLE , U1_TOPOLOGICAL ) ;
  v[n++] = in.U1INFO.alpha ;
  v[n++] = in.U1INFO.charge ;
  v[n++] = IDX( in.storage , OUTPUT_SMALL , OUTPUT_GAUGE , OUTPUT_NCxNC , OUTPUT_HIREP , OUTPUT_MILC , OUTPUT_SCIDAC , OUTPUT_ILDG , OUTPUT_CERN ) ;
  v[n++] = in.HBINFO.beta ;
  v[n++] = in.HBINFO.iterations ;
  v[n++] = in.HBINFO.Nmeasure ;
  v[n++] = in.HBINFO.Nor ;
  v[n++] = in.HBINFO.Nsave ;
  v[n++] = in.HBINFO.therm ;
  v[n++] = in.HBINFO.continuation == GLU_TRUE ;
  for( int mu = 0 ; mu < ND-1 ; mu++ ) v[n++] = Latt.sm_alpha[mu] ;
  for( int mu = 0 ; mu < ND ; mu++ ) v[n++] = Latt.dims[mu] ;
  strcpy( where , in.CUTINFO.where ) ;
  strcpy( info , in.output_details ) ;
  return n ;
}
