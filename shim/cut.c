#include "shim.h"
#include "CUT_wrap.h"
// runs one measurement mode; files appear in the current directory
int z_cuts( struct site *lat , const int *ip , const double width )
{
  struct cut_info C ; struct sm_info S ;
  memset( &C , 0 , sizeof( C ) ) ; memset( &S , 0 , sizeof( S ) ) ;
  C.dir = (cut_mode)ip[0] ; C.type = (momentum_cut_def)ip[1] ;
  C.max_mom = ip[2] ; C.max_t = ip[3] ; C.definition = (lie_field_def)ip[4] ;
  C.angle = ip[5] ; C.cyl_width = width ; strcpy( C.where , "./" ) ;
  S.dir = (GLU_smeardir)ip[6] ; S.smiters = ip[7] ; S.type = (smearing_types)ip[8] ;
  return cuts_wrap_struct( lat , C , S ) ;
}
int z_enum( int k )
{
  const int e[] = { EXCEPTIONAL , NONEXCEPTIONAL , FIELDS , SMEARED_GLUONS , INSTANTANEOUS_GLUONS ,
    CONFIGSPACE_GLUONS , GLUON_PROPS , STATIC_POTENTIAL , TOPOLOGICAL_CORRELATOR , TOPOLOGICAL_MOMENTS ,
    TOPOLOGICAL_SUSCEPTIBILITY , HYPERCUBIC_CUT , PSQ_CUT , CYLINDER_CUT , CYLINDER_AND_CONICAL_CUT ,
    LINEAR_DEF , LOG_DEF , SM_NOSMEARING , SM_APE , SM_STOUT , SM_LOG , SM_HYP , SM_HEX , SM_HYL ,
    SM_WFLOW_STOUT , ALL_DIRECTIONS , SPATIAL_LINKS_ONLY } ;
  return e[k] ;
}
