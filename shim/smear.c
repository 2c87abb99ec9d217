#include "shim.h"
#include "smear.h"
#include "HYP.h"
#include "4D_fast.h"
#include "ND_generic_HYP.h"
#include "wflow.h"
#include "adaptive_flow.h"
#include "SM_wrap.h"
#include "givens.h"

// which: "3D" "4D" "HYP3D" "HYP4D" "HYPND"
int z_smear( struct site *lat , const char *which , size_t iters , int type , size_t dirs )
{
  if( !strcmp( which , "3D" ) ) return smear3D( lat , iters , (smearing_types)type ) ;
  if( !strcmp( which , "4D" ) ) return smear4D( lat , iters , (smearing_types)type ) ;
  if( !strcmp( which , "HYP3D" ) ) return HYPSLsmear3D( lat , iters , type ) ;
  if( !strcmp( which , "HYP4D" ) ) return HYPSLsmear4D_expensive( lat , iters , type ) ;
  if( !strcmp( which , "HYPND" ) ) return HYsmearND( lat , iters , type , dirs ) ;
  return -77 ;
}
int z_flow( struct site *lat , size_t iters , int sign , int type , int memcheap )
{
  return flow_RK3( lat , iters , sign , (smearing_types)type , memcheap ? GLU_TRUE : GLU_FALSE ) ;
}
int z_adaptive( struct site *lat , size_t iters , int sign , int type )
{
  return flow_adaptive_RK3( lat , iters , sign , (smearing_types)type ) ;
}
int z_wrap( struct site *lat , int dir , size_t iters , int type )
{
  struct sm_info S ;
  memset( &S , 0 , sizeof( S ) ) ;
  S.dir = dir ; S.smiters = iters ; S.type = (smearing_types)type ;
  return SM_wrap_struct( lat , S ) ;
}
