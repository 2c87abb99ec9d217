#ifndef SHIM_H
#define SHIM_H
#include "Mainfile.h"
#include "init.h"
#include "geometry.h"
#include "GLUlib_wrap.h"
#include "par_rng.h"
#endif
