#ifndef _InitializeLevelSet_h
#define _InitializeLevelSet_h
#include "Constants.h"
#include "verif_fields.inc"
namespace galsfunctions
{
double initialize(double x, double y) { return vf_p<double>(x, y); }
double derivxinit(double x, double y) { return vf_px<double>(x, y); }
double derivyinit(double x, double y) { return vf_py<double>(x, y); }
double derivxyinit(double x, double y) { return vf_pxy<double>(x, y); }
}
#endif
