#ifndef _VortexVelocity_h
#define _VortexVelocity_h
#include "Constants.h"
#include "verif_fields.inc"
namespace galsfunctions
{
static inline double verif_amp() { static const double a = verif_num("amp"); return a; }
double Velx(double x, double y, double t, double T) { return vf_u<double>(x, y, t, T, verif_amp()); }
double Vely(double x, double y, double t, double T) { return vf_v<double>(x, y, t, T, verif_amp()); }
double gradUx(double x, double y, double t, double T) { return vf_ux<double>(x, y, t, T, verif_amp()); }
double gradUy(double x, double y, double t, double T) { return vf_uy<double>(x, y, t, T, verif_amp()); }
double gradVx(double x, double y, double t, double T) { return vf_vx<double>(x, y, t, T, verif_amp()); }
double gradVy(double x, double y, double t, double T) { return vf_vy<double>(x, y, t, T, verif_amp()); }
}
#endif
