#ifndef _VortexVelocityCUDA_cu
#define _VortexVelocityCUDA_cu
#include "verif_fields.inc"
extern "C" double verif_amp_value();
__device__ __host__ double Velx(double x, double y, double t, double T) { return vf_u<double>(x, y, t, T, verif_amp_value()); }
__device__ __host__ double Vely(double x, double y, double t, double T) { return vf_v<double>(x, y, t, T, verif_amp_value()); }
__device__ double gradUx(double x, double y, double t, double T) { return vf_ux<double>(x, y, t, T, verif_amp_value()); }
__device__ double gradUy(double x, double y, double t, double T) { return vf_uy<double>(x, y, t, T, verif_amp_value()); }
__device__ double gradVx(double x, double y, double t, double T) { return vf_vx<double>(x, y, t, T, verif_amp_value()); }
__device__ double gradVy(double x, double y, double t, double T) { return vf_vy<double>(x, y, t, T, verif_amp_value()); }
#endif
