// Independent model of (limited) Hermite interpolation in long double.
#pragma once
#include "gals.h"
static inline LD H(int c, int o, LD t, bool d)
{
  if (!d) {
    if (!c) return o ? t * (1 - t) * (1 - t) : (1 + 2 * t) * (1 - t) * (1 - t);
    return o ? t * t * (t - 1) : t * t * (3 - 2 * t);
  }
  if (!c) return o ? (1 - t) * (1 - 3 * t) : -6 * t * (1 - t);
  return o ? t * (3 * t - 2) : 6 * t * (1 - t);
}
struct Val {
  LD f, g[3];
};
template <int D>
LD dof(const LS<D> &l, int i, int j, int k, int ox, int oy, int oz)
{
  int o = ox + 2 * oy + 4 * oz;
  switch (o) {
    case 0:
      return l.phiPrev()(i, j, k);
    case 1:
      return l.psiPrev()(i, j, k)[0];
    case 2:
      return l.psiPrev()(i, j, k)[1];
    case 4:
      return l.psiPrev()(i, j, k)[2];
    case 3:
      return l.phiMixedDerivativesPrev()(i, j, k)[0];
    case 6:
      return l.phiMixedDerivativesPrev()(i, j, k)[1];
    case 5:
      return l.phiMixedDerivativesPrev()(i, j, k)[2];
    default:
      return l.phiMixedDerivativesPrev()(i, j, k)[3];
  }
}
// Value and gradient in the cell with base node id at local coordinate t (in cell units), spacings h.
template <int D>
Val hermite(const LS<D> &l, const int *id, const LD *t, const LD *h)
{
  Val r = {0, {0, 0, 0}};
  LD B[3][2][2], P[3][2][2];
  for (int a = 0; a < 3; ++a)
    for (int c = 0; c < 2; ++c)
      for (int o = 0; o < 2; ++o) {
        if (a >= D) {
          B[a][c][o] = (c == 0 && o == 0), P[a][c][o] = 0;
          continue;
        }
        B[a][c][o] = H(c, o, t[a], false) * (o ? h[a] : 1);
        P[a][c][o] = H(c, o, t[a], true) * (o ? h[a] : 1) / h[a];
      }
  for (int c = 0; c < (1 << D); ++c)
    for (int o = 0; o < (1 << D); ++o) {
      int cx = c & 1, cy = c >> 1 & 1, cz = c >> 2, ox = o & 1, oy = o >> 1 & 1, oz = o >> 2;
      LD d = dof<D>(l, id[0] + cx, id[1] + cy, id[2] + cz, ox, oy, oz);
      r.f += d * B[0][cx][ox] * B[1][cy][oy] * B[2][cz][oz];
      r.g[0] += d * P[0][cx][ox] * B[1][cy][oy] * B[2][cz][oz];
      if (D > 1) r.g[1] += d * B[0][cx][ox] * P[1][cy][oy] * B[2][cz][oz];
      if (D > 2) r.g[2] += d * B[0][cx][ox] * B[1][cy][oy] * P[2][cz][oz];
    }
  return r;
}
// Fill the previous-step fields with generic data in which all degrees of freedom weigh alike.
template <int D>
void fill_generic(LS<D> &l, const LD *h, double mag, uint64_t salt)
{
  for (size_t t = 0; t < l.phiPrev().size(); ++t) {
    l.phiPrev()[t] = mag * gen(t, salt);
    for (int a = 0; a < D; ++a) l.psiPrev()[t][a] = (double)(mag * gen(t, salt + 100 + a) / h[a]);
    if (D == 2) l.phiMixedDerivativesPrev()[t][0] = (double)(mag * gen(t, salt + 200) / (h[0] * h[1]));
    if (D == 3) {
      l.phiMixedDerivativesPrev()[t][0] = (double)(mag * gen(t, salt + 200) / (h[0] * h[1]));
      l.phiMixedDerivativesPrev()[t][1] = (double)(mag * gen(t, salt + 201) / (h[1] * h[2]));
      l.phiMixedDerivativesPrev()[t][2] = (double)(mag * gen(t, salt + 202) / (h[0] * h[2]));
      l.phiMixedDerivativesPrev()[t][3] = (double)(mag * gen(t, salt + 203) / (h[0] * h[1] * h[2]));
    }
  }
}
// decoys: fields the interpolation must not read
template <int D>
void fill_decoy(LS<D> &l, double v)
{
  for (size_t t = 0; t < l.phi().size(); ++t) {
    l.phi()[t] = v + t;
    l.psi()[t] = V3(v - t, v * 3, -v);
    l.phiInterpPrev()[t] = 3 * v;
    l.psiInterpPrev()[t] = V3(v, v, v);
    for (int c = 0; c < G<D>::num_mixed_derivatives; ++c) l.phiMixedDerivatives()[t][c] = -v * c + t;
  }
}
