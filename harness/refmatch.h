#pragma once
#include "refmodel.h"
// The files of a run against the model of the run.
static bool match(const Output &o, Model &m, char *why, size_t n)
{
  const RCfg &c = m.c;
  LD run = 1;
  for (int k = 0; k < 6; ++k)
    if (o.f[k].size() != m.frames.size()) {
      snprintf(why, n, "%s holds %zu frames, expected %zu", ofiles[k], o.f[k].size(), m.frames.size());
      return false;
    }
  for (size_t f = 0; f < m.frames.size(); ++f) {
    for (int k = 0; k < 4; ++k)
      for (LD x : m.frames[f].f[k]) run = fmaxl(run, fabsl(x));
    for (int k = 0; k < 6; ++k)
      for (size_t q = 0; q < m.frames[f].f[k].size(); ++q) {
        LD w = m.frames[f].f[k][q], g = o.f[k][f][q];
        if (!(fabsl(g - w) <= 7e-11L + 1e-11L * run)) {
          snprintf(why, n, "%s frame %zu node (%zu,%zu): %.12Lg, expected %.12Lg", ofiles[k], f, q % c.nx, q / c.nx, g, w);
          return false;
        }
      }
  }
  LD want[11] = {(LD)c.nx, (LD)c.ny, m.dx(), m.dy(), c.xlim1, c.xlim2, c.ylim1, c.ylim2, (LD)m.n, c.dt, (LD)m.every};
  if (o.details.size() != 11) {
    snprintf(why, n, "details.txt holds %zu numbers", o.details.size());
    return false;
  }
  for (int k = 0; k < 11; ++k)
    if (!(fabsl(o.details[k] - want[k]) <= 1e-9L * (1 + fabsl(want[k])))) {
      snprintf(why, n, "details.txt entry %d: %.12g, expected %.12Lg", k, o.details[k], want[k]);
      return false;
    }
  return true;
}
