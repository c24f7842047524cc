#pragma once
#include "ref.h"
// Two runs wrote the same frames (to the printed precision) and the same details.
static void same_output(const Output &a, const Output &b, unsigned nx, const char *what)
{
  double run = 1;
  for (int k = 0; k < 6; ++k) {
    if (a.f[k].size() != b.f[k].size()) mc::fail("%s: %s holds %zu frames, the reference run %zu", what, ofiles[k], a.f[k].size(), b.f[k].size());
    if (k < 4)
      for (auto &f : b.f[k])
        for (double x : f) run = fmax(run, fabs(x));
  }
  for (int k = 0; k < 6; ++k)
    for (size_t f = 0; f < a.f[k].size(); ++f)
      for (size_t q = 0; q < a.f[k][f].size(); ++q)
        if (!(fabs(a.f[k][f][q] - b.f[k][f][q]) <= 1.1e-10 + 1e-12 * run)) mc::fail("%s: %s frame %zu node (%zu,%zu): %.12g, the reference run gives %.12g", what, ofiles[k], f, q % nx, q / nx, a.f[k][f][q], b.f[k][f][q]);
  if (a.details.size() != b.details.size()) mc::fail("%s: details.txt holds %zu numbers, the reference run %zu", what, a.details.size(), b.details.size());
  for (size_t k = 0; k < a.details.size(); ++k)
    if (!(fabs(a.details[k] - b.details[k]) <= 1e-9 * (1 + fabs(b.details[k])))) mc::fail("%s: details.txt entry %zu differs: %.12g, %.12g", what, k, a.details[k], b.details[k]);
}
