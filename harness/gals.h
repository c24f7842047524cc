// Common helpers of the library explorers: grid families (the enumeration bounds) and deterministic generic data.
#pragma once
#include <limits.h>
#include "mc.h"

#include "gals/analytical-fields/levelset.h"
#include "gals/analytical-fields/velocity.h"
#include "gals/cpu/gradient.h"
#include "gals/cpu/interpolate.h"
#include "gals/cpu/levelset-velocity.h"
#include "gals/cpu/levelset.h"
#include "gals/cpu/temporal.h"
#include "gals/utilities/array.h"
#include "gals/utilities/grid.h"
#include "gals/utilities/mat3.h"
#include "gals/utilities/vec3.h"
#include "gals/utilities/vec_n.h"

typedef long double LD;
template <int D>
using G = GALS::CPU::Grid<double, D>;
typedef GALS::CPU::Vec3<double> V3;
typedef GALS::CPU::Vec3<int> I3;
typedef GALS::CPU::Mat3<double> M3;
template <int D, class E>
using A = GALS::CPU::Array<G<D>, E>;
template <int D>
using LS = GALS::CPU::Levelset<G<D>, double>;
template <int D>
using LV = GALS::CPU::LevelsetVelocity<G<D>, double>;

struct Box {
  double lo[3], hi[3];
  const char *name;
  bool flat() const { return name[0] == 'f'; }
};
static const Box boxes[] = {
    {{0, 0, 0}, {1, 1, 1}, "unit"},
    {{-1, -1, -1}, {1, 1, 1}, "sym"},
    {{-0.3, 1.7, -5.25}, {2.4, 2.2, 7.5}, "aniso"},
    {{-7.75, -3.5, -2.125}, {-4.5, -0.25, -0.125}, "negative"},
    {{10, -20, 30}, {10.5, -18, 37}, "offset"},
    {{1e-3, -2e-3, 0}, {3e-3, -1e-3, 5e-4}, "small"},
    {{-1000, 500, -250}, {3000, 900, 1250}, "large"},
    {{-2, 0.5, 1}, {1, 3.5, 4}, "flat"},  // no extent along inactive axes
    {{0, -1e-9, 2e-9}, {4e-9, 3e-9, 5e-9}, "tiny"},
    {{-2e8, 1e8, 0}, {3e8, 6e8, 1e9}, "vast"},
};
static const int NB = sizeof boxes / sizeof boxes[0];
// A box that makes all node coordinates and spacings exactly representable (dyadic), for exact tie checks.
static Box dyadic(const int *n, int shift = 0)
{
  Box b = {{0, 0, 0}, {0, 0, 0}, "dyadic"};
  static const double h[3] = {0.5, 0.25, 2}, o[3] = {-3, 5, -16};
  for (int a = 0; a < 3; ++a) b.lo[a] = o[(a + shift) % 3], b.hi[a] = b.lo[a] + n[a] * h[(a + shift) % 3];
  return b;
}

template <int D>
void generate(G<D> &g, const Box &b)
{
  const bool f1 = D < 2 && b.flat(), f2 = D < 3 && b.flat();
  g.generate(b.lo[0], b.hi[0], f1 ? 0 : b.lo[1], f1 ? 0 : b.hi[1], f2 ? 0 : b.lo[2], f2 ? 0 : b.hi[2]);
}
template <int D>
struct GridOf {
  G<D> g;
  GridOf(const int *n, int pad, const Box &b) : g(n[0], n[1], n[2])
  {
    if (pad != 1) g.setPadding(pad);
    generate(g, b);
  }
};

struct Size {
  int n[3];
};
// The size families. level 0: small (full products); level 1: + selected medium; level 2: + selected large.
// Giants: more nodes than 16 bits count, whole and per plane; run with padding 2 only.
static inline bool giant(const Size &s) { return (long)s.n[0] * s.n[1] * s.n[2] > 65000; }
static inline bool too_big(const Size &s, int pad, size_t vol, size_t cap) { return giant(s) ? pad != 2 : vol > cap; }
template <int D>
std::vector<Size> sizes(int level, int full)
{
  std::vector<Size> r;
  for (int x = 1; x <= full; ++x)
    for (int y = 1; y <= (D > 1 ? full : 1); ++y)
      for (int z = 1; z <= (D > 2 ? full : 1); ++z) r.push_back({{x, y, z}});
  auto add = [&](int x, int y, int z) {
    Size s = {{x, D > 1 ? y : 1, D > 2 ? z : 1}};
    for (auto &t : r)
      if (t.n[0] == s.n[0] && t.n[1] == s.n[1] && t.n[2] == s.n[2]) return;
    r.push_back(s);
  };
  if (level >= 1) {
    static const int m[] = {7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 48, 50};
    if (D == 1)
      for (int x : m) add(x, 1, 1);
    if (D == 2)
      for (int x : m) add(x, 3, 1), add(2, x, 1), add(x, x, 1), add(x, x + 1, 1);
    if (D == 3) {
      for (int x : {7, 8, 9, 10, 12, 16, 17, 20}) add(x, 2, 3), add(3, x, 2), add(2, 3, x);
      add(5, 6, 7), add(7, 6, 5), add(8, 8, 8), add(9, 5, 6), add(10, 10, 10), add(5, 9, 10);
    }
  }
  if (level >= 2) {
    static const int m[] = {63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097};
    if (D == 1)
      for (int x : m) add(x, 1, 1);
    if (D == 2) {
      for (int x : m)
        if (x <= 1025) add(x, 2, 1), add(3, x, 1);
      add(64, 64, 1), add(65, 33, 1), add(100, 100, 1), add(128, 129, 1), add(200, 150, 1);
    }
    if (D == 3) {
      for (int x : {33, 64, 65, 100, 128, 129, 257}) add(x, 2, 2), add(2, x, 3), add(3, 2, x);
      add(16, 16, 16), add(17, 18, 19), add(32, 32, 32), add(33, 20, 12), add(25, 30, 35);
    }
    if (D == 1) add(66000, 1, 1);
    if (D == 2) add(262, 258, 1), add(3, 22000, 1);
    if (D == 3) add(41, 42, 43), add(300, 230, 1), add(2, 300, 115);
  }
  return r;
}

// Deterministic generic value in [-1,1) with no structure (splitmix): "arbitrary data" that makes every term count.
static inline double gen(uint64_t a, uint64_t b = 0)
{
  uint64_t z = a * 0x9E3779B97F4A7C15ULL + b * 0xD1B54A32D192ED03ULL + 0x1234567;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  z ^= z >> 31;
  return (double)(int64_t)(z >> 11) / 4503599627370496.0 - 1.0;
}

// Visit all nodes (ghosts included) / interior nodes of a grid.
template <int D, class F>
void nodes(const int *n, int pad, F f)
{
  int px = pad, py = D > 1 ? pad : 0, pz = D > 2 ? pad : 0;
  for (int k = -pz; k < n[2] + pz; ++k)
    for (int j = -py; j < n[1] + py; ++j)
      for (int i = -px; i < n[0] + px; ++i) f(i, j, k);
}
template <class F>
void interior(const int *n, F f)
{
  for (int k = 0; k < n[2]; ++k)
    for (int j = 0; j < n[1]; ++j)
      for (int i = 0; i < n[0]; ++i) f(i, j, k);
}
static inline LD spacing(const Box &b, const int *n, int a) { return ((LD)b.hi[a] - (LD)b.lo[a]) / n[a]; }
static inline LD coord(const Box &b, const int *n, int a, int i) { return (LD)b.lo[a] + (i + 0.5L) * spacing(b, n, a); }
static inline LD box_scale(const Box &b, const int *n, int pad, int a)
{
  LD s = fabsl(b.lo[a]);
  if (fabsl(b.hi[a]) > s) s = fabsl(b.hi[a]);
  return s + (n[a] + 2 * pad) * spacing(b, n, a);
}
// Histories of in-place changes: overlapping boxes, so that one and the same point lies in each of them.
static const Box hboxes[] = {
    {{0, 0, 0}, {1, 1, 1}, "history a"},
    {{-1, -0.5, -2}, {1.5, 2, 1.25}, "history b"},
    {{-0.25, -3, 0}, {3, 1.75, 2}, "history c"},
};
static const double hpoints[][3] = {{0.37, 0.61, 0.44}, {0.83, 0.13, 0.71}, {0.52, 0.29, 0.17}};
// Cell and local coordinate of a point; false within rounding of a node.
template <int D>
bool locate(const Box &b, const int *n, int pad, const double *x, int *id, LD *t)
{
  for (int a = 0; a < D; ++a) {
    LD u = ((LD)x[a] - coord(b, n, a, 0)) / spacing(b, n, a);
    id[a] = (int)floorl(u), t[a] = u - id[a];
    if (id[a] < -pad || id[a] > n[a] + pad - 2 || t[a] < 1e-6L || t[a] > 1 - 1e-6L) return false;
  }
  return true;
}
// All sequences of `nops` operations of length `depth`, one case per first two operations; f(seq) runs one sequence.
template <class F>
void histories(const char *what, int D, int nops, int depth, F f)
{
  int tot = 1;
  for (int d = 2; d < depth; ++d) tot *= nops;
  for (int a = 0; a < nops; ++a)
    for (int b = 0; b < nops; ++b) {
      if (!mc::begin("dim %d: %s, all histories of %d operations starting with %d, %d", D, what, depth, a, b)) continue;
      for (int c = 0; c < tot; ++c) {
        std::vector<int> seq = {a, b};
        for (int d = 2, r = c; d < depth; ++d, r /= nops) seq.push_back(r % nops);
        f(seq);
        mc::counters["histories"]++;
      }
    }
}
static inline bool same_bits(const void *a, const void *b, size_t n) { return memcmp(a, b, n) == 0; }
