// C02: node coordinates, spacing and counts for every box, size and padding; regeneration equals a fresh grid.
#include "gals.h"

template <int D>
void check_geometry(const G<D> &g, const int *n, int pad, const Box &b)
{
  size_t total = 1;
  for (int a = 0; a < 3; ++a) {
    LD h = b.flat() && a >= D ? 0 : spacing(b, n, a);
    LD sc = fmaxl(fabsl(b.lo[a]), fabsl(b.hi[a])) / n[a] + fabsl(h);
    mc::expect_close(g.dX()[a], h, sc, "dX", 1e-13L);
    if (a < D) {
      mc::expect_close((LD)g.oneOverDX()[a] * (LD)g.dX()[a], 1, 1, "oneOverDX*dX", 1e-13L);
      total *= n[a];
    }
  }
  if (g.totalCells() != total) mc::fail("totalCells() is %zu, expected %zu", g.totalCells(), total);
  nodes<D>(n, pad, [&](int i, int j, int k) {
    mc::state();
    const V3 &x = g(i, j, k);
    int id[3] = {i, j, k};
    for (int a = 0; a < 3; ++a) {
      LD want = a < D ? coord(b, n, a, id[a]) : 0;
      LD sc = a < D ? box_scale(b, n, pad, a) : 1;
      if (!mc::close_to(x[a], want, sc, 1e-13L)) mc::fail("coordinate %d of node (%d,%d,%d) is %.17g, expected %.17Lg", a, i, j, k, x[a], want);
      if (a >= D && x[a] != 0) mc::fail("inactive coordinate %d of node (%d,%d,%d) is %g", a, i, j, k, x[a]);
    }
  });
}

template <int D>
void all()
{
  for (auto &s : sizes<D>(2, D == 1 ? 40 : D == 2 ? (mc::thorough ? 30 : 12) : (mc::thorough ? 9 : 5)))
    for (int pad = 0; pad <= 40; ++pad) {
      if ((pad > 8 || pad == 6 || pad == 7) && (s.n[0] > 3 || s.n[1] > 2 || s.n[2] > 2)) continue;  // every padding on small grids
      size_t vol = 1;
      for (int a = 0; a < D; ++a) vol *= s.n[a] + 2 * pad;
      if (too_big(s, pad, vol, (mc::thorough ? 2000000u : 100000u))) continue;
      if (!mc::begin("dim %d cells %dx%dx%d padding %d, all boxes", D, s.n[0], s.n[1], s.n[2], pad)) continue;
      for (int b = 0; b <= NB; ++b) {
        Box bx = b < NB ? boxes[b] : dyadic(s.n, pad);
        GridOf<D> g(s.n, pad, bx);
        mc::step();
        check_geometry<D>(g.g, s.n, pad, bx);
      }
    }
  // cell counts given on inactive axes do not enter totals (only totals and spacings are defined there)
  if (D < 3)
    for (int e = 2; e <= 5; ++e) {
      int n[3] = {7, D > 1 ? 5 : e, e};
      if (!mc::begin("dim %d with counts %dx%dx%d on inactive axes", D, n[0], n[1], n[2])) continue;
      GridOf<D> g(n, 1, boxes[2]);
      size_t total = 1;
      for (int a = 0; a < D; ++a) total *= n[a];
      mc::state();
      if (g.g.totalCells() != total) mc::fail("totalCells() is %zu, expected %zu", g.g.totalCells(), total);
      for (int a = 0; a < 3; ++a) mc::expect_close(g.g.dX()[a], spacing(boxes[2], n, a), 10, "dX", 1e-13L);
    }
  // regeneration with a box that differs from the previous one in one face, one pair of faces or nothing
  static const Size fs[] = {{{3, 2, 2}}, {{5, 4, 3}}};
  for (auto s : fs) {
    for (int a = D; a < 3; ++a) s.n[a] = 1;
    for (int face = 0; face < 27; ++face)
      for (int pad = 0; pad < 3; ++pad) {
        if (!mc::begin("dim %d cells %dx%dx%d padding %d: regenerate with faces changed, pattern %d", D, s.n[0], s.n[1], s.n[2], pad, face)) continue;
        for (int bi = 0; bi < 5; ++bi)
          for (int order = 0; order < 2; ++order) {
            Box b0 = boxes[bi], b1 = boxes[bi];
            for (int a = 0, r = face; a < 3; ++a, r /= 3) {
              const double d = 0.25 * (b0.hi[a] - b0.lo[a]);
              if (r % 3 == 1) b1.hi[a] += d;
              if (r % 3 == 2) b1.lo[a] -= d;
              if (face == 26) b1.hi[a] += d;  // a shifted box
              if (face == 26) b1.lo[a] += 2 * d;
            }
            G<D> g(s.n[0], s.n[1], s.n[2]);
            if (pad != 1) g.setPadding(pad);
            const Box &first = order ? b1 : b0, &second = order ? b0 : b1;
            generate(g, first);
            generate(g, second);
            mc::step(2);
            check_geometry<D>(g, s.n, pad, second);
            generate(g, first);
            mc::step();
            check_geometry<D>(g, s.n, pad, first);
          }
      }
  }
  // all histories of set-padding / generate (and generate without changing the padding)
  static const int pads[] = {0, 1, 2, 3, 4};  // 0: leave the padding as it is
  int nb = 3, nact = 5 * nb, depth = mc::thorough ? 4 : 3;
  long tot = 1;
  for (int d = 0; d < depth; ++d) tot *= nact;
  static const Size hs[] = {{{1, 1, 1}}, {{4, 3, 2}}, {{3, 5, 4}}};
  for (auto s : hs) {
    for (int a = D; a < 3; ++a) s.n[a] = 1;
    for (long c = 0; c < tot / nact; ++c) {
      if (!mc::begin("dim %d cells %dx%dx%d history %ld of padding/generate", D, s.n[0], s.n[1], s.n[2], c)) continue;
      for (int last = 0; last < nact; ++last) {
        G<D> g(s.n[0], s.n[1], s.n[2]);
        long r = c;
        int pad = 1;
        for (int d = 0; d < depth; ++d) {
          int a = d == depth - 1 ? last : r % nact;
          r /= nact;
          if (pads[a % 5]) g.setPadding(pad = pads[a % 5]);
          const Box &b = boxes[2 + a / 5];
          generate(g, b);
          mc::step();
          if (d == depth - 1) {
            check_geometry<D>(g, s.n, pad, b);
            GridOf<D> f(s.n, pad, b);
            if (g.size() != f.g.size()) mc::fail("regenerated grid has %d slots, a fresh one %d", g.size(), f.g.size());
            nodes<D>(s.n, pad, [&](int i, int j, int k) {
              if (!same_bits(&g(i, j, k), &f.g(i, j, k), sizeof(V3))) mc::fail("regenerated grid differs from a fresh one at (%d,%d,%d)", i, j, k);
            });
            if (!same_bits(&g.dX(), &f.g.dX(), sizeof(V3))) mc::fail("dX of a regenerated grid differs from a fresh one");
            for (int a = 0; a < D; ++a)
              if (g.oneOverDX()[a] != f.g.oneOverDX()[a]) mc::fail("oneOverDX of a regenerated grid differs from a fresh one");
          }
        }
        mc::counters["histories"]++;
      }
    }
  }
}

int main(int argc, char **argv)
{
  mc::init(argc, argv);
  all<1>(), all<2>(), all<3>();
  mc::finish();
}
