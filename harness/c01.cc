// C01: index map is a bijection onto the storage; accessors and reported configuration agree.
#include "gals.h"

template <int D>
void check_grid(G<D> &g, const int *n, int pad)
{
  const int *mask = g.getMask();
  for (int a = 0; a < 3; ++a)
    if (mask[a] != (a < D)) mc::fail("mask[%d] is %d", a, mask[a]);
  if (g.dimension() != D) mc::fail("dimension() is %d", g.dimension());
  if (g.getPadding() != pad) mc::fail("getPadding() is %d, expected %d", g.getPadding(), pad);
  const I3 nc = g.numCells();
  for (int a = 0; a < 3; ++a)
    if (nc[a] != n[a]) mc::fail("numCells()[%d] is %d, expected %d", a, nc[a], n[a]);
  size_t total = 1;
  for (int a = 0; a < 3; ++a) total *= n[a] + (a < D ? 2 * pad : 0);
  if ((size_t)g.size() != total) mc::fail("size() is %d, expected %zu", g.size(), total);
  const G<D> &cg = g;
  const V3 *base = &cg(-pad, D > 1 ? -pad : 0, D > 2 ? -pad : 0);
  size_t next = 0;
  nodes<D>(n, pad, [&](int i, int j, int k) {
    mc::state();
    size_t id = cg.index(i, j, k);
    if (id != next) mc::fail("index(%d,%d,%d) is %zu, expected %zu", i, j, k, id, next);
    if (cg.index(I3(i, j, k)) != id) mc::fail("index(Vec3(%d,%d,%d)) is %zu, index(i,j,k) is %zu", i, j, k, cg.index(I3(i, j, k)), id);
    const V3 *p = &cg(i, j, k);
    if (p != base + id) mc::fail("operator()(%d,%d,%d) is not storage slot %zu", i, j, k, id);
    if (p != &cg(I3(i, j, k)) || p != &g.x(i, j, k)) mc::fail("coordinate accessors disagree at (%d,%d,%d)", i, j, k);
    if (D == 1 && p != &g.x(i)) mc::fail("x(%d) is another node", i);
    if (D == 2 && p != &g.x(i, j)) mc::fail("x(%d,%d) is another node", i, j);
    ++next;
  });
  // Store a distinct mark in every node through x(), then read all of them back.
  nodes<D>(n, pad, [&](int i, int j, int k) { g.x(i, j, k) = V3(i + 0.25, j + 0.5, k + 0.75); });
  nodes<D>(n, pad, [&](int i, int j, int k) {
    mc::step();
    const V3 &v = cg(i, j, k);
    if (v[0] != i + 0.25 || v[1] != j + 0.5 || v[2] != k + 0.75) mc::fail("node (%d,%d,%d) aliases another node", i, j, k);
  });
}

template <int D>
G<D> *make(const int *n)
{
  if (n[2] == 1 && n[1] == 1 && D == 1) return new G<D>(n[0]);
  if (n[2] == 1 && D == 2) return new G<D>(n[0], n[1]);
  return new G<D>(n[0], n[1], n[2]);
}

template <int D>
void all()
{
  // every size x padding, for both the constructor with all counts and the short ones
  for (auto &s : sizes<D>(2, D == 1 ? 60 : D == 2 ? (mc::thorough ? 40 : 16) : (mc::thorough ? 12 : 6)))
    for (int pad = 0; pad <= 64; ++pad) {
      const bool common = pad <= 5 || pad == 7 || pad == 8 || pad == 10 || pad == 16;
      size_t vol = 1;
      for (int a = 0; a < D; ++a) vol *= s.n[a] + 2 * pad;
      if (too_big(s, pad, vol, (mc::thorough ? 3000000u : 300000u))) continue;
      if (!common && (s.n[0] > 4 || s.n[1] > 3 || s.n[2] > 2) && vol > (D == 1 ? 200u : 1500u)) continue;  // every padding on small grids
      if (!mc::begin("dim %d cells %dx%dx%d padding %d", D, s.n[0], s.n[1], s.n[2], pad)) continue;
      for (int ctor = 0; ctor < 2; ++ctor) {
        G<D> *g = ctor ? make<D>(s.n) : new G<D>(s.n[0], s.n[1], s.n[2]);
        for (int a = 0; a < 3; ++a)
          if (g->numCells()[a] != s.n[a]) mc::fail("numCells()[%d] of a new grid is %d", a, g->numCells()[a]);
        if (g->getPadding() != 1) mc::fail("default padding is %d", g->getPadding());
        if (pad != 1 || ctor) g->setPadding(pad);
        generate(*g, boxes[(s.n[0] + pad) % NB]);
        check_grid<D>(*g, s.n, pad);
        delete g;
      }
      mc::counters["grids"]++;
    }
  // counts given on inactive axes are reported as configured
  if (D < 3)
    for (int y = 1; y <= 4; ++y)
      for (int z = 1; z <= 4; ++z) {
        if (D == 1 && y > 3) continue;
        if (!mc::begin("dim %d with counts 5x%dx%d", D, y, z)) continue;
        G<D> g(5, y, z);
        const I3 nc = g.numCells();
        mc::state();
        if (nc[0] != 5 || nc[1] != y || nc[2] != z) mc::fail("numCells() is %d,%d,%d, configured 5,%d,%d", nc[0], nc[1], nc[2], y, z);
      }
  // all histories of set-padding / generate on one object
  static const int pads[] = {1, 2, 0, 5};
  int depth = mc::thorough ? 4 : 3;
  static const Size hs[] = {{{1, 1, 1}}, {{4, 3, 2}}, {{2, 5, 3}}, {{9, 1, 4}}, {{64, 2, 2}}};
  for (auto s : hs) {
    for (int a = D; a < 3; ++a) s.n[a] = 1;
    int nact = 4 * 2;  // padding x box
    long tot = 1;
    for (int d = 0; d < depth; ++d) tot *= nact;
    for (long c = 0; c < tot; c += nact) {  // the last action is enumerated inside the case
      if (!mc::begin("dim %d cells %dx%dx%d history %ld of padding/generate", D, s.n[0], s.n[1], s.n[2], c)) continue;
      for (int last = 0; last < nact; ++last) {
        G<D> g(s.n[0], s.n[1], s.n[2]);
        long r = c / nact;
        for (int d = 0; d < depth; ++d) {
          int a = d == depth - 1 ? last : r % nact;
          r /= nact;
          g.setPadding(pads[a % 4]);
          generate(g, boxes[2 + a / 4]);
          mc::step();
          if (d == depth - 1) check_grid<D>(g, s.n, pads[a % 4]);
        }
        mc::counters["histories"]++;
      }
    }
  }
}

// Index map of grids too large to store (fewer than 2^31 nodes; the map needs no storage): corners, edges and a node lattice.
template <int D>
void huge()
{
  static const int sz[][3] = {{1000000, 1, 1}, {70000, 1, 1}, {33000, 70, 3}, {70, 40000, 2}, {46000, 46000, 1}, {300, 300, 300}, {1000, 1000, 1000}, {1280, 1280, 1280}, {5, 3, 30000000}, {257, 65537, 120}, {65600, 130, 200}};
  for (auto &z : sz)
    for (int pad : {0, 1, 2, 3}) {
      int n[3] = {z[0], D > 1 ? z[1] : 1, D > 2 ? z[2] : 1};
      long m[3];
      double tot = 1;
      for (int a = 0; a < 3; ++a) m[a] = n[a] + (a < D ? 2 * pad : 0), tot *= m[a];
      if (tot > 2147000000.0) continue;
      if (!mc::begin("dim %d index map of %dx%dx%d cells padding %d", D, n[0], n[1], n[2], pad)) continue;
      G<D> g(n[0], n[1], n[2]);
      g.setPadding(pad);
      auto pts = [&](int a) {
        std::vector<int> v;
        if (a >= D) return std::vector<int>(1, 0);
        for (int t = 0; t <= 40; ++t) v.push_back(-pad + (int)((m[a] - 1) * (double)t / 40));
        for (int e : {0, 1, 254, 255, 256, 32766, 32767, 32768, 65534, 65535, 65536})
          if (e < m[a]) v.push_back(e - pad);
        v.push_back(m[a] - pad - 1);
        return v;
      };
      for (int i : pts(0))
        for (int j : pts(1))
          for (int k : pts(2)) {
            size_t want = (size_t)(i + pad) + (D > 1 ? (size_t)(j + pad) * m[0] : 0) + (D > 2 ? (size_t)(k + pad) * m[0] * m[1] : 0);
            mc::state();
            if (g.index(i, j, k) != want || g.index(I3(i, j, k)) != want) mc::fail("index(%d,%d,%d) is %zu, expected %zu", i, j, k, g.index(i, j, k), want);
          }
      mc::counters["index maps"]++;
    }
}
int main(int argc, char **argv)
{
  mc::init(argc, argv);
  huge<1>(), huge<2>(), huge<3>();
  all<1>(), all<2>(), all<3>();
  mc::finish();
}
