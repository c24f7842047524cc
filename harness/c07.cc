// C07: 1D linear interpolation, point form and array form.
#include "gals.h"
typedef GALS::INTERPOLATION::Linear<double, G<1>> Lin;

static const LD fr[] = {0, 1e-9L, 0.01L, 0.125L, 0.25L, 1.0L / 3, 0.5L, 0.6L, 0.75L, 0.99L, 1 - 1e-9L};
static const int NF = sizeof fr / sizeof fr[0];

static void point(const G<1> &g, const int *n, int pad, const Box &b, const A<1, double> &a, int i, int f, bool affine, LD c0, LD c1)
{
  if (f == 0 && i == -pad && strcmp(b.name, "dyadic")) f = 1;  // the outermost node itself is within rounding of the end of the span
  V3 x((double)(coord(b, n, 0, i) + fr[f] * spacing(b, n, 0)), f & 1 ? 5 : 0, f & 2 ? -5 : 0);
  double got = Lin().linearInterpolation(g, x, a);
  LD h = spacing(b, n, 0), t = ((LD)x[0] - coord(b, n, 0, i)) / h;
  LD want = (1 - t) * a(i, 0, 0) + t * a(i + 1, 0, 0);
  LD mag = fmaxl(fabsl(a(i, 0, 0)), fabsl(a(i + 1, 0, 0)));
  if (i > -pad) mag = fmaxl(mag, fabsl(a(i - 1, 0, 0)) * (f == 0));
  LD tol = 1e-13L * (1 + box_scale(b, n, pad, 0) / h) * 8;
  mc::step();
  if (!mc::close_to(got, want, mag, tol)) mc::fail("interpolation at node %d + %.9Lg dx is %.17g, expected %.17Lg", i, fr[f], got, want);
  if (affine && !mc::close_to(got, c0 + c1 * ((LD)x[0] - b.lo[0]) / h, fabsl(c0) + fabsl(c1) * (n[0] + pad), tol)) mc::fail("affine data not reproduced at node %d + %.9Lg dx", i, fr[f]);
}

// The same objects through every sequence of in-place changes, point and array form after every operation.
static void history()
{
  histories("interpolation of data changed in place", 1, 7, mc::thorough ? 6 : 5, [&](const std::vector<int> &seq) {
    const int n[2][3] = {{5, 1, 1}, {3, 1, 1}}, m[3] = {3, 1, 1}, one[3] = {1, 1, 1};
    int box[2] = {0, 1}, pad = 2, cur = 0, which = 0, q = 0;
    GridOf<1> g0(n[0], pad, hboxes[box[0]]), g1(n[1], pad, hboxes[box[1]]), qg(m, 1, hboxes[2]), qo(one, 1, hboxes[2]);
    G<1> *g[2] = {&g0.g, &g1.g};
    A<1, double> a00(g0.g), a01(g0.g), a10(g1.g), a11(g1.g), *arr[2][2] = {{&a00, &a01}, {&a10, &a11}}, out(qg.g), out1(qo.g);
    A<1, V3> x(qg.g), x1(qo.g);
    uint64_t salt = 1;
    auto fill = [&](A<1, double> &a) {
      ++salt;
      for (size_t t = 0; t < a.size(); ++t) a[t] = gen(t, salt);
    };
    for (auto &r : arr)
      for (auto p : r) fill(*p);
    auto look = [&](int c) {
      const A<1, double> &a = *arr[cur][which];
      const Box &b = hboxes[box[cur]];
      auto judge = [&](double px, double got) {
        int id[3];
        LD t[3];
        if (!locate<1>(b, n[cur], pad, &px, id, t)) return;
        mc::state(), mc::step();
        LD want = (1 - t[0]) * a(id[0], 0, 0) + t[0] * a(id[0] + 1, 0, 0);
        if (!mc::close_to(got, want, 8, 1e-12L)) mc::fail("after operation %d of the history: interpolation at %.17g is %.17g, expected %.17Lg", c, px, got, want);
      };
      for (int rep = 0; rep < 2; ++rep) judge(hpoints[q][0], Lin().linearInterpolation(*g[cur], V3(hpoints[q][0], 0, 0), a));
      x1(0, 0, 0) = V3(hpoints[q][0], 0, 0);
      GALS::CPU::Interpolate<double, G<1>, Lin>::compute(x1, a, out1);
      judge(hpoints[q][0], out1(0, 0, 0));
      for (int i = 0; i < 3; ++i) x(i, 0, 0) = V3(hpoints[(i + q) % 3][0], 0, 0);
      for (int rep = 0; rep < 2; ++rep) {
        GALS::CPU::Interpolate<double, G<1>, Lin>::compute(x, a, out);
        for (int i = 0; i < 3; ++i) judge(x(i, 0, 0)[0], out(i, 0, 0));
      }
      judge(hpoints[q][0], Lin().linearInterpolation(*g[cur], V3(hpoints[q][0], 0, 0), a));
    };
    look(0);
    int c = 0;
    for (int op : seq) {
      ++c;
      A<1, double> &a = *arr[cur][which];
      int id[3];
      LD t[3];
      if (op < 2 && locate<1>(hboxes[box[cur]], n[cur], pad, hpoints[q], id, t)) a(id[0] + op, 0, 0) += 0.75;
      if (op == 2) fill(a);
      if (op == 3) generate(*g[cur], hboxes[box[cur] = (box[cur] + 1) % 3]);
      if (op == 4) which = !which;
      if (op == 5) cur = !cur;
      if (op == 6) q = (q + 1) % 3;
      look(c);
    }
  });
}
int main(int argc, char **argv)
{
  mc::init(argc, argv);
  for (auto &s : sizes<1>(2, 40))
    for (int pad : {1, 2, 3, 5, 8}) {
      if (!mc::begin("cells %d padding %d: generic, affine and basis data at all points, all boxes", s.n[0], pad)) continue;
      for (int b = 0; b < NB + 1; ++b) {
        Box bx = b < NB ? boxes[b] : dyadic(s.n);
        GridOf<1> g(s.n, pad, bx);
        A<1, double> a(g.g);
        for (int kind = 0; kind < 4; ++kind) {
          static const double mags[] = {1, 1e-8, 1e8, 1e-60, 1e60, 1e-14, 1};
          double mag = mags[(b + pad) % 7];
          for (int i = -pad; i < s.n[0] + pad; ++i) a(i, 0, 0) = kind == 0 ? mag * gen(i + 100, b) : kind == 1 ? (double)(0.75L - 0.5L * (i + 0.5L)) : kind == 2 ? (i % 3 == 0) * 1.0 : 4.25;
          for (int i = -pad; i < s.n[0] + pad - 1; ++i) {
            mc::state();
            for (int f = 0; f < NF; ++f)
              if (s.n[0] <= 64 || f == 0 || (i + f) % 4 == 0) point(g.g, s.n, pad, bx, a, i, f, kind == 1, 0.75L, -0.5L);
          }
        }
      }
    }
  // all nodal basis fields
  for (int n0 = 1; n0 <= (mc::thorough ? 40 : 16); ++n0)
    for (int pad : {1, 2, 4}) {
      if (!mc::begin("cells %d padding %d: every nodal basis field", n0, pad)) continue;
      int n[3] = {n0, 1, 1};
      GridOf<1> g(n, pad, boxes[2]);
      A<1, double> a(g.g);
      for (size_t t = 0; t < a.size(); ++t) {
        a[t] = 1;
        for (int i = -pad; i < n0 + pad - 1; ++i)
          for (int f = 0; f < NF; ++f) mc::state(), point(g.g, n, pad, boxes[2], a, i, f, false, 0, 0);
        a[t] = 0;
      }
    }
  // all pairs of lattice values at the two ends of a cell
  static const double lat[] = {-1e6, -3, -1, -1e-7, 0, 1e-7, 0.5, 1, 2, 1e6};
  for (int p = 0; p < 10; ++p) {
    if (!mc::begin("all pairs of end values with left value %g", lat[p])) continue;
    for (int q = 0; q < 10; ++q)
      for (int pad : {1, 2}) {
        int n[3] = {3, 1, 1};
        GridOf<1> g(n, pad, boxes[3]);
        A<1, double> a(g.g);
        for (int i = -pad; i < 2 + pad; ++i)
          for (int f = 1; f < NF; ++f) {
            for (size_t t = 0; t < a.size(); ++t) a[t] = 1e9 * gen(t);
            a(i, 0, 0) = lat[p], a(i + 1, 0, 0) = lat[q];
            mc::state();
            point(g.g, n, pad, boxes[3], a, i, f, false, 0, 0);
          }
      }
  }
  // array form: every query grid size/padding against every data grid, three call paths
  for (int nd = 1; nd <= 12; ++nd)
    for (int nq : {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 25, 33, 64, 100, 257, 1025})
      for (int pad = 1; pad <= 3; ++pad) {
        if (!mc::begin("array form: data cells %d padding %d, query cells %d", nd, pad, nq)) continue;
        int n[3] = {nd, 1, 1}, m[3] = {nq, 1, 1};
        for (int b = 0; b < NB; ++b)
          for (int qp = 1; qp <= 3; ++qp) {
            const Box &bx = boxes[b];
            GridOf<1> g(n, pad, bx), q(m, qp, boxes[(b + 1) % NB]);
            A<1, double> a(g.g), out(q.g);
            A<1, V3> x(q.g);
            for (size_t t = 0; t < a.size(); ++t) a[t] = gen(t, b);
            for (size_t t = 0; t < x.size(); ++t) x[t] = V3(NAN, 0, 0), out[t] = 1e30;  // ghost queries must not be evaluated
            LD h = spacing(bx, n, 0);
            std::vector<LD> u(nq);
            for (int i = 0; i < nq; ++i) {
              u[i] = (gen(i, 77 + qp) * 0.5L + 0.5L) * (nd + 2 * pad - 1 - 2e-6L) - pad + 1e-6L;  // in node units
              x(i, 0, 0) = V3((double)(coord(bx, n, 0, 0) + u[i] * h), 0, 0);
            }
            int via = (b + qp) % 3;
            if (via == 0)
              GALS::CPU::Interpolate<double, G<1>, Lin>::compute(x, a, out);
            else if (via == 1)
              Lin().compute(x, a, out);
            else
              Lin()(x, a, out);
            mc::step();
            for (int i = 0; i < nq; ++i) {
              mc::state();
              LD uu = ((LD)x(i, 0, 0)[0] - coord(bx, n, 0, 0)) / h;
              int c = (int)floorl(uu);
              if (c < -pad) c = -pad;
              if (c > nd + pad - 2) c = nd + pad - 2;
              LD t = uu - c, want = (1 - t) * a(c, 0, 0) + t * a(c + 1, 0, 0);
              if (!mc::close_to(out(i, 0, 0), want, 1, 1e-12L * (1 + box_scale(bx, n, pad, 0) / h))) mc::fail("query %d at node coordinate %.9Lg gives %.17g, expected %.17Lg", i, uu, out(i, 0, 0), want);
            }
          }
      }
  history();
  mc::finish();
}
