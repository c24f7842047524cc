// C08: unlimited Hermite interpolation is the tensor-product cubic of the nodal data.
#include "hermite_model.h"
template <int D>
using He = GALS::INTERPOLATION::Hermite<double, G<D>>;

static const LD fr[] = {0, 1e-9L, 0.125L, 0.25L, 1.0L / 3, 0.5L, 0.7L, 0.875L, 1 - 1e-9L};
static const int NF = sizeof fr / sizeof fr[0];

template <int D>
void judge(const Val &w, double f, const V3 &g, const LD *h, const int *n, int pad, const Box &b, LD mag, const char *where, const int *id)
{
  LD cond = 1;
  for (int a = 0; a < D; ++a) cond = fmaxl(cond, box_scale(b, n, pad, a) / h[a]);
  LD tol = 1e-13L * cond * (D == 3 ? 64 : 16);
  if (!mc::close_to(f, w.f, mag, tol)) mc::fail("%s (cell %d,%d,%d): value %.17g, expected %.17Lg", where, id[0], id[1], id[2], f, w.f);
  for (int a = 0; a < D; ++a)
    if (!mc::close_to(g[a], w.g[a], mag / h[a], tol * 4)) mc::fail("%s (cell %d,%d,%d): gradient component %d is %.17g, expected %.17Lg", where, id[0], id[1], id[2], a, g[a], w.g[a]);
}
template <int D>
void point(const G<D> &g, const int *n, int pad, const Box &b, const LS<D> &l, const int *id, const int *f, LD mag, const LD *h, int via = 0)
{
  V3 x(0.5, 0.25, -7);
  LD t[3] = {0, 0, 0};
  for (int a = 0; a < D; ++a) {
    // the outermost node itself is within rounding of the end of the span
    LD q = fr[f[a] == 0 && id[a] == -pad && strcmp(b.name, "dyadic") ? 1 : f[a]];
    x[a] = (double)(coord(b, n, a, id[a]) + q * h[a]);
    t[a] = ((LD)x[a] - coord(b, n, a, id[a])) / h[a];
  }
  auto r = via ? He<D>().interpolate(g, x, l, false) : He<D>().interpolate(g, x, l);
  mc::step();
  judge<D>(hermite<D>(l, id, t, h), r.phi_interpolated, r.psi_interpolated, h, n, pad, b, mag, "interpolate", id);
}

template <int D>
void all()
{
  // generic data in every cell (ghost cells included) of every grid
  for (auto &s : sizes<D>(2, D == 1 ? 40 : D == 2 ? (mc::thorough ? 15 : 6) : (mc::thorough ? 5 : 3)))
    for (int pad : {1, 2, 3, 5}) {
      size_t vol = 1;
      for (int a = 0; a < D; ++a) vol *= s.n[a] + 2 * pad;
      if (too_big(s, pad, vol, (mc::thorough ? 200000u : 15000u))) continue;
      if (!mc::begin("dim %d cells %dx%dx%d padding %d: generic data in all cells, all boxes", D, s.n[0], s.n[1], s.n[2], pad)) continue;
      for (int b = 0; b <= NB; ++b) {
        if (vol > 2000 && (int)(vol + pad) % 4 != b % 4) continue;
        Box bx = b < NB ? boxes[b] : dyadic(s.n, pad);
        GridOf<D> g(s.n, pad, bx);
        LS<D> l(g.g);
        LD h[3];
        for (int a = 0; a < 3; ++a) h[a] = spacing(bx, s.n, a);
        static const double mags[] = {1, 1e-7, 1e7, 1e-60, 1e60, 1e-13};
        double mag = mags[(b + pad + s.n[0]) % 6];
        fill_decoy<D>(l, 1e20);
        fill_generic<D>(l, h, mag, b);
        int cnt = 0;
        nodes<D>(s.n, pad, [&](int i, int j, int k) {
          int id[3] = {i, j, k};
          for (int a = 0; a < D; ++a)
            if (id[a] == s.n[a] + pad - 1) return;
          mc::state();
          int reps = D == 1 ? (vol < 300 ? NF : 3) : vol < 300 ? 6 : 2;
          for (int q = 0; q < reps; ++q) {
            int f[3] = {D == 1 ? (vol < 300 ? q : cnt + q) % NF : (cnt * 5 + q) % NF, (cnt / 3 + 2 * q) % NF, (cnt / 7 + 4 * q + 1) % NF};
            point<D>(g.g, s.n, pad, bx, l, id, f, mag, h, q & 1);
          }
          ++cnt;
        });
      }
    }
  // all fraction combinations in all cells of a small grid; every single degree of freedom; all pairs of them
  for (int b = 0; b < NB; ++b)
    for (int pad : {1, 2}) {
      int n[3] = {2, D > 1 ? 1 : 1, 1};
      const Box &bx = boxes[b];
      LD h[3];
      for (int a = 0; a < 3; ++a) h[a] = spacing(bx, n, a);
      if (mc::begin("dim %d box %s padding %d: all fraction combinations in all cells", D, bx.name, pad)) {
        GridOf<D> g(n, pad, bx);
        LS<D> l(g.g);
        fill_generic<D>(l, h, 1, 5);
        nodes<D>(n, pad, [&](int i, int j, int k) {
          int id[3] = {i, j, k};
          for (int a = 0; a < D; ++a)
            if (id[a] == n[a] + pad - 1) return;
          for (int p = 0; p < NF; ++p)
            for (int q = 0; q < (D > 1 ? NF : 1); ++q)
              for (int r = 0; r < (D > 2 ? NF : 1); ++r) {
                int f[3] = {p, q, r};
                mc::state();
                point<D>(g.g, n, pad, bx, l, id, f, 1, h);
              }
        });
      }
      const int NDOF = 1 << (2 * D);
      auto setdof = [&](LS<D> &l, const int *id, int d, LD v) {
        int c = d >> D, o = d & ((1 << D) - 1);
        int i = id[0] + (c & 1), j = id[1] + (D > 1 ? c >> 1 & 1 : 0), k = id[2] + (D > 2 ? c >> 2 : 0);
        LD s = v;
        for (int a = 0; a < D; ++a)
          if (o >> a & 1) s /= h[a];
        switch (o) {
          case 0:
            l.phiPrev()(i, j, k) = (double)s;
            break;
          case 1:
            l.psiPrev()(i, j, k)[0] = (double)s;
            break;
          case 2:
            l.psiPrev()(i, j, k)[1] = (double)s;
            break;
          case 4:
            l.psiPrev()(i, j, k)[2] = (double)s;
            break;
          case 3:
            l.phiMixedDerivativesPrev()(i, j, k)[0] = (double)s;
            break;
          case 6:
            l.phiMixedDerivativesPrev()(i, j, k)[1] = (double)s;
            break;
          case 5:
            l.phiMixedDerivativesPrev()(i, j, k)[2] = (double)s;
            break;
          case 7:
            l.phiMixedDerivativesPrev()(i, j, k)[3] = (double)s;
            break;
        }
      };
      for (int d = 0; d < NDOF; ++d) {
        if (!mc::begin("dim %d box %s padding %d: degree of freedom %d alone and with every other", D, bx.name, pad, d)) continue;
        GridOf<D> g(n, pad, bx);
        LS<D> l(g.g);
        int id[3] = {0, 0, 0};  // cell between interior node 0 and 1 / first ghost
        static const LD lat[] = {1, -1, 2};
        for (int e = d; e < NDOF; ++e)
          for (LD v : lat)
            for (LD w : lat) {
              if (e == d && w != 1) continue;
              if (D == 3 && !mc::thorough && (v == 2 || w == 2)) continue;
              setdof(l, id, e, w);
              setdof(l, id, d, v);
              mc::state();
              for (int q = 0; q < 3; ++q) {
                int f[3] = {(d + 3 * q + 2) % NF, (d / 3 + e + 2 * q) % NF, (e / 2 + q) % NF};
                point<D>(g.g, n, pad, bx, l, id, f, 4, h);
              }
              setdof(l, id, e, 0);
              setdof(l, id, d, 0);
            }
      }
    }
  // array form
  for (auto &s : sizes<D>(2, D == 1 ? 12 : D == 2 ? 4 : 3))
    for (int pad : {1, 2, 3}) {
      size_t vol = 1;
      for (int a = 0; a < D; ++a) vol *= s.n[a] + 2 * pad;
      if (too_big(s, pad, vol, (mc::thorough ? 100000u : 12000u))) continue;
      if (!mc::begin("dim %d cells %dx%dx%d padding %d: array form, query grids of equal and smaller size", D, s.n[0], s.n[1], s.n[2], pad)) continue;
      for (int v = 0; v < 4; ++v) {
        const Box &bx = boxes[(v + s.n[0]) % NB];
        int m[3];
        for (int a = 0; a < 3; ++a) m[a] = v == 0 ? s.n[a] : v == 1 ? (s.n[a] + 1) / 2 : v == 2 ? 1 + (s.n[a] - 1) * (a == 0) : s.n[a] - (s.n[a] > 2);
        GridOf<D> g(s.n, pad, bx), q(m, 1 + v % 3, boxes[v]);
        LD h[3];
        for (int a = 0; a < 3; ++a) h[a] = spacing(bx, s.n, a);
        LS<D> l(g.g);
        fill_decoy<D>(l, 1e20);
        fill_generic<D>(l, h, 1, v);
        A<D, V3> x(v == 0 ? g.g : q.g);
        for (size_t t = 0; t < x.size(); ++t) x[t] = V3(NAN, NAN, NAN);
        int cnt = 0;
        interior(m, [&](int i, int j, int k) {
          V3 p(0, 0, 0);
          for (int a = 0; a < D; ++a) p[a] = (double)(coord(bx, s.n, a, 0) + h[a] * ((gen(cnt, a + 31 * v) * 0.5L + 0.5L) * (s.n[a] + 2 * pad - 1 - 2e-6L) - pad + 1e-6L));
          x(i, j, k) = p;
          ++cnt;
        });
        if (v % 3 == 0)
          GALS::CPU::Interpolate<double, G<D>, He<D>>::compute(x, l);
        else if (v % 3 == 1)
          He<D>().compute(x, l);
        else
          He<D>()(x, l);
        mc::step();
        interior(m, [&](int i, int j, int k) {
          mc::state();
          int id[3] = {0, 0, 0};
          LD t[3] = {0, 0, 0};
          for (int a = 0; a < D; ++a) {
            LD u = ((LD)x(i, j, k)[a] - coord(bx, s.n, a, 0)) / h[a];
            id[a] = (int)floorl(u);
            if (id[a] < -pad) id[a] = -pad;
            if (id[a] > s.n[a] + pad - 2) id[a] = s.n[a] + pad - 2;
            t[a] = u - id[a];
          }
          judge<D>(hermite<D>(l, id, t, h), l.phiInterpPrev()(i, j, k), l.psiInterpPrev()(i, j, k), h, s.n, pad, bx, 1, "array form", id);
        });
      }
    }
}
// The same objects through every sequence of in-place changes; point and array form after every operation.
template <int D>
void history()
{
  const int NOPS_H = D == 1 ? 7 : 8;
  histories("interpolation of level sets changed in place", D, NOPS_H, mc::thorough ? 5 : D == 3 ? 3 : 4, [&](const std::vector<int> &seq) {
    const int n[2][3] = {{5, D > 1 ? 4 : 1, D > 2 ? 3 : 1}, {3, D > 1 ? 5 : 1, D > 2 ? 3 : 1}}, one[3] = {1, 1, 1};
    int box[2] = {0, 1}, pad = 2, cur = 0, which = 0, q = 0;
    GridOf<D> g0(n[0], pad, hboxes[box[0]]), g1(n[1], pad, hboxes[box[1]]), qo(one, 1, hboxes[2]);
    G<D> *g[2] = {&g0.g, &g1.g};
    LS<D> l00(g0.g), l01(g0.g), l10(g1.g), l11(g1.g), *ls[2][2] = {{&l00, &l01}, {&l10, &l11}};
    A<D, V3> x1(qo.g);
    uint64_t salt = 1;
    LD h[3];
    auto spac = [&] {
      for (int a = 0; a < 3; ++a) h[a] = spacing(hboxes[box[cur]], n[cur], a);
    };
    for (cur = 0; cur < 2; ++cur)
      for (auto p : ls[cur]) spac(), fill_decoy<D>(*p, 1e20), fill_generic<D>(*p, h, 1, 1000 * ++salt);
    cur = 0;
    auto look = [&] {
      LS<D> &l = *ls[cur][which];
      const Box &b = hboxes[box[cur]];
      spac();
      int id[3] = {0, 0, 0};
      LD t[3] = {0, 0, 0};
      if (!locate<D>(b, n[cur], pad, hpoints[q], id, t)) return;
      mc::state();
      const Val w = hermite<D>(l, id, t, h);
      V3 x(hpoints[q][0], D > 1 ? hpoints[q][1] : 0, D > 2 ? hpoints[q][2] : 0);
      for (int rep = 0; rep < 3; ++rep) {
        if (rep == 1) He<D>().interpolate(*g[cur], x, l, true);
        auto r = rep == 2 ? He<D>().interpolate(*g[cur], x, l, false) : He<D>().interpolate(*g[cur], x, l);
        mc::step();
        judge<D>(w, r.phi_interpolated, r.psi_interpolated, h, n[cur], pad, b, 64, "interpolate", id);
        x1(0, 0, 0) = x;
        GALS::CPU::Interpolate<double, G<D>, He<D>>::compute(x1, l);
        mc::step();
        judge<D>(w, l.phiInterpPrev()(0, 0, 0), l.psiInterpPrev()(0, 0, 0), h, n[cur], pad, b, 64, "array form", id);
      }
    };
    look();
    int c = 0;
    for (int op : seq) {
      ++c;
      LS<D> &l = *ls[cur][which];
      spac();
      int id[3] = {0, 0, 0};
      LD t[3] = {0, 0, 0};
      locate<D>(hboxes[box[cur]], n[cur], pad, hpoints[q], id, t);
      const int i = id[0] + (c + seq[0]) % 2, j = id[1] + (D > 1 ? (c / 2 + seq[1]) % 2 : 0), k = id[2] + (D > 2 ? c % 3 % 2 : 0);
      if (op == 0) l.phiPrev()(i, j, k) += 0.75;
      if (op == 1) l.psiPrev()(i, j, k)[c % D] += (double)(2 / h[c % D]);
      if (op == 2) fill_generic<D>(l, h, 1, 1000 * ++salt);
      if (op == 3) generate(*g[cur], hboxes[box[cur] = (box[cur] + 1) % 3]);
      if (op == 4) which = !which;
      if (op == 5) cur = !cur;
      if (op == 6) q = (q + 1) % 3;
      if (op == 7) l.phiMixedDerivativesPrev()(i, j, k)[D == 2 ? 0 : c % 4] += (double)(9 / (D == 2 || c % 4 == 0 ? h[0] * h[1] : c % 4 == 1 ? h[1] * h[2] : c % 4 == 2 ? h[0] * h[2] : h[0] * h[1] * h[2]));
      look();
    }
  });
}
int main(int argc, char **argv)
{
  mc::init(argc, argv);
  all<1>(), all<2>(), all<3>();
  history<1>(), history<2>(), history<3>();
  mc::finish();
}
