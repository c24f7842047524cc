// C10: one semi-Lagrangian Euler step (and sequences of steps) against the model.
#include "hermite_model.h"
template <int D>
using SL = GALS::TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<double, G<D>>;

template <int D>
void step(int via, double dt, const LV<D> &v, LS<D> &l)
{
  if (via == 0)
    GALS::CPU::Temporal<double, G<D>, SL<D>>::compute(dt, v, l);
  else if (via == 1)
    SL<D>().compute(dt, v, l);
  else
    SL<D>()(dt, v, l);
  mc::step();
}

template <int D>
void verify(const int *n, int pad, const Box &b, double dt, const LV<D> &v, const LS<D> &l, LD mag)
{
  LD h[3], cond = 1;
  for (int a = 0; a < 3; ++a) h[a] = spacing(b, n, a);
  for (int a = 0; a < D; ++a) cond = fmaxl(cond, box_scale(b, n, pad, a) / h[a]);
  interior(n, [&](int i, int j, int k) {
    mc::state();
    int nd[3] = {i, j, k}, id[3] = {0, 0, 0};
    LD t[3] = {0, 0, 0};
    LD move = 0;
    for (int a = 0; a < D; ++a) {
      LD dx = (LD)dt * v.velocity()(i, j, k)[a] / h[a];
      LD u = nd[a] - dx;
      move = fmaxl(move, fabsl(dx));
      id[a] = (int)floorl(u);
      if (id[a] < -pad) id[a] = -pad;
      if (id[a] > n[a] + pad - 2) id[a] = n[a] + pad - 2;
      t[a] = u - id[a];
    }
    Val w = hermite<D>(l, id, t, h);
    LD tol = 4e-13L * (cond + move) * (D == 3 ? 16 : 4);
    auto chk = [&](LD got, LD want, LD sc, const char *what, int c) {
      if (!mc::close_to(got, want, sc, tol)) mc::fail("%s[%d] at node (%d,%d,%d), root in cell (%d,%d,%d), dt=%g: %.17Lg, expected %.17Lg", what, c, i, j, k, id[0], id[1], id[2], dt, got, want);
    };
    chk(l.phi()(i, j, k), w.f, mag, "phi", 0);
    chk(l.phiInterpPrev()(i, j, k), w.f, mag, "phi interpolated", 0);
    for (int a = 0; a < D; ++a) chk(l.psiInterpPrev()(i, j, k)[a], w.g[a], mag / h[a] * 4, "psi interpolated", a);
    const M3 &gm = v.velocityGradient()(i, j, k);
    for (int c = 0; c < D; ++c) {
      LD s = 0, sc = 0;
      for (int r = 0; r < D; ++r) {
        LD e = (r == c) - (LD)dt * gm(r, c);
        s += e * w.g[r];
        sc += (fabsl(e) + (r == c)) * mag / h[r] * 4;
      }
      chk(l.psi()(i, j, k)[c], s, sc, "psi", c);
    }
  });
}

template <int D>
void all()
{
  // generic velocities (roots anywhere in the padded span), gradients and data
  for (auto &s : sizes<D>(2, D == 1 ? 30 : D == 2 ? (mc::thorough ? 12 : 5) : (mc::thorough ? 5 : 3)))
    for (int pad : {1, 2, 3, 4}) {
      size_t vol = 1;
      for (int a = 0; a < D; ++a) vol *= s.n[a] + 2 * pad;
      if (too_big(s, pad, vol, (mc::thorough ? 100000u : 10000u))) continue;
      if (!mc::begin("dim %d cells %dx%dx%d padding %d: generic velocity, gradient and data, all boxes and dt", D, s.n[0], s.n[1], s.n[2], pad)) continue;
      static const double dts[] = {0.1, 1, -0.3, 0, 1e-3, 12};
      for (int b = 0; b < NB; ++b)
        for (int d = 0; d < 6; ++d) {
          if (vol > 600 && (b + d) % 7 != (int)vol % 7) continue;
          const Box &bx = boxes[b];
          GridOf<D> g(s.n, pad, bx);
          LS<D> l(g.g);
          LV<D> v(g.g);
          LD h[3];
          for (int a = 0; a < 3; ++a) h[a] = spacing(bx, s.n, a);
          static const double mags[] = {1, 1e5, 1e-40, 1, 1e40, 1e-12};
          double mag = mags[(b + d + pad) % 6];
          double dt = dts[d];
          fill_decoy<D>(l, 1e12);
          fill_generic<D>(l, h, mag, 10 * b + d);
          for (int rep = 0; rep < 2; ++rep) {
            for (size_t t = 0; t < v.velocity().size(); ++t) v.velocity()[t] = V3(NAN, NAN, NAN);
            size_t t = 0;
            interior(s.n, [&](int i, int j, int k) {
              int nd[3] = {i, j, k};
              V3 u(0, 0, 0);
              M3 gm;
              for (int a = 0; a < D; ++a) {
                LD lo = -pad + 1e-4L, hi = s.n[a] + pad - 1 - 1e-4L;
                LD root = (t + rep) % 3 ? nd[a] - gen(t, 40 * rep + a) * (pad - 1e-4L) : lo + (gen(t, 41 * rep + a) * 0.5L + 0.5L) * (hi - lo);
                u[a] = dt == 0 ? 1e3 * gen(t, a) : (double)((nd[a] - root) * h[a] / dt);
                for (int c = 0; c < D; ++c) gm(a, c) = gen(t, 70 + 3 * a + c + rep) * (t % 2 ? 3 : 1 / (fabs(dt) + 0.1));
              }
              v.velocity()(i, j, k) = u;
              v.velocityGradient()(i, j, k) = gm;
              ++t;
            });
            step<D>((b + d + rep) % 3, dt, v, l);
            verify<D>(s.n, pad, bx, dt, v, l, mag);
          }
        }
    }
  // the same displacement with very different dt and velocity scales; the velocity on a grid object of its own (other
  // padding and box: only its values at the nodes count)
  for (auto &s : sizes<D>(0, D == 1 ? 8 : D == 2 ? 3 : 2))
    for (int b = 0; b < NB; ++b) {
      if (!mc::begin("dim %d cells %dx%dx%d box %s: scaled dt and velocity, velocity on another grid", D, s.n[0], s.n[1], s.n[2], boxes[b].name)) continue;
      for (int vpad : {0, 1, 2, 4})
        for (double sc : {1.0, 1e-3, 1e3, 1e-6, 1e6, 1e-9, 1e9, 1e-12, 1e12, 1e-30, 1e30}) {
          const int pad = 1 + b % 3;
          const Box &bx = boxes[b];
          GridOf<D> g(s.n, pad, bx), gv(s.n, vpad, boxes[(b + 1 + vpad) % NB]);
          LS<D> l(g.g);
          LV<D> v(gv.g);
          LD h[3];
          for (int a = 0; a < 3; ++a) h[a] = spacing(bx, s.n, a);
          fill_decoy<D>(l, 1e12);
          fill_generic<D>(l, h, 1, 10 * b);
          const double dt = 0.25 * sc;
          size_t t = 0;
          interior(s.n, [&](int i, int j, int k) {
            for (int a = 0; a < D; ++a) {
              v.velocity()(i, j, k)[a] = (double)(gen(t, 3 * b + a) * (pad - 1e-3L) * h[a] / dt);
              for (int c = 0; c < D; ++c) v.velocityGradient()(i, j, k)(a, c) = (double)(gen(t, 70 + 3 * a + c) * h[a] / h[c] / dt);
            }
            ++t;
          });
          step<D>((b + vpad) % 3, dt, v, l);
          verify<D>(s.n, pad, bx, dt, v, l, 1);
        }
    }
  // uniform translation by every lattice displacement (exact nodes and half cells), every single gradient entry
  for (int sh = 0; sh < 3; ++sh)
    for (int cfl2 = 0; cfl2 <= 4; ++cfl2) {
      const int pad = 3;
      int n[3] = {D == 1 ? 6 : 3, D > 1 ? 3 : 1, D > 2 ? 2 : 1};
      Box bx = dyadic(n, sh);
      LD h[3];
      for (int a = 0; a < 3; ++a) h[a] = spacing(bx, n, a);
      int dirs = D == 1 ? 3 : D == 2 ? 9 : 27;
      for (int dir = 0; dir < dirs; ++dir) {
        if (!mc::begin("dim %d dyadic box %d: translation direction %d by %d half cells, all gradient entries", D, sh, dir, cfl2)) continue;
        for (int sg = -1; sg <= 1; sg += 2)
          for (int e = -1; e < 9; ++e) {
            int r = e < 0 ? 0 : e / 3, c = e < 0 ? 0 : e % 3;
            if (r >= D || c >= D) continue;
            GridOf<D> g(n, pad, bx);
            LS<D> l(g.g);
            LV<D> v(g.g);
            fill_decoy<D>(l, 1e12);
            fill_generic<D>(l, h, 1, dir + e);
            double dt = sg * 0.5;
            int dd[3] = {dir % 3 - 1, dir / 3 % 3 - 1, dir / 9 - 1};
            interior(n, [&](int i, int j, int k) {
              V3 u(0, 0, 0);
              for (int a = 0; a < D; ++a) u[a] = (double)(dd[a] * cfl2 * 0.5L * h[a] / dt);
              v.velocity()(i, j, k) = u;
              if (e >= 0) v.velocityGradient()(i, j, k)(r, c) = 1.5;
            });
            step<D>((e + 1) % 3, dt, v, l);
            verify<D>(n, pad, bx, dt, v, l, 1);
          }
      }
    }
  // sequences of steps as a time loop performs them (fields copied to the previous level in between), all dt sequences
  static const double dts[] = {0, 0.25, -0.25, 0.5};
  int depth = mc::thorough ? 5 : 4;
  int tot = 1;
  for (int d = 0; d < depth; ++d) tot *= 4;
  for (int c = 0; c < tot; ++c) {
    if (!mc::begin("dim %d: step sequence %d", D, c)) continue;
    const int pad = 2;
    int n[3] = {D == 1 ? 7 : 4, D > 1 ? 3 : 1, D > 2 ? 3 : 1};
    const Box &bx = boxes[c % NB];
    GridOf<D> g(n, pad, bx);
    LS<D> l(g.g), other(g.g);
    LV<D> v(g.g);
    LD h[3];
    for (int a = 0; a < 3; ++a) h[a] = spacing(bx, n, a);
    fill_generic<D>(l, h, 1, c);
    size_t t = 0;
    interior(n, [&](int i, int j, int k) {
      for (int a = 0; a < D; ++a) {
        v.velocity()(i, j, k)[a] = (double)(gen(t, a) * h[a] * 3);
        for (int q = 0; q < D; ++q) v.velocityGradient()(i, j, k)(a, q) = (double)(gen(t, 9 + 3 * a + q) * h[a] / h[q]);
      }
      ++t;
    });
    int r = c;
    for (int d = 0; d < depth; ++d, r /= 4) {
      double dt = dts[r % 4];
      step<D>(d % 3, dt, v, l);
      LD mag = 1;
      for (size_t q = 0; q < l.phiPrev().size(); ++q) {
        mag = fmaxl(mag, fabsl(l.phiPrev()[q]));
        for (int a = 0; a < D; ++a) mag = fmaxl(mag, fabsl(l.psiPrev()[q][a] * h[a]));
      }
      verify<D>(n, pad, bx, dt, v, l, mag);
      l.phiPrev() = l.phi();
      l.psiPrev() = l.psi();
    }
  }
}
// The same objects through every sequence of in-place changes, one step checked twice after every operation.
template <int D>
void history()
{
  histories("steps of objects changed in place", D, 9, mc::thorough ? 5 : D == 1 ? 4 : 3, [&](const std::vector<int> &seq) {
    int n[3] = {D == 1 ? 5 : 3, D > 1 ? 3 : 1, D > 2 ? 2 : 1}, box = 0, wl = 0, wv = 0, c = 0;
    const int pad = 3;
    GridOf<D> g(n, pad, hboxes[0]);
    LS<D> l0(g.g), l1(g.g), *ls[2] = {&l0, &l1};
    LV<D> v0(g.g), v1(g.g), *vs[2] = {&v0, &v1};
    LD h[3], hmin[3];
    for (int a = 0; a < 3; ++a) h[a] = hmin[a] = spacing(hboxes[0], n, a);
    for (int q = 1; q < 3; ++q)
      for (int a = 0; a < 3; ++a) hmin[a] = fminl(hmin[a], spacing(hboxes[q], n, a));
    uint64_t salt = 1;
    double dt = 0.5;
    auto speed = [&](LV<D> &v) {
      size_t t = 0;
      ++salt;
      interior(n, [&](int i, int j, int k) {
        for (int a = 0; a < D; ++a) v.velocity()(i, j, k)[a] = (double)(gen(t, 10 * salt + a) * hmin[a] * 1.4L);
        ++t;
      });
    };
    auto grad = [&](LV<D> &v) {
      size_t t = 0;
      ++salt;
      interior(n, [&](int i, int j, int k) {
        for (int a = 0; a < D; ++a)
          for (int q = 0; q < D; ++q) v.velocityGradient()(i, j, k)(a, q) = (double)(gen(t, 10 * salt + 3 * a + q) * h[a] / h[q]);
        ++t;
      });
    };
    for (auto p : ls) fill_decoy<D>(*p, 1e12), fill_generic<D>(*p, h, 1, 100 * ++salt);
    for (auto p : vs) speed(*p), grad(*p);
    auto look = [&] {
      LD mag = 1;
      for (size_t q = 0; q < ls[wl]->phiPrev().size(); ++q) {
        mag = fmaxl(mag, fabsl(ls[wl]->phiPrev()[q]));
        for (int a = 0; a < D; ++a) mag = fmaxl(mag, fabsl(ls[wl]->psiPrev()[q][a] * h[a]));
      }
      for (int rep = 0; rep < 2; ++rep) {
        step<D>((c + rep) % 3, dt, *vs[wv], *ls[wl]);
        verify<D>(n, pad, hboxes[box], dt, *vs[wv], *ls[wl], 8 * mag);
      }
    };
    look();
    for (int op : seq) {
      ++c;
      const int i = c % n[0], j = c % n[1], k = c % n[2];
      LS<D> &l = *ls[wl];
      LV<D> &v = *vs[wv];
      if (op == 0) l.phiPrev()(i, j, k) += 0.75;
      if (op == 1) fill_generic<D>(l, h, 1, 100 * ++salt);
      if (op == 2) v.velocity()(i, j, k)[c % D] *= -0.5;
      if (op == 3) speed(v);
      if (op == 4) grad(v);
      if (op == 5) dt = dt == 0.5 ? -1 : dt == -1 ? 0.25 : 0.5;
      if (op == 6) {
        generate(g.g, hboxes[box = (box + 1) % 3]);
        for (int a = 0; a < 3; ++a) h[a] = spacing(hboxes[box], n, a);
      }
      if (op == 7) wl = !wl;
      if (op == 8) wv = !wv;
      look();
    }
  });
}
int main(int argc, char **argv)
{
  mc::init(argc, argv);
  all<1>(), all<2>(), all<3>();
  history<1>(), history<2>(), history<3>();
  mc::finish();
}
