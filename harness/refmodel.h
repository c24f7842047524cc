// Independent long-double model of one run of the gradient-augmented reference solver.
#pragma once
#include "ref.h"
#include "verif_fields.inc"
typedef long double LD;
typedef std::vector<LD> Vd;
struct Fld {
  Vd v;
  unsigned nx;
  LD &operator()(int i, int j) { return v[i * nx + j]; }
};
struct Sol {
  Fld p, px, py, pxy;
};
struct Model {
  RCfg c;
  unsigned bits;         // bit 0/1: roots that sit on the upper x/y side (up to rounding of its node) count as inside
  bool ambiguous, used;  // no decision possible for this run / bits mattered
  unsigned kinds[5];
  LD X(int j) const { return c.xlim1 + (LD(c.xlim2) - c.xlim1) / (c.nx - 1) * j; }
  LD Y(int i) const { return c.ylim1 + (LD(c.ylim2) - c.ylim1) / (c.ny - 1) * i; }
  LD dx() const { return (LD(c.xlim2) - c.xlim1) / (c.nx - 1); }
  LD dy() const { return (LD(c.ylim2) - c.ylim1) / (c.ny - 1); }
  static constexpr LD PI = 3.14159265358979323846264338327950288L;
  LD ct(LD t) const { return cosl(PI * t / c.T_period); }
  LD u(LD x, LD y, LD t) const { return c.field ? vf_u<LD>(x, y, t, c.T_period, c.amp) : sinl(PI * x) * sinl(PI * x) * sinl(2 * PI * y) * ct(t); }
  LD v(LD x, LD y, LD t) const { return c.field ? vf_v<LD>(x, y, t, c.T_period, c.amp) : -sinl(PI * y) * sinl(PI * y) * sinl(2 * PI * x) * ct(t); }
  LD ux(LD x, LD y, LD t) const { return c.field ? vf_ux<LD>(x, y, t, c.T_period, c.amp) : PI * sinl(2 * PI * x) * sinl(2 * PI * y) * ct(t); }
  LD uy(LD x, LD y, LD t) const { return c.field ? vf_uy<LD>(x, y, t, c.T_period, c.amp) : 2 * PI * sinl(PI * x) * sinl(PI * x) * cosl(2 * PI * y) * ct(t); }
  LD vx(LD x, LD y, LD t) const { return c.field ? vf_vx<LD>(x, y, t, c.T_period, c.amp) : -2 * PI * sinl(PI * y) * sinl(PI * y) * cosl(2 * PI * x) * ct(t); }
  LD vy(LD x, LD y, LD t) const { return c.field ? vf_vy<LD>(x, y, t, c.T_period, c.amp) : -PI * sinl(2 * PI * x) * sinl(2 * PI * y) * ct(t); }
  LD bump(LD x, LD y) const { return expl(-((x - .5L) * (x - .5L) + (y - .75L) * (y - .75L))); }
  Sol init() const
  {
    Sol s;
    for (Fld *f : {&s.p, &s.px, &s.py, &s.pxy}) f->nx = c.nx, f->v.resize(c.nx * c.ny);
    for (unsigned i = 0; i < c.ny; ++i)
      for (unsigned j = 0; j < c.nx; ++j) {
        LD x = X(j), y = Y(i), e = bump(x, y);
        s.p(i, j) = c.field == 1 ? vf_p<LD>(x, y) : e - expl(-(LD).15 * (LD).15);
        s.px(i, j) = c.field == 1 ? vf_px<LD>(x, y) : -2 * (x - .5L) * e;
        s.py(i, j) = c.field == 1 ? vf_py<LD>(x, y) : -2 * (y - .75L) * e;
        s.pxy(i, j) = c.field == 1 ? vf_pxy<LD>(x, y) : 4 * (x - .5L) * (y - .75L) * e;
      }
    return s;
  }
  // cubic Hermite weights of (value0, value1, slope0*h, slope1*h) at e; d = 1: their derivative
  static void w(LD e, int d, LD *o)
  {
    if (!d)
      o[0] = (1 + 2 * e) * (1 - e) * (1 - e), o[1] = e * e * (3 - 2 * e), o[2] = e * (1 - e) * (1 - e), o[3] = e * e * (e - 1);
    else
      o[0] = 6 * e * (e - 1), o[1] = 6 * e * (1 - e), o[2] = (1 - e) * (1 - 3 * e), o[3] = e * (3 * e - 2);
  }
  LD H(Sol &s, int cx, int cy, LD x, LD y, int ddx, int ddy) const
  {
    LD a[4], b[4], hx = dx(), hy = dy(), r = 0;
    w((x - X(cx)) / hx, ddx, a), w((y - Y(cy)) / hy, ddy, b);
    for (int i = 0; i < 2; ++i)
      for (int j = 0; j < 2; ++j) {
        int q = cy + i, p = cx + j;
        r += a[j] * b[i] * s.p(q, p) + a[2 + j] * hx * b[i] * s.px(q, p) + a[j] * b[2 + i] * hy * s.py(q, p) + a[2 + j] * hx * b[2 + i] * hy * s.pxy(q, p);
      }
    if (ddx) r /= hx;
    if (ddy) r /= hy;
    return r;
  }
  // sides whose last node lies a rounding error off the side in some way of computing it (otherwise every way is exact)
  unsigned loose() const
  {
    auto dyadic = [](double v) { return v * 1024 == floor(v * 1024) && fabs(v) < 1024; };
    bool ex = ((c.nx - 1) & (c.nx - 2)) == 0 && c.nx <= 1025 && dyadic(c.xlim1) && dyadic(c.xlim2);
    bool ey = ((c.ny - 1) & (c.ny - 2)) == 0 && c.ny <= 1025 && dyadic(c.ylim1) && dyadic(c.ylim2);
    return (ex ? 0 : 1) | (ey ? 0 : 2);
  }
  // is the root coordinate strictly inside (lo,hi)? node: coordinate it started from; upper: index of the last node
  bool inside(LD r, LD node, LD lo, LD hi, bool first, bool last, unsigned bit, double disp, bool &low)
  {
    LD eps = 1e-11L * (1 + fabsl(lo) + fabsl(hi));
    low = r <= (lo + hi) / 2;
    if (fabsl(r - lo) > eps && fabsl(r - hi) > eps) return r > lo && r < hi;
    // on a side up to rounding: decided only if the node itself lies on that side and does not move at all
    // (disp: displacement as double arithmetic sees it)
    bool still = disp == 0 || disp <= ldexpl(1.0L, -53) * fabsl(node) * 0.1L;
    if (first && fabsl(r - lo) <= eps && still) return false;
    if (last && fabsl(r - hi) <= eps && still) {
      used = true;
      return bits & bit;
    }
    ambiguous = true;
    return false;
  }
  void step(Sol &s, unsigned t)
  {
    LD dt = c.dt, t0 = t * dt, t1 = (t + 1) * dt, th = t0 + dt / 2;
    bool rk = !strcmp(c.bt, "RK3");
    Sol o = s;
    int nx = c.nx, ny = c.ny;
    for (int i = 0; i < ny; ++i)
      for (int j = 0; j < nx; ++j) {
        LD x = X(j), y = Y(i);
        LD U = u(x, y, t1), V = v(x, y, t1), xr = x - U * dt, yr = y - V * dt;
        LD x1 = xr, y1 = yr, x2 = 0, y2 = 0;
        if (rk) {
          LD U1 = u(x1, y1, t0), V1 = v(x1, y1, t0);
          x2 = x - dt / 4 * (U + U1), y2 = y - dt / 4 * (V + V1);
          LD U2 = u(x2, y2, th), V2 = v(x2, y2, th);
          xr = x - dt / 6 * (U + U1 + 4 * U2), yr = y - dt / 6 * (V + V1 + 4 * V2);
        }
        bool xlow, ylow;
        double dpx = 0, dpy = 0;
        for (LD tt : {t0, th, t1}) {
          double a = (double)x, b = (double)y, ctd = c.field ? 1 : cos(M_PI * (double)tt / c.T_period);
          dpx = fmax(dpx, fabs(c.dt * (c.field ? (double)u(x, y, tt) : pow(sin(M_PI * a), 2) * sin(2 * M_PI * b) * ctd)));
          dpy = fmax(dpy, fabs(c.dt * (c.field ? (double)v(x, y, tt) : pow(sin(M_PI * b), 2) * sin(2 * M_PI * a) * ctd)));
        }
        bool xi = inside(xr, x, c.xlim1, c.xlim2, j == 0, j == nx - 1, 1, dpx, xlow);
        bool yi = inside(yr, y, c.ylim1, c.ylim2, i == 0, i == ny - 1, 2, dpy, ylow);
        auto cell = [](LD q, LD lo, LD h, int n) {
          int k = (int)floorl((q - lo) / h);
          return k < 0 ? 0 : k > n - 2 ? n - 2 : k;
        };
        int cx = xi ? cell(xr, c.xlim1, dx(), nx) : xlow ? 0 : nx - 2;
        int cy = yi ? cell(yr, c.ylim1, dy(), ny) : ylow ? 0 : ny - 2;
        ++kinds[xi ? (yi ? 1 : 2) : (yi ? 3 : 4)];
        if (xi && yi) {
          o.p(i, j) = H(s, cx, cy, xr, yr, 0, 0);
          LD a = H(s, cx, cy, xr, yr, 1, 0), b = H(s, cx, cy, xr, yr, 0, 1);
          if (!strcmp(c.psi, "Heuns")) {
            // d psi/dt = -(grad velocity)^T psi along the characteristic, Heun; the y part uses the updated x part
            LD ka = ux(xr, yr, t0) * a + vx(xr, yr, t0) * b, kb = uy(xr, yr, t0) * a + vy(xr, yr, t0) * b;
            LD ta = a - dt * ka, tb = b - dt * kb;
            LD na = a - dt / 2 * (ka + ux(x, y, t1) * ta + vx(x, y, t1) * tb);
            LD nb = b - dt / 2 * (kb + uy(x, y, t1) * na + vy(x, y, t1) * tb);
            o.px(i, j) = na, o.py(i, j) = nb;
          } else {
            // psi = (d root / d node)^T psi(root)
            LD J[2][2] = {{1 - dt * ux(x, y, t1), -dt * uy(x, y, t1)}, {-dt * vx(x, y, t1), 1 - dt * vy(x, y, t1)}};
            if (rk) {
              LD G0[2][2] = {{ux(x, y, t1), uy(x, y, t1)}, {vx(x, y, t1), vy(x, y, t1)}};
              LD G1[2][2] = {{ux(x1, y1, t0), uy(x1, y1, t0)}, {vx(x1, y1, t0), vy(x1, y1, t0)}};
              LD G2[2][2] = {{ux(x2, y2, th), uy(x2, y2, th)}, {vx(x2, y2, th), vy(x2, y2, th)}};
              LD K1[2][2], K2[2][2], J2[2][2];
              for (int r = 0; r < 2; ++r)
                for (int q = 0; q < 2; ++q) {
                  K1[r][q] = G1[r][0] * J[0][q] + G1[r][1] * J[1][q];
                  J2[r][q] = (r == q) - dt / 4 * (G0[r][q] + K1[r][q]);
                }
              for (int r = 0; r < 2; ++r)
                for (int q = 0; q < 2; ++q) K2[r][q] = G2[r][0] * J2[0][q] + G2[r][1] * J2[1][q];
              for (int r = 0; r < 2; ++r)
                for (int q = 0; q < 2; ++q) J[r][q] = (r == q) - dt / 6 * (G0[r][q] + K1[r][q] + 4 * K2[r][q]);
            }
            o.px(i, j) = J[0][0] * a + J[1][0] * b;
            o.py(i, j) = J[0][1] * a + J[1][1] * b;
          }
        } else if (xi) {
          LD a = H(s, cx, cy, xr, y, 1, 0), b = s.py(i, j), m = s.pxy(i, j), q = s.px(i, j);
          o.p(i, j) = H(s, cx, cy, xr, y, 0, 0) - dt * v(x, y, t0) * b;
          LD k0 = vx(x, y, t0) * b + v(x, y, t0) * m + ux(x, y, t0) * q;
          LD pr = a - dt * k0;
          o.px(i, j) = a - dt / 2 * (k0 + vx(x, y, t1) * b + v(x, y, t1) * m + ux(x, y, t1) * pr);
        } else if (yi) {
          LD a = s.px(i, j), b = H(s, cx, cy, x, yr, 0, 1), m = s.pxy(i, j), q = s.py(i, j);
          o.p(i, j) = H(s, cx, cy, x, yr, 0, 0) - dt * u(x, y, t0) * a;
          LD k0 = uy(x, y, t0) * a + u(x, y, t0) * m + vy(x, y, t0) * q;
          LD pr = b - dt * k0;
          o.py(i, j) = b - dt / 2 * (k0 + uy(x, y, t1) * a + u(x, y, t1) * m + vy(x, y, t1) * pr);
        } else
          o.p(i, j) = s.p(i, j) - dt * (u(x, y, t0) * s.px(i, j) + v(x, y, t0) * s.py(i, j));
      }
    LD hx = dx(), hy = dy();
    for (int i = 0; i < ny; ++i)
      for (int j = 0; j < nx; ++j) {
        bool ex = j == 0 || j == nx - 1, ey = i == 0 || i == ny - 1;
        if (ex && ey) {
          // mixed derivative at the four edge midpoints of the corner cell, extrapolated to the corner
          int j0 = j ? nx - 2 : 0, i0 = i ? ny - 2 : 0, jo = j ? nx - 2 : 1, io = i ? ny - 2 : 1;
          LD nearx = (o.py(i, j0 + 1) - o.py(i, j0)) / hx, farx = (o.py(io, j0 + 1) - o.py(io, j0)) / hx;
          LD neary = (o.px(i0 + 1, j) - o.px(i0, j)) / hy, fary = (o.px(i0 + 1, jo) - o.px(i0, jo)) / hy;
          o.pxy(i, j) = .75L * (nearx + neary) - .25L * (farx + fary);
        } else if (ey)
          o.pxy(i, j) = (o.py(i, j + 1) - o.py(i, j - 1)) / (2 * hx);
        else if (ex)
          o.pxy(i, j) = (o.px(i + 1, j) - o.px(i - 1, j)) / (2 * hy);
        else
          o.pxy(i, j) = ((o.py(i, j + 1) - o.py(i, j - 1)) / (2 * hx) + (o.px(i + 1, j) - o.px(i - 1, j)) / (2 * hy)) / 2;
      }
    s = o;
  }
  struct Frame {
    Vd f[6];
  };
  std::vector<Frame> frames;
  unsigned n, every;
  void print(Sol &s, LD t)
  {
    Frame f;
    f.f[0] = s.p.v, f.f[1] = s.px.v, f.f[2] = s.py.v, f.f[3] = s.pxy.v;
    for (unsigned i = 0; i < c.ny; ++i)
      for (unsigned j = 0; j < c.nx; ++j) f.f[4].push_back(u(X(j), Y(i), t)), f.f[5].push_back(v(X(j), Y(i), t));
    frames.push_back(f);
  }
  Model(const RCfg &c_, unsigned bits_) : c(c_), bits(bits_), ambiguous(false), used(false)
  {
    memset(kinds, 0, sizeof kinds);
    n = (unsigned)(c.Tfinal / c.dt);
    every = c.option != 1 ? n : c.printstep;
    Sol s = init();
    print(s, 0);
    for (unsigned t = 0; t < n; ++t) {
      step(s, t);
      if (ambiguous) return;
      if ((t + 1) % every == 0) print(s, (t + 1) * (LD)c.dt);
    }
  }
};
