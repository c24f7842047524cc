// C09: gradient limiting. Exact integer lattices (ties decided exactly), generic data, all grid lines in 1D/2D/3D.
#include "hermite_model.h"
template <int D>
using He = GALS::INTERPOLATION::Hermite<double, G<D>>;

// The limiter rule as stated. Quantities within tol of a tie may go either way: all admissible outcomes are returned.
struct Ctl {
  LD c[4];
};
static void limited(LD p0, LD s0, LD p1, LD s1, LD h, LD tol, std::vector<Ctl> &out)
{
  Ctl k = {{p0, p0 + h * s0 / 3, p1 - h * s1 / 3, p1}};
  LD D1 = 3 * (k.c[1] - k.c[0]), D2 = 3 * (k.c[3] - k.c[2]), D3 = 1.5L * (k.c[2] - k.c[0]), D4 = 1.5L * (k.c[3] - k.c[1]), D5 = k.c[3] - k.c[0];
  LD sc = fabsl(p0) + fabsl(p1) + h * (fabsl(s0) + fabsl(s1));
  auto sign = [&](LD a, LD b, int &lo, int &hi) {  // possible signs of a*b
    int la = a > tol * sc ? 1 : a < -tol * sc ? -1 : tol > 0 ? -1 : 0, ha = a > tol * sc ? 1 : a < -tol * sc ? -1 : tol > 0 ? 1 : 0;
    int lb = b > tol * sc ? 1 : b < -tol * sc ? -1 : tol > 0 ? -1 : 0, hb = b > tol * sc ? 1 : b < -tol * sc ? -1 : tol > 0 ? 1 : 0;
    int v[4] = {la * lb, la * hb, ha * lb, ha * hb};
    lo = hi = v[0];
    for (int q : v) lo = q < lo ? q : lo, hi = q > hi ? q : hi;
  };
  int l1, h1, l2, h2, l3, h3;
  sign(D1 - D3, D1 - D5, l1, h1);
  sign(D2 - D4, D2 - D5, l2, h2);
  sign(D1 - D5, D2 - D5, l3, h3);
  if (l1 < 0) {
    Ctl r = k;
    r.c[2] = 2 * k.c[1] - k.c[0];
    out.push_back(r);
  }
  if (h1 < 0) return;
  if (l2 < 0) {
    Ctl r = k;
    r.c[1] = 2 * k.c[2] - k.c[3];
    out.push_back(r);
  }
  if (h2 < 0) return;
  if (l3 <= 0) {
    Ctl r = k;
    r.c[1] = (2 * k.c[0] + k.c[3]) / 3, r.c[2] = (2 * k.c[3] + k.c[0]) / 3;
    out.push_back(r);
  }
  if (h3 > 0) out.push_back(k);
}
static void bez(const Ctl &k, LD t, LD h, LD &f, LD &d)
{
  LD s = 1 - t;
  f = k.c[0] * s * s * s + 3 * k.c[1] * t * s * s + 3 * k.c[2] * t * t * s + k.c[3] * t * t * t;
  d = 3 * ((k.c[1] - k.c[0]) * s * s + 2 * (k.c[2] - k.c[1]) * s * t + (k.c[3] - k.c[2]) * t * t) / h;
}

template <int D>
struct Cell {
  int n[3], pad;
  Box b;
  GridOf<D> *g;
  LS<D> *l;
  LD h[3];
  Cell(const int *n_, int pad_, const Box &b_) : pad(pad_), b(b_)
  {
    for (int a = 0; a < 3; ++a) n[a] = n_[a], h[a] = spacing(b, n, a);
    g = new GridOf<D>(n, pad, b);
    l = new LS<D>(g->g);
    fill_decoy<D>(*l, 1e9);
  }
  ~Cell() { delete l, delete g; }
};

// Evaluate along axis ax from node id, the other axes at offset off[] (0: on the line, 1: line at the far side of the
// cell, approached from inside).
template <int D>
void edge(Cell<D> &c, int ax, const int *id, const int *off, LD t, bool exact, bool plain = true)
{
  int far[3] = {id[0], id[1], id[2]};
  V3 x(0, 0, 0);
  bool approach = false;
  const LD eps = 1.0L / (1ull << 30);
  for (int a = 0; a < D; ++a) {
    LD q = a == ax ? t : off[a] ? 1 - eps : 0;
    if (a != ax && off[a]) far[a] += 1, approach = true;
    x[a] = (double)(coord(c.b, c.n, a, id[a]) + q * c.h[a]);
  }
  int nx[3] = {far[0] + (ax == 0), far[1] + (ax == 1), far[2] + (ax == 2)};
  const LS<D> &l = *c.l;
  LD p0 = l.phiPrev()(far[0], far[1], far[2]), s0 = l.psiPrev()(far[0], far[1], far[2])[ax];
  LD p1 = l.phiPrev()(nx[0], nx[1], nx[2]), s1 = l.psiPrev()(nx[0], nx[1], nx[2])[ax];
  std::vector<Ctl> ok;
  limited(p0, s0, p1, s1, c.h[ax], exact ? 0 : 1e-12L, ok);
  LD tt = ((LD)x[ax] - coord(c.b, c.n, ax, id[ax])) / c.h[ax];
  auto r = He<D>().interpolate(c.g->g, x, l, true);
  mc::step();
  LD mag = 1e-300L;
  // scale of the whole cell: other corners leak in when the line is approached from inside
  for (int q = 0; q < (1 << D); ++q) {
    int i = id[0] + (q & 1), j = id[1] + (q >> 1 & 1), k = id[2] + (q >> 2);
    mag = fmaxl(mag, fabsl(l.phiPrev()(i, j, k)));
    for (int a = 0; a < D; ++a) mag = fmaxl(mag, fabsl(l.psiPrev()(i, j, k)[a] * c.h[a]));
  }
  LD cond = 1;
  for (int a = 0; a < D; ++a) cond = fmaxl(cond, box_scale(c.b, c.n, c.pad, a) / c.h[a]);
  LD tol = (approach ? 4e-7L : 1e-12L * cond);
  bool good = false;
  LD wf = 0, wd = 0;
  for (auto &k : ok) {
    LD f, d;
    bez(k, tt, c.h[ax], f, d);
    wf = f, wd = d;
    if (mc::close_to(r.phi_interpolated, f, mag, tol) && mc::close_to(r.psi_interpolated[ax], d, mag / c.h[ax], tol * 4)) good = true;
  }
  if (!good)
    mc::fail("limited %dD interpolation along axis %d at t=%.6Lg (offset %d%d%d), edge data (%.17Lg,%.17Lg,%.17Lg,%.17Lg) h=%.6Lg: value %.17g slope %.17g, rule gives %.17Lg, %.17Lg", D, ax, tt, off[0], off[1], off[2], p0, s0, p1, s1, c.h[ax],
             r.phi_interpolated, r.psi_interpolated[ax], wf, wd);
  // not requested: plain Hermite cubic of the edge (only when exactly on the line)
  if (!approach && plain) {
    Ctl k = {{p0, p0 + c.h[ax] * s0 / 3, p1 - c.h[ax] * s1 / 3, p1}};
    LD f, d;
    bez(k, tt, c.h[ax], f, d);
    for (int dflt = 0; dflt < 2; ++dflt) {
      auto u = dflt ? He<D>().interpolate(c.g->g, x, l) : He<D>().interpolate(c.g->g, x, l, false);
      if (!mc::close_to(u.phi_interpolated, f, mag, tol) || !mc::close_to(u.psi_interpolated[ax], d, mag / c.h[ax], tol * 4)) mc::fail("control values adjusted although limiting was not requested (%dD axis %d t=%.6Lg)", D, ax, tt);
    }
  }
  // at the node itself the nodal value survives
  if (t == 0 && !approach && !mc::close_to(r.phi_interpolated, p0, mag, tol)) mc::fail("limited interpolation moves the nodal value");
}

static const LD ts[] = {0, 0.125L, 0.25L, 0.5L, 0.75L, 0.9375L};

template <int D>
void lattice()
{
  // integer lattice (multiples of three, dyadic spacing): every tie is exact
  const int R = mc::thorough ? 5 : (D == 1 ? 5 : 4), W = 2 * R + 1;
  for (int ax = 0; ax < D; ++ax)
    for (int off = 0; off < (1 << (D - 1)); ++off)
      for (int u = 0; u < W * (D == 1 ? W : 1); ++u)
        for (int hs = 0; hs < (D == 1 ? 3 : mc::thorough ? 3 : 1); ++hs) {
          if (!mc::begin("dim %d axis %d side %d: integer lattice block %d, spacing set %d", D, ax, off, u, hs)) continue;
          int n[3] = {2, D > 1 ? 2 : 1, D > 2 ? 2 : 1};
          Box b = {{0, 0, 0}, {0, 0, 0}, "dyadic"};
          static const double hh[3][3] = {{1, 1, 1}, {0.5, 2, 1}, {4, 1, 0.5}};
          for (int a = 0; a < 3; ++a) b.lo[a] = -8, b.hi[a] = -8 + n[a] * hh[hs][a];
          Cell<D> c(n, 1, b);
          fill_generic<D>(*c.l, c.h, 1, u);
          int id[3] = {0, 0, 0}, of[3] = {0, 0, 0}, bit = 0;
          for (int a = 0; a < D; ++a)
            if (a != ax) of[a] = off >> bit++ & 1;
          int n0[3], n1[3];
          for (int a = 0; a < 3; ++a) n0[a] = id[a] + of[a], n1[a] = n0[a] + (a == ax);
          for (int v = 0; v < W; ++v)
            for (int w = 0; w < W; ++w) {
              double p0 = D == 1 ? 3.0 * (u / W - R) : 3.0, s0 = 3.0 * (u % W - R), p1 = p0 + 3.0 * (v - R), s1 = 3.0 * (w - R);
              // slopes per unit cell: keep h*s/3 an integer
              c.l->phiPrev()(n0[0], n0[1], n0[2]) = p0;
              c.l->phiPrev()(n1[0], n1[1], n1[2]) = p1;
              c.l->psiPrev()(n0[0], n0[1], n0[2])[ax] = s0 / (double)c.h[ax];
              c.l->psiPrev()(n1[0], n1[1], n1[2])[ax] = s1 / (double)c.h[ax];
              mc::state();
              for (int q = 0; q < (D == 1 ? 6 : 4); ++q) edge<D>(c, ax, id, of, ts[D == 1 ? q : (q * 2 + v) % 6], true);
            }
        }
  // generic real data, all boxes, all cells of small grids incl. ghost cells
  for (int bx = 0; bx < NB; ++bx)
    for (int pad = 1; pad <= 3; ++pad) {
      if (!mc::begin("dim %d box %s padding %d: generic data on all grid lines", D, boxes[bx].name, pad)) continue;
      int n[3] = {D == 1 ? 40 : 4, D > 1 ? 3 : 1, D > 2 ? 2 : 1};
      Cell<D> c(n, pad, boxes[bx]);
      for (int salt = 0; salt < (mc::thorough ? 60 : 12); ++salt) {
        static const double mags[] = {1, 1e-6, 1e6, 20, 1e-30, 1e30};
        fill_generic<D>(*c.l, c.h, mags[salt % 6], salt * 1000 + bx);
        nodes<D>(n, pad, [&](int i, int j, int k) {
          int id[3] = {i, j, k};
          for (int a = 0; a < D; ++a)
            if (id[a] == n[a] + pad - 1 || id[a] == -pad) return;
          mc::state();
          for (int ax = 0; ax < D; ++ax) {
            int of[3] = {0, 0, 0};
            if (D > 1)
              for (int a = 0; a < D; ++a) of[a] = a != ax ? (i + j + k + salt + a) & 1 : 0;
            for (int a = 0; a < D; ++a)
              if (a != ax) of[a] = 1;  // approached from inside: independent of which side rounding puts the line
            edge<D>(c, ax, id, of, D == 1 && salt % 2 ? 0.375L : ts[1 + (i + salt + 7 * pad) % 5], false);
          }
        });
      }
    }
  // dyadic boxes: exactly on the lines, generic data
  for (int sh = 0; sh < 3; ++sh)
    for (int pad = 1; pad <= 2; ++pad) {
      if (!mc::begin("dim %d dyadic box %d padding %d: generic data on all grid lines", D, sh, pad)) continue;
      int n[3] = {D == 1 ? 40 : 4, D > 1 ? 3 : 1, D > 2 ? 2 : 1};
      Cell<D> c(n, pad, dyadic(n, sh));
      for (int salt = 0; salt < (mc::thorough ? 100 : 25); ++salt) {
        fill_generic<D>(*c.l, c.h, 1 + salt, salt * 7 + sh);
        nodes<D>(n, pad, [&](int i, int j, int k) {
          int id[3] = {i, j, k}, of[3] = {0, 0, 0};
          for (int a = 0; a < D; ++a)
            if (id[a] == n[a] + pad - 1) return;
          mc::state();
          for (int ax = 0; ax < D; ++ax) edge<D>(c, ax, id, of, ts[(i + j + k + salt + 7 * pad) % 6], false);
        });
      }
    }
}

// The same level set through every sequence of in-place changes; one point on a grid line, limited and not, after every
// operation. The point lies on a grid line of each of the boxes.
template <int D>
void history()
{
  for (int ax = 0; ax < D; ++ax)
    histories(ax == 0 ? "limiting along x" : ax == 1 ? "limiting along y" : "limiting along z", D, 6, mc::thorough ? 6 : D == 3 ? 4 : 5, [&](const std::vector<int> &seq) {
      static const Box lb[] = {{{0, 0, 0}, {2, 2, 2}, "dyadic"}, {{-1, -1, -1}, {1, 1, 1}, "dyadic"}, {{-0.5, -0.5, -0.5}, {3.5, 3.5, 3.5}, "dyadic"}};
      static const int base[] = {0, 1, 0};
      static const LD tt[] = {0.25L, 0.25L, 0.125L};
     for (int mixed = 0; mixed < 2; ++mixed) {  // limited evaluations only / limited and plain ones in turn
      int n[3] = {2, D > 1 ? 2 : 1, D > 2 ? 2 : 1}, box = 0, cur = 0, cnt = 0;
      if (D < 3)
        for (int a = D; a < 3; ++a) n[a] = 1;
      Cell<D> c0(n, 2, lb[0]), c1(n, 2, lb[0]);
      Cell<D> *c[2] = {&c0, &c1};
      fill_generic<D>(*c0.l, c0.h, 1, 3), fill_generic<D>(*c1.l, c1.h, 1, 5);
      int boxes_of[2] = {0, 0};
      auto look = [&] {
        int id[3] = {0, 0, 0}, of[3] = {0, 0, 0};
        for (int a = 0; a < D; ++a) id[a] = base[box];
        mc::state();
        for (int rep = 0; rep < 2; ++rep) edge<D>(*c[cur], ax, id, of, tt[box], false, mixed);
      };
      look();
      for (int op : seq) {
        ++cnt;
        int nd[3] = {base[box], D > 1 ? base[box] : 0, D > 2 ? base[box] : 0};
        if (cnt % 2) ++nd[ax];
        if (op == 0) c[cur]->l->phiPrev()(nd[0], nd[1], nd[2]) += 0.75;
        if (op == 1) c[cur]->l->psiPrev()(nd[0], nd[1], nd[2])[ax] *= -1.5;
        if (op == 2) fill_generic<D>(*c[cur]->l, c[cur]->h, 1, 100 + cnt);
        if (op == 3) {
          boxes_of[cur] = box = (box + 1) % 3;
          c[cur]->b = lb[box];
          generate(c[cur]->g->g, lb[box]);
          for (int a = 0; a < 3; ++a) c[cur]->h[a] = spacing(lb[box], n, a);
        }
        if (op == 4) cur = !cur, box = boxes_of[cur];
        if (op == 5) c[cur]->l->psiPrev()(nd[0], nd[1], nd[2])[ax] = 0;
        look();
      }
     }
    });
}
int main(int argc, char **argv)
{
  mc::init(argc, argv);
  lattice<1>(), lattice<2>(), lattice<3>();
  history<1>(), history<2>(), history<3>();
  mc::finish();
}
