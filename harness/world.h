// Everything a library operation can touch: a grid, two scalar/vector/matrix arrays, a level set, a velocity container.
#pragma once
#include <functional>
#include "elem.h"
#include "hermite_model.h"
template <class AR>
struct ElOf;
template <class TG, class E>
struct ElOf<GALS::CPU::Array<TG, E>> {
  typedef E type;
};
enum { F_S1, F_S2, F_V1, F_V2, F_M1, F_PHI, F_PSI, F_MIX, F_PHIP, F_PSIP, F_MIXP, F_PHII, F_PSII, F_VEL, F_VGRAD, F_POS, NFIELDS };
static const char *fname[] = {"s1", "s2", "v1", "v2", "m1", "phi", "psi", "mixed", "phiPrev", "psiPrev", "mixedPrev", "phiInterpPrev", "psiInterpPrev", "velocity", "velocityGradient", "positions"};
template <int D>
struct World {
  int n[3], pad;
  Box b;
  LD h[3];
  GridOf<D> gr;
  G<D> &g;
  A<D, double> s1, s2;
  A<D, V3> v1, v2;
  A<D, M3> m1;
  LS<D> l;
  LV<D> v;
  A<D, V3> pos;
  GALS::INPUT_FIELDS::Levelset li;
  GALS::INPUT_FIELDS::Velocity vi;
  World(const int *n_, int pad_, const Box &b_) : pad(pad_), b(b_), gr(n_, pad_, b_), g(gr.g), s1(g), s2(g), v1(g), v2(g), m1(g), l(g), v(g), pos(g)
  {
    for (int a = 0; a < 3; ++a) n[a] = n_[a], h[a] = spacing(b, n, a);
  }
  // a world on another world's grid (own fields)
  World(World &o) : pad(o.pad), b(o.b), gr(o.n, o.pad, o.b), g(o.g), s1(g), s2(g), v1(g), v2(g), m1(g), l(g), v(g), pos(g)
  {
    for (int a = 0; a < 3; ++a) n[a] = o.n[a], h[a] = o.h[a];
  }
  template <class F>
  void fields(F f)
  {
    f(s1, F_S1), f(s2, F_S2), f(v1, F_V1), f(v2, F_V2), f(m1, F_M1);
    f(l.phi(), F_PHI), f(l.psi(), F_PSI), f(l.phiMixedDerivatives(), F_MIX), f(l.phiPrev(), F_PHIP), f(l.psiPrev(), F_PSIP);
    f(l.phiMixedDerivativesPrev(), F_MIXP), f(l.phiInterpPrev(), F_PHII), f(l.psiInterpPrev(), F_PSII);
    f(v.velocity(), F_VEL), f(v.velocityGradient(), F_VGRAD), f(pos, F_POS);
  }
  // inputs generic; outs (bit mask) hold a poison that depends on `poison`
  void fill(uint64_t salt, unsigned outs, int poison, double dt)
  {
    fields([&](auto &f, int id) {
      typedef typename ElOf<typename std::remove_reference<decltype(f)>::type>::type E;
      for (size_t t = 0; t < f.size(); ++t)
        for (int c = 0; c < El<E>::N; ++c) {
          double x = outs >> id & 1 ? (poison ? -1 : 1) * (1e17 + 1e13 * gen(t, id * 16 + c + poison)) : 0.7 * gen(t, salt * 1000 + id * 16 + c);
          El<E>::set(f[t], c, x);
        }
    });
    nodes<D>(n, pad, [&](int i, int j, int k) {
      // query positions and velocities keep every root inside the padded span
      V3 p(0, 0, 0);
      for (int a = 0; a < D; ++a) {
        p[a] = (double)(coord(b, n, a, 0) + h[a] * ((gen(g.index(i, j, k), salt + 500 + a) * 0.5L + 0.5L) * (n[a] + 2 * pad - 1 - 2e-6L) - pad + 1e-6L));
        if (!(outs >> F_VEL & 1)) v.velocity()(i, j, k)[a] = (double)(gen(g.index(i, j, k), salt + 600 + a) * h[a] * (pad - 0.01L) / (fabs(dt) + 1e-9));
      }
      pos(i, j, k) = p;
    });
  }
  std::vector<std::vector<double>> snapshot()
  {
    std::vector<std::vector<double>> r(NFIELDS + 1);
    fields([&](auto &f, int id) {
      typedef typename ElOf<typename std::remove_reference<decltype(f)>::type>::type E;
      for (size_t t = 0; t < f.size(); ++t)
        for (int c = 0; c < El<E>::N; ++c) r[id].push_back(El<E>::get(f[t], c));
    });
    auto &q = r[NFIELDS];
    nodes<D>(n, pad, [&](int i, int j, int k) {
      for (int c = 0; c < 3; ++c) q.push_back(const_cast<const G<D> &>(g)(i, j, k)[c]);
    });
    for (int c = 0; c < 3; ++c) q.push_back(g.dX()[c]), q.push_back(g.oneOverDX()[c]), q.push_back(g.numCells()[c]), q.push_back(g.getMask()[c]);
    q.push_back(g.size()), q.push_back(g.getPadding()), q.push_back(g.totalCells()), q.push_back(g.dimension());
    q.push_back(li.radius), q.push_back(vi.name.size()), q.push_back(li.name.size()), q.push_back(vi.gradient_scheme.size());
    for (int c = 0; c < 3; ++c) q.push_back(li.center[c]), q.push_back(vi.center.at(c)), q.push_back(vi.vector.at(c));
    return r;
  }
};
struct OpInfo {
  const char *name;
  unsigned outs;
  int minpad;
};
enum { OP_G2S, OP_G3S, OP_G2V, OP_G3V, OP_HERM, OP_HERMQ, OP_LIM, OP_CIRCLE, OP_ROT_A, OP_ROT_N, OP_UNKNOWN, OP_EULER, OP_SL, OP_LIN, OP_GPHI, OP_GVEL, NOPS };
#define BIT(x) (1u << (x))
static const OpInfo ops[] = {
    {"second-order scalar gradient", BIT(F_V1), 1},
    {"third-order scalar gradient", BIT(F_V1), 2},
    {"second-order vector gradient", BIT(F_M1), 1},
    {"third-order vector gradient", BIT(F_M1), 2},
    {"Hermite interpolation of the level set", BIT(F_PHII) | BIT(F_PSII), 1},
    {"Hermite interpolation at positions of a second grid", BIT(F_PHII) | BIT(F_PSII), 1},
    {"limited Hermite point interpolation", 0, 1},
    {"circle level set", BIT(F_PHI), 1},
    {"rotation velocity with analytical gradient", BIT(F_VEL) | BIT(F_VGRAD), 1},
    {"rotation velocity without gradient", BIT(F_VEL), 1},
    {"unknown field names", 0, 1},
    {"explicit Euler step", BIT(F_PHI), 1},
    {"semi-Lagrangian step", BIT(F_PHI) | BIT(F_PSI) | BIT(F_PHII) | BIT(F_PSII), 1},
    {"linear interpolation", BIT(F_S2), 1},
    {"gradient of the level set", BIT(F_PSI), 2},
    {"gradient of the velocity", BIT(F_VGRAD), 1},
};
template <int D>
struct OnlyD1 {
  static void linear(World<D> &) {}
};
template <>
struct OnlyD1<1> {
  static void linear(World<1> &w) { GALS::CPU::Interpolate<double, G<1>, GALS::INTERPOLATION::Linear<double, G<1>>>::compute(w.pos, w.s1, w.s2); }
};
template <int D>
bool applicable(int op, int pad)
{
  if (pad < ops[op].minpad) return false;
  if (op == OP_LIN && D != 1) return false;
  if ((op == OP_ROT_A || op == OP_ROT_N) && D == 1) return false;
  return true;
}
template <int D>
// (salt: other values and, from 2 on, a name that is known in one role only)
void set_inputs(World<D> &w, int op, int salt = 0)
{
  w.li.name = op == OP_UNKNOWN ? "SQUARE" : "CIRCLE";
  w.li.center = V3(0.3, -0.2, D > 2 ? 0.1 : 0);
  w.li.radius = 0.35;
  w.vi.name = op == OP_UNKNOWN ? "SHEAR" : "CIRCULAR";
  w.vi.center = std::vector<double>{0.1, 0.4, -0.3};
  w.vi.vector = std::vector<double>{1.5, -2.5, 0.5};
  w.vi.gradient_scheme = op == OP_ROT_A ? "ANALYTICAL" : "NUMERICAL";
  if (salt == 0) return;
  w.li.center = V3(0.3 - 0.4 * salt, -0.2 + 0.05 * salt, D > 2 ? 0.1 * salt : 0);
  w.li.radius = salt % 2 ? 0.35 + salt : 0.35;
  w.vi.center = std::vector<double>{0.1 + (salt % 3), 0.4 - salt, -0.3};
  if (op == OP_UNKNOWN) w.li.name = salt % 2 ? "CIRCLES" : "", w.vi.name = salt % 2 ? "CIRCLE" : "CIRCULAR_X";
}
// The operation itself; res receives the value of pure functions.
template <int D>
void apply(World<D> &w, int op, double dt, std::vector<double> &res)
{
  using namespace GALS::CPU;
  switch (op) {
    case OP_G2S:
      Gradient<double, G<D>, SecondOrderCentral<double, G<D>>>::compute(w.s1, w.v1);
      break;
    case OP_G3S:
      Gradient<double, G<D>, ThirdOrder<double, G<D>>>::compute(w.s1, w.v1);
      break;
    case OP_G2V:
      Gradient<double, G<D>, SecondOrderCentral<double, G<D>>>::compute(w.v2, w.m1);
      break;
    case OP_G3V:
      Gradient<double, G<D>, ThirdOrder<double, G<D>>>::compute(w.v2, w.m1);
      break;
    case OP_HERM:
      Interpolate<double, G<D>, GALS::INTERPOLATION::Hermite<double, G<D>>>::compute(w.pos, w.l);
      break;
    case OP_HERMQ: {
      int m[3];
      for (int a = 0; a < 3; ++a) m[a] = (w.n[a] + 1) / 2;
      GridOf<D> q(m, 2, boxes[1]);
      A<D, V3> x(q.g);
      interior(m, [&](int i, int j, int k) { x(i, j, k) = w.pos(i, j, k); });
      Interpolate<double, G<D>, GALS::INTERPOLATION::Hermite<double, G<D>>>::compute(x, w.l);
      break;
    }
    case OP_LIM:
      interior(w.n, [&](int i, int j, int k) {
        if ((i + j + k) % 7) return;
        for (int lim = 0; lim < 2; ++lim) {
          auto r = GALS::INTERPOLATION::Hermite<double, G<D>>().interpolate(w.g, w.pos(i, j, k), w.l, lim == 0);
          res.push_back(r.phi_interpolated);
          for (int a = 0; a < D; ++a) res.push_back(r.psi_interpolated[a]);
        }
        const I3 bn = w.g.baseNodeId(w.pos(i, j, k));
        for (int a = 0; a < D; ++a) res.push_back(bn[a]);
      });
      break;
    case OP_CIRCLE:
      GALS::ANALYTICAL_FIELDS::Levelset<G<D>, double>(w.g, w.li).compute(w.pos, w.l);
      break;
    case OP_ROT_A:
    case OP_ROT_N:
      GALS::ANALYTICAL_FIELDS::Velocity<G<D>, double>(w.g, w.vi).compute(w.pos, 0.25, w.v);
      break;
    case OP_UNKNOWN:
      GALS::ANALYTICAL_FIELDS::Levelset<G<D>, double>(w.g, w.li).compute(w.pos, w.l);
      GALS::ANALYTICAL_FIELDS::Velocity<G<D>, double>(w.g, w.vi).compute(w.pos, 0.25, w.v);
      break;
    case OP_EULER:
      Temporal<double, G<D>, GALS::TEMPORAL_SCHEMES::Euler<double, G<D>>>::compute(dt, w.v, w.l);
      break;
    case OP_SL:
      Temporal<double, G<D>, GALS::TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<double, G<D>>>::compute(dt, w.v, w.l);
      break;
    case OP_LIN:
      OnlyD1<D>::linear(w);
      break;
    case OP_GPHI:
      Gradient<double, G<D>>::compute(w.l.phi(), w.l.psi());
      break;
    case OP_GVEL:
      Gradient<double, G<D>, SecondOrderCentral<double, G<D>>>::compute(w.v.velocity(), w.v.velocityGradient());
      break;
  }
}
