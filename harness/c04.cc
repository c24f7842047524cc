// C04: arrays and containers behave as independent maps from node to value.
#include "elem.h"

template <int D, class E>
struct Model {
  std::vector<double> v;  // (slot, component)
  Model(size_t slots) : v(slots * (El<E>::N ? El<E>::N : 1), 0.0) {}
};

// Reads every node of the array through every accessor and compares with the model.
template <int D, class E>
void compare(A<D, E> &a, const std::vector<double> &m, const int *n, int pad, const char *what)
{
  const A<D, E> &c = a;
  size_t s = 0;
  const int N = El<E>::N;
  const auto &d = c.data();
  nodes<D>(n, pad, [&](int i, int j, int k) {
    mc::state();
    const E *r[] = {&a(i, j, k), &c(i, j, k), &a(I3(i, j, k)), &c(I3(i, j, k)), &a[s], &c[s], &d[s]};
    for (int q = 0; q < 7; ++q)
      for (int p = 0; p < N; ++p) {
        double g = El<E>::get(*r[q], p), w = m[s * N + p];
        if (!same_bits(&g, &w, 8)) mc::fail("%s: node (%d,%d,%d) component %d read through accessor %d gives %g, expected %g", what, i, j, k, p, q, g, w);
      }
    ++s;
  });
  if (s != c.size() || s != d.size()) mc::fail("%s: size() is %zu, expected %zu", what, c.size(), s);
}

template <int D, class E>
void write(A<D, E> &a, std::vector<double> &m, int acc, int i, int j, int k, size_t slot, double v)
{
  const int N = El<E>::N;
  E e = make_el<E>(v);
  for (int p = 0; p < N; ++p) m[slot * N + p] = El<E>::get(e, p);
  if (acc == 0)
    a(i, j, k) = e;
  else if (acc == 1)
    a(I3(i, j, k)) = e;
  else if (acc == 2)
    a[slot] = e;
  else
    for (int p = 0; p < N; ++p) El<E>::set(a(i, j, k), p, El<E>::get(e, p));
}

template <int D>
size_t slot_of(const int *n, int pad, int i, int j, int k)
{
  size_t W = n[0] + 2 * pad, H = D > 1 ? n[1] + 2 * pad : 1;
  return (D > 2 ? (k + pad) * W * H : 0) + (D > 1 ? (j + pad) * W : 0) + (i + pad);
}

// All operation sequences of bounded length over three arrays (a, b on one grid, c on an equal grid of its own).
template <int D, class E>
void histories()
{
  const int n[3] = {2, D > 1 ? 1 : 1, 1}, pad = 1;
  GridOf<D> g1(n, pad, boxes[0]), g2(n, pad, boxes[1]);
  size_t slots = g1.g.size();
  const int NOPS = 22;
  int depth = mc::thorough ? 4 : 3;
  int nodes3[3][3] = {{0, 0, 0}, {1, 0, 0}, {-1, D > 1 ? -1 : 0, D > 2 ? -1 : 0}};
  long per = NOPS * NOPS;
  long outer = 1;
  for (int d = 0; d < depth - 2; ++d) outer *= NOPS;
  for (long o = 0; o < outer; ++o) {
    if (!mc::begin("dim %d element %s: all operation sequences starting with %ld", D, El<E>::name(), o)) continue;
    for (long q = 0; q < per; ++q) {
      A<D, E> a(g1.g), b(g1.g), c(g2.g);
      A<D, E> *f[3] = {&a, &b, &c};
      std::vector<double> m[3];
      for (auto &x : m) x.assign(slots * (El<E>::N ? El<E>::N : 1), 0.0);
      long code = o * per + q;
      for (int d = 0; d < depth; ++d) {
        int op = code % NOPS;
        code /= NOPS;
        mc::step();
        double v = d + 1.5;
        if (op < 12) {
          int *x = nodes3[op % 3];
          write<D, E>(a, m[0], op / 3, x[0], x[1], x[2], slot_of<D>(n, pad, x[0], x[1], x[2]), v);
        } else if (op < 17) {
          int w = op < 15 ? 1 : 2;
          int *x = nodes3[(op - 12) % 3];
          write<D, E>(*f[w], m[w], op % 3, x[0], x[1], x[2], slot_of<D>(n, pad, x[0], x[1], x[2]), v + 100);
        } else {
          static const int cp[5][2] = {{0, 1}, {1, 0}, {0, 0}, {0, 2}, {2, 1}};
          int to = cp[op - 17][0], fr = cp[op - 17][1];
          *f[to] = *f[fr];
          m[to] = m[fr];
        }
        if (d == depth - 1) {
          compare<D, E>(a, m[0], n, pad, "a");
          compare<D, E>(b, m[1], n, pad, "b");
          compare<D, E>(c, m[2], n, pad, "c");
        }
      }
      if (&a.grid() != &g1.g || &c.grid() != &g2.g) mc::fail("array changed its grid");
      mc::counters["sequences"]++;
    }
  }
}

// Every node of every array of every size: zero at birth, distinct values kept apart, copies complete and independent.
template <int D, class E>
void big()
{
  for (auto &s : sizes<D>(2, D == 1 ? 20 : D == 2 ? 5 : 3))
    for (int pad : {0, 1, 2, 3}) {
      size_t vol = 1;
      for (int a = 0; a < D; ++a) vol *= s.n[a] + 2 * pad;
      if (too_big(s, pad, vol, (mc::thorough ? 200000u : 12000u))) continue;
      if (!mc::begin("dim %d element %s cells %dx%dx%d padding %d: whole-array", D, El<E>::name(), s.n[0], s.n[1], s.n[2], pad)) continue;
      GridOf<D> g(s.n, pad, boxes[2]);
      A<D, E> a(g.g), b(g.g);
      std::vector<double> z(vol * (El<E>::N ? El<E>::N : 1), 0.0), ma = z, mb = z;
      const I3 nc = a.numCells();
      for (int q = 0; q < 3; ++q)
        if (nc[q] != s.n[q]) mc::fail("numCells()[%d] is %d", q, nc[q]);
      if (&a.grid() != &g.g) mc::fail("grid() is another grid");
      compare<D, E>(a, z, s.n, pad, "new array");
      size_t t = 0;
      nodes<D>(s.n, pad, [&](int i, int j, int k) { write<D, E>(a, ma, t % 4, i, j, k, t, 1 + t * 2), ++t; });
      compare<D, E>(a, ma, s.n, pad, "filled array");
      compare<D, E>(b, z, s.n, pad, "other array");
      b = a;
      mb = ma;
      compare<D, E>(b, mb, s.n, pad, "copy");
      t = 0;
      nodes<D>(s.n, pad, [&](int i, int j, int k) {
        if (t % 3 == 0) write<D, E>(a, ma, (t + 1) % 4, i, j, k, t, -5.0 - t);
        if (t % 5 == 0) write<D, E>(b, mb, (t + 2) % 4, i, j, k, t, 0.25 - t);
        ++t;
      });
      compare<D, E>(a, ma, s.n, pad, "source after both changed");
      compare<D, E>(b, mb, s.n, pad, "copy after both changed");
      a = a;
      compare<D, E>(a, ma, s.n, pad, "self-assigned");
      mc::step(5);
    }
}

// Assignment between arrays of different sizes: the target takes over all slots of the source; sequences of such assignments.
template <int D, class E>
void resized()
{
  const int shapes[][4] = {{1, 1, 1, 0}, {2, 3, 2, 1}, {3, 2, 2, 1}, {2, 2, 2, 3}, {9, 4, 3, 1}, {D == 1 ? 1300 : D == 2 ? 45 : 13, D == 2 ? 40 : 12, 11, 1}};
  for (int f = 0; f < 6; ++f) {
    if (!mc::begin("dim %d element %s: assignments between arrays of different sizes, shape %d first", D, El<E>::name(), f)) continue;
    for (int t = 0; t < 6; ++t)
      for (int u = 0; u < 6; ++u) {
        const int sh[3] = {f, t, u};
        std::vector<GridOf<D> *> g;
        std::vector<A<D, E> *> a;
        for (int q = 0; q < 3; ++q) {
          int n[3] = {shapes[sh[q]][0], D > 1 ? shapes[sh[q]][1] : 1, D > 2 ? shapes[sh[q]][2] : 1};
          g.push_back(new GridOf<D>(n, shapes[sh[q]][3], boxes[q]));
          a.push_back(new A<D, E>(g[q]->g));
          for (size_t s = 0; s < a[q]->size(); ++s) (*a[q])[s] = make_el<E>(1000.0 * q + s + 1);
        }
        *a[1] = *a[0];
        *a[2] = *a[1];
        const size_t size = g[0]->g.size();
        if (a[0]->size() != size) mc::fail("the source of an assignment changed its size from %zu to %zu", size, a[0]->size());
        for (size_t s = 0; s < size; ++s)
          for (int p = 0; p < El<E>::N; ++p)
            if (El<E>::get((*a[0])[s], p) != El<E>::get(make_el<E>(s + 1.0), p)) mc::fail("slot %zu of the source changed by an assignment", s);
        for (size_t s = 0; s < a[0]->size(); s += 2) (*a[0])[s] = make_el<E>(-3.0 - s);
        for (int q = 1; q < 3; ++q) {
          const A<D, E> &c = *a[q];
          if (c.size() != size || c.data().size() != size) mc::fail("size() is %zu after assigning an array of %zu slots", c.size(), size);
          if (&c.grid() != &g[q]->g) mc::fail("assignment changed the grid of an array");
          for (size_t s = 0; s < size; ++s)
            for (int p = 0; p < El<E>::N; ++p) {
              const E w = make_el<E>(s + 1.0);
              if (El<E>::get(c[s], p) != El<E>::get(w, p) || El<E>::get(c.data()[s], p) != El<E>::get(w, p)) mc::fail("slot %zu component %d after assignment is %g", s, p, El<E>::get(c[s], p));
            }
        }
        for (int q = 0; q < 3; ++q) delete a[q], delete g[q];
        mc::step(2), mc::state();
      }
  }
}

// Containers: snapshot of all fields of two level sets and two velocity containers on one grid.
template <int D>
struct World {
  typedef GALS::CPU::VecN<double, G<D>::num_mixed_derivatives> MX;
  G<D> &g;
  LS<D> l[2];
  LV<D> v[2];
  World(G<D> &g_) : g(g_), l{LS<D>(g_), LS<D>(g_)}, v{LV<D>(g_), LV<D>(g_)} {}
  template <class F>
  void fields(F f)
  {
    for (int q = 0; q < 2; ++q) {
      f(l[q].phi(), static_cast<const LS<D> &>(l[q]).phi(), q * 10 + 0);
      f(l[q].psi(), static_cast<const LS<D> &>(l[q]).psi(), q * 10 + 1);
      f(l[q].phiMixedDerivatives(), static_cast<const LS<D> &>(l[q]).phiMixedDerivatives(), q * 10 + 2);
      f(l[q].phiPrev(), static_cast<const LS<D> &>(l[q]).phiPrev(), q * 10 + 3);
      f(l[q].psiPrev(), static_cast<const LS<D> &>(l[q]).psiPrev(), q * 10 + 4);
      f(l[q].phiMixedDerivativesPrev(), static_cast<const LS<D> &>(l[q]).phiMixedDerivativesPrev(), q * 10 + 5);
      f(l[q].phiInterpPrev(), static_cast<const LS<D> &>(l[q]).phiInterpPrev(), q * 10 + 6);
      f(l[q].psiInterpPrev(), static_cast<const LS<D> &>(l[q]).psiInterpPrev(), q * 10 + 7);
      f(v[q].velocity(), static_cast<const LV<D> &>(v[q]).velocity(), q * 10 + 8);
      f(v[q].velocityGradient(), static_cast<const LV<D> &>(v[q]).velocityGradient(), q * 10 + 9);
    }
  }
};
template <class AR>
struct ElOf;
template <class TG, class E>
struct ElOf<GALS::CPU::Array<TG, E>> {
  typedef E type;
};
template <int D>
void containers()
{
  for (auto &s : sizes<D>(1, D == 1 ? 6 : D == 2 ? 4 : 2))
    for (int pad : {0, 1, 2, 3}) {
      size_t vol = 1;
      for (int a = 0; a < D; ++a) vol *= s.n[a] + 2 * pad;
      if (vol > 3000u) continue;
      if (!mc::begin("dim %d cells %dx%dx%d padding %d: containers", D, s.n[0], s.n[1], s.n[2], pad)) continue;
      GridOf<D> g(s.n, pad, boxes[3]);
      World<D> w(g.g);
      std::map<int, std::vector<double>> m;
      for (int q = 0; q < 2; ++q)
        if (&w.l[q].grid() != &g.g || &w.v[q].grid() != &g.g) mc::fail("container reports another grid");
      w.fields([&](auto &f, const auto &cf, int id) {
        typedef typename ElOf<typename std::remove_reference<decltype(f)>::type>::type E;
        if (&f != &cf) mc::fail("const and non-const accessor of field %d are different fields", id % 10);
        m[id].assign(vol * (El<E>::N ? El<E>::N : 1), 0.0);
        compare<D, E>(f, m[id], s.n, pad, "field of a new container");
      });
      auto check = [&](const char *what) {
        w.fields([&](auto &f, const auto &, int id) {
          typedef typename ElOf<typename std::remove_reference<decltype(f)>::type>::type E;
          compare<D, E>(f, m[id], s.n, pad, what);
        });
      };
      // fill field after field with distinct values, checking all fields after each
      bool small = vol <= 200;
      w.fields([&](auto &f, const auto &, int id) {
        typedef typename ElOf<typename std::remove_reference<decltype(f)>::type>::type E;
        size_t t = 0;
        nodes<D>(s.n, pad, [&](int i, int j, int k) { write<D, E>(f, m[id], (t + id) % 4, i, j, k, t, 1000.0 * id + t), ++t; });
        mc::step();
        if (small) check("field after another field was written");
      });
      check("all fields written");
      // the copies a time loop makes
      for (int q = 0; q < 2; ++q) {
        w.l[q].phiPrev() = w.l[q].phi(), m[q * 10 + 3] = m[q * 10];
        w.l[q].psiPrev() = w.l[q].psi(), m[q * 10 + 4] = m[q * 10 + 1];
        w.l[q].phiMixedDerivativesPrev() = w.l[q].phiMixedDerivatives(), m[q * 10 + 5] = m[q * 10 + 2];
        w.l[1 - q].phiInterpPrev() = w.l[q].phiPrev(), m[(1 - q) * 10 + 6] = m[q * 10 + 3];
        mc::step(4);
      }
      check("after copying between fields");
      w.fields([&](auto &f, const auto &, int id) {
        typedef typename ElOf<typename std::remove_reference<decltype(f)>::type>::type E;
        if (id % 10 == 3 || id % 10 == 4 || id % 10 == 0) {
          size_t t = 0;
          nodes<D>(s.n, pad, [&](int i, int j, int k) {
            if (t % 2) write<D, E>(f, m[id], t % 4, i, j, k, t, -id - 7.0 * t);
            ++t;
          });
        }
      });
      check("after overwriting copied fields");
    }
}

int main(int argc, char **argv)
{
  mc::init(argc, argv);
#define BOTH(D, E) histories<D, E>(), big<D, E>(), resized<D, E>()
  using GALS::CPU::VecN;
  typedef VecN<double, 0> N0;
  typedef VecN<double, 1> N1;
  typedef VecN<double, 2> N2;
  typedef VecN<double, 4> N4;
  BOTH(1, double), BOTH(2, double), BOTH(3, double);
  BOTH(1, V3), BOTH(2, V3), BOTH(3, V3);
  BOTH(1, M3), BOTH(2, M3), BOTH(3, M3);
  BOTH(1, N0), BOTH(1, N2), BOTH(2, N1), BOTH(2, N2), BOTH(3, N2), BOTH(3, N4);
  containers<1>(), containers<2>(), containers<3>();
  mc::finish();
}
