// C15: small algebra over a complete lattice of component values.
#include <new>
#include "gals.h"
using GALS::CPU::Mat3;
using GALS::CPU::Vec3;
using GALS::CPU::VecN;

template <class T>
struct Lat;
template <>
struct Lat<int> {
  static std::vector<int> v() { return mc::thorough ? std::vector<int>{0, 1, -1, 2, -3, 7, 10, -12, 100, 1000} : std::vector<int>{0, 1, -1, 2, -3, 7, 100}; }
  static std::vector<int> big() { return {0, 1, -1, INT_MAX, INT_MIN, 5, 1 << 30}; }
  static LD tol() { return 0; }
};
template <>
struct Lat<double> {
  static std::vector<double> v() { return mc::thorough ? std::vector<double>{0, 1, -1, 0.1, -2.75, 3e8, 1e-12, -7e-5, 1e100, 42.125} : std::vector<double>{0, 1, -1, 0.1, -2.75, 3e8, 1e-12}; }
  static std::vector<double> big() { return {0, -0.5, 1e-300, -1e300, 1e300, 1, 1.0000000000000002}; }
  static LD tol() { return 4e-15L; }
};
template <class T>
void near(LD got, LD want, const char *what, LD scale = -1)
{
  if (scale < 0) scale = fabsl(want);
  LD t = Lat<T>::tol() * scale;
  if (!(fabsl(got - want) <= t)) mc::fail("%s: got %.20Lg, expected %.20Lg", what, got, want);
}
template <class T>
void unchanged(const Vec3<T> &v, const T *x, const char *what)
{
  for (int i = 0; i < 3; ++i)
    if (v[i] != x[i]) mc::fail("%s modified an operand", what);
}
template <class T>
T quot(T a, T b)
{
  return a / b;
}
template <class T>
void vec(const char *tn)
{
  auto L = Lat<T>::v();
  const int n = L.size();
  for (int ia = 0; ia < n * n * n; ++ia) {
    const T a[3] = {L[ia % n], L[ia / n % n], L[ia / n / n]};
    if (!mc::begin("Vec3<%s> (%g, %g, %g) against every vector of the lattice", tn, (double)a[0], (double)a[1], (double)a[2])) continue;
    const Vec3<T> va(a[0], a[1], a[2]);
    unchanged(va, a, "construction");
    if (va.size() != 3) mc::fail("size() is %d", va.size());
    {
      Vec3<T> w(std::vector<T>{a[0], a[1], a[2]});
      unchanged(w, a, "construction from a vector");
      Vec3<T> c(va);
      unchanged(c, a, "copy construction");
      Vec3<T> d;
      d = va;
      unchanged(d, a, "assignment");
      c = c;
      unchanged(c, a, "self-assignment");
      for (int i = 0; i < 3; ++i) {
        Vec3<T> e(va);
        e[i] = 77;
        for (int q = 0; q < 3; ++q)
          if (e[q] != (q == i ? 77 : a[q]) || va[q] != a[q]) mc::fail("writing component %d changed component %d or the source of a copy", i, q);
      }
      LD s = 0;
      for (int i = 0; i < 3; ++i) s += (LD)a[i] * a[i];
      if (fabs((double)a[0]) < 1e150) {
        LD want = sqrtl(s);
        if (!(fabsl(va.mag() - want) <= 4e-15L * want)) mc::fail("mag() is %.17g, expected %.17Lg", va.mag(), want);
      }
    }
    for (int ib = 0; ib < n * n * n; ++ib) {
      const T b[3] = {L[ib % n], L[ib / n % n], L[ib / n / n]};
      const Vec3<T> vb(b[0], b[1], b[2]);
      mc::state();
      bool eq = true;
      for (int i = 0; i < 3; ++i) eq = eq && (sizeof(T) == 4 ? a[i] == b[i] : fabsl((LD)a[i] - b[i]) <= 1e-10L);
      if ((va == vb) != eq) mc::fail("== is %d for (%g,%g,%g), expected %d", va == vb, (double)b[0], (double)b[1], (double)b[2], eq);
      const Vec3<T> d = va - vb, p = va * vb;
      Vec3<T> q;
      bool div = b[0] != 0 && b[1] != 0 && b[2] != 0;
      if (div) q = va / vb;
      for (int i = 0; i < 3; ++i) {
        near<T>(d[i], (LD)a[i] - b[i], "difference");
        near<T>(p[i], (LD)a[i] * b[i], "product");
        if (!div && sizeof(T) == 8) {  // IEEE division: zero divisors give infinities or NaN
          const double w = (double)a[i] / (double)b[i], o = (va / vb)[i];
          if (!(w == o || (w != w && o != o) || fabs(w - o) <= 4e-15 * fabs(w))) mc::fail("quotient: got %g, expected %g", o, w);
        }
        if (div) near<T>(q[i], sizeof(T) == 4 ? (LD)quot<T>(a[i], b[i]) : (LD)a[i] / b[i], "quotient");
      }
      unchanged(va, a, "binary operators"), unchanged(vb, b, "binary operators");
      mc::step(4);
    }
    for (int ib = 0; ib < n; ++ib) {
      const Vec3<T> s = va * L[ib];
      for (int i = 0; i < 3; ++i) near<T>(s[i], (LD)a[i] * L[ib], "scaling");
      unchanged(va, a, "scaling");
    }
    Vec3<T> al(va);
    al = al - al;
    for (int i = 0; i < 3; ++i) near<T>(al[i], 0, "a - a");
    mc::counters["vectors"]++;
  }
  auto B = Lat<T>::big();
  const int m = B.size();
  for (int i = 0; i < m; ++i) {
    if (!mc::begin("Vec3<%s>::min with first component %g", tn, (double)B[i])) continue;
    for (int j = 0; j < m; ++j)
      for (int k = 0; k < m; ++k) {
        const Vec3<T> v(B[i], B[j], B[k]);
        T w = B[i] < B[j] ? B[i] : B[j];
        if (B[k] < w) w = B[k];
        if (v.min() != w) mc::fail("min(%g,%g,%g) is %g", (double)B[i], (double)B[j], (double)B[k], (double)v.min());
        mc::state();
      }
  }
}
template <class T>
Mat3<T> mat(const T *x)
{
  return Mat3<T>(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]);
}
template <class T>
void mats(const char *tn)
{
  auto L = Lat<T>::v();
  const int n = L.size();
  // generic matrices plus every matrix with entries in a 3-value alphabet (3^9) in classes by the first row
  for (int c = 0; c < 27; ++c) {
    if (!mc::begin("Mat3<%s>: all matrices over {0,1,-2} with first row %d, all operations", tn, c)) continue;
    for (int r = 0; r < 729; ++r) {
      T x[9];
      static const T al[3] = {0, 1, -2};
      for (int i = 0, q = c; i < 3; ++i, q /= 3) x[i] = al[q % 3];
      for (int i = 3, q = r; i < 9; ++i, q /= 3) x[i] = al[q % 3];
      const Mat3<T> m = mat(x);
      for (int v = 0; v < 27; ++v) {
        static const T vl[3] = {0, 1, 5};
        const T y[3] = {vl[v % 3], vl[v / 3 % 3], vl[v / 9]};
        const Vec3<T> vv(y[0], y[1], y[2]);
        const Vec3<T> d = m.dot(vv);
        for (int i = 0; i < 3; ++i) {
          LD s = 0;
          for (int j = 0; j < 3; ++j) s += (LD)x[3 * j + i] * y[j];
          near<T>(d[i], s, "dot (transposed matrix times vector)");
        }
        unchanged(vv, y, "dot");
        mc::state(), mc::step();
      }
      const Mat3<T> t = m * (T)3, u = m - mat(x), w = t - m;
      Mat3<T> z;
      z = m;
      for (int i = 0; i < 9; ++i) {
        if (m[i] != x[i] || m(i / 3, i % 3) != x[i] || z[i] != x[i] || z(i / 3, i % 3) != x[i]) mc::fail("entry %d is not stored row-major", i);
        if (t[i] != 3 * x[i] || u[i] != 0 || w[i] != 2 * x[i]) mc::fail("scaling or difference of entry %d", i);
      }
      if (!(m == z)) mc::fail("a copy is not equal");
      mc::counters["matrices"]++;
    }
  }
  // every pair of lattice values at every entry: difference, scaling, access; other entries generic
  for (int e = 0; e < 9; ++e)
    for (int ia = 0; ia < n; ++ia) {
      if (!mc::begin("Mat3<%s>: entry %d = %g against every value", tn, e, (double)L[ia])) continue;
      for (int ib = 0; ib < n; ++ib) {
        T x[9], y[9];
        for (int i = 0; i < 9; ++i) x[i] = i == e ? L[ia] : (T)(10 * gen(i, ia)), y[i] = i == e ? L[ib] : (T)(10 * gen(i, ib + 50));
        const Mat3<T> a = mat(x), b = mat(y), d = a - b;
        const Mat3<T> s = a * L[ib];
        for (int i = 0; i < 9; ++i) {
          near<T>(d[i], (LD)x[i] - y[i], "matrix difference");
          near<T>(s[i], (LD)x[i] * L[ib], "matrix scaling");
          if (a[i] != x[i] || b[i] != y[i]) mc::fail("matrix operators modified an operand");
        }
        const Vec3<T> v(L[ib], (T)2, L[ia]);
        const Vec3<T> p = a.dot(v);
        for (int i = 0; i < 3; ++i) {
          LD w = 0, sc = 0;
          for (int j = 0; j < 3; ++j) w += (LD)x[3 * j + i] * v[j], sc += fabsl((LD)x[3 * j + i] * v[j]);
          near<T>(p[i], w, "dot", sc);
        }
        for (int rw = 0; rw < 2; ++rw) {
          Mat3<T> c(a);
          if (rw)
            c(e / 3, e % 3) = 55;
          else
            c[e] = 55;
          for (int i = 0; i < 9; ++i)
            if (c[i] != (i == e ? 55 : x[i]) || a[i] != x[i]) mc::fail("writing entry %d changed entry %d", e, i);
        }
        mc::state(), mc::step(4);
      }
    }
  // equality: every subset of perturbed entries, every perturbation size and base
  static const double pert[] = {5e-11, 0.9e-10, 1.1e-10, 1e-6, 1, 1e9};
  for (int p = sizeof(T) == 4 ? 4 : 0; p < 6; ++p)
    for (double base : {0., 1., -3.}) {
      if (!mc::begin("equality of Mat3<%s>/Vec3<%s> near %g with differences of %g in every subset of entries", tn, tn, base, pert[p])) continue;
      for (int sub = 0; sub < 512; ++sub)
        for (int sg = -1; sg <= 1; sg += 2) {
          T x[9], y[9];
          for (int i = 0; i < 9; ++i) x[i] = (T)(base + i % 3), y[i] = x[i] + (sub >> i & 1 ? (T)(sg * pert[p]) : (T)0);
          bool want = sub == 0 || pert[p] < 1e-10;
          if ((mat(x) == mat(y)) != want) mc::fail("matrix equality is wrong for subset %x (expected %d)", sub, want);
          if (sub < 8) {
            bool got = Vec3<T>(x[0], x[1], x[2]) == Vec3<T>(y[0], y[1], y[2]);
            if (got != want) mc::fail("vector equality is wrong for subset %x (expected %d)", sub, want);
          }
          mc::state();
        }
    }
}
// equality of reals at large base values (the threshold is absolute) and at the exact tie
static void equality()
{
  static const double bases[] = {0, 1e-12, 0.5, 10, 1e3, 1e4, 1e5, 1e6, 1e9, 1e12, 1e15, 1e100, 1e300};
  static const double rel[] = {0, 1, 2, 4, 1e3, 1e6, 1e9, 1e12};  // differences in units of the last place
  for (double base : bases)
    for (int sg = -1; sg <= 1; sg += 2) {
      if (!mc::begin("equality of real vectors and matrices near %g", sg * base)) continue;
      const double b = sg * base, ulp = nextafter(base, INFINITY) - base;
      for (double r : rel)
        for (int dir = -1; dir <= 1; dir += 2)
          for (double ab : {0.0, 1e-10, 3e-11, 9e-11, 1.2e-10, 2e-9, 1e-7})
            for (int e = 0; e < 9; ++e) {
              const double y0 = b + dir * (r * ulp + ab);
              const LD diff = fabsl((LD)b - (LD)y0);
              if (fabsl(diff - 1e-10L) < 1e-14L && diff != (LD)1e-10) continue;  // undecided by rounding
              const bool want = diff <= (LD)1e-10;
              double x[9], y[9];
              for (int i = 0; i < 9; ++i) x[i] = y[i] = i == e ? b : 7 * gen(i);
              y[e] = y0;
              const Mat3<double> p(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]), q(y[0], y[1], y[2], y[3], y[4], y[5], y[6], y[7], y[8]);
              if ((p == q) != want || (q == p) != want) mc::fail("matrices that differ by %.3Lg in entry %d (%.17g) compare %d", diff, e, b, p == q);
              if (e < 3) {
                const Vec3<double> u(x[0], x[1], x[2]), v(y[0], y[1], y[2]);
                if ((u == v) != want || (v == u) != want) mc::fail("vectors that differ by %.3Lg in component %d (%.17g) compare %d", diff, e, b, u == v);
              }
              mc::state();
            }
    }
}
template <class V, int N>
void zero(const char *what)
{
  if (!mc::begin("default-constructed %s", what)) return;
  typename std::aligned_storage<sizeof(V), alignof(V)>::type buf;
  for (int fill : {0xAB, 0xFF, 0x55}) {
    memset(&buf, fill, sizeof buf);
    V *v = new (&buf) V();
    V *w = (memset(malloc(sizeof(V)), fill, sizeof(V)), new V);
    if (v->size() != N || w->size() != N) mc::fail("size() is %d", (int)v->size());
    for (int i = 0; i < N; ++i) {
      if ((*v)[i] != 0 || (*w)[i] != 0) mc::fail("component %d of a default-constructed value is %g", i, (double)(*v)[i]);
      mc::state();
    }
    for (int i = 0; i < N; ++i) {
      V c(*v);
      c[i] = 9;
      for (int q = 0; q < N; ++q)
        if (c[q] != (q == i ? 9 : 0) || (*v)[q] != 0) mc::fail("writing component %d changed component %d", i, q);
      V d;
      d = c;
      for (int q = 0; q < N; ++q)
        if (d[q] != c[q]) mc::fail("copy differs at %d", q);
    }
    v->~V();
    delete w;
  }
}
int main(int argc, char **argv)
{
  mc::init(argc, argv);
  zero<Vec3<int>, 3>("Vec3<int>");
  zero<Vec3<double>, 3>("Vec3<double>");
  zero<Mat3<int>, 9>("Mat3<int>");
  zero<Mat3<double>, 9>("Mat3<double>");
  zero<VecN<int, 1>, 1>("VecN<int,1>");
  zero<VecN<int, 2>, 2>("VecN<int,2>");
  zero<VecN<int, 3>, 3>("VecN<int,3>");
  zero<VecN<double, 0>, 0>("VecN<double,0>");
  zero<VecN<double, 1>, 1>("VecN<double,1>");
  zero<VecN<double, 2>, 2>("VecN<double,2>");
  zero<VecN<double, 3>, 3>("VecN<double,3>");
  zero<VecN<double, 4>, 4>("VecN<double,4>");
  vec<int>("int"), vec<double>("double");
  mats<int>("int"), mats<double>("double");
  equality();
  mc::finish();
}
