// Uniform view of array elements (double, Vec3, Mat3, VecN).
#pragma once
#include "gals.h"
template <class E>
struct El;
template <>
struct El<double> {
  enum { N = 1 };
  static const char *name() { return "double"; }
  static double get(const double &e, int) { return e; }
  static void set(double &e, int, double v) { e = v; }
};
template <>
struct El<V3> {
  enum { N = 3 };
  static const char *name() { return "Vec3"; }
  static double get(const V3 &e, int c) { return e[c]; }
  static void set(V3 &e, int c, double v) { e[c] = v; }
};
template <>
struct El<M3> {
  enum { N = 9 };
  static const char *name() { return "Mat3"; }
  static double get(const M3 &e, int c) { return e[c]; }
  static void set(M3 &e, int c, double v) { e[c] = v; }
};
template <int K>
struct El<GALS::CPU::VecN<double, K>> {
  enum { N = K };
  static const char *name() { return K == 0 ? "VecN0" : K == 1 ? "VecN1" : K == 2 ? "VecN2" : "VecN4"; }
  static double get(const GALS::CPU::VecN<double, K> &e, int c) { return e[c]; }
  static void set(GALS::CPU::VecN<double, K> &e, int c, double v) { e[c] = v; }
};
template <class E>
E make_el(double v)
{
  E e;
  for (int c = 0; c < El<E>::N; ++c) El<E>::set(e, c, v + c * 0.125);
  return e;
}
