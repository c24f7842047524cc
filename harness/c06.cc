// C06: gradient of a vector field is the Jacobian: entry (component, direction).
#include "gals.h"
using GALS::CPU::Gradient;
using GALS::CPU::SecondOrderCentral;
using GALS::CPU::ThirdOrder;

template <int D>
void call(int scheme, int via, const A<D, V3> &a, A<D, M3> &g)
{
  if (scheme == 2) {
    if (via == 0)
      Gradient<double, G<D>, SecondOrderCentral<double, G<D>>>::compute(a, g);
    else if (via == 1)
      SecondOrderCentral<double, G<D>>().compute(a, g);
    else
      SecondOrderCentral<double, G<D>>()(a, g);
  } else {
    if (via == 0)
      Gradient<double, G<D>, ThirdOrder<double, G<D>>>::compute(a, g);
    else if (via == 1)
      ThirdOrder<double, G<D>>().compute(a, g);
    else if (via == 2)
      ThirdOrder<double, G<D>>()(a, g);
    else
      Gradient<double, G<D>>::compute(a, g);
  }
}
static double mark(int r, int c) { return 1e30 + 1e28 * (3 * r + c); }
template <int D>
void poison(A<D, M3> &g)
{
  for (size_t t = 0; t < g.size(); ++t)
    for (int r = 0; r < 3; ++r)
      for (int c = 0; c < 3; ++c) g[t](r, c) = mark(r, c);
}
template <int D>
void verify(int scheme, const A<D, V3> &a, const A<D, M3> &g, const int *n, const Box &b, double mag, bool poisoned)
{
  interior(n, [&](int i, int j, int k) {
    mc::state();
    const M3 &m = g(i, j, k);
    for (int r = 0; r < 3; ++r)
      for (int ax = 0; ax < 3; ++ax) {
        if (r >= D || ax >= D) {
          if (poisoned && m(r, ax) != mark(r, ax)) mc::fail("scheme %d: inactive entry (%d,%d) at (%d,%d,%d) was changed to %g", scheme, r, ax, i, j, k, m(r, ax));
          continue;
        }
        int e[3] = {ax == 0, ax == 1, ax == 2};
        LD h = spacing(b, n, ax), w;
        auto f = [&](int o) { return (LD)a(i + o * e[0], j + o * e[1], k + o * e[2])[r]; };
        if (scheme == 2)
          w = (f(1) - f(-1)) / (2 * h);
        else
          w = (2 * f(1) + 3 * f(0) - 6 * f(-1) + f(-2)) / (6 * h);
        LD cond = (fmaxl(fabsl(b.lo[ax]), fabsl(b.hi[ax])) / (fabsl(h) * n[ax]) + 1);
        if (!mc::close_to(m(r, ax), w, mag * cond / fabsl(h), 1e-12L))
          mc::fail("scheme %d: d u%d/dx%d at (%d,%d,%d) is %.17g, expected %.17Lg", scheme, r, ax, i, j, k, m(r, ax), w);
      }
  });
}

template <int D>
void all()
{
  for (auto &s : sizes<D>(2, D == 1 ? 40 : D == 2 ? (mc::thorough ? 20 : 7) : (mc::thorough ? 7 : 4)))
    for (int pad : {1, 2, 3, 4, 6}) {
      size_t vol = 1;
      for (int a = 0; a < D; ++a) vol *= s.n[a] + 2 * pad;
      if (too_big(s, pad, vol, (mc::thorough ? 300000u : 40000u))) continue;
      if (!mc::begin("dim %d cells %dx%dx%d padding %d: generic data, all boxes", D, s.n[0], s.n[1], s.n[2], pad)) continue;
      for (int b = 0; b < NB; ++b) {
        GridOf<D> g(s.n, pad, boxes[b]);
        for (int scheme = 2; scheme <= (pad >= 2 ? 3 : 2); ++scheme)
          for (int via = 0; via < 4; ++via) {
            if (vol > 1000 && via != b % 4) continue;
            static const double mags[] = {1, 1e-9, 1e9, 3, 1e-60, 1e60, 1e-14};
            double mag = mags[(via + b) % 7];
            A<D, V3> a(g.g);
            A<D, M3> gr(g.g);
            poison(gr);
            for (int rep = 0; rep < 2; ++rep) {
              for (size_t t = 0; t < a.size(); ++t)
                for (int c = 0; c < 3; ++c) a[t][c] = mag * gen(3 * t + c, b * 10 + via + 5 * rep);
              call<D>(scheme, via, a, gr);
              mc::step();
              verify<D>(scheme, a, gr, s.n, boxes[b], mag, true);
            }
          }
      }
    }
  // the output array lives on a grid object of its own: same cells, other padding and box (the spacing is the input's)
  for (auto &s : sizes<D>(0, D == 1 ? 12 : D == 2 ? 4 : (mc::thorough ? 4 : 3)))
    for (int pad : {1, 2, 3, 5}) {
      if (!mc::begin("dim %d cells %dx%dx%d padding %d: output on another grid", D, s.n[0], s.n[1], s.n[2], pad)) continue;
      for (int b = 0; b < NB; ++b)
        for (int opad : {0, 1, 2, 4})
          for (int scheme = 2; scheme <= (pad >= 2 ? 3 : 2); ++scheme)
            for (int via = 0; via < 4; ++via) {
              GridOf<D> g(s.n, pad, boxes[b]), go(s.n, opad, boxes[(b + 1 + via) % NB]);
              A<D, V3> a(g.g);
              A<D, M3> gr(go.g);
              poison(gr);
              for (size_t t = 0; t < a.size(); ++t)
                for (int c = 0; c < 3; ++c) a[t][c] = gen(3 * t + c, b + scheme);
              call<D>(scheme, via, a, gr);
              mc::step();
              verify<D>(scheme, a, gr, s.n, boxes[b], 1, true);
            }
    }
  for (auto &s : sizes<D>(0, D == 1 ? 8 : D == 2 ? 4 : (mc::thorough ? 3 : 2)))
    for (int pad : {1, 2, 3}) {
      if (!mc::begin("dim %d cells %dx%dx%d padding %d: all nodal basis fields of all components", D, s.n[0], s.n[1], s.n[2], pad)) continue;
      GridOf<D> g(s.n, pad, boxes[2]);
      A<D, V3> a(g.g);
      A<D, M3> gr(g.g);
      for (int scheme = 2; scheme <= (pad >= 2 ? 3 : 2); ++scheme)
        for (size_t t = 0; t < a.size(); ++t)
          for (int c = 0; c < 3; ++c) {
            a[t][c] = 1;
            poison(gr);
            call<D>(scheme, 0, a, gr);
            mc::step();
            verify<D>(scheme, a, gr, s.n, boxes[2], 1, true);
            a[t][c] = 0;
          }
      mc::counters["basis_fields"] += 3 * a.size();
    }
  static const double lat[] = {-2, -1, 0, 1, 3};
  for (int ax = 0; ax < D; ++ax)
    for (int cmp = 0; cmp < D; ++cmp)
      for (int scheme = 2; scheme <= 3; ++scheme)
        for (int blk = 0; blk < 25; ++blk) {
          if (!mc::begin("dim %d component %d axis %d scheme %d: stencil value combinations, block %d", D, cmp, ax, scheme, blk)) continue;
          for (int c = blk * 25; c < blk * 25 + 25; ++c) {
            int n[3] = {1, 1, 1};
            n[ax] = 2;
            GridOf<D> g(n, 2, boxes[2]);
            A<D, V3> a(g.g);
            A<D, M3> gr(g.g);
            double v[4] = {lat[c % 5], lat[c / 5 % 5], lat[c / 25 % 5], lat[c / 125]};
            nodes<D>(n, 2, [&](int i, int j, int k) {
              int id[3] = {i, j, k};
              bool line = true;
              for (int q = 0; q < D; ++q) line = line && (q == ax || id[q] == 0);
              int o = id[ax] + 2;
              for (int q = 0; q < 3; ++q) a(i, j, k)[q] = line && q == cmp ? v[o % 4] : 0.5 * gen(i + 10 * j + 100 * k, q);
            });
            poison(gr);
            call<D>(scheme, c % 4, a, gr);
            mc::step();
            verify<D>(scheme, a, gr, n, boxes[2], 3, true);
          }
        }
}

// The same objects through every sequence of in-place changes: data (one node, all), grid regenerated, other input or
// output array, other grid, other scheme; the gradient is computed and checked after every operation.
template <int D>
void history()
{
  histories("gradients of arrays changed in place", D, 7, mc::thorough ? 5 : D == 3 ? 3 : 4, [&](const std::vector<int> &seq) {
    const int n[2][3] = {{5, D > 1 ? 2 : 1, D > 2 ? 2 : 1}, {3, D > 1 ? 4 : 1, D > 2 ? 2 : 1}};
    int box[2] = {0, 1}, pad = 2, cur = 0, which = 0, target = 0, scheme = 2 + seq[0] % 2, via = 0;
    GridOf<D> g0(n[0], pad, hboxes[box[0]]), g1(n[1], pad, hboxes[box[1]]);
    G<D> *g[2] = {&g0.g, &g1.g};
    A<D, V3> a00(g0.g), a01(g0.g), a10(g1.g), a11(g1.g), *arr[2][2] = {{&a00, &a01}, {&a10, &a11}}, *in = &a00;
    A<D, M3> o00(g0.g), o01(g0.g), o10(g1.g), o11(g1.g), *outs[2][2] = {{&o00, &o01}, {&o10, &o11}}, *out = &o00;
    uint64_t salt = 1;
    for (auto &r : arr)
      for (auto p : r) {
        in = p, ++salt;
        for (size_t t = 0; t < in->size(); ++t) for (int q = 0; q < 3; ++q) (*in)[t][q] = gen(3 * t + q, salt);
      }
    for (auto &r : outs)
      for (auto p : r) poison(*p);
    auto look = [&] {
      in = arr[cur][which], out = outs[cur][target];
      for (int rep = 0; rep < 2; ++rep) {
        call<D>(scheme, via++ % 4, *in, *out);
        mc::step();
        verify<D>(scheme, *in, *out, n[cur], hboxes[box[cur]], 4, true);
      }
    };
    look();
    int c = 0;
    for (int op : seq) {
      ++c;
      if (op == 0) {
        int id[3] = {c % n[cur][0], c / 2 % n[cur][1], 0};
        size_t t = g[cur]->index(id[0], id[1], id[2]);
        (*in)[t][c % 3] += 0.75;
      }
      if (op == 1) {
        ++salt;
        for (size_t t = 0; t < in->size(); ++t) for (int q = 0; q < 3; ++q) (*in)[t][q] = gen(3 * t + q, salt);
      }
      if (op == 2) generate(*g[cur], hboxes[box[cur] = (box[cur] + 1) % 3]);
      if (op == 3) which = !which;
      if (op == 4) target = !target;
      if (op == 5) cur = !cur;
      if (op == 6) scheme = 5 - scheme;
      look();
    }
  });
}
int main(int argc, char **argv)
{
  mc::init(argc, argv);
  all<1>(), all<2>(), all<3>();
  history<1>(), history<2>(), history<3>();
  mc::finish();
}
