// C03: baseNodeId returns the enclosing node for every point of the padded node span.
#include "gals.h"

static const LD fr[] = {0, 1.0L / 1073741824, 1e-4L, 0.1L, 0.25L, 0.5L, 0.5000001L, 0.75L, 0.9L, 0.9999L, 1 - 1.0L / 1073741824};
// offsets from a node in units of dx: 2^-k and 1 - 2^-k, exactly representable on the dyadic grids
// (the index with its fraction must fit the mantissa)
static const int KMAX = 49;
static const int NF = sizeof fr / sizeof fr[0];

template <int D>
void query(const G<D> &g, const int *n, int pad, const Box &b, bool exact, const int *id, const int *f, double inactive)
{
  V3 x(inactive, inactive, inactive);
  for (int a = 0; a < D; ++a) x[a] = (double)(coord(b, n, a, id[a]) + fr[f[a]] * spacing(b, n, a));
  const I3 r = g.baseNodeId(x);
  mc::step();
  for (int a = 0; a < D; ++a) {
    int want = id[a];
    if (r[a] == want) continue;
    // within rounding of a node both neighbouring cells contain the point - except on exactly representable grids
    LD tol = 1e-12L * box_scale(b, n, pad, a);
    if (!exact && r[a] == want - 1 && fr[f[a]] * spacing(b, n, a) <= tol) continue;
    if (!exact && r[a] == want + 1 && (1 - fr[f[a]]) * spacing(b, n, a) <= tol) continue;
    mc::fail("axis %d: point %.17g = node %d + %.9Lg dx has base node %d", a, x[a], want, fr[f[a]], r[a]);
  }
}

// Points a few rounding units away from a node along one axis (dyadic grids: coordinates and offsets are exact).
template <int D>
void near_nodes(const G<D> &g, const int *n, int pad, const Box &b)
{
  nodes<D>(n, pad, [&](int i, int j, int k) {
    const int id[3] = {i, j, k};
    for (int a = 0; a < D; ++a)
      if (id[a] == n[a] + pad - 1) return;
    mc::state();
    for (int a = 0; a < D; ++a)
      for (int e = 2; e <= KMAX - (int)ceil(log2(n[a] + 2 * pad)); ++e)
        for (int s = 0; s < 2; ++s) {
          const LD off = s ? 1 - ldexpl(1, -e) : ldexpl(1, -e);
          V3 x(0.125, -0.375, 1);
          for (int q = 0; q < D; ++q) x[q] = (double)(coord(b, n, q, id[q]) + (q == a ? off : 0.25L) * spacing(b, n, q));
          if ((LD)x[a] != coord(b, n, a, id[a]) + off * spacing(b, n, a)) break;  // not representable
          const I3 r = g.baseNodeId(x);
          mc::step();
          for (int q = 0; q < D; ++q)
            if (r[q] != id[q]) mc::fail("axis %d: point %.17g = node %d %+.3Lg dx has base node %d", q, x[q], id[q], q == a ? (s ? off - 1 : off) : 0.25L, r[q]);
        }
  });
}

template <int D>
void sweep(const G<D> &g, const int *n, int pad, const Box &b, bool exact, bool allcombos)
{
  int cnt = 0;
  nodes<D>(n, pad, [&](int i, int j, int k) {
    int id[3] = {i, j, k};
    bool last = false;
    for (int a = 0; a < D; ++a) last = last || id[a] == n[a] + pad - 1;
    mc::state();
    if (last) {  // upper end of the span: only the node itself, on exact grids
      int f[3] = {0, 0, 0};
      if (exact) query<D>(g, n, pad, b, exact, id, f, 0);
      return;
    }
    if (allcombos) {
      for (int p = 0; p < NF; ++p)
        for (int q = 0; q < (D > 1 ? NF : 1); ++q)
          for (int r = 0; r < (D > 2 ? NF : 1); ++r) {
            int f[3] = {p, q, r};
            query<D>(g, n, pad, b, exact, id, f, (p & 1) ? 1e6 : -0.5);
          }
    } else {
      int f[3] = {cnt % NF, (cnt / 2 + 3) % NF, (cnt / 3 + 7) % NF};
      ++cnt;
      query<D>(g, n, pad, b, exact, id, f, cnt & 1 ? 0 : NAN);
      int h[3] = {0, 0, 0};
      query<D>(g, n, pad, b, exact, id, h, 0);
    }
  });
}

template <int D>
void all()
{
  for (auto &s : sizes<D>(2, D == 1 ? 40 : D == 2 ? (mc::thorough ? 20 : 7) : (mc::thorough ? 6 : 3)))
    for (int pad : {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 33}) {
      if (pad > 8 && (s.n[0] > 3 || s.n[1] > 2 || s.n[2] > 1)) continue;
      size_t vol = 1;
      for (int a = 0; a < D; ++a) vol *= s.n[a] + 2 * pad;
      if (too_big(s, pad, vol, (mc::thorough ? 1000000u : 60000u))) continue;
      if (!mc::begin("dim %d cells %dx%dx%d padding %d, all boxes", D, s.n[0], s.n[1], s.n[2], pad)) continue;
      bool combos = vol <= (D == 1 ? 10000u : D == 2 ? 300u : mc::thorough ? 1000u : 130u);
      for (int b = 0; b < NB + 3; ++b) {
        bool ex = b >= NB;
        Box bx = ex ? dyadic(s.n, b - NB) : boxes[b];
        GridOf<D> g(s.n, pad, bx);
        sweep<D>(g.g, s.n, pad, bx, ex, combos);
        if (ex && vol <= (D == 1 ? 10000u : 400u)) near_nodes<D>(g.g, s.n, pad, bx);
        if (b == 2 || ex) {  // regenerated on another box / padding: lookup must follow
          generate(g.g, boxes[(b + 3) % NB]);
          sweep<D>(g.g, s.n, pad, boxes[(b + 3) % NB], false, false);
          g.g.setPadding(pad + 1);
          generate(g.g, bx);
          sweep<D>(g.g, s.n, pad + 1, bx, ex, false);
        }
      }
    }
}

// One or two grid objects through every sequence of regenerations; the same points are looked up after every operation.
template <int D>
void history()
{
  histories("lookups of the same points", D, 6, mc::thorough ? 6 : 5, [&](const std::vector<int> &seq) {
    const int n[2][3] = {{5, D > 1 ? 4 : 1, D > 2 ? 3 : 1}, {2, D > 1 ? 7 : 1, D > 2 ? 4 : 1}};
    int box[2] = {0, 1}, pad[2] = {1, 3}, cur = 0;
    GridOf<D> g0(n[0], pad[0], hboxes[box[0]]), g1(n[1], pad[1], hboxes[box[1]]);
    G<D> *g[2] = {&g0.g, &g1.g};
    auto look = [&] {
      for (auto &p : hpoints) {
        int id[3] = {0, 0, 0};
        LD t[3];
        if (!locate<D>(hboxes[box[cur]], n[cur], pad[cur], p, id, t)) continue;
        mc::state();
        for (int rep = 0; rep < 2; ++rep) {
          const I3 r = g[cur]->baseNodeId(V3(p[0], p[1], p[2]));
          mc::step();
          for (int a = 0; a < D; ++a)
            if (r[a] != id[a]) mc::fail("axis %d: point %.17g lies %.6Lg dx above node %d but has base node %d", a, p[a], t[a], id[a], r[a]);
        }
      }
    };
    look();
    for (int op : seq) {
      if (op < 3) generate(*g[cur], hboxes[box[cur] = op]);
      if (op == 3) g[cur]->setPadding(++pad[cur]), generate(*g[cur], hboxes[box[cur]]);
      if (op == 4) cur = !cur;
      if (op == 5) {  // both at once
        generate(*g[!cur], hboxes[box[!cur] = (box[!cur] + 1) % 3]);
        generate(*g[cur], hboxes[box[cur] = (box[cur] + 2) % 3]);
      }
      look();
    }
  });
}
int main(int argc, char **argv)
{
  mc::init(argc, argv);
  all<1>(), all<2>(), all<3>();
  history<1>(), history<2>(), history<3>();
  mc::finish();
}
