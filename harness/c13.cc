// C13: analytical fields against their formulas.
#include "world.h"

static const LD PI_L = 3.141592653589793238462643383279502884L;
template <int D>
void run(const int *n, int pad, const Box &b, int variant)
{
  World<D> w(n, pad, b);
  const LD coeff = PI_L / 3.15L;
  LD L[3];
  for (int a = 0; a < 3; ++a) L[a] = (LD)b.hi[a] - b.lo[a];
  static const char *unknown[] = {"SQUARE", "", "circle", "CIRCLE ", "SPHERE", "CIRCULAR", "circular", "SHEAR", "CIRCLES", "NOT_DEFINED"};
  auto positions = [&](int mode) {
    nodes<D>(n, pad, [&](int i, int j, int k) {
      w.pos(i, j, k) = const_cast<const G<D> &>(w.g)(i, j, k);
      if (mode)  // positions need not be those of the grid
        for (int a = 0; a < D; ++a) w.pos(i, j, k)[a] = (double)(b.lo[a] + L[a] * gen(i + 1000 * j + 77777 * k, 5 + a));
    });
  };
  auto at = [&](int mode, int a, const int *id) -> LD { return mode ? (LD)w.pos(id[0], id[1], id[2])[a] : a < D ? coord(b, n, a, id[a]) : 0; };
  const bool big = giant({{n[0], n[1], n[2]}});
  // fractions of the box at which centres are placed; the first sits on node 0
  static const LD fr[][3] = {{-1, -1, -1}, {0.5L, 0.5L, 0.5L}, {0, 1, 0.25L}, {0.3L, 0.8L, -2}, {2.5L, -1.5L, 0.7L}};
  for (int c = 0; c < 5; ++c) {
    if (big && c != 3) continue;
    const int mode = c == 4;
    V3 ctr(0, 0, 0);
    for (int a = 0; a < 3; ++a) ctr[a] = (double)(fr[c][a] == -1 ? coord(b, n, a, 0) : b.lo[a] + fr[c][a] * L[a]);
    if (D < 3 && !(variant & 1)) ctr[2] = 0;
    if (D < 2 && !(variant & 1)) ctr[1] = 0;
    static const LD rad[] = {0, 0.25L, 1.75L, -0.5L, -2.25L};
    for (int ri = 0; ri < 5; ++ri) {
      if (big && ri != 1) continue;
      const double R = (double)(rad[ri] * L[0]);
      w.fill(variant + 7 * c, ~0u, c & 1, 1);
      positions(mode);
      w.li.name = "CIRCLE", w.li.center = ctr, w.li.radius = R, w.li.gradient_scheme = c & 1 ? "CENTRAL" : "";
      w.vi.name = "CIRCULAR", w.vi.center = {ctr[0], ctr[1], ctr[2]}, w.vi.vector = {7, 8, 9};
      auto before = w.snapshot();
      GALS::ANALYTICAL_FIELDS::Levelset<G<D>, double> al(w.g, w.li);
      al.compute(w.pos, w.l);
      mc::step();
      interior(n, [&](int i, int j, int k) {
        mc::state();
        const int id[3] = {i, j, k};
        LD s = 0, sc = fabsl(R) + box_scale(b, n, pad, 0) + (D > 1 ? box_scale(b, n, pad, 1) : 0) + (D > 2 ? box_scale(b, n, pad, 2) : 0);
        for (int a = 0; a < 3; ++a) {
          LD x = at(mode, a, id);
          s += (x - ctr[a]) * (x - ctr[a]);
          sc += fabsl(x) + fabsl((LD)ctr[a]);
        }
        mc::expect_close(w.l.phi()(i, j, k), sqrtl(s) - R, sc, "CIRCLE level set", 1e-12L);
      });
      // nothing else moved
      auto after = w.snapshot();
      for (int f = 0; f <= NFIELDS; ++f)
        if (f != F_PHI && before[f] != after[f]) mc::fail("CIRCLE changed %s", f < NFIELDS ? fname[f] : "grid or inputs");
      // the container used twice holds the second field
      w.li.radius = R + 0.5;
      LD p0 = w.l.phi()(n[0] - 1, n[1] - 1, n[2] - 1);
      GALS::ANALYTICAL_FIELDS::Levelset<G<D>, double>(w.g, w.li).compute(w.pos, w.l);
      mc::expect_close(w.l.phi()(n[0] - 1, n[1] - 1, n[2] - 1), p0 - 0.5L, fabsl(p0) + 1 + box_scale(b, n, pad, 0), "CIRCLE recomputed with a larger radius", 1e-12L);
      mc::counters["circle fields"]++;
    }
    if (D >= 2) {
      static const char *schemes[] = {"ANALYTICAL", "CENTRAL", "", "analytical", "ANALYTICAL2"};
      static const double times[] = {0, -3.5, 0.125, 1e6, 1e-12, 1e-6, 0.01, 0.25, 0.3, 0.5, 0.7, 0.75, 0.99, 1, 1.5, 1.575, 2, 2.5, 3, 3.1, 3.15, 3.2, 4, 4.725, 5, 6, 6.3, 7, 8, 9.45, 10, 12.6, 16, 20, 31.5, 50, 64, 99, 100, 128, 255, 360, 512, 999, 1000, 4096, 1e4, 1e5, 1e9, 1e15, 1e300, -1e-9, -0.5, -1, -2, -3.15, -10, -100, -1e4, -1e9};
      static const int NT = sizeof times / sizeof *times;
      for (int si = 0; si < 5; ++si)
        for (int ti = 0; ti < NT; ++ti)
          for (int fresh = 0; fresh < 2; ++fresh) {
            if (ti >= 4 && (si || big || n[0] * n[1] * n[2] > 8 || pad > 2 || (c + ti) % 5)) continue;
            if (ti < 4 && (si || big) && ti != (si + c) % 4) continue;
            w.fill(variant + 7 * c + si, ~0u, c & 1, 1);
            positions(mode);
            LV<D> nv(w.g);
            LV<D> &v = fresh ? nv : w.v;
            w.vi.name = "CIRCULAR", w.vi.center = {ctr[0], ctr[1], ctr[2]}, w.vi.vector = {7, 8, 9}, w.vi.gradient_scheme = schemes[si];
            auto before = w.snapshot();
            GALS::ANALYTICAL_FIELDS::Velocity<G<D>, double> av(w.g, w.vi);
            av.compute(w.pos, times[ti], v);
            mc::step();
            const bool an = si == 0;
            interior(n, [&](int i, int j, int k) {
              mc::state();
              const int id[3] = {i, j, k};
              LD x = at(mode, 0, id), y = at(mode, 1, id);
              LD sc = box_scale(b, n, pad, 0) + box_scale(b, n, pad, 1) + fabsl((LD)ctr[0]) + fabsl((LD)ctr[1]);
              mc::expect_close(v.velocity()(i, j, k)[0], coeff * (ctr[1] - y), sc, "u of the rotation", 1e-12L);
              mc::expect_close(v.velocity()(i, j, k)[1], coeff * (x - ctr[0]), sc, "v of the rotation", 1e-12L);
              if (D == 3 || fresh)
                if (v.velocity()(i, j, k)[2] != 0) mc::fail("w of the rotation is %g at (%d,%d,%d)", v.velocity()(i, j, k)[2], i, j, k);
              for (int r = 0; r < 3; ++r)
                for (int q = 0; q < 3; ++q) {
                  LD want = r == 0 && q == 1 ? -coeff : r == 1 && q == 0 ? coeff : 0;
                  double got = v.velocityGradient()(i, j, k)(r, q);
                  if (an && ((r < D && q < D) || fresh)) mc::expect_close(got, want, 1, "analytical gradient entry", 1e-13L);
                  if (!an && fresh && got != 0) mc::fail("gradient written although the scheme is '%s'", schemes[si]);
                }
            });
            auto after = w.snapshot();
            for (int f = 0; f <= NFIELDS; ++f)
              if ((fresh || (f != F_VEL && (f != F_VGRAD || !an))) && before[f] != after[f])
                mc::fail("rotation with scheme '%s' changed %s", schemes[si], f < NFIELDS ? fname[f] : "grid or inputs");
            mc::counters["rotation fields"]++;
          }
    }
  }
  // unknown names leave every field alone, first and repeated use, before and after known names
  for (int u = 0; u < 10; ++u)
    for (int rep = 0; rep < 2; ++rep) {
      if (big && (u != 3 || rep)) continue;
      w.fill(variant + u, ~0u, u & 1, 1);
      positions(0);
      w.li.name = unknown[u];
      w.vi.name = unknown[u];
      if (w.vi.name == "CIRCULAR") w.vi.name = "CIRCLE";
      w.vi.gradient_scheme = "ANALYTICAL";
      auto before = w.snapshot();
      GALS::ANALYTICAL_FIELDS::Levelset<G<D>, double>(w.g, w.li).compute(w.pos, w.l);
      GALS::ANALYTICAL_FIELDS::Velocity<G<D>, double>(w.g, w.vi).compute(w.pos, 0.5, w.v);
      mc::step(2), mc::state();
      auto after = w.snapshot();
      for (int f = 0; f <= NFIELDS; ++f)
        if (before[f] != after[f]) mc::fail("unknown name '%s' changed %s", unknown[u], f < NFIELDS ? fname[f] : "grid or inputs");
      mc::counters["unknown names"]++;
    }
}
// names one edit away from the known ones, in both roles
static std::vector<std::string> near_names()
{
  std::set<std::string> r;
  for (std::string k : {"CIRCLE", "CIRCULAR", "NOT_DEFINED", "ANALYTICAL"}) {
    for (size_t i = 0; i <= k.size(); ++i) {
      r.insert(k.substr(0, i)), r.insert(k.substr(i));
      if (i < k.size()) {
        std::string d = k, c = k, l = k;
        d.erase(i, 1), c[i] = 'X', l[i] = tolower(l[i]);
        r.insert(d), r.insert(c), r.insert(l);
        std::string dup = k;
        dup.insert(i, 1, k[i]), r.insert(dup);
      }
      for (char ins : {' ', '_', 'S', '1', '\0', '\n'}) {
        std::string e = k;
        e.insert(i, 1, ins), r.insert(e);
      }
      if (i + 1 < k.size()) {
        std::string s = k;
        std::swap(s[i], s[i + 1]), r.insert(s);
      }
    }
    for (std::string x : {"_X", "_2D", "CIRCLE", "AR", " CIRCLE", "/", ".", ", CIRCLE", "CIRCULAR"}) r.insert(k + x), r.insert(x + k);
    std::string low;
    for (char c : k) low += tolower(c);
    r.insert(low);
  }
  for (std::string x : {"", " ", "0", "1", "SQUARE", "SPHERE", "SHEAR", "VORTEX", "UNIFORM", "ROTATION", "ZALESAK", "true", "null", "~"}) r.insert(x);
  r.insert(std::string(300, 'C'));
  return std::vector<std::string>(r.begin(), r.end());
}
template <int D>
void names()
{
  const auto nn = near_names();
  for (size_t q = 0; q < nn.size(); ++q) {
    if (!mc::begin("dim %d: field name '%s'", D, nn[q].c_str())) continue;
    const int n[3] = {3, D > 1 ? 2 : 1, D > 2 ? 2 : 1};
    World<D> w(n, 2, boxes[q % NB]);
    for (int role = 0; role < 2; ++role) {
      if (nn[q] == (role ? "CIRCULAR" : "CIRCLE")) continue;
      w.fill(q, ~0u, q & 1, 1);
      w.li.name = role ? "CIRCLE" : nn[q], w.li.center = V3(0.5, 0.5, 0.5), w.li.radius = 0.3, w.li.gradient_scheme = "ANALYTICAL";
      w.vi.name = role ? nn[q] : "CIRCULAR", w.vi.center = {0, 0, 0}, w.vi.vector = {7, 8, 9}, w.vi.gradient_scheme = "ANALYTICAL";
      auto before = w.snapshot();
      if (role)
        GALS::ANALYTICAL_FIELDS::Velocity<G<D>, double>(w.g, w.vi).compute(w.pos, 0.5, w.v);
      else
        GALS::ANALYTICAL_FIELDS::Levelset<G<D>, double>(w.g, w.li).compute(w.pos, w.l);
      mc::step(), mc::state();
      if (w.snapshot() != before) mc::fail("the unknown %s name '%s' changed a field", role ? "velocity" : "level set", nn[q].c_str());
    }
    mc::counters["unknown names"]++;
  }
}
// positions, analytical object and target each on a grid object of their own (same cells, other padding and box)
template <int D>
void other_grids()
{
  for (auto &s : sizes<D>(0, D == 1 ? 8 : 3))
    for (int b = 0; b < NB; ++b) {
      if (!mc::begin("dim %d cells %dx%dx%d box %s: positions, operator and target on different grids", D, s.n[0], s.n[1], s.n[2], boxes[b].name)) continue;
      for (int p1 : {0, 1, 3})
        for (int p2 : {0, 1, 2}) {
          GridOf<D> gp(s.n, p1, boxes[b]), go(s.n, 1, boxes[(b + 2) % NB]), gt(s.n, p2, boxes[(b + 3) % NB]);
          A<D, V3> pos(gp.g);
          LS<D> l(gt.g);
          LV<D> v(gt.g);
          LD mx = 0;
          for (size_t t = 0; t < pos.size(); ++t)
            for (int a = 0; a < D; ++a) pos[t][a] = 20 * gen(t, a + b), mx = 20;
          GALS::INPUT_FIELDS::Levelset li;
          GALS::INPUT_FIELDS::Velocity vi;
          li.name = "CIRCLE", li.center = V3(1, -2, D > 2 ? 3 : 0), li.radius = 2.5, li.gradient_scheme = "";
          vi.name = "CIRCULAR", vi.center = {3, -1, 2}, vi.vector = {0, 0, 0}, vi.gradient_scheme = "ANALYTICAL";
          GALS::ANALYTICAL_FIELDS::Levelset<G<D>, double>(go.g, li).compute(pos, l);
          if (D > 1) GALS::ANALYTICAL_FIELDS::Velocity<G<D>, double>(go.g, vi).compute(pos, 0, v);
          mc::step(2);
          const LD coeff = PI_L / 3.15L;
          interior(s.n, [&](int i, int j, int k) {
            LD d = 0;
            for (int a = 0; a < 3; ++a) d += ((LD)pos(i, j, k)[a] - li.center[a]) * ((LD)pos(i, j, k)[a] - li.center[a]);
            mc::state();
            mc::expect_close(l.phi()(i, j, k), sqrtl(d) - 2.5L, mx, "CIRCLE level set", 1e-12L);
            if (D > 1) {
              mc::expect_close(v.velocity()(i, j, k)[0], coeff * (-1 - (LD)pos(i, j, k)[1]), mx, "u of the rotation", 1e-12L);
              mc::expect_close(v.velocity()(i, j, k)[1], coeff * ((LD)pos(i, j, k)[0] - 3), mx, "v of the rotation", 1e-12L);
              mc::expect_close(v.velocityGradient()(i, j, k)(0, 1), -coeff, 1, "du/dy", 1e-12L);
              mc::expect_close(v.velocityGradient()(i, j, k)(1, 0), coeff, 1, "dv/dx", 1e-12L);
            }
          });
        }
    }
}
// The same operator, positions, targets and inputs through every sequence of in-place changes (inputs are changed between
// operator objects only); both fields are computed and checked after every operation.
template <int D>
void history()
{
  histories("fields of positions and inputs changed in place", D, 8, mc::thorough ? 6 : mc::lite ? 2 : 4, [&](const std::vector<int> &seq) {
    typedef GALS::ANALYTICAL_FIELDS::Levelset<G<D>, double> AL;
    typedef GALS::ANALYTICAL_FIELDS::Velocity<G<D>, double> AV;
    const int n[3] = {4, D > 1 ? 3 : 1, D > 2 ? 2 : 1};
    GridOf<D> g(n, 1, hboxes[0]);
    A<D, V3> p0(g.g), p1(g.g), *ps[2] = {&p0, &p1};
    LS<D> l0(g.g), l1(g.g), *ls[2] = {&l0, &l1};
    LV<D> v0(g.g), v1(g.g), *vs[2] = {&v0, &v1};
    GALS::INPUT_FIELDS::Levelset li;
    GALS::INPUT_FIELDS::Velocity vi;
    li.name = "CIRCLE", li.center = V3(1, D > 1 ? -2 : 0, D > 2 ? 3 : 0), li.radius = 2.5, li.gradient_scheme = "";
    vi.name = "CIRCULAR", vi.center = {3, -1, 2}, vi.vector = {0, 0, 0}, vi.gradient_scheme = "ANALYTICAL";
    AL *al = new AL(g.g, li);
    AV *av = new AV(g.g, vi);
    uint64_t salt = 1;
    int wp = 0, wt = 0, c = 0;
    double time = 0;
    for (auto p : ps) {
      ++salt;
      for (size_t t = 0; t < p->size(); ++t)
        for (int a = 0; a < D; ++a) (*p)[t][a] = 8 * gen(t, 10 * salt + a);
    }
    const LD coeff = PI_L / 3.15L;
    auto look = [&] {
      const A<D, V3> &pos = *ps[wp];
      for (int rep = 0; rep < 2; ++rep) {
        LS<D> &l = *ls[wt];
        LV<D> &v = *vs[wt];
        const bool an = vi.gradient_scheme == "ANALYTICAL";
        M3 keep[2] = {v.velocityGradient()(0, 0, 0), v.velocityGradient()(n[0] - 1, n[1] - 1, n[2] - 1)};
        al->compute(pos, l);
        if (D > 1) av->compute(pos, time, v);
        mc::step(2);
        interior(n, [&](int i, int j, int k) {
          mc::state();
          LD d = 0;
          for (int a = 0; a < 3; ++a) d += ((LD)pos(i, j, k)[a] - li.center[a]) * ((LD)pos(i, j, k)[a] - li.center[a]);
          mc::expect_close(l.phi()(i, j, k), sqrtl(d) - (LD)li.radius, 30, "CIRCLE level set", 1e-12L);
          if (D > 1) {
            mc::expect_close(v.velocity()(i, j, k)[0], coeff * ((LD)vi.center[1] - (LD)pos(i, j, k)[1]), 30, "u of the rotation", 1e-12L);
            mc::expect_close(v.velocity()(i, j, k)[1], coeff * ((LD)pos(i, j, k)[0] - (LD)vi.center[0]), 30, "v of the rotation", 1e-12L);
            const M3 &m = v.velocityGradient()(i, j, k);
            if (an) {
              mc::expect_close(m(0, 1), -coeff, 1, "du/dy", 1e-12L);
              mc::expect_close(m(1, 0), coeff, 1, "dv/dx", 1e-12L);
              for (int r = 0; r < D; ++r)
                for (int q = 0; q < D; ++q)
                  if (!(r == 0 && q == 1) && !(r == 1 && q == 0)) mc::expect_close(m(r, q), 0, 1, "other gradient entry", 1e-12L);
            }
          }
        });
        if (D > 1 && !an)
          for (int e = 0; e < 2; ++e)
            for (int r = 0; r < 3; ++r)
              for (int q = 0; q < 3; ++q)
                if (keep[e](r, q) != (e ? v.velocityGradient()(n[0] - 1, n[1] - 1, n[2] - 1) : v.velocityGradient()(0, 0, 0))(r, q)) mc::fail("gradient written although the scheme is '%s'", vi.gradient_scheme.c_str());
      }
    };
    look();
    for (int op : seq) {
      ++c;
      A<D, V3> &pos = *ps[wp];
      if (op == 0) pos(c % n[0], c % n[1], c % n[2])[c % D] += 0.75;
      if (op == 1) {
        ++salt;
        for (size_t t = 0; t < pos.size(); ++t)
          for (int a = 0; a < D; ++a) pos[t][a] = 8 * gen(t, 10 * salt + a);
      }
      if (op == 2) wp = !wp;
      if (op == 3) {  // the target is overwritten by something else in between
        wt = !wt;
        for (size_t t = 0; t < ls[wt]->phi().size(); ++t) {
          ls[wt]->phi()[t] = 1e5 + t, vs[wt]->velocity()[t] = V3(1, 2, 3);
          for (int e = 0; e < 9; ++e) vs[wt]->velocityGradient()[t](e / 3, e % 3) = 50 + e;
        }
      }
      if (op == 4) generate(g.g, hboxes[c % 3]);  // positions count, not the grid's own nodes
      if (op == 5 || op == 6) {
        delete al, delete av;
        if (op == 5)
          li.center[c % D] += 1.5, li.radius = 3.25 - li.radius, vi.center[c % 2] -= 2;
        else
          vi.gradient_scheme = vi.gradient_scheme == "ANALYTICAL" ? "CENTRAL" : "ANALYTICAL";
        al = new AL(g.g, li), av = new AV(g.g, vi);
      }
      if (op == 7) time = time == 0 ? 2.5 : 0;
      look();
    }
    delete al, delete av;
  });
}
template <int D>
void all()
{
  names<D>();
  other_grids<D>();
  for (auto &s : sizes<D>(2, D == 1 ? 24 : D == 2 ? (mc::thorough ? 12 : 6) : (mc::thorough ? 5 : 3)))
    for (int pad : {0, 1, 2, 3, 4})
      for (int bi = 0; bi < NB; ++bi) {
        size_t vol = 1;
        for (int a = 0; a < D; ++a) vol *= s.n[a] + 2 * pad;
        if (too_big(s, pad, vol, (mc::thorough ? 40000u : 3000u))) continue;
        if (mc::lite && vol > 400) continue;
        if (vol > 40 && !mc::thorough && bi != (s.n[0] + 2 * s.n[1] + pad) % NB) continue;
        if (vol > 2000 && bi != (s.n[0] + pad) % NB) continue;
        if (!mc::begin("dim %d cells %dx%dx%d padding %d box %s: analytical fields", D, s.n[0], s.n[1], s.n[2], pad, boxes[bi].name)) continue;
        run<D>(s.n, pad, boxes[bi], bi + pad);
      }
}
int main(int argc, char **argv)
{
  mc::init(argc, argv);
  all<1>(), all<2>(), all<3>();
  history<1>(), history<2>(), history<3>();
  mc::finish();
}
