// C21: the serial reference solver against an independent long-double model, over an exhaustive family of runs.
#include "refmatch.h"
static Entry prog[2];
static void one(const RCfg &c, bool stale)
{
  if (c.field == 1 && !prog[1]) return;
  if (!mc::begin("%s%s", text(c).c_str(), stale ? ", old files present" : "")) return;
  Model m(c, 0);
  if (m.ambiguous) {
    mc::counters["undecided_by_rounding"]++;
    return;
  }
  cur = c;
  std::string d = std::string(getenv("VERIF_SCRATCH")) + "/run";
  clear_dir(d);
  if (stale) stale_dir(d);
  run_solo(prog[c.field], d, {"GALS_Advection"}, "the solver");
  Output o = read_output(d, c.nx, c.ny);
  char why[400], w2[400];
  bool ok = match(o, m, why, sizeof why);
  // far-side nodes at rest: the last node may lie a rounding error inside the box
  for (unsigned b = 1; !ok && m.used && b < 4; ++b) {
    if (b & ~m.loose()) continue;
    Model q(c, b);
    if (!q.ambiguous) ok = match(o, q, w2, sizeof w2);
  }
  if (!ok) mc::fail("%s", why);
  mc::state((uint64_t)c.nx * c.ny * (m.n + 1));
  mc::step((uint64_t)c.nx * c.ny * m.n);
  for (int k = 1; k < 5; ++k) mc::counters[std::string("roots_kind_") + char('0' + k)] += m.kinds[k];
}
int main(int argc, char **argv)
{
  mc::init(argc, argv);
  prog[0] = load(getenv("VERIF_PROG0"));
  if (getenv("VERIF_PROG1")) prog[1] = load(getenv("VERIF_PROG1"));
  bool T = mc::thorough;
  struct B {
    double a, b, c, d;
  };
  static const B bx[] = {{0, 1, 0, 1}, {-1, 1, 0, 2}, {0.25, 0.75, 0.125, 0.625}, {0.1, 0.9, 0.2, 1.3}, {-0.4, 0.7, 0.3, 0.8}, {0, 2, -1, 1}, {0.5, 1.5, 0.25, 0.5}};
  static const char *P[] = {"SuperConsistent", "Heuns"}, *S[] = {"RK3", "Euler"};
  int full = T ? 20 : 10;
  // every size, every scheme, boxes and time steps; two steps, all printed
  for (int f = 0; f < 2; ++f)
    for (unsigned nx = 3; nx <= (unsigned)full; ++nx)
      for (unsigned ny = 3; ny <= (unsigned)full; ++ny)
        for (int b = 0; b < 7; ++b)
          for (int s = 0; s < 4; ++s) {
            if (!T && (nx > 6 || ny > 6) && (nx + ny + b) % 4 != (unsigned)s) continue;
            double h = (bx[b].b - bx[b].a) / (nx - 1);
            for (double co : {0.5, 2.0}) {
              if (!T && co == 2.0 && (nx + ny) % 2) continue;
              double dt = co * h;
              one({bx[b].a, bx[b].b, bx[b].c, bx[b].d, nx, ny, dt, 2.25 * dt, 1, 1, P[s & 1], S[s >> 1], b % 2 ? 0.7 : 1.0, f, 0.8}, (nx ^ ny) & 1);
            }
          }
  // larger grids, the default configuration shortened
  for (int f = 0; f < 2; ++f)
    for (unsigned n : {16u, 17u, 31u, 32u, 33u, 64u, 65u, 127u, 128u, 129u})
      for (int s = 0; s < 4; ++s) {
        if (!T && n > 65 && s != (int)(n + f) % 4) continue;
        for (int w = 0; w < 3; ++w) {
          unsigned nx = w == 1 ? n : w == 2 ? 3 : n, ny = w == 1 ? 3 : n;
          one({0, 1, 0, 1, nx, ny, 0.5 / n, 3.5 * 0.5 / n, 1, 2, P[s & 1], S[s >> 1], 1.0, f, 1.0}, false);
          one({-0.3, 0.9, 0.15, 1.05, nx, ny, 0.7 / n, 2.5 * 0.7 / n, 2, 7, P[s & 1], S[s >> 1], 2.0, f, 1.0}, true);
        }
      }
  // step counts, print intervals and options; fractional number of steps
  for (int f = 0; f < 2; ++f)
    for (unsigned n = 0; n <= (T ? 12u : 7u); ++n)
      for (unsigned pr = 1; pr <= (T ? 13u : 8u); ++pr)
        for (unsigned op = 1; op <= 2; ++op)
          for (int fr = 0; fr < 4; ++fr)
            for (int s = 0; s < (T ? 4 : 2); ++s) one({0, 1, 0, 1, 5, 4, 0.0625, 0.0625 * n + (fr == 3 ? 0.0624 : fr * 0.03), op, pr, P[s & 1], S[(s >> 1) ^ (n & 1)], 1.0, f, 0.8}, fr & 1);
  // time-step lattice: from tiny to roots several cells away and out of the box; strong and weak flow; periods
  for (unsigned nx : {4u, 7u})
    for (unsigned ny : {5u, 6u})
      for (double dt : {3e-9, 1e-8, 3e-8, 1e-6, 1e-4, 0.01, 0.05, 0.1, 0.25, 0.4, 0.6, 1.0})
        for (double amp : {0.1, 1.0, 3.0, -1.0, -3.0})
          for (double per : {0.5, 1.0, 3.0})
            for (int s = 0; s < 4; ++s) {
              one({0.1, 0.9, 0.2, 1.3, nx, ny, dt, 2.5 * dt, 1, 1, P[s & 1], S[s >> 1], per, 1, amp}, false);
              if (amp == 1.0) one({0, 1, 0, 1, nx, ny, dt, 2.5 * dt, 1, 1, P[s & 1], S[s >> 1], per, 0, 1}, false);
            }
  // long histories
  for (int f = 0; f < 2; ++f)
    for (int s = 0; s < 4; ++s)
      for (unsigned n : {32u, T ? 256u : 64u}) one({0, 1, 0, 1, 9, 12, 0.5 / n, 0.5, 1, n / 8, P[s & 1], S[s >> 1], 1.0, f, 0.3}, false);
  // many steps: step counters beyond 8 and 10 bits, large step indices and times
  for (int f = 0; f < 2; ++f)
    for (int s = 0; s < 4; ++s) {
      one({0, 1, 0, 1, 4, 3, 1.0 / 512, 300.5 / 512, 1, 25, P[s & 1], S[s >> 1], 1.0, f, 0.2}, false);
      one({0, 1, 0, 1, 3, 4, 1.0 / 1024, 1100.5 / 1024, 1, 100, P[s & 1], S[s >> 1], 2.0, f, 0.05}, true);
      one({0, 1, 0, 1, 3, 3, 1.0 / 256, 1050.5 / 256, 2, 1, P[s & 1], S[s >> 1], 0.5, f, 0.02}, true);
    }
  // long and wide grids, boxes away from the origin
  for (int f = 0; f < 2; ++f)
    for (int s = 0; s < 4; ++s) {
      static const unsigned sz[][2] = {{200, 3}, {3, 200}, {256, 5}, {5, 257}, {300, 7}, {4, 520}, {1030, 3}, {3, 1030}, {150, 160}};
      for (auto &z : sz) {
        if (!T && z[0] * z[1] > 4000 && s != f) continue;
        one({0, 1, 0, 1, z[0], z[1], 0.002, 0.005, 1, 1, P[s & 1], S[s >> 1], 1.0, f, 1.0}, z[0] & 1);
      }
      one({5, 7, -6, -3, 9, 8, 0.1, 0.25, 1, 1, P[s & 1], S[s >> 1], 1.0, f, 0.5}, false);
      one({-20.5, -18, 30, 31.25, 6, 11, 0.1, 0.25, 1, 1, P[s & 1], S[s >> 1], 1.0, f, 0.5}, false);
      one({0, 0.125, 0, 0.25, 6, 5, 0.01, 0.025, 1, 1, P[s & 1], S[s >> 1], 1.0, f, 0.5}, false);
    }
  if (!prog[1]) mc::counters["generic_fields_not_buildable"] = 1;
  mc::finish();
}
