// C22: the CUDA program under a controlled CUDA runtime (see cuda_rt.h), against the long-double model of the run.
#include "refmatch.h"
#include "cuda_rt.h"
static Entry prog[3];
static uint64_t *shm;
static std::string base;
static void go(Entry e, const std::string &d)
{
  if (chdir(d.c_str())) _exit(3);
  int n = open("/dev/null", O_RDWR);
  dup2(n, 0), dup2(n, 1);
  char *av[] = {(char *)"prog", 0};
  int rc = e(1, av);
  gpu::flush();
  fflush(0);
  shm[0] += gpu::accesses, shm[1] += gpu::launches, shm[2] += gpu::threads, shm[3] += gpu::copies;
  mc::finished = true;
  _exit(rc == 0 ? 0 : 17);
}
static RCfg kept;
static Model *model = 0;
static void one(const RCfg &c, unsigned tile, int order, bool lazy)
{
  if (!prog[c.field]) return;
  if (!mc::begin("tile %u, block and thread order %d, %s execution: %s", tile, order, lazy ? "deferred" : "immediate", text(c).c_str())) return;
  RCfg mcfg = c;
  mcfg.psi = "SuperConsistent", mcfg.bt = "RK3";  // the only schemes of this program
  if (!model || memcmp(&kept, &mcfg, sizeof kept)) {
    delete model;
    model = new Model(mcfg, 0);
    kept = mcfg;
  }
  Model &m = *model;
  if (m.ambiguous) {
    mc::counters["undecided_by_rounding"]++;
    return;
  }
  cur = c, cur_tile = tile, gpu::order = order, gpu::lazy = lazy;
  std::string d = base + "/run";
  clear_dir(d);
  if (order & 1) stale_dir(d);
  memset(shm, 0, 4096);
  pid_t p = fork();
  if (p == 0) go(prog[c.field], d);
  int st;
  waitpid(p, &st, 0);
  judge_status(st, "the CUDA solver");
  Output o = read_output(d, c.nx, c.ny);
  char why[400], w2[400];
  bool ok = match(o, m, why, sizeof why);
  for (unsigned b = 1; !ok && m.used && b < 4; ++b) {
    if (b & ~m.loose()) continue;
    Model q(mcfg, b);
    if (!q.ambiguous) ok = match(o, q, w2, sizeof w2);
  }
  if (!ok) mc::fail("%s", why);
  mc::state(shm[2]);
  mc::step(shm[0] ? shm[0] : shm[2]);
  mc::counters["kernel_launches"] += shm[1];
  mc::counters["recorded_accesses"] += shm[0];
  for (int k = 1; k < 5; ++k) mc::counters[std::string("roots_kind_") + char('0' + k)] += m.kinds[k];
}
int main(int argc, char **argv)
{
  mc::init(argc, argv);
  base = getenv("VERIF_SCRATCH");
  shm = (uint64_t *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  prog[0] = load(getenv("VERIF_PROG0"));
  if (getenv("VERIF_PROG2")) prog[2] = load(getenv("VERIF_PROG2"));
#ifndef VERIF_ASAN
  dl_iterate_phdr(gpu::seg, getenv("VERIF_PROG0"));
  if (getenv("VERIF_PROG2")) dl_iterate_phdr(gpu::seg, getenv("VERIF_PROG2"));
#endif
  bool T = mc::thorough;
  struct B {
    double a, b, c, d;
  };
  static const B bx[] = {{0, 1, 0, 1}, {-1, 1, 0, 2}, {0.25, 0.75, 0.125, 0.625}, {0.1, 0.9, 0.2, 1.3}, {-0.4, 0.7, 0.3, 0.8}};
  // every size: whole and partial tiles, every tile that matters, orders, boxes, deferred and immediate execution
  for (int f = 0; f < 3; f += 2)
    for (unsigned nx = 3; nx <= (T ? 20u : 10u); ++nx)
      for (unsigned ny = 3; ny <= (T ? 20u : 10u); ++ny)
        for (unsigned tile : {1u, 2u, 3u, 4u, 5u, 8u, 16u}) {
          if (!T && tile > 4 && tile != 16 && (nx + ny) % 3) continue;
          for (int o = 0; o < (T ? 16 : 1); ++o) {
            int b = (nx + 2 * ny + tile) % 5;
            double dt = ((nx + tile) % 3 == 0 ? 1.5 : 0.4) * (bx[b].b - bx[b].a) / (nx - 1);
            int oo = T ? o : (int)(nx * 5 + ny * 3 + tile) % 16;
            one({bx[b].a, bx[b].b, bx[b].c, bx[b].d, nx, ny, dt, 2.25 * dt, 1, 1, "SuperConsistent", "RK3", b % 2 ? 0.7 : 1.0, f, 0.8}, tile, oo, (nx + ny + o) & 1);
          }
        }
  // larger grids
  for (int f = 0; f < 3; f += 2)
    for (unsigned nx : {16u, 17u, 31u, 32u, 33u, 48u, 64u, 100u, 128u})
      for (unsigned ny : {16u, 18u, 32u, 47u, 128u}) {
        if (!T && nx * ny > 4096 && (nx + ny + f) % 4) continue;
        for (unsigned tile : {8u, 16u, 32u}) {
          if (!T && tile != 16 && nx * ny > 600) continue;
          one({0, 1, 0, 1, nx, ny, 0.5 / nx, 2.5 * 0.5 / nx, 1, 1, "SuperConsistent", "RK3", 1.0, f, 1.0}, tile, (nx + ny) % 16, tile == 8);
        }
      }
  // several whole and partial tiles in both directions
  for (int f = 0; f < 3; f += 2)
    for (unsigned tile : {16u, 32u})
      for (int w = 0; w < (T ? 3 : 2); ++w) {
        static const unsigned sz[][2] = {{128, 128}, {100, 131}, {161, 97}};
        one({0, 1, 0, 1, sz[w][0], sz[w][1], 0.004, 0.005, 1, 1, "SuperConsistent", "RK3", 1.0, f, 1.0}, tile, (tile + 5 * w + f) % 16, w & 1);
      }
  // step counts, print intervals, options; the scheme settings have no effect
  for (int f = 0; f < 3; f += 2)
    for (unsigned n = 0; n <= (T ? 9u : 6u); ++n)
      for (unsigned pr = 1; pr <= (T ? 10u : 7u); ++pr)
        for (unsigned op = 1; op <= 2; ++op)
          for (int fr = 0; fr < 4; ++fr) one({0, 1, 0, 1, 6, 5, 0.0625, 0.0625 * n + (fr == 3 ? 0.0624 : fr * 0.03), op, pr, fr ? "Heuns" : "SuperConsistent", op == 1 ? "Euler" : "RK3", 1.0, f, 0.8}, fr ? 4 : 16, n, pr & 1);
  // time-step lattice, strong and weak flow, periods
  for (unsigned nx : {4u, 7u})
    for (unsigned ny : {5u, 8u})
      for (double dt : {3e-9, 1e-8, 3e-8, 1e-6, 1e-4, 0.01, 0.05, 0.1, 0.25, 0.4, 0.6, 1.0})
        for (double amp : {0.1, 1.0, 3.0, -1.0, -3.0})
          for (double per : {0.5, 1.0, 3.0}) {
            one({0.1, 0.9, 0.2, 1.3, nx, ny, dt, 2.5 * dt, 1, 1, "SuperConsistent", "RK3", per, 2, amp}, 4, 0, false);
            if (amp == 1.0) one({0, 1, 0, 1, nx, ny, dt, 2.5 * dt, 1, 1, "SuperConsistent", "RK3", per, 0, 1}, 4, 5, true);
          }
  // long histories
  for (int f = 0; f < 3; f += 2)
    for (unsigned n : {32u, T ? 256u : 64u}) one({0, 1, 0, 1, 12, 9, 0.5 / n, 0.5, 1, n / 8, "SuperConsistent", "RK3", 1.0, f, 0.3}, 4, 3, true);
  // every tile size
  for (int f = 0; f < 3; f += 2)
    for (unsigned tile = 1; tile <= 32; ++tile)
      for (int w = 0; w < 3; ++w) {
        static const unsigned sz[][2] = {{13, 21}, {34, 11}, {29, 30}};
        one({0, 1, 0, 1, sz[w][0], sz[w][1], 0.02, 0.03, 1, 1, "SuperConsistent", "RK3", 1.0, f, 1.0}, tile, (tile + w) % 16, tile & 1);
      }
  // long and wide grids, many steps
  for (int f = 0; f < 3; f += 2) {
    static const unsigned sz[][2] = {{200, 3}, {3, 200}, {256, 5}, {5, 257}, {4, 520}, {1030, 3}, {3, 1030}};
    for (auto &z : sz) one({0, 1, 0, 1, z[0], z[1], 0.002, 0.003, 1, 1, "SuperConsistent", "RK3", 1.0, f, 1.0}, z[0] & 1 ? 16 : 7, (z[0] + z[1]) % 16, f);
    one({0, 1, 0, 1, 4, 3, 1.0 / 512, 300.5 / 512, 1, 25, "SuperConsistent", "RK3", 1.0, f, 0.2}, 2, 1, false);
    one({0, 1, 0, 1, 3, 3, 1.0 / 256, 1050.5 / 256, 2, 1, "SuperConsistent", "RK3", 0.5, f, 0.02}, 16, 2, true);
    one({5, 7, -6, -3, 9, 8, 0.1, 0.25, 1, 1, "SuperConsistent", "RK3", 1.0, f, 0.5}, 4, 3, true);
    one({0, 0.125, 0, 0.25, 6, 5, 0.01, 0.025, 1, 1, "SuperConsistent", "RK3", 1.0, f, 0.5}, 4, 4, false);
  }
  if (!prog[2]) mc::counters["generic_fields_not_buildable"] = 1;
  mc::finish();
}
