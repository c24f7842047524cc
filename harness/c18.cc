// C18: the threaded programs under a controlled OpenMP runtime with complete access recording. Two accesses of different
// threads between two barriers that conflict are a race; without a conflict all interleavings are equivalent and the
// executed one stands for them. Thread counts reach one iteration per thread, the finest partition.
#include <sys/mman.h>
#include "omp_rt.h"
#include "rec.h"
#include "refcmp.h"
#include "mpi_rt.h"
static Entry serial[2], prog[2], hyb[2];
static uint64_t *shm;
static void on_race(const rec::Race &r)
{
  mc::fail("data race between two barriers: %s by thread %d at %s, %s by thread %d at %s", r.w1 ? "write" : "read", r.t1 - 1, rec::where(r.pc1), r.w2 ? "write" : "read", r.t2 - 1, rec::where(r.pc2));
}
static void wrapped_become(Entry e, const std::string &d, std::vector<std::string> args)
{
  if (chdir(d.c_str())) _exit(3);
  int n = open("/dev/null", O_RDWR);
  dup2(n, 0), dup2(n, 1);
  std::vector<char *> av;
  for (auto &a : args) av.push_back(&a[0]);
  av.push_back(0);
  int rc = e(args.size(), av.data());
  fflush(0);
  shm[0] += rec::accesses, shm[1] += ort::regions, shm[2] += rec::phases, shm[3] = ort::max_threads;
  mc::finished = true;
  _exit(rc == 0 ? 0 : 17);
}
static std::string base;
static Output last_serial;
static RCfg last_cfg;
static bool have = false;
static Output &reference(const RCfg &c)
{
  if (!have || memcmp(&last_cfg, &c, sizeof c)) {
    clear_dir(base + "/serial");
    run_solo(serial[c.field], base + "/serial", {"GALS_Advection"}, "the serial solver");
    last_serial = read_output(base + "/serial", c.nx, c.ny);
    last_cfg = c, have = true;
  }
  return last_serial;
}
static void one(const RCfg &c, int threads, int order, bool hybrid)
{
  Entry e = hybrid ? hyb[c.field] : prog[c.field];
  if (!e || !serial[c.field]) return;
  if (!mc::begin("%s, %d threads, thread order %d: %s", hybrid ? "hybrid program" : "threaded program", threads, order, text(c).c_str())) return;
  cur = c;
  Output &want = reference(c);
  memset(shm, 0, 4096);
  ort::order = order;
  std::string d = base + "/omp";
  clear_dir(d);
  if (!hybrid) {
    if (threads & 1) stale_dir(d);
    pid_t p = fork();
    if (p == 0) wrapped_become(e, d, {"prog", std::to_string(threads)});
    int st;
    waitpid(p, &st, 0);
    judge_status(st, "the threaded solver");
  } else {
    std::string dd[2] = {d, base + "/omp1"};
    clear_dir(dd[1]);
    net::Run n;
    for (int k = 0; k < 2; ++k) {
      int sp[2];
      if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp)) _exit(3);
      pid_t p = fork();
      if (p == 0) {
        close(sp[0]);
        if (k) close(n.r[0].fd);
        net::rank = k, net::size = 2, net::fd = sp[1];
        wrapped_become(e, dd[k], {"prog", std::to_string(threads)});
      }
      close(sp[1]);
      n.r[k].pid = p, n.r[k].fd = sp[0], n.r[k].exited = n.r[k].blocked = n.r[k].fin = false, n.r[k].hist = k;
    }
    n.advance(0), n.advance(1);
    while (!(n.r[0].exited && n.r[1].exited)) {
      int k0 = n.can(0), k1 = n.can(1);
      if (!k0 && !k1) net::stuck(n);
      n.complete(k1 ? 1 : 0);
    }
    net::finish(n);
  }
  same_output(read_output(d, c.nx, c.ny), want, c.nx, hybrid ? "files of the hybrid run" : "files of the threaded run");
  if (shm[0] == 0 && c.Tfinal > c.dt) {
    fprintf(stderr, "recorder saw no access\n");
    mc::counters["runs_without_parallel_region"]++;
  }
  mc::state(shm[2]);
  mc::step(shm[0]);
  mc::counters["parallel_regions"] += shm[1];
  mc::counters["recorded_accesses"] += shm[0];
}
int main(int argc, char **argv)
{
  mc::init(argc, argv);
  signal(SIGPIPE, SIG_IGN);
  base = getenv("VERIF_SCRATCH");
  shm = (uint64_t *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  rec::on_race = on_race;
  const char *v[6] = {"VERIF_PROG0", "VERIF_PROG1", "VERIF_OMP0", "VERIF_OMP1", "VERIF_HYB0", "VERIF_HYB1"};
  Entry e[6];
  for (int i = 0; i < 6; ++i) e[i] = getenv(v[i]) ? load(getenv(v[i])) : 0;
  serial[0] = e[0], serial[1] = e[1], prog[0] = e[2], prog[1] = e[3], hyb[0] = e[4], hyb[1] = e[5];
  bool T = mc::thorough;
  static const char *P[] = {"SuperConsistent", "Heuns"}, *S[] = {"RK3", "Euler"};
  auto cfg = [&](unsigned nx, unsigned ny, int s, int f, int box, double steps) {
    double dt = 0.25 / nx * (1 + box);
    RCfg c = {0, 1, 0, 1, nx, ny, dt, dt * steps, 1, 1, P[s & 1], S[s >> 1], 1.0, f, 1.0};
    if (box) c.xlim1 = -0.3, c.xlim2 = 0.9, c.ylim1 = 0.2, c.ylim2 = 1.1, c.option = 2;
    return c;
  };
  // all thread counts up to one iteration per thread (and beyond) on small grids, all thread orders
  for (int hy = 0; hy < 2; ++hy)
    for (unsigned nx = 3; nx <= (T ? 6u : 4u); ++nx)
      for (unsigned ny = 3; ny <= (T ? 6u : 4u); ++ny) {
        if (hy && nx % 2) continue;
        for (int s = 0; s < 4; ++s)
          for (int f = 0; f < 2; ++f)
            for (int th = 1; th <= (int)(nx * ny) + 1; ++th) {
              if (!T && s != 0 && th > 4 && th != (int)(nx * ny)) continue;
              for (int o = 0; o < (T ? 6 : 3); ++o) {
                if (o && th == 1) continue;
                one(cfg(nx, ny, s, f, (s + f + nx) & 1, 2.25), th, o, hy);
              }
            }
      }
  // larger grids
  for (int hy = 0; hy < 2; ++hy)
    for (unsigned nx : {8u, 16u, 33u})
      for (unsigned ny : {5u, 12u, 32u}) {
        if (hy && nx % 2) continue;
        for (int th : {1, 2, 3, 4, 7, 8, 16, 31})
          for (int f = 0; f < 2; ++f)
            for (int o = 0; o < (T ? 6 : 2); ++o) one(cfg(nx, ny, (nx + ny + th) % 4, f, (th + f) & 1, 3.5), th, o + (th & 1), hy);
      }
  // many threads, and many steps
  for (int hy = 0; hy < 2; ++hy)
    for (int f = 0; f < 2; ++f) {
      for (int th : {32, 33, 48, 63, 64, 65, 100, 127, 128, 129}) one(cfg(16, 9, th % 4, f, f, th % 2 ? 10.5 : 2.5), th, th % 3, hy);
      for (int th : {12, 17, 20, 24, 31, 33, 48, 50, 63, 64, 70, 71}) one(cfg(6, 70, th % 4, f, 0, 1.5), th, th % 3, hy), one(cfg(70, 4, th % 4, f, 0, 1.5), th, th % 3, hy);
      for (int th : {2, 3, 5}) one(cfg(4, 3, th % 4, f, 0, 60.5), th, th % 3, hy);
    }
  mc::finish();
}
