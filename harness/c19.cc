// C19: the two-process programs. All reachable states of the pair of processes (which call of each has completed, what is in
// flight) are visited by re-executing the real programs under a controlled network; every transition of every state is
// executed; each run goes to the end and its output is compared with the single-process program.
#include "refcmp.h"
#include "mpi_rt.h"
static Entry serial[2], prog[2][2];
static const char *pname[] = {"message-passing program", "hybrid program"};
static void explore(const RCfg &c, int pr, int threads, bool all)
{
  if (!prog[pr][c.field] || !serial[c.field]) return;
  if (!mc::begin("%s, %d threads, %s: %s", pname[pr], threads, all ? "all network behaviours" : "extreme network behaviours", text(c).c_str())) return;
  cur = c;
  std::string base = getenv("VERIF_SCRATCH"), ds = base + "/serial", d[2] = {base + "/r0", base + "/r1"};
  clear_dir(ds);
  run_solo(serial[c.field], ds, {"GALS_Advection"}, "the single-process solver");
  Output want = read_output(ds, c.nx, c.ny);
  std::vector<std::string> args = {"prog"};
  if (pr) args.push_back(std::to_string(threads));
  std::set<uint64_t> seen;
  std::vector<std::vector<char>> work;
  work.push_back({});
  if (!all) work.push_back({-1}), work.push_back({-2}), work.push_back({-3});
  std::string stale;
  uint64_t runs = 0;
  while (!work.empty()) {
    std::vector<char> pre = work.back(), path;
    work.pop_back();
    clear_dir(d[0]), clear_dir(d[1]);
    if (runs & 1) stale_dir(d[0]);
    stale_dir(d[1]);
    if (stale.empty()) stale = slurp(d[1] + "/phi.txt");
    net::Run n;
    net::start(n, prog[pr][c.field], d, args);
    int policy = 0;  // 0: rank 0 first, never buffering if avoidable; -1: rank 1 as far as possible (unbounded buffers); -2: one buffer slot; -3: rank 0 first with buffers
    if (pre.size() == 1 && pre[0] < 0) policy = pre[0], pre.clear();
    for (;;) {
      int k0 = n.can(0), k1 = n.can(1);
      if (n.r[0].exited && n.r[1].exited) break;
      if (k0 != 1 && k1 != 1) net::stuck(n);
      uint64_t h = n.state();
      bool fresh = seen.insert(h).second;
      if (fresh) mc::state();
      int pick;
      if (path.size() < pre.size())
        pick = pre[path.size()];
      else {
        int inflight = 0;
        for (auto &m : n.m) inflight += !m.matched;
        if (policy == 0)
          pick = k0 == 1 ? 0 : 1;
        else if (policy == -1)
          pick = k1 ? 1 : 0;
        else if (policy == -2)
          pick = k1 == 1 || (k1 == 2 && inflight <= 1) ? 1 : 0;
        else
          pick = k0 ? 0 : 1;
        if (fresh && all && k0 && k1) {
          auto alt = path;
          alt.push_back(1 - pick);
          work.push_back(alt);
        }
      }
      if (!(pick ? k1 : k0)) mc::fail("harness: the program does not repeat its communication for the same prefix (it is not deterministic)");
      path.push_back(pick);
      n.complete(pick);
      mc::step();
    }
    net::finish(n);
    ++runs;
    Output got = read_output(d[0], c.nx, c.ny);
    same_output(got, want, c.nx, "files of the first process");
    for (const char *f : ofiles) {
      if (!exists(d[1] + "/" + f)) mc::fail("the second process removes %s, which the first process writes", f);
      if (slurp(d[1] + "/" + f) != stale) mc::fail("the second process also writes %s, which the first process writes", f);
    }
    mc::counters["messages"] += n.messages;
  }
  mc::counters["executions"] += runs;
}
int main(int argc, char **argv)
{
  mc::init(argc, argv);
  signal(SIGPIPE, SIG_IGN);
  const char *v[6] = {"VERIF_PROG0", "VERIF_PROG1", "VERIF_MPI0", "VERIF_MPI1", "VERIF_HYB0", "VERIF_HYB1"};
  Entry e[6];
  for (int i = 0; i < 6; ++i) e[i] = getenv(v[i]) ? load(getenv(v[i])) : 0;
  serial[0] = e[0], serial[1] = e[1], prog[0][0] = e[2], prog[0][1] = e[3], prog[1][0] = e[4], prog[1][1] = e[5];
  bool T = mc::thorough;
  static const char *P[] = {"SuperConsistent", "Heuns"}, *S[] = {"RK3", "Euler"};
  // complete exploration
  for (int pr = 0; pr < 2; ++pr)
    for (int f = 0; f < 2; ++f)
      for (unsigned nx = 4; nx <= (T ? 10u : 6u); nx += 2)
        for (unsigned ny = 3; ny <= (T ? 7u : 5u); ++ny)
          for (int s = 0; s < 4; ++s)
            for (unsigned steps = 0; steps <= (T ? 4u : 2u); ++steps) {
              if (!T && steps == 2 && s != (int)(nx / 2 + ny) % 4) continue;
              for (int box = 0; box < 2; ++box) {
                if (!T && box != (int)(nx / 2 + ny + s) % 2) continue;
                double dt = 0.125;
                RCfg c = {0, 1, 0, 1, nx, ny, dt, dt * (steps + 0.25), 1, 1, P[s & 1], S[s >> 1], 1.0, f, 0.8};
                if (box) c.xlim1 = -0.3, c.xlim2 = 0.9, c.ylim1 = 0.2, c.ylim2 = 1.1, c.option = 1 + (ny & 1);
                explore(c, pr, 1 + (nx + ny) % 3, true);
              }
            }
  // larger runs under the extreme network behaviours
  for (int pr = 0; pr < 2; ++pr)
    for (int f = 0; f < 2; ++f)
      for (unsigned nx = 4; nx <= (T ? 24u : 14u); nx += 2)
        for (unsigned ny = 3; ny <= (T ? 20u : 12u); ny += T ? 1 : 3)
          for (int s = 0; s < 4; ++s) {
            if (!T && s != (int)(nx / 2 + ny) % 4) continue;
            explore({-0.1, 1.1, 0.1, 0.9, nx, ny, 0.6 / nx, 4.5 * 0.6 / nx, 1, 2, P[s & 1], S[s >> 1], 1.0, f, 1.0}, pr, 1 + nx % 4, false);
          }
  for (int pr = 0; pr < 2; ++pr)
    for (int f = 0; f < 2; ++f)
      for (unsigned nx : {32u, 64u, 128u})
        for (unsigned ny : {3u, 33u, 128u}) explore({0, 1, 0, 1, nx, ny, 0.5 / nx, 3.0 * 0.5 / nx, 2, 1, P[nx / 32 & 1], S[ny & 1], 1.0, f, 1.0}, pr, 3, false);
  // many steps
  for (int pr = 0; pr < 2; ++pr)
    for (int f = 0; f < 2; ++f)
      for (int s = 0; s < 4; ++s) {
        explore({0, 1, 0, 1, 4, 3, 1.0 / 64, 40.5 / 64, 1, 5, P[s & 1], S[s >> 1], 1.0, f, 0.3}, pr, 2, false);
        if (s == f) explore({0, 1, 0, 1, 6, 3, 1.0 / 512, 300.5 / 512, 2, 5, P[s & 1], S[s >> 1], 1.0, f, 0.2}, pr, 1, false);
        static const unsigned sz[][2] = {{256, 3}, {4, 300}, {200, 9}, {1024, 3}};
        for (auto &z : sz)
          if (s == (int)(z[1] + f) % 4) explore({0, 1, 0, 1, z[0], z[1], 0.002, 0.005, 1, 1, P[s & 1], S[s >> 1], 1.0, f, 1.0}, pr, 3, false);
      }
  // messages of more than 65536 numbers
  for (int pr = 0; pr < 2; ++pr)
    for (int f = 0; f < 2; ++f) explore({0, 1, 0, 1, 300, 450, 0.002, 0.003, 1, 1, P[0], S[0], 1.0, f, 1.0}, pr, 3, false);
  mc::finish();
}
