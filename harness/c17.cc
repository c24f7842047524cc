// C17: the advection program, run as a process of its own for every input of the bounded family.
#include <dirent.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fstream>
#include <sstream>
#include "gals.h"
#if __has_include("gals/cpu/temporal-schemes/semi-lagrangian/euler.h")
#include "gals/cpu/temporal-schemes/semi-lagrangian/euler.h"
#define STEP_STATIC step_is_static<GALS::TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<double, G<2>>>(0)
#else
#define STEP_STATIC false
#endif

int app_main(int argc, char **argv);

struct Shared {
  long steps;
  double dt[4096];
  char bad[512];  // first deviation of the level-set update
};
struct In {
  int n[3];
  Box b;
  double start, end, dt;
  bool fixed;
  std::string out, vname, vscheme, lname;
  double vc[3], lc[3], radius;
};
static const LD PI_L = 3.141592653589793238462643383279502884L;
static const In *cur;  // the input of the running program
static Shared *sh;
// Every time step of the program passes through the scheme (linker --wrap); the real function runs.
typedef G<2> G2;
extern "C" __attribute__((weak)) long REAL_STEP(void *, double, void *, void *);
// Whether the step is a static member of its class: same symbol, but no object in front of the arguments.
template <class C> static auto step_is_static(int) -> decltype(&C::compute, bool()) { return !std::is_member_function_pointer<decltype(&C::compute)>::value; }
template <class> static bool step_is_static(...) { return false; }
static bool hooked = true;  // false: this tree does not step through that function; the number of steps is then not judged
static std::vector<double> phi_after;  // what the previous step left
static void deviation(const char *fmt, ...)
{
  if (sh->bad[0]) return;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(sh->bad, sizeof sh->bad, fmt, ap);
  va_end(ap);
}
// On entry of a step: phi is the configured field (first step) or what the previous step left, the previous level set is phi
// with its third-order gradient and no mixed derivatives, the velocity is the configured one.
static void monitor(const LV<2> &v, LS<2> &l)
{
  const In &in = *cur;
  const int *n = in.n;
  const G<2> &g = l.grid();
  const auto &phi = l.phi();
  LD h[2] = {spacing(in.b, n, 0), spacing(in.b, n, 1)};
  const LD coeff = in.vname == "CIRCULAR" ? PI_L / 3.15L : 0;
  const LD sc = box_scale(in.b, n, 2, 0) + box_scale(in.b, n, 2, 1) + fabsl((LD)in.vc[0]) + fabsl((LD)in.vc[1]) + fabsl((LD)in.lc[0]) + fabsl((LD)in.lc[1]) + fabsl((LD)in.lc[2]) + fabsl((LD)in.radius);
  size_t t = 0;
  for (int i = 0; i < n[0]; ++i)
    for (int j = 0; j < n[1]; ++j, ++t) {
      const double p = phi(i, j, 0);
      const LD x = coord(in.b, n, 0, i), y = coord(in.b, n, 1, j);
      if (sh->steps == 0) {
        LD dx = x - in.lc[0], dy = y - in.lc[1], dz = in.lc[2];
        LD w = in.lname == "CIRCLE" ? sqrtl(dx * dx + dy * dy + dz * dz) - in.radius : 0;
        if (!(fabsl(p - w) <= 1e-12L * sc)) deviation("the initial level set is %.17g at cell (%d,%d), expected %.17Lg", p, i, j, w);
      } else if (t < phi_after.size() && !same_bits(&p, &phi_after[t], 8))
        deviation("step %ld does not start from what step %ld left: %.17g at cell (%d,%d), expected %.17g", sh->steps, sh->steps - 1, p, i, j, phi_after[t]);
      if (l.phiPrev()(i, j, 0) != p && std::isfinite(p)) deviation("step %ld advects a previous level set of %.17g at cell (%d,%d) where phi is %.17g", sh->steps, l.phiPrev()(i, j, 0), i, j, p);
      LD mag = fabsl((LD)p);
      for (int a = 0; a < 2; ++a) {
        const int e0 = a == 0, e1 = a == 1;
        LD f1 = phi(i + e0, j + e1, 0), b1 = phi(i - e0, j - e1, 0), b2 = phi(i - 2 * e0, j - 2 * e1, 0);
        LD w = (2 * f1 + 3 * (LD)p - 6 * b1 + b2) / (6 * h[a]);
        LD m = (fabsl(f1) + fabsl(b1) + fabsl(b2) + mag) / h[a];
        if (std::isfinite((double)w) && !(fabsl(l.psiPrev()(i, j, 0)[a] - w) <= 1e-10L * m)) deviation("step %ld advects with gradient component %d of %.17g at cell (%d,%d), the third-order gradient of phi is %.17Lg", sh->steps, a, l.psiPrev()(i, j, 0)[a], i, j, w);
      }
      const LD want[2] = {coeff * (in.vc[1] - y), coeff * (x - in.vc[0])};
      for (int a = 0; a < 2; ++a)
        if (!(fabsl(v.velocity()(i, j, 0)[a] - want[a]) <= 1e-12L * sc)) deviation("step %ld uses velocity component %d of %.17g at cell (%d,%d), expected %.17Lg", sh->steps, a, v.velocity()(i, j, 0)[a], i, j, want[a]);
      const bool an = in.vname == "CIRCULAR" && in.vscheme == "ANALYTICAL";
      const LD gr[4] = {0, an ? -coeff : 0, an ? coeff : 0, 0};
      for (int q = 0; q < 4; ++q)
        if (!(fabsl(v.velocityGradient()(i, j, 0)(q / 2, q % 2) - gr[q]) <= 1e-12L)) deviation("step %ld uses velocity gradient entry %d of %.17g at cell (%d,%d)", sh->steps, q, v.velocityGradient()(i, j, 0)(q / 2, q % 2), i, j);
    }
  (void)g;
}
extern "C" long WRAP_STEP(void *a0, double dt, void *a1, void *a2)
{
  static const bool st = STEP_STATIC;
  const LV<2> &v = *(const LV<2> *)(st ? a0 : a1);
  LS<2> &l = *(LS<2> *)(st ? a1 : a2);
  if (cur) monitor(v, l);
  if (sh->steps < 4096) sh->dt[sh->steps] = dt;
  ++sh->steps;
  const long r = REAL_STEP(a0, dt, a1, a2);
  if (!cur) return r;
  phi_after.clear();
  for (int i = 0; i < cur->n[0]; ++i)
    for (int j = 0; j < cur->n[1]; ++j) phi_after.push_back(l.phi()(i, j, 0));
  return r;
}

static std::string num(double x)
{
  char b[64];
  snprintf(b, 64, "%.17g", x);
  return b;
}
static std::string text(const In &i)
{
  std::string s = "general:\n   output_directory: \"" + i.out + "\"\ngrid:\n   box:\n";
  const char *ax = "xyz";
  for (int a = 0; a < 3; ++a) s += std::string("      ") + ax[a] + "_min: " + num(i.b.lo[a]) + "\n      " + ax[a] + "_max: " + num(i.b.hi[a]) + "\n";
  auto l3 = [](double a, double b, double c) { return "[" + num(a) + ", " + num(b) + ", " + num(c) + "]\n"; };
  s += "   cells: " + l3(i.n[0], i.n[1], i.n[2]);
  s += "time:\n   start: " + num(i.start) + "\n   end: " + num(i.end) + "\n   dt: " + num(i.dt) + "\n   constant_dt: " + (i.fixed ? "YES" : "NO") + "\n";
  s += "velocity:\n   name: " + i.vname + "\n   vector: [1, 0, 0]\n   center: " + l3(i.vc[0], i.vc[1], i.vc[2]) + "   gradient:\n      scheme: " + i.vscheme + "\n";
  s += "levelset:\n   name: " + i.lname + "\n   center: " + l3(i.lc[0], i.lc[1], i.lc[2]) + "   radius: " + num(i.radius) + "\n   gradient:\n      scheme: CENTRAL\n";
  return s;
}
static void wipe(const std::string &p)
{
  DIR *d = opendir(p.c_str());
  if (!d) return;
  std::vector<std::string> v;
  while (dirent *e = readdir(d)) {
    std::string n = e->d_name;
    if (n != "." && n != "..") v.push_back(n);
  }
  closedir(d);
  for (auto &n : v) {
    struct stat sb;
    std::string f = p + "/" + n;
    if (lstat(f.c_str(), &sb)) continue;
    if (S_ISDIR(sb.st_mode))
      wipe(f), rmdir(f.c_str());
    else
      unlink(f.c_str());
  }
}
static void list(const std::string &p, const std::string &rel, std::set<std::string> &out)
{
  DIR *d = opendir(p.c_str());
  if (!d) return;
  while (dirent *e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    struct stat sb;
    std::string f = p + "/" + n, r = rel + n;
    lstat(f.c_str(), &sb);
    if (S_ISDIR(sb.st_mode)) {
      out.insert(r + "/");
      list(f, r + "/", out);
    } else
      out.insert(r);
  }
  closedir(d);
}
static std::string slurp(const std::string &f)
{
  std::ifstream i(f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
// Runs the program in directory w with the given arguments; returns what it printed.
static std::string run(std::vector<std::string> args)
{
  memset(sh, 0, sizeof *sh);
  unlink("app.out");
  mc::step();
  pid_t p = fork();
  if (p == 0) {
    int o = open("app.out", O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(o, 1);
    dup2(o, 2);
    mc::out_fd = -1;
    mc::finished = true;
    std::set_terminate(0);
    signal(SIGABRT, SIG_DFL), signal(SIGFPE, SIG_DFL), signal(SIGILL, SIG_DFL), signal(SIGVTALRM, SIG_DFL), signal(SIGALRM, SIG_DFL);
    alarm(180);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback([] {});
    struct rlimit rl = {60, 60};
    setrlimit(RLIMIT_CPU, &rl);
    if (chdir("w")) _exit(99);
    std::vector<char *> av;
    for (auto &a : args) av.push_back(&a[0]);
    av.push_back(0);
    int rc = app_main(args.size(), &av[0]);
    fflush(0);
    std::cout.flush();
    exit(rc);
  }
  int st = 0;
  waitpid(p, &st, 0);
  std::string out = slurp("app.out");
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGXCPU) mc::fail("the program did not terminate within 60 s of CPU time (%ld steps taken)", sh->steps);
    if (WTERMSIG(st) == SIGALRM) mc::fail("the program did not end within 180 s (%ld steps taken)", sh->steps);
    mc::fail("the program was ended by signal %d: %s", WTERMSIG(st), out.substr(0, 1500).c_str());
  }
  if (WEXITSTATUS(st) == 43) mc::fail("memory error in the program: %s", out.substr(0, 2500).c_str());
  if (WEXITSTATUS(st) != 0) mc::fail("the program ended with status %d: %s", WEXITSTATUS(st), out.substr(0, 1500).c_str());
  return out;
}
static void check_velocity(const In &in, const std::string &file)
{
  std::ifstream f(file);
  if (!f) mc::fail("no velocity file %s", file.c_str());
  std::string line;
  long ln = 0;
  const LD coeff = in.vname == "CIRCULAR" ? PI_L / 3.15L : 0;
  for (int i = 0; i < in.n[0]; ++i)
    for (int j = 0; j < in.n[1]; ++j) {
      if (!std::getline(f, line)) mc::fail("the velocity file ends after %ld lines", ln);
      ++ln;
      mc::state();
      LD x = coord(in.b, in.n, 0, i), y = coord(in.b, in.n, 1, j);
      LD want[6] = {x, y, 0, coeff * (in.vc[1] - y), coeff * (x - in.vc[0]), 0};
      std::istringstream ls(line);
      for (int c = 0; c < 6; ++c) {
        double v;
        if (!(ls >> v)) mc::fail("line %ld of the velocity file is '%s'", ln, line.c_str());
        LD sc = box_scale(in.b, in.n, 2, 0) + box_scale(in.b, in.n, 2, 1) + fabsl((LD)in.vc[0]) + fabsl((LD)in.vc[1]);
        if (!(fabsl(v - want[c]) <= 1e-5L * fabsl(want[c]) + 1e-12L * sc)) mc::fail("line %ld of the velocity file is '%s', number %d should be %Lg", ln, line.c_str(), c, want[c]);
      }
      std::string w;
      if (ls >> w) mc::fail("surplus text in line '%s'", line.c_str());
    }
  if (std::getline(f, line)) mc::fail("surplus line '%s' in the velocity file", line.c_str());
}
static void good(const In &in, int pre)
{
  wipe("w");
  mkdir("w", 0700);
  std::string cwd;
  {
    char b[4096];
    cwd = getcwd(b, sizeof b);
  }
  In q = in;
  std::string rel = in.out;
  if (in.out[0] == '@') rel = in.out.substr(1), q.out = cwd + "/w/" + rel;
  std::string t = text(q);
  {
    std::ofstream o("w/inputs");
    o << t;
  }
  while (!rel.empty() && rel[rel.size() - 1] == '/') rel.resize(rel.size() - 1);
  std::set<std::string> want;
  want.insert("inputs");
  for (size_t p = 0; p != std::string::npos;) {
    p = rel.find('/', p + 1);
    std::string d = rel.substr(0, p);
    if (pre == 1 || pre == 2) mkdir(("w/" + d).c_str(), 0700);
    want.insert(d + "/");
  }
  if (pre == 2) {
    std::ofstream o("w/" + rel + "/velocity");
    for (int i = 0; i < 3000; ++i) o << "stale line\n";
    std::ofstream o2("w/" + rel + "/keep");
    o2 << "keep\n";
    want.insert(rel + "/keep");
  }
  want.insert(rel + "/velocity");
  if (pre == 3)
    for (const char *d : {"velocity", "levelset", "phi"}) {
      std::ofstream(std::string("w/") + d) << "decoy\n";
      want.insert(d);
    }
  cur = &in;
  run({"app", "inputs"});
  cur = 0;
  if (sh->bad[0]) mc::fail("%s", sh->bad);
  if (pre == 3)
    for (const char *d : {"velocity", "levelset", "phi"})
      if (slurp(std::string("w/") + d) != "decoy\n") mc::fail("the program changed %s in its current directory", d);
  std::set<std::string> got;
  list("w", "", got);
  for (auto &g : got)
    if (!want.count(g)) mc::fail("the program created %s", g.c_str());
  for (auto &g : want)
    if (!got.count(g)) mc::fail("missing after the run: %s", g.c_str());
  if (slurp("w/inputs") != t) mc::fail("the program changed its input file");
  if (pre == 2 && slurp("w/" + rel + "/keep") != "keep\n") mc::fail("the program changed another file of the output directory");
  check_velocity(in, "w/" + rel + "/velocity");
  // time stepping
  double dt = in.dt;
  if (!in.fixed) {
    LD m = spacing(in.b, in.n, 0);
    for (int a = 1; a < 3; ++a) m = fminl(m, spacing(in.b, in.n, a));
    dt = (double)(m / 2);
  }
  long steps = 0;
  double s = in.start;
  do
    s += dt, ++steps;
  while (!(fabs(s - in.end) <= 1e-10 || s > in.end));
  if (!hooked) return;
  if (sh->steps != steps) mc::fail("%ld time steps were taken, expected %ld (start %g end %g dt %g)", sh->steps, steps, in.start, in.end, dt);
  for (long k = 0; k < steps && k < 4096; ++k)
    if (!(fabs(sh->dt[k] - dt) <= 1e-12 * fabs(dt))) mc::fail("step %ld used dt %.17g, expected %.17g", k, sh->dt[k], dt);
  mc::state(steps);
  mc::counters["time steps"] += steps;
}
static void bad(std::vector<std::string> args)
{
  wipe("w");
  mkdir("w", 0700);
  std::string out = run(args);
  std::set<std::string> got;
  list("w", "", got);
  mc::state();
  if (!got.empty()) mc::fail("the program created %s although it had no input", got.begin()->c_str());
  if (out.find_first_not_of(" \n\t") == std::string::npos) mc::fail("nothing was reported");
  if (sh->steps) mc::fail("the program simulated without input");
}
int main(int argc, char **argv)
{
  mc::hang_limit_s = 600;
  mc::init(argc, argv);
  mc::drop();
  sh = (Shared *)mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  In base = {{4, 3, 1}, boxes[1], 0, 0.25, 0.125, true, "out", "CIRCULAR", "ANALYTICAL", "CIRCLE", {0, 0, 0}, {0.1, -0.2, 0}, 0.5};
  static const Box ab[] = {
      {{-1, -1, -1}, {1, 1, 1}, "sym"},          {{0, 0, 0}, {1, 1, 1}, "unit"},           {{-0.3, 1.7, -5.25}, {0.4, 2.2, 7.5}, "aniso"},
      {{2, -3, 0}, {2.5, -1, 0.125}, "thin z"}, {{-1, 0, -0.5}, {1, 0.5, 0.25}, "flat y"},
  };
  {  // calibration: does a step of a plain run pass through the observed function?
    wipe("w");
    mkdir("w", 0700);
    std::ofstream("w/inputs") << text(base);
    mc::finished = true;
    pid_t p = fork();
    if (p == 0) {
      int o = open("/dev/null", O_WRONLY);
      dup2(o, 1), dup2(o, 2);
      mc::out_fd = -1;
      std::set_terminate(0);
      signal(SIGABRT, SIG_DFL), signal(SIGFPE, SIG_DFL), signal(SIGILL, SIG_DFL), signal(SIGVTALRM, SIG_DFL);
      if (__sanitizer_set_death_callback) __sanitizer_set_death_callback([] {});
      alarm(60);
      if (chdir("w")) _exit(99);
      char a0[] = "app", a1[] = "inputs", *av[] = {a0, a1, 0};
      _exit(app_main(2, av));
    }
    int st = 0;
    waitpid(p, &st, 0);
    mc::finished = false;
    hooked = !(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->steps == 0);
    if (!hooked) mc::counters["step observation unavailable"]++;
  }
  // 1. sizes x boxes x step control x centre
  const int N = mc::thorough ? 16 : 10;
  for (int x = 1; x <= N; ++x)
    for (int y = 1; y <= N; ++y)
      for (int z : {1})
        for (int bi = 0; bi < 5; ++bi)
          for (int mode = 0; mode < 2; ++mode) {
            In i = base;
            i.n[0] = x, i.n[1] = y, i.n[2] = z;
            i.b = ab[bi];
            i.fixed = mode;
            for (int a = 0; a < 2; ++a) {
              i.vc[a] = 0.5 * (i.b.lo[a] + i.b.hi[a]) + (x % 3 - 1) * 0.1 * (a ? 2 : 1);
              i.lc[a] = i.b.lo[a] + 0.4 * (i.b.hi[a] - i.b.lo[a]);
            }
            i.lc[2] = z * 0.1;
            LD m = spacing(i.b, i.n, 0);
            for (int a = 1; a < 3; ++a) m = fminl(m, spacing(i.b, i.n, a));
            i.dt = 0.25 * (double)m;
            i.start = (y % 2) * 0.5;
            i.end = i.start + (double)m * 1.6;
            if (!mc::begin("app: cells %dx%dx%d box %s %s dt", x, y, z, i.b.name, mode ? "constant" : "computed")) continue;
            good(i, 0);
            mc::counters["runs"]++;
          }
  // 2. start/end/dt: all combinations
  for (double start : {0., 0.25, -1., 3., 0.1})
    for (double dt : {0.125, 0.1, 0.0625, 0.3, 0.01})
      for (double mult : {-2., 0., 0.5, 1., 1.5, 2., 3., 4., 7., 10.})
        for (int mode = 0; mode < 2; ++mode)
          for (int slack = -1; slack <= 1; ++slack) {
            In i = base;
            i.n[0] = i.n[1] = 16;
            if (dt > 0.1) i.n[0] = i.n[1] = 4;
            i.start = start, i.dt = dt, i.fixed = mode;
            double d = mode ? dt : 1.0 / i.n[0];
            i.end = start + mult * d + slack * 0.37 * d;
            if (!mc::begin("app: time start %g end %.17g dt %g %s", start, i.end, dt, mode ? "constant" : "computed")) continue;
            good(i, 0);
            mc::counters["runs"]++;
          }
  // 2b. long runs
  for (long steps : {300L, 1000L, 4000L})
    for (double start : {0., 7.})
      for (int slack = 0; slack < 2; ++slack) {
        In i = base;
        i.n[0] = 3, i.n[1] = 2;
        i.start = start, i.dt = 0.001, i.end = start + i.dt * (steps - 0.4 * slack);
        if (!mc::begin("app: %ld steps from %g, end %.17g", steps, start, i.end)) continue;
        good(i, 0);
        mc::counters["runs"]++;
      }
  // 3. output directories, existing or not, and stale files
  for (const char *o : {"out", "out/", "p/q", "p/q/r/s/", "./x", "@abs/case-1", "project-1/case-1", "a.b/c d"})
    for (int pre = 0; pre < 4; ++pre)
      for (int big = 0; big < 2; ++big) {
        In i = base;
        i.out = o;
        if (big) i.n[0] = 20, i.n[1] = 7;
        if (!mc::begin("app: output directory %s, state %d", o, pre)) continue;
        if (i.out == "./x") i.out = "x";
        good(i, pre);
        mc::counters["runs"]++;
      }
  // 4. names and schemes, centres, radii
  for (const char *vn : {"CIRCULAR", "UNIFORM"})
    for (const char *vs : {"ANALYTICAL", "CENTRAL"})
      for (const char *ln : {"CIRCLE", "SQUARE"})
        for (double r : {0., 0.5, 3.})
          for (int c = 0; c < 4; ++c) {
            In i = base;
            i.vname = vn, i.vscheme = vs, i.lname = ln, i.radius = r;
            i.n[0] = 7, i.n[1] = 5;
            i.vc[0] = c & 1 ? 0.375 : -0.25, i.vc[1] = c & 2 ? -0.5 : 0.125, i.vc[2] = c;
            i.lc[0] = c & 2 ? 0.7 : -0.25, i.lc[1] = c & 1 ? -0.5 : 0.125, i.lc[2] = c;
            i.end = 0.5;
            if (!mc::begin("app: velocity %s/%s level set %s radius %g centres %d", vn, vs, ln, r, c)) continue;
            good(i, 0);
            mc::counters["runs"]++;
          }
  // 5. larger grids
  for (int n : {10, 17, 32, 50, 64}) {
    In i = base;
    i.n[0] = n, i.n[1] = n + 3;
    i.fixed = n % 2;
    i.dt = 0.02;
    i.end = 0.1;
    if (!mc::begin("app: cells %dx%d", n, n + 3)) continue;
    good(i, 0);
  }
  // 6. nothing to run
  if (mc::begin("app: no argument")) bad({"app"});
  if (mc::begin("app: missing file")) bad({"app", "inputs"});
  if (mc::begin("app: missing file in a missing directory")) bad({"app", "nowhere/inputs"});
  if (mc::begin("app: missing file with an absolute path")) bad({"app", "/nonexistent-verif/inputs"});
  mc::finish();
}
