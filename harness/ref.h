// Running the reference programs: configuration, one forked run per case in its own directory, output files.
#pragma once
#include <dirent.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "mc.h"
struct RCfg {
  double xlim1, xlim2, ylim1, ylim2;
  unsigned nx, ny;
  double dt, Tfinal;
  unsigned option, printstep;
  const char *psi, *bt;
  double T_period;
  int field;  // 0: the repository's vortex and bump, 1: generic fields, 2: generic velocity, the repository's bump
  double amp;
};
static RCfg cur;
static unsigned cur_tile = 16;
// Settings the program has asked for (shared with the forked runs). One that is never asked for is not under our control, and
// nothing can be concluded from a difference.
static const char *const setting_names[] = {"xlim1", "xlim2", "ylim1", "ylim2", "nx", "ny", "dt", "Tfinal", "option", "printstep", "T_period", "psischeme", "backtrace_scheme"};
static volatile unsigned char *asked = (volatile unsigned char *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
static void note_setting(const char *n)
{
  for (int k = 0; k < 13; ++k)
    if (!strcmp(n, setting_names[k])) asked[k] = 1;
}
static void all_settings_asked()
{
  int some = 0;
  for (int k = 0; k < 13; ++k) some += asked[k];
  if (some == 0 || some == 13) return;
  for (int k = 0; k < 13; ++k)
    if (!asked[k]) fprintf(stderr, "setting %s of the program was not replaced\n", setting_names[k]);
  mc::finished = true;
  _exit(113);
}
static const bool guard_settings = (mc::before_violation = all_settings_asked, true);
extern "C" double verif_num(const char *n)
{
  std::string s = n;
  note_setting(n);
  if (s == "xlim1") return cur.xlim1;
  if (s == "xlim2") return cur.xlim2;
  if (s == "ylim1") return cur.ylim1;
  if (s == "ylim2") return cur.ylim2;
  if (s == "nx") return cur.nx;
  if (s == "ny") return cur.ny;
  if (s == "dt") return cur.dt;
  if (s == "Tfinal") return cur.Tfinal;
  if (s == "option") return cur.option;
  if (s == "printstep") return cur.printstep;
  if (s == "T_period") return cur.T_period;
  if (s == "amp") return cur.amp;
  if (s == "TileSize") return cur_tile;
  mc::fail("harness: unknown setting %s", n);
}
extern "C" double verif_amp_value() { return cur.amp; }
extern "C" char *verif_str(const char *n)
{
  static char b[2][64];
  note_setting(n);
  char *d = b[!strcmp(n, "psischeme")];
  snprintf(d, 64, "%s", !strcmp(n, "psischeme") ? cur.psi : cur.bt);
  return d;
}
static std::string text(const RCfg &c)
{
  char b[512];
  snprintf(b, sizeof b, "%s fields, %ux%u nodes on [%g,%g]x[%g,%g], dt %g, Tfinal %g, T_period %g, option %u, printstep %u, %s/%s, amplitude %g", c.field == 2 ? "generic-velocity" : c.field ? "generic" : "stock", c.nx, c.ny, c.xlim1, c.xlim2, c.ylim1, c.ylim2, c.dt, c.Tfinal, c.T_period, c.option, c.printstep, c.psi, c.bt, c.amp);
  return b;
}
typedef int (*Entry)(int, char **);
static Entry load(const char *path)
{
  void *h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
  if (!h) {
    fprintf(stderr, "%s\n", dlerror());
    _exit(113);
  }
  return (Entry)dlsym(h, "verif_run");
}
static const char *const ofiles[7] = {"phi.txt", "psix.txt", "psiy.txt", "psixy.txt", "Velocity_x.txt", "Velocity_y.txt", "details.txt"};
static std::string slurp(const std::string &p)
{
  std::string s;
  FILE *f = fopen(p.c_str(), "rb");
  if (!f) return s;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}
static bool exists(const std::string &p)
{
  struct stat st;
  return lstat(p.c_str(), &st) == 0;
}
static void clear_dir(const std::string &d)
{
  mkdir(d.c_str(), 0755);
  for (const char *f : ofiles) unlink((d + "/" + f).c_str());
}
static void stale_dir(const std::string &d)
{
  for (const char *f : ofiles) {
    FILE *o = fopen((d + "/" + f).c_str(), "w");
    fprintf(o, "9,8,7\n6,5,4\n\nold run\n");
    fclose(o);
  }
}
// In the child: become the program in directory d. Never returns.
static void become(Entry e, const std::string &d, std::vector<std::string> args)
{
  if (chdir(d.c_str())) _exit(3);
  int n = open("/dev/null", O_RDWR);
  dup2(n, 0), dup2(n, 1);
  std::vector<char *> av;
  for (auto &a : args) av.push_back(&a[0]);
  av.push_back(0);
  int rc = e(args.size(), av.data());
  fflush(0);
  mc::finished = true;
  _exit(rc == 0 ? 0 : 17);
}
static void judge_status(int st, const char *what)
{
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 42 || WEXITSTATUS(st) == 43)) _exit(42);  // reported by the child
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
    fprintf(stderr, "harness failure in %s\n", what);
    mc::finished = true;
    _exit(3);
  }
  if (!WIFEXITED(st) || WEXITSTATUS(st)) mc::fail("%s ends with %s %d", what, WIFEXITED(st) ? "exit code" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st));
}
static void run_solo(Entry e, const std::string &d, std::vector<std::string> args, const char *what)
{
  pid_t p = fork();
  if (p == 0) become(e, d, args);
  int st;
  waitpid(p, &st, 0);
  judge_status(st, what);
}
// One field file: frames of ny lines of nx comma-separated numbers, each frame followed by an empty line.
typedef std::vector<std::vector<double>> Frames;
static Frames parse_frames(const std::string &d, const char *file, unsigned nx, unsigned ny)
{
  if (!exists(d + "/" + file)) mc::fail("%s was not written", file);
  std::string s = slurp(d + "/" + file);
  Frames r;
  const char *p = s.c_str(), *end = p + s.size();
  while (p < end) {
    std::vector<double> f;
    for (unsigned i = 0; i < ny; ++i) {
      for (unsigned j = 0; j < nx; ++j) {
        char *q;
        double v = strtod(p, &q);
        if (q == p) mc::fail("%s: frame %zu row %u column %u is not a number: \"%.20s\"", file, r.size(), i, j, p);
        f.push_back(v);
        p = q;
        char want = j + 1 < nx ? ',' : '\n';
        if (p >= end || *p != want) mc::fail("%s: frame %zu row %u: wrong separator after column %u (%d)", file, r.size(), i, j, p < end ? *p : -1);
        ++p;
      }
    }
    if (p >= end || *p != '\n') mc::fail("%s: frame %zu is not followed by an empty line", file, r.size());
    ++p;
    r.push_back(f);
  }
  return r;
}
struct Output {
  Frames f[6];
  std::vector<double> details;
};
static Output read_output(const std::string &d, unsigned nx, unsigned ny)
{
  Output o;
  for (int k = 0; k < 6; ++k) o.f[k] = parse_frames(d, ofiles[k], nx, ny);
  if (!exists(d + "/details.txt")) mc::fail("details.txt was not written");
  std::string s = slurp(d + "/details.txt");
  const char *p = s.c_str();
  for (;;) {
    char *q;
    double v = strtod(p, &q);
    if (q == p) mc::fail("details.txt: not a number: \"%.40s\"", p);
    o.details.push_back(v);
    p = q;
    if (*p != ',') break;
    ++p;
  }
  while (*p == '\n') ++p;
  if (*p) mc::fail("details.txt: trailing text \"%.40s\"", p);
  return o;
}
