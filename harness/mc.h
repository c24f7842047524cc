// Exhaustive-exploration support: deterministic case enumeration, sharding, replay, watchdog and crash traps.
#pragma once
#include <fcntl.h>
#include <grp.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <unistd.h>
#include <cmath>
#include <exception>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace mc
{
typedef long double LD;
static uint64_t case_idx = 0, cases_run = 0, states = 0, transitions = 0;
static uint64_t shard = 0, nshards = 1;
static int64_t only = -1;
static bool thorough = false, lite = false, finished = false, dying = false;
static char desc[8192] = "(startup)";
static int out_fd = 1;
static std::map<std::string, uint64_t> counters;
static std::vector<std::string> samples;
static int hang_limit_s = 150;
static bool case_owned = false;

// Reports go through static buffers: they may be written from a signal handler over a damaged heap.
static size_t put(char *o, size_t n, size_t cap, const char *s)
{
  static const char hex[] = "0123456789abcdef";
  for (; *s && n + 8 < cap; ++s) {
    unsigned char c = *s;
    if (c == '"' || c == '\\')
      o[n++] = '\\', o[n++] = c;
    else if (c == '\n')
      o[n++] = '\\', o[n++] = 'n';
    else if (c < 32 || c > 126)
      memcpy(o + n, "\\u00", 4), o[n + 4] = hex[c >> 4], o[n + 5] = hex[c & 15], n += 6;
    else
      o[n++] = c;
  }
  o[n] = 0;
  return n;
}
static std::string esc(const char *s)
{
  std::vector<char> b(6 * strlen(s) + 16);
  return std::string(&b[0], put(&b[0], 0, b.size(), s));
}
static void emit(const char *s, size_t n)
{
  size_t o = 0;
  while (o < n) {
    ssize_t w = write(out_fd, s + o, n - o);
    if (w <= 0) break;
    o += w;
  }
}
static void emit(const std::string &s) { emit(s.data(), s.size()); }
static void (*before_violation)() = 0;  // a harness may find that it cannot judge
static void violation(const char *msg)
{
  if (dying) return;
  if (before_violation) before_violation();
  dying = true;
  static char o[65536];
  size_t n = snprintf(o, 64, "\n@VIOL {\"case\": %lld, \"desc\": \"", (long long)case_idx - 1);
  n = put(o, n, 50000, desc);
  const char *mid = "\", \"msg\": \"";
  memcpy(o + n, mid, strlen(mid)), n += strlen(mid);
  n = put(o, n, sizeof o - 16, msg);
  memcpy(o + n, "\"}\n", 3), n += 3;
  emit(o, n);
}
static void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
static void fail(const char *fmt, ...)
{
  char b[4096];
  va_list a;
  va_start(a, fmt);
  vsnprintf(b, sizeof b, fmt, a);
  va_end(a);
  violation(b);
  finished = true;
  _exit(42);
}
static void on_death() { violation("memory error or fatal signal in the code under test (sanitizer report on stderr)"); }
static void on_terminate()
{
  std::string m = "uncaught exception";
  if (auto e = std::current_exception()) {
    try {
      std::rethrow_exception(e);
    } catch (std::exception &x) {
      m += std::string(": ") + x.what();
    } catch (...) {
    }
  }
  violation(m.c_str());
  _exit(42);
}
static void on_signal(int s)
{
  char b[128];
  if (s == SIGVTALRM)
    snprintf(b, sizeof b, "no result after %d s of CPU time in one case (non-termination)", hang_limit_s);
  else if (s == SIGALRM)
    snprintf(b, sizeof b, "no result after %d s in one case (blocked)", 2 * hang_limit_s);
  else
    snprintf(b, sizeof b, "fatal signal %d", s);
  violation(b);
  _exit(42);
}
static void on_exit_()
{
  if (!finished) {
    violation("the code under test ended the process with exit()");
    _exit(42);
  }
}
static void watchdog()
{
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = hang_limit_s;
  setitimer(ITIMER_VIRTUAL, &t, 0);
}
// Timers do not survive fork: every child gets its own limits, of processor time and (blocked children) of real time.
static void in_child()
{
  watchdog();
  alarm(2 * hang_limit_s);
}
static void init(int argc, char **argv)
{
  for (int i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "--shard"))
      shard = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--shards"))
      nshards = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--case"))
      only = atoll(argv[++i]);
    else if (!strcmp(argv[i], "--thorough"))
      thorough = true;
    else if (!strcmp(argv[i], "--lite"))
      lite = true;
  }
  out_fd = dup(1);
  int n = open("/dev/null", O_WRONLY);
  dup2(n, 1);
  close(n);
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
  std::set_terminate(on_terminate);
  signal(SIGABRT, on_signal);
  signal(SIGFPE, on_signal);
  signal(SIGILL, on_signal);
  signal(SIGVTALRM, on_signal);
  signal(SIGALRM, on_signal);
  if (thorough) hang_limit_s *= 10;
  if (!__sanitizer_set_death_callback) {
    // no sanitizer: report crashes from a stack of our own
    static char alt[1 << 16];
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = alt, ss.ss_size = sizeof alt;
    sigaltstack(&ss, 0);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal, sa.sa_flags = SA_ONSTACK;
    sigaction(SIGSEGV, &sa, 0);
    sigaction(SIGBUS, &sa, 0);
  }
  pthread_atfork(0, 0, in_child);
  atexit(on_exit_);
  emit("@START\n");
  watchdog();
}
// For code that creates and deletes files: give the scratch directory (the cwd) to an unprivileged user and become it.
static void drop()
{
  if (geteuid() != 0) return;
  if (chown(".", 65534, 65534) || setgroups(0, 0) || setgid(65534) || setuid(65534)) {
    // containment is not available here: the stand-in of the file system library is the only guard
    counters["unprivileged"] = 0;
    return;
  }
  counters["unprivileged"] = 1;
}
// Opens the next case. Returns true if this process has to execute it. The description makes it replayable by eye.
static bool begin(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static bool begin(const char *fmt, ...)
{
  uint64_t i = case_idx++;
  bool mine = only >= 0 ? (int64_t)i == only : i % nshards == shard;
  case_owned = mine;
  if (!mine) return false;
  va_list a;
  va_start(a, fmt);
  vsnprintf(desc, sizeof desc, fmt, a);
  va_end(a);
  ++cases_run;
  if ((cases_run & (cases_run - 1)) == 0 && samples.size() < 8) samples.push_back(desc);
  watchdog();
  return true;
}
static inline void state(uint64_t n = 1) { states += n; }
static inline void step(uint64_t n = 1) { transitions += n; }
static void finish()
{
  std::string s = "\n@DONE {";
  char b[256];
  snprintf(b, sizeof b, "\"cases_total\": %llu, \"cases\": %llu, \"states\": %llu, \"transitions\": %llu, \"counters\": {",
           (unsigned long long)case_idx, (unsigned long long)cases_run, (unsigned long long)states,
           (unsigned long long)transitions);
  s += b;
  bool f = true;
  for (auto &c : counters) {
    snprintf(b, sizeof b, "%s\"%s\": %llu", f ? "" : ", ", c.first.c_str(), (unsigned long long)c.second);
    s += b;
    f = false;
  }
  s += "}, \"samples\": [";
  f = true;
  for (auto &x : samples) {
    s += (f ? "\"" : ", \"") + esc(x.c_str()) + "\"";
    f = false;
  }
  s += "]}\n";
  emit(s);
  finished = true;
  fflush(0);
  _exit(0);
}
// |a-b| <= tol*(scale), NaN never passes.
static inline bool close_to(LD a, LD b, LD scale, LD tol = 1e-9L) { return fabsl(a - b) <= tol * scale; }
static inline void expect_close(LD got, LD want, LD scale, const char *what, LD tol = 1e-9L)
{
  if (!close_to(got, want, scale, tol)) fail("%s: got %.17Lg, expected %.17Lg (tolerance %.3Lg)", what, got, want, tol * scale);
}
}  // namespace mc
