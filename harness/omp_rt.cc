// Controlled OpenMP runtime (libgomp's entry points): logical threads are real pthreads passing one baton, so exactly one
// runs at a time, in an order the explorer chooses, and switches only at barriers and at the end of the region.
#include "omp_rt.h"
#include <omp.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>
#include <map>
#include <vector>
#include "rec.h"
namespace ort
{
int want = 1, order = 0;
uint64_t regions = 0, barriers = 0, max_threads = 0;
static const size_t STACK = 512 << 10;
struct Th {
  int id;
  pthread_t p;
  char *stack;
  sem_t go;
  bool done, waiting;
  unsigned ws;  // work-sharing constructs met
  int nest;     // inside a nested region (of one thread)
};
struct Share {
  long next, end, step, chunk;
  bool up, single;
};
struct Team {
  int n;
  void (*fn)(void *);
  void *data;
  std::vector<Th> t;
  std::map<unsigned, Share> ws;
  sem_t back;
};
static Team *team = 0;
static Th *cur = 0;
static std::vector<char *> stacks;
static unsigned nested_ws = 1u << 20;
static void to_explorer()
{
  Th *me = cur;
  sem_post(&team->back);
  while (sem_wait(&me->go)) {
  }
}
static void *body(void *a)
{
  Th *me = (Th *)a;
  while (sem_wait(&me->go)) {
  }
  team->fn(team->data);
  me->done = true;
  sem_post(&team->back);
  return 0;
}
static void give(Th &t)
{
  cur = &t;
  rec::thread(t.id + 1, (uintptr_t)t.stack, (uintptr_t)t.stack + STACK);
  sem_post(&t.go);
  while (sem_wait(&team->back)) {
  }
  rec::thread(0, 0, 0);
  cur = 0;
}
static unsigned preset = 0;  // a combined construct: every thread starts inside the first work-sharing construct
static Share preset_share;
static void region(void (*fn)(void *), void *data, int n)
{
  if (team) {  // nested regions run with one thread
    Th *me = cur;
    unsigned ws = me->ws;
    me->ws = nested_ws += 1u << 16;
    if (preset) team->ws[++me->ws] = preset_share;
    preset = 0;
    ++me->nest;
    fn(data);
    --me->nest;
    me->ws = ws;
    return;
  }
  if (n <= 0) n = want;
  ++regions;
  if ((uint64_t)n > max_threads) max_threads = n;
  Team tm;
  tm.n = n, tm.fn = fn, tm.data = data, tm.t.resize(n);
  sem_init(&tm.back, 0, 0);
  while ((int)stacks.size() < n) stacks.push_back((char *)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  team = &tm;
  unsigned ws0 = preset;
  if (preset) tm.ws[1] = preset_share;
  preset = 0;
  for (int i = 0; i < n; ++i) {
    Th &t = tm.t[i];
    t.id = i, t.stack = stacks[i], t.done = t.waiting = false, t.ws = ws0, t.nest = 0;
    sem_init(&t.go, 0, 0);
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, t.stack, STACK);
    if (pthread_create(&t.p, &a, body, &t)) _exit(3);
  }
  rec::begin();
  uint64_t ph = 0;
  for (;;) {
    bool any = false;
    for (int k = 0; k < n; ++k) {
      // thread orders: identity, reverse, rotation by half, even then odd; alternating with the phase
      int i;
      switch ((order + ph * (order >= 4)) % 4) {
        case 0: i = k; break;
        case 1: i = n - 1 - k; break;
        case 2: i = (k + n / 2) % n; break;
        default: i = k < (n + 1) / 2 ? 2 * k : 2 * (k - (n + 1) / 2) + 1;
      }
      if (tm.t[i].done || tm.t[i].waiting) continue;
      any = true;
      give(tm.t[i]);
    }
    if (any) continue;
    // everyone is at the barrier (or finished): next phase
    bool more = false;
    for (auto &t : tm.t)
      if (!t.done) more = true, t.waiting = false;
    if (!more) break;
    rec::phase();
    ++ph;
  }
  rec::end();
  for (auto &t : tm.t) pthread_join(t.p, 0);
  team = 0;
}
static Share &share(long start, long end, long incr, long chunk, bool &first)
{
  unsigned w = ++cur->ws;
  first = !team->ws.count(w);
  Share &s = team->ws[w];
  if (first) s = {start, end, incr, chunk < 1 ? 1 : chunk, incr > 0, false};
  return s;
}
static bool grab(long *b, long *e)
{
  Share &s = team->ws[cur->ws];
  if (s.up ? s.next >= s.end : s.next <= s.end) return false;
  *b = s.next;
  s.next += s.chunk * s.step;
  if (s.up ? s.next > s.end : s.next < s.end) s.next = s.end;
  *e = s.next;
  to_explorer();  // the other threads take their chunks first
  return true;
}
}  // namespace ort
using namespace ort;
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *d, unsigned n, unsigned) { region(fn, d, n); }
void GOMP_barrier()
{
  ++barriers;
  if (team && cur && !cur->nest) {
    cur->waiting = true;
    to_explorer();
  }
}
static int crit = 0;
void GOMP_critical_start() { ++crit, rec::lock(true); }
void GOMP_critical_end() { --crit, rec::lock(false); }
void GOMP_critical_name_start(void **) { rec::lock(true); }
void GOMP_critical_name_end(void **) { rec::lock(false); }
void GOMP_atomic_start() { rec::lock(true); }
void GOMP_atomic_end() { rec::lock(false); }
bool GOMP_single_start()
{
  if (!team) return true;
  bool f;
  share(0, 0, 1, 1, f);
  return f;
}
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
#define LOOP(K)                                                                                             \
  bool GOMP_loop_##K##_start(long s, long e, long i, long c, long *b, long *n)                              \
  {                                                                                                         \
    bool f;                                                                                                 \
    share(s, e, i, c, f);                                                                                   \
    return grab(b, n);                                                                                      \
  }                                                                                                         \
  bool GOMP_loop_##K##_next(long *b, long *n) { return grab(b, n); }
LOOP(dynamic)
LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(K)                                                                                            \
  bool GOMP_loop_##K##_start(long s, long e, long i, long *b, long *n)                                      \
  {                                                                                                         \
    bool f;                                                                                                 \
    share(s, e, i, 1, f);                                                                                   \
    return grab(b, n);                                                                                      \
  }                                                                                                         \
  bool GOMP_loop_##K##_next(long *b, long *n) { return grab(b, n); }
LOOPR(runtime)
LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime)
#define LOOPU(K)                                                                                            \
  bool GOMP_loop_ull_##K##_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long *b, unsigned long *n) \
  {                                                                                                         \
    bool f;                                                                                                 \
    share((long)s, (long)e, up ? (long)i : (long)i, (long)c, f).up = up;                                    \
    return grab((long *)b, (long *)n);                                                                      \
  }                                                                                                         \
  bool GOMP_loop_ull_##K##_next(unsigned long *b, unsigned long *n) { return grab((long *)b, (long *)n); }
LOOPU(dynamic)
LOOPU(guided) LOOPU(nonmonotonic_dynamic) LOOPU(nonmonotonic_guided)
unsigned GOMP_sections_start(unsigned n)
{
  bool f;
  share(1, (long)n + 1, 1, 1, f);
  long b, e;
  return grab(&b, &e) ? b : 0;
}
unsigned GOMP_sections_next()
{
  long b, e;
  return grab(&b, &e) ? b : 0;
}
static void combined(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c)
{
  preset = 1, preset_share = {s, e, i, c < 1 ? 1 : c, i > 0, false};
  region(fn, d, n);
}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned count, unsigned) { combined(fn, d, n, 1, (long)count + 1, 1, 1); }
#define PLOOP(K) \
  void GOMP_parallel_loop_##K(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { combined(fn, d, n, s, e, i, c); }
PLOOP(static)
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(K) \
  void GOMP_parallel_loop_##K(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { combined(fn, d, n, s, e, i, 1); }
PLOOPR(runtime)
PLOOPR(maybe_nonmonotonic_runtime) PLOOPR(nonmonotonic_runtime)
static void *copied = 0;
void *GOMP_single_copy_start()
{
  if (!team) return 0;
  bool f;
  share(0, 0, 1, 1, f);
  if (f) return 0;
  GOMP_barrier();
  return copied;
}
void GOMP_single_copy_end(void *d)
{
  copied = d;
  GOMP_barrier();
}
// explicit tasks run at once in the thread that meets them
void GOMP_task(void (*fn)(void *), void *d, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *)
{
  if (align < 1) align = 1;
  char *raw = (char *)malloc(size + align), *a = raw + (align - (uintptr_t)raw % align) % align;
  if (cpy)
    cpy(a, d);
  else
    __builtin_memcpy(a, d, size);
  fn(a);
  free(raw);
}
void GOMP_taskloop(void (*fn)(void *), void *d, void (*cpy)(void *, void *), long size, long align, unsigned, unsigned long, int, long s, long e, long)
{
  if (align < 8) align = 8;
  char *raw = (char *)malloc(size + align), *a = raw + (align - (uintptr_t)raw % align) % align;
  if (cpy)
    cpy(a, d);
  else
    __builtin_memcpy(a, d, size);
  ((long *)a)[0] = s, ((long *)a)[1] = e;
  fn(a);
  free(raw);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}
int omp_get_thread_num() { return cur && !cur->nest ? cur->id : 0; }
int omp_get_num_threads() { return team && !(cur && cur->nest) ? team->n : 1; }
int omp_get_max_threads() { return want; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return team && team->n > 1; }
void omp_set_num_threads(int n) { want = n > 0 ? n : 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
double omp_get_wtime() { return 0; }
double omp_get_wtick() { return 1e-9; }
int omp_get_level() { return team != 0; }
int omp_get_active_level() { return team != 0; }
int omp_get_nested() { return 0; }
int omp_get_thread_limit() { return 1 << 30; }
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
void omp_set_schedule(omp_sched_t, int) {}
int omp_get_team_num() { return 0; }
int omp_get_num_teams() { return 1; }
int omp_get_ancestor_thread_num(int) { return cur ? cur->id : 0; }
int omp_get_team_size(int) { return team ? team->n : 1; }
int omp_in_final() { return 0; }
int omp_test_lock(omp_lock_t *) { return rec::lock(true), 1; }
void omp_init_nest_lock(omp_nest_lock_t *) {}
void omp_destroy_nest_lock(omp_nest_lock_t *) {}
void omp_set_nest_lock(omp_nest_lock_t *) { rec::lock(true); }
void omp_unset_nest_lock(omp_nest_lock_t *) { rec::lock(false); }
void omp_init_lock(omp_lock_t *) {}
void omp_destroy_lock(omp_lock_t *) {}
void omp_set_lock(omp_lock_t *) { rec::lock(true); }
void omp_unset_lock(omp_lock_t *) { rec::lock(false); }
}
