#include "rec.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <malloc.h>
#include <algorithm>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <new>
#include <unordered_map>
#include <vector>
extern "C" {
void __real_free(void *);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
char *__real_strcpy(char *, const char *);
char *__real_strncpy(char *, const char *, size_t);
}
namespace rec
{
bool active = false;
uint64_t accesses = 0, writes = 0, phases = 0;
void (*on_race)(const Race &) = 0;
static int tid = 0, quiet = 0, locked = 0;
static uintptr_t slo = 0, shi = 0;
struct Cell {
  int16_t w, r;  // 0 none, -1 several
  uint32_t wpc, rpc;
};
struct Page {
  uint64_t epoch;
  Cell c[4096];
};
static uint64_t epoch = 0;
struct Raw {  // allocations of the recorder itself bypass the deferral
  bool a;
  Raw() : a(active) { active = false; }
  ~Raw() { active = a; }
};
static std::unordered_map<uintptr_t, Page *> *pages = 0;
static uintptr_t last_no = 0;
static Page *last = 0;
static std::vector<void *> *dead = 0;
static Page *page(uintptr_t no)
{
  if (no == last_no && last && last->epoch == epoch) return last;
  Raw raw;
  if (!pages) pages = new std::unordered_map<uintptr_t, Page *>;
  Page *&p = (*pages)[no];
  if (!p) p = (Page *)calloc(1, sizeof(Page));
  if (p->epoch != epoch) __real_memset(p->c, 0, sizeof p->c), p->epoch = epoch;
  last_no = no, last = p;
  return p;
}
static void race(uintptr_t a, int t1, int w1, uint32_t pc1, int w2, uintptr_t pc2)
{
  Race r = {a, pc1, pc2, t1, tid, w1, w2};
  Raw raw;
  if (on_race) on_race(r);
}
void access(uintptr_t p, size_t n, bool w, uintptr_t pc)
{
  if (!active || quiet || !tid) return;
  if (p >= slo && p < shi) return;
  ++accesses;
  if (w) ++writes;
  int me = locked ? 0x7ffe : tid;
  for (size_t i = 0; i < n; ++i) {
    Cell &c = page((p + i) >> 12)->c[(p + i) & 4095];
    if (c.w && c.w != me) return race(p + i, c.w, 1, c.wpc, w, pc);
    if (w) {
      if (c.r && c.r != me) return race(p + i, c.r, 0, c.rpc, 1, pc);
      c.w = me, c.wpc = pc;
    } else {
      if (!c.r)
        c.r = me, c.rpc = pc;
      else if (c.r != me)
        c.r = -1;
    }
  }
}
void phase() { ++epoch, ++phases, last = 0; }
void begin()
{
  phase();
  tid = 0, quiet = 0, locked = 0;
  active = true;
}
void end()
{
  active = false;
  if (dead) {
    for (void *p : *dead) __real_free(p);
    dead->clear();
  }
}
void thread(int t, uintptr_t lo, uintptr_t hi) { tid = t, slo = lo, shi = hi; }
void lock(bool on) { locked += on ? 1 : -1; }
static void text(char *d, size_t n, const char *f, ...)
{
  va_list a;
  va_start(a, f);
  vsnprintf(d, n, f, a);
  va_end(a);
}
const char *where(uintptr_t pc)
{
  static char b[2][400];
  static int k = 0;
  k ^= 1;
  Dl_info d;
  if (dladdr((void *)pc, &d) && d.dli_sname) {
    int st;
    char *dm = abi::__cxa_demangle(d.dli_sname, 0, 0, &st);
    text(b[k], sizeof b[k], "%.300s+%#lx", dm ? dm : d.dli_sname, (unsigned long)(pc - (uintptr_t)d.dli_saddr));
  } else
    text(b[k], sizeof b[k], "pc %#lx", (unsigned long)pc);
  return b[k];
}
static void release(void *p)
{
  if (!p) return;
  if (active && tid) {
    access((uintptr_t)p, malloc_usable_size(p), true, (uintptr_t)__builtin_return_address(1));
    Raw raw;
    if (!dead) dead = new std::vector<void *>;
    dead->push_back(p);
  } else
    __real_free(p);
}
}  // namespace rec
using namespace rec;
#define PC ((uintptr_t)__builtin_return_address(0))
// Memory handed out anew is ordered after its former life by the allocator (the library code frees some unseen by us).
static void *fresh(void *p, size_t n, bool heap = true)
{
  if (active && tid && p) {
    if (heap) n = std::max(n, malloc_usable_size(p));
    for (size_t i = 0; i < n; ++i) page(((uintptr_t)p + i) >> 12)->c[((uintptr_t)p + i) & 4095] = Cell();
  }
  return p;
}
void *operator new(size_t n)
{
  void *p = malloc(n ? n : 1);
  if (!p) abort();
  return fresh(p, n);
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return fresh(malloc(n ? n : 1), n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return fresh(malloc(n ? n : 1), n); }
void operator delete(void *p) noexcept { release(p); }
void operator delete[](void *p) noexcept { release(p); }
void operator delete(void *p, size_t) noexcept { release(p); }
void operator delete[](void *p, size_t) noexcept { release(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { release(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { release(p); }
extern "C" {
// --wrap targets (memory functions called from instrumented objects)
void __wrap_free(void *p) { release(p); }
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real___cxa_allocate_exception(size_t);
void *__wrap_malloc(size_t n) { return fresh(__real_malloc(n), n); }
void *__wrap_calloc(size_t n, size_t m) { return fresh(__real_calloc(n, m), n * m); }
void *__wrap___cxa_allocate_exception(size_t n) { return fresh(__real___cxa_allocate_exception(n), n, false); }
void *__wrap_memcpy(void *d, const void *s, size_t n)
{
  access((uintptr_t)s, n, false, PC), access((uintptr_t)d, n, true, PC);
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n)
{
  access((uintptr_t)s, n, false, PC), access((uintptr_t)d, n, true, PC);
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n)
{
  access((uintptr_t)d, n, true, PC);
  return __real_memset(d, c, n);
}
char *__wrap_strcpy(char *d, const char *s)
{
  access((uintptr_t)s, strlen(s) + 1, false, PC), access((uintptr_t)d, strlen(s) + 1, true, PC);
  return __real_strcpy(d, s);
}
char *__wrap_strncpy(char *d, const char *s, size_t n)
{
  access((uintptr_t)d, n, true, PC);
  return __real_strncpy(d, s, n);
}
int __wrap_sprintf(char *d, const char *f, ...)
{
  va_list a;
  va_start(a, f);
  int r = vsprintf(d, f, a);
  va_end(a);
  if (r >= 0) access((uintptr_t)d, r + 1, true, PC);
  return r;
}
int __wrap_snprintf(char *d, size_t n, const char *f, ...)
{
  va_list a;
  va_start(a, f);
  int r = vsnprintf(d, n, f, a);
  va_end(a);
  if (n) access((uintptr_t)d, n, true, PC);
  return r;
}
// one-time initialisation of local statics is ordered by its guard
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
void __real___cxa_guard_abort(uint64_t *);
int __wrap___cxa_guard_acquire(uint64_t *g)
{
  int r = __real___cxa_guard_acquire(g);
  if (r) ++quiet;
  return r;
}
void __wrap___cxa_guard_release(uint64_t *g)
{
  __real___cxa_guard_release(g);
  if (quiet) --quiet;
}
void __wrap___cxa_guard_abort(uint64_t *g)
{
  __real___cxa_guard_abort(g);
  if (quiet) --quiet;
}
int __real_pthread_mutex_lock(void *);
int __real_pthread_mutex_unlock(void *);
int __wrap_pthread_mutex_lock(void *m)
{
  if (active && tid) {
    ++locked;
    return 0;
  }
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(void *m)
{
  if (active && tid) {
    --locked;
    return 0;
  }
  return __real_pthread_mutex_unlock(m);
}
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { access((uintptr_t)p, 8, true, PC); }
void __tsan_vptr_read(void **p) { access((uintptr_t)p, 8, false, PC); }
#define RW(N)                                                                      \
  void __tsan_read##N(void *p) { access((uintptr_t)p, N, false, PC); }             \
  void __tsan_write##N(void *p) { access((uintptr_t)p, N, true, PC); }             \
  void __tsan_unaligned_read##N(void *p) { access((uintptr_t)p, N, false, PC); }   \
  void __tsan_unaligned_write##N(void *p) { access((uintptr_t)p, N, true, PC); }   \
  void __tsan_volatile_read##N(void *p) { access((uintptr_t)p, N, false, PC); }    \
  void __tsan_volatile_write##N(void *p) { access((uintptr_t)p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access((uintptr_t)p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { access((uintptr_t)p, n, true, PC); }
// atomic operations never race with each other
#define AT(B, T)                                                                                                    \
  T __tsan_atomic##B##_load(const volatile T *a, int) { return *a; }                                                \
  void __tsan_atomic##B##_store(volatile T *a, T v, int) { *a = v; }                                                \
  T __tsan_atomic##B##_exchange(volatile T *a, T v, int)                                                            \
  {                                                                                                                 \
    T o = *a;                                                                                                       \
    *a = v;                                                                                                         \
    return o;                                                                                                       \
  }                                                                                                                 \
  T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { T o = *a; *a = o + v; return o; }                       \
  T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { T o = *a; *a = o - v; return o; }                       \
  T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { T o = *a; *a = o & v; return o; }                       \
  T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { T o = *a; *a = o | v; return o; }                        \
  T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { T o = *a; *a = o ^ v; return o; }                       \
  T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int) { T o = *a; *a = ~(o & v); return o; }                   \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int)                                \
  {                                                                                                                 \
    if (*a == *c) {                                                                                                 \
      *a = v;                                                                                                       \
      return 1;                                                                                                     \
    }                                                                                                               \
    *c = *a;                                                                                                        \
    return 0;                                                                                                       \
  }                                                                                                                 \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int n)                              \
  {                                                                                                                 \
    return __tsan_atomic##B##_compare_exchange_strong(a, c, v, m, n);                                               \
  }                                                                                                                 \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int)                                      \
  {                                                                                                                 \
    T o = *a;                                                                                                       \
    if (o == c) *a = v;                                                                                             \
    return o;                                                                                                       \
  }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
