// Controlled CUDA runtime. Kernels are run by fibers, one per CUDA thread, in an order the explorer chooses; blocks one after
// another, threads of a block switching at barriers. The program is compiled with -fsanitize=thread against the callbacks
// below, so every access of every CUDA thread is seen:
//  * two accesses of different threads of a launch to the same byte, one a write, not ordered by a block barrier = race;
//  * kernels may touch live device memory, their own stack, shared memory and constants only; host code never device memory.
// With VERIF_ASAN the same runtime runs under AddressSanitizer instead (device memory is ordinary heap memory).
#pragma once
#include <link.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <deque>
#include <functional>
#include <unordered_map>
#include "mc.h"
#include "verif_cuda.h"
#undef threadIdx
#undef blockIdx
#undef blockDim
#undef gridDim
extern "C" {
uint3 verif_tid, verif_bid;
dim3 verif_bdim, verif_gdim;
}
namespace gpu
{
static int order = 0;
static bool lazy = false;
static uint64_t launches = 0, threads = 0, accesses = 0, barriers = 0, copies = 0, invalid = 0;
static bool in_kernel = false;
struct Alloc {
  size_t n;
  bool managed;
};
static std::map<uintptr_t, Alloc> live;
static cudaError_t last = cudaSuccess;
static const size_t STACK = 128 << 10;
struct Fiber {
  ucontext_t c;
  char *stack;
  bool done;
  uint3 t;
};
static std::vector<Fiber *> pool;
static ucontext_t home;
static Fiber *cur_f = 0;
static void (*fn)(void *);
static void *fn_arg;
static unsigned long block_no, thread_no;
static unsigned bar;
static char *sh_lo, *sh_hi;
static char dyn[48 << 10] __attribute__((aligned(64)));
#ifndef VERIF_ASAN
static char *arena = 0;
static const size_t ARENA = 64 << 20;
static size_t used = 0;
#endif
static const Alloc *find(uintptr_t p, uintptr_t *base)
{
  static uintptr_t lb = 0;
  auto it = live.upper_bound(p);
  (void)lb;
  if (it == live.begin()) return 0;
  --it;
  if (p >= it->first + it->second.n) return 0;
  *base = it->first;
  return &it->second;
}
static bool device(const void *p)
{
#ifndef VERIF_ASAN
  return (char *)p >= arena && (char *)p < arena + ARENA;
#else
  uintptr_t b;
  return find((uintptr_t)p, &b);
#endif
}
static void range(const void *p, size_t n, const char *what)
{
  uintptr_t b;
  const Alloc *a = find((uintptr_t)p, &b);
  if (!a || (uintptr_t)p + n > b + a->n) mc::fail("%s: %zu bytes at device address outside an allocation%s", what, n, a ? " (runs past its end)" : "");
}
static void entry()
{
  fn(fn_arg);
  cur_f->done = true;
  swapcontext(&cur_f->c, &home);
}
// Work is queued in streams. An operation waits for the earlier ones of its stream, for the events its stream waits for and, as
// the default stream and ordinary streams wait for each other, for those; anything else may happen in any order.
struct Op {
  std::function<void()> f;
  std::vector<long> deps;
  bool done;
};
struct Stream {
  bool blocking;
  long last;
  std::vector<long> waits;
};
static std::deque<Op> queue;
static std::vector<Stream> streams = {{true, -1, {}}};
static std::vector<long> events = {-1};
static std::map<uintptr_t, size_t> pinned;
static unsigned long launch_no = 0;
static unsigned long perm(unsigned long k, unsigned long n, int o)
{
  switch (o & 3) {
    case 0: return k;
    case 1: return n - 1 - k;
    case 2: return (k + n / 2) % n;
    default: return k < (n + 1) / 2 ? 2 * k : 2 * (k - (n + 1) / 2) + 1;
  }
}
static void run(void (*f)(void *), void *arg, verif_config c)
{
  unsigned long nb = (unsigned long)c.g.x * c.g.y * c.g.z, nt = (unsigned long)c.b.x * c.b.y * c.b.z;
  ++launch_no, ++launches;
  verif_bdim = c.b, verif_gdim = c.g;
  fn = f, fn_arg = arg;
  while (pool.size() < nt) {
    Fiber *q = new Fiber;
    q->stack = (char *)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    pool.push_back(q);
  }
  for (unsigned long kb = 0; kb < nb; ++kb) {
    unsigned long b = perm(kb, nb, order / 4);
    block_no = b;
    bar = 0;
    if (sh_hi > sh_lo) memset(sh_lo, 0xAB, sh_hi - sh_lo);
    memset(dyn, 0xAB, sizeof dyn);
    verif_bid = {(unsigned)(b % c.g.x), (unsigned)(b / c.g.x % c.g.y), (unsigned)(b / c.g.x / c.g.y)};
    for (unsigned long t = 0; t < nt; ++t) {
      Fiber &q = *pool[t];
      getcontext(&q.c);
      q.c.uc_stack.ss_sp = q.stack, q.c.uc_stack.ss_size = STACK, q.c.uc_link = 0;
      q.done = false;
      q.t = {(unsigned)(t % c.b.x), (unsigned)(t / c.b.x % c.b.y), (unsigned)(t / c.b.x / c.b.y)};
      makecontext(&q.c, entry, 0);
    }
    for (bool any = true; any; ++bar) {
      any = false;
      for (unsigned long k = 0; k < nt; ++k) {
        unsigned long t = perm(k, nt, order);
        Fiber &q = *pool[t];
        if (q.done) continue;
        any = true;
        ++threads;
        cur_f = &q, thread_no = t, verif_tid = q.t;
        swapcontext(&home, &q.c);
        in_kernel = false;
      }
    }
  }
  cur_f = 0;
}
static bool latest_first() { return (order ^ order >> 1 ^ order >> 2) & 1; }
static void perform(long i)
{
  if (i < 0 || queue[i].done) return;
  queue[i].done = true;
  std::vector<long> d = queue[i].deps;
  if (latest_first()) std::reverse(d.begin(), d.end());
  for (long k : d) perform(k);
  queue[i].f();
  queue[i].f = nullptr;
}
static size_t flushed = 0;
static void flush()
{
  const size_t n = queue.size();
  if (latest_first())
    for (size_t i = n; i > flushed; --i) perform(i - 1);
  else
    for (size_t i = flushed; i < n; ++i) perform(i);
  flushed = n;
}
static size_t stream_no(cudaStream_t s)
{
  size_t k = (size_t)s;
  if (k >= streams.size()) mc::fail("use of a stream that was never created");
  return k;
}
static void sync_stream(cudaStream_t s)
{
  size_t k = stream_no(s);
  perform(streams[k].last);
  for (long w : streams[k].waits) perform(w);
  if (k == 0)
    for (auto &x : streams)
      if (x.blocking && !latest_first()) perform(x.last);
  if (k == 0)
    for (size_t j = streams.size(); j-- > 0;)
      if (streams[j].blocking) perform(streams[j].last);
}
static void submit(std::function<void()> f, cudaStream_t s)
{
  size_t k = stream_no(s);
  Op o = {f, streams[k].waits, false};
  o.deps.push_back(streams[k].last);
  if (k == 0) {
    for (auto &x : streams)
      if (x.blocking) o.deps.push_back(x.last);
  } else if (streams[k].blocking)
    o.deps.push_back(streams[0].last);
  queue.push_back(o);
  streams[k].last = queue.size() - 1;
  streams[k].waits.clear();
  if (!lazy) perform(streams[k].last);
}
}  // namespace gpu
extern "C" {
cudaError_t verif_malloc(void **p, size_t n, int managed)
{
#ifndef VERIF_ASAN
  if (!gpu::arena) gpu::arena = (char *)mmap(0, gpu::ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  size_t r = (n + 255 + 256) & ~255ul;  // never adjacent
  if (gpu::used + r > gpu::ARENA) {
    *p = 0;
    return cudaErrorMemoryAllocation;
  }
  *p = gpu::arena + gpu::used;
  gpu::used += r;
#else
  *p = malloc(n ? n : 1);
#endif
  memset(*p, 0xAB, n);
  gpu::live[(uintptr_t)*p] = {n, managed != 0};
  return cudaSuccess;
}
cudaError_t verif_free(void *p)
{
  verif_sync();
  if (!p) return cudaSuccess;
  auto it = gpu::live.find((uintptr_t)p);
  if (it == gpu::live.end()) mc::fail("cudaFree of an address that is not a live device allocation");
  memset(p, 0xCD, it->second.n);
#ifdef VERIF_ASAN
  free(p);
#endif
  gpu::live.erase(it);
  return cudaSuccess;
}
cudaError_t verif_free_later(void *p, cudaStream_t s)
{
  gpu::submit([=] {
    auto it = gpu::live.find((uintptr_t)p);
    if (it == gpu::live.end()) mc::fail("cudaFreeAsync of an address that is not a live device allocation");
    memset(p, 0xCD, it->second.n);
    gpu::live.erase(it);
  }, s);
  return cudaSuccess;
}
cudaError_t verif_host(void **p, size_t n)
{
  if (!(*p = malloc(n ? n : 1))) return cudaErrorMemoryAllocation;
  gpu::pinned[(uintptr_t)*p] = n;
  return cudaSuccess;
}
cudaError_t verif_memcpy(void *d, const void *s, size_t n, int kind, int async, cudaStream_t t)
{
  bool dd = gpu::device(d), sd = gpu::device(s);
  if (kind == cudaMemcpyDefault) kind = (dd ? (sd ? 3 : 1) : (sd ? 2 : 0));
  bool wd = kind == 1 || kind == 3, ws = kind == 2 || kind == 3;
  if (n && (wd != dd || ws != sd)) mc::fail("cudaMemcpy with direction %d from a %s to a %s address", kind, sd ? "device" : "host", dd ? "device" : "host");
  bool pin = false;
  for (auto &x : gpu::pinned) pin |= (uintptr_t)s >= x.first && (uintptr_t)s < x.first + x.second;
  const bool staged = async && !ws && !pin && gpu::lazy;  // pageable source: read before the call returns
  std::string copy = staged ? std::string((const char *)s, n) : std::string();
  gpu::submit([=] {
    if (wd) gpu::range(d, n, "cudaMemcpy destination");
    if (ws) gpu::range(s, n, "cudaMemcpy source");
    ++gpu::copies;
    memcpy(d, staged ? copy.data() : s, n);
  }, t);
  if (!async) gpu::sync_stream(t);
  return cudaSuccess;
}
cudaError_t verif_memset(void *d, int c, size_t n, cudaStream_t s)
{
  gpu::submit([=] {
    gpu::range(d, n, "cudaMemset");
    memset(d, c, n);
  }, s);
  return cudaSuccess;
}
cudaStream_t verif_stream(bool blocking)
{
  gpu::streams.push_back({blocking, -1, {}});
  return (cudaStream_t)(gpu::streams.size() - 1);
}
void verif_stream_sync(cudaStream_t s) { gpu::sync_stream(s); }
cudaEvent_t verif_event_new()
{
  gpu::events.push_back(-1);
  return (cudaEvent_t)(gpu::events.size() - 1);
}
static long &event_of(cudaEvent_t e)
{
  size_t k = (size_t)e;
  if (!k || k >= gpu::events.size()) mc::fail("use of an event that was never created");
  return gpu::events[k];
}
void verif_event_record(cudaEvent_t e, cudaStream_t s)
{
  gpu::submit([] {}, s);
  event_of(e) = gpu::streams[gpu::stream_no(s)].last;
}
void verif_event_sync(cudaEvent_t e) { gpu::perform(event_of(e)); }
void verif_stream_wait(cudaStream_t s, cudaEvent_t e) { gpu::streams[gpu::stream_no(s)].waits.push_back(event_of(e)); }
void verif_enqueue(void (*f)(void *), void *a, verif_config c, char *lo, char *hi)
{
  unsigned long nt = (unsigned long)c.b.x * c.b.y * c.b.z;
  if (!c.g.x || !c.g.y || !c.g.z || !nt || nt > 1024 || c.b.z > 64 || c.g.y > 65535 || c.g.z > 65535) {
    gpu::last = cudaErrorInvalidConfiguration;  // nothing runs
    ++gpu::invalid;
    return;
  }
  gpu::sh_lo = lo, gpu::sh_hi = hi;
  gpu::submit([=] { gpu::run(f, a, c); }, c.s);
}
void verif_in_kernel(bool b) { gpu::in_kernel = b; }
void verif_sync() { gpu::flush(); }
void verif_barrier()
{
  ++gpu::barriers;
  gpu::Fiber *me = gpu::cur_f;
  if (!me) return;
  gpu::in_kernel = false;
  swapcontext(&me->c, &gpu::home);
  gpu::in_kernel = true;
}
void *verif_dynshared() { return gpu::dyn; }
cudaError_t verif_last(bool clear)
{
  cudaError_t e = gpu::last;
  if (clear) gpu::last = cudaSuccess;
  return e;
}
}
#ifndef VERIF_ASAN
namespace gpu
{
struct Cell {
  uint32_t launch, wbar, rbar;
  int32_t wblock, wthread, rblock, rthread;  // -1 none, -2 several
  uint32_t wpc, rpc;
};
static Cell *shadow = 0;
static std::unordered_map<uint64_t, Cell> other;
struct Img {
  uintptr_t lo, hi;
};
static std::vector<Img> images;
static uintptr_t exe_lo = 0, exe_hi = 0;
static const char *where(uintptr_t pc)
{
  static char b[2][300];
  static int k = 0;
  k ^= 1;
  Dl_info d;
  if (dladdr((void *)pc, &d) && d.dli_sname)
    snprintf(b[k], sizeof b[k], "%.200s+%#lx", d.dli_sname, (unsigned long)(pc - (uintptr_t)d.dli_saddr));
  else
    snprintf(b[k], sizeof b[k], "pc %#lx", (unsigned long)(d.dli_fbase ? pc - (uintptr_t)d.dli_fbase : pc));
  return b[k];
}
static void conflict(bool w1, int b1, int t1, uintptr_t pc1, bool w2, uintptr_t pc2)
{
  in_kernel = false;
  const char *a = where(pc1), *b = where(pc2);
  mc::fail("data race in one kernel launch: %s by thread %d of block %d at %s, %s by thread %lu of block %lu at %s", w1 ? "write" : "read", t1, b1, a, w2 ? "write" : "read", thread_no, block_no, b);
}
static void mark(Cell &c, bool w, uintptr_t pc)
{
  if (c.launch != (uint32_t)launch_no) c = {(uint32_t)launch_no, 0, 0, -1, -1, -1, -1, 0, 0};
  int B = (int)block_no, T = (int)thread_no;
  if (c.wblock != -1) {
    if (c.wblock != B || (c.wbar == bar && c.wthread != T)) conflict(true, c.wblock, c.wthread, c.wpc, w, pc);
  }
  if (w) {
    if (c.rblock != -1 && (c.rblock != B || (c.rbar == bar && c.rthread != T))) conflict(false, c.rblock, c.rthread, c.rpc, w, pc);
    c.wblock = B, c.wthread = T, c.wbar = bar, c.wpc = (uint32_t)pc;
  } else {
    if (c.rblock == -1)
      c.rblock = B, c.rthread = T, c.rbar = bar, c.rpc = (uint32_t)pc;
    else if (c.rblock != B)
      c.rblock = -2;
    else if (c.rbar != bar)
      c.rbar = bar, c.rthread = T, c.rpc = (uint32_t)pc;
    else if (c.rthread != T)
      c.rthread = -2;
  }
}
static void access(uintptr_t p, size_t n, bool w, uintptr_t pc)
{
  bool dev = arena && p >= (uintptr_t)arena && p < (uintptr_t)arena + ARENA;
  if (!in_kernel) {
    if (dev) {
      uintptr_t b;
      const Alloc *a = find(p, &b);
      if (!a || !a->managed) mc::fail("host code %s device memory at %s", w ? "writes" : "reads", where(pc));
    }
    return;
  }
  ++accesses;
  if (p >= (uintptr_t)cur_f->stack && p < (uintptr_t)cur_f->stack + STACK) return;
  if (dev) {
    static uintptr_t lb = 0, le = 0;
    static size_t gen = 0;
    if (!(p >= lb && p + n <= le && gen == live.size())) {
      const Alloc *a = find(p, &lb);
      if (!a || p + n > lb + a->n) {
        in_kernel = false;
        mc::fail("kernel thread %lu of block %lu %s device memory outside any allocation at %s", thread_no, block_no, w ? "writes" : "reads", where(pc));
      }
      le = lb + a->n, gen = live.size();
    }
    if (!shadow) shadow = (Cell *)mmap(0, ARENA * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (size_t i = 0; i < n; ++i) mark(shadow[p + i - (uintptr_t)arena], w, pc);
    return;
  }
  if (p >= (uintptr_t)&verif_tid && p < (uintptr_t)(&verif_tid + 1)) return;
  if (p >= (uintptr_t)&verif_bid && p < (uintptr_t)(&verif_bid + 1)) return;
  if (p >= (uintptr_t)&verif_bdim && p < (uintptr_t)(&verif_bdim + 1)) return;
  if (p >= (uintptr_t)&verif_gdim && p < (uintptr_t)(&verif_gdim + 1)) return;
  bool shared = (p >= (uintptr_t)sh_lo && p < (uintptr_t)sh_hi) || (p >= (uintptr_t)dyn && p < (uintptr_t)dyn + sizeof dyn);
  bool image = shared;
  for (auto &i : images) image |= p >= i.lo && p < i.hi;
  if (!image) {
    in_kernel = false;
    mc::fail("kernel thread %lu of block %lu %s memory that is not on the device at %s", thread_no, block_no, w ? "writes" : "reads", where(pc));
  }
  for (size_t i = 0; i < n; ++i) {
    in_kernel = false;
    Cell &c = other[((uint64_t)(shared ? block_no + 1 : 0) << 48) ^ (p + i)];
    if (shared && c.launch == (uint32_t)launch_no && c.wblock != -1 && c.wblock != (int)block_no) c.launch = 0;
    mark(c, w, pc);
    in_kernel = true;
  }
}
static int seg(struct dl_phdr_info *i, size_t, void *path)
{
  if (!i->dlpi_name || strcmp(i->dlpi_name, (const char *)path)) return 0;
  for (int k = 0; k < i->dlpi_phnum; ++k)
    if (i->dlpi_phdr[k].p_type == PT_LOAD) images.push_back({i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz});
  return 0;
}
}  // namespace gpu
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define RW(N)                                                                           \
  void __tsan_read##N(void *p) { gpu::access((uintptr_t)p, N, false, PC); }             \
  void __tsan_write##N(void *p) { gpu::access((uintptr_t)p, N, true, PC); }             \
  void __tsan_unaligned_read##N(void *p) { gpu::access((uintptr_t)p, N, false, PC); }   \
  void __tsan_unaligned_write##N(void *p) { gpu::access((uintptr_t)p, N, true, PC); }   \
  void __tsan_volatile_read##N(void *p) { gpu::access((uintptr_t)p, N, false, PC); }    \
  void __tsan_volatile_write##N(void *p) { gpu::access((uintptr_t)p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { gpu::access((uintptr_t)p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { gpu::access((uintptr_t)p, n, true, PC); }
uint8_t __tsan_atomic8_load(const volatile uint8_t *a, int) { return *a; }
uint32_t __tsan_atomic32_fetch_add(volatile uint32_t *a, uint32_t v, int) { uint32_t o = *a; *a = o + v; return o; }
uint32_t __tsan_atomic32_load(const volatile uint32_t *a, int) { return *a; }
uint64_t __tsan_atomic64_load(const volatile uint64_t *a, int) { return *a; }
}
#endif
