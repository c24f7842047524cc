// Stand-in for the CUDA toolkit: kernels run on the host, one logical thread at a time, in an order the explorer chooses.
// `k<<<g, b>>>(a...)` reaches here as verif_launch(verif_cfg(g, b), k, a...).
#pragma once
#include <math.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <tuple>
#include <utility>
#define __CUDACC__ 1
#define __global__
#define __device__
#define __host__
#define __constant__ static
#define __managed__
#define __forceinline__ inline
#define __launch_bounds__(...)
#define __shared__ static __attribute__((section("verif_shared")))
#define CUDART_CB
struct uint3 {
  unsigned x, y, z;
};
struct dim3 {
  unsigned x, y, z;
  dim3(unsigned a = 1, unsigned b = 1, unsigned c = 1) : x(a), y(b), z(c) {}
};
typedef void *cudaStream_t;
typedef struct verif_event *cudaEvent_t;
enum cudaError_t { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorMemoryAllocation = 2, cudaErrorInvalidConfiguration = 9, cudaErrorInvalidMemcpyDirection = 21 };
typedef cudaError_t cudaError;
enum cudaMemcpyKind { cudaMemcpyHostToHost = 0, cudaMemcpyHostToDevice = 1, cudaMemcpyDeviceToHost = 2, cudaMemcpyDeviceToDevice = 3, cudaMemcpyDefault = 4 };
struct verif_config {
  dim3 g, b;
  cudaStream_t s;
};
inline verif_config verif_cfg(dim3 g, dim3 b, size_t = 0, cudaStream_t s = 0) { return {g, b, s}; }
#define cudaStreamDefault 0
#define cudaStreamNonBlocking 1
#define cudaStreamLegacy ((cudaStream_t)0)
#define cudaEventDefault 0
#define cudaEventBlockingSync 1
#define cudaEventDisableTiming 2
#define cudaHostAllocDefault 0
#define cudaMemAttachGlobal 1
struct cudaDeviceProp {
  char name[256];
  size_t totalGlobalMem, sharedMemPerBlock;
  int warpSize, maxThreadsPerBlock, maxThreadsDim[3], maxGridSize[3], multiProcessorCount, major, minor;
};
struct double2 {
  double x, y;
};
struct int2 {
  int x, y;
};
struct uint2 {
  unsigned x, y;
};
inline double2 make_double2(double x, double y) { return {x, y}; }
inline int2 make_int2(int x, int y) { return {x, y}; }
inline uint2 make_uint2(unsigned x, unsigned y) { return {x, y}; }
inline dim3 make_dim3(unsigned x, unsigned y, unsigned z) { return dim3(x, y, z); }
extern "C" {
extern uint3 verif_tid, verif_bid;
extern dim3 verif_bdim, verif_gdim;
cudaError_t verif_malloc(void **, size_t, int);
cudaError_t verif_free(void *);
cudaError_t verif_memcpy(void *, const void *, size_t, int, int, cudaStream_t);
cudaError_t verif_memset(void *, int, size_t, cudaStream_t);
cudaError_t verif_host(void **, size_t);
cudaError_t verif_free_later(void *, cudaStream_t);
cudaStream_t verif_stream(bool);
void verif_stream_sync(cudaStream_t);
void verif_stream_wait(cudaStream_t, cudaEvent_t);
cudaEvent_t verif_event_new();
void verif_event_record(cudaEvent_t, cudaStream_t);
void verif_event_sync(cudaEvent_t);
void verif_enqueue(void (*)(void *), void *, verif_config, char *, char *);
void verif_in_kernel(bool);
void verif_sync();
void verif_barrier();
void *verif_dynshared();
void verif_atomic(bool);
cudaError_t verif_last(bool);
extern char __start_verif_shared[] __attribute__((weak, visibility("hidden")));
extern char __stop_verif_shared[] __attribute__((weak, visibility("hidden")));
}
#define threadIdx verif_tid
#define blockIdx verif_bid
#define blockDim verif_bdim
#define gridDim verif_gdim
static const int warpSize = 32;
template <class F, class T, size_t... I>
inline __attribute__((no_sanitize("thread"))) void verif_apply(F f, T &t, std::index_sequence<I...>)
{
  verif_in_kernel(true);
  f(std::get<I>(t)...);
  verif_in_kernel(false);
}
template <class F, class T>
__attribute__((no_sanitize("thread"))) void verif_thread(void *p)
{
  auto *s = (std::pair<F, T> *)p;
  T mine = s->second;  // arguments are passed by value
  verif_apply(s->first, mine, std::make_index_sequence<std::tuple_size<T>::value>());
}
template <class... P, class... A>
void verif_launch(verif_config c, void (*f)(P...), A &&... a)
{
  typedef std::tuple<typename std::decay<P>::type...> T;
  typedef void (*F)(P...);
  auto *s = new std::pair<F, T>(f, T(std::forward<A>(a)...));
  verif_enqueue(verif_thread<F, T>, s, c, __start_verif_shared, __stop_verif_shared);
}
template <class T> cudaError_t cudaMalloc(T **p, size_t n) { return verif_malloc((void **)p, n, 0); }
template <class T> cudaError_t cudaMallocManaged(T **p, size_t n, unsigned = 1) { return verif_malloc((void **)p, n, 1); }
template <class T> cudaError_t cudaMallocHost(T **p, size_t n) { return verif_host((void **)p, n); }
template <class T> cudaError_t cudaHostAlloc(T **p, size_t n, unsigned) { return verif_host((void **)p, n); }
inline cudaError_t cudaFreeHost(void *p) { return verif_sync(), free(p), cudaSuccess; }
template <class T> cudaError_t cudaMallocAsync(T **p, size_t n, cudaStream_t) { return verif_malloc((void **)p, n, 0); }
inline cudaError_t cudaFreeAsync(void *p, cudaStream_t s) { return verif_free_later(p, s); }
template <class T> cudaError_t cudaMallocPitch(T **p, size_t *pitch, size_t w, size_t h)
{
  *pitch = (w + 255) & ~(size_t)255;
  return verif_malloc((void **)p, *pitch * h, 0);
}
inline cudaError_t cudaFree(void *p) { return verif_free(p); }
inline cudaError_t cudaMemcpy(void *d, const void *s, size_t n, cudaMemcpyKind k) { return verif_memcpy(d, s, n, k, 0, 0); }
inline cudaError_t cudaMemcpyAsync(void *d, const void *s, size_t n, cudaMemcpyKind k, cudaStream_t t = 0) { return verif_memcpy(d, s, n, k, 1, t); }
inline cudaError_t cudaMemcpy2D(void *d, size_t dp, const void *s, size_t sp, size_t w, size_t h, cudaMemcpyKind k)
{
  for (size_t i = 0; i < h; ++i) verif_memcpy((char *)d + i * dp, (const char *)s + i * sp, w, k, 0, 0);
  return cudaSuccess;
}
inline cudaError_t cudaMemset(void *d, int c, size_t n) { return verif_memset(d, c, n, 0); }
inline cudaError_t cudaMemsetAsync(void *d, int c, size_t n, cudaStream_t s = 0) { return verif_memset(d, c, n, s); }
template <class T> cudaError_t cudaMemcpyToSymbol(T &d, const void *s, size_t n, size_t o = 0, cudaMemcpyKind = cudaMemcpyHostToDevice)
{
  verif_sync();
  memcpy((char *)&d + o, s, n);
  return cudaSuccess;
}
inline cudaError_t cudaDeviceSynchronize() { return verif_sync(), cudaSuccess; }
inline cudaError_t cudaThreadSynchronize() { return verif_sync(), cudaSuccess; }
inline cudaError_t cudaDeviceReset() { return verif_sync(), cudaSuccess; }
inline cudaError_t cudaStreamCreate(cudaStream_t *s) { return *s = verif_stream(true), cudaSuccess; }
inline cudaError_t cudaStreamCreateWithFlags(cudaStream_t *s, unsigned f) { return *s = verif_stream(!(f & cudaStreamNonBlocking)), cudaSuccess; }
inline cudaError_t cudaStreamDestroy(cudaStream_t) { return cudaSuccess; }
inline cudaError_t cudaStreamSynchronize(cudaStream_t s) { return verif_stream_sync(s), cudaSuccess; }
inline cudaError_t cudaStreamQuery(cudaStream_t s) { return verif_stream_sync(s), cudaSuccess; }
inline cudaError_t cudaStreamWaitEvent(cudaStream_t s, cudaEvent_t e, unsigned = 0) { return verif_stream_wait(s, e), cudaSuccess; }
inline cudaError_t cudaEventCreate(cudaEvent_t *e) { return *e = verif_event_new(), cudaSuccess; }
inline cudaError_t cudaEventCreateWithFlags(cudaEvent_t *e, unsigned) { return *e = verif_event_new(), cudaSuccess; }
inline cudaError_t cudaEventDestroy(cudaEvent_t) { return cudaSuccess; }
inline cudaError_t cudaEventRecord(cudaEvent_t e, cudaStream_t s = 0) { return verif_event_record(e, s), cudaSuccess; }
inline cudaError_t cudaEventSynchronize(cudaEvent_t e) { return verif_event_sync(e), cudaSuccess; }
inline cudaError_t cudaEventQuery(cudaEvent_t e) { return verif_event_sync(e), cudaSuccess; }
inline cudaError_t cudaEventElapsedTime(float *f, cudaEvent_t, cudaEvent_t) { return *f = 0.5f, cudaSuccess; }
inline cudaError_t cudaGetLastError() { return verif_last(true); }
inline cudaError_t cudaPeekAtLastError() { return verif_last(false); }
inline const char *cudaGetErrorString(cudaError_t e) { return e ? "error" : "no error"; }
inline const char *cudaGetErrorName(cudaError_t e) { return e ? "cudaError" : "cudaSuccess"; }
inline cudaError_t cudaSetDevice(int) { return cudaSuccess; }
inline cudaError_t cudaGetDevice(int *d) { return *d = 0, cudaSuccess; }
inline cudaError_t cudaGetDeviceProperties(cudaDeviceProp *p, int)
{
  memset(p, 0, sizeof *p);
  strcpy(p->name, "stand-in");
  p->totalGlobalMem = 1ul << 30, p->sharedMemPerBlock = 48 << 10, p->warpSize = 32, p->maxThreadsPerBlock = 1024, p->multiProcessorCount = 4, p->major = 7;
  for (int i = 0; i < 3; ++i) p->maxThreadsDim[i] = i < 2 ? 1024 : 64, p->maxGridSize[i] = i ? 65535 : 2147483647;
  return cudaSuccess;
}
inline cudaError_t cudaGetDeviceCount(int *n) { return *n = 1, cudaSuccess; }
inline void __syncthreads() { verif_barrier(); }
inline void __threadfence() {}
inline void __threadfence_block() {}
#define VERIF_ATOMIC(name, expr)                                                          \
  template <class T, class U> __attribute__((no_sanitize("thread"))) T name(T *p, U v)    \
  {                                                                                       \
    T o = *p;                                                                             \
    *p = (expr);                                                                          \
    return o;                                                                             \
  }
VERIF_ATOMIC(atomicAdd, o + (T)v)
VERIF_ATOMIC(atomicSub, o - (T)v)
VERIF_ATOMIC(atomicExch, (T)v)
VERIF_ATOMIC(atomicMax, o < (T)v ? (T)v : o)
VERIF_ATOMIC(atomicMin, (T)v < o ? (T)v : o)
template <class T> __attribute__((no_sanitize("thread"))) T atomicCAS(T *p, T c, T v)
{
  T o = *p;
  if (o == c) *p = v;
  return o;
}
inline double __dadd_rn(double a, double b) { return a + b; }
inline double __dmul_rn(double a, double b) { return a * b; }
inline double __fma_rn(double a, double b, double c) { return fma(a, b, c); }
template <class T> T __ldg(const T *p) { return *p; }
using std::max;
using std::min;
