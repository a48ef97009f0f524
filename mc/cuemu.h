// An emulated GPU.  Kernels are C++ functions run once per GPU thread under a scheduler that is in charge of
// the order of threads, blocks and queued work; code compiled with -fsanitize=thread reports its accesses, which
// are checked for device bounds, life time and unordered conflicts.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <limits>
#include <memory>
#include <numeric>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>

#ifdef __CUDACC__
#define __global__
#define __device__
#define __host__
#define __constant__ static const
#define __forceinline__ inline
#define __noinline__ __attribute__((noinline))
#define __restrict__ __restrict
#define __launch_bounds__(...)
#define __shared__ static __attribute__((section("cushared")))
#define __managed__
#endif

struct dim3 {
  unsigned int x, y, z;
  constexpr dim3(unsigned int x = 1, unsigned int y = 1, unsigned int z = 1) : x(x), y(y), z(z) {}
};
struct uint3 { unsigned int x, y, z; };
extern uint3 threadIdx, blockIdx;
extern dim3 blockDim, gridDim;
constexpr int warpSize = 32;

struct float2 { float x, y; } __attribute__((aligned(8)));
struct float3 { float x, y, z; };
struct float4 { float x, y, z, w; } __attribute__((aligned(16)));
struct double2 { double x, y; } __attribute__((aligned(16)));
struct int2 { int x, y; } __attribute__((aligned(8)));
struct int4 { int x, y, z, w; } __attribute__((aligned(16)));
struct uint4 { unsigned x, y, z, w; } __attribute__((aligned(16)));
inline float2 make_float2(float x, float y) { return {x, y}; }
inline float3 make_float3(float x, float y, float z) { return {x, y, z}; }
inline float4 make_float4(float x, float y, float z, float w) { return {x, y, z, w}; }
inline int2 make_int2(int x, int y) { return {x, y}; }
inline int4 make_int4(int x, int y, int z, int w) { return {x, y, z, w}; }

enum cudaError_t { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorMemoryAllocation = 2, cudaErrorInvalidConfiguration = 9, cudaErrorInvalidDevice = 101,
                   cudaErrorInvalidResourceHandle = 400, cudaErrorNotReady = 600, cudaErrorIllegalAddress = 700, cudaErrorLaunchFailure = 719 };
enum cudaMemcpyKind { cudaMemcpyHostToHost = 0, cudaMemcpyHostToDevice = 1, cudaMemcpyDeviceToHost = 2, cudaMemcpyDeviceToDevice = 3, cudaMemcpyDefault = 4 };
struct CUstream_st; typedef CUstream_st* cudaStream_t;
struct CUevent_st; typedef CUevent_st* cudaEvent_t;
enum { cudaEventDefault = 0, cudaEventBlockingSync = 1, cudaEventDisableTiming = 2 };
enum { cudaHostAllocDefault = 0, cudaHostAllocPortable = 1, cudaHostAllocMapped = 2 };
enum { cudaStreamDefault = 0, cudaStreamNonBlocking = 1 };
struct cudaDeviceProp {
  char name[256]; size_t totalGlobalMem, sharedMemPerBlock; int regsPerBlock, warpSize, maxThreadsPerBlock; int maxThreadsDim[3], maxGridSize[3];
  int major, minor, multiProcessorCount, maxThreadsPerMultiProcessor;
};
cudaError_t cudaGetDeviceCount(int*);
cudaError_t cudaSetDevice(int);
cudaError_t cudaGetDevice(int*);
cudaError_t cudaGetDeviceProperties(cudaDeviceProp*, int);
cudaError_t cudaDeviceSynchronize();
cudaError_t cudaMalloc(void**, size_t);
template <class T> cudaError_t cudaMalloc(T** p, size_t n) { return cudaMalloc((void**)p, n); }
cudaError_t cudaFree(void*);
cudaError_t cudaMallocAsync(void**, size_t, cudaStream_t);
cudaError_t cudaFreeAsync(void*, cudaStream_t);
cudaError_t cudaHostAlloc(void**, size_t, unsigned);
cudaError_t cudaMallocHost(void**, size_t);
cudaError_t cudaFreeHost(void*);
cudaError_t cudaMemcpy(void*, const void*, size_t, cudaMemcpyKind);
cudaError_t cudaMemcpyAsync(void*, const void*, size_t, cudaMemcpyKind, cudaStream_t = nullptr);
cudaError_t cudaMemset(void*, int, size_t);
cudaError_t cudaMemsetAsync(void*, int, size_t, cudaStream_t = nullptr);
cudaError_t cudaStreamCreate(cudaStream_t*);
cudaError_t cudaStreamCreateWithFlags(cudaStream_t*, unsigned);
cudaError_t cudaStreamDestroy(cudaStream_t);
cudaError_t cudaStreamSynchronize(cudaStream_t);
cudaError_t cudaStreamWaitEvent(cudaStream_t, cudaEvent_t, unsigned = 0);
cudaError_t cudaStreamQuery(cudaStream_t);
cudaError_t cudaEventCreate(cudaEvent_t*);
cudaError_t cudaEventCreateWithFlags(cudaEvent_t*, unsigned);
cudaError_t cudaEventDestroy(cudaEvent_t);
cudaError_t cudaEventRecord(cudaEvent_t, cudaStream_t = nullptr);
cudaError_t cudaEventQuery(cudaEvent_t);
cudaError_t cudaEventSynchronize(cudaEvent_t);
cudaError_t cudaGetLastError();
cudaError_t cudaPeekAtLastError();
const char* cudaGetErrorString(cudaError_t);
const char* cudaGetErrorName(cudaError_t);

namespace cuemu {
// ---- what the harness decides
struct Mode {
  bool lazy = false;          // queued work runs as late as it may (else at once)
  bool threadsDown = false;   // threads of a block from the last to the first
  bool blocksDown = false;    // blocks from the last to the first
  bool tiesDown = false;      // how an unstable sort orders equal keys
  bool queriesRun = true;     // asking about an event lets its stream do one more work
  int draws = 0;              // random numbers: as the generator gives them, or the largest (1) or smallest (-1) it can give every time
};
extern Mode mode;
void reset();                              // a new execution: forgets problems
const std::string& problem();              // first problem found ("" if none)
void report(const std::string& what);
size_t liveBytes();                        // device memory in use
uint64_t threadsRun();
uint64_t launches();
void finish();                             // runs everything queued
std::vector<int> waiting();                // streams with queued work
void step(int stream);                     // runs the oldest work of a stream
extern void (*blocked)();                  // called when the host has to wait for something no device work brings about
uint64_t position(cudaStream_t s);         // number of the next work
bool reached(cudaStream_t s, uint64_t n);  // that many works are done
bool helpTo(cudaStream_t s, uint64_t n);   // runs the stream as far as it goes, at most to there
void enqueueWhen(cudaStream_t st, std::function<bool()> ready, std::function<void()> help, std::function<void()> run);
bool liveDevice(const void* p, size_t n);
void withDevice(const std::function<void()>& f);   // f may touch device memory  // all of it is allocated

// ---- launching
struct Cfg {
  dim3 g, b; size_t sh = 0; cudaStream_t st = nullptr;
  Cfg(dim3 g, dim3 b, size_t sh = 0, cudaStream_t st = nullptr) : g(g), b(b), sh(sh), st(st) {}
};
struct Launch {
  size_t bytes = 0;
  virtual void run() = 0;
  virtual ~Launch() {}
};
void enqueue(Cfg c, Launch* l);            // a grid of threads; takes l
void enqueueSerial(cudaStream_t st, Launch* l);   // one operation
template <class F, class T> struct LaunchOf : Launch {
  F f; T t;
  LaunchOf(F f, T t) : f(f), t(std::move(t)) { bytes = sizeof *this; }
  void run() override { std::apply(f, t); }
};
template <class F, class... A> void launch(Cfg c, F f, A&&... a) {
  typedef std::tuple<std::decay_t<A>...> T;
  enqueue(c, new LaunchOf<F, T>(f, T(std::forward<A>(a)...)));
}
template <class F> void serial(cudaStream_t st, F f) {
  typedef std::tuple<> T;
  enqueueSerial(st, new LaunchOf<F, T>(f, T()));
}
void asThread(uint64_t i);                 // what follows in a serial operation counts as done by parallel thread i
void asOne();
void* scratch(size_t n);                   // memory of the running serial operation
void read(const void* p, size_t n);        // accesses of code that does not report its own
void write(void* p, size_t n);
void barrier();
void warpBarrier(unsigned mask);
void shuffle(unsigned mask, int src, bool valid, const void* in, void* out, size_t n);
int lane();
bool onDevice();
void hostRead(void* dst, const void* src, size_t n);
void hostWrite(void* dst, const void* src, size_t n);
struct Atomic { Atomic(void* p, size_t n); ~Atomic(); };
}  // namespace cuemu

#ifdef __CUDACC__
inline void __syncthreads() { cuemu::barrier(); }
inline void __syncwarp(unsigned mask = 0xffffffffu) { cuemu::warpBarrier(mask); }
inline void __threadfence() {}
inline void __threadfence_block() {}
template <class T> T __shfl_down_sync(unsigned mask, T v, unsigned d, int width = 32) { int l = cuemu::lane(), s = l + (int)d; bool ok = (l & (width - 1)) + (int)d < width; T r = v; cuemu::shuffle(mask, s, ok, &v, &r, sizeof v); return r; }
template <class T> T __shfl_up_sync(unsigned mask, T v, unsigned d, int width = 32) { int l = cuemu::lane(), s = l - (int)d; bool ok = (l & (width - 1)) >= (int)d; T r = v; cuemu::shuffle(mask, s, ok, &v, &r, sizeof v); return r; }
template <class T> T __shfl_xor_sync(unsigned mask, T v, int m, int width = 32) { int l = cuemu::lane(), s = l ^ m; bool ok = (s / width) == (l / width); T r = v; cuemu::shuffle(mask, s, ok, &v, &r, sizeof v); return r; }
template <class T> T __shfl_sync(unsigned mask, T v, int src, int width = 32) { int l = cuemu::lane(), s = (l & ~(width - 1)) + (src & (width - 1)); T r = v; cuemu::shuffle(mask, s, true, &v, &r, sizeof v); return r; }
template <class T> T atomicAdd(T* p, T v) { cuemu::Atomic a(p, sizeof(T)); T o = *p; *p = o + v; return o; }
template <class T> T atomicSub(T* p, T v) { cuemu::Atomic a(p, sizeof(T)); T o = *p; *p = o - v; return o; }
template <class T> T atomicMax(T* p, T v) { cuemu::Atomic a(p, sizeof(T)); T o = *p; if (v > o) *p = v; return o; }
template <class T> T atomicMin(T* p, T v) { cuemu::Atomic a(p, sizeof(T)); T o = *p; if (v < o) *p = v; return o; }
template <class T> T atomicExch(T* p, T v) { cuemu::Atomic a(p, sizeof(T)); T o = *p; *p = v; return o; }
template <class T> T atomicCAS(T* p, T c, T v) { cuemu::Atomic a(p, sizeof(T)); T o = *p; if (o == c) *p = v; return o; }
template <class T> T __ldg(const T* p) { return *p; }
inline float rsqrtf(float x) { return 1.f / sqrtf(x); }
inline float __expf(float x) { return expf(x); }
inline float __logf(float x) { return logf(x); }
inline float __fdividef(float a, float b) { return a / b; }
inline float __int_as_float(int x) { float f; memcpy(&f, &x, 4); return f; }
inline int __float_as_int(float f) { int x; memcpy(&x, &f, 4); return x; }
inline float __uint_as_float(unsigned x) { float f; memcpy(&f, &x, 4); return f; }
inline unsigned __float_as_uint(float f) { unsigned x; memcpy(&x, &f, 4); return x; }
inline int __popc(unsigned x) { return __builtin_popcount(x); }
inline int __clz(int x) { return x ? __builtin_clz((unsigned)x) : 32; }
using std::isnan;
using std::isinf;
using std::min;
using std::max;
#endif
