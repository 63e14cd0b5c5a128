// A stand-in for the CUDA runtime that executes kernels on the CPU, so that the
// .cu files can be run without a GPU (see DESIGN.md, P29).  Streams are queues;
// what is queued runs when somebody waits for it, in a randomly chosen order
// among those that streams and events allow.
#ifndef DW_EMU_CUDA_RUNTIME_H
#define DW_EMU_CUDA_RUNTIME_H

#include <math.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <utility>

struct dim3 {
  unsigned int x, y, z;
  constexpr dim3(unsigned int x_ = 1, unsigned int y_ = 1, unsigned int z_ = 1)
      : x(x_), y(y_), z(z_) {}
};
typedef dim3 uint3;

enum cudaError_t {
  cudaSuccess = 0,
  cudaErrorInvalidValue = 1,
  cudaErrorMemoryAllocation = 2,
  cudaErrorInvalidConfiguration = 9,
  cudaErrorInvalidDevice = 101,
  cudaErrorInvalidResourceHandle = 400,
  cudaErrorNotReady = 600
};
typedef cudaError_t cudaError;
struct CUstream_st;
struct CUevent_st;
typedef CUstream_st *cudaStream_t;
typedef CUevent_st *cudaEvent_t;
enum cudaMemcpyKind {
  cudaMemcpyHostToHost = 0,
  cudaMemcpyHostToDevice = 1,
  cudaMemcpyDeviceToHost = 2,
  cudaMemcpyDeviceToDevice = 3,
  cudaMemcpyDefault = 4
};
#define cudaStreamDefault 0
#define cudaStreamNonBlocking 1
#define cudaEventDefault 0
#define cudaEventDisableTiming 2

namespace dw_emu {
extern uint3 thread_idx, block_idx;
extern dim3 block_dim, grid_dim;
void launch(dim3 g, dim3 b, size_t shm, cudaStream_t s, bool fibers,
            void (*run)(void *), void (*free)(void *), void *f);
void *shared();
void syncthreads();
cudaError_t to_symbol(void *sym, size_t size, size_t off, void const *src, size_t n,
                      cudaStream_t s, bool async);

#ifdef DW_EMU_FIBERS
static constexpr bool use_fibers = true;
#else
static constexpr bool use_fibers = false;
#endif

struct Config {
  dim3 g, b;
  size_t shm;
  cudaStream_t s;
  Config(dim3 g_, dim3 b_, size_t shm_ = 0, cudaStream_t s_ = nullptr)
      : g(g_), b(b_), shm(shm_), s(s_) {}
  template <class F>
  void run(F f) const {
    launch(g, b, shm, s, use_fibers, [](void *p) { (*(F *)p)(); },
           [](void *p) { delete (F *)p; }, new F(f));
  }
};
}  // namespace dw_emu

#define threadIdx dw_emu::thread_idx
#define blockIdx dw_emu::block_idx
#define blockDim dw_emu::block_dim
#define gridDim dw_emu::grid_dim
#define __global__
#define __device__
#define __host__
#define __constant__ static
#define __shared__ static
#define __forceinline__ inline
#define __noinline__
#define __launch_bounds__(...)
#define __syncthreads() dw_emu::syncthreads()
template <class T>
inline T __ldg(T const *p) {
  return *p;
}
template <class T>
inline T atomicAdd(T *p, T v) {
  T const o = *p;
  *p = o + v;
  return o;
}
template <class T>
inline T atomicMax(T *p, T v) {
  T const o = *p;
  if (v > o) *p = v;
  return o;
}
template <class T>
inline T atomicMin(T *p, T v) {
  T const o = *p;
  if (v < o) *p = v;
  return o;
}
#define __syncwarp(...)
#define __threadfence()
#define __threadfence_block()
template <class A, class B>
inline auto max(A a, B b) -> decltype(a + b) {
  return a > b ? a : b;
}
template <class A, class B>
inline auto min(A a, B b) -> decltype(a + b) {
  return a < b ? a : b;
}

cudaError_t cudaSetDevice(int d);
cudaError_t cudaGetDevice(int *d);
cudaError_t cudaPeekAtLastError();
cudaError_t cudaGetLastError();
char const *cudaGetErrorString(cudaError_t e);
cudaError_t cudaDeviceSynchronize();
cudaError_t cudaStreamCreate(cudaStream_t *s);
cudaError_t cudaStreamCreateWithFlags(cudaStream_t *s, unsigned int flags);
cudaError_t cudaStreamDestroy(cudaStream_t s);
cudaError_t cudaStreamSynchronize(cudaStream_t s);
cudaError_t cudaStreamWaitEvent(cudaStream_t s, cudaEvent_t e, unsigned int flags = 0);
cudaError_t cudaEventCreate(cudaEvent_t *e);
cudaError_t cudaEventCreateWithFlags(cudaEvent_t *e, unsigned int flags);
cudaError_t cudaEventDestroy(cudaEvent_t e);
cudaError_t cudaEventRecord(cudaEvent_t e, cudaStream_t s = nullptr);
cudaError_t cudaEventSynchronize(cudaEvent_t e);
cudaError_t cudaMemcpyAsync(void *d, void const *s, size_t n, cudaMemcpyKind k,
                            cudaStream_t st = nullptr);
cudaError_t cudaMemcpy(void *d, void const *s, size_t n, cudaMemcpyKind k);
cudaError_t cudaMemsetAsync(void *d, int v, size_t n, cudaStream_t st = nullptr);
cudaError_t cudaMemset(void *d, int v, size_t n);
cudaError_t cudaMallocBytes(void **p, size_t n);
cudaError_t cudaFree(void *p);
template <class T>
cudaError_t cudaMalloc(T **p, size_t n) {
  return cudaMallocBytes((void **)p, n);
}
template <class T>
cudaError_t cudaMallocHost(T **p, size_t n, unsigned int = 0) {
  return cudaMallocBytes((void **)p, n);
}
template <class T>
cudaError_t cudaHostAlloc(T **p, size_t n, unsigned int = 0) {
  return cudaMallocBytes((void **)p, n);
}
template <class T>
cudaError_t cudaMallocAsync(T **p, size_t n, cudaStream_t) {
  return cudaMallocBytes((void **)p, n);
}
inline cudaError_t cudaFreeHost(void *p) { return cudaFree(p); }
cudaError_t cudaFreeAsync(void *p, cudaStream_t st);
cudaError_t cudaStreamQuery(cudaStream_t s);
cudaError_t cudaEventQuery(cudaEvent_t e);
cudaError_t cudaStreamCreateWithPriority(cudaStream_t *s, unsigned int flags, int priority);
inline char const *cudaGetErrorName(cudaError_t e) { return e ? "error" : "cudaSuccess"; }
inline cudaError_t cudaGetDeviceCount(int *n) {
  *n = 1;
  return cudaSuccess;
}
template <class T>
cudaError_t cudaMemcpyToSymbol(T &sym, void const *src, size_t n, size_t off = 0,
                               cudaMemcpyKind = cudaMemcpyHostToDevice) {
  if (off > sizeof(T)) return cudaErrorInvalidValue;
  return dw_emu::to_symbol((char *)&sym, sizeof(T), off, src, n, nullptr, false);
}
template <class T>
cudaError_t cudaMemcpyToSymbolAsync(T &sym, void const *src, size_t n, size_t off = 0,
                                    cudaMemcpyKind = cudaMemcpyHostToDevice,
                                    cudaStream_t st = nullptr) {
  if (off > sizeof(T)) return cudaErrorInvalidValue;
  return dw_emu::to_symbol((char *)&sym, sizeof(T), off, src, n, st, true);
}
#endif
