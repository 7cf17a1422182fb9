// Makes this translation unit a CUDA device build of the library without nvcc: the language extensions are empty,
// libcu++ is libstdc++, and the device's atomic instructions are indivisible steps of the simulated scheduler.
#pragma once
#include "cuda_stub/cuda/std_all.h"
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <gmp.h>
#include "threads.h"
#define __CUDACC__ 12
#define __CUDACC_VER_MAJOR__ 12
#define __CUDA_ARCH__ 800
#define __host__
#define __device__
#define __global__
#define __shared__ static
#define __constant__
#define __forceinline__ inline
#define __noinline__ __attribute__((noinline))
#undef AESI_GMP_INTEGRATION
struct DeviceIndex { unsigned x = 0, y = 0, z = 0; };
inline thread_local DeviceIndex threadIdx, blockIdx, blockDim, gridDim; constexpr int warpSize = 32;
#define DEVICE_ATOMIC(name, T, expr) inline SIM_NOINSTR T name(T* p, T v) { sim::schedPoint(p, sizeof(T)); T old = *p; *p = (expr); return old; }
#define DEVICE_ATOMICS(T) DEVICE_ATOMIC(atomicExch, T, v) DEVICE_ATOMIC(atomicAdd, T, old + v) DEVICE_ATOMIC(atomicSub, T, old - v) DEVICE_ATOMIC(atomicMin, T, old < v ? old : v) DEVICE_ATOMIC(atomicMax, T, old > v ? old : v) \
    DEVICE_ATOMIC(atomicAnd, T, old & v) DEVICE_ATOMIC(atomicOr, T, old | v) DEVICE_ATOMIC(atomicXor, T, old ^ v) \
    inline SIM_NOINSTR T atomicCAS(T* p, T c, T v) { sim::schedPoint(p, sizeof(T)); T old = *p; if (old == c) *p = v; return old; }
DEVICE_ATOMICS(int) DEVICE_ATOMICS(unsigned) DEVICE_ATOMICS(unsigned long long)
inline void __threadfence() {} inline void __threadfence_block() {} inline void __syncwarp(unsigned = 0) {}
inline constexpr unsigned __umulhi(unsigned a, unsigned b) { return static_cast<unsigned>(static_cast<unsigned long long>(a) * b >> 32); }
inline constexpr int __clz(unsigned x) { return x ? __builtin_clz(x) : 32; } inline constexpr int __clzll(unsigned long long x) { return x ? __builtin_clzll(x) : 64; }
inline constexpr int __ffs(unsigned x) { return __builtin_ffs(static_cast<int>(x)); } inline constexpr int __popc(unsigned x) { return __builtin_popcount(x); } inline constexpr int __popcll(unsigned long long x) { return __builtin_popcountll(x); }
inline constexpr unsigned long long __umul64hi(unsigned long long a, unsigned long long b) { return static_cast<unsigned long long>(static_cast<unsigned __int128>(a) * b >> 64); }
inline constexpr unsigned __umul24(unsigned a, unsigned b) { return (a & 0xffffffu) * (b & 0xffffffu); }
inline constexpr unsigned __brev(unsigned x) { unsigned r = 0; for (int i = 0; i < 32; ++i) r |= (x >> i & 1u) << (31 - i); return r; } inline constexpr int __ffsll(long long x) { return __builtin_ffsll(x); }
inline constexpr unsigned __byte_perm(unsigned a, unsigned b, unsigned s) { const unsigned long long v = static_cast<unsigned long long>(b) << 32 | a; unsigned r = 0; for (int i = 0; i < 4; ++i) r |= static_cast<unsigned>(v >> ((s >> 4 * i & 7u) * 8) & 0xffu) << 8 * i; return r; }
inline constexpr unsigned __funnelshift_l(unsigned lo, unsigned hi, unsigned s) { return static_cast<unsigned>(((static_cast<unsigned long long>(hi) << 32 | lo) << (s & 31u)) >> 32); }
inline constexpr unsigned __funnelshift_r(unsigned lo, unsigned hi, unsigned s) { return static_cast<unsigned>((static_cast<unsigned long long>(hi) << 32 | lo) >> (s & 31u)); }
template <class T> inline constexpr T __ldg(const T* p) { return *p; }
inline void __threadfence_system() {} inline void __trap() { __builtin_trap(); }
#define __launch_bounds__(...)
#define __restrict__ __restrict
#define __grid_constant__
#define __device_builtin__
