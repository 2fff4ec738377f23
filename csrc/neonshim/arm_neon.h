// NEON intrinsics on GCC/Clang vector extensions, so that the NEON sources can
// run (and be sanitized) on this machine. Semantics after the ARM intrinsics
// reference, little-endian.
#pragma once
#include <stdint.h>
#include <string.h>
typedef uint8_t uint8x8_t __attribute__((vector_size(8)));
typedef uint16_t uint16x4_t __attribute__((vector_size(8)));
typedef uint32_t uint32x2_t __attribute__((vector_size(8)));
typedef uint64_t uint64x1_t __attribute__((vector_size(8)));
typedef uint8_t uint8x16_t __attribute__((vector_size(16)));
typedef uint16_t uint16x8_t __attribute__((vector_size(16)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef uint64_t uint64x2_t __attribute__((vector_size(16)));
typedef struct { uint32x4_t val[2]; } uint32x4x2_t;
typedef struct { uint64x2_t val[2]; } uint64x2x2_t;
typedef struct { uint32x4_t val[4]; } uint32x4x4_t;
#define NS static inline __attribute__((always_inline, unused))
#define OPS(T, s, E)                                                        \
  NS T vaddq_##s(T a, T b) { return a + b; }                                \
  NS T vsubq_##s(T a, T b) { return a - b; }                                \
  NS T veorq_##s(T a, T b) { return a ^ b; }                                \
  NS T vorrq_##s(T a, T b) { return a | b; }                                \
  NS T vandq_##s(T a, T b) { return a & b; }                                \
  NS T vmvnq_##s(T a) { return ~a; }                                        \
  NS T vld1q_##s(const E *p) { T x; memcpy(&x, p, 16); return x; }          \
  NS void vst1q_##s(E *p, T x) { memcpy(p, &x, 16); }                       \
  NS T vld1q_dup_##s(const E *p) { T x; for (unsigned i = 0; i < 16 / sizeof(E); i++) x[i] = *p; return x; } \
  NS T vdupq_n_##s(E v) { T x; for (unsigned i = 0; i < 16 / sizeof(E); i++) x[i] = v; return x; }           \
  NS T vmovq_n_##s(E v) { return vdupq_n_##s(v); }
OPS(uint8x16_t, u8, uint8_t)
OPS(uint16x8_t, u16, uint16_t)
OPS(uint32x4_t, u32, uint32_t)
OPS(uint64x2_t, u64, uint64_t)
#define vshlq_n_u32(x, n) ((x) << (uint32_t)(n))
#define vshrq_n_u32(x, n) ((x) >> (uint32_t)(n))
#define vshlq_n_u64(x, n) ((x) << (uint64_t)(n))
#define vshrq_n_u64(x, n) ((x) >> (uint64_t)(n))
#define vsriq_n_u32(a, b, n) (((a) & ~(0xffffffffu >> (n))) | ((b) >> (uint32_t)(n)))
#define vsliq_n_u32(a, b, n) (((a) & ~(0xffffffffu << (n))) | ((b) << (uint32_t)(n)))
#define vsriq_n_u64(a, b, n) (((a) & ~(UINT64_MAX >> (n))) | ((b) >> (uint64_t)(n)))
#define vsliq_n_u64(a, b, n) (((a) & ~(UINT64_MAX << (n))) | ((b) << (uint64_t)(n)))
#define CAST(TO, s1, FROM, s2) NS TO vreinterpretq_##s1##_##s2(FROM x) { return (TO)x; }
CAST(uint8x16_t, u8, uint32x4_t, u32)
CAST(uint32x4_t, u32, uint8x16_t, u8)
CAST(uint16x8_t, u16, uint32x4_t, u32)
CAST(uint32x4_t, u32, uint16x8_t, u16)
CAST(uint64x2_t, u64, uint32x4_t, u32)
CAST(uint32x4_t, u32, uint64x2_t, u64)
CAST(uint8x16_t, u8, uint64x2_t, u64)
CAST(uint64x2_t, u64, uint8x16_t, u8)
CAST(uint64x2_t, u64, uint16x8_t, u16)
CAST(uint16x8_t, u16, uint64x2_t, u64)
NS uint16x8_t vrev32q_u16(uint16x8_t x) { uint16x8_t r = {x[1], x[0], x[3], x[2], x[5], x[4], x[7], x[6]}; return r; }
NS uint32x4_t vrev64q_u32(uint32x4_t x) { uint32x4_t r = {x[1], x[0], x[3], x[2]}; return r; }
NS uint8x16_t vqtbl1q_u8(uint8x16_t t, uint8x16_t i) { uint8x16_t r; for (int k = 0; k < 16; k++) r[k] = i[k] < 16 ? t[i[k]] : 0; return r; }
NS uint32x2_t vget_low_u32(uint32x4_t x) { uint32x2_t r = {x[0], x[1]}; return r; }
NS uint32x2_t vget_high_u32(uint32x4_t x) { uint32x2_t r = {x[2], x[3]}; return r; }
NS uint64x1_t vget_low_u64(uint64x2_t x) { uint64x1_t r = {x[0]}; return r; }
NS uint64x1_t vget_high_u64(uint64x2_t x) { uint64x1_t r = {x[1]}; return r; }
NS uint32x4_t vcombine_u32(uint32x2_t a, uint32x2_t b) { uint32x4_t r = {a[0], a[1], b[0], b[1]}; return r; }
NS uint64x2_t vcombine_u64(uint64x1_t a, uint64x1_t b) { uint64x2_t r = {a[0], b[0]}; return r; }
#define vgetq_lane_u32(x, i) ((uint32_t)(x)[i])
#define vgetq_lane_u64(x, i) ((uint64_t)(x)[i])
NS uint32x4_t shim_set_u32(uint32_t v, uint32x4_t x, int i) { x[i] = v; return x; }
NS uint64x2_t shim_set_u64(uint64_t v, uint64x2_t x, int i) { x[i] = v; return x; }
#define vsetq_lane_u32(v, x, i) shim_set_u32(v, x, i)
#define vsetq_lane_u64(v, x, i) shim_set_u64(v, x, i)
NS uint32x4x2_t vtrnq_u32(uint32x4_t a, uint32x4_t b) {
  uint32x4x2_t r;
  r.val[0] = (uint32x4_t){a[0], b[0], a[2], b[2]};
  r.val[1] = (uint32x4_t){a[1], b[1], a[3], b[3]};
  return r;
}
NS uint32x4_t vtrn1q_u32(uint32x4_t a, uint32x4_t b) { return vtrnq_u32(a, b).val[0]; }
NS uint32x4_t vtrn2q_u32(uint32x4_t a, uint32x4_t b) { return vtrnq_u32(a, b).val[1]; }
NS uint32x4x2_t vzipq_u32(uint32x4_t a, uint32x4_t b) {
  uint32x4x2_t r;
  r.val[0] = (uint32x4_t){a[0], b[0], a[1], b[1]};
  r.val[1] = (uint32x4_t){a[2], b[2], a[3], b[3]};
  return r;
}
NS uint32x4x2_t vuzpq_u32(uint32x4_t a, uint32x4_t b) {
  uint32x4x2_t r;
  r.val[0] = (uint32x4_t){a[0], a[2], b[0], b[2]};
  r.val[1] = (uint32x4_t){a[1], a[3], b[1], b[3]};
  return r;
}
NS uint64x2_t vtrn1q_u64(uint64x2_t a, uint64x2_t b) { return (uint64x2_t){a[0], b[0]}; }
NS uint64x2_t vtrn2q_u64(uint64x2_t a, uint64x2_t b) { return (uint64x2_t){a[1], b[1]}; }
NS uint64x2_t vzip1q_u64(uint64x2_t a, uint64x2_t b) { return (uint64x2_t){a[0], b[0]}; }
NS uint64x2_t vzip2q_u64(uint64x2_t a, uint64x2_t b) { return (uint64x2_t){a[1], b[1]}; }
#define vextq_u32(a, b, n) ((uint32x4_t){(n) + 0 < 4 ? (a)[((n) + 0) & 3] : (b)[((n) + 0) & 3], (n) + 1 < 4 ? (a)[((n) + 1) & 3] : (b)[((n) + 1) & 3], (n) + 2 < 4 ? (a)[((n) + 2) & 3] : (b)[((n) + 2) & 3], (n) + 3 < 4 ? (a)[((n) + 3) & 3] : (b)[((n) + 3) & 3]})
