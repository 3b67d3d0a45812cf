/* Stand-in for the NEON intrinsics cglm uses, so that its ARM paths run in the simulator on x86-64.
   Lane semantics follow the Arm reference; estimates and NaN payloads are only deterministic, not bit-exact. */
#ifndef EMU_ARM_NEON_H
#define EMU_ARM_NEON_H
#include <stdint.h>
#ifdef EMU_ARM64
#define __aarch64__ 1
#endif
typedef float float32x4_t __attribute__((vector_size(16)));
typedef float float32x2_t __attribute__((vector_size(8)));
typedef int32_t int32x4_t __attribute__((vector_size(16)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef float emu_f4u __attribute__((vector_size(16), aligned(4)));
typedef float emu_f2u __attribute__((vector_size(8), aligned(4)));
typedef struct { float32x4_t val[2]; } float32x4x2_t;
typedef struct { float32x4_t val[4]; } float32x4x4_t;
#define EMU static inline __attribute__((always_inline, unused))
#define SH4 __builtin_shufflevector
EMU float32x4_t vld1q_f32(const float *p) { return *(const emu_f4u *)p; }
EMU float32x2_t vld1_f32(const float *p) { return *(const emu_f2u *)p; }
EMU void vst1q_f32(float *p, float32x4_t a) { *(emu_f4u *)p = a; }
EMU void vst1_f32(float *p, float32x2_t a) { *(emu_f2u *)p = a; }
#define vst1_lane_f32(p, v, l)  (void)(*(p) = (v)[l])
#define vst1q_lane_f32(p, v, l) (void)(*(p) = (v)[l])
#define vget_lane_f32(v, l)  ((v)[l])
#define vgetq_lane_f32(v, l) ((v)[l])
EMU float32x4x4_t vld4q_f32(const float *p) {
  float32x4_t a = vld1q_f32(p), b = vld1q_f32(p + 4), c = vld1q_f32(p + 8), d = vld1q_f32(p + 12); float32x4x4_t r;
  for (int i = 0; i < 4; i++) { float32x4_t t = {a[i], b[i], c[i], d[i]}; r.val[i] = t; } return r; }
EMU float32x4_t vdupq_n_f32(float x) { float32x4_t r = {x, x, x, x}; return r; }
EMU float32x2_t vdup_n_f32(float x) { float32x2_t r = {x, x}; return r; }
#define vdupq_lane_f32(v, l)  vdupq_n_f32((v)[l])
#define vdupq_laneq_f32(v, l) vdupq_n_f32((v)[l])
#define vdup_lane_f32(v, l)   vdup_n_f32((v)[l])
#define vdup_laneq_f32(v, l)  vdup_n_f32((v)[l])
EMU float32x2_t vget_low_f32(float32x4_t a) { return SH4(a, a, 0, 1); }
EMU float32x2_t vget_high_f32(float32x4_t a) { return SH4(a, a, 2, 3); }
EMU float32x4_t vcombine_f32(float32x2_t a, float32x2_t b) { return SH4(a, b, 0, 1, 2, 3); }
EMU int32x4_t vreinterpretq_s32_f32(float32x4_t a) { return (int32x4_t)a; }
EMU float32x4_t vreinterpretq_f32_s32(int32x4_t a) { return (float32x4_t)a; }
EMU uint32x4_t vreinterpretq_u32_f32(float32x4_t a) { return (uint32x4_t)a; }
EMU float32x4_t vreinterpretq_f32_u32(uint32x4_t a) { return (float32x4_t)a; }
EMU int32x4_t veorq_s32(int32x4_t a, int32x4_t b) { return a ^ b; }
EMU uint32x4_t veorq_u32(uint32x4_t a, uint32x4_t b) { return a ^ b; }
EMU float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a + b; }
EMU float32x2_t vadd_f32(float32x2_t a, float32x2_t b) { return a + b; }
EMU float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return a - b; }
EMU float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a * b; }
EMU float32x2_t vmul_f32(float32x2_t a, float32x2_t b) { return a * b; }
EMU float32x4_t vdivq_f32(float32x4_t a, float32x4_t b) { return a / b; }
EMU float32x4_t vnegq_f32(float32x4_t a) { return -a; }
EMU float32x4_t vabsq_f32(float32x4_t a) { int32x4_t m = {0x7fffffff, 0x7fffffff, 0x7fffffff, 0x7fffffff}; return (float32x4_t)((int32x4_t)a & m); }
EMU float emu_min(float a, float b) { return a != a ? a : b != b ? b : a < b ? a : b < a ? b : __builtin_signbit(a) ? a : b; }
EMU float emu_max(float a, float b) { return a != a ? a : b != b ? b : a > b ? a : b > a ? b : __builtin_signbit(a) ? b : a; }
EMU float32x4_t vminq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = emu_min(a[i], b[i]); return r; }
EMU float32x4_t vmaxq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = emu_max(a[i], b[i]); return r; }
EMU float32x2_t vpmin_f32(float32x2_t a, float32x2_t b) { float32x2_t r = {emu_min(a[0], a[1]), emu_min(b[0], b[1])}; return r; }
EMU float32x2_t vpmax_f32(float32x2_t a, float32x2_t b) { float32x2_t r = {emu_max(a[0], a[1]), emu_max(b[0], b[1])}; return r; }
EMU float32x2_t vpadd_f32(float32x2_t a, float32x2_t b) { float32x2_t r = {a[0] + a[1], b[0] + b[1]}; return r; }
EMU float32x4_t vpaddq_f32(float32x4_t a, float32x4_t b) { float32x4_t r = {a[0] + a[1], a[2] + a[3], b[0] + b[1], b[2] + b[3]}; return r; }
EMU float vaddvq_f32(float32x4_t a) { return (a[0] + a[1]) + (a[2] + a[3]); }
EMU float vminvq_f32(float32x4_t a) { return emu_min(emu_min(a[0], a[1]), emu_min(a[2], a[3])); }
EMU float vmaxvq_f32(float32x4_t a) { return emu_max(emu_max(a[0], a[1]), emu_max(a[2], a[3])); }
EMU float32x4_t vmlaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { float32x4_t p = b * c; return a + p; }
EMU float32x4_t vmlsq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { float32x4_t p = b * c; return a - p; }
EMU float32x4_t vfmaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = __builtin_fmaf(b[i], c[i], a[i]); return r; }
EMU float32x4_t vfmsq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = __builtin_fmaf(-b[i], c[i], a[i]); return r; }
#define vmulq_lane_f32(a, v, l)    vmulq_f32(a, vdupq_n_f32((v)[l]))
#define vmulq_n_f32(a, x)          vmulq_f32(a, vdupq_n_f32(x))
#define vmlaq_lane_f32(a, b, v, l) vmlaq_f32(a, b, vdupq_n_f32((v)[l]))
#define vmlsq_lane_f32(a, b, v, l) vmlsq_f32(a, b, vdupq_n_f32((v)[l]))
EMU float32x4_t vrecpeq_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) { union { float f; uint32_t u; } x; x.f = 1.0f / a[i]; if (x.f == x.f) x.u &= 0xffff8000u; r[i] = x.f; } return r; }
EMU float32x4_t vrecpsq_f32(float32x4_t a, float32x4_t b) { float32x4_t p = a * b, t = {2, 2, 2, 2}; return t - p; }
EMU float32x4_t vrev64q_f32(float32x4_t a) { return SH4(a, a, 1, 0, 3, 2); }
EMU float32x2_t vrev64_f32(float32x2_t a) { return SH4(a, a, 1, 0); }
#define vextq_f32(a, b, n) SH4(a, b, (n), (n) + 1, (n) + 2, (n) + 3)
#define vext_f32(a, b, n) SH4(a, b, (n), (n) + 1)
EMU float32x4x2_t vzipq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r; r.val[0] = SH4(a, b, 0, 4, 1, 5); r.val[1] = SH4(a, b, 2, 6, 3, 7); return r; }
EMU float32x4x2_t vuzpq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r; r.val[0] = SH4(a, b, 0, 2, 4, 6); r.val[1] = SH4(a, b, 1, 3, 5, 7); return r; }
EMU float32x4x2_t vtrnq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r; r.val[0] = SH4(a, b, 0, 4, 2, 6); r.val[1] = SH4(a, b, 1, 5, 3, 7); return r; }
#endif
