/* Stand-in for the WebAssembly SIMD intrinsics cglm uses, so that its WASM paths run in the simulator on x86-64. */
#ifndef EMU_WASM_SIMD128_H
#define EMU_WASM_SIMD128_H
#include <stdint.h>
#include <stddef.h>
typedef int32_t v128_t __attribute__((vector_size(16), aligned(16)));
typedef int32_t emu_v128u __attribute__((vector_size(16), aligned(1)));
typedef float emu_f4 __attribute__((vector_size(16)));
typedef int64_t emu_i2 __attribute__((vector_size(16)));
typedef int32_t emu_i32u __attribute__((aligned(1)));
typedef int64_t emu_i64u __attribute__((aligned(1)));
#define EMU static inline __attribute__((always_inline, unused))
EMU v128_t wasm_v128_load(const void *p) { return *(const emu_v128u *)p; }
EMU void wasm_v128_store(void *p, v128_t a) { *(emu_v128u *)p = a; }
EMU v128_t wasm_v128_load32_zero(const void *p) { v128_t r = {*(const emu_i32u *)p, 0, 0, 0}; return r; }
EMU v128_t wasm_v128_load64_zero(const void *p) { emu_i2 r = {*(const emu_i64u *)p, 0}; return (v128_t)r; }
#define wasm_v128_store32_lane(p, v, l) (void)(*(emu_i32u *)(p) = (v)[l])
#define wasm_v128_store64_lane(p, v, l) (void)(*(emu_i64u *)(p) = ((emu_i2)(v))[l])
#define wasm_f32x4_extract_lane(v, l) (((emu_f4)(v))[l])
EMU v128_t emu_repl(v128_t v, int l, float x) { emu_f4 f = (emu_f4)v; f[l] = x; return (v128_t)f; }
#define wasm_f32x4_replace_lane(v, l, x) emu_repl(v, l, x)
EMU v128_t wasm_f32x4_splat(float x) { emu_f4 r = {x, x, x, x}; return (v128_t)r; }
#define wasm_f32x4_const_splat(x) wasm_f32x4_splat(x)
EMU v128_t wasm_f32x4_make(float a, float b, float c, float d) { emu_f4 r = {a, b, c, d}; return (v128_t)r; }
#define wasm_f32x4_const(a, b, c, d) wasm_f32x4_make(a, b, c, d)
EMU v128_t wasm_i32x4_make(int32_t a, int32_t b, int32_t c, int32_t d) { v128_t r = {a, b, c, d}; return r; }
#define wasm_i32x4_const(a, b, c, d) wasm_i32x4_make((int32_t)(a), (int32_t)(b), (int32_t)(c), (int32_t)(d))
#define wasm_i32x4_const_splat(x) wasm_i32x4_const(x, x, x, x)
#define wasm_i32x4_shuffle(a, b, i, j, k, l) ((v128_t)__builtin_shufflevector((v128_t)(a), (v128_t)(b), i, j, k, l))
EMU v128_t wasm_v128_xor(v128_t a, v128_t b) { return a ^ b; }
EMU v128_t wasm_v128_and(v128_t a, v128_t b) { return a & b; }
EMU v128_t wasm_f32x4_add(v128_t a, v128_t b) { return (v128_t)((emu_f4)a + (emu_f4)b); }
EMU v128_t wasm_f32x4_sub(v128_t a, v128_t b) { return (v128_t)((emu_f4)a - (emu_f4)b); }
EMU v128_t wasm_f32x4_mul(v128_t a, v128_t b) { return (v128_t)((emu_f4)a * (emu_f4)b); }
EMU v128_t wasm_f32x4_div(v128_t a, v128_t b) { return (v128_t)((emu_f4)a / (emu_f4)b); }
EMU v128_t wasm_f32x4_neg(v128_t a) { return (v128_t)(-(emu_f4)a); }
EMU v128_t wasm_f32x4_abs(v128_t a) { return a & 0x7fffffff; }
EMU v128_t wasm_f32x4_sqrt(v128_t a) { emu_f4 r, x = (emu_f4)a; for (int i = 0; i < 4; i++) r[i] = __builtin_sqrtf(x[i]); return (v128_t)r; }
EMU v128_t wasm_f32x4_pmin(v128_t a, v128_t b) { v128_t m = (v128_t)((emu_f4)b < (emu_f4)a); return (m & b) | (~m & a); }
EMU v128_t wasm_f32x4_pmax(v128_t a, v128_t b) { v128_t m = (v128_t)((emu_f4)a < (emu_f4)b); return (m & b) | (~m & a); }
#endif
