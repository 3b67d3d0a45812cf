// Engine: fibers, access hooks, seams, the deterministic scheduler and the executor.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <unistd.h>
#include <csignal>
#include <cstdlib>
#include <cstdarg>
#include <cerrno>
#include <cmath>
#include <ctime>
#include <algorithm>
#include <immintrin.h>
#include <sys/prctl.h>
#include <ucontext.h>

u64 fnv(const void *p, size_t n, u64 h) { const u8 *b = (const u8 *)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } return h; }
std::vector<u32> g_hot; bool g_trace_cmp; std::vector<CmpRec> g_cmps;
const cut_table *T; std::map<std::string, int> fnidx;
u8 *cut_lo, *cut_hi; u64 cov_new; u64 g_solo_steps, g_total_steps;
static std::vector<u8> covmap;
int g_crashed_device;

// ---------------------------------------------------------------- address map
static u8 *const RW = (u8 *)0x200000000000ull, *const RO = (u8 *)0x210000000000ull, *const FRM = (u8 *)0x220000000000ull, *const STK = (u8 *)0x230000000000ull, *const HEAP = (u8 *)0x240000000000ull;
enum { NPAGE = 1024, SPAN0 = 896 /* from here on the odd pages are mapped too */, NFIB = 12, NDEP = 6, STKSZ = 512 * 1024, HEAPSZ = 64 << 20 };
static const u64 RWSZ = (u64)NPAGE * 8192;
static void die(const char *m) { fprintf(stderr, "dsim: %s (errno %d)\n", m, errno); exit(2); }
static void *mapat(void *a, size_t n, int prot, int flags, int fd, off_t o) {
  void *p = mmap(a, n, prot, flags | MAP_FIXED, fd, o); if (p == MAP_FAILED) die("mmap"); return p;
}

// ---------------------------------------------------------------- fibers
extern "C" void fib_switch(void **save, void *load);
extern "C" void fib_start();
asm(R"(
.text
.globl fib_switch
.type fib_switch,@function
fib_switch:
  pushq %rbp; pushq %rbx; pushq %r12; pushq %r13; pushq %r14; pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15; popq %r14; popq %r13; popq %r12; popq %rbx; popq %rbp
  ret
.globl fib_start
.type fib_start,@function
fib_start:
  movq %r12,%rdi
  callq *%r13
  ud2
.globl call_dirty
.type call_dirty,@function
# call_dirty(fn rdi, arg rsi, pattern rdx): dirties registers, then calls fn(arg)
call_dirty:
  pushq %rbp; pushq %rbx; pushq %r12; pushq %r13; pushq %r14; pushq %r15
  subq $8,%rsp
  movq %rdi,%rax
  movq %rsi,%rdi
  movq 0(%rdx),%xmm0; movups 0(%rdx),%xmm0; movups 16(%rdx),%xmm1; movups 32(%rdx),%xmm2; movups 48(%rdx),%xmm3
  movups 64(%rdx),%xmm4; movups 80(%rdx),%xmm5; movups 96(%rdx),%xmm6; movups 112(%rdx),%xmm7
  movups 128(%rdx),%xmm8; movups 144(%rdx),%xmm9; movups 160(%rdx),%xmm10; movups 176(%rdx),%xmm11
  movups 192(%rdx),%xmm12; movups 208(%rdx),%xmm13; movups 224(%rdx),%xmm14; movups 240(%rdx),%xmm15
  movq 8(%rdx),%rbx; movq 24(%rdx),%r12; movq 40(%rdx),%r13; movq 56(%rdx),%r14; movq 72(%rdx),%r15; movq 88(%rdx),%rbp
  movq 104(%rdx),%rcx; movq 120(%rdx),%rsi; movq 136(%rdx),%r8; movq 152(%rdx),%r9; movq 168(%rdx),%r10; movq 184(%rdx),%r11
  movq 200(%rdx),%rdx
  callq *%rax
  addq $8,%rsp
  popq %r15; popq %r14; popq %r13; popq %r12; popq %rbx; popq %rbp
  ret
)");
extern "C" void call_dirty(void (*)(void **), void **, const void *);

extern u32 g_wrmask; extern int g_calib;
struct Ext { u8 *lo; u32 n; u8 role; };
struct ActRec {
  u64 steps, next; u8 *stk_lo; u64 stk_sz; Ext ext[96]; int next_; int op; ActRec *prev; u8 *frame; int abort_status; int sig; u64 sigaddr;
  u32 ctl; u16 x87; bool solo, envbad; u64 dirt; const Op *o; jmp_buf jb; u64 dstep; bool noevents; u8 *dp; u32 dn; u64 dat; u64 key;  // key: repetition << 32, so that a decision names one step of one repetition
};
enum FState { F_NONE, F_READY, F_BLOCKED, F_STALLED, F_DONE };
// a store that other threads do not see yet: hidden whenever its thread is switched out, until its time is up or the thread orders its stores
struct Delay { u8 *p; u32 n; int life; u8 old[16]; };
struct Fiber { std::vector<Delay> dl; int id; void *sp; u8 *lo; int state; ActRec *cur; int depth; size_t pos; int waitop; const void *waitm; Bytes tls; bool kill; };
static Fiber F[NFIB]; static Fiber *cur; static void *main_sp; static ActRec *A;
static int g_want = -1;
static u8 *tls_lo; static size_t tls_sz; static Bytes tls_init; static size_t tls_modid;

// state of the current execution
struct XState {
  Scenario *sc; Exec *ex; Result *res; int events; std::vector<std::vector<std::pair<u64, std::pair<int, int>>>> dec; std::vector<int> lockowner; size_t nexth; int order; bool crashed; std::vector<const void *> files; std::vector<int> fileown;
};
static XState X; static int g_env; static bool g_rand; static u32 g_mon; static u64 g_cap = 400000;
static std::vector<u64> est_steps; u64 est_of(int fn) { return est_steps[fn]; }
static std::map<const void *, int> mutex_owner;

static void swap_delayed(Fiber *f, bool out) {
  if (out) { size_t k = 0; for (auto &d : f->dl) if (d.life-- > 0) f->dl[k++] = d; f->dl.resize(k); }
  for (auto &d : f->dl) { u8 t[16]; memcpy(t, d.p, d.n); memcpy(d.p, d.old, d.n); memcpy(d.old, t, d.n); }
}
static void to_main() { Fiber *f = cur; f->cur = A; A = nullptr; int e = errno; if (!f->dl.empty()) swap_delayed(f, true); fib_switch(&f->sp, main_sp); if (!f->dl.empty()) swap_delayed(f, false); errno = e; A = f->cur; }
static void drain() { if (cur && !cur->dl.empty()) cur->dl.clear(); }
// x86: stores reach the others late but in order, so whatever is stored behind a delayed store waits with it
static bool g_tso, g_nodelay;
static void append_store(u8 *p, u32 n) {
  bool ok = cur->dl.size() < 24; for (auto &d : cur->dl) if (p < d.p + d.n && d.p < p + n) ok = false;
  if (!ok) { drain(); return; }
  Delay d; d.p = p; d.n = n; d.life = cur->dl.back().life; memcpy(d.old, p, n); cur->dl.push_back(d);
}
static void tls_swap(Fiber *from, Fiber *to) { if (!tls_sz || from == to) return; if (from) memcpy(from->tls.data(), tls_lo, tls_sz); memcpy(tls_lo, to->tls.data(), tls_sz); }
static Fiber *tls_cur;
static void run_fiber(Fiber *f) { tls_swap(tls_cur, f); tls_cur = f; cur = f; fib_switch(&main_sp, f->sp); cur = nullptr; }
static void fiber_main(Fiber *f);
static void solo_main(Fiber *f);
static void prep_fiber(Fiber *f, void (*fn)(Fiber *), u32 mxcsr, u32 x87) {
  u64 *sp = (u64 *)(f->lo + STKSZ - 4096 - 64); *--sp = 0; *--sp = 0; *--sp = (u64)fib_start; u64 *r = sp - 6; r[5] = 0; r[4] = 0; r[3] = (u64)f; r[2] = (u64)fn; r[1] = 0; r[0] = 0;
  u64 *c = r - 1; *c = 0; ((u32 *)c)[0] = mxcsr; ((u16 *)c)[2] = (u16)x87; f->sp = c; f->state = F_READY; f->cur = nullptr; f->depth = 0; f->pos = 0; f->waitop = -1; f->waitm = nullptr; f->kill = false; f->dl.clear();
  if (tls_sz) f->tls = tls_init;
}

// ---------------------------------------------------------------- violations seen while running
static void viol(const char *cls, const std::string &t, ActRec *a) {
  if (!X.res || X.res->viol.size() >= 8) return;
  for (auto &v : X.res->viol) if (v.cls == cls) return;
  Viol v; v.cls = cls; v.text = t; v.op = a ? a->op : -1; v.step = a ? a->steps : 0; X.res->viol.push_back(v);
}
static std::string fmt(const char *f, ...) { char b[512]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static void __attribute__((noreturn)) op_abort(int st) { ActRec *a = A; a->abort_status = st; _longjmp(a->jb, 1); }

// ---------------------------------------------------------------- decisions
static void take(ActRec *a, int act, int target);
static void run_op(int opi, bool nested);
static double g_pargs, g_pglob, g_pseam, g_pdelay; static bool g_atomic;
static u64 draw_gap(ActRec *a) {
  const Policy &p = X.ex->pol;
  if (X.events >= p.max_events) return ~0ull;
  if (p.gap < 0) { // one uniform point per activation, measured length
    u64 e = est_steps[a->o->fn]; if (e < 8) e = 8; if (e > 20000) e = 20000; if (a->steps) return ~0ull;
    return 1 + X.ex->rng->below((u32)e); }
  if (p.gap == 0) return ~0ull;
  if (p.gap <= 1) return a->steps + 1;
  double u = X.ex->rng->d(); return a->steps + 1 + (u64)(-p.gap * log(1 - u));
}
static void next_replay(ActRec *a) {
  a->next = ~0ull; auto &v = X.dec[a->op];
  for (auto &d : v) if (d.first > a->steps + a->key && d.first - a->key < a->next) a->next = d.first - a->key;
}
static int runnable_other(Rng *r, int self);
static bool handler_left() { return X.nexth < X.sc->handlers.size(); }
static bool pick(ActRec *a, int &act, int &target) {
  const Policy &p = X.ex->pol; Rng &r = *X.ex->rng;
  double ws = p.w_switch, wg = p.w_signal, wc = p.w_cancel, wt = p.w_stall; int tgt = -1;
  if (ws > 0 || wt > 0) { tgt = runnable_other(&r, cur->id); if (tgt < 0) ws = wt = 0; }
  if (!handler_left() || cur->depth >= NDEP - 1) wg = 0;
  if (a->o->retry_of < 0 && cur->depth == 0) {} // any activation may be cancelled
  double tot = ws + wg + wc + wt; if (tot <= 0) return false;
  double x = r.d() * tot;
  if (x < ws) act = ACT_SWITCH, target = tgt;
  else if (x < ws + wg) act = ACT_SIGNAL, target = X.sc->handlers[X.nexth];
  else if (x < ws + wg + wc) act = ACT_CANCEL, target = r.chance(0.3);
  else act = ACT_STALL, target = tgt;
  return true;
}
static void event(ActRec *a) {
  if (a->steps >= g_cap) op_abort(ST_CAP);
  if (a->noevents) { a->next = g_cap; return; }
  int act, target;
  if (g_rand) {
    a->next = ~0ull;
    if (X.events < X.ex->pol.max_events && pick(a, act, target)) {
      X.events++; X.sc->dec.push_back({a->op, a->steps + a->key, act, target}); take(a, act, target);
      a->next = draw_gap(a);
    }
  } else {
    for (auto &d : X.dec[a->op]) if (d.first == a->steps + a->key) { take(a, d.second.first, d.second.second); }
    next_replay(a);
  }
  if (a->next > g_cap) a->next = g_cap;
}
static void take(ActRec *a, int act, int target) {
  Result *r = X.res; r->fired[act]++; r->midcall++; u64 h[4] = {(u64)a->op, a->steps, (u64)act, (u64)target}; r->hash = fnv(h, sizeof h, r->hash);
  switch (act) {
  case ACT_SWITCH: g_want = target; to_main(); break;
  case ACT_STALL: cur->state = F_STALLED; g_want = target; to_main(); break;
  case ACT_SIGNAL: { int k = -1; for (size_t i = X.nexth; i < X.sc->handlers.size(); i++) if (X.sc->handlers[i] == target) { k = (int)i; break; }
      if (k < 0) { r->fired[act]--; r->midcall--; break; }
      X.nexth = k + 1; cur->depth++; u32 m = _mm_getcsr(); u16 cw; asm volatile("fnstcw %0" : "=m"(cw)); run_op(target, true); _mm_setcsr(m); asm volatile("fldcw %0" ::"m"(cw)); cur->depth--; break; }
  case ACT_DELAY: { bool ok = a->dat == a->steps && cur->dl.size() < 8; for (auto &d : cur->dl) if (a->dp < d.p + d.n && d.p < a->dp + a->dn) ok = false;
      if (!ok) { r->fired[act]--; r->midcall--; break; }
      Delay d; d.p = a->dp; d.n = a->dn; d.life = target; memcpy(d.old, d.p, d.n); cur->dl.push_back(d); break; }
  case ACT_CANCEL: if (target) cur->kill = true; op_abort(ST_CANCELLED);
  }
}

// ---------------------------------------------------------------- access classification
static u8 *heap_top = HEAP;
static bool in(const u8 *p, const u8 *lo, u64 n) { return (u64)(p - lo) < n; }
u64 g_maxstack; int g_maxstack_fn = -1; static const u64 STKBOUND = 131072;
static void __attribute__((noinline)) envcheck(ActRec *a) {
  if (g_env & M_RES) { u64 d = (u64)(a->stk_lo + a->stk_sz - (u8 *)__builtin_frame_address(0)); if (d < STKSZ) { if (d > g_maxstack) { g_maxstack = d; g_maxstack_fn = a->o ? a->o->fn : -1; } if (d > STKBOUND) viol("stack", fmt("the call uses more than %llu bytes of stack", (unsigned long long)STKBOUND), a); } }
  if (!(g_env & M_ENV)) return;
  if (a->envbad) return; u32 m = _mm_getcsr(); u16 cw; asm volatile("fnstcw %0" : "=m"(cw));
  if ((m & 0xffc0) != a->ctl || cw != a->x87) { a->envbad = true;
    viol("env", fmt("floating-point control state changed inside the call: mxcsr control %04x (caller's %04x), x87 cw %04x (caller's %04x)", m & 0xffc0, a->ctl, cw, a->x87), a); }
}
static void describe_oob(ActRec *a, u8 *q, u32 n, bool w) {
  std::string near = "";
  for (int i = 0; i < a->next_; i++) { i64 d = q - a->ext[i].lo; if (d > -256 && d < (i64)a->ext[i].n + 256) { near = fmt(" (argument extent %d has %u bytes; access at offset %ld)", i, a->ext[i].n, (long)d); break; } }
  viol("oob", fmt("%s of %u bytes outside the argument objects", w ? "write" : "read", n) + near, a);
}
std::map<u64, std::vector<int>> g_touch;            // functions by the piece of module state they touch
static void touch(int fn, u8 *p, u32 n) {
  for (u64 g = (u64)p >> 3; g <= ((u64)p + n - 1) >> 3; g++) { auto &v = g_touch[g]; bool old = v.size() > 400; for (int f : v) old |= f == fn; if (!old) v.push_back(fn); }
}
static void __attribute__((noinline)) access_slow(ActRec *a, u8 *p, u32 n, bool w) {
  u8 *q = p; if (in(p, RO, RWSZ)) q = p - (RO - RW);
  bool arena = in(q, RW, RWSZ), frame = !arena && in(q, a->frame, 4096);
  if (arena || frame) {
    bool covered = false, wok = false;
    for (int i = 0; i < a->next_; i++) { Ext &e = a->ext[i]; if (q >= e.lo && q + n <= e.lo + e.n) { covered = true; if (e.role != R_IN) wok = true; } }
    if (!covered && arena && n > 1) { // spans adjacent arguments?
      covered = true; wok = true;
      for (u32 k = 0; k < n && covered; k++) { bool c = false, ww = false; for (int i = 0; i < a->next_; i++) { Ext &e = a->ext[i]; if (q + k >= e.lo && q + k < e.lo + e.n) { c = true; if (e.role != R_IN) ww = true; } } covered = c; wok = wok && ww; }
    }
    if (covered) {
      if (g_calib && w) for (int i = 0; i < a->next_; i++) if (q < a->ext[i].lo + a->ext[i].n && q + n > a->ext[i].lo) g_wrmask |= 1u << i;
      if (w && !wok && (g_mon & M_IN)) viol("inwrite", fmt("store of %u bytes to an object the call was only given to read", n), a);
      if (g_rand && g_pargs > 0 && a->next > a->steps && !a->noevents && X.ex->rng->chance(g_pargs)) a->next = a->steps;
      return;
    }
    if (frame) return;
    if (g_mon & M_OOB) describe_oob(a, q, n, w);
    return;
  }
  if (in(p, FRM, (u64)NFIB * NDEP * 8192) || in(p, STK, (u64)NFIB * STKSZ)) { // another activation's frame
    if (g_mon & M_OOB) viol("oob", fmt("%s of %u bytes in another activation's stack", w ? "write" : "read", n), a);
    return;
  }
  bool glob = in(p, HEAP, HEAPSZ) || (p >= cut_lo && p < cut_hi) || (tls_sz && in(p, tls_lo, tls_sz));
  if (glob && a->o) { g_hot[a->o->fn]++; if (!in(p, HEAP, HEAPSZ)) touch(a->o->fn, p, n); }
  if (glob && w && n <= 16 && !a->noevents && !g_atomic && X.ex && !(tls_sz && in(p, tls_lo, tls_sz))) {
    a->dp = p; a->dn = n; a->dat = a->steps;
    if (g_tso && cur && !cur->dl.empty()) append_store(p, n);
    else if (g_rand && g_pdelay > 0 && X.ex->rng->chance(g_pdelay)) { int life = 1 + (int)X.ex->rng->below(X.ex->rng->chance(0.5) ? 2 : 6); X.sc->dec.push_back({a->op, a->steps + a->key, ACT_DELAY, life}); take(a, ACT_DELAY, life); }
  }
  if (glob && g_rand && !a->noevents && X.ex->rng->chance(g_pglob)) a->next = a->steps;
}
static std::vector<std::pair<u8 *, u64>> cut_ro;
static inline bool cut_readonly(u8 *p) { for (auto &s : cut_ro) if (in(p, s.first, s.second)) return true; return false; }
static inline __attribute__((always_inline)) void hook(void *p, u32 n, bool w) {
  ActRec *a = A; if (__builtin_expect(!a, 0)) return;
  ++a->steps;
  if ((u64)((u8 *)p - a->stk_lo) >= a->stk_sz) { if (w || !((u8 *)p >= cut_lo && (u8 *)p < cut_hi) || !cut_readonly((u8 *)p)) access_slow(a, (u8 *)p, n, w); }
  if (__builtin_expect(g_env, 0)) envcheck(a);
  if (__builtin_expect(a->steps >= a->next, 0)) event(a);
}
extern "C" {
#define RWH(n) void __tsan_read##n(void *p) { hook(p, n, 0); } void __tsan_write##n(void *p) { hook(p, n, 1); } \
  void __tsan_unaligned_read##n(void *p) { hook(p, n, 0); } void __tsan_unaligned_write##n(void *p) { hook(p, n, 1); } \
  void __tsan_volatile_read##n(void *p) { hook(p, n, 0); } void __tsan_volatile_write##n(void *p) { hook(p, n, 1); } \
  void __tsan_unaligned_volatile_read##n(void *p) { hook(p, n, 0); } void __tsan_unaligned_volatile_write##n(void *p) { hook(p, n, 1); } \
  void __tsan_read_write##n(void *p) { hook(p, n, 1); } void __tsan_unaligned_read_write##n(void *p) { hook(p, n, 1); }
RWH(1) RWH(2) RWH(4) RWH(8) RWH(16)
void __tsan_read_range(void *p, unsigned long n) { hook(p, (u32)n, 0); }
void __tsan_write_range(void *p, unsigned long n) { hook(p, (u32)n, 1); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __sanitizer_cov_trace_pc() {
  ActRec *a = A; u64 i = (u8 *)__builtin_return_address(0) - cut_lo;
  if (i < covmap.size() && !covmap[i]) { covmap[i] = 1; cov_new++; }
  if (!a) return; ++a->steps; if (__builtin_expect(g_env, 0)) envcheck(a); if (__builtin_expect(a->steps >= a->next, 0)) event(a);
}
// comparisons: recorded while the corpus is built, to aim inputs at the constants the code compares with
static inline void cmprec(u64 a, u64 b, int k) { if (g_trace_cmp && A && a != b && g_cmps.size() < 4096) g_cmps.push_back({a, b, k}); }
void __sanitizer_cov_trace_cmpf(float a, float b) { u32 x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); cmprec(x, y, 4); }
void __sanitizer_cov_trace_cmpd(double a, double b) { float f = (float)a, g = (float)b; __sanitizer_cov_trace_cmpf(f, g); }
void __sanitizer_cov_trace_cmp1(u8 a, u8 b) { cmprec(a, b, 1); }
void __sanitizer_cov_trace_cmp2(u16 a, u16 b) { cmprec(a, b, 1); }
void __sanitizer_cov_trace_cmp4(u32 a, u32 b) { cmprec(a, b, 1); }
void __sanitizer_cov_trace_cmp8(u64 a, u64 b) { cmprec(a, b, 1); }
void __sanitizer_cov_trace_const_cmp1(u8 a, u8 b) { cmprec(b, a, 1); }
void __sanitizer_cov_trace_const_cmp2(u16 a, u16 b) { cmprec(b, a, 1); }
void __sanitizer_cov_trace_const_cmp4(u32 a, u32 b) { cmprec(b, a, 1); }
void __sanitizer_cov_trace_const_cmp8(u64 a, u64 b) { cmprec(b, a, 1); }
void __sanitizer_cov_trace_switch(u64 v, u64 *c) { if (g_trace_cmp && A) for (u64 i = 0; i < c[0] && i < 16; i++) cmprec(v, c[2 + i], 1); }
// bulk copies go in pieces so that a call can be interrupted in the middle of one
static void bulk(void *d, const void *s, size_t n, int c, int kind) {
  u8 *D = (u8 *)d; const u8 *S = (const u8 *)s; const size_t K = 8;
  bool back = kind == 1 && D > S && D < S + n;
  if (!A || n > 4096) { if (kind == 2) { for (size_t i = 0; i < n; i++) ((volatile u8 *)D)[i] = (u8)c; } else if (back) for (size_t i = n; i--;) ((volatile u8 *)D)[i] = S[i]; else for (size_t i = 0; i < n; i++) ((volatile u8 *)D)[i] = S[i]; return; }
  size_t done = 0;
  while (done < n) {
    size_t k = std::min(K, n - done), o = back ? n - done - k : done;
    if (kind != 2) hook((void *)(S + o), (u32)k, 0);
    hook(D + o, (u32)k, 1);
    u8 t[8]; if (kind == 2) for (size_t i = 0; i < k; i++) ((volatile u8 *)D)[o + i] = (u8)c; else { for (size_t i = 0; i < k; i++) t[i] = ((const volatile u8 *)S)[o + i]; for (size_t i = 0; i < k; i++) ((volatile u8 *)D)[o + i] = t[i]; }
    done += k;
  }
}
void *sim_memcpy(void *d, const void *s, size_t n) { bulk(d, s, n, 0, 0); return d; }
void *sim_memmove(void *d, const void *s, size_t n) { bulk(d, s, n, 0, 1); return d; }
void *sim_memset(void *d, int c, size_t n) { bulk(d, 0, n, c, 2); return d; }
void *__tsan_memcpy(void *d, const void *s, size_t n) { bulk(d, s, n, 0, 0); return d; }
void *__tsan_memmove(void *d, const void *s, size_t n) { bulk(d, s, n, 0, 1); return d; }
void *__tsan_memset(void *d, int c, size_t n) { bulk(d, 0, n, c, 2); return d; }
void *sim___memcpy_chk(void *d, const void *s, size_t n, size_t) { bulk(d, s, n, 0, 0); return d; }
void *sim___memmove_chk(void *d, const void *s, size_t n, size_t) { bulk(d, s, n, 0, 1); return d; }
void *sim___memset_chk(void *d, int c, size_t n, size_t) { bulk(d, 0, n, c, 2); return d; }
int sim_memcmp(const void *a, const void *b, size_t n) { const u8 *x = (const u8 *)a, *y = (const u8 *)b; for (size_t i = 0; i < n; i++) { hook((void *)(x + i), 1, 0); hook((void *)(y + i), 1, 0); if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; } return 0; }
int sim_bcmp(const void *a, const void *b, size_t n) { return sim_memcmp(a, b, n); }
void *sim_mempcpy(void *d, const void *s, size_t n) { bulk(d, s, n, 0, 0); return (u8 *)d + n; }
void sim_bcopy(const void *s, void *d, size_t n) { bulk(d, s, n, 0, 1); }
void sim_bzero(void *d, size_t n) { bulk(d, 0, n, 0, 2); }
// atomics: executed directly (one OS thread), each one a scheduling point; from release order up they order the thread's earlier stores
} static inline void ahook(void *p, u32 n, bool w, int mo) { g_atomic = true; hook(p, n, w); g_atomic = false; if (w && (mo >= 3 || g_tso)) drain(); }
static inline void shook(void *p, u32 n, int mo) { if (g_tso && mo < 5) hook(p, n, true); else ahook(p, n, true, mo); } // below seq_cst an atomic store is a plain one on x86
 extern "C" {
#define AT(T, N) \
  T __tsan_atomic##N##_load(const volatile T *a, int mo) { ahook((void *)a, N / 8, 0, mo); return *a; } \
  void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { shook((void *)a, N / 8, mo); *a = v; } \
  T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { ahook((void *)a, N / 8, 1, mo); T o = *a; *a = v; return o; } \
  T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) { ahook((void *)a, N / 8, 1, mo); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) { ahook((void *)a, N / 8, 1, mo); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) { ahook((void *)a, N / 8, 1, mo); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) { ahook((void *)a, N / 8, 1, mo); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) { ahook((void *)a, N / 8, 1, mo); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) { ahook((void *)a, N / 8, 1, mo); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int) { ahook((void *)a, N / 8, 1, mo); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int) { ahook((void *)a, N / 8, 1, mo); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T e, T v, int mo, int) { ahook((void *)a, N / 8, 1, mo); T o = *a; if (o == e) *a = v; return o; }
AT(u8, 8) AT(uint16_t, 16) AT(u32, 32) AT(u64, 64)
void __tsan_atomic_thread_fence(int mo) { if (mo >= (g_tso ? 5 : 3)) drain(); }
void __tsan_atomic_signal_fence(int) {}
}

// ---------------------------------------------------------------- seams: resources, locks, time, randomness
static void resource(const char *what) { if (A && (g_mon & M_RES)) viol("resource", std::string("the call acquires a resource: ") + what, A); }
static void seam_point() { ActRec *a = A; if (!a) return; drain(); ++a->steps; if (a->o) g_hot[a->o->fn]++; if (g_rand && !a->noevents && X.ex->rng->chance(g_pseam)) a->next = a->steps; if (a->steps >= a->next) event(a); }
static bool alloc_fails() { return A && X.sc && X.sc->fail_alloc && !A->solo; }
static void *bump(size_t n, size_t al = 16) { u8 *p = (u8 *)(((u64)heap_top + al - 1) & ~(al - 1)); if (p + n > HEAP + HEAPSZ) return nullptr; heap_top = p + n; return p; }
static u64 g_time = 1700000000ull * 1000000000ull, g_rnd = 1;
static void yield_here() { ActRec *a = A; if (!a) return; int t = runnable_other(nullptr, cur->id); if (t < 0) return; g_want = t; to_main(); }
extern "C" {
void *sim_malloc(size_t n) { resource("heap memory (malloc)"); seam_point(); if (alloc_fails()) { errno = ENOMEM; return 0; } size_t *p = (size_t *)bump(n + 16); if (!p) return 0; *p = n; return p + 2; }
void *sim_calloc(size_t a, size_t b) { resource("heap memory (calloc)"); seam_point(); if (alloc_fails()) { errno = ENOMEM; return 0; } size_t *p = (size_t *)bump(a * b + 16); if (!p) return 0; *p = a * b; memset(p + 2, 0, a * b); return p + 2; }
void sim_free(void *) { seam_point(); }
void *sim_realloc(void *o, size_t n) { resource("heap memory (realloc)"); seam_point(); if (alloc_fails()) { errno = ENOMEM; return 0; } size_t *p = (size_t *)bump(n + 16); if (!p) return 0; *p = n; if (o) memcpy(p + 2, o, std::min(n, ((size_t *)o)[-2])); return p + 2; }
void *sim_reallocarray(void *o, size_t a, size_t b) { return sim_realloc(o, a * b); }
void *sim_aligned_alloc(size_t al, size_t n) { resource("heap memory (aligned_alloc)"); seam_point(); if (alloc_fails()) { errno = ENOMEM; return 0; } if (al < 16) al = 16; u8 *p = (u8 *)bump(n + al, al); if (!p) return 0; ((size_t *)(p + al))[-2] = n; return p + al; }
void *sim_memalign(size_t al, size_t n) { return sim_aligned_alloc(al, n); }
void *sim_valloc(size_t n) { return sim_aligned_alloc(4096, n); }
int sim_posix_memalign(void **o, size_t al, size_t n) { void *p = sim_aligned_alloc(al, n); if (!p) return ENOMEM; *o = p; return 0; }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
static int sim_lk(const void *m, bool tryl) {
  resource("a lock"); seam_point(); int id = cur ? cur->id : 99;
  auto it = mutex_owner.find(m);
  while (it != mutex_owner.end() && it->second >= 0) {
    if (tryl) return EBUSY;
    if (!A || it->second == id || A->solo) { if (A) op_abort(ST_STUCK); return 0; }
    cur->waitm = m; cur->state = F_BLOCKED; to_main(); it = mutex_owner.find(m);
  }
  mutex_owner[m] = id; return 0;
}
static int sim_ulk(const void *m) { drain(); mutex_owner[m] = -1; seam_point(); return 0; }
int sim_pthread_mutex_lock(void *m) { return sim_lk(m, false); }
int sim_pthread_mutex_trylock(void *m) { return sim_lk(m, true); }
int sim_pthread_mutex_unlock(void *m) { return sim_ulk(m); }
int sim_pthread_mutex_init(void *m, void *) { mutex_owner[m] = -1; return 0; }
int sim_pthread_mutex_destroy(void *) { return 0; }
int sim_pthread_spin_lock(void *m) { return sim_lk(m, false); }
int sim_pthread_spin_unlock(void *m) { return sim_ulk(m); }
int sim_pthread_spin_init(void *m, int) { mutex_owner[m] = -1; return 0; }
int sim_pthread_rwlock_rdlock(void *m) { return sim_lk(m, false); }
int sim_pthread_rwlock_wrlock(void *m) { return sim_lk(m, false); }
int sim_pthread_rwlock_unlock(void *m) { return sim_ulk(m); }
int sim_mtx_lock(void *m) { sim_lk(m, false); return 0; }
int sim_mtx_unlock(void *m) { return sim_ulk(m); }
int sim_mtx_init(void *m, int) { mutex_owner[m] = -1; return 0; }
int sim_pthread_mutex_timedlock(void *m, const void *) { return sim_lk(m, false); }
int sim_pthread_mutex_clocklock(void *m, int, const void *) { return sim_lk(m, false); }
int sim_pthread_spin_trylock(void *m) { return sim_lk(m, true); }
int sim_pthread_spin_destroy(void *) { return 0; }
int sim_pthread_rwlock_tryrdlock(void *m) { return sim_lk(m, true); }
int sim_pthread_rwlock_trywrlock(void *m) { return sim_lk(m, true); }
int sim_pthread_rwlock_init(void *m, void *) { mutex_owner[m] = -1; return 0; }
int sim_pthread_rwlock_destroy(void *) { return 0; }
int sim_mtx_trylock(void *m) { return sim_lk(m, true) ? 1 : 0; }
int sim_mtx_timedlock(void *m, const void *) { sim_lk(m, false); return 0; }
void sim_mtx_destroy(void *) {}
int sim_pthread_once(int *o, void (*f)()) { if (*o == 2) return 0; sim_lk(o, false); if (*o != 2) { f(); *o = 2; } sim_ulk(o); return 0; }
void sim_call_once(int *o, void (*f)()) { sim_pthread_once(o, f); }
static u64 dirt() { return A ? A->dirt : 0; }   // surroundings the call must not depend on differ between the two runs of C07
unsigned long sim_pthread_self() { return 1000 + (cur ? cur->id : 0) + (dirt() & 0xfff) * 4096; }
unsigned long sim_thrd_current() { return sim_pthread_self(); }
int sim_sched_yield() { seam_point(); yield_here(); return 0; }
void sim_thrd_yield() { sim_sched_yield(); }
static u64 tick() { seam_point(); return (g_time += 1000) + (dirt() >> 4); }
time_t sim_time(time_t *t) { time_t v = tick() / 1000000000; if (t) *t = v; return v; }
clock_t sim_clock() { return tick() / 1000; }
int sim_clock_gettime(int, struct timespec *t) { u64 v = tick(); t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0; }
int sim_gettimeofday(struct timeval *t, void *) { u64 v = tick(); t->tv_sec = v / 1000000000; t->tv_usec = v % 1000000000 / 1000; return 0; }
int sim_nanosleep(const struct timespec *, struct timespec *) { resource("a sleep (nanosleep)"); return sim_sched_yield(); }
int sim_usleep(unsigned) { resource("a sleep (usleep)"); return sim_sched_yield(); }
unsigned sim_sleep(unsigned) { resource("a sleep (sleep)"); return sim_sched_yield(); }
static u64 rnd() { seam_point(); return g_rnd = Rng::mix(g_rnd ^ dirt()); }
int sim_rand() { return rnd() & 0x7fffffff; }
void sim_srand(unsigned s) { seam_point(); g_rnd = s; }
long sim_random() { return rnd() & 0x7fffffff; }
void sim_srandom(unsigned s) { seam_point(); g_rnd = s; }
double sim_drand48() { return (rnd() >> 11) / 9007199254740992.0; }
void sim_srand48(long s) { seam_point(); g_rnd = s; }
long sim_lrand48() { return rnd() & 0x7fffffff; }
int sim_rand_r(unsigned *s) { *s = (unsigned)Rng::mix(*s); return *s & 0x7fffffff; }
char *sim_getenv(const char *) { static char one[] = "1"; seam_point(); return dirt() ? one : nullptr; }
char *sim_secure_getenv(const char *n) { return sim_getenv(n); }
static void *keyval[64][64]; static u64 nkeys;
int sim_pthread_key_create(unsigned *k, void (*)(void *)) { resource("a thread-specific key (pthread_key_create)"); seam_point(); if (alloc_fails() || nkeys >= 64) return EAGAIN; for (auto &f : keyval) f[nkeys] = nullptr; *k = (unsigned)nkeys++; return 0; }
int sim_pthread_key_delete(unsigned) { seam_point(); return 0; }
void *sim_pthread_getspecific(unsigned k) { seam_point(); return k < 64 ? keyval[cur ? cur->id & 63 : 0][k] : nullptr; }
int sim_pthread_setspecific(unsigned k, const void *v) { seam_point(); if (k >= 64) return EINVAL; keyval[cur ? cur->id & 63 : 0][k] = (void *)v; return 0; }
#define FAILING(name, what, ret, err) long sim_##name(...) { resource(what " (" #name ")"); seam_point(); errno = err; return ret; }
FAILING(pthread_create, "a thread", EAGAIN, 0) FAILING(thrd_create, "a thread", 2, 0) FAILING(fork, "a process", -1, EAGAIN) FAILING(vfork, "a process", -1, EAGAIN)
FAILING(sem_init, "a semaphore", 0, 0) FAILING(sem_wait, "a semaphore", 0, 0) FAILING(sem_trywait, "a semaphore", 0, 0) FAILING(sem_post, "a semaphore", 0, 0)
FAILING(pthread_cond_wait, "a condition", 0, 0) FAILING(pthread_cond_timedwait, "a condition", 0, 0) FAILING(pthread_cond_signal, "a condition", 0, 0) FAILING(pthread_cond_broadcast, "a condition", 0, 0)
FAILING(pthread_barrier_wait, "a barrier", 0, 0) FAILING(pthread_setcancelstate, "the cancellation state", 0, 0) FAILING(pthread_setcanceltype, "the cancellation state", 0, 0)
FAILING(sigaction, "a signal handler", -1, EINVAL) FAILING(signal, "a signal handler", -1, EINVAL) FAILING(alarm, "a timer", 0, 0) FAILING(setitimer, "a timer", -1, EINVAL) FAILING(timer_create, "a timer", -1, EAGAIN)
FAILING(sigaltstack, "the signal stack", -1, EINVAL) FAILING(pipe, "a pipe", -1, EMFILE) FAILING(socket, "a socket", -1, EMFILE) FAILING(dup, "a descriptor", -1, EMFILE) FAILING(dup2, "a descriptor", -1, EMFILE) FAILING(creat, "a file", -1, EMFILE)
FAILING(mprotect, "memory protection", -1, ENOMEM) FAILING(madvise, "memory", -1, ENOMEM) FAILING(mlock, "locked memory", -1, ENOMEM) FAILING(brk, "memory", -1, ENOMEM) FAILING(sbrk, "memory", -1, ENOMEM) FAILING(mremap, "memory", -1, ENOMEM)
FAILING(getrandom, "a system call", -1, ENOSYS) FAILING(getentropy, "a system call", -1, ENOSYS) FAILING(poll, "a system call", -1, EINTR) FAILING(select, "a system call", -1, EINTR) FAILING(ioctl, "a system call", -1, EINVAL) FAILING(fcntl, "a system call", -1, EINVAL)
FAILING(setlocale, "the locale", 0, 0) FAILING(dlopen, "a library", 0, 0) FAILING(setenv, "the environment", -1, ENOMEM) FAILING(putenv, "the environment", -1, ENOMEM) FAILING(unsetenv, "the environment", -1, ENOMEM)
FAILING(asprintf, "heap memory", -1, ENOMEM) FAILING(vasprintf, "heap memory", -1, ENOMEM) FAILING(__asprintf_chk, "heap memory", -1, ENOMEM) FAILING(__vasprintf_chk, "heap memory", -1, ENOMEM)
FAILING(tmpfile, "a file", 0, EMFILE) FAILING(fmemopen, "a stream", 0, ENOMEM) FAILING(fopencookie, "a stream", 0, ENOMEM) FAILING(popen, "a process", 0, EMFILE) FAILING(system, "a process", -1, EAGAIN)
FAILING(pthread_join, "a thread", 3, 0) FAILING(pthread_detach, "a thread", 3, 0) FAILING(pthread_kill, "a signal", 3, 0) FAILING(pthread_cancel, "a thread", 3, 0) FAILING(pthread_testcancel, "a cancellation point", 0, 0) FAILING(pthread_atfork, "a fork handler", ENOMEM, 0)
FAILING(atexit, "an exit handler", -1, ENOMEM) FAILING(at_quick_exit, "an exit handler", -1, ENOMEM) FAILING(on_exit, "an exit handler", -1, ENOMEM) FAILING(newlocale, "a locale", 0, ENOMEM) FAILING(duplocale, "a locale", 0, ENOMEM) FAILING(uselocale, "the locale", 0, EINVAL)
FAILING(sem_timedwait, "a semaphore", 0, 0) FAILING(sem_clockwait, "a semaphore", 0, 0) FAILING(sem_open, "a semaphore", 0, EMFILE) FAILING(cnd_wait, "a condition", 0, 0) FAILING(cnd_timedwait, "a condition", 0, 0) FAILING(cnd_signal, "a condition", 0, 0) FAILING(cnd_broadcast, "a condition", 0, 0)
FAILING(clock_nanosleep, "a sleep", 0, 0) FAILING(thrd_sleep, "a sleep", 0, 0) FAILING(pause, "a wait", -1, EINTR) FAILING(sigwait, "a wait", EINTR, 0) FAILING(sigsuspend, "a wait", -1, EINTR) FAILING(eventfd, "a descriptor", -1, EMFILE) FAILING(epoll_create1, "a descriptor", -1, EMFILE) FAILING(timerfd_create, "a descriptor", -1, EMFILE) FAILING(memfd_create, "a descriptor", -1, EMFILE)
FAILING(shm_open, "shared memory", -1, EMFILE) FAILING(shmget, "shared memory", -1, ENOMEM) FAILING(shmat, "shared memory", -1, ENOMEM) FAILING(pread, "a system call", -1, EIO) FAILING(pwrite, "a system call", -1, EIO) FAILING(writev, "a system call", -1, EIO) FAILING(readv, "a system call", -1, EIO) FAILING(send, "a system call", -1, EIO) FAILING(recv, "a system call", -1, EIO) FAILING(mlockall, "locked memory", -1, ENOMEM) FAILING(sched_setaffinity, "the affinity", -1, EINVAL) FAILING(setpriority, "the priority", -1, EINVAL) FAILING(prctl, "a system call", -1, EINVAL)
char *sim_strndup(const char *s, size_t n) { size_t k = strnlen(s, n); char *p = (char *)sim_malloc(k + 1); if (p) { memcpy(p, s, k); p[k] = 0; } return p; }
void sim_perror(const char *);
static void leave(const char *) { if (A) { A->sig = SIGABRT; op_abort(ST_CRASH); } _exit(3); }
void sim_exit(int) { leave("exit"); }
void sim__exit(int) { leave("_exit"); }
void sim_abort() { leave("abort"); }
int sim_raise(int) { leave("raise"); return 0; }
int sim_kill(int, int) { leave("kill"); return 0; }
int sim_open(const char *, int, ...) { resource("a file (open)"); seam_point(); errno = EMFILE; return -1; }
int sim_open64(const char *, int, ...) { resource("a file (open)"); seam_point(); errno = EMFILE; return -1; }
int sim_openat(int, const char *, int, ...) { resource("a file (openat)"); seam_point(); errno = EMFILE; return -1; }
ssize_t sim_read(int, void *, size_t) { resource("a system call (read)"); seam_point(); errno = EIO; return -1; }
ssize_t sim_write(int, const void *, size_t n) { resource("a system call (write)"); seam_point(); viol("stray", fmt("direct write of %zu bytes to a file descriptor", n), A); errno = EIO; return -1; }
int sim_close(int) { seam_point(); return 0; }
void *sim_mmap(void *, size_t n, int, int, int, off_t) { resource("memory (mmap)"); seam_point(); if (alloc_fails()) { errno = ENOMEM; return (void *)-1; } void *p = bump(n, 4096); if (!p) return (void *)-1; memset(p, 0, n); return p; }
int sim_munmap(void *, size_t) { return 0; }
long sim_syscall(long, ...) { resource("a system call (syscall)"); seam_point(); errno = ENOSYS; return -1; }
int sim_sigprocmask(int, const void *, void *) { resource("the signal mask (sigprocmask)"); seam_point(); return 0; }
int sim_pthread_sigmask(int, const void *, void *) { resource("the signal mask (pthread_sigmask)"); seam_point(); return 0; }
}
// ---------------------------------------------------------------- seams: stdio.  The real libc stream is used; each
// call is a scheduling point, and a stream a suspended fiber holds locked (flockfile) blocks the others.
static void file_enter(FILE *f) {
  seam_point(); if (!A) return;
  for (;;) { int own = -1; for (size_t i = 0; i < X.files.size(); i++) if (X.files[i] == f) own = X.fileown[i];
    if (own < 0 || own == cur->id) return;
    cur->waitm = f; cur->state = F_BLOCKED; to_main(); }
}
FILE *(*stream_hook)(int); void (*caller_hook)(const Op &, int, int, bool);
static std::vector<FILE *> memstreams;
static void nonprint(FILE *f) {
  if (!A) return; if (g_mon & M_RES) viol("resource", "the call performs stdio on a stream", A);
  if (!A->o || !stream_hook) return; bool given = false;
  for (auto &a : A->o->a) if (a.k == AF && stream_hook(a.n) == f) given = true;
  for (FILE *m : memstreams) if (m == f) given = true;
  if (!given) viol("stray", "stdio on a stream it was not given", A);
}
#define ENTER_(f) file_enter(f); ActRec *sa_ = A; A = nullptr;
#define ENTER(f) nonprint(f); ENTER_(f)
#define LEAVE(r) A = sa_; return r;
extern "C" {
int sim_vfprintf(FILE *f, const char *s, va_list ap) { ENTER(f) int r = vfprintf(f, s, ap); LEAVE(r) }
int sim_fprintf(FILE *f, const char *s, ...) { va_list ap; va_start(ap, s); int r = sim_vfprintf(f, s, ap); va_end(ap); return r; }
int sim___fprintf_chk(FILE *f, int, const char *s, ...) { va_list ap; va_start(ap, s); int r = sim_vfprintf(f, s, ap); va_end(ap); return r; }
int sim___vfprintf_chk(FILE *f, int, const char *s, va_list ap) { return sim_vfprintf(f, s, ap); }
static void stray_out() { if (A) viol("stray", "output to stdout/stderr or a descriptor that was not given", A); }
int sim_printf(const char *, ...) { stray_out(); return 0; }
int sim___printf_chk(int, const char *, ...) { stray_out(); return 0; }
int sim_vprintf(const char *, va_list) { stray_out(); return 0; }
int sim_puts(const char *) { stray_out(); return 0; }
void sim_perror(const char *) { stray_out(); }
int sim_putchar(int c) { stray_out(); return c; }
int sim_dprintf(int, const char *, ...) { stray_out(); return 0; }
int sim_fputs(const char *s, FILE *f) { ENTER(f) int r = fputs(s, f); LEAVE(r) }
int sim_fputc(int c, FILE *f) { ENTER(f) int r = fputc(c, f); LEAVE(r) }
int sim_putc(int c, FILE *f) { ENTER(f) int r = fputc(c, f); LEAVE(r) }
int sim__IO_putc(int c, FILE *f) { return sim_putc(c, f); }
size_t sim_fwrite(const void *p, size_t a, size_t b, FILE *f) { ENTER(f) size_t r = fwrite(p, a, b, f); LEAVE(r) }
// the unlocked calls wait for nobody and are not atomic: what another thread puts into the buffer between the reading
// and the writing back of the stream's position is overwritten (unless this thread holds the stream's lock)
static bool holds(FILE *f) { for (size_t i = 0; i < X.files.size(); i++) if (X.files[i] == f && cur && X.fileown[i] == cur->id) return true; return false; }
static void unlocked_enter(FILE *f) {
  nonprint(f); if (!A || holds(f)) { seam_point(); return; }
  char *p = f->_IO_write_ptr, *b = f->_IO_write_base; seam_point();
  if (f->_IO_write_base == b && p >= b && p < f->_IO_write_ptr) f->_IO_write_ptr = p;
}
#define UENTER(f) unlocked_enter(f); ActRec *sa_ = A; A = nullptr;
int sim_fputs_unlocked(const char *s, FILE *f) { UENTER(f) int r = fputs(s, f); LEAVE(r) }
int sim_fputc_unlocked(int c, FILE *f) { UENTER(f) int r = fputc(c, f); LEAVE(r) }
int sim_putc_unlocked(int c, FILE *f) { UENTER(f) int r = fputc(c, f); LEAVE(r) }
size_t sim_fwrite_unlocked(const void *p, size_t a, size_t b, FILE *f) { UENTER(f) size_t r = fwrite(p, a, b, f); LEAVE(r) }
int sim_fflush(FILE *f) { if (!f) { seam_point(); if (A) viol("flushall", "fflush(NULL): touches streams that were not given", A); return 0; } ENTER(f) int r = fflush(f); LEAVE(r) }
int sim_fflush_unlocked(FILE *f) { UENTER(f) int r = fflush(f); LEAVE(r) }
int sim_fclose(FILE *f) { for (size_t i = 0; i < memstreams.size(); i++) if (memstreams[i] == f) { memstreams.erase(memstreams.begin() + i); ENTER_(f) int r = fclose(f); LEAVE(r) } seam_point(); viol("stream", "the print closed a stream", A); (void)f; return 0; }
FILE *sim_fopen(const char *, const char *) { resource("a file (fopen)"); seam_point(); errno = EMFILE; return 0; }
FILE *sim_fopen64(const char *, const char *) { return sim_fopen(0, 0); }
FILE *sim_freopen(const char *, const char *, FILE *f) { viol("stream", "the print reopened a stream", A); return f; }
FILE *sim_open_memstream(char **p, size_t *n) { resource("heap memory (open_memstream)"); seam_point(); if (alloc_fails()) { errno = ENOMEM; return 0; } ActRec *s = A; A = nullptr; FILE *f = open_memstream(p, n); A = s; if (f) memstreams.push_back(f); return f; }
int sim_setvbuf(FILE *f, char *b, int m, size_t n) { viol("stream", "the print changed the buffering of the stream", A); ENTER(f) int r = setvbuf(f, b, m, n); LEAVE(r) }
void sim_setbuf(FILE *f, char *b) { sim_setvbuf(f, b, b ? _IOFBF : _IONBF, BUFSIZ); }
void sim_setlinebuf(FILE *f) { sim_setvbuf(f, 0, _IOLBF, 0); }
void sim_clearerr(FILE *f) { ENTER(f) clearerr(f); A = sa_; }
void sim_clearerr_unlocked(FILE *f) { sim_clearerr(f); }
void sim_rewind(FILE *f) { ENTER(f) rewind(f); A = sa_; }
int sim_fseek(FILE *f, long o, int w) { ENTER(f) int r = fseek(f, o, w); LEAVE(r) }
int sim_fseeko(FILE *f, off_t o, int w) { ENTER(f) int r = fseeko(f, o, w); LEAVE(r) }
int sim_fsetpos(FILE *f, const fpos_t *p) { ENTER(f) int r = fsetpos(f, p); LEAVE(r) }
int sim_fwide(FILE *f, int m) { (void)m; (void)f; return 0; }
int sim_ferror(FILE *f) { ENTER(f) int r = ferror(f); LEAVE(r) }
long sim_ftell(FILE *f) { ENTER(f) long r = ftell(f); LEAVE(r) }
int sim_fileno(FILE *f) { ENTER(f) int r = fileno(f); LEAVE(r) }
struct FLock { const void *f; int own, n; };
static std::vector<FLock> flocks;
static void fset(FILE *f, int id) { for (size_t i = 0; i < X.files.size(); i++) if (X.files[i] == f) { X.fileown[i] = id; return; } X.files.push_back(f); X.fileown.push_back(id); }
static std::map<const void *, int> fdepth;
void sim_flockfile(FILE *f) { nonprint(f); file_enter(f); if (A) { fset(f, cur->id); fdepth[f]++; } }
int sim_ftrylockfile(FILE *f) { seam_point(); for (size_t i = 0; i < X.files.size(); i++) if (X.files[i] == f && X.fileown[i] >= 0 && cur && X.fileown[i] != cur->id) return -1; if (A) { fset(f, cur->id); fdepth[f]++; } return 0; }
void sim_funlockfile(FILE *f) { if (A && --fdepth[f] <= 0) { fdepth[f] = 0; fset(f, -1); } seam_point(); }
}

// ---------------------------------------------------------------- crash signals raised by the code under test
static void on_sig(int sig, siginfo_t *si, void *uc) {
  if (sig == SIGSEGV && si->si_code == SI_KERNEL) { // rdtsc and rdtscp are made to trap: they read the simulated time
    greg_t *g = ((ucontext_t *)uc)->uc_mcontext.gregs; const u8 *p = (const u8 *)g[REG_RIP]; int n = p[0] == 0x0f && p[1] == 0x31 ? 2 : p[0] == 0x0f && p[1] == 0x01 && p[2] == 0xf9 ? 3 : 0;
    if (n) { u64 t = (g_time += 40) + (dirt() >> 4); g[REG_RAX] = (u32)t; g[REG_RDX] = (u32)(t >> 32); if (n == 3) g[REG_RCX] = 0; g[REG_RIP] += n; if (A && cur && A->o) g_hot[A->o->fn]++; return; } }
  if (A) { A->sig = sig; A->sigaddr = (u64)si->si_addr; op_abort(ST_CRASH); }
  fprintf(stderr, "dsim: internal signal %d at %p\n", sig, si->si_addr); signal(sig, SIG_DFL); raise(sig);
}

// ---------------------------------------------------------------- scenario memory
u8 *obj_addr(const Obj &o) { return RW + o.off; }
void place(Scenario &sc, Rng &r, int style) {
  // style 0 spaced (some across a page boundary), 1 packed, 2 page edges, 3 mixed
  u64 packed = 0, spaced = (u64)16 * 8192, edge = (u64)512 * 8192; u64 pk = 0; u32 span = SPAN0;
  for (auto &o : sc.objs) {
    int s = style == 3 ? (int)r.below(3) : style; u32 al = o.align ? o.align : 4; if (edge >= (u64)SPAN0 * 8192 - 8192 && s == 2) s = 1;
    if (o.size > 4000) s = 0;
    if (s == 0 && o.size > al && o.size < 4000 && span < NPAGE && r.chance(0.12)) { o.off = (u64)span * 8192 + 4096 - (1 + r.below((o.size - 1) / al)) * al; o.place = 4; span++; continue; } // across a page boundary
    if (s == 1) { u64 inpage = pk % 4096, page = pk / 4096; inpage = (inpage + al - 1) / al * al; if (inpage + o.size > 4096) { page++; inpage = 0; } if (page >= 15) { s = 0; } else { o.off = page * 8192 + inpage; pk = page * 4096 + inpage + o.size; if (pk % 4096 == 0) {} } }
    if (s == 2) { if (r.chance(0.5)) { u32 p = 4096 - o.size; p = p / al * al; o.off = edge + p; } else o.off = edge; edge += 8192; }
    if (s == 0) { u64 inpage = spaced % 8192; u32 need = o.size + 64; inpage = (inpage + 63) / 64 * 64; if (inpage + need > 4096) { spaced = (spaced / 8192 + 1) * 8192; inpage = 64; } o.off = spaced / 8192 * 8192 + inpage; spaced = o.off + o.size + 64; if (spaced % 8192 > 4000) spaced = (spaced / 8192 + 1) * 8192 + 64; }
    o.place = s; (void)packed;
  }
}
void load_objects(const Scenario &sc) {
  if (sc.gapfill) { // pattern in the memory around the objects
    std::set<u64> pages; for (auto &o : sc.objs) pages.insert(o.off / 8192);
    for (u64 p : pages) { u64 *w = (u64 *)(RW + p * 8192); u64 x = sc.gapfill ^ p; for (int i = 0; i < 512; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; w[i] = x ^ (x >> 29); } }
  }
  for (auto &o : sc.objs) memcpy(obj_addr(o), o.init.data(), o.size);
}
int arg_role(int fn, int i) { return T->fns[fn].p[i].role; }
char arg_elem(int fn, int i) { int t = T->fns[fn].p[i].type; return t < 0 ? 'f' : T->types[t].elem; }
u32 arg_size(const Op &o, int i) {
  const cut_param &p = T->fns[o.fn].p[i];
  if (p.kind == K_PTR) return (u32)T->types[p.type].size * p.count;
  if (p.kind == K_ARRN || p.kind == K_PPARR) { u64 n = 0; memcpy(&n, o.a[p.cn].v.data(), o.a[p.cn].v.size()); return (u32)T->types[p.type].size * (u32)n; }
  return 0;
}
static u8 *ref_ptr(const Scenario &sc, const Ref &r) { return RW + sc.objs[r.obj].off + r.off; }
static u32 psize(const Op &o, int i) { return (u32)T->types[T->fns[o.fn].p[i].type].size; }
static Bytes grab(const Scenario &sc, const Op &o, int i) {
  const Arg &a = o.a[i]; Bytes b;
  if (a.k == AO) { u32 n = arg_size(o, i); u8 *p = ref_ptr(sc, a.r); b.assign(p, p + n); }
  else if (a.k == AP) for (auto &r : a.list) { u8 *p = ref_ptr(sc, r); b.insert(b.end(), p, p + psize(o, i)); }
  return b;
}
static void put(const Scenario &sc, const Op &o, int i, const Bytes &b) {
  const Arg &a = o.a[i];
  if (a.k == AO) memcpy(ref_ptr(sc, a.r), b.data(), b.size());
  else if (a.k == AP) { size_t k = 0; for (auto &r : a.list) { memcpy(ref_ptr(sc, r), b.data() + k, psize(o, i)); k += psize(o, i); } }
}

// ---------------------------------------------------------------- running one call
static void __attribute__((noinline)) fill_stack(u64 seed) {
  u64 buf[2048]; volatile u64 *b = buf; if (!seed) { for (int i = 0; i < 2048; i++) b[i] = 0; return; }
  u64 x = seed; int mode = seed & 3;
  for (int i = 0; i < 2048; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; u64 v = x ^ (x >> 31); if (mode == 1) v = 0x7fc000007fc00000ull; else if (mode == 2) { float f[2] = {(float)(i32)(v & 0xffff) / 256.f - 128.f, (float)(i32)((v >> 20) & 0xffff) / 256.f - 128.f}; memcpy(&v, f, 8); } b[i] = v; }
}
static void __attribute__((noinline)) call_w(ActRec *a, void (*w)(void **), void **args, u64 dirty, const u64 *pat) {
  u8 *hi = (u8 *)__builtin_frame_address(0); a->stk_sz = hi - a->stk_lo;
  A = a;
  if (dirty) call_dirty(w, args, pat); else w(args);
  A = nullptr;
}
static bool g_refill = true;
static void call_op(const Scenario &sc, const Op &op, int opi, ActRec *a, Outcome &out, u32 mxcsr, u32 x87, u64 stackfill, u64 dirty, int fiber, int depth, bool isolo) {
  const cut_fn &f = T->fns[op.fn];
  u8 *fr = FRM + (u64)(fiber * NDEP + depth) * 8192; memset(fr, 0, 64 * (f.np + 4)); memset(fr + 2048, 0xA5, 128);
  void **args = (void **)fr; a->frame = fr; a->next_ = 0; a->op = opi; a->o = &op; a->steps = 0; a->dat = 0; a->dp = nullptr; a->dn = 0; a->abort_status = ST_OK; a->solo = isolo; a->envbad = false; a->sig = 0;
  a->stk_lo = F[fiber].lo; out.pre.assign(f.np, Bytes()); out.post.assign(f.np, Bytes()); u32 voff = 256; u8 *pp = fr + 4096;
  for (int i = 0; i < f.np; i++) {
    const Arg &g = op.a[i]; const cut_param &p = f.p[i];
    if (g.k == AV) { memcpy(fr + voff, g.v.data(), g.v.size()); args[i] = fr + voff; voff += (u32)((g.v.size() + 63) / 64 * 64); }
    else if (g.k == AO) { u32 n = arg_size(op, i); u8 *q = ref_ptr(sc, g.r); a->ext[a->next_++] = {q, n, (u8)p.role}; args[i] = (p.role == R_IN && sc.objs[g.r.obj].ro && !isolo) ? q + (RO - RW) : q; out.pre[i].assign(q, q + n); }
    else if (g.k == AP) { u32 n = psize(op, i); pp -= 8 * g.list.size(); u8 **v = (u8 **)pp; for (size_t k = 0; k < g.list.size(); k++) { u8 *q = ref_ptr(sc, g.list[k]); v[k] = (sc.objs[g.list[k].obj].ro && !isolo) ? q + (RO - RW) : q; if (a->next_ < 90) a->ext[a->next_++] = {q, n, R_IN}; } a->ext[a->next_++] = {pp, (u32)(8 * g.list.size()), R_IN}; args[i] = pp; out.pre[i] = grab(sc, op, i); }
    else if (g.k == AF) args[i] = stream_hook ? (void *)stream_hook(g.n) : nullptr;
    else if (g.k == AT) { if (g.null_tag) args[i] = nullptr; else { strcpy((char *)fr + 3072, g.tag.c_str()); args[i] = fr + 3072; } }
  }
  args[f.np] = fr + 2048;
  u64 pat[40]; if (dirty) { Rng pr(dirty); for (auto &x : pat) x = (dirty & 7) == 1 ? 0x7fc000007fc00000ull : pr.u(); }
  a->ctl = mxcsr & 0xffc0; a->x87 = (u16)x87; u16 cw = (u16)x87;
  a->next = g_cap; if (!isolo) { if (g_rand) a->next = std::min(draw_gap(a), g_cap); else { next_replay(a); if (a->next > g_cap) a->next = g_cap; } }
  if (g_refill) fill_stack(stackfill);
  u32 m = mxcsr; if (dirty & 8) m |= 0x3f & (mxcsr >> 7); // pending exception flags (only those that are masked)
  out.mxcsr_in = m; a->dirt = dirty; static const int errs[] = {EDOM, ERANGE, EINTR, ENOMEM, EIO}; int e0 = dirty ? errs[dirty % 5] : 0;
  if (!_setjmp(a->jb)) {
    _mm_setcsr(m); asm volatile("fldcw %0" ::"m"(cw));
    errno = e0; call_w(a, f.w, args, dirty, pat);
    out.mxcsr_out = _mm_getcsr(); u16 c2; asm volatile("fnstcw %0" : "=m"(c2)); out.x87_out = c2;
  } else { A = nullptr; out.mxcsr_out = mxcsr; out.x87_out = x87; }
  drain(); _mm_setcsr(0x1f80); u16 dcw = 0x37f; asm volatile("fldcw %0" ::"m"(dcw));
  out.status = a->abort_status; out.sig = a->sig; out.addr = a->sigaddr; out.steps = a->steps; out.fiber = fiber;
  for (int i = 0; i < f.np; i++) if (op.a[i].k == AO || op.a[i].k == AP) out.post[i] = grab(sc, op, i);
  if (f.ret >= 0 && out.status == ST_OK) out.ret.assign(fr + 2048, fr + 2048 + T->types[f.ret].size);
  if (out.status == ST_OK && est_steps[op.fn] < out.steps) est_steps[op.fn] = out.steps;
}
static ActRec pool[NFIB][NDEP];
static void apply_sets(const Scenario &sc, const Op &o) { for (auto &s : o.sets) memcpy(RW + sc.objs[s.obj].off + s.off, s.v.data(), s.v.size()); }
static bool op_objs(const Op &o, std::vector<int> &v) { for (auto &a : o.a) { if (a.k == AO) v.push_back(a.r.obj); if (a.k == AP) for (auto &r : a.list) v.push_back(r.obj); } for (auto &s : o.sets) v.push_back(s.obj); return true; }
static bool can_lock(int opi) { const Op &o = X.sc->ops[opi]; if (o.retry_of >= 0 && X.res->out[o.retry_of].status == ST_NOTRUN) return false; if (!o.lock) return true; std::vector<int> v; op_objs(o, v); for (int k : v) if (X.lockowner[k] >= 0) return false; return true; }
// the same call again and again with nothing happening in between, without the bookkeeping of call_op
static bool calm(int opi) {
  if (X.sc->ops[opi].dirty) return false; for (auto &g : X.sc->ops[opi].a) if (g.k == AF) return false;
  if (g_rand) { const Policy &p = X.ex->pol; return p.gap == 0 && p.p_arg == 0 && p.p_glob == 0 && p.p_seam == 0 && p.p_delay == 0 && p.pct.empty(); }
  for (auto &d : X.dec[opi]) if (d.first || d.second.first != ACT_SWITCH) return false;
  return true;
}
static void burst(const Op &o, ActRec *a, Outcome &out, const std::vector<Bytes> &keep, u32 mxcsr, u32 x87) {
  const cut_fn &f = T->fns[o.fn]; u8 *fr = a->frame; u32 voff = 256; for (int i = 0; i < f.np; i++) if (o.a[i].k == AV) { memcpy(fr + voff, o.a[i].v.data(), o.a[i].v.size()); voff += (u32)((o.a[i].v.size() + 63) / 64 * 64); }
  Bytes img(fr + 256, fr + voff); std::vector<void *> av((void **)fr, (void **)fr + f.np + 1); u32 rs = f.ret >= 0 ? T->types[f.ret].size : 0; u64 first = out.steps; volatile u32 k = 1;
  std::vector<std::pair<u8 *, const Bytes *>> in; std::vector<std::pair<u8 *, const Bytes *>> po;
  for (int i = 0; i < f.np; i++) if (o.a[i].k == AO) { in.push_back({ref_ptr(*X.sc, o.a[i].r), &keep[i]}); po.push_back({ref_ptr(*X.sc, o.a[i].r), &out.post[i]}); }
  if (!_setjmp(a->jb)) {
    for (; k < o.repeat; k = k + 1) {
      for (auto &p : in) memcpy(p.first, p.second->data(), p.second->size());
      memcpy(fr, av.data(), 8 * av.size()); if (img.size()) memcpy(fr + 256, img.data(), img.size()); memset(fr + 2048, 0xA5, 128);
      X.res->steps += k == 1 ? first : a->steps; a->steps = 0; a->dat = 0; a->dp = nullptr; a->dn = 0; a->next = g_cap;
      u16 cw = (u16)x87; _mm_setcsr(mxcsr); asm volatile("fldcw %0" ::"m"(cw)); errno = 0;
      call_w(a, f.w, (void **)fr, 0, nullptr);
      out.mxcsr_out = _mm_getcsr(); u16 c2; asm volatile("fnstcw %0" : "=m"(c2)); out.x87_out = c2;
      bool same = !rs || !memcmp(fr + 2048, out.ret.data(), rs); for (auto &p : po) same = same && !memcmp(p.first, p.second->data(), p.second->size());
      if (!same) break;
    }
  } else { A = nullptr; out.mxcsr_out = mxcsr; out.x87_out = x87; }
  drain(); _mm_setcsr(0x1f80); u16 dcw = 0x37f; asm volatile("fldcw %0" ::"m"(dcw));
  out.status = a->abort_status; out.sig = a->sig; out.addr = a->sigaddr; out.steps = a->steps;
  for (int i = 0; i < f.np; i++) if (o.a[i].k == AO || o.a[i].k == AP) out.post[i] = grab(*X.sc, o, i);
  if (rs && out.status == ST_OK) out.ret.assign(fr + 2048, fr + 2048 + rs);
}
static void run_op(int opi, bool nested) {
  const Op &o = X.sc->ops[opi]; Fiber *f = cur; ActRec *saved = A; A = nullptr;
  ActRec *a = &pool[f->id][f->depth]; a->prev = saved; a->noevents = false; a->key = 0;
  const Thread &th = X.sc->threads[f->id];
  if (caller_hook && o.delim) caller_hook(o, opi, f->id, false);
  apply_sets(*X.sc, o);
  Outcome &out = X.res->out[opi]; out.order = X.order++; X.res->order.push_back(opi);
  std::vector<Bytes> keep; if (o.repeat > 1) for (size_t i = 0; i < o.a.size(); i++) keep.push_back(o.a[i].k == AO ? grab(*X.sc, o, (int)i) : Bytes());
  call_op(*X.sc, o, opi, a, out, th.mxcsr, th.x87, o.stackfill, o.dirty, f->id, f->depth, false);
  if (o.repeat > 1 && out.status == ST_OK && calm(opi)) burst(o, a, out, keep, th.mxcsr, th.x87);
  else for (u32 k = 1; k < o.repeat && out.status == ST_OK; k++) {
    Outcome prev; std::swap(prev, out); out.order = prev.order; out.fiber = prev.fiber; g_refill = false;
    for (size_t i = 0; i < o.a.size(); i++) if (o.a[i].k == AO) put(*X.sc, o, (int)i, keep[i]);
    a->key = (u64)k << 32; call_op(*X.sc, o, opi, a, out, th.mxcsr, th.x87, o.stackfill, o.dirty, f->id, f->depth, false); g_refill = true; X.res->steps += prev.steps;
    if (out.status != prev.status || out.ret != prev.ret || out.post != prev.post) break;
  }
  if (caller_hook && o.delim) caller_hook(o, opi, f->id, true);
  X.res->steps += out.steps; A = saved;
  // resources of an abandoned call
  if (out.status != ST_OK) for (size_t i = 0; i < X.fileown.size(); i++) if (X.fileown[i] == f->id) { X.fileown[i] = -1; fdepth[X.files[i]] = 0; }
  u64 h[3] = {(u64)opi, out.steps, (u64)out.status}; X.res->hash = fnv(h, sizeof h, X.res->hash);
  X.res->hash = fnv(out.ret.data(), out.ret.size(), X.res->hash); for (auto &b : out.post) X.res->hash = fnv(b.data(), b.size(), X.res->hash);
}
static void boundary(Fiber *f, int opi) {
  int t = -1;
  if (g_rand) { if (X.events < X.ex->pol.max_events && X.ex->rng->chance(X.ex->pol.p_bound) && (t = runnable_other(X.ex->rng, f->id)) >= 0) { X.events++; X.sc->dec.push_back({opi, 0, ACT_SWITCH, t}); } else t = -1; }
  else for (auto &d : X.dec[opi]) if (d.first == 0 && d.second.first == ACT_SWITCH) t = d.second.second;
  if (t >= 0) { u64 h[2] = {(u64)opi, (u64)t}; X.res->hash = fnv(h, sizeof h, X.res->hash); g_want = t; to_main(); }
}
static void fiber_main(Fiber *f) {
  Scenario *sc = X.sc; Thread &th = sc->threads[f->id];
  for (f->pos = 0; f->pos < th.ops.size() && !f->kill; f->pos++) {
    int opi = th.ops[f->pos]; boundary(f, opi);
    while (!can_lock(opi)) { f->waitop = opi; f->state = F_BLOCKED; to_main(); }
    f->waitop = -1; std::vector<int> lk; if (sc->ops[opi].lock) { op_objs(sc->ops[opi], lk); for (int k : lk) X.lockowner[k] = f->id; }
    run_op(opi, false);
    for (int k : lk) X.lockowner[k] = -1;
    if (X.crashed) break;
  }
  f->state = F_DONE; for (;;) to_main();
}
static bool is_runnable(Fiber &f) {
  if (f.state == F_READY) return true; if (f.state != F_BLOCKED) return false;
  if (f.waitop >= 0) return can_lock(f.waitop);
  if (f.waitm) { auto it = mutex_owner.find(f.waitm); if (it != mutex_owner.end() && it->second >= 0) return false; for (size_t i = 0; i < X.files.size(); i++) if (X.files[i] == f.waitm && X.fileown[i] >= 0 && X.fileown[i] != f.id) return false; return true; }
  return true;
}
static int runnable_other(Rng *r, int self) {
  int c[NFIB], n = 0; for (size_t i = 0; i < X.sc->threads.size(); i++) if ((int)i != self && is_runnable(F[i])) c[n++] = (int)i;
  if (!n) return -1; return r ? c[r->below(n)] : c[0];
}
static Bytes data_snap; static std::vector<std::pair<u8 *, u64>> data_seg;
void core_reset() {
  size_t k = 0; for (auto &s : data_seg) { memcpy(s.first, data_snap.data() + k, s.second); k += s.second; }
  if (heap_top != HEAP) { if (heap_top > HEAP + (1 << 20)) madvise(HEAP, HEAPSZ, MADV_DONTNEED); else memset(HEAP, 0, heap_top - HEAP); heap_top = HEAP; }
  mutex_owner.clear(); fdepth.clear(); memstreams.clear(); if (nkeys) { nkeys = 0; memset(keyval, 0, sizeof keyval); } g_time = 1700000000ull * 1000000000ull; g_rnd = 1;
  if (tls_sz) { memcpy(tls_lo, tls_init.data(), tls_sz); tls_cur = nullptr; }
}
Result execute(Scenario &sc, Exec &ex) {
  Result res; res.out.resize(sc.ops.size()); res.hash = 1469598103934665603ull;
  core_reset(); load_objects(sc);
  X = XState(); X.sc = &sc; X.ex = &ex; X.res = &res; X.lockowner.assign(sc.objs.size(), -1);
  if (ex.replay) { X.dec.resize(sc.ops.size()); for (auto &d : sc.dec) if (d.op >= 0 && d.op < (int)sc.ops.size()) X.dec[d.op].push_back({d.step, {d.act, d.target}}); }
  else { sc.dec.clear(); g_pargs = ex.pol.p_arg; g_pglob = ex.pol.p_glob; g_pseam = ex.pol.p_seam; g_pdelay = g_nodelay ? 0 : ex.pol.p_delay; }
  g_rand = !ex.replay; g_mon = ex.mon; g_env = ex.mon & (M_ENV | M_RES); g_cap = ex.cap;
  for (size_t i = 0; i < sc.threads.size(); i++) { prep_fiber(&F[i], fiber_main, 0x1f80, 0x37f); }
  tls_cur = nullptr; if (tls_sz) memcpy(tls_lo, tls_init.data(), tls_sz);
  int last = -1; g_want = 0;
  for (u64 guard = 0; guard < 5000000; guard++) {
    int n = -1;
    if (g_want >= 0 && g_want < (int)sc.threads.size() && is_runnable(F[g_want])) n = g_want;
    g_want = -1;
    if (n < 0 && last >= 0 && is_runnable(F[last])) n = last;
    if (n < 0) for (size_t i = 0; i < sc.threads.size(); i++) if (is_runnable(F[i])) { n = (int)i; break; }
    if (n < 0) { bool any = false; for (size_t i = 0; i < sc.threads.size(); i++) if (F[i].state == F_STALLED) { F[i].state = F_READY; any = true; break; } if (any) continue; break; }
    Fiber *f = &F[n]; if (f->state == F_BLOCKED) { f->state = F_READY; f->waitm = nullptr; }
    last = n; run_fiber(f);
    if (X.crashed) break;
  }
  for (size_t i = 0; i < sc.threads.size(); i++) if (F[i].state != F_DONE && !X.crashed) { res.stuck = true; if (F[i].cur) { res.out[F[i].cur->op].status = ST_STUCK; } }
  for (auto &o : sc.objs) res.final_objs.push_back(Bytes(obj_addr(o), obj_addr(o) + o.size));
  g_total_steps += res.steps; g_rand = false; g_env = 0; g_mon = 0; X.res = nullptr; X.ex = nullptr;
  return res;
}
static struct { const Scenario *sc; int op; const SoloEnv *env; Outcome *out; } S;
static void solo_main(Fiber *f) {
  ActRec *a = &pool[f->id][0]; a->noevents = true;
  call_op(*S.sc, S.sc->ops[S.op], S.op, a, *S.out, S.env->mxcsr, S.env->x87, S.env->stackfill, S.env->dirty, f->id, 0, true);
  f->state = F_DONE; for (;;) to_main();
}
static Result solo_res;
Outcome solo(const Scenario &sc, int op, const std::vector<Bytes> &pre, const SoloEnv &env) {
  Outcome out; if (env.pristine) core_reset();
  const Op &o = sc.ops[op]; for (size_t i = 0; i < o.a.size() && i < pre.size(); i++) if (o.a[i].k == AO || o.a[i].k == AP) put(sc, o, (int)i, pre[i]);
  Scenario *xs = X.sc; X.sc = (Scenario *)&sc; g_rand = false; g_mon = env.mon; g_env = env.mon & (M_ENV | M_RES); solo_res.viol.clear(); X.res = &solo_res;
  S = {&sc, op, &env, &out}; Fiber *f = &F[NFIB - 1]; prep_fiber(f, solo_main, 0x1f80, 0x37f); run_fiber(f); if (f->state != F_DONE) out.status = ST_STUCK;
  X.res = nullptr; g_mon = 0; g_env = 0; X.sc = xs; g_solo_steps += out.steps; return out;
}

// ---------------------------------------------------------------- comparing outcomes
bool same_bytes(const u8 *a, const u8 *b, u32 n, char elem) {
  if (!memcmp(a, b, n)) return true; if (elem != 'f') return false;
  for (u32 i = 0; i + 4 <= n; i += 4) { u32 x, y; memcpy(&x, a + i, 4); memcpy(&y, b + i, 4); if (x == y) continue; if ((x & 0x7fffffff) > 0x7f800000 && (y & 0x7fffffff) > 0x7f800000) continue; return false; }
  return !(n & 3) || !memcmp(a + (n & ~3u), b + (n & ~3u), n & 3);
}
std::string hexs(const Bytes &b) { std::string s; char t[4]; for (u8 x : b) { snprintf(t, 4, "%02x", x); s += t; } return s; }
std::string show(const Bytes &b, char elem) {
  std::string s; char t[64];
  if (elem == 'f' && b.size() % 4 == 0) { for (size_t i = 0; i < b.size(); i += 4) { float x; memcpy(&x, &b[i], 4); snprintf(t, 64, "%s%.9g", i ? "," : "", x); s += t; } return s; }
  if ((elem == 'i' || elem == 'e' || elem == 'u') && b.size() % 4 == 0) { for (size_t i = 0; i < b.size(); i += 4) { int x; memcpy(&x, &b[i], 4); snprintf(t, 64, "%s%d", i ? "," : "", x); s += t; } return s; }
  return hexs(b);
}
bool cmp_out(const cut_fn &f, const Op &o, const Outcome &a, const Outcome &b, std::string &why, bool inputs_too) {
  if (a.status != b.status) { why = fmt("one run ended with status %d, the other with %d", a.status, b.status); return false; }
  if (a.status != ST_OK) return true;
  for (int i = 0; i < f.np; i++) {
    if (a.post[i].empty()) continue; if (!inputs_too && f.p[i].role == R_IN) continue;
    if (a.post[i].size() != b.post[i].size() || !same_bytes(a.post[i].data(), b.post[i].data(), (u32)a.post[i].size(), arg_elem(o.fn, i))) { why = std::string("argument '") + f.p[i].name + "' got [" + show(a.post[i], arg_elem(o.fn, i)) + "], alone it gets [" + show(b.post[i], arg_elem(o.fn, i)) + "]"; return false; }
  }
  if (f.ret >= 0 && !same_bytes(a.ret.data(), b.ret.data(), (u32)a.ret.size(), T->types[f.ret].elem)) { why = "returned [" + show(a.ret, T->types[f.ret].elem) + "], alone it returns [" + show(b.ret, T->types[f.ret].elem) + "]"; return false; }
  return true;
}
u64 cov_count() { u64 n = 0; for (u8 x : covmap) n += x; return n; }

// ---------------------------------------------------------------- start-up
static std::vector<std::pair<u8 *, u64>> cut_text;
static std::string so_name;
static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
  if (!i->dlpi_name || !strstr(i->dlpi_name, so_name.c_str())) return 0;
  u8 *base = (u8 *)i->dlpi_addr; u8 *lo = (u8 *)~0ull, *hi = nullptr; u8 *rl = nullptr; u64 rn = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rl = base + i->dlpi_phdr[k].p_vaddr; rn = i->dlpi_phdr[k].p_memsz; }
  for (int k = 0; k < i->dlpi_phnum; k++) {
    const auto &p = i->dlpi_phdr[k]; u8 *a = base + p.p_vaddr;
    if (p.p_type == PT_LOAD) { lo = std::min(lo, a); hi = std::max(hi, a + p.p_memsz); if (p.p_flags & PF_W) { u8 *s = a; u8 *e = a + p.p_memsz; if (rl && rl <= s && rl + rn > s) { u8 *x = (u8 *)(((u64)(rl + rn)) & ~4095ull); if (x > e) x = e; cut_ro.push_back({s, (u64)(x - s)}); s = x; } if (e > s) data_seg.push_back({s, (u64)(e - s)}); } else { cut_ro.push_back({a, p.p_memsz}); if (p.p_flags & PF_X) cut_text.push_back({a, p.p_memsz}); } }
    if (p.p_type == PT_TLS && p.p_memsz) { tls_sz = p.p_memsz; tls_modid = i->dlpi_tls_modid; }
  }
  cut_lo = lo; cut_hi = hi; return 1;
}
extern "C" void *__tls_get_addr(void *);
bool core_init(const char *so) {
  int fd = memfd_create("arena", 0); if (fd < 0) die("memfd"); if (ftruncate(fd, (NPAGE * 2 - SPAN0) * 4096)) die("ftruncate");
  mapat(RW, RWSZ + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mapat(RO, RWSZ + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  // a guard page before the first data page too
  mapat(RW - 4096, 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < NPAGE; i++) { mapat(RW + (u64)i * 8192, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, (off_t)i * 4096); mapat(RO + (u64)i * 8192, 4096, PROT_READ, MAP_SHARED, fd, (off_t)i * 4096); }
  for (int i = SPAN0; i < NPAGE; i++) { off_t o = (off_t)(NPAGE + i - SPAN0) * 4096; mapat(RW + (u64)i * 8192 + 4096, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, o); mapat(RO + (u64)i * 8192 + 4096, 4096, PROT_READ, MAP_SHARED, fd, o); }
  mapat(FRM, (u64)NFIB * NDEP * 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); for (int i = 0; i < NFIB * NDEP; i++) mapat(FRM + (u64)i * 8192, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mapat(STK, (u64)NFIB * STKSZ, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int i = 0; i < NFIB; i++) { F[i].id = i; F[i].lo = STK + (u64)i * STKSZ; mapat(F[i].lo + 8192, STKSZ - 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
  mapat(HEAP, HEAPSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  void *h = dlopen(so, RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "dsim: %s\n", dlerror()); return false; }
  T = (const cut_table *)dlsym(h, "cut_table"); if (!T) return false;
  so_name = so; size_t sl = so_name.rfind('/'); if (sl != std::string::npos) so_name = so_name.substr(sl + 1);
  dl_iterate_phdr(phdr_cb, nullptr); if (!cut_lo) return false;
  g_tso = !strstr(so, "neon") && !strstr(so, "n32") && !strstr(so, "wasm");
  g_nodelay = !access((std::string(so) + ".fence").c_str(), F_OK); // fences written in assembly are not seen by the hooks: no late stores then
  for (auto &s : data_seg) data_snap.insert(data_snap.end(), s.first, s.first + s.second);
  if (tls_sz) { size_t ix[2] = {tls_modid, 0}; tls_lo = (u8 *)__tls_get_addr(ix); tls_init.assign(tls_lo, tls_lo + tls_sz); for (auto &f : F) f.tls = tls_init; }
  covmap.assign(cut_hi - cut_lo, 0); g_hot.assign(T->nfns, 0); est_steps.assign(T->nfns, 0);
  for (int i = 0; i < T->nfns; i++) fnidx[T->fns[i].name] = i;
  stack_t ss; ss.ss_sp = malloc(1 << 17); ss.ss_size = 1 << 17; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}; for (int s : sg) sigaction(s, &sa, nullptr);
  prctl(PR_SET_TSC, PR_TSC_SIGSEGV);
  return true;
}
// "total" line first: call sites of the coverage hook in the code under test, found by decoding one of them
void cov_dump(const char *p) {
  FILE *f = fopen(p, "wb"); if (!f) return; std::set<u8 *> tg; u64 total = 0;
  for (u64 i = 5; i < covmap.size(); i++) if (covmap[i] && cut_lo[i - 5] == 0xe8) { i32 d; memcpy(&d, cut_lo + i - 4, 4); tg.insert(cut_lo + i + d); if (tg.size() > 4) break; }
  for (auto &t : cut_text) for (u8 *q = t.first; q + 5 <= t.first + t.second; q++) if (*q == 0xe8) { i32 d; memcpy(&d, q + 1, 4); if (tg.count(q + 5 + d)) total++; }
  u32 x = (u32)total; fwrite(&x, 4, 1, f);
  for (u64 i = 0; i < covmap.size(); i++) if (covmap[i]) { x = (u32)i; fwrite(&x, 4, 1, f); } fclose(f);
}
