// Deterministic simulator for cglm: shared declarations.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <csetjmp>
#include "cut.h"
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int32_t i32; typedef int64_t i64;
typedef std::vector<u8> Bytes;

// ---------------------------------------------------------------- randomness
struct Rng {
  u64 s[2];
  static u64 mix(u64 z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  explicit Rng(u64 seed = 0) { s[0] = mix(seed); s[1] = mix(s[0] ^ 0x1234567); }
  u64 u() { u64 a = s[0], b = s[1], r = a + b; b ^= a; s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16); s[1] = (b << 37) | (b >> 27); return r; }
  u32 below(u32 n) { return n ? (u32)(((u64)u_() * n) >> 32) : 0; }
  u32 u_() { return (u32)(u() >> 32); }
  bool chance(double p) { return (u() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double d() { return (u() >> 11) * (1.0 / 9007199254740992.0); }
  int range(int a, int b) { return a + (int)below((u32)(b - a + 1)); }
 private:
};
u64 fnv(const void *p, size_t n, u64 h = 1469598103934665603ull);

// ---------------------------------------------------------------- scenarios
enum ArgKind { AV, AO, AP, AF, AT };              // value, object, pointer array, stream, tag string
struct Ref { int obj = -1; u32 off = 0; };
struct Arg { int k = AV; Bytes v; Ref r; std::vector<Ref> list; int n = 0; std::string tag; bool null_tag = false; };
struct Set { int obj; u32 off; Bytes v; };
struct Op {
  int fn = 0; std::vector<Arg> a; std::vector<Set> sets;
  u64 stackfill = 0;                              // 0: zeros; else seed of the pattern below the caller
  u64 dirty = 0;                                  // != 0: registers and sticky flags dirtied from this seed
  int retry_of = -1;                              // re-run of a cancelled op (same args, inputs re-established)
  bool lock = false;                              // takes the caller's locks on all its objects
  u32 delim = 0;                                  // print scenarios: caller writes around the print
  u32 repeat = 1;                                 // the same call on the same values this many times (stops at the first one that differs)
};
struct Obj { int type = 0, count = 1; u32 size = 0, align = 4; u64 off = 0; bool ro = false; Bytes init; int place = 0; };
struct Thread { std::vector<int> ops; u32 mxcsr = 0x1f80; u32 x87 = 0x37f; };
enum Act_ { ACT_NONE, ACT_SWITCH, ACT_SIGNAL, ACT_CANCEL, ACT_STALL, ACT_DELAY };
struct Decision { int op; u64 step; int act; int target; };
struct DevFault { int at; int kind; int arg; };   // print scenarios: fault on the at-th device operation
struct Stream { int mode = 0; int bufsize = 0; int chunk = 0; std::vector<DevFault> faults; int cap = -1; int crash_at = -1; int freeat = -1; };
struct Scenario {
  std::string prop, variant; u64 seed = 0;
  std::vector<Obj> objs; std::vector<Op> ops; std::vector<Thread> threads; std::vector<int> handlers;
  std::vector<Decision> dec; std::vector<Stream> streams;
  bool fail_alloc = false; u64 gapfill = 0; int kind = 0; bool neighbour = false;
};
enum Status { ST_NOTRUN, ST_OK, ST_CANCELLED, ST_CRASH, ST_CAP, ST_STUCK, ST_STALLED };
struct Outcome {
  int status = ST_NOTRUN; int sig = 0; u64 addr = 0; u64 steps = 0; int order = -1; int fiber = -1;
  u32 mxcsr_in = 0, mxcsr_out = 0, x87_out = 0;
  std::vector<Bytes> pre, post;                   // one per argument (objects), in argument order
  Bytes ret; bool sets_dropped = false;
};
struct Viol { std::string cls, text; int op = -1; u64 step = 0; };
struct Result {
  std::vector<Outcome> out; std::vector<Viol> viol; u64 hash = 0; u64 steps = 0;
  u32 fired[8] = {0}; u32 midcall = 0, insnap = 0; bool stuck = false;
  std::vector<int> order;                         // ops in start (lock) order
  std::vector<Bytes> final_objs;
};

// ---------------------------------------------------------------- policies for live decisions
struct Policy {
  double gap = 50;          // mean steps between candidate events (0 = none)
  double p_arg = 0.02, p_glob = 0.5, p_seam = 0.5, p_bound = 0.3;
  double w_switch = 1, w_signal = 0, w_cancel = 0, w_stall = 0;
  int max_events = 64; double p_delay = 0;   // weakly ordered machines: a plain store to shared state reaches other threads late
  std::vector<u64> pct;     // explicit event points in total steps of the run (PCT style)
};
enum MonFlags { M_IN = 1, M_OOB = 2, M_ENV = 4, M_RES = 8 };
struct Exec { const Scenario *sc; bool replay = true; Rng *rng = nullptr; Policy pol; u32 mon = 0; u64 cap = 400000; };

// ---------------------------------------------------------------- engine interface
extern const cut_table *T;
extern std::map<std::string, int> fnidx;
bool core_init(const char *so);
void core_reset();                                // pristine module state, empty heap
Result execute(Scenario &sc, Exec &ex);           // in record mode appends to sc.dec
struct SoloEnv { u32 mxcsr = 0x1f80, x87 = 0x37f; u64 stackfill = 0, dirty = 0; bool pristine = true; u32 mon = 0; };
// Runs op alone with its objects at their scenario addresses holding pre; leaves objects modified.
Outcome solo(const Scenario &sc, int op, const std::vector<Bytes> &pre, const SoloEnv &env);
u8 *obj_addr(const Obj &o);
void place(Scenario &sc, Rng &r, int style);      // assigns offsets
void load_objects(const Scenario &sc);
extern std::vector<u32> g_hot;                      // per function: accesses to writable module state, heap or seams seen so far
extern std::map<u64, std::vector<int>> g_touch;     // functions by the piece of module state they touch
extern bool g_trace_cmp; struct CmpRec { u64 a, b; int kind; }; extern std::vector<CmpRec> g_cmps; // kind 4: float, 8: double, 1: integer
u64 cov_count(); extern u64 cov_new;              // coverage: distinct call sites of trace_pc reached
extern u64 g_solo_steps, g_total_steps; u64 est_of(int fn); // longest call of this function seen so far
extern u8 *cut_lo, *cut_hi;
bool in_cut_call();
u32 arg_size(const Op &o, int i);                 // bytes of the object behind argument i in this op
int arg_role(int fn, int i);
bool same_bytes(const u8 *a, const u8 *b, u32 n, char elem);
bool cmp_out(const cut_fn &f, const Op &o, const Outcome &a, const Outcome &b, std::string &why, bool inputs_too);
char arg_elem(int fn, int i);
std::string hexs(const Bytes &b);
std::string show(const Bytes &b, char elem);

// print support
struct Dev;
void print_begin(const Scenario &sc); void print_end();
FILE *print_stream(int idx);
void print_caller(const Op &o, int opi, int fiber, bool after);
extern FILE *(*stream_hook)(int);
extern void (*caller_hook)(const Op &, int, int, bool);
extern int g_crashed_device;
