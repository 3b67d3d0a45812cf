// Scenario construction and oracles for C01..C10, replay files and minimisation.
#include "modes.h"
#include <cstdlib>
#include <cmath>
#include <algorithm>
#include <immintrin.h>
std::map<std::string, u64> g_counts;
static u32 mon_for(const std::string &p) { if (p == "C02") return M_IN; if (p == "C03") return M_OOB; if (p == "C08") return M_ENV; if (p == "C09") return M_RES; return 0; }
static u64 cap_for(const std::string &p) { return is_print_prop(p) ? 100000 : p == "C09" ? 60000 : 400000; }
Exec replay_exec(const Scenario &sc) { Exec e; e.sc = &sc; e.replay = true; e.mon = mon_for(sc.prop); e.cap = cap_for(sc.prop); return e; }
static u32 rand_mxcsr(Rng &r) { u32 m = 0x1f80; m |= r.below(4) << 13; if (r.chance(0.4)) m |= 0x8000; if (r.chance(0.4)) m |= 0x40; if (r.chance(0.12)) m &= ~(1u << (7 + r.below(5))); return m; }
static u32 rand_x87(Rng &r) { return 0x007f | ((r.chance(0.5) ? 3 : 2 * r.below(2)) << 8) | (r.below(4) << 10); }

static void policy(Exec &ex, Rng &r, double sw, double sg, double ca, double st) {
  Policy &p = ex.pol; p.w_switch = sw; p.w_signal = sg; p.w_cancel = ca; p.w_stall = st;
  int x = r.below(10);
  p.gap = x < 3 ? -1 : x < 4 ? 1 : x < 6 ? 4 : x < 8 ? 20 : x < 9 ? 120 : 0;
  p.p_arg = r.chance(0.5) ? 0.15 : r.chance(0.5) ? 0.6 : 0; p.p_glob = r.chance(0.8) ? 0.5 : 0.1; p.p_seam = 0.5; p.p_bound = r.chance(0.5) ? 0.4 : 0.05; p.max_events = r.chance(0.3) ? 6 : 80;
  if (p.gap == 0 && p.p_arg == 0) p.p_arg = 0.3;
}
// ARM and WebAssembly order neither stores nor loads of different addresses, x86 lets stores wait in order: plain stores to shared state may arrive late
static void weak(const Builder &b, Exec &ex, Rng &r) { (void)b; if (r.chance(0.6)) ex.pol.p_delay = r.chance(0.5) ? 0.5 : 0.12; }
static bool hot(int fn, Rng &r) { return g_hot[fn] && r.chance(0.5); }
static int new_thread(Builder &b) { b.sc.threads.emplace_back(); return (int)b.sc.threads.size() - 1; }
static void finish(Builder &b, Rng &r, int style) { place(b.sc, r, style < 0 ? (int)r.below(4) : style); }

static bool build_threads(int fn, Rng &r, Builder &b, Exec &ex, const std::string &prop) {
  bool hostile = prop == "C09"; bool busy = hot(fn, r) && prop != "C03"; int nt = prop == "C03" ? r.range(1, 3) : r.range(2, 4); if (prop == "C09" && r.chance(0.4)) nt = 1;
  double share = prop == "C02" ? 0.85 : r.chance(0.5) ? 0.7 : 0.3, ropr = prop == "C02" ? 0.7 : prop == "C03" ? 0 : 0.1, alias = prop == "C02" ? 0.05 : 0.15;
  Vals v0 = G.pick(fn, r, hostile);
  for (int t = 0; t < nt; t++) {
    int id = new_thread(b), n = r.range(1, prop == "C09" ? 2 : busy ? 10 : 3);
    for (int k = 0; k < n; k++) {
      int f = fn; Vals v = v0;
      if (t || k) { int x = r.below(100); if (x < 55) { f = fn; if (r.chance(0.6)) v = G.pick(fn, r, hostile); else if (r.chance(0.6)) G.mutate(fn, v, r, true); } else { f = G.partner(fn, r); v = f == fn ? v0 : G.pick(f, r, hostile); } }
      int o = b.op(f, id, v, share, alias, ropr, r.chance(0.5)); b.sc.threads[id].ops.push_back(o);
    }
    if (prop == "C08") { b.sc.threads[id].mxcsr = r.chance(0.1) ? 0x1f80 : rand_mxcsr(r); b.sc.threads[id].x87 = rand_x87(r); }
  }
  u64 fill = r.chance(0.5) ? 0 : r.u(); for (auto &o : b.sc.ops) o.stackfill = fill;
  if (prop == "C09") { b.sc.fail_alloc = true; policy(ex, r, 1, 0, 0, 1.5); }
  else if (prop == "C05") policy(ex, r, 1, 0, 1.2, 0);
  else policy(ex, r, 1, 0, 0, 0);
  if (prop == "C01") weak(b, ex, r);
  if (prop == "C03") b.sc.gapfill = r.u() | 1;
  finish(b, r, prop == "C03" ? (r.chance(0.6) ? 1 : r.chance(0.5) ? 2 : 3) : -1);
  return true;
}
static bool build_signals(int fn, Rng &r, Builder &b, Exec &ex) {
  int id = new_thread(b); Vals v0 = G.pick(fn, r, false); double share = r.chance(0.5) ? 0.6 : 0; bool busy = hot(fn, r);
  int n = r.range(1, 3), nh = r.range(1, 5);
  for (int k = 0; k < n; k++) { int f = (k == 0 || r.chance(0.6)) ? fn : G.partner(fn, r); Vals v = k == 0 ? v0 : G.pick(f, r, false); b.sc.threads[id].ops.push_back(b.op(f, id, v, share, 0.15, 0.1, r.chance(0.5))); }
  for (int k = 0; k < nh; k++) { int f = r.chance(0.6) ? fn : G.partner(fn, r); Vals v = G.pick(f, r, false); if (f == fn && r.chance(0.3)) { v = v0; G.mutate(fn, v, r, true); } b.sc.handlers.push_back(b.op(f, 100 + k, v, share, 0.15, 0.1)); if (busy && r.chance(0.5)) b.sc.ops.back().repeat = r.chance(0.7) ? r.range(2, 40) : r.range(40, 300); }
  if (r.chance(0.3)) { int t2 = new_thread(b); Vals v = G.pick(fn, r, false); b.sc.threads[t2].ops.push_back(b.op(fn, t2, v, share, 0.15, 0.1)); }
  u64 fill = r.chance(0.5) ? 0 : r.u(); for (auto &o : b.sc.ops) o.stackfill = fill;
  policy(ex, r, 0.2, 1, 0, 0); ex.pol.max_events = 12; finish(b, r, -1); return true;
}
static bool has_dom_len(int fn) { const cut_fn &F = T->fns[fn]; for (int i = 0; i < F.np; i++) if (F.p[i].dom == D_LEN || F.p[i].dom == D_LEN2) return true; return false; }
// the values with which op's in/inout objects are re-established before a retry
static bool build_cancel(int fn, Rng &r, Builder &b, Exec &ex) {
  int nt = r.range(1, 3); double share = r.chance(0.5) ? 0.6 : 0.2; int rt = r.chance(0.6) ? 0 : r.below(nt);
  std::vector<int> firsts;
  for (int t = 0; t < nt; t++) {
    int id = new_thread(b), n = t == 0 && rt ? 1 : r.range(1, 2);
    for (int k = 0; k < n; k++) {
      int f = (t == 0 && k == 0) || r.chance(0.6) ? fn : G.partner(fn, r); Vals v = G.pick(f, r, false);
      int o = b.op(f, id, v, share, 0.15, 0, r.chance(0.3)); b.sc.threads[id].ops.push_back(o); if (t == 0 && k == 0) firsts.push_back(o);
    }
  }
  // retry of the first op (once or twice), on the same thread or on another one
  int base = firsts[0], reps = r.range(1, 2);
  for (int k = 0; k < reps; k++) {
    Op o = b.sc.ops[base]; o.retry_of = base; o.sets.clear(); const cut_fn &F = T->fns[o.fn];
    for (int i = 0; i < F.np; i++) if (o.a[i].k == AO) {
      int ob = o.a[i].r.obj; bool written = false, in = false; for (int j = 0; j < F.np; j++) if (o.a[j].k == AO && o.a[j].r.obj == ob) { written |= F.p[j].role != R_IN; in |= F.p[j].role != R_OUT; }
      if (written && in) o.sets.push_back({ob, 0, b.sc.objs[ob].init});
    }
    b.sc.ops.push_back(o); int id = (int)b.sc.ops.size() - 1; auto &ops = b.sc.threads[rt].ops;
    // on the same thread: right after the first; otherwise at the end of the other thread
    if (rt == 0) ops.insert(ops.begin() + 1 + k, id); else ops.push_back(id);
  }
  u64 fill = r.chance(0.5) ? 0 : r.u(); for (auto &o : b.sc.ops) o.stackfill = fill;
  policy(ex, r, 0.6, 0, 1.5, 0); if (r.chance(0.7)) ex.pol.max_events = r.range(1, 5); if (r.chance(0.5)) { ex.pol.gap = -1; ex.pol.w_switch = 0.1; } finish(b, r, -1); return true;
}
// a few bursts past 2^20 and 2^24 calls, as far as the step budget of this process goes
static void far_repeat(Op &o, Rng &r) {
  static u64 left = 900000000; u64 per = est_of(o.fn) + 20, n = r.chance(0.3) ? 16800000 : 1100000;
  if (n * per > left) n = 1100000; if (n * per > left) return;
  left -= n * per; o.repeat = (u32)n + r.below(50); g_counts["probe_far_bursts"]++;
}
// histories aimed at code that keeps state: very long, or the same call again and again
static bool build_long(int fn, Rng &r, Builder &b, Exec &ex, int round) {
  int nt = r.chance(0.8) ? 1 : 2; for (int t = 0; t < nt; t++) new_thread(b);
  bool rep = r.chance(0.35); int n = rep ? r.range(2, 6) : r.chance(0.3) ? r.range(800, 3000) : r.range(60, 400); static const u32 reps[] = {300, 1100, 5000, 66000, 140000};
  int np = r.chance(0.5) ? 1 : r.range(2, 5); double pw = np > 2 ? 0.6 : 0.2; std::vector<int> fs = {fn}; for (int k = 1; k < np; k++) fs.push_back(G.partner(fn, r));
  std::vector<std::vector<Vals>> seen(np); std::vector<int> op0(np, -1); double mut = r.chance(0.5) ? 0.9 : 0.4; (void)round;
  for (int k = 0; k < n; k++) {
    int w = np > 1 && r.chance(pw) ? r.below((u32)np) : 0, f = fs[w], t = r.below(nt); Vals v;
    if (seen[w].empty() || r.chance(0.2)) v = G.pick(f, r, false); else { v = seen[w][r.chance(0.7) ? seen[w].size() - 1 : r.below((u32)seen[w].size())]; if (r.chance(mut)) { G.mutate(f, v, r, true); if (r.chance(0.2)) G.mutate(f, v, r, false); } }
    seen[w].push_back(v);
    if (op0[w] >= 0 && !has_dom_len(f)) {
      Op o = b.sc.ops[op0[w]]; o.sets.clear(); const cut_fn &F = T->fns[f];
      for (int i = 0; i < F.np; i++) { if (o.a[i].k == AV) o.a[i].v = v[i]; else if (o.a[i].k == AO && F.p[i].role != R_OUT) o.sets.push_back({o.a[i].r.obj, o.a[i].r.off, v[i]}); }
      b.sc.ops.push_back(o);
    } else { if (has_dom_len(f) && k > 200) break; op0[w] = b.op(f, 0, v, 0, 0.05, 0, r.chance(0.6)); }
    Op &o = b.sc.ops.back(); o.lock = true; if (rep && !w) o.repeat = reps[r.below(r.chance(0.3) ? 5 : 3)] + r.below(50); if (rep && !w && r.chance(0.05)) far_repeat(o, r); b.sc.threads[t].ops.push_back((int)b.sc.ops.size() - 1);
  }
  policy(ex, r, 1, 0, 0, 0); ex.pol.gap = 0; ex.pol.p_arg = 0; ex.pol.p_glob = 0; ex.pol.p_seam = 0; ex.pol.p_bound = nt > 1 ? 0.4 : 0; ex.pol.max_events = 5000;
  finish(b, r, 0); return true;
}
// many abandoned calls, then calls that must be unaffected
static bool build_storm(int fn, Rng &r, Builder &b, Exec &ex) {
  int nt = r.range(1, 3); double share = r.chance(0.5) ? 0.6 : 0.2; Vals v0 = G.pick(fn, r, false);
  for (int t = 0; t < nt; t++) { int id = new_thread(b), n = t ? r.range(2, 8) : r.range(4, 14);
    for (int k = 0; k < n; k++) { int f = r.chance(0.85) ? fn : G.partner(fn, r); Vals v = f == fn && r.chance(0.4) ? v0 : G.pick(f, r, false); b.sc.threads[id].ops.push_back(b.op(f, id, v, share, 0.1, 0, r.chance(0.3))); } }
  u64 fill = r.chance(0.5) ? 0 : r.u(); for (auto &o : b.sc.ops) o.stackfill = fill;
  policy(ex, r, 0.3, 0, 1.5, 0); ex.pol.max_events = r.range(4, 30); if (r.chance(0.5)) ex.pol.gap = -1; ex.pol.p_glob = 0.3; finish(b, r, -1); return true;
}
static bool build_history(int fn, Rng &r, Builder &b, Exec &ex, int round) {
  int nt = r.chance(0.75) ? 1 : 2; for (int t = 0; t < nt; t++) new_thread(b);
  bool marathon = round % 12 == 11; int n = marathon ? r.range(120, 300) : r.range(3, 24);
  std::vector<int> pool; pool.push_back(fn); int np = r.range(1, 4); for (int k = 0; k < np; k++) pool.push_back(G.partner(fn, r));
  if (marathon) { pool.resize(1); if (r.chance(0.3)) pool.push_back(G.partner(fn, r)); }
  std::vector<std::vector<int>> prev(pool.size()); std::vector<Vals> last(pool.size());
  for (int k = 0; k < n; k++) {
    int w = r.chance(0.6) ? 0 : r.below((u32)pool.size()); int f = pool[w], t = r.below(nt); Vals v;
    if (last[w].empty() || r.chance(0.3)) v = G.pick(f, r, false); else { v = last[w]; if (r.chance(0.75)) G.mutate(f, v, r, true); }
    last[w] = v;
    // often the same objects again, refilled: an old op's argument list with new values
    std::vector<int> cand; for (int o : prev[w]) cand.push_back(o);
    if (!cand.empty() && r.chance(marathon ? 0.97 : 0.7) && !has_dom_len(f)) {
      Op o = b.sc.ops[cand[r.chance(0.6) ? cand.size() - 1 : r.below((u32)cand.size())]]; o.sets.clear(); const cut_fn &F = T->fns[f];
      for (int i = 0; i < F.np; i++) { if (o.a[i].k == AV) o.a[i].v = v[i]; else if (o.a[i].k == AO && F.p[i].role != R_OUT) { if (!b.sc.objs[o.a[i].r.obj].ro) { if (r.chance(0.93)) o.sets.push_back({o.a[i].r.obj, o.a[i].r.off, v[i]}); } } }
      b.sc.ops.push_back(o); 
    } else { // an object of another op holding a different value at the same address
      b.op(f, 0, v, 0, 0.15, 0, r.chance(0.6));
      Op &o = b.sc.ops.back(); const cut_fn &F = T->fns[f]; for (int i = 0; i < F.np; i++) if (o.a[i].k == AO && F.p[i].role != R_OUT && !b.sc.objs[o.a[i].r.obj].ro && r.chance(0.9)) o.sets.push_back({o.a[i].r.obj, o.a[i].r.off, v[i]});
    }
    int id = (int)b.sc.ops.size() - 1; prev[w].push_back(id); b.sc.ops[id].lock = true; b.sc.threads[t].ops.push_back(id);
  }
  policy(ex, r, 1, 0, 0, 0); ex.pol.gap = 0; ex.pol.p_arg = 0; ex.pol.p_glob = 0; ex.pol.p_seam = 0; ex.pol.p_bound = nt > 1 ? 0.4 : 0; ex.pol.max_events = 1000;
  finish(b, r, -1); return true;
}
static bool build_shared(int fn, Rng &r, Builder &b, Exec &ex) {
  int nt = r.range(2, 4); for (int t = 0; t < nt; t++) new_thread(b);
  int n = r.range(4, 14); std::vector<int> fs = {fn}; for (int k = r.range(1, 4); k > 0; k--) fs.push_back(G.partner(fn, r));
  Vals v0 = G.pick(fn, r, false); bool busy = hot(fn, r);
  for (int k = 0; k < n; k++) {
    int f = r.chance(0.5) ? fn : fs[r.below((u32)fs.size())], t = r.below(nt); Vals v = f == fn && r.chance(0.5) ? v0 : G.pick(f, r, false);
    int id = b.op(f, 0, v, 0, 0.35, 0, r.chance(0.85)); Op &o = b.sc.ops[id]; o.lock = true; if (busy && r.chance(0.4)) o.repeat = r.chance(0.7) ? r.range(2, 40) : r.range(40, 300);
    if (r.chance(0.4)) { const cut_fn &F = T->fns[f]; for (int i = 0; i < F.np; i++) if (o.a[i].k == AO && F.p[i].role != R_OUT && r.chance(0.5)) { Vals w = v; G.mutate(f, w, r, true); if (w[i].size() == v[i].size()) o.sets.push_back({o.a[i].r.obj, o.a[i].r.off, w[i]}); } }
    b.sc.threads[t].ops.push_back(id);
  }
  for (auto &th : b.sc.threads) if (th.ops.empty()) { Vals v = G.pick(fn, r, false); int id = b.op(fn, 0, v, 0, 0.3, 0, true); b.sc.ops[id].lock = true; th.ops.push_back(id); }
  policy(ex, r, 1, 0, 0, 0.05); ex.pol.p_bound = 0.6; finish(b, r, -1); return true;
}
static bool build_leftover(int fn, Rng &r, Builder &b, Exec &ex) {
  // two runs of the same call in differently dirtied surroundings; outputs start from complementary fills
  Vals v = G.pick(fn, r, false); new_thread(b); const cut_fn &F = T->fns[fn];
  int o1 = b.op(fn, 0, v, 0, 0.15, 0); int n1 = (int)b.sc.objs.size();
  for (int k = 0; k < n1; k++) { Obj o = b.sc.objs[k]; b.sc.objs.push_back(o); b.owner.push_back(0); }
  Op o2 = b.sc.ops[o1]; for (auto &a : o2.a) { if (a.k == AO) a.r.obj += n1; if (a.k == AP) for (auto &x : a.list) x.obj += n1; }
  std::vector<int> pureout(n1, -1);
  for (int i = 0; i < F.np; i++) if (b.sc.ops[o1].a[i].k == AO) { int ob = b.sc.ops[o1].a[i].r.obj; if (F.p[i].role == R_OUT) { if (pureout[ob] < 0) pureout[ob] = 1; } else pureout[ob] = 0; }
  u64 fs = r.u(); int mode = r.below(3);
  for (int k = 0; k < n1; k++) if (pureout[k] == 1) for (size_t i = 0; i < b.sc.objs[k].init.size(); i++) { u8 x = mode == 0 ? b.sc.objs[k].init[i] : mode == 1 ? 0 : (u8)(fs >> ((i & 7) * 8)); b.sc.objs[k].init[i] = x; b.sc.objs[k + n1].init[i] = ~x; }
  b.sc.ops[o1].stackfill = r.chance(0.5) ? 0 : r.u(); b.sc.ops[o1].dirty = 0; o2.stackfill = r.u() | 1; o2.dirty = r.u() | 1;
  b.sc.ops.push_back(o2); b.sc.threads[0].ops = {0, 1}; (void)ex;
  ex.pol.gap = 0; ex.pol.max_events = 0; finish(b, r, 3); return true;
}
bool build(const std::string &prop, int fn, Rng &r, Scenario &sc, Exec &ex, int round) {
  Builder b(r); bool ok; b.sc.prop = prop; b.sc.variant = sc.variant;
  if ((prop == "C06" || (prop == "C10" && r.chance(0.5))) && hot(fn, r)) { ok = build_long(fn, r, b, ex, round); g_counts["probe_long_histories"]++; } else if (prop == "C05" && hot(fn, r)) { ok = build_storm(fn, r, b, ex); g_counts["probe_storms"]++; } else
  if (prop == "C04") ok = build_signals(fn, r, b, ex); else if (prop == "C05") ok = build_cancel(fn, r, b, ex); else if (prop == "C06") ok = build_history(fn, r, b, ex, round);
  else if (prop == "C07") ok = build_leftover(fn, r, b, ex); else if (prop == "C10") ok = build_shared(fn, r, b, ex); else ok = build_threads(fn, r, b, ex, prop);
  sc = b.sc; sc.prop = prop; ex.replay = false; ex.mon = mon_for(prop); ex.cap = cap_for(prop); return ok;
}

// ---------------------------------------------------------------- oracles
typedef std::vector<Bytes> Mem;
static Bytes take_arg(const Scenario &sc, const Op &o, int i, const Mem &m) {
  const Arg &a = o.a[i]; Bytes b; if (a.k == AO) { u32 n = arg_size(o, i); b.assign(m[a.r.obj].begin() + a.r.off, m[a.r.obj].begin() + a.r.off + n); }
  else if (a.k == AP) { u32 n = T->types[T->fns[o.fn].p[i].type].size; for (auto &r : a.list) b.insert(b.end(), m[r.obj].begin() + r.off, m[r.obj].begin() + r.off + n); } return b;
}
static Found mk(const char *cls, int op, const std::string &t) { Found f; f.any = true; f.cls = cls; f.op = op; f.text = t; return f; }
static std::string opname(const Scenario &sc, int op) { return "call #" + std::to_string(op) + " " + fname(sc.ops[op].fn); }
static SoloEnv env_of(const Scenario &sc, const Op &o, int fiber) { SoloEnv e; if (fiber >= 0 && fiber < (int)sc.threads.size()) { e.mxcsr = sc.threads[fiber].mxcsr; e.x87 = sc.threads[fiber].x87; } e.stackfill = o.stackfill; e.dirty = 0; return e; }

static Found judge_leftover(Scenario &sc) {
  Found none; if (sc.ops.size() < 2) return none; Outcome oc[2]; load_objects(sc);
  for (int k = 0; k < 2; k++) { std::vector<Bytes> pre; Mem m; for (auto &o : sc.objs) m.push_back(o.init); for (size_t i = 0; i < sc.ops[k].a.size(); i++) pre.push_back(take_arg(sc, sc.ops[k], (int)i, m)); SoloEnv e; e.stackfill = sc.ops[k].stackfill; e.dirty = sc.ops[k].dirty; oc[k] = solo(sc, k, pre, e); }
  const Op &a = sc.ops[0]; const cut_fn &F = T->fns[a.fn];
  if (oc[0].status != oc[1].status) return mk("leftover", 1, opname(sc, 1) + ": ends differently depending on leftover memory, registers or placement");
  if (oc[0].status != ST_OK) return none;
  for (int i = 0; i < F.np; i++) {
    if (a.a[i].k != AO || F.p[i].role == R_IN) continue; char el = arg_elem(a.fn, i); Bytes &p0 = oc[0].post[i], &p1 = oc[1].post[i], &q0 = oc[0].pre[i], &q1 = oc[1].pre[i]; bool pure = q0 != q1;
    if (!pure) { if (!same_bytes(p0.data(), p1.data(), (u32)p0.size(), el)) return mk("leftover", 1, opname(sc, 1) + ": argument '" + F.p[i].name + "' becomes [" + show(p1, el) + "] in dirtied surroundings, [" + show(p0, el) + "] in clean ones"); continue; }
    u32 w = el == 'f' || el == 'i' ? 4 : 1;
    for (size_t k = 0; k + w <= p0.size(); k += w) {
      bool untouched = !memcmp(&p0[k], &q0[k], w) && !memcmp(&p1[k], &q1[k], w);
      if (untouched || same_bytes(&p0[k], &p1[k], w, el)) continue;
      return mk("leftover", 1, opname(sc, 1) + ": output '" + F.p[i].name + "' depends on leftovers: [" + show(p1, el) + "] against [" + show(p0, el) + "] (prior contents [" + show(q1, el) + "] and [" + show(q0, el) + "])");
    }
  }
  if (F.ret >= 0 && !same_bytes(oc[0].ret.data(), oc[1].ret.data(), (u32)oc[0].ret.size(), T->types[F.ret].elem)) return mk("leftover", 1, opname(sc, 1) + ": returns [" + show(oc[1].ret, T->types[F.ret].elem) + "] in dirtied surroundings, [" + show(oc[0].ret, T->types[F.ret].elem) + "] in clean ones");
  return none;
}
Found judge(Scenario &sc, Result &res) {
  const std::string &P = sc.prop; Found none;
  if (P == "C07") return judge_leftover(sc);
  std::vector<Bytes> fin = res.final_objs;
  if (P == "C05" && !res.fired[ACT_CANCEL]) return none;
  if (P == "C04" && !res.fired[ACT_SIGNAL]) return none;
  for (auto &v : res.viol) {
    if ((P == "C02" && v.cls == "inwrite") || (P == "C03" && v.cls == "oob") || (P == "C08" && v.cls == "env") || (P == "C09" && (v.cls == "resource" || v.cls == "stack")))
      return mk(v.cls.c_str(), v.op, opname(sc, v.op) + " at step " + std::to_string(v.step) + ": " + v.text);
  }
  // untouched surroundings
  if (P == "C03" && sc.gapfill) {
    std::set<u64> pages; for (auto &o : sc.objs) pages.insert(o.off / 8192);
    std::vector<std::pair<u64, u64>> spans; for (auto &o : sc.objs) spans.push_back({o.off, o.off + o.size}); std::sort(spans.begin(), spans.end());
    for (u64 p : pages) { u64 *w = (u64 *)(0x200000000000ull + p * 8192); u64 x = sc.gapfill ^ p; for (int i = 0; i < 512; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; u64 want = x ^ (x >> 29); if (w[i] == want) continue;
        for (int k = 0; k < 8; k++) { u64 off = p * 8192 + i * 8 + k; bool cov = false; for (auto &s : spans) { if (s.first > off) break; if (off < s.second) { cov = true; break; } } if (!cov && ((u8 *)&w[i])[k] != ((u8 *)&want)[k]) return mk("oob", -1, "memory between the arguments was modified (no access hook saw it)"); } } }
  }
  Mem mem; for (auto &o : sc.objs) mem.push_back(o.init);
  load_objects(sc); bool cancelled = false; Found first;
  // the sequential model: calls in start (lock) order, each alone from pristine module state
  std::vector<int> order = res.order;
  if (P == "C09" || P == "C01" || P == "C04" || P == "C05" || P == "C08" || P == "C06" || P == "C10" || P == "C02" || P == "C03") for (int opi : order) {
    const Op &o = sc.ops[opi]; Outcome &oc = res.out[opi]; const cut_fn &F = T->fns[o.fn];
    for (auto &s : o.sets) memcpy(&mem[s.obj][s.off], s.v.data(), s.v.size());
    if (oc.status == ST_CANCELLED) { cancelled = true;
      for (int i = 0; i < F.np; i++) if (o.a[i].k == AO) { int ob = o.a[i].r.obj; bool wr = F.p[i].role != R_IN; if (wr) memcpy(&mem[ob][o.a[i].r.off], oc.post[i].data(), oc.post[i].size()); }
      if (P == "C05") for (int i = 0; i < F.np; i++) if (o.a[i].k == AO && F.p[i].role == R_IN) { Bytes want = take_arg(sc, o, i, mem); if (want != oc.post[i]) return mk("lostinput", opi, opname(sc, opi) + ": abandoned midway, and its input '" + F.p[i].name + "' is left as [" + show(oc.post[i], arg_elem(o.fn, i)) + "] instead of [" + show(want, arg_elem(o.fn, i)) + "]"); }
      continue; }
    if (P == "C02") { // a store through the read-only view
      if (oc.status == ST_CRASH && oc.addr >= 0x210000000000ull && oc.addr < 0x210000000000ull + 1024ull * 8192 && ((oc.addr & 8191) < 4096 || oc.addr >= 0x210000000000ull + 896ull * 8192)) return mk("inwrite", opi, opname(sc, opi) + ": faults storing to an input that lies in read-only memory");
      for (int i = 0; i < F.np; i++) if (o.a[i].k == AO && F.p[i].role != R_IN) memcpy(&mem[o.a[i].r.obj][o.a[i].r.off], oc.post[i].data(), oc.post[i].size());
      for (int i = 0; i < F.np; i++) if (oc.status == ST_OK && o.a[i].k == AO && F.p[i].role == R_IN) { Bytes want = take_arg(sc, o, i, mem); if (want != oc.post[i]) return mk("inwrite", opi, opname(sc, opi) + ": input '" + F.p[i].name + "' differs after the call (no access hook saw the store): [" + show(oc.post[i], arg_elem(o.fn, i)) + "] was [" + show(want, arg_elem(o.fn, i)) + "]"); }
      continue; }
    if (P == "C03" && oc.status == ST_CRASH && oc.sig == 11 && ((oc.addr >= 0x200000000000ull && oc.addr < 0x211000000000ull) || oc.addr < 65536 || oc.addr > 0x7fffffffffffull)) return mk("oob", opi, opname(sc, opi) + ": faults on memory next to its arguments");
    if (P == "C03") { for (int i = 0; i < F.np; i++) if (o.a[i].k == AO && F.p[i].role != R_IN) memcpy(&mem[o.a[i].r.obj][o.a[i].r.off], oc.post[i].data(), oc.post[i].size()); continue; }
    std::vector<Bytes> pre; for (size_t i = 0; i < o.a.size(); i++) pre.push_back(take_arg(sc, o, (int)i, mem));
    // pure outputs: what they held before (a half-written or an earlier result) must not matter, so alone the call gets them as they first were
    u64 fresh = 0; if (P == "C05" || P == "C06") for (int i = 0; i < F.np && i < 60; i++) if (o.a[i].k == AO && F.p[i].role == R_OUT) {
      bool own = true; for (int j = 0; j < F.np; j++) if (j != i) { if (o.a[j].k == AO && o.a[j].r.obj == o.a[i].r.obj) own = false; if (o.a[j].k == AP) for (auto &q : o.a[j].list) if (q.obj == o.a[i].r.obj) own = false; }
      if (!own) continue; Bytes q = pre[i]; const Bytes &in = sc.objs[o.a[i].r.obj].init; memcpy(q.data(), &in[o.a[i].r.off], q.size()); if (q != pre[i]) { pre[i] = q; fresh |= 1ull << i; } }
    SoloEnv e = env_of(sc, o, oc.fiber); Outcome so = solo(sc, opi, pre, e); std::string why;
    if (fresh && so.status == ST_OK && oc.status == ST_OK) for (int i = 0; i < F.np; i++) if (fresh >> i & 1) { // elements left untouched in both
      u32 w = arg_elem(o.fn, i) == 'f' || arg_elem(o.fn, i) == 'i' ? 4 : 1; Bytes was = take_arg(sc, o, i, mem);
      for (size_t k = 0; k + w <= was.size(); k += w) if (!memcmp(&so.post[i][k], &pre[i][k], w) && !memcmp(&oc.post[i][k], &was[k], w)) memcpy(&so.post[i][k], &was[k], w); }
    if (P == "C09") {
      if (oc.status == ST_CAP) return mk("unbounded", opi, opname(sc, opi) + ": did not finish within " + std::to_string(cap_for(P)) + " of its own steps" + (so.status == ST_OK ? " while others were stalled" : ""));
      if (oc.status == ST_STUCK) return mk("blocked", opi, opname(sc, opi) + ": waits for another thread");
      if (oc.status == ST_CRASH) return mk("crash", opi, opname(sc, opi) + ": raised signal " + std::to_string(oc.sig));
    }
    if (so.status == ST_OK && (oc.status == ST_CAP || oc.status == ST_STUCK)) return mk("stuck", opi, opname(sc, opi) + ": never finishes, alone it finishes");
    if (P == "C08" && oc.status == ST_OK) {
      if ((oc.mxcsr_in & 0xffc0) != (oc.mxcsr_out & 0xffc0)) { char t[160]; snprintf(t, sizeof t, ": mxcsr control bits were %04x on entry and are %04x on return", oc.mxcsr_in & 0xffc0, oc.mxcsr_out & 0xffc0); return mk("env", opi, opname(sc, opi) + t); }
      if (oc.x87_out != sc.threads[oc.fiber].x87) { char t[160]; snprintf(t, sizeof t, ": x87 control word was %04x on entry and is %04x on return", sc.threads[oc.fiber].x87, oc.x87_out); return mk("env", opi, opname(sc, opi) + t); }
    }
    if (P != "C09" && !cmp_out(F, o, oc, so, why, false)) return mk("result", opi, opname(sc, opi) + ": " + why);
    if (so.status == ST_OK) { for (int i = 0; i < F.np; i++) if (o.a[i].k == AO && F.p[i].role != R_IN) memcpy(&mem[o.a[i].r.obj][o.a[i].r.off], so.post[i].data(), so.post[i].size()); }
    else for (int i = 0; i < F.np; i++) if (o.a[i].k == AO && F.p[i].role != R_IN) memcpy(&mem[o.a[i].r.obj][o.a[i].r.off], oc.post[i].data(), oc.post[i].size());
  }
  if (res.stuck && P != "C02" && P != "C03" && P != "C07") return mk("stuck", -1, "the threads block each other for ever");
  if ((P == "C03" || P == "C10" || (P == "C05" && cancelled)) && !res.stuck) // final contents of every object
    for (size_t k = 0; k < sc.objs.size(); k++) if (!same_bytes(mem[k].data(), fin[k].data(), (u32)mem[k].size(), T->types[sc.objs[k].type].elem)) {
      // NaN payloads aside
      char el = T->types[sc.objs[k].type].elem; return mk(P == "C03" ? "oob" : "final", -1, "object #" + std::to_string(k) + " (" + T->types[sc.objs[k].type].name + ") ends as [" + show(fin[k], el) + "], must be [" + show(mem[k], el) + "]"); }
  return none;
}
Found run_judge(Scenario &sc, Exec &ex, Result &res) {
  if (is_print_prop(sc.prop)) return print_judge(sc, ex, res);
  if (sc.prop == "C07") { res = Result(); Found f = judge(sc, res); res.hash = fnv(f.text.data(), f.text.size()); for (auto &o : sc.ops) { u64 h[3] = {o.stackfill, o.dirty, (u64)o.fn}; res.hash = fnv(h, sizeof h, res.hash); } for (auto &o : sc.objs) { res.hash = fnv(&o.off, 8, res.hash); res.hash = fnv(o.init.data(), o.init.size(), res.hash); } return f; }
  res = execute(sc, ex); return judge(sc, res);
}
bool nontrivial(const Scenario &sc, const Result &res) {
  if (sc.prop == "C07") return true; if (sc.prop == "C11") return !res.order.empty(); if (sc.prop == "C12") return res.insnap > 0; if (sc.prop == "C06") return res.order.size() >= 2;
  if (sc.prop == "C02") { if (res.midcall) return true; for (auto &o : sc.objs) if (o.ro) return true; return false; }
  if (sc.prop == "C03") { if (res.midcall) return true; for (auto &o : sc.objs) if (o.place == 2) return true; return sc.objs.size() > 1; }
  return res.midcall > 0;
}
std::string sample(const Scenario &sc, const Result &res) {
  std::string s; size_t n = 0;
  for (size_t t = 0; t < sc.threads.size(); t++) { s += (t ? "; " : ""); s += "thread " + std::to_string(t) + ":"; for (int o : sc.threads[t].ops) { if (n++ > 8) { s += " ..."; break; } s += " #" + std::to_string(o) + " " + fname(sc.ops[o].fn); } }
  if (!sc.handlers.empty()) { s += "; handlers:"; for (int o : sc.handlers) s += " #" + std::to_string(o) + " " + fname(sc.ops[o].fn); }
  static const char *an[] = {"none", "switch to", "signal running #", "abandon", "stall, on to", "delay stores, on to"}; s += "; schedule:"; n = 0;
  for (auto &d : sc.dec) { if (n++ > 6) { s += " ..."; break; } s += " [#" + std::to_string(d.op) + (d.step >> 32 ? " repetition " + std::to_string(d.step >> 32) : "") + " step " + std::to_string(d.step & 0xffffffffu) + ": " + an[d.act] + (d.act == ACT_CANCEL ? "" : " " + std::to_string(d.target)) + "]"; }
  if (sc.dec.empty()) s += " none"; (void)res; return s;
}

// ---------------------------------------------------------------- replay files
static Bytes unhex(const std::string &s) { Bytes b; for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((u8)strtol(s.substr(i, 2).c_str(), 0, 16)); return b; }
static std::string hx(const Bytes &b) { return b.empty() ? "-" : hexs(b); }
std::string to_text(const Scenario &sc, const Found &f, u64 hash) {
  std::string s = "dsim-replay 1\nproperty " + sc.prop + "\nvariant " + sc.variant + "\nseed " + std::to_string(sc.seed) + "\nkind " + std::to_string(sc.kind) + "\nfailalloc " + std::to_string(sc.fail_alloc) + "\ngapfill " + std::to_string(sc.gapfill) + "\nneighbour " + std::to_string(sc.neighbour) + "\n";
  char t[256];
  for (auto &o : sc.objs) { snprintf(t, sizeof t, "obj %s %d %llu %d %d ", T->types[o.type].name, o.count, (unsigned long long)o.off, (int)o.ro, o.place); s += t + hx(o.init) + "   # " + show(o.init, T->types[o.type].elem) + "\n"; }
  std::set<int> used; for (auto &th : sc.threads) used.insert(th.ops.begin(), th.ops.end()); used.insert(sc.handlers.begin(), sc.handlers.end()); if (sc.prop == "C07") for (size_t i = 0; i < sc.ops.size(); i++) used.insert((int)i);
  for (size_t i = 0; i < sc.ops.size(); i++) {
    const Op &o = sc.ops[i]; if (!used.count((int)i)) { s += "op - 0 0 -1 0 0\n"; continue; }
    snprintf(t, sizeof t, "op %s %llu %llu %d %d %u %u", fname(o.fn).c_str(), (unsigned long long)o.stackfill, (unsigned long long)o.dirty, o.retry_of, (int)o.lock, o.delim, o.repeat); s += t; s += "\n";
    for (auto &a : o.a) { if (a.k == AV) s += " val " + hx(a.v) + "\n"; else if (a.k == AO) { snprintf(t, sizeof t, " ref %d %u\n", a.r.obj, a.r.off); s += t; } else if (a.k == AP) { s += " ptrs " + std::to_string(a.list.size()); for (auto &r : a.list) { snprintf(t, sizeof t, " %d %u", r.obj, r.off); s += t; } s += "\n"; } else if (a.k == AF) s += " stream " + std::to_string(a.n) + "\n"; else if (a.k == AT) s += a.null_tag ? " notag\n" : " tag " + hx(Bytes(a.tag.begin(), a.tag.end())) + "\n"; }
    for (auto &x : o.sets) { snprintf(t, sizeof t, " set %d %u ", x.obj, x.off); s += t + hx(x.v) + "\n"; }
  }
  for (auto &th : sc.threads) { snprintf(t, sizeof t, "thread %u %u", th.mxcsr, th.x87); s += t; for (int o : th.ops) s += " " + std::to_string(o); s += "\n"; }
  s += "handlers"; for (int o : sc.handlers) s += " " + std::to_string(o); s += "\n";
  for (auto &x : sc.streams) { snprintf(t, sizeof t, "stream %d %d %d %d %d %d", x.mode, x.bufsize, x.chunk, x.cap, x.crash_at, x.freeat); s += t; for (auto &d : x.faults) { snprintf(t, sizeof t, " %d:%d:%d", d.at, d.kind, d.arg); s += t; } s += "\n"; }
  for (auto &d : sc.dec) { snprintf(t, sizeof t, "at %d %llu do %d %d\n", d.op, (unsigned long long)d.step, d.act, d.target); s += t; }
  snprintf(t, sizeof t, "hash %llx\n", (unsigned long long)hash); s += t; s += "class " + f.cls + "\nexpect " + f.text + "\n"; return s;
}
bool from_text(const char *path, Scenario &sc, std::string &cls, u64 &hash) {
  FILE *f = fopen(path, "r"); if (!f) return false; std::string all; char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) all.append(buf, n); fclose(f);
  size_t p = 0; Op *cur = nullptr; sc = Scenario(); bool ok = false;
  while (p < all.size()) {
    size_t e = all.find('\n', p); if (e == std::string::npos) e = all.size(); std::string l = all.substr(p, e - p); p = e + 1; size_t h = l.find("   # "); if (h != std::string::npos) l.resize(h);
    std::vector<std::string> w; size_t q = 0; while (q < l.size()) { while (q < l.size() && l[q] == ' ') q++; size_t x = l.find(' ', q); if (x == std::string::npos) x = l.size(); if (x > q) w.push_back(l.substr(q, x - q)); q = x; }
    if (w.empty()) continue; auto N = [&](size_t i) { return i < w.size() ? strtoll(w[i].c_str(), 0, 10) : 0; }; auto U = [&](size_t i) { return i < w.size() ? strtoull(w[i].c_str(), 0, 10) : 0; }; auto Hx = [&](size_t i) { return i < w.size() && w[i] != "-" ? unhex(w[i]) : Bytes(); };
    if (w[0] == "dsim-replay") ok = true; else if (w[0] == "property") sc.prop = w[1]; else if (w[0] == "variant") sc.variant = w[1]; else if (w[0] == "seed") sc.seed = U(1); else if (w[0] == "kind") sc.kind = (int)N(1); else if (w[0] == "failalloc") sc.fail_alloc = N(1); else if (w[0] == "gapfill") sc.gapfill = U(1); else if (w[0] == "neighbour") sc.neighbour = N(1);
    else if (w[0] == "obj") { Obj o; o.type = -1; for (int i = 0; i < T->ntypes; i++) if (w[1] == T->types[i].name) o.type = i; if (o.type < 0) return false; o.count = (int)N(2); o.off = U(3); o.ro = N(4); o.place = (int)N(5); o.init = Hx(6); o.size = (u32)o.init.size(); o.align = T->types[o.type].align; sc.objs.push_back(o); }
    else if (w[0] == "op") { Op o; o.fn = 0; if (w[1] != "-") { auto it = fnidx.find(w[1]); if (it == fnidx.end()) return false; o.fn = it->second; } o.stackfill = U(2); o.dirty = U(3); o.retry_of = (int)N(4); o.lock = N(5); o.delim = (u32)N(6); o.repeat = w.size() > 7 ? (u32)N(7) : 1; sc.ops.push_back(o); cur = &sc.ops.back(); }
    else if (w[0] == "val") { Arg a; a.k = AV; a.v = Hx(1); cur->a.push_back(a); } else if (w[0] == "ref") { Arg a; a.k = AO; a.r.obj = (int)N(1); a.r.off = (u32)N(2); cur->a.push_back(a); }
    else if (w[0] == "ptrs") { Arg a; a.k = AP; for (int i = 0; i < N(1); i++) { Ref r; r.obj = (int)N(2 + 2 * i); r.off = (u32)N(3 + 2 * i); a.list.push_back(r); } cur->a.push_back(a); }
    else if (w[0] == "stream" && cur && sc.threads.empty()) { Arg a; a.k = AF; a.n = (int)N(1); cur->a.push_back(a); }
    else if (w[0] == "stream") { Stream x; x.mode = (int)N(1); x.bufsize = (int)N(2); x.chunk = (int)N(3); x.cap = (int)N(4); x.crash_at = (int)N(5); x.freeat = (int)N(6); for (size_t i = 7; i < w.size(); i++) { DevFault d; if (sscanf(w[i].c_str(), "%d:%d:%d", &d.at, &d.kind, &d.arg) == 3) x.faults.push_back(d); } sc.streams.push_back(x); }
    else if (w[0] == "notag") { Arg a; a.k = AT; a.null_tag = true; cur->a.push_back(a); } else if (w[0] == "tag") { Arg a; a.k = AT; Bytes b = Hx(1); a.tag.assign(b.begin(), b.end()); cur->a.push_back(a); }
    else if (w[0] == "set") { Set s; s.obj = (int)N(1); s.off = (u32)N(2); s.v = Hx(3); cur->sets.push_back(s); }
    else if (w[0] == "thread") { Thread t; t.mxcsr = (u32)N(1); t.x87 = (u32)N(2); for (size_t i = 3; i < w.size(); i++) t.ops.push_back((int)N(i)); sc.threads.push_back(t); }
    else if (w[0] == "handlers") { for (size_t i = 1; i < w.size(); i++) sc.handlers.push_back((int)N(i)); }
    else if (w[0] == "at") sc.dec.push_back({(int)N(1), U(2), (int)N(4), (int)N(5)});
    else if (w[0] == "hash") hash = strtoull(w[1].c_str(), 0, 16); else if (w[0] == "class") cls = w.size() > 1 ? w[1] : "";
  }
  return ok;
}
// ---------------------------------------------------------------- minimisation
static u64 min_steps;
static bool still(Scenario sc, const Found &want, int &budget) { if (budget-- <= 0) return false; if (g_total_steps - min_steps > 3000000000ull) { budget = 0; return false; } Exec ex = replay_exec(sc); Result res; Found f = run_judge(sc, ex, res); return f.any && f.cls == want.cls; }
void minimise(Scenario &sc, const Found &want, int budget) {
  min_steps = g_total_steps;
  bool progress = true;
  while (progress && budget > 0) {
    progress = false;
    // whole threads, then handlers, then single calls
    for (size_t t = 0; t < sc.threads.size(); t++) if (!sc.threads[t].ops.empty()) { Scenario c = sc; c.threads[t].ops.clear(); if (still(c, want, budget)) { sc = c; progress = true; } }
    for (size_t h = 0; h < sc.handlers.size();) { Scenario c = sc; c.handlers.erase(c.handlers.begin() + h); if (still(c, want, budget)) { sc = c; progress = true; } else h++; }
    for (size_t t = 0; t < sc.threads.size(); t++) {
      for (size_t step = sc.threads[t].ops.size(); step >= 1; step /= 2) for (size_t k = 0; k + step <= sc.threads[t].ops.size() && budget > 0;) {
        Scenario c = sc; std::vector<int> gone(c.threads[t].ops.begin() + k, c.threads[t].ops.begin() + k + step); c.threads[t].ops.erase(c.threads[t].ops.begin() + k, c.threads[t].ops.begin() + k + step);
        for (auto &o : c.ops) for (int g : gone) if (o.retry_of == g) o.retry_of = -1;
        if (still(c, want, budget)) { sc = c; progress = true; } else k += step; }
    }
    // decisions, in halves and then one by one
    for (size_t step = sc.dec.size(); step >= 1; step /= 2) for (size_t k = 0; k + step <= sc.dec.size() && budget > 0;) { Scenario c = sc; c.dec.erase(c.dec.begin() + k, c.dec.begin() + k + step); if (still(c, want, budget)) { sc = c; progress = true; } else k += step; }
    for (auto &s : sc.streams) for (size_t k = 0; k < s.faults.size() && budget > 0;) { auto keep = s.faults; s.faults.erase(s.faults.begin() + k); if (still(sc, want, budget)) progress = true; else { s.faults = keep; k++; } }
    for (auto &o : sc.ops) while (o.repeat > 1 && budget > 0) { u32 k = o.repeat; o.repeat = k / 2; if (still(sc, want, budget)) { progress = true; continue; } o.repeat = k - std::max(1u, k / 8); if (still(sc, want, budget)) { progress = true; continue; } o.repeat = k; break; }
    // sets and environment
    for (auto &o : sc.ops) { for (size_t k = 0; k < o.sets.size() && budget > 0;) { auto keep = o.sets; o.sets.erase(o.sets.begin() + k); if (still(sc, want, budget)) progress = true; else { o.sets = keep; k++; } } if (o.stackfill && budget > 0) { u64 k = o.stackfill; o.stackfill = 0; if (still(sc, want, budget)) progress = true; else o.stackfill = k; } if (o.dirty && budget > 0) { u64 k = o.dirty; o.dirty = 0; if (still(sc, want, budget)) progress = true; else o.dirty = k; } }
  }
  // drop threads that became empty at the end (indices of the others are kept)
  while (sc.threads.size() > 1 && sc.threads.back().ops.empty()) { Scenario c = sc; c.threads.pop_back(); if (still(c, want, budget)) sc = c; else break; }
}
