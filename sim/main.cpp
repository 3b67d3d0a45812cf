// Command line of the simulator.
#include "modes.h"
#include <sys/personality.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <cstdlib>
#include <ctime>
#include <unordered_set>
#include <algorithm>
#include <cmath>
extern u64 g_maxstack; extern int g_maxstack_fn; extern u32 g_wrmask; extern int g_calib;
void calibrate();
static double now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string js(const std::string &s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\', o += c; else if ((u8)c < 32) { char t[8]; snprintf(t, 8, "\\u%04x", c); o += t; } else if ((u8)c >= 127) { char t[8]; snprintf(t, 8, "\\u%04x", (u8)c); o += t; } else o += c; } return o + "\""; }
static std::set<std::string> known;               // violations listed as known findings: "<prop> <class> <function>"
static std::string sig_of(const Scenario &sc, const Found &f) { return sc.prop + " " + f.cls + " " + (f.op >= 0 ? fname(sc.ops[f.op].fn) : "-"); }
int main(int argc, char **argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { personality(ADDR_NO_RANDOMIZE); setenv("DSIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  std::string so, prop, dict, out, replay, replaydir = ".", variant, only, knownf; u64 seed = 1; int shard = 0, nshard = 1, runs = 10, warm = 60, first = 0; int boost = 12; u64 hotfns = 0; bool verbose = false, calib = false; int check = 37; double tlimit = 0; 
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--so") so = nx(); else if (a == "--prop") prop = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--shard") shard = atoi(nx().c_str()); else if (a == "--nshard") nshard = atoi(nx().c_str()); else if (a == "--runs") runs = atoi(nx().c_str()); else if (a == "--first") first = atoi(nx().c_str());
    else if (a == "--warm") warm = atoi(nx().c_str()); else if (a == "--dict") dict = nx(); else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx(); else if (a == "--replaydir") replaydir = nx(); else if (a == "--variant") variant = nx(); else if (a == "--only") only = nx(); else if (a == "--boost") boost = atoi(nx().c_str()); else if (a == "-v") verbose = true; else if (a == "--calibrate") calib = true; else if (a == "--known") knownf = nx(); else if (a == "--check") check = atoi(nx().c_str()); else if (a == "--tlimit") tlimit = atof(nx().c_str()); }
  if (!core_init(so.c_str())) { fprintf(stderr, "dsim: cannot load %s\n", so.c_str()); return 2; }
  G.init(dict.c_str());
  if (calib) { calibrate(); return 0; }
  if (!knownf.empty()) if (FILE *f = fopen(knownf.c_str(), "r")) { char l[1024]; while (fgets(l, sizeof l, f)) { std::string s = l; while (!s.empty() && s.back() == '\n') s.pop_back(); if (s.compare(0, 7, "ignore ") == 0) known.insert(s.substr(7)); } fclose(f); }
  if (!replay.empty()) {
    Scenario sc; std::string cls; u64 h = 0; if (!from_text(replay.c_str(), sc, cls, h)) { fprintf(stderr, "dsim: cannot use replay file %s with this build\n", replay.c_str()); return 2; }
    Exec ex = replay_exec(sc); Result res; Found f = run_judge(sc, ex, res);
    if (f.any) { printf("REPRODUCED %s class=%s hash=%llx%s: %s\n", sc.prop.c_str(), f.cls.c_str(), (unsigned long long)res.hash, h ? (h == res.hash ? " (same execution)" : " (different execution)") : "", f.text.c_str()); return f.cls == cls ? 1 : 3; }
    printf("NOT-REPRODUCED %s\n", sc.prop.c_str()); return 0;
  }
  double t0 = now(); u64 nruns = 0, nops = 0, nontriv = 0, confirmed = 0, unconf = 0, rechecked = 0, nondet = 0, capped = 0, stuck = 0, digest = 0; u64 fired[8] = {0}; std::unordered_set<u64> hashes; std::vector<std::string> samples; std::string found, ftext; std::map<std::string, u64> knownhit; u64 maxsteps = 0; std::string maxfn; u64 ropl = 0, edge = 0, span = 0, failalloc = 0, unmask = 0;
  std::vector<int> fns; bool pp = is_print_prop(prop);
  if (pp) fns.push_back(0); else { std::vector<int> all = G.calls; for (size_t i = 0; i < all.size(); i++) if ((int)(i % nshard) == shard) fns.push_back(all[i]); if (!only.empty()) { fns.clear(); for (int i : all) if (only == fname(i)) fns.push_back(i); } }
  if (!pp && prop != "C07") for (int fn : G.calls) { Rng wr(Rng::mix(seed) ^ fnv(fname(fn).data(), fname(fn).size()) ^ 5); G.warm(fn, wr, 32); } // which functions touch module state
  if (verbose) printf("discovery: %.2f s, %zu pieces of module state\n", now() - t0, g_touch.size());
  for (int fn : fns) {
    std::string key = pp ? "print" : fname(fn); u64 kh = fnv(key.data(), key.size());
    if (!pp) { Rng wr(Rng::mix(seed) ^ kh); G.warm(fn, wr, warm); }
    bool washot = false; u64 c0 = cov_new;
    for (int round = first + (pp ? shard : 0); round < first + runs * (washot ? boost : 1); round += pp ? nshard : 1) {
      u64 rs = Rng::mix(Rng::mix(seed) ^ kh) ^ Rng::mix(round * 2654435761ull + fnv(prop.data(), prop.size())); Rng r(rs);
      Scenario sc; Exec ex; ex.rng = &r; sc.variant = variant; bool ok = pp ? print_build(prop, r, sc, ex, round, variant) : build(prop, fn, r, sc, ex, round); if (!ok) continue;
      sc.variant = variant; sc.seed = rs; ex.sc = &sc; Result res; Found f = run_judge(sc, ex, res); nruns++; digest = Rng::mix(digest ^ res.hash);
      if (!pp && cov_new != c0) { G.learn(sc); c0 = cov_new; }
      if (!pp && !washot && g_hot[fn]) { washot = true; hotfns++; }
      nops += res.order.size() + (prop == "C07" ? 2 : 0); for (int k = 0; k < 8; k++) fired[k] += res.fired[k]; for (auto &o : sc.objs) { ropl += o.ro; edge += o.place == 2; span += o.place == 4; } failalloc += sc.fail_alloc; for (auto &t : sc.threads) unmask += (t.mxcsr & 0x1f80) != 0x1f80;
      for (auto &o : res.out) { if (o.status == ST_CAP) capped++; if (o.status == ST_STUCK) stuck++; if (o.status == ST_OK && o.steps > maxsteps) { maxsteps = o.steps; maxfn = fname(sc.ops[&o - &res.out[0]].fn); } }
      bool nt = nontrivial(sc, res); if (nt && hashes.insert(res.hash ^ kh).second) nontriv++;
      if (samples.size() < 3 && nt && (nruns % 97 == 1 || nruns > 200)) samples.push_back(sample(sc, res));
      if (verbose && f.any) printf("candidate %s: %s\n", f.cls.c_str(), f.text.c_str());
      if (!f.any && check && nruns % check == 0) { Exec e2 = replay_exec(sc); Result r2; Found f2 = run_judge(sc, e2, r2); rechecked++; if (f2.any || r2.hash != res.hash) { nondet++; if (verbose) printf("NONDET %s round %d: %llx %llx %s\n", key.c_str(), round, (unsigned long long)res.hash, (unsigned long long)r2.hash, f2.text.c_str()); } }
      if (f.any) {
        std::string sg = sig_of(sc, f); if (known.count(sg)) { knownhit[sg]++; continue; }
        Exec e2 = replay_exec(sc); Result r2; Found f2 = run_judge(sc, e2, r2);
        if (!f2.any || f2.cls != f.cls || r2.hash != res.hash) { unconf++; if (verbose) printf("unconfirmed: %s\n", f.text.c_str()); if (unconf > 50) goto done; continue; }
        confirmed++; Scenario m = sc; minimise(m, f, 600); Exec e3 = replay_exec(m); Result r3; Found f3 = run_judge(m, e3, r3); if (!f3.any || f3.cls != f.cls) { m = sc; f3 = f2; r3 = r2; }
        char nm[512]; snprintf(nm, sizeof nm, "%s/%s-%s-%016llx.replay", replaydir.c_str(), prop.c_str(), variant.c_str(), (unsigned long long)rs);
        if (FILE *o = fopen(nm, "w")) { std::string t = to_text(m, f3, r3.hash); fwrite(t.data(), 1, t.size(), o); fclose(o); }
        found = nm; ftext = f3.text; printf("FOUND %s %s %s\n", prop.c_str(), nm, f3.text.c_str()); if (!verbose) goto done;
      }
      if (tlimit > 0 && (nruns & 15) == 0 && now() - t0 > tlimit) goto done;
    }
  }
done:
  std::string j = "{"; auto num = [&](const char *k, u64 v) { j += (j.size() > 1 ? "," : "") + js(k) + ":" + std::to_string(v); };
  num("runs", nruns); num("calls", nops); num("nontrivial", nontriv); num("steps", g_total_steps); num("solo_steps", g_solo_steps); num("confirmed", confirmed); num("unconfirmed", unconf); num("rechecked", rechecked); num("nondet", nondet); num("capped", capped); num("stuck", stuck); num("max_stack", g_maxstack); num("digest", digest & 0xffffffffffffull); num("max_steps", maxsteps); j += ",\"max_fn\":" + js(maxfn) + ",\"max_stack_fn\":" + js(g_maxstack_fn < 0 ? "" : fname(g_maxstack_fn));
  num("switch", fired[ACT_SWITCH]); num("signal", fired[ACT_SIGNAL]); num("cancel", fired[ACT_CANCEL]); num("stall", fired[ACT_STALL]); num("delayed_stores", fired[ACT_DELAY]); num("readonly_objects", ropl); num("page_edge_objects", edge); num("objects_across_pages", span); num("runs_with_failing_allocation", failalloc); num("threads_with_unmasked_exceptions", unmask); num("functions", fns.size()); num("stateful_functions", hotfns);
  for (auto &c : g_counts) num(c.first.c_str(), c.second);
  u64 ms = (u64)((now() - t0) * 1000); num("wall_ms", ms); j += ",\"samples\":["; for (size_t i = 0; i < samples.size(); i++) j += (i ? "," : "") + js(samples[i]); j += "],\"found\":" + js(found) + ",\"text\":" + js(ftext) + ",\"known\":{"; bool fst = true; for (auto &k : knownhit) { j += (fst ? "" : ",") + js(k.first) + ":" + std::to_string(k.second); fst = false; } j += "}}\n";
  if (!out.empty()) { if (FILE *o = fopen(out.c_str(), "w")) { fputs(j.c_str(), o); fclose(o); } extern void cov_dump(const char *); cov_dump((out + ".cov").c_str()); } else fputs(j.c_str(), stdout);
  return found.empty() ? (unconf || nondet ? 2 : 0) : 1;
}
// ---------------------------------------------------------------- role calibration (development aid)
u32 g_wrmask; int g_calib;
void calibrate() {
  for (int fn : G.calls) {
    const cut_fn &F = T->fns[fn]; Rng r(fnv(F.name, strlen(F.name))); std::vector<int> wr(F.np), dep(F.np), untouched(F.np); int fails = 0;
    for (int it = 0; it < 400; it++) {
      Vals v = G.pick(fn, r, it % 4 == 3); Builder b(r); b.op(fn, 0, v, 0, 0, 0); b.sc.threads.resize(1); place(b.sc, r, 0); auto &o = b.sc.ops[0];
      std::vector<Bytes> pre; for (int i = 0; i < F.np; i++) pre.push_back(o.a[i].k == AO || o.a[i].k == AP ? v[i] : Bytes()); load_objects(b.sc);
      g_calib = 1; g_wrmask = 0; u64 c0 = cov_new; SoloEnv e; Outcome a = solo(b.sc, 0, pre, e); g_calib = 0; u32 wm = g_wrmask; if (a.status != ST_OK) { fails++; continue; }
      if (cov_new != c0 && G.corpus[fn].size() < 24) G.corpus[fn].push_back(v);
      int ei = 0; for (int i = 0; i < F.np; i++) { if (o.a[i].k == AO) { if (wm >> ei & 1) wr[i]++; ei++; } else if (o.a[i].k == AP) ei += (int)o.a[i].list.size() + 1; }
      for (int i = 0; i < F.np; i++) if (o.a[i].k == AO && pre[i].size()) {
        auto p2 = pre; Vals w = G.make(fn, r, it % 2 ? 0 : -1); Bytes &q = p2[i]; if (w[i].size() == q.size()) q = w[i]; for (size_t k = 0; k < q.size(); k++) if (T->types[F.p[i].type].elem == 'f' && q[k] == pre[i][k] && (k & 3) == 2) q[k] ^= 0x40;
        Outcome c = solo(b.sc, 0, p2, e); if (c.status != ST_OK) continue; bool d = false;
        if (F.ret >= 0 && !same_bytes(a.ret.data(), c.ret.data(), (u32)a.ret.size(), T->types[F.ret].elem)) d = true;
        for (int k = 0; k < F.np; k++) if (o.a[k].k == AO && a.post[k].size()) { if (k != i) { if (!same_bytes(a.post[k].data(), c.post[k].data(), (u32)a.post[k].size(), arg_elem(fn, k))) d = true; } else for (size_t x = 0; x + 4 <= a.post[k].size(); x += 4) { bool un = !memcmp(&a.post[k][x], &pre[k][x], 4) && !memcmp(&c.post[k][x], &p2[k][x], 4); if (un) untouched[i]++; else if (!same_bytes(&a.post[k][x], &c.post[k][x], 4, arg_elem(fn, k))) d = true; } }
        if (d) dep[i]++;
      }
    }
    for (int i = 0; i < F.np; i++) if (F.p[i].kind == K_PTR || F.p[i].kind == K_ARRN) printf("ROLE %s %s %s wr=%d dep=%d unt=%d fails=%d table=%d\n", F.name, F.p[i].name, wr[i] ? (dep[i] ? "inout" : "out") : "in", wr[i], dep[i], untouched[i], fails, F.p[i].role);
  }
}
