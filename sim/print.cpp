// Prints (C11, C12, C13): streams over simulated devices, reference formatter, oracles.  The stream is a real libc
// stream (fopencookie); the device behind it, its faults and its crash are simulated.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "modes.h"
#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <cstdarg>
#include <algorithm>
#include <stdio_ext.h>
bool is_print_prop(const std::string &p) { return p == "C11" || p == "C12" || p == "C13"; }
static Found mk(const char *cls, int op, const std::string &t) { Found f; f.any = true; f.cls = cls; f.op = op; f.text = t; return f; }
static std::string opn(const Scenario &sc, int op) { return "call #" + std::to_string(op) + " " + fname(sc.ops[op].fn); }
static std::string cut(const std::string &s, size_t at) { size_t a = at > 40 ? at - 40 : 0; std::string o; for (char c : s.substr(a, 90)) { if (c == '\n') o += "\\n"; else if ((u8)c < 32 || (u8)c > 126) { char t[8]; snprintf(t, 8, "\\x%02x", (u8)c); o += t; } else o += c; } return "\"" + o + "\""; }

// ---------------------------------------------------------------- the device
enum { DF_ENOSPC, DF_EIO, DF_EINTR, DF_SHORT, DF_EAGAIN, DF_N };
static const char *dfname[] = {"fault_enospc", "fault_eio", "fault_eintr", "fault_short_write", "fault_eagain"};
struct Dev { const Stream *cfg = nullptr; std::string data; size_t pos = 0; int ops = 0, calls = 0, failed = 0, failed_mark = 0; bool dead = false, healed = false; size_t boundary = 0; int seeks = 0; FILE *f = nullptr; std::vector<char> buf; u64 trace = 1469598103934665603ull; };
static std::vector<Dev> devs; static Dev ideal; static bool use_ideal;
static int g_last_caller_op = -1;
// one device operation; returns bytes accepted or -1
static ssize_t dev_op(Dev &d, const char *b, size_t n) {
  int at = d.ops++; if (d.dead) return (ssize_t)n;
  auto put = [&](size_t k) { if (d.pos > d.data.size()) d.data.resize(d.pos); size_t over = std::min(k, d.data.size() - d.pos); d.data.replace(d.pos, over, b, k); d.pos += k; };
  if (d.cfg && d.cfg->crash_at == at) { put(n ? (size_t)((u64)at * 7919 % (n + 1)) : 0); d.dead = true; g_counts["fault_crash"]++; d.trace = fnv(&at, 4, d.trace); return (ssize_t)n; }
  if (d.cfg && !d.healed) {
    for (auto &x : d.cfg->faults) if (x.at == at) {
      g_counts[dfname[x.kind]]++; d.failed++; d.trace = fnv(&x, sizeof x, d.trace);
      if (x.kind == DF_SHORT) { size_t k = std::min((size_t)x.arg, n ? n - 1 : 0); put(k); if (k) { errno = ENOSPC; return -(ssize_t)k - 2; } }
      errno = x.kind == DF_ENOSPC || x.kind == DF_SHORT ? ENOSPC : x.kind == DF_EIO ? EIO : x.kind == DF_EINTR ? EINTR : EAGAIN; return -1; }
    if (d.cfg->cap >= 0 && !(d.cfg->freeat >= 0 && at >= d.cfg->freeat)) {
      size_t room = d.data.size() < (size_t)d.cfg->cap ? d.cfg->cap - d.data.size() : 0;
      if (room < n) { g_counts["fault_disk_full"]++; d.failed++; put(room); d.trace = fnv(&room, 8, d.trace); errno = ENOSPC; return room ? -(ssize_t)room - 2 : -1; } }
  }
  put(n); return (ssize_t)n;
}
// libc hands a buffer over; like write(2) on a file this may take several operations
static ssize_t cb_write(void *c, const char *b, size_t n) {
  Dev &d = *(Dev *)c; d.calls++; size_t done = 0; if (!n) return 0; u64 h[2] = {n, (u64)d.calls}; d.trace = fnv(h, sizeof h, d.trace);
  while (done < n) { size_t k = n - done; if (d.cfg && d.cfg->chunk > 0) k = std::min(k, (size_t)d.cfg->chunk); ssize_t r = dev_op(d, b + done, k); if (r < -1) return (ssize_t)done + (-r - 2); if (r < 0) return (ssize_t)done; done += (size_t)r; }
  return (ssize_t)done;
}
static int cb_seek(void *c, off64_t *o, int w) { Dev &d = *(Dev *)c; i64 base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (i64)d.pos : (i64)d.data.size(); i64 n = base + *o; if (n < 0) { errno = EINVAL; return -1; } if ((size_t)n != d.pos) d.seeks++; d.pos = (size_t)n; *o = n; return 0; }
static int cb_close(void *) { return 0; }
static ssize_t cb_read(void *, char *, size_t) { return 0; }
static void dev_open(Dev &d, const Stream *s) {
  d.cfg = s; cookie_io_functions_t io = {cb_read, cb_write, cb_seek, cb_close}; d.f = fopencookie(&d, "w", io); if (!d.f) { fprintf(stderr, "dsim: fopencookie\n"); exit(2); }
  if (s->mode == 0) setvbuf(d.f, nullptr, _IONBF, 0); else if (s->bufsize > 0) { d.buf.assign(s->bufsize, 0); setvbuf(d.f, d.buf.data(), s->mode == 1 ? _IOLBF : _IOFBF, d.buf.size()); } else if (s->mode == 1) setvbuf(d.f, nullptr, _IOLBF, 4096);
}
static void dev_close(Dev &d) { if (d.f) { d.dead = true; fclose(d.f); d.f = nullptr; } }
FILE *print_stream(int i) { if (use_ideal) return ideal.f; return i >= 0 && i < (int)devs.size() ? devs[i].f : nullptr; }

// the caller's own writes around a print: delim bit 0 before, bit 1 after, bit 2 flush after, bit 3 heal, clear and continue
static std::string ctext(int opi, bool after) { char t[32]; snprintf(t, sizeof t, after ? "</%d>\n" : "<%d>", opi); return t; }
static int stream_of(const Op &o) { for (auto &a : o.a) if (a.k == AF) return a.n; return -1; }
struct Before { int flags; char *base; size_t size; int failed, calls, seeks; std::vector<int> other; };
static std::map<int, Before> before; static Found live; static const Scenario *cur_sc;
static size_t text_len(int opi);
static void caller(const Op &o, int opi, int, bool after) {
  int s = stream_of(o); if (s < 0 || s >= (int)devs.size()) return; Dev &d = devs[s]; FILE *f = d.f;
  if (!after) {
    if (o.delim & 8) { fflush(f); for (auto &x : devs) { fflush(x.f); clearerr(x.f); x.healed = true; x.boundary = x.data.size(); x.failed_mark = x.failed; } }
    if (o.delim & 1) fputs(ctext(opi, false).c_str(), f);
    Before b; b.flags = f->_flags & 0x202; b.base = f->_IO_buf_base; b.size = __fbufsize(f); b.failed = d.failed; b.calls = d.calls; b.seeks = d.seeks; for (auto &x : devs) b.other.push_back(x.calls); before[opi] = b;
  } else {
    Before &b = before[opi];
    if (cur_sc && cur_sc->prop == "C12" && !live.any) {
      if ((f->_flags & 0x202) != b.flags || (b.base && (f->_IO_buf_base != b.base || __fbufsize(f) != b.size))) live = mk("mode", opi, opn(*cur_sc, opi) + ": the stream's buffering is not as the caller set it any more");
      else if (d.failed > b.failed && !ferror(f) && !d.dead) live = mk("noerror", opi, opn(*cur_sc, opi) + ": the device failed during the print and the stream's error indicator is clear");
      else if (d.failed > d.failed_mark && !d.healed && !ferror(f) && !d.dead) live = mk("noerror", opi, opn(*cur_sc, opi) + ": the error indicator set by an earlier failure has been cleared by the print");
      else for (size_t k = 0; k < devs.size(); k++) if ((int)k != s && devs[k].calls != b.other[k]) { live = mk("other", opi, opn(*cur_sc, opi) + ": a stream it was not given was written out during the print"); break; }
    }
    b.calls = d.calls - b.calls;
    if (o.delim & 2) fputs(ctext(opi, true).c_str(), f);
    if (o.delim & 4) fflush(f);
  }
}

// ---------------------------------------------------------------- reference formatter (structure only)
struct PInfo { std::string base; int rows, cols; char el; bool mat, tag; };
static bool info_of(int fn, PInfo &p) {
  std::string n = fname(fn); n = n.substr(n.find('_') + 1); p = PInfo(); p.base = n; p.el = 'f'; p.mat = p.tag = false; p.rows = 1; p.cols = 0;
  if (n.compare(0, 3, "mat") == 0) { p.mat = true; p.rows = p.cols = n[3] - '0'; } else if (n.compare(0, 4, "ivec") == 0) { p.el = 'i'; p.cols = n[4] - '0'; } else if (n.compare(0, 3, "vec") == 0) p.cols = n[3] - '0'; else if (n.compare(0, 6, "versor") == 0) p.cols = 4; else if (n.compare(0, 4, "aabb") == 0) { p.rows = 2; p.cols = 3; p.tag = true; } else if (n.compare(0, 4, "arch") == 0) p.rows = 0; else return false;
  return true;
}
static std::string element(const PInfo &p, const u8 *v) {
  char t[512]; if (p.el == 'i') { int x; memcpy(&x, v, 4); snprintf(t, sizeof t, "%d", x); return t; }
  float x; memcpy(&x, v, 4); if (x < T->print_max) snprintf(t, sizeof t, "%.*f", T->print_prec, (double)x); else snprintf(t, sizeof t, "%g", (double)x); return t;
}
static std::string decolour(const std::string &s, std::vector<size_t> *map) {
  std::string o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == 27) { size_t k = i + 1; while (k < s.size() && !isalpha((u8)s[k])) k++; i = k; continue; } if (map) map->push_back(i); o += s[i]; } return o;
}
// "" if text renders v; spans: where the elements are in text
static std::string parse(const PInfo &p, const Bytes &v, const std::string &tag, bool has_tag, const std::string &text, std::vector<std::pair<size_t, size_t>> *spans) {
  std::vector<size_t> map; std::string s = decolour(text, &map); if (s.empty()) return "nothing is printed"; if (!p.rows) return "";
  size_t nl = s.find('\n'); if (nl == std::string::npos) return "no line after the heading"; if (has_tag && s.substr(0, nl).find(tag) == std::string::npos) return "the caller's tag is not in the heading: " + cut(s, 0);
  size_t q = nl + 1; int row = 0; std::vector<size_t> ends;
  while (q < s.size()) {
    size_t e = s.find('\n', q); if (e == std::string::npos) e = s.size(); std::vector<std::pair<size_t, size_t>> tok;
    for (size_t i = q; i < e;) { if (strchr(" \t|()[]{},;", s[i])) { i++; continue; } size_t k = i; while (k < e && !strchr(" \t|()[]{},;", s[k])) k++; tok.push_back({i, k}); i = k; }
    if (!tok.empty()) {
      if (row >= p.rows) return "more rows than the value has: " + cut(s, q);
      if ((int)tok.size() != p.cols) return "row " + std::to_string(row) + " has " + std::to_string(tok.size()) + " elements, the value has " + std::to_string(p.cols) + ": " + cut(s, q + 40);
      for (int c = 0; c < p.cols; c++) {
        int k = p.mat ? c * p.rows + row : row * p.cols + c; std::string want = element(p, &v[k * 4]), got = s.substr(tok[c].first, tok[c].second - tok[c].first);
        if (want != got) return "row " + std::to_string(row) + " column " + std::to_string(c) + " reads '" + got + "', the element is '" + want + "'";
        if (p.mat) { if (row == 0) ends.push_back(tok[c].second - q); else if (ends[c] != tok[c].second - q) return "column " + std::to_string(c) + " is not lined up: " + cut(s, q + 40); }
        if (spans) spans->push_back({map[tok[c].first], map[tok[c].second - 1] + 1}); }
      row++; }
    q = e + 1; }
  if (row != p.rows) return std::to_string(row) + " rows printed of " + std::to_string(p.rows);
  return "";
}

// ---------------------------------------------------------------- scenarios
static std::map<std::string, std::vector<int>> groups;
static void init_groups() { if (!groups.empty()) return; for (int i = 0; i < T->nfns; i++) if (G.prints[i]) { PInfo p; if (info_of(i, p)) groups[p.base].push_back(i); } }
static float pfloat(Rng &r, int st) {
  float m = T->print_max; u32 u; float f;
  switch (st) {
  case 0: return (float)r.range(-9, 9); case 1: return (float)((r.d() * 2 - 1) * 10); case 2: return (float)((r.d() * 2 - 1) * 2e5);
  case 3: memcpy(&u, &m, 4); u += r.range(-2, 2); memcpy(&f, &u, 4); return r.chance(0.3) ? -f : f;
  case 4: { static const float s[] = {0.f, -0.f, 99999.99f, 99999.995f, 9.999995f, 0.000005f, 0.0000049f, 1e5f, -1e5f, 1e6f, 123456.7f, 999999.5f, 1e10f, -1e10f, 1e-10f, 3.4e38f, -3.4e38f, 999.9996f, 1e3f, 0.1f}; return s[r.below(20)]; }
  case 5: return G.flt(r, 6); case 6: return G.flt(r, 4); default: return (float)((r.d() * 2 - 1) * pow(10, r.range(-6, 12)));
  }
}
static Bytes pvalue(const PInfo &p, Rng &r) {
  int n = p.rows * p.cols; Bytes b(4 * n); int st = r.below(9);
  for (int i = 0; i < n; i++) { if (p.el == 'i') { int x = r.chance(0.6) ? r.range(-99, 99) : r.chance(0.3) ? (r.chance(0.5) ? 2147483647 : -2147483647 - 1) : (int)r.u_(); memcpy(&b[4 * i], &x, 4); } else { float f = pfloat(r, st == 8 ? (int)r.below(8) : r.chance(0.8) ? st : (int)r.below(8)); memcpy(&b[4 * i], &f, 4); } }
  return b;
}
static std::string ptag(Rng &r) { static const char *t[] = {"box", "", "a long tag with spaces", "100%", "%d%s", "%n", "tag-ä", "x"}; return t[r.below(8)]; }
static int add_print(Builder &b, int fn, const Bytes &v, int obj, int stream, const std::string &tag, bool notag, u32 delim) {
  const cut_fn &F = T->fns[fn]; Op o; o.fn = fn; o.a.resize(F.np);
  for (int i = 0; i < F.np; i++) { Arg &a = o.a[i]; const cut_param &p = F.p[i]; if (p.kind == K_FILE) { a.k = AF; a.n = stream; } else if (p.kind == K_CHAR) { a.k = AT; a.tag = tag; a.null_tag = notag; } else if (p.kind == K_VAL) { a.k = AV; a.v = v; } else { a.k = AO; a.r.obj = obj; a.r.off = 0; } }
  o.delim = delim | 16; b.sc.ops.push_back(o); return (int)b.sc.ops.size() - 1;
}
static int vobj(Builder &b, int fn, const Bytes &v, Rng &r) { const cut_fn &F = T->fns[fn]; for (int i = 0; i < F.np; i++) if (F.p[i].kind == K_PTR) return b.obj(F.p[i].type, F.p[i].count, v, -1, r.chance(0.3)); return -1; }
static Stream rstream(Rng &r) { Stream s; s.mode = (int)r.below(3); static const int bs[] = {0, 1, 2, 3, 7, 16, 31, 64, 100, 128, 256, 512, 1024, 4096}; s.bufsize = r.chance(0.2) ? r.range(1, 300) : bs[r.below(14)]; s.chunk = r.chance(0.5) ? 0 : r.chance(0.5) ? r.range(1, 9) : r.range(1, 200); return s; }
bool print_build(const std::string &prop, Rng &r, Scenario &sc, Exec &ex, int round, const std::string &) {
  init_groups(); Builder b(r); b.sc.prop = prop; std::vector<std::string> names; for (auto &g : groups) names.push_back(g.first); if (names.empty()) return false;
  bool inl = T->inline_prints; (void)round;
  auto pickg = [&]() -> const std::vector<int> & { if (!inl && prop != "C11") { for (;;) { auto &g = groups[names[r.below((u32)names.size())]]; for (int f : g) if (fname(f).compare(0, 5, "glmc_") == 0) return g; } } return groups[names[r.below((u32)names.size())]]; };
  auto layer = [&](const std::vector<int> &g) { if (!inl && prop != "C11" && r.chance(0.9)) for (int f : g) if (fname(f).compare(0, 5, "glmc_") == 0) return f; return g[r.below((u32)g.size())]; };
  ex.pol = Policy(); ex.pol.gap = 0; ex.pol.p_arg = ex.pol.p_glob = ex.pol.p_seam = ex.pol.p_bound = 0; ex.pol.max_events = 0;
  u32 ns = prop == "C13" ? r.range(1, 3) : r.range(1, 2); for (u32 i = 0; i < ns; i++) b.sc.streams.push_back(rstream(r));
  if (prop == "C13") {
    int nt = r.range(2, 4); bool shared = r.chance(0.6); std::vector<Bytes> vals; std::vector<int> vg, vo, fo;
    if (!shared) while ((int)b.sc.streams.size() < nt) b.sc.streams.push_back(rstream(r));
    for (int t = 0; t < nt; t++) {
      b.sc.threads.emplace_back(); int n = r.range(1, shared ? 2 : 3);
      for (int k = 0; k < n; k++) {
        if (k && r.chance(0.2)) { int f = G.calls[r.below((u32)G.calls.size())]; Vals v = G.pick(f, r, false); int id = b.op(f, t, v, 0.9, 0, 0.2); b.sc.threads[t].ops.push_back(id); continue; }
        int fn, obj; Bytes v; if (!vals.empty() && r.chance(0.4)) { int w = r.below((u32)vals.size()); auto &g = groups[names[vg[w]]]; fn = layer(g); v = vals[w]; obj = vo[w]; bool need = false; for (int i = 0; i < T->fns[fn].np; i++) need |= T->fns[fn].p[i].kind == K_PTR; if (need && (obj < 0 || b.sc.objs[obj].type != -1)) { int ty = -1, c = 1; for (int i = 0; i < T->fns[fn].np; i++) if (T->fns[fn].p[i].kind == K_PTR) { ty = T->fns[fn].p[i].type; c = T->fns[fn].p[i].count; } if (obj < 0 || b.sc.objs[obj].type != ty || b.sc.objs[obj].count != c) obj = vobj(b, fn, v, r); } }
        else { auto &g = pickg(); fn = layer(g); PInfo p; info_of(fn, p); v = pvalue(p, r); obj = vobj(b, fn, v, r); for (size_t i = 0; i < names.size(); i++) if (&groups[names[i]] == &g) vg.push_back((int)i); vals.push_back(v); vo.push_back(obj); }
        int st = shared ? (r.chance(0.85) ? 0 : (int)r.below((u32)b.sc.streams.size())) : t; b.sc.threads[t].ops.push_back(add_print(b, fn, v, obj, st, ptag(r), r.chance(0.4), 0)); } }
    ex.pol = Policy(); ex.pol.p_seam = r.chance(0.5) ? 0.5 : 0.15; ex.pol.gap = r.chance(0.5) ? 30 : 0; ex.pol.p_arg = r.chance(0.5) ? 0.2 : 0; ex.pol.p_glob = 0.5; ex.pol.p_bound = 0.4; ex.pol.max_events = r.chance(0.2) ? 5 : 120;
  } else {
    b.sc.threads.emplace_back(); int nv = prop == "C11" ? r.range(1, 3) : r.range(1, 4); bool refill = r.chance(0.3); // later values in the same objects
    u32 rep = r.chance(0.004) ? r.range(100, 600) : r.chance(0.0001) ? 70000 : 1; if (rep > 1) nv = r.range(1, 2);
    for (int k = 0; k < nv; k++) {
      auto &g = pickg(); PInfo p; info_of(g[0], p); Bytes v = pvalue(p, r); std::string tag = ptag(r); bool notag = r.chance(0.4); std::vector<int> fs;
      if (prop == "C11") { fs = g; for (size_t i = fs.size(); i > 1; i--) std::swap(fs[i - 1], fs[r.below((u32)i)]); } else fs = {layer(g)};
      int obj = -1; for (int fn : fs) { int ty = -1; bool old = false; for (int i = 0; i < T->fns[fn].np; i++) if (T->fns[fn].p[i].kind == K_PTR) ty = T->fns[fn].p[i].type; if (ty >= 0 && refill) for (size_t q = 0; q < b.sc.objs.size() && !old; q++) if (b.sc.objs[q].type == ty && b.sc.objs[q].init.size() == v.size() && !b.sc.objs[q].ro) { obj = (int)q; old = true; } if (ty >= 0 && !old && (obj < 0 || b.sc.objs[obj].type != ty)) obj = vobj(b, fn, v, r); u32 dl = r.below(4) | (r.chance(0.2) ? 4 : 0); b.sc.threads[0].ops.push_back(add_print(b, fn, v, obj, prop == "C12" ? 0 : (int)r.below(ns), tag, notag, dl)); Op &po = b.sc.ops.back(); if (old) po.sets.push_back({obj, 0, v}); if (rep > 1) po.repeat = prop == "C12" ? std::min(rep, 60u) : rep == 70000 && k ? 2 : rep; } }
    if (prop == "C12") {
      Stream &s = b.sc.streams[0]; int x = r.below(10); int span = s.mode == 0 || (s.chunk > 0 && s.chunk < 8) ? 60 : s.bufsize > 0 && s.bufsize < 32 ? 40 : s.mode == 1 ? 12 : 5;
      if (x < 6) { int nf = r.range(1, 4); for (int k = 0; k < nf; k++) s.faults.push_back({r.range(0, span), (int)r.below(DF_N), r.range(0, 40)}); if (r.chance(0.25)) { int at = r.range(0, span), kd = (int)r.below(3), len = r.range(2, 30); for (int k = 0; k < len; k++) s.faults.push_back({at + k, kd, 0}); } }
      else if (x < 8) { s.cap = r.range(0, 400); if (r.chance(0.5)) s.freeat = r.range(1, span + 10); } else if (x < 9) s.crash_at = r.range(0, span); else { s.crash_at = r.range(0, span); s.faults.push_back({r.range(0, span), (int)r.below(DF_N), r.range(0, 40)}); }
      if (s.crash_at < 0 && r.chance(0.7)) { auto &g = pickg(); int fn = layer(g); PInfo p; info_of(fn, p); Bytes v = pvalue(p, r); int obj = vobj(b, fn, v, r); b.sc.threads[0].ops.push_back(add_print(b, fn, v, obj, 0, ptag(r), true, r.below(4) | 8)); }
    }
  }
  b.sc.fail_alloc = r.chance(0.2); // the shipped prints need no memory of their own
  place(b.sc, r, (int)r.below(4)); sc = b.sc; sc.prop = prop; ex.replay = false; ex.mon = 0; ex.cap = replay_exec(sc).cap; return true;
}

// ---------------------------------------------------------------- oracles
static std::string solo_text(Scenario &sc, int opi, Outcome &out) {
  if (!ideal.f) { static Stream is; is.mode = 2; is.bufsize = 16384; dev_open(ideal, &is); ideal.cfg = nullptr; }
  ideal.data.clear(); ideal.pos = 0; clearerr(ideal.f); use_ideal = true; std::vector<Bytes> pre; const Op &o = sc.ops[opi];
  for (size_t i = 0; i < o.a.size(); i++) { const Arg &a = o.a[i]; Bytes x; if (a.k == AO) { u32 n = arg_size(o, (int)i); if (!o.sets.empty()) x = o.sets[0].v; else x.assign(sc.objs[a.r.obj].init.begin() + a.r.off, sc.objs[a.r.obj].init.begin() + a.r.off + n); } else if (a.k == AP) for (auto &q : a.list) x.insert(x.end(), sc.objs[q.obj].init.begin() + q.off, sc.objs[q.obj].init.begin() + q.off + T->types[T->fns[o.fn].p[i].type].size); pre.push_back(x); }
  SoloEnv e; out = solo(sc, opi, pre, e); fflush(ideal.f); use_ideal = false; return ideal.data;
}
// fewest contiguous pieces whose removal turns E into D (a missing tail counts unless tail_free); -1 if more than most
static int pieces(const std::string &E, const std::string &D, int most, bool tail_free) {
  if (D == E) return 0; size_t n = E.size() + 1, W = (n + 63) / 64; std::vector<std::vector<u64>> M(256); for (size_t i = 0; i < E.size(); i++) { auto &m = M[(u8)E[i]]; if (m.empty()) m.assign(W, 0); m[i >> 6] |= 1ull << (i & 63); }
  std::vector<std::vector<u64>> S(most + 1, std::vector<u64>(W, 0)); S[0][0] = 1;
  auto lowest = [&](std::vector<u64> &s) -> i64 { for (size_t w = 0; w < W; w++) if (s[w]) return (i64)(w * 64 + __builtin_ctzll(s[w])); return -1; };
  auto gaps = [&] { for (int g = 0; g < most; g++) { i64 l = lowest(S[g]); if (l < 0) continue; for (i64 p = l + 1; p < (i64)n;) { if (!(p & 63) && p + 64 <= (i64)n) { S[g + 1][p >> 6] = ~0ull; p += 64; } else { S[g + 1][p >> 6] |= 1ull << (p & 63); p++; } } } };
  for (char c : D) {
    gaps(); auto &m = M[(u8)c]; bool any = false;
    for (auto &s : S) { u64 carry = 0; for (size_t w = 0; w < W; w++) { u64 x = m.empty() ? 0 : s[w] & m[w]; u64 nx = x >> 63; s[w] = (x << 1) | carry; carry = nx; any |= s[w] != 0; } }
    if (!any) return -1; }
  for (int g = 0; g <= most; g++) { if (S[g][E.size() >> 6] >> (E.size() & 63) & 1) return g; i64 l = lowest(S[g]); if (l >= 0) { if (tail_free) return g; if (g < most) return g + 1; } }
  return -1;
}
// is text an interleaving of parts, none switched away from inside an element?
struct PartText { std::string s; std::vector<char> inside; };
static int shuffle(const std::string &text, const std::vector<PartText> &parts) {
  size_t k = parts.size(), total = 0; for (auto &p : parts) total += p.s.size(); if (total != text.size()) return 0;
  typedef std::vector<u32> St; std::set<St> cur, nxt; St z(k + 1, 0); z[k] = (u32)k; cur.insert(z);
  for (char c : text) {
    nxt.clear(); for (auto &s : cur) { u32 last = s[k]; bool stuckin = last < k && parts[last].inside[s[last]]; for (size_t i = 0; i < k; i++) { if (stuckin && i != last) continue; if (s[i] < parts[i].s.size() && parts[i].s[s[i]] == c) { St t = s; t[i]++; t[k] = parts[i].inside[t[i]] ? (u32)i : (u32)k; nxt.insert(t); } } }
    if (nxt.empty()) return 0; if (nxt.size() > 60000) { g_counts["probe_shuffle_overflow"]++; return 1; } cur.swap(nxt); }
  return 1;
}
static std::map<int, std::string> cur_text;
static Bytes value_of(const Scenario &sc, const Op &o) { for (auto &x : o.sets) return x.v; for (auto &a : o.a) { if (a.k == AV) return a.v; if (a.k == AO) return sc.objs[a.r.obj].init; } return Bytes(); }
static std::string first_diff(const std::string &want, const std::string &got) { size_t i = 0; while (i < want.size() && i < got.size() && want[i] == got[i]) i++; return "differs at byte " + std::to_string(i) + ": " + cut(got, i) + " instead of " + cut(want, i); }
Found print_judge(Scenario &sc, Exec &ex, Result &res) {
  init_groups(); const std::string &P = sc.prop; Found none; live = Found(); before.clear(); cur_sc = &sc;
  devs.clear(); devs.resize(sc.streams.size()); for (size_t i = 0; i < devs.size(); i++) dev_open(devs[i], &sc.streams[i]);
  stream_hook = print_stream; caller_hook = caller; use_ideal = false;
  // C12: pending text of the caller on the streams nobody prints to
  std::vector<std::string> pend(devs.size()); if (P == "C12") for (size_t i = 1; i < devs.size(); i++) if (sc.streams[i].mode == 2 && sc.streams[i].bufsize > 16) { pend[i] = "pending"; fputs("pending", devs[i].f); }
  res = execute(sc, ex); caller_hook = nullptr;
  std::vector<bool> err(devs.size()); for (size_t i = 0; i < devs.size(); i++) { Dev &d = devs[i]; fflush(d.f); err[i] = ferror(d.f); res.insnap += d.failed + (d.dead ? 1 : 0); res.hash = fnv(d.data.data(), d.data.size(), res.hash); res.hash = fnv(&d.trace, 8, res.hash); }
  Found f = live;
  auto judge1 = [&]() -> Found {
    for (auto &v : res.viol) if (v.cls == "stray" || v.cls == "flushall" || v.cls == "stream") return mk(v.cls.c_str(), v.op, opn(sc, v.op) + ": " + v.text);
    for (int opi : res.order) { auto &oc = res.out[opi]; if (!(sc.ops[opi].delim & 16)) continue; if (oc.status == ST_CRASH) return mk("crash", opi, opn(sc, opi) + ": raised signal " + std::to_string(oc.sig)); if (oc.status == ST_CAP) return mk("unbounded", opi, opn(sc, opi) + ": does not return"); if (oc.status == ST_STUCK) return mk("stuck", opi, opn(sc, opi) + ": waits for ever"); }
    // the intended text of every print, alone on an ideal device
    std::map<int, std::string> E; std::map<int, std::vector<std::pair<size_t, size_t>>> spans; std::map<std::string, std::pair<int, std::string>> bykey; load_objects(sc);
    for (int opi : res.order) { Op &o = sc.ops[opi]; if (!(o.delim & 16)) continue; Outcome so; std::string t = solo_text(sc, opi, so); E[opi] = t; PInfo p; info_of(o.fn, p); std::string tag; bool has = false; for (auto &a : o.a) if (a.k == AT && !a.null_tag) { tag = a.tag; has = true; }
      bool compiled = fname(o.fn).compare(0, 5, "glmc_") == 0, should = compiled || T->inline_prints; Bytes v = value_of(sc, o);
      if (so.status != ST_OK) return mk("crash", opi, opn(sc, opi) + ": alone, it ends with signal " + std::to_string(so.sig));
      if (P == "C11") {
        if (!should) { if (!t.empty()) return mk("text", opi, opn(sc, opi) + ": printing is compiled out, and it writes " + cut(t, 0)); continue; }
        std::string why = parse(p, v, tag, has, t, nullptr); if (!why.empty()) return mk("text", opi, opn(sc, opi) + ": " + why);
        std::string key = p.base + hexs(v) + (has ? "t" + tag : "n"); auto it = bykey.find(key); if (it == bykey.end()) bykey[key] = {opi, t}; else if (it->second.second != t) return mk("layers", opi, opn(sc, opi) + " and #" + std::to_string(it->second.first) + " " + fname(sc.ops[it->second.first].fn) + " print the same value differently: " + first_diff(it->second.second, t));
        if (t.size() > 200) g_counts["probe_long_text"]++;
      } else if (P == "C13") parse(p, v, tag, has, t, &spans[opi]);
    }
    for (size_t s = 0; s < devs.size(); s++) {
      Dev &d = devs[s]; std::string want = pend[s], want2; bool part2 = false;
      for (int opi : res.order) { Op &o = sc.ops[opi]; if (!(o.delim & 16)) continue; if (o.delim & 8) part2 = true; if (stream_of(o) != (int)s) continue; std::string &w = part2 ? want2 : want; if (o.delim & 1) w += ctext(opi, false); for (u32 q = 0; q < o.repeat; q++) w += E[opi]; if (o.delim & 2) w += ctext(opi, true); }
      if (P == "C11") { if (d.data != want) return mk("bytes", -1, "stream " + std::to_string(s) + " (mode " + std::to_string(sc.streams[s].mode) + ", buffer " + std::to_string(sc.streams[s].bufsize) + ") " + first_diff(want, d.data)); if (err[s]) return mk("bytes", -1, "a print left the error indicator set though nothing failed"); }
      else if (P == "C12") {
        std::string d1 = part2 ? d.data.substr(0, d.boundary) : d.data, d2 = part2 ? d.data.substr(d.boundary) : ""; int F = part2 ? d.failed_mark : d.failed;
        int g = pieces(want, d1, F + 1 > 40 ? 40 : F, d.dead);
        if (d.dead && F == 0 && want.compare(0, d1.size(), d1)) return mk("prefix", -1, "after the crash the device does not hold a prefix of the intended text; it " + first_diff(want, d1));
        if (g < 0) return mk("pieces", -1, "stream " + std::to_string(s) + ": what reached the device is not the intended text with at most " + std::to_string(F) + " pieces missing; it " + first_diff(want, d1));
        if (!part2 && d1 != want && !d.dead && !err[s]) return mk("noerror", -1, "text was lost and the error indicator is clear");
        if (part2 && (d2 != want2 || err[s])) return mk("recovery", -1, "stream " + std::to_string(s) + ": the device works again and the error was cleared, but the next print is not complete; it " + first_diff(want2, d2));
        for (auto &b : before) if (stream_of(sc.ops[b.first]) == (int)s && b.second.calls > ((int)E[b.first].size() * 4 + 64) * (int)sc.ops[b.first].repeat) return mk("unbounded", b.first, opn(sc, b.first) + ": " + std::to_string(b.second.calls) + " device writes for " + std::to_string(E[b.first].size()) + " bytes");
      } else {
        std::map<int, PartText> bythread; for (int opi : res.order) { Op &o = sc.ops[opi]; if (!(o.delim & 16) || stream_of(o) != (int)s) continue; PartText &p = bythread[res.out[opi].fiber]; size_t base = p.s.size(); p.s += E[opi]; p.inside.resize(p.s.size() + 1, 0); for (auto &sp : spans[opi]) for (size_t k = sp.first + 1; k < sp.second; k++) p.inside[base + k] = 1; }
        std::vector<PartText> parts; std::string all; for (auto &b : bythread) { b.second.inside.resize(b.second.s.size() + 1, 0); parts.push_back(b.second); all += b.second.s; }
        if (parts.size() <= 1) { if (d.data != all) return mk("private", -1, "stream " + std::to_string(s) + ", used by one thread, " + first_diff(all, d.data)); }
        else { g_counts["probe_shared_stream_runs"]++; if (!shuffle(d.data, parts)) return mk("shared", -1, "stream " + std::to_string(s) + ", shared by " + std::to_string(parts.size()) + " threads, is no interleaving of whole pieces of their texts: " + cut(d.data, 40) + " (" + std::to_string(d.data.size()) + " bytes, the texts have " + std::to_string(all.size()) + ")"); }
      }
    }
    for (size_t k = 0; k < sc.objs.size(); k++) { bool printed = false, written = false; for (int opi : res.order) for (size_t i = 0; i < sc.ops[opi].a.size(); i++) { auto &a = sc.ops[opi].a[i]; if (a.k == AO && a.r.obj == (int)k) { if (sc.ops[opi].delim & 16) printed = true; else if (arg_role(sc.ops[opi].fn, (int)i) != R_IN) written = true; if (!sc.ops[opi].sets.empty()) written = true; } }
      if (printed && !written && res.final_objs[k] != sc.objs[k].init) return mk("value", -1, "the printed value (object #" + std::to_string(k) + ") was changed"); }
    if (res.stuck) return mk("stuck", -1, "the printing threads block each other for ever");
    return none;
  };
  if (!f.any) f = judge1();
  for (auto &d : devs) dev_close(d); devs.clear(); stream_hook = nullptr; cur_sc = nullptr; return f;
}
