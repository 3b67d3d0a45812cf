#include "gen.h"
#include <cmath>
#include <cstdlib>
#include <algorithm>
Gen G;
std::string fname(int fn) { return T->fns[fn].name; }
static std::string strip(const std::string &n) { size_t p = n.find('_'); return p == std::string::npos ? n : n.substr(p + 1); }
void Gen::init(const char *df) {
  if (FILE *f = df ? fopen(df, "r") : nullptr) { char l[128]; while (fgets(l, sizeof l, f)) { char *s = strchr(l, ' '); if (!s) continue; float x = (float)atof(s); dict.push_back(x); fdict[std::string(l, s - l)].push_back(x); } fclose(f); std::sort(dict.begin(), dict.end()); dict.erase(std::unique(dict.begin(), dict.end()), dict.end()); }
  if (dict.empty()) dict = {0, 1, 0.5f, 2};
  fnd.assign(T->nfns, nullptr); for (int i = 0; i < T->nfns; i++) { std::string s = T->fns[i].file; size_t p = s.rfind('/'); if (p != std::string::npos) s = s.substr(p + 1); s = s.substr(0, s.find('.')); auto it = fdict.find(s); if (it != fdict.end()) fnd[i] = &it->second; }
  corpus.resize(T->nfns); prints.assign(T->nfns, 0);
  for (int i = 0; i < T->nfns; i++) {
    const cut_fn &f = T->fns[i]; for (int k = 0; k < f.np; k++) if (f.p[k].kind == K_FILE) prints[i] = 1;
    if (prints[i]) continue;
    calls.push_back(i); std::string b = strip(f.name); by_base[b].push_back(i);
    std::string file = f.file; size_t s = file.rfind('/'); by_file[s == std::string::npos ? file : file.substr(s + 1)].push_back(i);
    by_word[b.substr(0, b.find('_'))].push_back(i);
  }
}
// functions that touch the same module state
void Gen::find_mates() {
  mates.assign(T->nfns, {}); allhot.clear(); for (int i = 0; i < T->nfns; i++) if (g_hot[i] && !prints[i]) allhot.push_back(i);
  for (auto &g : g_touch) for (int a : g.second) for (int b : g.second) if (a != b && !prints[b] && mates[a].size() < 400 && std::find(mates[a].begin(), mates[a].end(), b) == mates[a].end()) mates[a].push_back(b);
}
int Gen::partner(int fn, Rng &r) {
  if (g_hot[fn]) {
    size_t z = 0; for (auto &g : g_touch) z += g.second.size(); if (z != nmates) { nmates = z; find_mates(); }
    int y = r.below(10); if (y < 6 && !mates[fn].empty()) return mates[fn][r.below((u32)mates[fn].size())]; if (y < 7 && !allhot.empty()) return allhot[r.below((u32)allhot.size())]; }
  std::string b = strip(T->fns[fn].name), file = T->fns[fn].file; size_t s = file.rfind('/'); if (s != std::string::npos) file = file.substr(s + 1);
  int x = r.below(100); std::vector<int> *v = &calls;
  if (x < 20) v = &by_base[b]; else if (x < 60) v = &by_file[file]; else if (x < 80) v = &by_word[b.substr(0, b.find('_'))];
  if (v->empty()) v = &calls;
  return (*v)[r.below((u32)v->size())];
}
float Gen::flt(Rng &r, int st) {
  static const float sp[] = {0.f, -0.f, 1.f, -1.f, 0.5f, -0.5f, 2.f, -2.f, 3.f, 4.f, 10.f, 0.1f, 100.f, 1e-3f, 1e-5f, 1e-6f, 1e-7f, 1.1920929e-7f, 0.99999f, 0.999999f, 1.000001f, 0.33333334f, 3.14159265f, 1.57079633f, 6.2831853f, -3.14159265f, 0.78539816f, -1.57079633f, 1e5f, 99999.99f, 1e6f, -1e6f};
  static const u32 hb[] = {0x7fc00000, 0xffc00000, 0x7f800000, 0xff800000, 0x7f7fffff, 0xff7fffff, 0x00000001, 0x80000001, 0x007fffff, 0x00800000, 0x7f000000, 0x60000000, 0xe0000000, 0x4f000000, 0xcf000000, 0x5f000000, 0x4b800000, 0x1e3ce508, 0x33800000};
  float f; u32 u;
  switch (st) {
  case 0: return (float)r.range(-160, 160) / 16.f;
  case 1: return (float)(r.d() * 2 - 1);
  case 2: return sp[r.below(sizeof sp / 4)];
  case 3: f = local && r.chance(0.6) ? (*local)[r.below((u32)local->size())] : dict[r.below((u32)dict.size())]; if (r.chance(0.3)) f = -f; if (r.chance(0.2)) { memcpy(&u, &f, 4); u += r.range(-2, 2); memcpy(&f, &u, 4); } return f;
  case 4: u = r.u_(); if (((u >> 23) & 255) == 255) u ^= 1u << 30; memcpy(&f, &u, 4); return f;
  case 5: return (float)r.range(-4, 4);
  case 6: if (r.chance(0.6)) { u = hb[r.below(sizeof hb / 4)]; memcpy(&f, &u, 4); return f; } return flt(r, r.chance(0.5) ? 4 : 2);
  case 7: return (float)r.d();
  case 8: return (float)((r.d() * 2 - 1) * 1e4);
  default: return (float)(r.d() * 20 - 10);
  }
}
void Gen::floats(Rng &r, float *f, int n, int st) {
  if (st < 0) { static const int w[] = {0, 0, 10, 1, 1, 2, 2, 3, 4, 5, 5, 6, 7, 7, 8, 9}; st = w[r.below(16)]; }
  if (st == 10) { int e = r.chance(0.7) ? r.range(30, 126) : -r.range(30, 140); if (r.chance(0.2)) e = -r.range(1, 29); for (int i = 0; i < n; i++) f[i] = ldexpf((float)(1 + r.d()) * (r.chance(0.3) ? -1.f : 1.f), e - (int)r.below(3)); } // all huge or all tiny
  else for (int i = 0; i < n; i++) f[i] = flt(r, st);
  if (n > 1 && r.chance(0.15)) { int k = r.below(n); bool neg = r.chance(0.4); for (int i = 0; i < n; i++) if (r.chance(0.5)) f[i] = neg && r.chance(0.5) ? -f[k] : f[k]; }
  if (n > 1 && st != 6 && r.chance(0.1)) f[r.below(n)] = flt(r, r.chance(0.3) ? 6 : 2);
  if (n > 1 && r.chance(0.08)) { for (int i = 0; i < n; i++) f[i] = 0; if (r.chance(0.5)) f[r.below(n)] = flt(r, 2); }
}
static void norm(float *f, int n) { double s = 0; for (int i = 0; i < n; i++) s += (double)f[i] * f[i]; s = sqrt(s); if (s > 1e-20) for (int i = 0; i < n; i++) f[i] = (float)(f[i] / s); }
static void dims(const std::string &t, int &c, int &rr) { c = t[3] - '0'; rr = t.size() > 5 && t[4] == 'x' ? t[5] - '0' : c; }
Bytes Gen::value(int fn, int i, Rng &r, int style, const Vals &sofar) {
  const cut_fn &F = T->fns[fn]; const cut_param &p = F.p[i]; const cut_type &t = T->types[p.type]; std::string tn = t.name, nm = p.name;
  u32 n = t.size * p.count;
  if (p.kind == K_ARRN || p.kind == K_PPARR) { u64 l = 0; if ((size_t)p.cn < sofar.size() && sofar[p.cn].size()) memcpy(&l, sofar[p.cn].data(), sofar[p.cn].size()); n = t.size * (u32)l; }
  Bytes b(n); bool hostile = style == 6;
  auto seti = [&](size_t k, int v) { memcpy(&b[k * 4], &v, 4); };
  if (p.dom == D_LEN) { int w = r.below(20); u64 l = w < 12 ? r.below(5) : w < 17 ? 5 + r.below(8) : 13 + r.below(28); memcpy(b.data(), &l, n); return b; }
  if (p.dom == D_LEN2) { int w = r.below(20); u64 l = w < 13 ? 2 + r.below(3) : w < 18 ? 5 + r.below(8) : 13 + r.below(28); memcpy(b.data(), &l, n); return b; }
  if (p.dom == D_EULER) { static const int es[] = {(0 << 0) | (1 << 2) | (2 << 4), (0 << 0) | (2 << 2) | (1 << 4), (1 << 0) | (0 << 2) | (2 << 4), (1 << 0) | (2 << 2) | (0 << 4), (2 << 0) | (0 << 2) | (1 << 4), (2 << 0) | (1 << 2) | (0 << 4)}; seti(0, es[r.below(6)]); return b; }
  if (p.dom >= D_MASK2 && p.dom <= D_MASK4) { int N = p.dom - D_MASK2 + 2, m = 0; for (int k = 0; k < N; k++) m |= (int)r.below(N) << (2 * k); seti(0, m); return b; }
  if (p.dom >= D_IDX2 && p.dom <= D_IDX4) { seti(0, (int)r.below(p.dom - D_IDX2 + 2)); return b; }
  if (p.dom == D_PERM3) { int o[3] = {0, 1, 2}; for (int k = 2; k > 0; k--) std::swap(o[k], o[r.below(k + 1)]); for (int k = 0; k < 3 && k * 4 < (int)n; k++) seti(k, o[k]); return b; }
  if (t.elem == 'b') { b[0] = r.chance(0.5); return b; }
  if (t.elem == 'i' || t.elem == 'u' || t.elem == 'e') {
    static const int si[] = {0, 1, -1, 2, 3, 7, 10, 100, -100, 255, 256, 65536, 2147483647, -2147483647 - 1, 2147483646, 46341, -5};
    for (size_t k = 0; k + 4 <= n; k += 4) { int v; if (p.dom == D_NZ) { do v = r.chance(0.5) ? r.range(-9, 9) : (int)r.u_(); while (v == 0); } else do v = r.chance(0.5) ? r.range(-9, 9) : r.chance(0.7) ? si[r.below(17)] : (int)r.u_(); while (p.dom == D_NOMIN && v == -2147483647 - 1); memcpy(&b[k], &v, 4); }
    return b;
  }
  if (t.elem == 'z') { u64 l = r.below(5); memcpy(b.data(), &l, n); return b; }
  // floats
  int nf = n / 4; float *f = (float *)b.data(); int st = style; if (!nf) return b;
  // correlate with an earlier argument of the same size
  if (i > 0 && r.chance(0.22)) { std::vector<int> c; for (int k = 0; k < i; k++) if (sofar[k].size() == n && F.p[k].type >= 0 && T->types[F.p[k].type].elem == 'f') c.push_back(k);
    if (!c.empty()) { const Bytes &o = sofar[c[r.below((u32)c.size())]]; memcpy(f, o.data(), n); int m = r.below(6);
      if (m == 1) for (int k = 0; k < nf; k++) f[k] = -f[k]; else if (m == 2) { float s = flt(r, 5); for (int k = 0; k < nf; k++) f[k] *= s; } else if (m == 3) { u32 u; int k = r.below(nf); memcpy(&u, &f[k], 4); u += r.range(-3, 3); memcpy(&f[k], &u, 4); }
      else if (m == 4) f[r.below(nf)] = flt(r, r.below(6)); else if (m == 5 && nf > 1) { for (int k = 0; k < nf; k++) f[k] = 0; float *s = (float *)o.data(); int x = r.below(nf), y = (x + 1) % nf; f[x] = -s[y]; f[y] = s[x]; }
      return b; } }
  if (hostile && r.chance(0.6)) { floats(r, f, nf, 6); return b; }
  bool mat = tn.compare(0, 3, "mat") == 0, quat = tn.compare(0, 6, "versor") == 0;
  if (mat) {
    int c, rr; dims(tn, c, rr); int per = c * rr;
    for (int q = 0; q + per <= nf; q += per) {
      float *m = f + q; int kind = r.below(12);
      auto ident = [&] { for (int a = 0; a < c; a++) for (int e = 0; e < rr; e++) m[a * rr + e] = a == e; };
      if (kind == 0) ident(); else if (kind == 1) { ident(); for (int a = 0; a < std::min(c, rr); a++) m[a * rr + a] = flt(r, r.below(6)); }
      else if (kind <= 5 && c == rr && c >= 3) { // rotation * scale (+ translation)
        ident(); double a = r.chance(0.3) ? r.range(-4, 4) * 1.5707963267948966 / 2 : (r.d() * 2 - 1) * 6.3; float ax[3]; for (float &x : ax) x = flt(r, r.chance(0.4) ? 5 : 1); norm(ax, 3); if (!(ax[0] || ax[1] || ax[2])) ax[1] = 1;
        double co = cos(a), si = sin(a), oc = 1 - co; double x = ax[0], y = ax[1], z = ax[2];
        double R[9] = {co + x * x * oc, x * y * oc + z * si, x * z * oc - y * si, x * y * oc - z * si, co + y * y * oc, y * z * oc + x * si, x * z * oc + y * si, y * z * oc - x * si, co + z * z * oc};
        for (int k = 0; k < 3; k++) { double s = kind == 2 ? 1 : flt(r, r.chance(0.5) ? 0 : 7) ; if (kind == 5 && r.chance(0.5)) s = -s; for (int e = 0; e < 3; e++) m[k * rr + e] = (float)(R[k * 3 + e] * s); }
        if (c == 4 && kind >= 3) for (int e = 0; e < 3; e++) m[12 + e] = flt(r, 0); }
      else if (kind == 6 && c == 4 && rr == 4) { // projection
        for (int k = 0; k < 16; k++) m[k] = 0; float n_ = 0.1f + (float)r.d(), fa = n_ + 1 + (float)(r.d() * 100); bool lh = r.chance(0.5), zo = r.chance(0.5), ortho = r.chance(0.4); m[0] = 0.5f + (float)r.d(); m[5] = 0.5f + (float)r.d(); if (r.chance(0.4)) { m[8] = flt(r, 1); m[9] = flt(r, 1); }
        if (ortho) { m[10] = (zo ? -1 : -2) / (fa - n_); m[14] = zo ? -n_ / (fa - n_) : -(fa + n_) / (fa - n_); m[12] = flt(r, 1); m[13] = flt(r, 1); m[15] = 1; } else { m[10] = (zo ? fa : fa + n_) / (lh ? fa - n_ : n_ - fa); m[11] = lh ? 1.f : -1.f; m[14] = (zo ? 1 : 2) * fa * n_ / (n_ - fa); } }
      else if (kind == 7) { floats(r, m, per, 0); int a = r.below(c), d = r.below(c); for (int e = 0; e < rr; e++) m[a * rr + e] = r.chance(0.5) ? m[d * rr + e] : 0; } // singular
      else floats(r, m, per, st);
      if (r.chance(0.06)) m[r.below(per)] = flt(r, r.chance(0.5) ? 6 : 2);
    }
    return b;
  }
  if (quat) { for (int q = 0; q + 4 <= nf; q += 4) { int k = r.below(8); if (k == 0) { f[q] = f[q + 1] = f[q + 2] = 0; f[q + 3] = 1; } else if (k == 1) { for (int e = 0; e < 4; e++) f[q + e] = 0; f[q + r.below(4)] = r.chance(0.5) ? 1.f : -1.f; } else if (k <= 5) { floats(r, f + q, 4, r.chance(0.5) ? 1 : 5); norm(f + q, 4); } else floats(r, f + q, 4, st); } return b; }
  auto has = [&](const char *s) { return nm.find(s) != std::string::npos; };
  if (nf >= 2 && (has("axis") || has("dir") || has("up") || nm == "n" || nm == "N" || has("from") || has("to") || r.chance(0.1)) && r.chance(0.6)) { floats(r, f, nf, r.chance(0.4) ? 5 : 1); if (!p.kind || nf <= 4) norm(f, nf); return b; }
  if (nf == 1 && (has("angle") || has("fov") || has("rot") || has("rad") || has("angles")) && r.chance(0.7)) { f[0] = r.chance(0.4) ? (float)(r.range(-8, 8) * 0.78539816339) : (float)((r.d() * 2 - 1) * 7); return b; }
  if (has("angles") && r.chance(0.7)) { for (int k = 0; k < nf; k++) f[k] = r.chance(0.4) ? (float)(r.range(-4, 4) * 0.78539816339) : (float)((r.d() * 2 - 1) * 3.2); return b; }
  if (nf == 1 && (nm == "t" || has("amount") || nm == "s") && r.chance(0.6)) { static const float tv[] = {0, 1, 0.5f, 0.25f, 0.75f, 1.5f, -0.5f, 0.999999f, 1e-7f}; f[0] = r.chance(0.5) ? tv[r.below(9)] : (float)r.d(); return b; }
  if (nf == 1 && (has("near") || has("far") || has("aspect") || has("size") || has("Dist")) && r.chance(0.7)) { f[0] = 0.1f + (float)(r.d() * (has("far") ? 100 : 3)); return b; }
  floats(r, f, nf, st);
  return b;
}
u32 vlen(int, int i, const Vals &v) { return (u32)v[i].size(); }
Vals Gen::make(int fn, Rng &r, int style) {
  const cut_fn &F = T->fns[fn]; Vals v(F.np); local = fnd[fn];
  for (int i = 0; i < F.np; i++) if (F.p[i].kind == K_VAL && (F.p[i].dom == D_LEN || F.p[i].dom == D_LEN2)) v[i] = value(fn, i, r, style, v);
  for (int i = 0; i < F.np; i++) { if (!v[i].empty() || F.p[i].kind == K_FILE || F.p[i].kind == K_CHAR) continue; Vals s = v; v[i] = value(fn, i, r, style, s); }
  if (style != 0 && r.chance(0.06)) { // one odd element among ordinary ones
    std::vector<int> c; for (int i = 0; i < F.np; i++) if (v[i].size() >= 4 && F.p[i].role != R_OUT && F.p[i].dom == D_ANY && F.p[i].type >= 0 && T->types[F.p[i].type].elem == 'f') c.push_back(i);
    if (!c.empty()) { Bytes &b = v[c[r.below((u32)c.size())]]; float x = flt(r, 6); if (r.chance(0.3)) { u32 u = 0x7fc00000; memcpy(&x, &u, 4); } memcpy(&b[r.below((u32)b.size() / 4) * 4], &x, 4); } }
  return v;
}
void Gen::mutate(int fn, Vals &v, Rng &r, bool one) {
  const cut_fn &F = T->fns[fn]; std::vector<int> c; local = fnd[fn];
  for (int i = 0; i < F.np; i++) if (v[i].size() && F.p[i].role != R_OUT && F.p[i].dom != D_LEN && F.p[i].dom != D_LEN2) c.push_back(i);
  if (c.empty()) return;
  int i = c[r.below((u32)c.size())]; const cut_param &p = F.p[i];
  if (p.dom != D_ANY || T->types[p.type].elem != 'f') {
    if (p.dom == D_ANY && v[i].size() >= 4 && T->types[p.type].elem == 'i') { int k = r.below((u32)v[i].size() / 4), x; memcpy(&x, &v[i][k * 4], 4); x = r.chance(0.5) ? (int)((u32)x + r.range(-3, 3)) : r.range(-9, 9); memcpy(&v[i][k * 4], &x, 4); return; }
    Bytes nb = value(fn, i, r, -1, v); if (nb.size() == v[i].size()) v[i] = nb; return; }
  float *f = (float *)v[i].data(); int n = (int)v[i].size() / 4; int k = r.below(n); u32 u;
  switch (r.below(one ? 4 : 6)) { case 0: f[k] = flt(r, r.below(10)); break; case 1: memcpy(&u, &f[k], 4); u += r.chance(0.5) ? 1 : -1; memcpy(&f[k], &u, 4); break; case 2: f[k] = -f[k]; break; case 3: f[k] = f[k] + flt(r, 5); break; case 4: floats(r, f, n, -1); break; case 5: f[k] = f[r.below(n)]; if (r.chance(0.4)) f[k] = -f[k]; break; }
}
Vals Gen::pick(int fn, Rng &r, bool hostile) {
  auto &c = corpus[fn];
  if (hostile && r.chance(0.6)) return make(fn, r, 6);
  if (!c.empty() && r.chance(0.6)) { Vals v = c[r.below((u32)c.size())]; if (r.chance(0.35)) mutate(fn, v, r, false); if (hostile && r.chance(0.5)) { Vals h = make(fn, r, 6); for (size_t i = 0; i < v.size(); i++) if (T->fns[fn].p[i].dom != D_LEN && T->fns[fn].p[i].dom != D_LEN2 && r.chance(0.3) && h[i].size() == v[i].size()) v[i] = h[i]; } return v; }
  return make(fn, r, -1);
}
static std::vector<Bytes> vals_pre(const Scenario &sc, const Vals &v) {
  std::vector<Bytes> pre; for (size_t i = 0; i < sc.ops[0].a.size(); i++) { const Arg &a = sc.ops[0].a[i]; Bytes x; if (a.k == AO) x = Bytes(sc.objs[a.r.obj].init.begin() + a.r.off, sc.objs[a.r.obj].init.begin() + a.r.off + arg_size(sc.ops[0], (int)i)); else if (a.k == AP) x = v[i]; pre.push_back(x); }
  return pre;
}
bool Gen::tryvals(int fn, Rng &r, const Vals &v) {
  Builder b(r); b.op(fn, 0, v, 0, 0.1, 0); b.sc.threads.resize(1); place(b.sc, r, 0); load_objects(b.sc);
  u64 c0 = cov_new; SoloEnv e; solo(b.sc, 0, vals_pre(b.sc, v), e);
  if (cov_new == c0) return false;
  keep(fn, v, r); return true;
}
void Gen::keep(int fn, const Vals &v, Rng &r) { auto &c = corpus[fn]; if (c.size() < 32) c.push_back(v); else c[8 + r.below((u32)c.size() - 8)] = v; }
void Gen::warm(int fn, Rng &r, int n) {
  int stale = 0;
  for (int k = 0; k < n; k++) {
    Vals v = k == 0 ? make(fn, r, 0) : k % 3 == 0 ? make(fn, r, 6) : pick(fn, r, false);
    if (tryvals(fn, r, v) || k == 0) { if (k == 0 && corpus[fn].empty()) corpus[fn].push_back(v); stale = 0; if (corpus[fn].size() < 12) aim(fn, r); } else if (++stale > 60 + n / 4) break;
  }
  aim(fn, r);
}
void Gen::aim(int fn, Rng &r) {
  auto &c = corpus[fn]; if (c.empty()) return; const cut_fn &F = T->fns[fn]; Vals base = c[r.chance(0.6) ? c.size() - 1 : r.below((u32)c.size())];
  g_cmps.clear(); g_trace_cmp = true; { Builder b(r); b.op(fn, 0, base, 0, 0, 0); b.sc.threads.resize(1); place(b.sc, r, 0); load_objects(b.sc); SoloEnv e; solo(b.sc, 0, vals_pre(b.sc, base), e); } g_trace_cmp = false;
  std::vector<CmpRec> cs; cs.swap(g_cmps); int budget = 48;
  for (size_t k = 0; k < cs.size() && budget > 0; k++) for (int side = 0; side < 2; side++) {
    u32 have = (u32)(side ? cs[k].b : cs[k].a), want = (u32)(side ? cs[k].a : cs[k].b); bool fl = cs[k].kind == 4;
    for (int i = 0; i < F.np && budget > 0; i++) {
      if (base[i].size() < 4 || F.p[i].role == R_OUT || F.p[i].dom != D_ANY) continue; char el = arg_elem(fn, i); if (fl != (el == 'f')) continue;
      for (size_t o = 0; o + 4 <= base[i].size() && budget > 0; o += 4) {
        u32 x; memcpy(&x, &base[i][o], 4); u32 flip = fl && (x ^ have) == 0x80000000u ? 0x80000000u : 0; if (x != have && !flip) continue;
        for (int d = -1; d <= 1; d++) { Vals v = base; u32 w = (want + d) ^ flip; memcpy(&v[i][o], &w, 4); budget--; if (tryvals(fn, r, v)) budget += 6; }
      } } }
}
void Gen::learn(const Scenario &sc) {
  Rng r(sc.seed ^ 77);
  for (auto &o : sc.ops) { if (prints[o.fn]) continue; const cut_fn &F = T->fns[o.fn]; Vals v(F.np); bool ok = true;
    for (int i = 0; i < F.np; i++) { const Arg &a = o.a[i]; if (a.k == AV) v[i] = a.v; else if (a.k == AO) { u32 n = arg_size(o, i); const Bytes &b = sc.objs[a.r.obj].init; if (a.r.off + n > b.size()) { ok = false; break; } v[i].assign(b.begin() + a.r.off, b.begin() + a.r.off + n); for (auto &s : o.sets) if (s.obj == a.r.obj && s.off == a.r.off && s.v.size() == n) v[i] = s.v; } else if (a.k == AP) { u32 n = T->types[F.p[i].type].size; for (auto &q : a.list) v[i].insert(v[i].end(), sc.objs[q.obj].init.begin() + q.off, sc.objs[q.obj].init.begin() + q.off + n); } }
    if (ok && r.chance(sc.ops.size() > 4 ? 0.5 : 1)) keep(o.fn, v, r); }
}
// ---------------------------------------------------------------- builder
int Builder::obj(int type, int count, const Bytes &b, int own, bool ro) {
  Obj o; o.type = type; o.count = count; o.size = (u32)b.size(); o.align = T->types[type].align; o.init = b; o.ro = ro; sc.objs.push_back(o); owner.push_back(own); return (int)sc.objs.size() - 1;
}
int Builder::op(int fn, int ctx, const Vals &v, double share, double alias, double ropr, bool reuse) {
  const cut_fn &F = T->fns[fn]; Op o; o.fn = fn; o.a.resize(F.np);
  std::vector<std::pair<int, int>> mine; // (object, arg) of this call's private input objects
  auto fits = [&](int k, u32 off, u32 n, int type) { const Obj &q = sc.objs[k]; return off + n <= q.size && off % T->types[type].align == 0 && (q.align >= (u32)T->types[type].align) && T->types[q.type].elem == T->types[type].elem; };
  auto used = [&](int k) { for (auto &a : o.a) { if (a.k == AO && a.r.obj == k) return true; if (a.k == AP) for (auto &x : a.list) if (x.obj == k) return true; } return false; };
  bool any_restrict = false; for (int i = 0; i < F.np; i++) any_restrict |= F.p[i].restrict_;
  std::vector<int> ord; for (int i = 0; i < F.np; i++) if (F.p[i].role == R_IN) ord.push_back(i); for (int i = 0; i < F.np; i++) if (F.p[i].role != R_IN) ord.push_back(i);
  for (int i : ord) {
    const cut_param &p = F.p[i]; Arg &a = o.a[i];
    if (p.kind == K_VAL) { a.k = AV; a.v = v[i]; continue; }
    if (p.kind == K_FILE) { a.k = AF; continue; }
    if (p.kind == K_CHAR) { a.k = AT; a.null_tag = true; continue; }
    if (p.kind == K_PPARR) {
      a.k = AP; u32 ts = T->types[p.type].size;
      for (size_t k = 0; k + ts <= v[i].size(); k += ts) { Ref rf; Bytes b(v[i].begin() + k, v[i].begin() + k + ts); rf.obj = obj(p.type, 1, b, ctx, r.chance(ropr)); a.list.push_back(rf); }
      continue; }
    a.k = AO; u32 n = (u32)v[i].size(); int found = -1; u32 foff = 0;
    bool own_dom = p.dom != D_ANY; // must keep its value: never shared, reused or aliased
    if (p.role == R_IN && !own_dom && r.chance(share)) { // a shared (never written) object, possibly a part of a larger one
      std::vector<std::pair<int, u32>> c; for (size_t k = 0; k < sc.objs.size(); k++) if (owner[k] == -1) for (u32 off = 0; off + n <= sc.objs[k].size; off += T->types[p.type].align) { if (fits((int)k, off, n, p.type)) c.push_back({(int)k, off}); if (sc.objs[k].type == p.type) break; }
      if (!c.empty()) { auto x = c[r.below((u32)c.size())]; found = x.first; foff = x.second; } }
    if (found < 0 && p.role != R_IN && !any_restrict && r.chance(alias)) { // in place
      std::vector<int> c; for (auto &m : mine) if (sc.objs[m.first].size == n && sc.objs[m.first].align >= (u32)T->types[p.type].align && T->types[sc.objs[m.first].type].elem == T->types[p.type].elem && !sc.objs[m.first].ro) c.push_back(m.first);
      bool dup = false; if (!c.empty()) { found = c[r.below((u32)c.size())]; for (int k = 0; k < F.np; k++) if (k != i && F.p[k].role != R_IN && o.a[k].k == AO && o.a[k].r.obj == found && o.a[k].r.obj >= 0) dup = true; if (dup) found = -1; } }
    if (found < 0 && reuse && !own_dom && r.chance(0.5)) { std::vector<int> c; for (size_t k = 0; k < sc.objs.size(); k++) if (owner[k] == ctx && fits((int)k, 0, n, p.type) && !used((int)k) && !(p.role != R_IN && sc.objs[k].ro)) c.push_back((int)k); if (!c.empty()) found = c[r.below((u32)c.size())]; }
    if (found < 0) { bool sh = p.role == R_IN && !own_dom && share > 0 && r.chance(0.7); bool ro = p.role == R_IN && r.chance(ropr); found = obj(p.type, p.count, v[i], sh ? -1 : own_dom ? -2 : ctx, ro); if (p.role == R_IN && !sh && !own_dom) mine.push_back({found, i}); }
    a.r.obj = found; a.r.off = foff;
  }
  sc.ops.push_back(o); return (int)sc.ops.size() - 1;
}
