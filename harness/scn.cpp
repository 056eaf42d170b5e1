#include "scn.h"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <sstream>
using sim::Rng;
using std::string;
using std::vector;

// ------------------------------------------------------------------ text
static string line_text(const Line &l) {
  string s = l.w;
  for (auto &k : l.kv) s += " " + k.first + "=" + std::to_string(k.second);
  return s + "\n";
}
string scn_text(const Scn &s) {
  string t = "prop " + s.prop + "\n";
  t += line_text(s.cfg);
  if (!s.misc.kv.empty()) t += line_text(s.misc);
  for (auto *v : {&s.comms, &s.objs, &s.ops, &s.passes}) for (auto &l : *v) t += line_text(l);
  for (auto &d : s.dec) {
    t += "dec " + std::to_string(d.first) + " ";
    // run lengths of zeros are written as zN
    size_t i = 0; const auto &v = d.second;
    while (i < v.size()) {
      if (v[i] == 0) { size_t j = i; while (j < v.size() && v[j] == 0) j++; t += "z" + std::to_string(j - i) + " "; i = j; }
      else t += std::to_string(v[i++]) + " ";
    }
    t += "\n";
  }
  return t;
}
bool scn_parse(const string &text, Scn &o) {
  o = Scn(); o.cfg.w = "cfg"; o.misc.w = "misc";
  std::istringstream f(text);
  string ln;
  while (std::getline(f, ln)) {
    std::istringstream g(ln);
    string w;
    if (!(g >> w) || w[0] == '#') continue;
    if (w == "prop") { g >> o.prop; continue; }
    if (w == "dec") {
      int p; g >> p; string x;
      auto &v = o.dec[p];
      while (g >> x) { if (x[0] == 'z') v.resize(v.size() + strtoul(x.c_str() + 1, 0, 10), 0); else v.push_back((uint32_t) strtoul(x.c_str(), 0, 10)); }
      continue;
    }
    Line l; l.w = w; string x;
    while (g >> x) { size_t e = x.find('='); if (e == string::npos) return false; l.kv[x.substr(0, e)] = strtoll(x.c_str() + e + 1, 0, 10); }
    if (w == "cfg") o.cfg = l; else if (w == "misc") o.misc = l; else if (w == "comm") o.comms.push_back(l);
    else if (w == "obj") o.objs.push_back(l); else if (w == "op_" || w.compare(0, 3, "op_") == 0) o.ops.push_back(l);
    else if (w == "pass") o.passes.push_back(l); else return false;
  }
  return !o.prop.empty();
}

// ------------------------------------------------------------------ communicators
// kind 0 world, 1 duplicate, 2 subset with permuted ranks, 3 two disjoint parts with permuted ranks, 4 self
vector<vector<int>> comm_groups(const Scn &s, int c) {
  int P = (int) s.cfg.g("ranks", 1);
  int kind = 0; uint64_t seed = 0;
  if (c >= 0 && c < (int) s.comms.size()) { kind = (int) s.comms[c].g("kind"); seed = (uint64_t) s.comms[c].g("seed"); }
  vector<vector<int>> r;
  if (kind <= 1) { r.resize(1); for (int i = 0; i < P; i++) r[0].push_back(i); return r; }
  if (kind == 4) { for (int i = 0; i < P; i++) r.push_back({i}); return r; }
  r.resize(kind == 3 ? 2 : 1);
  Rng g(seed);
  vector<std::pair<uint64_t, int>> key;
  for (int i = 0; i < P; i++) key.push_back({g.next() % 1000, i});
  int force = (int) g.below(P);
  for (int i = 0; i < P; i++) {
    int col = (int) (sim::mix(seed, (uint64_t) i) & 1);
    if (kind == 2 && i == force) col = 0;
    if (col < (int) r.size()) r[col].push_back(i);
  }
  for (auto &v : r) std::stable_sort(v.begin(), v.end(), [&](int a, int b) { return key[a].first < key[b].first; });
  r.erase(std::remove_if(r.begin(), r.end(), [](const vector<int> &v) { return v.empty(); }), r.end());
  return r;
}

// ------------------------------------------------------------------ tilings
static void factor3(Rng &g, int P, int &a, int &b, int &c, bool fa, bool fb, bool fc) {
  a = b = c = 1;
  int p = P;
  vector<int> f;
  for (int q = 2; q * q <= p; q++) while (p % q == 0) { f.push_back(q); p /= q; }
  if (p > 1) f.push_back(p);
  vector<int *> slots;
  if (fa) slots.push_back(&a);
  if (fb) slots.push_back(&b);
  if (fc) slots.push_back(&c);
  for (int x : f) *slots[g.below(slots.size())] *= x;
}
static vector<int> cuts(Rng &g, int n, int p, bool irregular) {
  vector<int> c;
  if (!irregular) { for (int i = 0; i <= p; i++) c.push_back((int) ((long) i * n / p)); return c; }
  c.push_back(0); c.push_back(n);
  for (int i = 1; i < p; i++) c.push_back((int) g.below(n + 1));
  std::sort(c.begin(), c.end());
  return c;
}
static void bisect(Rng &g, vector<Tile> &out, Tile t, int k, const bool may[3], bool unit = false) {
  if (k <= 1) { out.push_back(t); return; }
  int d[3], nd = 0;
  for (int i = 0; i < 3; i++) if (may[i] && t[2 * i + 1] > t[2 * i]) d[nd++] = i;
  if (!nd) {          // cannot be split further: the rest gets nothing
    out.push_back(t);
    for (int i = 1; i < k; i++) { Tile e = t; for (int q = 0; q < 3; q++) if (may[q] || q == 2) { e[2 * q] = e[2 * q + 1] + 1; break; } out.push_back(e); }
    return;
  }
  int ax = d[g.below(nd)];
  int lo = t[2 * ax], hi = t[2 * ax + 1];
  int c = lo + 1 + (int) g.below(hi - lo);
  if (unit) { int m[4] = {lo + 1, hi, (lo + hi + 1) / 2, lo + (hi - lo + 1) / 3}; c = std::max(lo + 1, m[g.below(4)]); }   // sizes that coincide
  int ka = g.chance(0.5) ? k / 2 : 1 + (int) g.below(k - 1);
  Tile a = t, b = t;
  a[2 * ax + 1] = c - 1; b[2 * ax] = c;
  bisect(g, out, a, ka, may, unit);
  bisect(g, out, b, k - ka, may, unit);
}
static void set_empty(Rng &g, Tile &t, const int n[3], int nd, int style) {
  // zero elements: hi = lo-1 in at least one dimension, bounds otherwise legal
  if (style == 0) { for (int d = 0; d < nd; d++) { t[2 * d] = 0; t[2 * d + 1] = -1; } for (int d = nd; d < 3; d++) { t[2 * d] = 0; t[2 * d + 1] = 0; } return; }
  int ed = (int) g.below(nd);
  for (int d = 0; d < 3; d++) {
    int N = n[d];
    if (d == ed || (d < nd && style == 3)) { int k = style == 1 ? 0 : (int) g.below(N + 1); t[2 * d] = k; t[2 * d + 1] = k - 1; }
    else if (d < nd && g.chance(0.5)) { int a = (int) g.below(N), b = (int) g.below(N); t[2 * d] = std::min(a, b); t[2 * d + 1] = std::max(a, b); }
    else { t[2 * d] = 0; t[2 * d + 1] = N - 1; }
  }
}
// 0 bricks, 1/2/3 whole lines along fast/mid/slow, 4 bricks with irregular cuts, 5 random bisection, 6 one owner, 7 few owners,
// 9/10/11 random bisection keeping fast/mid/slow lines whole, 12 slabs, 13 bisection into sizes that often coincide
vector<Tile> make_tiling(int type, uint64_t seed, int P, const int n[3], int nd) {
  Rng g(sim::mix(seed, 77));
  vector<Tile> t;
  Tile all = {0, n[0] - 1, 0, n[1] - 1, 0, n[2] - 1};
  bool d2 = nd > 2;
  bool permute_ranks = (seed & 1) != 0;
  int estyle = (int) ((seed >> 1) & 3);
  if (type == 0 || (type >= 1 && type <= 4) || type == 12) {
    bool f[3] = {true, true, d2};
    bool irr = type == 4 || ((seed >> 3) & 3) == 3;
    if (type >= 1 && type <= 3) f[type - 1] = false;
    if (type == 3 && !d2) { f[1] = false; f[0] = true; }
    if (type == 12) { int k = (int) g.below(nd); for (int i = 0; i < 3; i++) f[i] = i == k; }
    if (!f[0] && !f[1] && !f[2]) f[0] = true;
    int p[3];
    factor3(g, P, p[0], p[1], p[2], f[0], f[1], f[2]);
    vector<int> c[3];
    for (int d = 0; d < 3; d++) c[d] = cuts(g, n[d], p[d], irr);
    for (int k = 0; k < p[2]; k++) for (int j = 0; j < p[1]; j++) for (int i = 0; i < p[0]; i++)
      t.push_back({c[0][i], c[0][i + 1] - 1, c[1][j], c[1][j + 1] - 1, c[2][k], c[2][k + 1] - 1});
  } else if (type == 5 || type == 13 || (type >= 9 && type <= 11)) {
    bool may[3] = {true, true, d2};
    if (type >= 9 && type <= 11) { int k = type - 9; if (k == 2 && !d2) k = 1; may[k] = false; }
    bisect(g, t, all, P, may, type == 13);
  } else {
    int k = type == 6 ? 1 : 1 + (int) g.below(P);
    bool may[3] = {true, true, d2};
    bisect(g, t, all, k, may);
  }
  if ((int) t.size() > P) t.resize(P);
  for (auto &x : t) {
    bool e = x[1] < x[0] || x[3] < x[2] || x[5] < x[4];
    if (e && (type >= 5 && type <= 7)) set_empty(g, x, n, nd, estyle);
  }
  while ((int) t.size() < P) { Tile x = all; set_empty(g, x, n, nd, estyle); t.push_back(x); }
  if (permute_ranks) for (int i = P - 1; i > 0; i--) std::swap(t[i], t[g.below(i + 1)]);
  return t;
}

// ------------------------------------------------------------------ generation
static const int smooth[] = {2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 16, 18, 20, 24, 25, 27, 30, 32, 36, 40, 45, 48, 50, 54, 60, 64, 72, 75, 80, 81, 90, 96, 100, 108, 120, 125, 128, 135, 144, 150, 160, 180, 192, 200, 216, 225, 240, 243, 250, 256, 270, 288, 300, 320, 324, 360};
static void pick_grid(Rng &g, int nd, long maxn, int n[3]) {
  n[2] = 1;
  int ns = (int) (sizeof smooth / sizeof *smooth);
  for (;;) {
    int style = (int) g.below(10);
    for (int d = 0; d < nd; d++) {
      int lim = style < 6 ? (nd == 3 ? 10 : 16) : style < 9 ? 20 : ns;
      n[d] = smooth[g.below(lim)];
    }
    if (style == 9) for (int d = 0; d < nd; d++) if (g.chance(0.5)) n[d] = smooth[g.below(4)];
    if (g.chance(0.05)) n[0] = n[1] = 2;
    long N = (long) n[0] * n[1] * (nd == 3 ? n[2] : 1);
    if (N <= maxn) return;
  }
}
static int pick_tiling(Rng &g, bool out) {
  static const int w[] = {0, 0, 0, 1, 1, 2, 3, 3, 4, 4, 5, 5, 5, 6, 7, 7, 9, 9, 10, 11, 11, 12, 12, 13};
  if (out && g.chance(0.2)) return 8;
  return w[g.below(sizeof w / sizeof *w)];
}
static int pick_ranks(Rng &g, int lo, int hi) {
  static const int w[] = {1, 2, 2, 3, 3, 4, 4, 4, 5, 6, 6, 7, 8, 8, 9, 10, 12, 13, 16};
  int p = w[g.below(sizeof w / sizeof *w)];
  return std::max(lo, std::min(hi, p));
}
struct Gen {
  Scn s; Rng g; int tier; int maxranks; long maxn;
  int stretch = 0;                      // rare: 1 many processes, 2 large grid, 3 one very long dimension, 4 long history
  void lim(long m) { if (stretch == 2) maxn = std::min(maxn, 10 * m); else if (stretch != 3) maxn = std::min(maxn, m); }
  Gen(const string &prop, uint64_t seed, int t) : g(sim::mix(seed, 0x5ce)), tier(t) {
    s.prop = prop; s.cfg.w = "cfg"; s.misc.w = "misc";
    maxranks = t ? 16 : 12; maxn = t ? 8000 : 2500;
    s.cfg.kv["seed"] = (ll) (sim::mix(seed, 0x5eed) & 0x7fffffffffffll);
  }
  void world(int lo = 1, int hi = 99) {
    int x0 = (int) g.below(100);
    stretch = s.prop == "C08" ? 0 : x0 < 2 ? 1 : x0 < 4 ? 2 : x0 < 6 ? 3 : x0 < 8 ? 4 : 0;
    if (s.prop == "C07" && stretch >= 2) stretch = 0;
    s.cfg.kv["ranks"] = pick_ranks(g, lo, std::min(hi, maxranks));
    if (stretch == 1) { s.cfg.kv["ranks"] = 13 + (ll) g.below(s.prop == "C07" ? 8 : g.chance(0.1) ? (s.prop == "C09" ? 50 : 120) : tier ? 52 : 28); maxn = 600; }
    if (stretch == 2) { s.cfg.kv["ranks"] = lo + (ll) g.below(6); maxn = g.chance(0.1) ? (tier ? 800000 : 300000) : tier ? 200000 : 50000; }
    if (stretch == 3) s.cfg.kv["ranks"] = std::min<ll>(s.cfg.kv["ranks"], 6);
    static const int st[] = {0, 0, 2, 10};
    int x = st[g.below(4)];
    if (x) s.cfg.kv["stalls"] = x;
  }
  int P() { return (int) s.cfg.g("ranks", 1); }
  int comm(int kind) {
    Line l; l.w = "comm"; l.kv["kind"] = kind; if (kind >= 2) l.kv["seed"] = (ll) g.below(1000000);
    s.comms.push_back(l);
    return (int) s.comms.size() - 1;
  }
  // returns the index of a new object
  int obj(int kind, int c = -1) {
    Line l; l.w = "obj";
    auto &k = l.kv;
    k["kind"] = kind;
    if (c >= 0) k["c"] = c;
    int nd = (kind & 1) ? 3 : 2, n[3];
    pick_grid(g, nd, maxn, n);
    if (stretch == 2) { int m[3]; for (int q = 0; q < 40 && (long) n[0] * n[1] * n[2] < maxn / 4; q++) { for (int d = 0; d < 3; d++) m[d] = d < nd ? smooth[8 + g.below(nd == 3 ? 18 : 48)] : 1; if ((long) m[0] * m[1] * m[2] <= maxn) std::copy(m, m + 3, n); } }
    if (stretch == 3) {
      static const int lg[] = {384, 400, 512, 540, 625, 729, 750, 1000, 1024, 1080, 1500, 2000, 2048, 2187, 3125, 4096, 5000, 6561, 8192, 10000, 15625, 16384};
      int ld = (int) g.below(nd);
      for (int d = 0; d < nd; d++) n[d] = d == ld ? lg[g.below(g.chance(0.3) ? 22 : 16)] : smooth[g.below(3)];
    }
    if (kind >= 2 && stretch < 2 && g.chance(0.5)) for (int d = 0; d < nd; d++) n[d] = 1 + (int) g.below(nd == 3 ? 11 : 23);   // remaps take any extent
    for (int d = 0; d < nd; d++) k[string("n") + char('0' + d)] = n[d];
    k["tin"] = pick_tiling(g, false); k["sin"] = (ll) g.below(1 << 20);
    k["tout"] = pick_tiling(g, true); k["sout"] = (ll) g.below(1 << 20);
    k["perm"] = (ll) g.below(nd);
    if (g.chance(0.25)) { k["tout"] = 8; k["perm"] = 0; }
    if (g.chance(0.15)) { k["tin"] = g.chance(0.5) ? 1 : 9; }
    if (kind < 2 && g.chance(0.2)) { k["perm"] = nd - 1; k["tout"] = nd == 3 ? (g.chance(0.5) ? 3 : 11) : (g.chance(0.5) ? 2 : 10); }
    if (kind < 2) { k["coll"] = (ll) g.below(3); k["exch"] = (ll) g.below(2); k["mem"] = g.chance(0.3) ? 0 : 1; }
    else { k["coll"] = (ll) g.below(2); k["nqty"] = g.chance(0.3) ? 2 : g.chance(0.04) ? 6 + (ll) g.below(12) : 1 + (ll) g.below(5); k["mem"] = (ll) g.below(2); }
    k["pack"] = (ll) g.below(3);
    if (g.chance(s.prop == "C18" ? 0.1 : 0.04)) { k["dflt"] = 1; k["coll"] = kind < 2 ? 2 : 1; k["exch"] = 0; k["pack"] = 2; k["mem"] = 1; }   // no option is set
    if (kind >= 2 && c < 0 && stretch == 0 && P() >= 3 && P() <= 6 && g.chance(0.12)) coincide(k, nd);
    s.objs.push_back(l);
    return (int) s.objs.size() - 1;
  }
  // looks for small tilings in which the messages of one process are all of one length while those of others are not
  void coincide(std::map<string, ll> &k, int nd) {
    bool both = g.chance(0.6);
    for (int q = 0; q < 4000; q++) {
      int n[3] = {1 + (int) g.below(6), 1 + (int) g.below(6), nd == 3 ? 1 + (int) g.below(3) : 1}, p = P();
      int a = g.chance(0.5) ? 13 : 5, b = g.chance(0.5) ? 13 : 5;
      ll sa = (ll) g.below(1 << 20), sb = (ll) g.below(1 << 20);
      vector<Tile> ti = make_tiling(a, (uint64_t) sa, p, n, nd), to = make_tiling(b, (uint64_t) sb, p, n, nd);
      int w[6][6], uni = 0;
      for (int i = 0; i < p; i++) for (int j = 0; j < p; j++) {
        w[i][j] = 1;
        for (int d = 0; d < 3; d++) w[i][j] *= std::max(0, std::min(ti[i][2 * d + 1], to[j][2 * d + 1]) - std::max(ti[i][2 * d], to[j][2 * d]) + 1);
      }
      for (int i = 0; i < p; i++) {
        bool u = w[i][0] > 0;
        for (int j = 0; j < p; j++) if (w[i][j] != w[i][0] || (both && w[j][i] != w[i][0])) u = false;
        uni += u;
      }
      if (!uni || uni == p) continue;
      for (int d = 0; d < nd; d++) k[string("n") + char('0' + d)] = n[d];
      k["tin"] = a; k["sin"] = sa; k["tout"] = b; k["sout"] = sb;
      return;
    }
  }
  Line &op(const char *t, int o) {
    Line l; l.w = string("op_") + t; if (o >= 0) l.kv["o"] = o;
    s.ops.push_back(l);
    return s.ops.back();
  }
  int kind(int o) { return (int) s.objs[o].g("kind"); }
  ll ds() { return (ll) g.below(1000000); }
  void tune_args(Line &l) {
    l.kv["tune"] = 1;
    l.kv["tf"] = (ll) g.below(3) - 1; l.kv["tn"] = 1 + (ll) g.below(2); l.kv["tt"] = (ll) g.below(2);
    l.kv["tm"] = g.chance(0.6) ? 0 : (ll) (1 + g.below(1 << g.below(16)));    // microseconds
  }
  void start(int o, double ptune = 0) {
    op("create", o);
    setup(o, ptune);
  }
  void setup(int o, double ptune = 0) {
    Line &l = op("setup", o);
    if (kind(o) < 2 && g.chance(ptune)) tune_args(l);
    if (kind(o) < 2 && !s.objs[o].g("mem", 1)) op("setmem", o);
  }
  void compute(int o, int flag, double poop) {
    Line &l = op("compute", o);
    l.kv["flag"] = flag; l.kv["seed"] = ds();
    if (g.chance(poop)) l.kv["oop"] = 1;
  }
  void data_op(int o) {                 // any data operation
    if (kind(o) >= 2) { Line &l = op("remap", o); l.kv["seed"] = ds(); if (g.chance(0.4)) l.kv["oop"] = 1; return; }
    if (!s.objs[o].g("mem", 1) && g.chance(0.15)) op("setmem", o);      // other buffers from now on
    int x = (int) g.below(12);
    if (x < 6) compute(o, g.chance(0.5) ? 1 : -1, 0.35);
    else if (x < 8) { Line &l = op("remaps", o); l.kv["flag"] = g.chance(0.5) ? 1 : -1; l.kv["seed"] = ds(); if (g.chance(0.35)) l.kv["oop"] = 1; }
    else if (x < 10) { Line &l = op("stages", o); l.kv["flag"] = g.chance(0.5) ? 1 : -1; l.kv["seed"] = ds(); if (g.chance(0.35)) l.kv["oop"] = 1 + (ll) g.below(5); }
    else if (x < 11) { Line &l = op("only1d", o); l.kv["flag"] = g.chance(0.5) ? 1 : -1; }
    else flip(o, (int) g.below(2));
  }
  std::map<std::pair<int, int>, int> state;
  void flip(int o, int key) {           // scaling (0) or remap-only mode (1) is switched
    if (kind(o) >= 2) return;
    auto it = state.find({o, key});
    int v = it != state.end() ? it->second : key == 0 ? (int) s.objs[o].g("scale", 1) : 0;
    if (g.chance(0.85)) v = !v;
    state[{o, key}] = v;
    Line &l = op("set", o); l.kv["key"] = key; l.kv["v"] = v;
  }
  // a grid whose points (mem = 0) or bytes (mem = 1) cannot be counted in 32 bits; only set up, never transformed
  int huge(int kind) {
    int nd = (kind & 1) ? 3 : 2, sel = (int) g.below(2);
    s.cfg.kv["ranks"] = sel ? 1 + (ll) g.below(3) : 4 + (ll) g.below(6);
    int o = obj(kind);
    auto &k = s.objs[o].kv;
    k["mem"] = sel; k["tin"] = (ll) g.below(4); k["tout"] = g.chance(0.3) ? 8 : (ll) g.below(4);
    k["sin"] = (ll) g.below(8); k["sout"] = (ll) g.below(8); k["nqty"] = 2;
    if (k["dflt"]) { k["dflt"] = 0; }
    static const int l3[] = {720, 750, 768, 800, 810, 864, 900, 960, 972, 1000, 1024, 1080, 1125, 1152, 1200, 1215, 1250, 1280, 1296, 1350, 1440, 1458, 1500, 1536, 1600, 1620, 1728, 1800, 1920, 1944, 2000, 2048, 2160, 2187};
    static const int l2[] = {12800, 13122, 15000, 16384, 18000, 19683, 20000, 24000, 24576, 25000, 27000, 30000, 32768, 36000, 40000, 43200, 46080, 48000, 50000, 51200, 54000, 59049, 60000, 64000, 65536, 72000, 75000, 80000, 81920};
    double lo = sel ? (double) P() * 2.75e8 : 2147483648.0, hi = sel ? (double) P() * 4.5e8 : (double) P() * 7e8;
    for (int q = 0; q < 100000; q++) {
      int n[3] = {nd == 3 ? l3[g.below(34)] : l2[g.below(29)], nd == 3 ? l3[g.below(34)] : l2[g.below(29)], nd == 3 ? l3[g.below(34)] : 1};
      double N = (double) n[0] * n[1] * n[2];
      if (N <= lo || N > hi) continue;
      for (int d = 0; d < nd; d++) k[string("n") + char('0' + d)] = n[d];
      return o;
    }
    k["n0"] = 1024; k["n1"] = nd == 3 ? 1024 : 65536; if (nd == 3) k["n2"] = 1024;
    return o;
  }
  void some_comm(int o, double p) {
    if (!g.chance(p)) return;
    s.objs[o].kv["c"] = comm(1 + (int) g.below(3));
  }
};

Scn scn_gen(const string &prop, uint64_t seed, int tier) {
  Gen G(prop, seed, tier);
  Rng &g = G.g;
  if (prop == "C01") {
    G.world();
    int o = G.obj((int) g.below(2)); G.some_comm(o, 0.2);
    G.start(o, 0.03);
    int k = 1 + (int) g.below(2);
    for (int i = 0; i < k; i++) G.compute(o, 1, 0.3);
    if (g.chance(0.15)) { Line &l = G.op("set", o); l.kv["key"] = 0; l.kv["v"] = 0; G.compute(o, 1, 0.3); }
    G.op("destroy", o);
  } else if (prop == "C02") {
    G.world();
    int o = G.obj((int) g.below(2)); G.some_comm(o, 0.15);
    if (g.chance(0.5)) G.s.objs[o].kv["scale"] = (ll) g.below(2);
    G.start(o, 0.03);
    int k = 1 + (int) g.below(3);
    for (int i = 0; i < k; i++) {
      int x = (int) g.below(4);
      if (x < 2) G.compute(o, -1, 0.3);
      else if (x == 2) { Line &l = G.op("rt", o); l.kv["seed"] = G.ds(); if (g.chance(0.3)) l.kv["oop"] = 1; }
      else { G.flip(o, 0); G.compute(o, g.chance(0.7) ? -1 : 1, 0.3); }
    }
    G.op("destroy", o);
  } else if (prop == "C03") {
    G.world();
    int o = G.obj((int) g.below(2));
    G.start(o, 0.03);
    int k = 1 + (int) g.below(3);
    for (int i = 0; i < k; i++) {
      G.compute(o, g.chance(0.5) ? 1 : -1, 1.0);
      if (g.chance(0.2)) G.flip(o, (int) g.below(2));
    }
    G.op("destroy", o);
  } else if (prop == "C04") {
    G.world();
    int o = G.obj(2 + (int) g.below(2)); G.some_comm(o, 0.2);
    G.start(o);
    int k = 1 + (int) g.below(3);
    for (int i = 0; i < k; i++) { Line &l = G.op("remap", o); l.kv["seed"] = G.ds(); if (g.chance(0.5)) l.kv["oop"] = 1; }
    G.op("destroy", o);
  } else if (prop == "C05") {
    G.world(2);
    int o = G.obj(g.chance(0.8) ? (int) g.below(2) : 2 + (int) g.below(2));
    G.start(o);
    int k = 1 + (int) g.below(2);
    for (int i = 0; i < k; i++) G.data_op(o);
    if (G.kind(o) < 2) G.compute(o, g.chance(0.5) ? 1 : -1, 0.3);
    G.op("destroy", o);
    int np = 1 + (int) g.below(2);
    for (int i = 0; i < np; i++) {
      Line p; p.w = "pass"; p.kv["seed"] = G.ds();
      if (g.chance(0.7)) {
        if (g.chance(0.6)) p.kv["coll"] = (ll) g.below(G.kind(o) < 2 ? 3 : 2);
        if (g.chance(0.6) && G.kind(o) < 2) p.kv["exch"] = (ll) g.below(2);
        if (g.chance(0.6)) p.kv["pack"] = (ll) g.below(3);
        if (g.chance(0.4)) p.kv["mem"] = (ll) g.below(2);
      }
      G.s.passes.push_back(p);
    }
  } else if (prop == "C06") {
    G.world(2);
    G.s.cfg.kv["eager"] = g.chance(0.6) ? 0 : 50;
    if (g.chance(0.4)) G.s.cfg.kv["stalls"] = 25;
    G.lim(600);
    int no = 1 + (int) g.below(2);
    for (int i = 0; i < no; i++) {
      int o = G.obj(g.chance(0.7) ? (int) g.below(2) : 2 + (int) g.below(2)); G.some_comm(o, 0.3);
      G.start(o, 0.15);
    }
    int k = 1 + (int) g.below(4);
    for (int i = 0; i < k; i++) G.data_op((int) g.below(no));
    for (int i = 0; i < no; i++) G.op("destroy", i);
  } else if (prop == "C07") {
    G.world(g.chance(0.95) ? 2 : 1, 8);
    G.lim(400);
    G.s.cfg.kv["clock"] = 1 + (ll) g.below(4);
    int o = G.obj((int) g.below(2)); G.some_comm(o, 0.15);
    G.op("create", o);
    Line &l = G.op("setup", o); G.tune_args(l);
    if (!G.s.objs[o].g("mem", 1)) G.op("setmem", o);
    G.op("agree", o);
    G.compute(o, 1, 0.3); G.compute(o, -1, 0.3);
    G.op("destroy", o);
    G.s.misc.kv["explicit"] = 1;
  } else if (prop == "C08") {
    G.world(1, 6);
    G.s.cfg.kv.erase("stalls");
    G.lim(400);
    int o = G.obj((int) g.below(2));
    G.op("create", o);
    Line &l = G.op("setup", o);
    l.kv["tune"] = 1; l.kv["tf"] = (ll) g.below(3) - 1; l.kv["tn"] = 1 + (ll) g.below(g.chance(0.8) ? 4 : 12); l.kv["tt"] = (ll) g.below(2);
    G.s.misc.kv["regime"] = (ll) g.below(14); G.s.misc.kv["k"] = (ll) g.below(100);
    G.s.misc.kv["frac"] = 200 + (ll) g.below(601);      // place in the band, per mille
    G.s.misc.kv["net"] = 20 << g.below(6);              // cost of the network, percent
    if (g.chance(0.25)) { G.s.misc.kv["noise"] = 1; if (g.chance(0.5)) G.s.cfg.kv["stalls"] = 10; }
    if (g.chance(0.4)) { G.s.objs[o].kv["coll"] = 2; G.s.objs[o].kv["exch"] = 0; G.s.objs[o].kv["pack"] = 2; }
    if (!G.s.objs[o].g("mem", 1)) G.op("setmem", o);
    G.compute(o, g.chance(0.5) ? 1 : -1, 0.3);
    G.op("destroy", o);
  } else if (prop == "C09") {
    G.world(2);
    G.lim(600);
    int nc = (int) g.below(3);
    for (int i = 0; i < nc; i++) G.comm(1 + (int) g.below(4));
    int no = 2 + (int) g.below(3);
    if (G.stretch == 4) { no = 8 + (int) g.below(14); G.maxn = 60; }
    for (int i = 0; i < no; i++) G.obj((int) g.below(4), (int) g.below(nc + 1) - 1);
    vector<int> st(no, 0);
    int k = 6 + (int) g.below(12) + (no > 4 ? 2 * no : 0), napp = 0, nlate = 0;
    for (int i = 0; i < k; i++) {
      if (g.chance(0.3)) {              // application traffic
        int x = (int) g.below(3);
        if (x == 0) { Line &l = G.op("appsend", -1); l.kv["c"] = (ll) g.below(nc + 1) - 1; l.kv["tag"] = 1 + (ll) g.below(3); if (!napp) nlate = (int) g.below(3); if (nlate) l.kv["late"] = nlate; l.kv["shift"] = 1 + (ll) g.below(3); l.kv["len"] = (ll) g.below(40); l.kv["seed"] = G.ds(); napp++; }
        else if (x == 1 && napp) { G.op("appwait", -1); napp = 0; }
        else { Line &l = G.op("appcoll", -1); l.kv["c"] = (ll) g.below(nc + 1) - 1; l.kv["seed"] = G.ds(); }
        continue;
      }
      int o = (int) g.below(no);
      if (st[o] == 0) { G.start(o, 0.05); st[o] = 1; }
      else if (g.chance(0.15)) { G.op("destroy", o); st[o] = 0; }
      else G.data_op(o);
    }
    if (napp) G.op("appwait", -1);
    for (int i = 0; i < no; i++) if (st[i]) G.op("destroy", i);
  } else if (prop == "C10") {
    G.world();
    if (g.chance(0.5)) G.lim(400);
    int o = G.obj(g.chance(0.75) ? (int) g.below(2) : 2 + (int) g.below(2));
    G.s.objs[o].kv["mem"] = g.chance(0.8) ? 0 : 1;
    if (g.chance(0.3)) { G.s.objs[o].kv["exch"] = 1; G.s.objs[o].kv["coll"] = 0; }
    G.start(o, 0.1);
    int k = 1 + (int) g.below(4);
    for (int i = 0; i < k; i++) G.data_op(o);
    G.op("destroy", o);
  } else if (prop == "C11") {
    G.world(1, 8);
    G.lim(400);
    int o = G.obj(g.chance(0.75) ? (int) g.below(2) : 2 + (int) g.below(2)); G.some_comm(o, 0.1);
    G.start(o, 0.35);
    int k = 1 + (int) g.below(2);
    for (int i = 0; i < k; i++) G.data_op(o);
    G.op("destroy", o);
    G.s.misc.kv["fmode"] = (ll) g.below(4);
    G.s.misc.kv["frank"] = (ll) g.below(G.P()); G.s.misc.kv["fat"] = (ll) g.below(100000); G.s.misc.kv["flen"] = g.chance(0.6) ? 1 : g.chance(0.5) ? 3 : 100000;
  } else if (prop == "C12") {
    G.world(1, 10);
    G.lim(600);
    if (G.stretch == 0 && g.chance(0.01)) { int o = G.huge((int) g.below(2)); G.op("create", o); G.op("setup", o); G.op("destroy", o); return G.s; }
    int o = G.obj((int) g.below(2));
    G.some_comm(o, 0.15);
    if (!G.s.comms.empty()) G.s.comms[0].kv = {{"kind", 1}};
    auto &ob = G.s.objs[o].kv;
    ob["iface"] = g.chance(0.7) ? 0 : (ll) g.below(4);
    ll who = (ll) g.below(G.P()), x = (ll) g.below(26), v = (ll) g.below(3), dd = (ll) g.below(3);
    auto bad = [&](Line &l) { l.kv["bad"] = 30; };     // the call itself is misplaced, its arguments are fine
    auto any = [&](Line &l) { l.kv["seed"] = G.ds(); l.kv["flag"] = g.chance(0.5) ? 1 : -1; };
    if (x < 12) {                       // bad arguments of setup or tune
      if (x < 10) G.op("create", o);
      if (x < 10) {
        Line &l = G.op("setup", o); if (g.chance(0.25)) { G.tune_args(l); l.kv["tm"] = 0; l.kv["tn"] = 1; }
        l.kv["bad"] = x < 6 ? 1 + x : x < 8 ? 11 : 3 + (x & 1) * 3; l.kv["who"] = who; l.kv["v"] = l.kv["bad"] == 2 ? (ll) g.below(30) : v + 3 * (ll) g.below(2); l.kv["d"] = dd;
      } else if (x == 10) { Line &l = G.op("create", o); l.kv["bad"] = 1; l.kv["v"] = v; }
      else { G.op("create", o); Line &l = G.op("setup", o); G.tune_args(l); l.kv["bad"] = 20 + (ll) g.below(4); l.kv["v"] = v; }
    } else if (x == 12) { ob["mem"] = 1; G.op("create", o); Line &l = G.op("compute", o); any(l); bad(l); }
    else if (x == 13) { ob["mem"] = 0; G.op("create", o); G.op("setup", o); Line &l = G.op("compute", o); any(l); bad(l); }
    else if (x == 14) { ob["mem"] = 1; G.op("create", o); G.op("setup", o); bad(G.op("setmem", o)); }
    else if (x == 15) { ob["mem"] = 0; G.op("create", o); bad(G.op("setmem", o)); }
    else if (x == 16) { G.start(o, 0.1); if (g.chance(0.5)) G.compute(o, 1, 0.3); bad(G.op("setup", o)); }
    else if (x == 17) { G.start(o, 0.1); Line &l = G.op("setup", o); G.tune_args(l); bad(l); }
    else if (x == 18) { G.op("create", o); Line &l = G.op("remaps", o); any(l); bad(l); }
    else if (x == 19) { G.op("create", o); Line &l = G.op("stages", o); any(l); bad(l); }
    else if (x == 20) { G.op("create", o); Line &l = G.op("only1d", o); any(l); bad(l); }
    else if (x == 21) { ob["mem"] = 0; G.op("create", o); G.op("setup", o); Line &l = G.op(g.chance(0.5) ? "remaps" : "stages", o); any(l); bad(l); }
    else if (x == 22) { ob["kind"] = 2 + ob["kind"]; ob["coll"] = (ll) g.below(2); G.op("create", o); Line &l = G.op("remap", o); any(l); bad(l); }
    else {                              // legal use must not be rejected
      G.start(o, 0.1); G.data_op(o); G.data_op(o); G.op("destroy", o);
    }
  } else if (prop == "C13") {
    G.world(1, 8);
    G.lim(600);
    int no = 1 + (int) g.below(2), cyc = 1 + (int) g.below(3);
    for (int i = 0; i < no; i++) { int o = G.obj((int) g.below(4)); G.some_comm(o, 0.15); if (g.chance(0.2)) G.s.objs[o].kv["iface"] = 1 + (ll) g.below(3); }
    for (int c = 0; c < cyc; c++) {
      int o = (int) g.below(no);
      G.op("create", o);
      int x = (int) g.below(8);
      if (x == 0) ;                     // destroyed straight after creation
      else {
        G.setup(o, 0.2);
        if (x == 1 && G.s.ops.back().w == "op_setmem") G.s.ops.pop_back();
        if (x >= 2) { int k = 1 + (int) g.below(3); for (int i = 0; i < k; i++) G.data_op(o); }
        if (x == 7 && G.kind(o) < 2) { Line &l = G.op("set", o); l.kv["key"] = 2 + (ll) g.below(4); l.kv["v"] = (ll) g.below(2); }
        if (x == 7 && G.kind(o) >= 2) { Line &l = G.op("set", o); l.kv["key"] = g.chance(0.5) ? 2 : 4; l.kv["v"] = (ll) g.below(2); }
      }
      G.op("destroy", o);
    }
  } else if (prop == "C14" || prop == "C17") {
    G.world(1, 8);
    G.lim(600);
    if (G.stretch == 0 && g.chance(0.01)) {
      int o = G.huge((int) g.below(2)); G.op("create", o); G.op("setup", o); G.op("query", o); G.op("destroy", o);
      Line p; p.w = "pass"; p.kv["iface"] = prop == "C17" ? 4 : 1 + (ll) g.below(3); p.kv["same"] = 1;
      G.s.passes.push_back(p);
      return G.s;
    }
    int o = G.obj(g.chance(0.7) ? (int) g.below(2) : 2 + (int) g.below(2)); G.some_comm(o, 0.15);
    bool tune = G.kind(o) < 2 && g.chance(0.2);
    G.op("create", o);
    if (G.kind(o) < 2 && g.chance(0.3)) G.op("query", o);
    Line &l = G.op("setup", o); if (tune) G.tune_args(l);
    bool mem0 = G.kind(o) < 2 && !G.s.objs[o].g("mem", 1);
    if (mem0) G.op("setmem", o);
    if (G.kind(o) < 2) G.op("query", o);
    int k = 1 + (int) g.below(3);
    for (int i = 0; i < k; i++) G.data_op(o);
    if (g.chance(0.3) && G.kind(o) < 2) G.op("query", o);
    G.op("destroy", o);
    Line p; p.w = "pass"; p.kv["iface"] = prop == "C17" ? 4 : 1 + (ll) g.below(3); p.kv["same"] = 1; p.kv["fill"] = 1 + (ll) g.below(4);
    G.s.passes.push_back(p);
  } else if (prop == "C15") {
    G.world();
    int o = G.obj((int) g.below(2)); G.some_comm(o, 0.1);
    G.start(o, 0.03);
    int k = 1 + (int) g.below(4);
    for (int i = 0; i < k; i++) {
      int x = (int) g.below(8);
      if (x < 2) { Line &l = G.op("remaps", o); l.kv["flag"] = g.chance(0.5) ? 1 : -1; l.kv["seed"] = G.ds(); if (g.chance(0.4)) l.kv["oop"] = 1; }
      else if (x < 4) { Line &l = G.op("stages", o); l.kv["flag"] = g.chance(0.5) ? 1 : -1; l.kv["seed"] = G.ds(); if (g.chance(0.5)) l.kv["oop"] = 1 + (ll) g.below(5); }
      else if (x < 5) { Line &l = G.op("only1d", o); l.kv["flag"] = g.chance(0.5) ? 1 : -1; }
      else if (x < 7) { Line &l = G.op("set", o); l.kv["key"] = 1; l.kv["v"] = 1; G.compute(o, g.chance(0.5) ? 1 : -1, 0.4); if (g.chance(0.5)) { Line &m = G.op("set", o); m.kv["key"] = 1; m.kv["v"] = 0; if (g.chance(0.6)) G.compute(o, g.chance(0.3) ? 1 : -1, 0.4); } }
      else G.compute(o, g.chance(0.5) ? 1 : -1, 0.4);
    }
    G.op("destroy", o);
  } else if (prop == "C18") {
    G.world();
    G.lim(1500);
    if (G.stretch == 0 && g.chance(0.015)) { int o = G.huge((int) g.below(2)); G.s.objs[o].kv["iface"] = (ll) g.below(4); G.op("create", o); G.op("setup", o); G.op("destroy", o); return G.s; }
    int o = G.obj(g.chance(0.75) ? (int) g.below(2) : 2 + (int) g.below(2)); G.some_comm(o, 0.15);
    auto &ob = G.s.objs[o].kv;
    if (g.chance(0.3)) ob["iface"] = 1 + (ll) g.below(3);
    int nd = (ob["kind"] & 1) ? 3 : 2;
    if (ob["kind"] < 2) {               // layouts that need no movement at one end or at both
      if (g.chance(0.35)) ob["tin"] = g.chance(0.5) ? 1 : 9;
      if (g.chance(0.35)) { ob["perm"] = nd - 1; ob["tout"] = nd == 3 ? (g.chance(0.5) ? 3 : 11) : (g.chance(0.5) ? 2 : 10); }
    }
    G.start(o, 0.06);
    if (ob["kind"] < 2 && g.chance(0.7)) G.op("layout", o);
    int k = 1 + (int) g.below(4);
    for (int i = 0; i < k; i++) {
      if (ob["kind"] >= 2 || g.chance(0.3)) { G.data_op(o); continue; }
      Line &l = G.op(g.chance(0.6) ? "stages" : "remaps", o);
      l.kv["flag"] = g.chance(0.5) ? 1 : -1; l.kv["seed"] = G.ds(); if (g.chance(0.3)) l.kv["oop"] = 1;
    }
    G.op("destroy", o);
  } else if (prop == "C16") {
    G.world(1, 8);
    G.lim(600);
    int o = G.obj(g.chance(0.8) ? (int) g.below(2) : 2 + (int) g.below(2));
    G.start(o);
    int k = 3 + (int) g.below(6);
    for (int i = 0; i < k; i++) {
      if (g.chance(0.2)) { Line &l = G.op("set", o); l.kv["key"] = G.kind(o) < 2 ? 2 + (ll) g.below(4) : (g.chance(0.5) ? 2 : 4); l.kv["v"] = (ll) g.below(3); if (l.kv["key"] == 5 || l.kv["key"] == 3) l.kv["v"] &= 1; }
      else if (g.chance(0.1) && G.kind(o) < 2) G.op("query", o);
      else { if (g.chance(0.3)) G.flip(o, (int) g.below(2)); G.data_op(o); }
    }
    G.op("destroy", o);
    Line p; p.w = "pass"; p.kv["fresh"] = 1; if (g.chance(0.5)) p.kv["seed"] = G.ds();
    G.s.passes.push_back(p);
  }
  if (g.chance(0.4)) G.s.misc.kv["reuse"] = 1;
  if (g.chance(0.3)) G.s.misc.kv["align"] = 1 + (ll) g.below(2);
  if (G.stretch == 4 && prop != "C12" && prop != "C13" && prop != "C09" && prop != "C08") {   // the same operations again and again
    auto &v = G.s.ops;
    size_t a = 0, b = v.size();
    for (size_t i = 0; i < v.size(); i++) { if (v[i].w == "op_setup" || v[i].w == "op_create") a = i + 1; if (v[i].w == "op_destroy") { b = i; break; } }
    vector<Line> body;
    if (a < b) body.assign(v.begin() + a, v.begin() + b);
    if (!body.empty()) {
      vector<Line> more;
      int n = 20 + (int) g.below(30), tiny = 1;
      for (auto &o : G.s.objs) if (o.g("n0") * o.g("n1") * std::max<ll>(1, o.g("n2", 1)) > 100) tiny = 0;
      if (tiny && G.P() <= 4 && prop != "C11" && prop != "C07") n = 60 + (int) g.below(240);
      while ((int) more.size() < n) for (auto l : body) { if (l.kv.count("seed") && g.chance(0.7)) l.kv["seed"] = G.ds(); if (l.kv.count("flag") && prop != "C01" && g.chance(0.3)) l.kv["flag"] = -l.kv["flag"]; more.push_back(l); }
      v.insert(v.begin() + b, more.begin(), more.end());
    }
  }
  return G.s;
}
