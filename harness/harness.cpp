// Executes scenarios on the simulator with the library's real code and judges them.
#include "drvsel.h"
#include "scn.h"
#include "mpi.h"
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <memory>
#include <sanitizer/asan_interface.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <dlfcn.h>
#include <unordered_map>
#include <unistd.h>
using sim::Rng;
using sim::mix;
using std::string;
using std::vector;

extern "C" __attribute__((used)) const char *__asan_default_options() {
  return "halt_on_error=0:detect_leaks=0:symbolize=0:detect_stack_use_after_return=0:allocator_may_return_null=1:"
         "alloc_dealloc_mismatch=1:handle_abort=0:print_summary=0:quarantine_size_mb=16:malloc_context_size=0:max_malloc_fill_size=0:print_legend=0";
}

// ------------------------------------------------------------------ shared result
static const size_t DECCAP = 3 << 20;
struct Shm {
  volatile int done;
  char cls[64], detail[1600], sample[400];
  uint64_t loghash, ilhash;
  long steps, msgs, colls, switches, passes, nonzero_dec, soft, probes[24];
  double simtime;
  long faults[sim::F_NFAULT];
  int curpass;
  size_t ndec; size_t passstart[16];
  char out[3000];
  uint32_t dec[DECCAP];
};
static Shm *shm;
enum { PR_EMPTY_TILE, PR_OOP, PR_SUBCOMM, PR_PERMUTE, PR_EXCHANGE, PR_USERMEM, PR_TUNE, PR_REMAPONLY, PR_NOPRE, PR_NOPOST, PR_ALLOCFAIL, PR_ABORT, PR_REJECT,
       PR_BACKWARD, PR_MULTIPLAN, PR_APPMSG, PR_STAGES, PR_FORTRAN, PR_TUNE_SHORT, PR_TUNE_SHRINK, PR_TUNE_ONE, PR_N };
static const char *prname[PR_N] = {"empty_tile", "out_of_place", "sub_communicator", "permuted_output", "brick_exchange", "caller_buffers", "tuned", "remap_only", "input_already_pencils",
  "output_already_pencils", "allocation_failed", "job_aborted", "misuse_rejected", "backward", "several_plans", "application_messages", "stage_by_stage", "fortran_or_c_interface",
  "tuning_fewer_trials", "tuning_fewer_iterations", "tuning_single_trial"};
static void probe(int i) { shm->probes[i]++; }
static void dec_sink(uint32_t v) { if (shm->ndec < DECCAP) shm->dec[shm->ndec++] = v; if (v) shm->nonzero_dec++; }

// ------------------------------------------------------------------ violation classes
static string PROP;
static bool in(const char *list) { return strstr(list, PROP.c_str()) != nullptr; }
static bool relevant(const string &c) {
  if (c == "wrong-forward") return in("C01 C02 C03 C07 C09 C10 C11");
  if (c == "wrong-backward") return in("C02 C03 C07 C09 C10 C11");
  if (c == "wrong-move") return in("C15 C03 C09 C10 C11");
  if (c == "wrong-remap") return in("C04 C09 C10 C11");
  if (c == "input-modified") return in("C03 C04 C10 C15");
  if (c == "wrong-1d") return in("C15");
  if (c == "leak") return in("C13 C17");
  if (c == "disagree") return in("C07");
  if (c == "app-corrupted") return in("C09");
  if (c == "traffic") return in("C18");
  return true;
}
static void soft(const string &cls, const string &detail) {
  if (relevant(cls)) sim::fail(cls, detail);
  shm->soft++;
}

// ------------------------------------------------------------------ guarded arrays
static std::unordered_map<const void *, size_t> arr_bytes;   // the caller's arrays
// arrays an application keeps and fills again for every call, by (object, rank, use)
struct Block { char *b = nullptr; size_t cap = 0; };
static std::map<std::tuple<const void *, int, int>, Block> pool;
static bool pooled;                              // this run's application does so
static int oddalign;                             // 1: arrays aligned to 16 bytes only, 2: like one number only
struct Arr {
  char *base = nullptr, *p = nullptr; size_t n = 0, G = 64, cap = 0;
  void make(size_t bytes, int fill, const void *owner = nullptr, int use = 0, size_t atleast = 0) {
    n = bytes;
    G = 64;
    if (oddalign == 1) G += 16 * (bytes / 8 % 4);      // FFTW wants 16
    if (oddalign == 2) G += drv_scalar() * (1 + bytes / 16 % (56 / drv_scalar()));
    size_t need = (std::max(n, atleast) + 2 * 128 + 63) / 64 * 64;
    cap = 0;
    if (pooled && owner) {
      Block &k = pool[std::make_tuple(owner, sim::me(), use)];
      G = 64;
      if (k.cap < need) { if (k.b) { __asan_unpoison_memory_region(k.b, k.cap); free(k.b); } k.b = (char *) aligned_alloc(64, need); k.cap = need; }
      base = k.b; cap = k.cap;
      __asan_unpoison_memory_region(base, cap);
    } else base = (char *) aligned_alloc(64, need);
    p = base + G;
    memset(base, 0xC7, n + 2 * G);
    memset(p, fill, n);
    arr_bytes[p] = n;
    __asan_poison_memory_region(base, G);
    // the tail is poisoned from the exact end
    __asan_poison_memory_region(p + n, cap ? cap - G - n : G);
  }
  bool intact() {
    bool ok = true;
    __asan_unpoison_memory_region(base, G);
    __asan_unpoison_memory_region(p + n, G);
    for (size_t i = 0; i < G; i++) if ((unsigned char) base[i] != 0xC7 || (unsigned char) p[n + i] != 0xC7) ok = false;
    return ok;
  }
  void drop(const char *what) {
    if (!base) return;
    bool ok = intact();
    arr_bytes.erase(p);
    if (cap) __asan_poison_memory_region(base, cap); else free(base);     // nobody may touch it until it is used again
    base = p = nullptr; cap = 0;
    if (!ok) sim::fail("memory-error", string("memory next to ") + what + " was overwritten");
  }
};

// ------------------------------------------------------------------ data and reference
typedef std::complex<double> cpx;
static int SZ;                                   // sizeof(FFT_SCALAR)
// half of all data sets are dense random numbers, the others have structure: 8 one point, 9 few points, 10 constant, 11 real, 12 imaginary,
// 13 tiny, 14 large, 15 many magnitudes, 16 zero (signed)
static int data_kind(uint64_t seed) { int k = (int) (mix(seed, 0xda7a) % 17); return k < 8 ? 0 : k; }
static double val(uint64_t seed, long gi, int part) {
  uint64_t h = mix(seed * 2654435761u + 17, (uint64_t) gi * 2 + (uint64_t) part);
  double d = (double) (int64_t) (h >> 11) * (1.0 / 4503599627370496.0) - 1.0;
  static uint64_t last = ~0ull; static int kind; static double one;
  if (seed != last) { last = seed; kind = data_kind(seed); one = (double) (float) ((double) (mix(seed, 3) % 1999) / 1000.0 - 1.0); }
  switch (kind) {
    case 8: return gi == (long) (mix(seed, 5) % 64) ? (part ? -0.5 : 1.0) : 0.0;
    case 9: if ((mix(seed, (uint64_t) gi + 99) & 15) != 0) return 0.0; break;
    case 10: return part ? -one : one;
    case 11: if (part) return 0.0; break;
    case 12: if (!part) return 0.0; break;
    case 13: d *= 1e-18; break;
    case 14: d *= 1e15; break;
    case 15: d = ldexp(d, (int) (mix(seed, (uint64_t) gi + 7) % 40) - 20); break;
    case 16: return (h & 1) ? 0.0 : -0.0;
    default: break;
  }
  return (double) (float) d;
}
static uint64_t bits(uint64_t seed, long gi, int q) { return mix(seed ^ 0xabcdef, (uint64_t) gi * 32 + (uint64_t) q); }
static void put(void *a, size_t i, double v) { if (SZ == 8) ((double *) a)[i] = v; else ((float *) a)[i] = (float) v; }
static double get(const void *a, size_t i) { return SZ == 8 ? ((const double *) a)[i] : ((const float *) a)[i]; }

// reference: direct sums, long lines split by their smallest factor; long double throughout
typedef std::complex<long double> lcpx;
static void dft_line(const lcpx *x, long s, int m, const vector<lcpx> &tw, lcpx *out) {
  int M = (int) tw.size(), u = M / m, p = 2;
  while (m % p) p++;
  if (m <= 32 || p == m) {
    for (int k = 0; k < m; k++) {
      long double re = 0, im = 0;
      int idx = 0, st = k * u;
      for (int j = 0; j < m; j++) {
        const lcpx &v = x[j * s], &t = tw[idx];
        re += v.real() * t.real() - v.imag() * t.imag();
        im += v.real() * t.imag() + v.imag() * t.real();
        idx += st; if (idx >= M) idx -= M;
      }
      out[k] = lcpx(re, im);
    }
    return;
  }
  int h = m / p;
  vector<lcpx> part(m);
  for (int r = 0; r < p; r++) dft_line(x + r * s, s * p, h, tw, &part[(size_t) r * h]);
  for (int k = 0; k < m; k++) {
    long double re = 0, im = 0;
    for (int r = 0; r < p; r++) {
      const lcpx &v = part[(size_t) r * h + k % h], &t = tw[(long) r * k % m * u];
      re += v.real() * t.real() - v.imag() * t.imag();
      im += v.real() * t.imag() + v.imag() * t.real();
    }
    out[k] = lcpx(re, im);
  }
}
static vector<cpx> dft(const int n[3], uint64_t seed, int flag, double *norm) {
  long N = (long) n[0] * n[1] * n[2];
  vector<lcpx> a(N), line, res, tw;
  double s2 = 0;
  for (long i = 0; i < N; i++) { cpx v(val(seed, i, 0), val(seed, i, 1)); a[i] = lcpx(v.real(), v.imag()); s2 += std::norm(v); }
  *norm = std::sqrt(s2);
  long stride = 1;
  for (int d = 0; d < 3; d++) {
    int m = n[d];
    if (m > 1) {
      tw.resize(m); line.resize(m); res.resize(m);
      for (int k = 0; k < m; k++) {
        long double ang = -flag * 2.0L * 3.14159265358979323846264338327950288L * k / m;
        tw[k] = lcpx(cosl(ang), sinl(ang));
      }
      for (long hi = 0; hi < N; hi += stride * m) for (long lo = 0; lo < stride; lo++) {
        long b = hi + lo;
        for (int k = 0; k < m; k++) line[k] = a[b + k * stride];
        dft_line(line.data(), 1, m, tw, res.data());
        for (int k = 0; k < m; k++) a[b + k * stride] = res[k];
      }
    }
    stride *= m;
  }
  vector<cpx> o(N);
  for (long i = 0; i < N; i++) o[i] = cpx((double) a[i].real(), (double) a[i].imag());
  return o;
}
// calls f(local index, global index) over a tile in storage order `perm` (0: i,j,k fast to slow; 1: j,k,i; 2: k,i,j; 2d: 1 is j,i)
template <class F> static void walk(const Tile &t, const int n[3], int nd, int perm, F f) {
  static const int ord3[3][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}}, ord2[2][3] = {{0, 1, 2}, {1, 0, 2}};
  const int *o = nd == 3 ? ord3[perm] : ord2[perm & 1];
  long l = 0;
  int x[3];
  for (x[o[2]] = t[2 * o[2]]; x[o[2]] <= t[2 * o[2] + 1]; x[o[2]]++)
    for (x[o[1]] = t[2 * o[1]]; x[o[1]] <= t[2 * o[1] + 1]; x[o[1]]++)
      for (x[o[0]] = t[2 * o[0]]; x[o[0]] <= t[2 * o[0] + 1]; x[o[0]]++)
        f(l++, ((long) x[2] * n[1] + x[1]) * n[0] + x[0]);
}

// ------------------------------------------------------------------ one simulated execution
struct Rec {
  std::map<std::pair<int, int>, string> out;      // (operation, world rank) -> bytes produced
  sim::Result res;
};
struct ObjDef {
  int kind, iface, c, n[3], nd, perm, coll, exch, pack, mem, nqty, scale; bool dflt;
  vector<vector<Tile>> tin, tout;                 // per group of the communicator
};
struct Env {
  Scn s;
  int pass = 0;
  Line pl;                                        // overrides of this pass
  bool fresh = false, memover = false;
  vector<ObjDef> obj;
  vector<vector<vector<int>>> groups;             // [comm+1]
  Rec *rec = nullptr;
  std::map<std::pair<int, int>, string> agree;
  std::map<string, std::pair<vector<cpx>, double>> ref;
  vector<char> badreturn;
  std::map<int, std::set<int>> seen, tags;        // nonzero tags of the library on communicator c+1: seen in this pass, to be used by the application
  // tuning
  bool probe_mode = false; double tmax_override = -1;
  struct Cost { double setup = 0, fft = 0, d1 = 0, remap = 0, stage[4] = {0, 0, 0, 0}; };
  int probe_iter = 1;
  std::map<std::pair<int, int>, Cost> cost;       // (collective, exchange) -> measured by timing the public calls
  struct Rep {
    bool set = false; int nt = 0, npt = 0, cb = 0, eb = 0, pb = 0, c = 0, e = 0, p = 0; double best = 0, setup = 0, elapsed = 0;
    vector<int> cf, ef, pf; vector<double> t, t1, tr; vector<vector<double>> tk;
  };
  vector<Rep> rep;
  // what was sent in one call, by (operation, stage or 0, group): points per (sender, receiver), exchanges per process
  struct Flow { int P = 0, kind = 0, nranks = 0, maxcoll = 0; long maxmsg = 0, bytes = 0, limit = 0; int wantcoll = -1; string w; };
  std::map<std::array<int, 3>, Flow> flow;
  std::map<std::array<int, 2>, vector<vector<int>>> own;   // (object, group): owner of every point before and after every stage
};
struct RObj {
  void *h = nullptr; bool alive = false, set = false;
  int sz[3] = {0, 0, 0};
  Arr sb, rb;
  bool hasbuf = false;
  int scaled = 1, remaponly = 0;
  int coll = 0, exch = 0; long memusage = 0;      // as set up
  bool switched = false;                          // has been in remap-only mode
  sim::Live d;
};
static const char *KEY[] = {"scale", "remaponly", "collective", "exchange", "pack", "memory"};

static void load_objs(Env &e) {
  const Scn &s = e.s;
  e.groups.clear();
  for (int c = -1; c < (int) s.comms.size(); c++) e.groups.push_back(comm_groups(s, c));
  e.obj.clear();
  for (auto &l : s.objs) {
    ObjDef o;
    o.kind = (int) l.g("kind", 1) & 3; o.iface = (int) l.g("iface") % 5; o.c = (int) l.g("c", -1);
    if (o.c >= (int) s.comms.size()) o.c = -1;
    o.nd = (o.kind & 1) ? 3 : 2;
    o.n[0] = (int) l.g("n0", 4); o.n[1] = (int) l.g("n1", 4); o.n[2] = o.nd == 3 ? (int) l.g("n2", 4) : 1;
    o.perm = (int) l.g("perm") % o.nd; o.coll = (int) l.g("coll", o.kind < 2 ? 2 : 1); o.exch = (int) l.g("exch"); o.pack = (int) l.g("pack", 2);
    o.mem = (int) l.g("mem", 1); o.nqty = (int) l.g("nqty", 2); o.scale = (int) l.g("scale", 1);
    o.dflt = l.g("dflt") && o.coll == (o.kind < 2 ? 2 : 1) && o.exch == 0 && o.pack == 2 && o.mem == 1;
    if (o.kind >= 2 && o.coll > 1) o.coll = 1;
    const Line &p = e.pl;
    if (p.kv.count("coll") || p.kv.count("exch") || p.kv.count("pack") || p.kv.count("mem")) o.dflt = false;
    if (p.kv.count("iface")) o.iface = (int) p.g("iface") % 5;
    if (p.kv.count("coll")) { o.coll = (int) p.g("coll"); if (o.kind >= 2 && o.coll > 1) o.coll = 1; }
    if (p.kv.count("exch")) o.exch = (int) p.g("exch");
    if (p.kv.count("pack")) o.pack = (int) p.g("pack");
    if (p.kv.count("mem")) { o.mem = (int) p.g("mem"); e.memover = true; }
    for (auto &g : e.groups[o.c + 1]) {
      int P = (int) g.size();
      auto a = make_tiling((int) l.g("tin"), (uint64_t) l.g("sin"), P, o.n, o.nd);
      auto b = l.g("tout") == 8 ? a : make_tiling((int) l.g("tout"), (uint64_t) l.g("sout"), P, o.n, o.nd);
      o.tin.push_back(a); o.tout.push_back(b);
    }
    e.obj.push_back(o);
  }
}
static const std::pair<vector<cpx>, double> &reference(Env &e, const ObjDef &o, uint64_t seed, int flag) {
  char k[96];
  snprintf(k, sizeof k, "%d,%d,%d,%llu,%d", o.n[0], o.n[1], o.n[2], (unsigned long long) seed, flag);
  auto it = e.ref.find(k);
  if (it == e.ref.end()) { double nn; auto v = dft(o.n, seed, flag, &nn); it = e.ref.insert({k, {std::move(v), nn}}).first; }
  return it->second;
}

struct Rank {
  Env &e; int r;
  vector<MPI_Comm> ch;
  vector<RObj> ro;
  struct App { vector<char> s, v; MPI_Request q[2]; uint64_t want; int len, late, to, from, tag; MPI_Comm h; };
  vector<std::unique_ptr<App>> app;
  Rank(Env &env, int rank) : e(env), r(rank), ro(env.obj.size()) {}

  int grp(int c, int *cr) {
    auto &g = e.groups[c + 1];
    for (size_t i = 0; i < g.size(); i++) for (size_t j = 0; j < g[i].size(); j++) if (g[i][j] == r) { *cr = (int) j; return (int) i; }
    return -1;
  }
  string at(const ObjDef &o, int k, const char *what) {
    static const char *kn[] = {"2d FFT", "3d FFT", "2d remap", "3d remap"};
    return "rank " + std::to_string(r) + ", operation " + std::to_string(k) + " (" + what + ", " + kn[o.kind] + ")";
  }
  void bounds(const ObjDef &o, const Tile &a, const Tile &b, int *v) {
    int m = 0;
    for (int i = 0; i < 2 * o.nd; i++) v[m++] = a[i];
    for (int i = 0; i < 2 * o.nd; i++) v[m++] = b[i];
  }
  void create(const ObjDef &o, RObj &x, int prec) {
    MPI_Comm c = o.c < 0 ? MPI_COMM_WORLD : ch[o.c];
    x = RObj();
    x.h = D_create(o.kind, o.iface, c, prec);
    x.alive = true;
    if (o.iface) probe(PR_FORTRAN);
    x.scaled = 1;
    if (o.dflt && o.scale == 1) return;           // as they are by default
    D_set(o.kind, o.iface, x.h, "collective", o.coll);
    D_set(o.kind, o.iface, x.h, "pack", o.pack);
    if (o.kind < 2) {
      D_set(o.kind, o.iface, x.h, "exchange", o.exch);
      D_set(o.kind, o.iface, x.h, "memory", o.mem);
      if (o.scale != 1) D_set(o.kind, o.iface, x.h, "scale", o.scale);
      x.scaled = o.scale;
    }
  }
  void setup(const ObjDef &o, RObj &x, const Tile &a, const Tile &b, const Line &l, int k) {
    int v[12]; bounds(o, a, b, v);
    int n[3] = {o.n[0], o.n[1], o.n[2]};
    int bad = (int) l.g("bad"), who = (int) l.g("who"), d = (int) l.g("d") % o.nd, vr = (int) l.g("v");
    int perm = o.perm, tf = (int) l.g("tf"), tn = (int) l.g("tn", 1), tt = (int) l.g("tt");
    double tm = (double) l.g("tm") * 1e-6;
    if (e.tmax_override >= 0) tm = e.tmax_override;
    if (bad == 1 || bad == 2) {         // the tiles fit the wrong grid: nothing but its size is wrong
      static const int nf[] = {7, 22, 39, 14, 21, 28, 35, 49, 11, 13, 17, 19, 26, 77, 97, 121, 63, 70, 98, 105, 112, 175, 343, 1001, 448, 210, 31, 37, 84, 56};
      n[d] = bad == 1 ? (vr % 3 == 0 ? 1 : vr % 3 == 1 ? 0 : -4) : nf[vr % 30];
      if (n[d] > 0) {
        int cr = 0, g = grp(o.c, &cr), P = (int) e.groups[o.c + 1][g].size();
        const Line &ol = e.s.objs[&o - e.obj.data()];
        int ti = (int) ol.g("tin"), to = (int) ol.g("tout");
        if (o.nd == 3 && n[d] > 100) ti = to = 0;
        auto ta = make_tiling(ti, (uint64_t) ol.g("sin"), P, n, o.nd), tb = to == 8 ? ta : make_tiling(to, (uint64_t) ol.g("sout"), P, n, o.nd);
        bounds(o, ta[cr], tb[cr], v);
      } else if (n[d] == 0) { v[2 * d] = 0; v[2 * d + 1] = -1; v[2 * o.nd + 2 * d] = 0; v[2 * o.nd + 2 * d + 1] = -1; }
    }
    else if (bad == 11) perm = vr % 3 == 0 ? o.nd : vr % 3 == 1 ? -1 : o.nd + 1;
    else if (bad >= 3 && bad <= 6) {
      int c = bad - 3, cr = 0, g = grp(o.c, &cr), P = (int) e.groups[o.c + 1][g].size();
      bool keep = vr >= 3;              // the number of points stays right
      if (keep) while (tile_size(o.tin[g][who % P]) == 0) who++;
      vr %= 3;
      if (cr == who % P) {
        int *lo = &v[2 * d], *hi = lo + 1, len = *hi - *lo + 1;
        if (keep && c == 0) { *lo = -1 - vr; *hi = *lo + len - 1; }
        else if (keep && c == 1) { *hi = n[d] + vr; *lo = *hi - len + 1; }
        else if (keep && c == 2) { int *l2 = &v[2 * ((d + 1) % o.nd)], n2 = l2[1] - l2[0] + 1; *hi = *lo - len - 1; l2[1] = l2[0] - n2 - 1; }
        else if (c == 0) { *lo = -1 - vr; if (vr == 0) { *lo = -1; *hi = *lo + 1 + (*hi > 0 ? *hi : 0); } }
        else if (c == 1) *hi = n[d] + vr;
        else if (c == 2) { *hi = *lo - 2 - vr; }
        else {                          // one tile one layer larger or smaller, still inside the grid: the total is wrong
          bool e2 = tile_size(a) == 0;
          if (e2) { for (int q = 0; q < o.nd; q++) { v[2 * q] = 0; v[2 * q + 1] = 0; } }
          else if (*hi < n[d] - 1 && (vr & 1)) ++*hi;
          else --*hi;
        }
      }
    } else if (bad == 20) tf = vr & 1 ? 2 : -2;
    else if (bad == 21) tn = -(vr & 1);
    else if (bad == 22) tm = -1.0 - vr;
    else if (bad == 23) tt = vr & 1 ? 2 : -1;
    x.sz[0] = x.sz[1] = x.sz[2] = -12345;
    if (o.kind < 2) {
      if (l.g("tune")) { probe(PR_TUNE); D_tune(o.kind, o.iface, x.h, n, v, perm, x.sz, tf, tn, tm, tt); }
      else D_setup(o.kind, o.iface, x.h, n, v, perm, x.sz);
      if (bad) return;
      if (x.sz[0] < std::max(tile_size(a), tile_size(b)) || x.sz[1] < 0 || x.sz[2] < 0)
        sim::fail("size-too-small", at(o, k, "setup") + ": transform size " + std::to_string(x.sz[0]) + ", tiles of " + std::to_string(tile_size(a)) + " and " + std::to_string(tile_size(b)));
      if (PROP == "C18") judge_setup(o, x, k, l.g("tune") != 0);
    } else {
      D_rsetup(o.kind, o.iface, x.h, v, o.nqty, perm, o.mem, x.sz);
      if (x.sz[0] < 0 || x.sz[1] < 0) sim::fail("size-too-small", at(o, k, "setup") + ": negative buffer length");
    }
    x.set = true;
    if (!tile_size(a) || !tile_size(b)) probe(PR_EMPTY_TILE);
    if (o.perm) probe(PR_PERMUTE);
    if (o.exch && o.kind < 2) probe(PR_EXCHANGE);
    if (o.c >= 0) probe(PR_SUBCOMM);
  }
  void userbuf(const ObjDef &o, RObj &x) {
    if (x.hasbuf) { x.sb.drop("the caller's send buffer"); x.rb.drop("the caller's receive buffer"); }
    size_t s = o.kind < 2 ? x.sz[1] : x.sz[0], q = o.kind < 2 ? x.sz[2] : x.sz[1];
    x.sb.make(s * SZ, 0x77); x.rb.make(q * SZ, 0x77); x.hasbuf = true;
    probe(PR_USERMEM);
  }
  void setmem(const ObjDef &o, RObj &x) {
    if (x.sz[1] < 0) x.sz[0] = x.sz[1] = x.sz[2] = 16;
    userbuf(o, x);
    D_setup_memory(o.kind, o.iface, x.h, x.sb.p, x.rb.p);
  }
  void destroy(const ObjDef &o, RObj &x) {
    D_destroy(o.kind, o.iface, x.h);
    x.alive = x.set = false;
    if (x.hasbuf) { x.sb.drop("the caller's send buffer"); x.rb.drop("the caller's receive buffer"); x.hasbuf = false; }
  }
  void record(int k, const void *p, size_t n) {
    sim::note(sim::hash_bytes(p, n));
    if (e.rec) e.rec->out[{k, r}].append((const char *) p, n);
  }
  void check_fft(const ObjDef &o, const Tile &t, int perm, const void *a, uint64_t seed, int flag, double factor, const char *cls, const string &w) {
    auto &rf = reference(e, o, seed, flag);
    double eps = SZ == 8 ? 2.2e-16 : 1.2e-7;
    double tol = eps * 60 * rf.second * factor;
    if (data_kind(seed)) tol = eps * (60 + 8 * std::sqrt((double) o.n[0] * o.n[1] * o.n[2])) * rf.second * factor;   // rounding errors of structured data add up
    walk(t, o.n, o.nd, perm, [&](long l, long g) {
      double re = get(a, 2 * l), im = get(a, 2 * l + 1);
      double dr = std::fabs(re - rf.first[g].real() * factor), di = std::fabs(im - rf.first[g].imag() * factor);
      if (!(dr <= tol) || !(di <= tol)) {
        char b[240];
        snprintf(b, sizeof b, ": point %ld of the grid is (%.9g,%.9g), expected (%.9g,%.9g)", g, re, im, rf.first[g].real() * factor, rf.first[g].imag() * factor);
        soft(cls, w + b);
        factor = 0; tol = INFINITY;     // reported once
      }
    });
  }
  void fill(const ObjDef &o, const Tile &t, int perm, void *a, uint64_t seed) {
    walk(t, o.n, o.nd, perm, [&](long l, long g) { put(a, 2 * l, val(seed, g, 0)); put(a, 2 * l + 1, val(seed, g, 1)); });
  }
  void check_move(const ObjDef &o, const Tile &t, int perm, const void *a, uint64_t seed, const string &w) {
    bool done = false;
    walk(t, o.n, o.nd, perm, [&](long l, long g) {
      if (done) return;
      double re = get(a, 2 * l), im = get(a, 2 * l + 1);
      double wr = val(seed, g, 0), wi = val(seed, g, 1);
      if (memcmp(&re, &wr, 8) || memcmp(&im, &wi, 8)) {      // zeros have a sign
        done = true;
        char b[200];
        snprintf(b, sizeof b, ": point %ld of the grid is (%.9g,%.9g), expected (%.9g,%.9g)", g, re, im, val(seed, g, 0), val(seed, g, 1));
        soft("wrong-move", w + b);
      }
    });
  }
  // with identical input and output layouts on every process the backward transform runs its stages in forward order
  bool same_layout(const ObjDef &o) {
    int cr = 0, g = grp(o.c, &cr);
    return g >= 0 && !o.perm && o.tin[g] == o.tout[g];
  }
  // what a call sent, judged against the plan's options and layouts; stage 0: the whole transform
  sim::Traffic mark() { return sim::traffic(r); }
  bool whole(const ObjDef &o, bool first) {       // nothing has to move before the first (after the last) 1d transforms
    int cr = 0, g = grp(o.c, &cr);
    int d = first ? 0 : o.nd - 1;
    if (!first && o.perm != o.nd - 1) return false;
    for (auto &t : first ? o.tin[g] : o.tout[g]) if (t[2 * d] != 0 || t[2 * d + 1] != o.n[d] - 1) return false;
    return true;
  }
  // who owns what between the stages, seen by moving the number of every point through a plain plan of the same layout
  void layout(const ObjDef &o0, int oi, const Tile &ti, const Tile &to, int k) {
    int cr = 0, g = grp(o0.c, &cr), ns = o0.nd == 3 ? 4 : 3;
    long N = (long) o0.n[0] * o0.n[1] * o0.n[2];
    ObjDef o = o0; o.iface = 0; o.coll = o.exch = 0; o.mem = 1; o.dflt = false;
    RObj y; Line l;
    create(o, y, SZ == 4 ? 1 : 2);
    setup(o, y, ti, to, l, k);
    auto &ow = e.own[{oi, g}];
    if (ow.empty()) ow.assign(ns + 1, vector<int>(N, -1));
    walk(ti, o.n, o.nd, 0, [&](long, long q) { ow[0][q] = cr; });
    walk(to, o.n, o.nd, 0, [&](long, long q) { ow[ns][q] = cr; });
    size_t len = (size_t) y.sz[0] * 2;
    Arr a; a.make(len * SZ, 0xFF);
    walk(ti, o.n, o.nd, 0, [&](long i, long q) { put(a.p, 2 * i, (double) (q + 1)); put(a.p, 2 * i + 1, -(double) (q + 1)); });
    for (int j = 1; j < ns; j++) {
      bool skip = j == 1 && whole(o, true);
      if (skip) { walk(ti, o.n, o.nd, 0, [&](long, long q) { ow[1][q] = cr; }); continue; }
      Arr b; b.make(len * SZ, 0xFF);
      D_only_one_remap(o.kind, 0, y.h, a.p, b.p, 1, j);
      for (size_t i = 0; i + 1 < len; i += 2) {
        double v = get(b.p, i);
        if (v >= 1 && v <= (double) N && get(b.p, i + 1) == -v) { int &w = ow[j][(long) v - 1]; w = w == -1 ? cr : -2; }
      }
      std::swap(a, b); b.drop("the caller's array");
    }
    a.drop("the caller's array");
    destroy(o, y);
  }
  // points that change their owner in a stage, -1 if not known
  long moved(int oi, int g, int stage) {
    auto it = e.own.find({oi, g});
    if (it == e.own.end() || stage >= (int) it->second.size()) return -1;
    auto &a = it->second[stage - 1], &b = it->second[stage];
    long n = 0;
    for (size_t i = 0; i < a.size(); i++) { if (a[i] < 0 || b[i] < 0) return -1; n += a[i] != b[i]; }
    return n;
  }
  // the fewest points that change their owner if a stage goes through bricks, over the ways to number the processes of the brick grid
  long via_brick(const ObjDef &o, RObj &x, int oi, int g, int stage) {
    if (moved(oi, g, stage) < 0) return -1;
    auto &a = e.own[{oi, g}][stage - 1], &b = e.own[{oi, g}][stage];
    int np[3] = {1, 1, 1}, kn;
    for (int d = 0; d < o.nd; d++) np[d] = std::max(1, (int) D_geti(o.kind, o.iface, x.h, ("npbrick" + std::to_string(d + 1)).c_str(), &kn));
    int ord[3] = {0, 1, 2}; long best = -1;
    do {
      long n = 0, i = 0; int c[3];
      for (c[2] = 0; c[2] < o.n[2]; c[2]++) for (c[1] = 0; c[1] < o.n[1]; c[1]++) for (c[0] = 0; c[0] < o.n[0]; c[0]++, i++) {
        int ip[3], me = 0, st = 1;
        for (int d = 0; d < 3; d++) { ip[d] = 0; while (ip[d] + 1 < np[d] && (long) (ip[d] + 1) * o.n[d] / np[d] <= c[d]) ip[d]++; }
        for (int q = 0; q < 3; q++) { me += ip[ord[q]] * st; st *= np[ord[q]]; }
        n += (a[i] != me) + (b[i] != me);
      }
      if (best < 0 || n < best) best = n;
    } while (std::next_permutation(ord, ord + 3));
    return best;
  }
  void judge(const ObjDef &o, RObj &x, const sim::Traffic &b, int stage, int k, const string &w) {
    if (PROP != "C18") return;
    int cr = 0, g = grp(o.c, &cr), P = (int) e.groups[o.c + 1][g].size(), ns = o.nd == 3 ? 4 : 3;
    const sim::Traffic &a = sim::traffic(r);
    long msgs = a.msgs - b.msgs, colls = a.colls - b.colls, bytes = 0;
    for (size_t i = 0; i < a.to.size(); i++) bytes += a.to[i] - b.to[i];
    string ww = w + (stage ? ", stage " + std::to_string(stage) : string());
    if (a.to[r] != b.to[r]) soft("traffic", ww + ": sent a message with data to itself");
    int c = x.coll, ex = x.exch;
    bool q1 = whole(o, true), q2 = whole(o, false);
    bool mayp, mayc;                              // messages, collective exchanges
    long moves = 0;                               // how often a datum may travel
    if (stage) {
      bool end = stage == 1 || stage == ns, quiet = (stage == 1 && q1) || (stage == ns && q2);
      mayp = c == 0 || (c == 2 && (end || ex)); mayc = c == 1 || (c == 2 && !end && !ex);
      if (quiet) mayp = mayc = false;
      moves = quiet ? 0 : end ? 1 : ex ? 2 : 1;
    } else {
      mayp = c == 0 || (c == 2 && (ex || !q1 || !q2)); mayc = c == 1 || (c == 2 && !ex);
      moves = (q1 ? 0 : 1) + (q2 ? 0 : 1) + (ns - 2) * (ex ? 2 : 1);
    }
    char m[200];
    if (msgs && !mayp) { snprintf(m, sizeof m, ": %ld messages were sent (collective %d, exchange %d)", msgs, c, ex); soft("traffic", ww + m); }
    if (colls && !mayc) { snprintf(m, sizeof m, ": %ld collective exchanges were made (collective %d, exchange %d)", colls, c, ex); soft("traffic", ww + m); }
    if (colls > moves) { snprintf(m, sizeof m, ": %ld collective exchanges were made, %ld are due (collective %d, exchange %d)", colls, moves, c, ex); soft("traffic", ww + m); }
    Env::Flow &f = e.flow[{k, stage, g}];
    f.w = ww; f.P = P; f.nranks++; f.bytes += bytes; f.maxcoll = std::max(f.maxcoll, (int) colls); f.maxmsg = std::max(f.maxmsg, msgs);
    f.limit = moves * 2 * SZ * (long) o.n[0] * o.n[1] * o.n[2];
    f.wantcoll = -1;
    if (P > 1 && mayc && !mayp) f.wantcoll = (int) moves;
    if (f.nranks == P) {                          // the last process of the group to finish
      if (f.bytes > f.limit) { snprintf(m, sizeof m, ": %ld bytes were sent, the grid moved %ld times is %ld", f.bytes, moves, f.limit); soft("traffic", ww + m); }
      int oi = (int) (&o - e.obj.data());
      long due = 0;
      for (int j = stage ? stage : 1; j <= (stage ? stage : ns); j++) { long v = (j == 1 && q1) || (j == ns && q2) ? 0 : moved(oi, g, j); due = v < 0 || due < 0 ? -1 : due + v; }
      if (due >= 0 && mayp && !mayc) {
        bool once = !ex || stage == 1 || stage == ns;
        if (f.bytes < due * 2 * SZ || (once && f.bytes > due * 2 * SZ)) { snprintf(m, sizeof m, ": %ld bytes were sent, %ld points (%ld bytes) change their owner", f.bytes, due, due * 2 * SZ); soft("traffic", ww + m); }
        if (!once && stage && f.bytes <= due * 2 * SZ && via_brick(o, x, oi, g, stage) > due) soft("traffic", ww + ": data was moved once, not to bricks and on");
      }
      // fewer exchanges are right where no datum changes its owner (each process could do without), but not elsewhere
      int least = 0;
      for (int j = stage ? stage : 1; j <= (stage ? stage : ns); j++) if (!((j == 1 && q1) || (j == ns && q2)) && moved(oi, g, j) > 0) least++;
      if (!stage) least = std::min(least, 1);
      if (f.wantcoll >= 0 && (f.maxcoll > f.wantcoll || (f.maxcoll < least && due >= 0))) { snprintf(m, sizeof m, ": %d collective exchanges were made, %d are due (collective %d, exchange %d)", f.maxcoll, f.wantcoll, c, ex); soft("traffic", ww + m); }
    }
  }
  // a remap by messages sends exactly what changes its owner
  void judge_remap(const ObjDef &o, const sim::Traffic &b, int k) {
    if (PROP != "C18") return;
    int cr = 0, g = grp(o.c, &cr);
    auto &mem = e.groups[o.c + 1][g];
    const sim::Traffic &a = sim::traffic(r);
    string w = at(o, k, "remap");
    char m[200];
    if (o.coll) {
      if (a.msgs != b.msgs) { snprintf(m, sizeof m, ": %ld messages were sent although collective communication is set", a.msgs - b.msgs); soft("traffic", w + m); }
      if (a.colls - b.colls > 1) { snprintf(m, sizeof m, ": %ld collective exchanges were made", a.colls - b.colls); soft("traffic", w + m); }
      return;
    }
    if (a.colls != b.colls) { snprintf(m, sizeof m, ": %ld collective exchanges were made although point-to-point communication is set", a.colls - b.colls); soft("traffic", w + m); }
    vector<long> want(a.to.size(), 0);
    for (size_t j = 0; j < mem.size(); j++) if ((int) j != cr) {
      long n = 1;
      for (int d = 0; d < 3; d++) n *= std::max(0, std::min(o.tin[g][cr][2 * d + 1], o.tout[g][j][2 * d + 1]) - std::max(o.tin[g][cr][2 * d], o.tout[g][j][2 * d]) + 1);
      want[mem[j]] = n * o.nqty * SZ;
    }
    for (size_t j = 0; j < want.size(); j++) if (a.to[j] - b.to[j] != want[j]) {
      snprintf(m, sizeof m, ": %ld bytes were sent to rank %zu, %ld belong there", a.to[j] - b.to[j], j, want[j]); soft("traffic", w + m); return;
    }
  }
  // what the plan says about itself
  void judge_setup(const ObjDef &o, RObj &x, int k, bool tuned) {
    int kn;
    x.coll = (int) D_geti(o.kind, o.iface, x.h, "collective", &kn); x.exch = (int) D_geti(o.kind, o.iface, x.h, "exchange", &kn);
    if (PROP != "C18") return;
    int cr = 0, g = grp(o.c, &cr), P = (int) e.groups[o.c + 1][g].size();
    string w = at(o, k, "setup");
    auto I = [&](const char *key) { int q; return D_geti(o.kind, o.iface, x.h, key, &q); };
    if (!tuned && (x.coll != o.coll || x.exch != o.exch || I("pack") != o.pack)) soft("traffic", w + ": options are reported otherwise than they were set");
    auto grid = [&](string nm, int one) {
      long p = 1, at1 = 1;
      for (int d = 1; d <= o.nd; d++) { long v = I((nm + std::to_string(d)).c_str()); if (v < 1) v = 0; p *= v; if (d == one) at1 = v; }
      if (p != P || at1 != 1) soft("traffic", w + ": " + nm + "1.." + std::to_string(o.nd) + " do not describe a decomposition over " + std::to_string(P) + " processes");
    };
    grid("npfast", 1); grid("npslow", o.nd);
    if (o.nd == 3) grid("npmid", 2);
    if (x.exch) grid("npbrick", 0);
    long mu = I("memusage"), buf = o.mem ? ((long) x.sz[1] + x.sz[2]) * SZ : 0;
    char m[160];
    if (mu < buf || mu < 0) { snprintf(m, sizeof m, ": memory usage of %ld bytes is reported, the internal buffers take %ld", mu, buf); soft("traffic", w + m); }
    x.memusage = mu;
    int len = 0;
    const char *v = D_gets(o.kind, o.iface, x.h, "precision", &len);
    if (!v || string(v, len < 0 ? 0 : len) != (SZ == 4 ? "single" : "double")) soft("traffic", w + ": the precision is reported wrongly");
    v = D_gets(o.kind, o.iface, x.h, "fft1d", &len);
    if (!v || string(v, len < 0 ? 0 : len) != drv_lib()) soft("traffic", w + ": the 1d library is reported wrongly");
  }
  // operations on transforms; `a` holds the input
  void fft_op(const ObjDef &o, RObj &x, const Tile &ti, const Tile &to, const Line &l, int k, const string &t) {
    int flag = (int) l.g("flag", 1); if (flag != -1) flag = 1;
    uint64_t seed = (uint64_t) l.g("seed", 1);
    bool bad = l.g("bad") != 0;
    const Tile &A = flag == 1 ? ti : to, &B = flag == 1 ? to : ti;
    int pa = flag == 1 ? 0 : o.perm, pb = flag == 1 ? o.perm : 0;
    int oop = (int) l.g("oop");
    long fs = x.set ? x.sz[0] : std::max(tile_size(ti), tile_size(to)) + 8;
    long asz = tile_size(A), bsz = tile_size(B);
    double N = (double) o.n[0] * o.n[1] * o.n[2];
    string w = at(o, k, t.c_str());
    if (flag < 0) probe(PR_BACKWARD);
    if (oop) probe(PR_OOP);
    Arr in, out;
    if (t == "only1d") {
      out.make(fs * 2 * SZ, 0);
      long m0 = sim::rank_msgs(r);
      D_only_1d(o.kind, o.iface, x.h, out.p, flag);
      if (bad) return;
      if (sim::rank_msgs(r) != m0) soft("wrong-1d", w + ": communicated");
      for (long i = 0; i < fs * 2; i++) if (!(get(out.p, i) == 0.0)) { soft("wrong-1d", w + ": zeros did not stay zero"); break; }
      record(k, out.p, tile_size(ti) * 2 * SZ);
      out.drop("the caller's array");
      return;
    }
    if (t == "stages") probe(PR_STAGES);
    int ns = o.nd == 3 ? 4 : 3;
    if (oop && !(t == "stages" && oop > 1 && oop < 5)) {
      in.make(asz * 2 * SZ, 0xFF, &x, 0, fs * 2 * SZ); out.make(fs * 2 * SZ, 0xFF, &x, 1);
      fill(o, A, pa, in.p, seed);
    } else { out.make(fs * 2 * SZ, 0xFF, &x, (int) (seed & 1)); fill(o, A, pa, out.p, seed); }
    char *ip = in.base ? in.p : out.p;
    string keep(in.base ? in.p : nullptr, in.base ? in.n : 0);
    sim::Traffic tr = mark();
    if (t == "compute") D_compute(o.kind, o.iface, x.h, ip, out.p, flag);
    else if (t == "remaps") D_only_remaps(o.kind, o.iface, x.h, ip, out.p, flag);
    else {                              // stage by stage
      int mid = oop > 1 ? oop : 0;      // second or later stage goes to another array; 5: every stage does
      for (int j = 1; j <= ns; j++) {
        int which = flag == 1 || same_layout(o) ? j : ns + 1 - j;
        tr = mark();
        if (j == 1) D_only_one_remap(o.kind, o.iface, x.h, ip, out.p, flag, which);
        else if (j == mid || mid == 5) {
          Arr o2; o2.make(fs * 2 * SZ, 0xFF);
          string before(out.p, out.n);
          D_only_one_remap(o.kind, o.iface, x.h, out.p, o2.p, flag, which);
          if (before != string(out.p, out.n)) soft("input-modified", w + ": a single stage changed its input array");
          std::swap(out, o2); o2.drop("the caller's array");
        } else D_only_one_remap(o.kind, o.iface, x.h, out.p, out.p, flag, which);
        if (bad) return;
        judge(o, x, tr, which, k, w);
      }
    }
    if (bad) return;
    if (t != "stages") judge(o, x, tr, 0, k, w);
    if (in.base && keep != string(in.p, in.n)) soft("input-modified", w + ": the input array was changed");
    if (t != "compute" || x.remaponly) { if (x.remaponly) probe(PR_REMAPONLY); check_move(o, B, pb, out.p, seed, w); }
    else check_fft(o, B, pb, out.p, seed, flag, flag < 0 && x.scaled ? 1.0 / N : 1.0, PROP == "C15" && x.switched ? "wrong-switched" : flag == 1 ? "wrong-forward" : "wrong-backward", w);
    record(k, out.p, bsz * 2 * SZ);
    if (in.base) in.drop("the caller's input array");
    out.drop("the caller's array");
  }
  void roundtrip(const ObjDef &o, RObj &x, const Tile &ti, const Line &l, int k) {
    uint64_t seed = (uint64_t) l.g("seed", 1);
    Arr a, b;
    a.make((size_t) x.sz[0] * 2 * SZ, 0xFF);
    fill(o, ti, 0, a.p, seed);
    bool oop = l.g("oop") != 0;
    if (oop) b.make((size_t) x.sz[0] * 2 * SZ, 0xFF);
    char *q = oop ? b.p : a.p;
    D_compute(o.kind, o.iface, x.h, a.p, q, 1);
    D_compute(o.kind, o.iface, x.h, q, a.p, -1);
    double f = x.remaponly || x.scaled ? 1.0 : (double) o.n[0] * o.n[1] * o.n[2];
    double eps = SZ == 8 ? 2.2e-16 : 1.2e-7, nn = std::sqrt((double) o.n[0] * o.n[1] * o.n[2]);
    double norm = 0; { long NN = (long) o.n[0] * o.n[1] * o.n[2]; for (long i = 0; i < NN; i++) for (int c = 0; c < 2; c++) { double v = val(seed, i, c); norm += v * v; } norm = std::sqrt(norm); }
    double lim = 2 * norm * (data_kind(seed) ? 60 + 8 * nn : 60);
    bool done = false;
    walk(ti, o.n, o.nd, 0, [&](long i, long g) {
      for (int c = 0; c < 2 && !done; c++) {
        double v = get(a.p, 2 * i + c), wv = val(seed, g, c) * f;
        if (!(std::fabs(v - wv) <= eps * lim * f)) {
          done = true;
          char m[160]; snprintf(m, sizeof m, ": point %ld comes back as %.9g, expected %.9g", g, v, wv);
          soft("wrong-backward", at(o, k, "round trip") + m);
        }
      }
    });
    record(k, a.p, tile_size(ti) * 2 * SZ);
    a.drop("the caller's array");
    if (oop) b.drop("the caller's array");
  }
  void remap_op(const ObjDef &o, RObj &x, const Tile &ti, const Tile &to, const Line &l, int k) {
    uint64_t seed = (uint64_t) l.g("seed", 1);
    bool oop = l.g("oop") != 0;
    long a = tile_size(ti) * o.nqty, b = tile_size(to) * o.nqty;
    Arr in, out;
    if (oop) { in.make(a * SZ, 0, &x, 0, std::max(a, b) * SZ); out.make(b * SZ, 0x5D, &x, 1, std::max(a, b) * SZ); probe(PR_OOP); }
    else out.make(std::max(a, b) * SZ, 0x5D, &x, (int) (seed & 1));
    char *ip = oop ? in.p : out.p;
    walk(ti, o.n, o.nd, 0, [&](long i, long g) { for (int q = 0; q < o.nqty; q++) { uint64_t v = bits(seed, g, q); memcpy(ip + (i * o.nqty + q) * SZ, &v, SZ); } });
    string keep(ip, a * SZ);
    if (!o.mem && x.set) userbuf(o, x);
    sim::Traffic tr = mark();
    D_remap(o.kind, o.iface, x.h, ip, out.p, !o.mem && x.hasbuf ? x.sb.p : nullptr, !o.mem && x.hasbuf ? x.rb.p : nullptr);
    if (l.g("bad")) return;
    judge_remap(o, tr, k);
    bool done = false;
    walk(to, o.n, o.nd, o.perm, [&](long i, long g) {
      for (int q = 0; q < o.nqty && !done; q++) {
        uint64_t v = bits(seed, g, q), got = 0;
        memcpy(&got, out.p + (i * o.nqty + q) * SZ, SZ);
        if (memcmp(out.p + (i * o.nqty + q) * SZ, &v, SZ)) {
          done = true;
          char m[160]; snprintf(m, sizeof m, ": value %d of point %ld is %016llx, sent as %016llx", q, g, (unsigned long long) got, (unsigned long long) (SZ == 8 ? v : (uint32_t) v));
          soft("wrong-remap", at(o, k, "remap") + m);
        }
      }
    });
    if (oop && keep != string(in.p, in.n)) soft("input-modified", at(o, k, "remap") + ": the input array was changed");
    record(k, out.p, b * SZ);
    if (oop) in.drop("the caller's input array");
    out.drop("the caller's array");
  }
  string query(const ObjDef &o, RObj &x, bool times) {
    string s;
    auto I = [&](const char *key) { int kn; long v = D_geti(o.kind, o.iface, x.h, key, &kn); s += string(key) + "=" + std::to_string(v) + " "; };
    for (const char *k : {"collective", "exchange", "pack", "ntrial", "npertrial"}) I(k);
    if (!x.set) {                       // nothing else is defined before setup
      int len = -1; const char *v = D_gets(o.kind, o.iface, x.h, "precision", &len);
      return s + "precision=" + (v ? string(v, len < 0 ? 0 : len) : string("(null)"));
    }
    for (const char *k : {"npfast1", "npfast2", "npslow1", "npslow2", "npbrick1", "npbrick2"}) I(k);
    if (o.nd == 3) for (const char *k : {"npfast3", "npslow3", "npbrick3", "npmid1", "npmid2", "npmid3"}) I(k);
    I("memusage");
    for (const char *k : {"cbest", "ebest", "pbest"}) I(k);
    for (const char *k : {"fft1d", "precision"}) { int len = -1; const char *v = D_gets(o.kind, o.iface, x.h, k, &len); s += string(k) + "=" + (v ? string(v, len < 0 ? 0 : len) : string("(null)")) + " "; }
    int nt;
    { int kn; nt = (int) D_geti(o.kind, o.iface, x.h, "ntrial", &kn); }
    for (const char *k : {"cflags", "eflags", "pflags"}) { int len = -1; const int *v = D_getiv(o.kind, o.iface, x.h, k, &len); s += string(k) + ":" + std::to_string(len); for (int i = 0; i < nt && i < 10 && v; i++) s += "," + std::to_string(v[i]); s += " "; }
    if (times) {
      auto D = [&](double v) { char b[40]; snprintf(b, sizeof b, "%a", v); return string(b); };
      vector<const char *> ks = {"tfft", "t1d", "tremap", "tremap1", "tremap2", "tremap3"};
      if (o.nd == 3) ks.push_back("tremap4");
      for (const char *k : ks) { int len = -1; const double *v = D_getdv(o.kind, o.iface, x.h, k, &len); s += string(k) + ":" + std::to_string(len); for (int i = 0; i < nt && i < 10 && v; i++) s += "," + D(v[i]); s += " "; }
      if (nt > 0) { int kn; s += "setuptime=" + D(D_getd(o.kind, o.iface, x.h, "setuptime", &kn)) + " besttime=" + D(D_getd(o.kind, o.iface, x.h, "besttime", &kn)); }
    }
    return s;
  }
  void agree(const ObjDef &o0, RObj &x, const Tile &ti, const Tile &to, int k, int gi) {
    string s = query(o0, x, false);
    size_t mu = s.find("memusage="); if (mu != string::npos) { size_t sp = s.find(' ', mu); s.erase(mu, sp - mu); }
    auto it = e.agree.find({k, gi});
    if (it == e.agree.end()) e.agree[{k, gi}] = s;
    else if (it->second != s) soft("disagree", at(o0, k, "tune") + ": has " + s + " but another process has " + it->second);
    // a plan set up explicitly with the chosen settings must behave the same
    ObjDef o = o0; int kn; o.dflt = false;
    o.coll = (int) D_geti(o.kind, o.iface, x.h, "collective", &kn); o.exch = (int) D_geti(o.kind, o.iface, x.h, "exchange", &kn); o.pack = (int) D_geti(o.kind, o.iface, x.h, "pack", &kn);
    o.iface = 0;
    RObj y;
    create(o, y, SZ == 4 ? 1 : 2);
    Line l;
    setup(o, y, ti, to, l, k);
    if (!o.mem) setmem(o, y);
    if (y.sz[0] != x.sz[0] || y.sz[1] != x.sz[1] || y.sz[2] != x.sz[2])
      soft("disagree", at(o, k, "tune") + ": buffer sizes differ from an explicit setup with the same settings");
    Arr a, b;
    a.make((size_t) x.sz[0] * 2 * SZ, 0); b.make((size_t) std::max(y.sz[0], x.sz[0]) * 2 * SZ, 0);
    fill(o, ti, 0, a.p, 7); fill(o, ti, 0, b.p, 7);
    D_compute(o0.kind, o0.iface, x.h, a.p, a.p, 1);
    D_compute(o.kind, 0, y.h, b.p, b.p, 1);
    if (memcmp(a.p, b.p, tile_size(to) * 2 * SZ)) soft("disagree", at(o, k, "tune") + ": result differs from that of an explicit setup with the same settings");
    a.drop("the caller's array"); b.drop("the caller's array");
    destroy(o, y);
  }
  // after tuning a plan holds what an explicit setup with the chosen settings holds, apart from the tuning results
  void held_after_tune(const ObjDef &o0, RObj &x, const Tile &ti, const Tile &to, int k) {
    ObjDef o = o0; int kn; o.dflt = false;
    o.coll = (int) D_geti(o.kind, o.iface, x.h, "collective", &kn); o.exch = (int) D_geti(o.kind, o.iface, x.h, "exchange", &kn); o.pack = (int) D_geti(o.kind, o.iface, x.h, "pack", &kn);
    RObj y; Line l;
    sim::Live a = sim::live(r);
    create(o, y, SZ == 4 ? 1 : 2);
    setup(o, y, ti, to, l, k);
    sim::Live b = sim::live(r), &d = x.d;
    long c = b.comms - a.comms, p = b.plans - a.plans, q = b.reqs - a.reqs, t = b.types - a.types, m = b.blocks - a.blocks, n = b.bytes - a.bytes;
    if (d.comms > c || d.plans > p || d.reqs > q || d.types > t || d.blocks > m + 16 || d.bytes > n + 2048) {
      char z[240]; snprintf(z, sizeof z, ": the plan holds %ld communicators, %ld 1d plans, %ld requests, %ld datatypes, %ld blocks (%ld bytes); set up with the chosen settings it holds %ld, %ld, %ld, %ld, %ld (%ld)", d.comms, d.plans, d.reqs, d.types, d.blocks, d.bytes, c, p, q, t, m, n);
      soft("leak", at(o, k, "tune") + z);
    }
    destroy(o, y);
  }
  // what timing the public calls gives, for every communication setting, started and stopped like a careful user would
  void costs(const ObjDef &o0, const Tile &ti, const Tile &to, int tf) {
    MPI_Comm c = o0.c < 0 ? MPI_COMM_WORLD : ch[o0.c];
    for (int cf = 0; cf < 3; cf++) for (int ef = 0; ef < 2; ef++) {
      ObjDef o = o0; o.coll = cf; o.exch = ef; o.mem = 1; o.dflt = false;
      RObj y; create(o, y, SZ == 4 ? 1 : 2);
      Env::Cost k; double t0, t1; Line l;
      MPI_Barrier(c); t0 = MPI_Wtime();
      setup(o, y, ti, to, l, 0);
      MPI_Barrier(c); t1 = MPI_Wtime(); k.setup = t1 - t0;
      Arr a; a.make((size_t) y.sz[0] * 2 * SZ, 0);
      int ns = o.nd == 3 ? 4 : 3;
      for (int what = 0; what < 3 + ns; what++) {
        MPI_Barrier(c); t0 = MPI_Wtime();
        for (int it = 0; it < e.probe_iter; it++)
          for (int f = 1; f >= -1; f -= 2) if (tf == 0 || tf == f) {
            if (what == 0) D_compute(o.kind, o.iface, y.h, a.p, a.p, f);
            else if (what == 1) D_only_1d(o.kind, o.iface, y.h, a.p, f);
            else if (what == 2) D_only_remaps(o.kind, o.iface, y.h, a.p, a.p, f);
            else D_only_one_remap(o.kind, o.iface, y.h, a.p, a.p, f, what - 2);
          }
        MPI_Barrier(c); t1 = MPI_Wtime();
        (what == 0 ? k.fft : what == 1 ? k.d1 : what == 2 ? k.remap : k.stage[what - 3]) = t1 - t0;
      }
      if (r == 0) e.cost[{cf, ef}] = k;
      a.drop("the caller's array");
      destroy(o, y);
    }
  }
  void report(const ObjDef &o, RObj &x, double elapsed) {
    Env::Rep &p = e.rep[r]; int kn;
    auto I = [&](const char *k) { return (int) D_geti(o.kind, o.iface, x.h, k, &kn); };
    p.set = true; p.elapsed = elapsed;
    p.nt = I("ntrial"); p.npt = I("npertrial"); p.cb = I("cbest"); p.eb = I("ebest"); p.pb = I("pbest"); p.c = I("collective"); p.e = I("exchange"); p.p = I("pack");
    p.best = D_getd(o.kind, o.iface, x.h, "besttime", &kn); p.setup = D_getd(o.kind, o.iface, x.h, "setuptime", &kn);
    int n = std::max(0, std::min(p.nt, 10));
    auto IV = [&](const char *k) { int len = 0; const int *v = D_getiv(o.kind, o.iface, x.h, k, &len); return v ? vector<int>(v, v + n) : vector<int>(); };
    auto DV = [&](const char *k) { int len = 0; const double *v = D_getdv(o.kind, o.iface, x.h, k, &len); return v ? vector<double>(v, v + n) : vector<double>(n, -1.0); };
    p.cf = IV("cflags"); p.ef = IV("eflags"); p.pf = IV("pflags"); p.t = DV("tfft"); p.t1 = DV("t1d"); p.tr = DV("tremap");
    for (const char *k : {"tremap1", "tremap2", "tremap3"}) p.tk.push_back(DV(k));
    if (o.nd == 3) p.tk.push_back(DV("tremap4"));
  }
  void appsend(const Line &l) {
    int c = (int) l.g("c", -1), cr; if (c >= (int) ch.size()) c = -1;
    int g = grp(c, &cr);
    if (g < 0) return;
    int P = (int) e.groups[c + 1][g].size();
    MPI_Comm h = c < 0 ? MPI_COMM_WORLD : ch[c];
    int sh = (int) l.g("shift", 1) % P, to = (cr + sh) % P, from = (cr - sh + P) % P, len = (int) l.g("len");
    uint64_t seed = (uint64_t) l.g("seed");
    auto a = std::make_unique<App>();
    a->s.resize(len + 1); a->v.resize(len + 1); a->len = len;
    for (int i = 0; i < len; i++) a->s[i] = (char) mix(seed + (uint64_t) cr * 977, i);
    a->want = seed + (uint64_t) from * 977;
    for (auto &b : app) if (b->late != (int) l.g("late")) { appwait(); break; }           // messages must not overtake each other
    int tag = (int) l.g("tag", 1);
    auto &tg = e.tags[c + 1];
    if (!tg.empty() && tag > 1) { auto it = tg.begin(); std::advance(it, (long) (seed % tg.size())); tag = *it; }
    a->late = (int) l.g("late"); a->to = to; a->from = from; a->tag = tag; a->h = h; a->q[0] = a->q[1] = MPI_REQUEST_NULL;
    if (a->late != 2) MPI_Irecv(a->v.data(), len, MPI_BYTE, from, tag, h, &a->q[0]);      // 1: sent after what follows, 2: received after it
    if (a->late != 1) MPI_Isend(a->s.data(), len, MPI_BYTE, to, tag, h, &a->q[1]);
    app.push_back(std::move(a));
    probe(PR_APPMSG);
  }
  void appwait() {
    for (auto &a : app) {
      if (a->late == 1) MPI_Isend(a->s.data(), a->len, MPI_BYTE, a->to, a->tag, a->h, &a->q[1]);
      if (a->late == 2) MPI_Irecv(a->v.data(), a->len, MPI_BYTE, a->from, a->tag, a->h, &a->q[0]);
    }
    for (auto &a : app) {
      MPI_Status st[2];
      MPI_Waitall(2, a->q, st);
      if ((int) st[0].sim_bytes != a->len) soft("app-corrupted", "rank " + std::to_string(r) + ": the application's message has the wrong length");
      for (int i = 0; i < a->len; i++) if (a->v[i] != (char) mix(a->want, i)) { soft("app-corrupted", "rank " + std::to_string(r) + ": the application's message was altered"); break; }
    }
    app.clear();
  }
  void appcoll(const Line &l) {
    int c = (int) l.g("c", -1), cr; if (c >= (int) ch.size()) c = -1;
    int g = grp(c, &cr);
    if (g < 0) return;
    int P = (int) e.groups[c + 1][g].size();
    int v = cr + 1, w = 0;
    MPI_Allreduce(&v, &w, 1, MPI_INT, MPI_SUM, c < 0 ? MPI_COMM_WORLD : ch[c]);
    if (w != P * (P + 1) / 2) soft("app-corrupted", "rank " + std::to_string(r) + ": the application's reduction is wrong");
  }
  void run() {
    for (size_t c = 0; c < e.s.comms.size(); c++) {
      int kind = (int) e.s.comms[c].g("kind"), cr = 0;
      MPI_Comm h = MPI_COMM_NULL;
      int g = grp((int) c, &cr);
      if (kind == 4) h = MPI_COMM_SELF;
      else if (kind <= 1) MPI_Comm_dup(MPI_COMM_WORLD, &h);
      else MPI_Comm_split(MPI_COMM_WORLD, g < 0 ? MPI_UNDEFINED : g, cr, &h);
      ch.push_back(h);
    }
    int prec = SZ == 4 ? 1 : 2;
    int nalive = 0;
    for (size_t k = 0; k < e.s.ops.size(); k++) {
      const Line &l = e.s.ops[k];
      string t = l.w.substr(3);
      sim::phase[r] = l.w.c_str();
      if (t == "appsend") { appsend(l); continue; }
      if (t == "appwait") { appwait(); continue; }
      if (t == "appcoll") { appcoll(l); continue; }
      int oi = (int) l.g("o");
      if (oi < 0 || oi >= (int) e.obj.size()) continue;
      const ObjDef &o = e.obj[oi];
      RObj &x = ro[oi];
      int cr, g = grp(o.c, &cr);
      if (g < 0) continue;
      const Tile &ti = o.tin[g][cr], &to = o.tout[g][cr];
      bool bad = l.g("bad") != 0;
      // a shrunk scenario may miss steps: skip what cannot be done, alike on every process
      if (e.probe_mode) { if (t == "setup" && l.g("tune")) costs(o, ti, to, (int) l.g("tf")); continue; }
      if (t == "create" ? x.alive : !x.alive) continue;
      if (!bad && (t == "setup" ? x.set : (t != "create" && t != "destroy" && t != "set" && t != "query" && !x.set))) continue;
      if (!bad && o.kind < 2 && !o.mem && !e.memover && !x.hasbuf && (t == "compute" || t == "rt" || t == "remaps" || t == "stages" || t == "agree")) continue;
      bool isfft = t == "compute" || t == "remaps" || t == "stages" || t == "only1d";
      if ((isfft || t == "rt" || t == "setmem" || t == "query" || t == "agree" || t == "layout") && o.kind >= 2) continue;
      if (t == "remap" && o.kind < 2) continue;
      for (auto &z : ro) if (z.hasbuf && !bad) { memset(z.sb.p, 0x2B + (int) (k % 64), z.sb.n); memset(z.rb.p, 0x2C + (int) (k % 64), z.rb.n); }   // the caller's buffers are scratch between calls
      sim::Live l0 = sim::live(r);
      sim::arm_alloc(true);
      RObj fr; RObj *u = &x;
      bool dofresh = e.fresh && (isfft || t == "rt" || t == "remap");
      if (dofresh) {
        create(o, fr, prec);
        Line none; setup(o, fr, ti, to, none, (int) k);
        if (o.kind < 2 && !o.mem) setmem(o, fr);
        if (x.scaled != fr.scaled) { D_set(o.kind, o.iface, fr.h, "scale", x.scaled); fr.scaled = x.scaled; }
        if (x.remaponly) { D_set(o.kind, o.iface, fr.h, "remaponly", 1); fr.remaponly = 1; }
        u = &fr;
      }
      if (t == "create") {
        int p = prec, v = (int) l.g("v");
        if (bad) p = v == 0 ? 3 - prec : v == 1 ? 0 : 3;
        create(o, x, p); nalive++;
        if (nalive > 1) probe(PR_MULTIPLAN);
      } else if (t == "setup") {
        double w0 = MPI_Wtime();
        setup(o, x, ti, to, l, (int) k);
        if (!e.rep.empty() && l.g("tune")) report(o, x, MPI_Wtime() - w0);
        if (!bad && e.memover && !o.mem && o.kind < 2) setmem(o, x);
        if (!bad && e.rec) { string z = "sizes"; for (int q = 0; q < (o.kind < 2 ? 3 : 2); q++) z += " " + std::to_string(x.sz[q]); if (e.pl.g("same") || !e.pass) e.rec->out[{(int) k, r}] = z; }
      } else if (t == "setmem") { if (bad || (!o.mem && !e.memover)) setmem(o, x); }
      else if (isfft) fft_op(o, *u, ti, to, l, (int) k, t);
      else if (t == "rt") roundtrip(o, *u, ti, l, (int) k);
      else if (t == "remap") remap_op(o, *u, ti, to, l, (int) k);
      else if (t == "set") {
        int key = (int) l.g("key"), v = (int) l.g("v");
        if (key < 0 || key > 5 || (o.kind >= 2 && key != 2 && key != 4)) continue;
        if (key >= 2 && !x.set) continue;
        if (e.fresh && key >= 2) ;       // changes of setup-time options after setup must not matter
        else D_set(o.kind, o.iface, x.h, KEY[key], v);
        if (key == 0) x.scaled = v;
        if (key == 1) { x.remaponly = v; if (v) x.switched = true; }
      } else if (t == "query") {
        string q = query(o, x, true);
        if (e.rec) e.rec->out[{(int) k, r}] = q;
      } else if (t == "agree") agree(o, x, ti, to, (int) k, g);
      else if (t == "layout") layout(o, oi, ti, to, (int) k);
      else if (t == "destroy") { destroy(o, x); nalive--; }
      if (dofresh) destroy(o, fr);
      sim::arm_alloc(false);
      if (bad) { e.badreturn[r] = 1; sim::fail("accepted", at(o, (int) k, t.c_str()) + ": misuse was accepted and the call returned"); }
      sim::Live l1 = sim::live(r);
      x.d.blocks += l1.blocks - l0.blocks; x.d.bytes += l1.bytes - l0.bytes; x.d.comms += l1.comms - l0.comms; x.d.groups += l1.groups - l0.groups;
      x.d.reqs += l1.reqs - l0.reqs; x.d.plans += l1.plans - l0.plans; x.d.types += l1.types - l0.types;
      if (t == "create") { x.d = sim::Live(); x.d.blocks = l1.blocks - l0.blocks; x.d.bytes = l1.bytes - l0.bytes; x.d.comms = l1.comms - l0.comms; x.d.groups = l1.groups - l0.groups; x.d.reqs = l1.reqs - l0.reqs; x.d.plans = l1.plans - l0.plans; x.d.types = l1.types - l0.types; }
      if (t == "setup" && l.g("tune") && PROP == "C13" && x.d.groups) soft("leak", at(o, (int) k, "tune") + ": group handles left over");
      if (t == "setup" && l.g("tune") && PROP == "C13" && !bad) held_after_tune(o, x, ti, to, (int) k);
      if (t == "setup" && PROP == "C18" && o.kind < 2 && x.memusage > x.d.bytes) soft("traffic", at(o, (int) k, "setup") + ": memory usage of " + std::to_string(x.memusage) + " bytes is reported, the plan holds " + std::to_string(x.d.bytes));
      if (t == "destroy") {
        sim::Live &d = x.d;
        if (d.blocks || d.bytes || d.comms || d.groups || d.reqs || d.plans || d.types) {
          char b[200];
          snprintf(b, sizeof b, ": not returned: %ld blocks (%ld bytes), %ld communicators, %ld groups, %ld requests, %ld 1d plans, %ld datatypes", d.blocks, d.bytes, d.comms, d.groups, d.reqs, d.plans, d.types);
          soft("leak", at(o, (int) k, "destroy") + b);
        }
        x = RObj();
      }
    }
    sim::phase[r] = "end";
    appwait();
    for (size_t i = 0; i < ro.size(); i++) if (ro[i].alive && ro[i].hasbuf) { ro[i].sb.drop("the caller's send buffer"); ro[i].rb.drop("the caller's receive buffer"); }
    for (int c = -1; c < (int) ch.size(); c++) if (c < 0 || ch[c] != MPI_COMM_NULL) for (int t : sim::lib_tags((int) (c < 0 ? MPI_COMM_WORLD : ch[c]))) e.seen[c + 1].insert(t);
    for (size_t c = 0; c < ch.size(); c++) if (ch[c] != MPI_COMM_NULL && ch[c] != MPI_COMM_SELF) MPI_Comm_free(&ch[c]);
  }
};

// ------------------------------------------------------------------ passes and verdicts
static int memfd_out = -1;
static string captured() {
  fflush(stdout); fflush(stderr);
  off_t n = lseek(memfd_out, 0, SEEK_END);
  if (n <= 0) return "";
  if (n > 20000) n = 20000;
  string s((size_t) n, 0);
  if (pread(memfd_out, &s[0], (size_t) n, 0) < 0) return "";
  return s;
}
static void verdict(const string &cls, const string &detail) {
  if (shm->cls[0]) return;
  snprintf(shm->cls, sizeof shm->cls, "%s", cls.c_str());
  snprintf(shm->detail, sizeof shm->detail, "%s", detail.c_str());
}
static sim::Config mkcfg(const Scn &s, int pass, const Line &pl) {
  sim::Config c;
  c.nranks = (int) s.cfg.g("ranks", 1);
  c.seed = (uint64_t) (pl.kv.count("seed") ? pl.g("seed") : s.cfg.g("seed", 1));
  c.strategy = (int) s.cfg.g("strategy", -1); c.eager = (int) s.cfg.g("eager", -1); c.relax = (int) s.cfg.g("relax", -1); c.fill = (int) s.cfg.g("fill", -1);
  if (pl.kv.count("fill")) c.fill = (int) pl.g("fill");
  if (pl.kv.count("seed")) { c.strategy = c.relax = c.fill = -1; if (PROP != "C06") c.eager = -1; }
  c.stalls = (int) s.cfg.g("stalls"); c.clockmode = (int) s.cfg.g("clock");
  c.maxsteps = 600000;
  if (c.nranks > 12) c.maxsteps *= (c.nranks / 6) * (c.nranks / 6);
  if (s.ops.size() > 16) c.maxsteps *= (long) s.ops.size() / 8;
  auto it = s.dec.find(pass);
  if (it != s.dec.end()) c.replay = &it->second;
  return c;
}
static sim::Result do_pass(Env &e, const sim::Config &c) {
  load_objs(e);
  e.badreturn.assign(c.nranks, 0);
  if (shm->curpass < 16) shm->passstart[shm->curpass] = shm->ndec;
  shm->curpass++;
  sim::Result r = sim::run(c, [&](int rank) { Rank k(e, rank); k.run(); });
  shm->steps += r.steps; shm->msgs += r.msgs; shm->colls += r.colls; shm->switches += r.switches; shm->simtime += r.simtime; shm->passes++;
  for (int i = 0; i < sim::F_NFAULT; i++) shm->faults[i] += r.faults[i];
  shm->loghash = shm->loghash * 0x9E3779B97F4A7C15ull + r.loghash;
  shm->ilhash = shm->ilhash * 0x9E3779B97F4A7C15ull + r.ilhash;
  return r;
}
// a run in which nothing unusual is expected: any ending but normal return is a violation
static bool normal_end(const sim::Result &r) {
  if (r.violation) { verdict(r.cls, r.detail); return false; }
  if (r.aborted) { verdict("rejected", "legal use was stopped: rank " + std::to_string(r.abort_rank) + " aborted the job: " + captured().substr(0, 300)); return false; }
  for (size_t i = 0; i < r.ends.size(); i++)
    if (!r.ends[i].returned) { verdict("rejected", "legal use was stopped: rank " + std::to_string(i) + " exited: " + captured().substr(0, 300)); return false; }
  return true;
}
static bool has_error(const string &s) { return s.find("ERROR") != string::npos || s.find("rror") != string::npos || s.find("terminate") != string::npos; }
static void tune_check(const Scn &s);

static void execute(const Scn &s) {
  PROP = s.prop;
  SZ = drv_scalar();
  if (PROP == "C08") { tune_check(s); return; }
  Line none;
  Env e0; Rec r0;
  e0.s = s; e0.rec = &r0;
  sim::Config c0 = mkcfg(s, 0, none);
  if (PROP == "C11") { int fr = (int) s.misc.g("frank"); c0.site_rank = fr >= c0.nranks ? c0.nranks - 1 : fr; }
  sim::Result a = do_pass(e0, c0);
  if (PROP == "C12") {
    bool bad = false;
    for (auto &l : s.ops) if (l.g("bad")) bad = true;
    if (!bad) { normal_end(a); return; }
    if (a.violation) { verdict(a.cls, a.detail); return; }
    string out = captured();
    bool stopped = a.aborted;
    if (!stopped) { stopped = true; for (size_t i = 0; i < a.ends.size(); i++) if (!a.ends[i].exited || a.ends[i].code == 0) stopped = false; }
    if (!stopped) {
      bool any = false; for (auto &en : a.ends) any |= en.exited;
      if (any) verdict("accepted", "misuse did not stop every process with a failing exit status");
      return;                           // the illegal call was shrunk away
    }
    if (!has_error(out)) verdict("silent", "misuse ended the job without an error message");
    else probe(PR_REJECT);
    return;
  }
  if (!normal_end(a)) return;
  if (PROP == "C09" && !e0.seen.empty()) {       // nonzero tags belong to the application: let it use the ones the library takes
    Env e1; e1.s = s; e1.pass = 1; e1.tags = e0.seen;
    normal_end(do_pass(e1, mkcfg(s, 1, none)));
    return;
  }
  if (PROP == "C11") {
    int fr = (int) s.misc.g("frank"); if (fr >= c0.nranks) fr = c0.nranks - 1;
    long cnt = a.armed_allocs[fr];
    if (cnt <= 0) return;
    Env e1; e1.s = s; e1.pass = 1;
    sim::Config c1 = mkcfg(s, 1, none);
    c1.fail_rank = fr; c1.fail_at = (long) (s.misc.g("fat") % cnt); c1.fail_len = (int) s.misc.g("flen", 1);
    int fm = (int) s.misc.g("fmode");            // 0: any allocation; 1, 2: any place in the program, then any of its allocations; 3: one of the places seldom reached
    if (fm > 0 && (long) a.sites.size() == cnt) {
      std::map<uint64_t, int> num; std::vector<std::vector<long>> at;   // numbered as they come: addresses differ from process to process
      for (long i = 0; i < cnt; i++) { uint64_t h = fm == 2 ? a.sites[i].second : a.sites[i].first; auto it = num.find(h); if (it == num.end()) { it = num.emplace(h, (int) at.size()).first; at.emplace_back(); } at[it->second].push_back(i); }
      if (fm == 3) { size_t least = at[0].size(); for (auto &w : at) least = std::min(least, w.size()); at.erase(std::remove_if(at.begin(), at.end(), [&](const std::vector<long> &w) { return w.size() > least + 1; }), at.end()); }
      const auto &v = at[(size_t) (s.misc.g("fat") % (long long) at.size())];
      c1.fail_at = v[(size_t) (s.misc.g("fat") / (long long) at.size() % (long long) v.size())];
    }
    sim::Result b = do_pass(e1, c1);
    string tag = "allocation " + std::to_string(c1.fail_at) + " of " + std::to_string(cnt) + " on rank " + std::to_string(fr) + " refused: ";
    if (b.alloc_fail_fired) probe(PR_ALLOCFAIL);
    if (b.violation) { verdict(b.cls, tag + b.detail); return; }
    bool allret = true; for (auto &en : b.ends) allret &= en.returned;
    if (allret && !b.aborted) return;   // went on with correct results
    string out = captured();
    if (b.aborted) { probe(PR_ABORT); if (!has_error(out)) verdict("silent", tag + "the job was aborted without an error message"); return; }
    for (size_t i = 0; i < b.ends.size(); i++) if (!b.ends[i].exited || !b.ends[i].code) { verdict("carried-on", tag + "some processes stopped, others carried on"); return; }
    if (!has_error(out)) verdict("silent", tag + "the job ended without an error message");
    return;
  }
  int k = 0;
  for (auto &p : s.passes) {
    k++;
    Env e1; Rec r1;
    e1.s = s; e1.rec = &r1; e1.pass = k; e1.pl = p; e1.fresh = p.g("fresh") != 0;
    e1.ref = e0.ref;
    sim::Result b = do_pass(e1, mkcfg(s, p.kv.count("seed") ? k : 0, p));
    if (!normal_end(b)) return;
    for (auto &x : r0.out) {
      auto it = r1.out.find(x.first);
      bool sizes = x.second.compare(0, 5, "sizes") == 0;
      bool query = x.second.compare(0, 11, "collective=") == 0;
      if ((sizes || query) && !p.g("same")) continue;
      if (it == r1.out.end() || it->second != x.second) {
        string d = "operation " + std::to_string(x.first.first) + " on rank " + std::to_string(x.first.second) + ": ";
        if (sizes || query) d += "reports \"" + (it == r1.out.end() ? string() : it->second) + "\" instead of \"" + x.second + "\"";
        else if (it != r1.out.end() && it->second.size() == x.second.size()) {
          size_t q = 0; while (it->second[q] == x.second[q]) q++;
          d += "results differ, first in value " + std::to_string(q / SZ);
        } else d += "results differ in length";
        verdict((PROP == "C14" || PROP == "C17") && (sizes || query) ? "query" : "differs", d);
        return;
      }
    }
  }
}

// ------------------------------------------------------------------ tuning against the documentation
static void tune_check(const Scn &s) {
  const Line *tl = nullptr; const Line *ol = nullptr;
  for (auto &l : s.ops) if (l.g("tune")) { tl = &l; size_t oi = (size_t) l.g("o"); if (oi < s.objs.size()) ol = &s.objs[oi]; }
  if (!tl || !ol) return;
  int nd = (ol->g("kind", 1) & 1) ? 3 : 2;
  int tf = (int) tl->g("tf"), tt = (int) tl->g("tt"), niter = (int) tl->g("tn", 1), regime = (int) s.misc.g("regime");
  bool noise = s.misc.g("noise") != 0;
  int c0 = (int) ol->g("coll", 2), e0 = (int) ol->g("exch"), p0 = (int) ol->g("pack", 2);
  Line none;
  auto cfg = [&](int pass) {
    sim::Config c = mkcfg(s, pass, none);
    if (!noise) { c.constdt = true; c.vtime = true; c.quiet_schedule = true; c.stalls = 0; c.replay = nullptr; }
    c.netcost = (double) s.misc.g("net", 100) / 100;
    return c;
  };
  Env ep; Env::Cost k0;
  double tmax = 0, mf = 0, ms = 0; int want_niter = niter, want_nruns = 10, want_tt = tt;
  if (!noise) {
    ep.s = s; ep.probe_mode = true;
    sim::Result a = do_pass(ep, cfg(0));
    if (!normal_end(a)) return;
    k0 = ep.cost[{c0, e0}];
    // the same tuning with no time for any trial reports what the library itself measures in its first run
    Env ea; ea.s = s; ea.tmax_override = 1e-12;
    sim::Config ca = cfg(1);
    ea.rep.resize(ca.nranks);
    sim::Result q = do_pass(ea, ca);
    if (!normal_end(q)) return;
    for (size_t r = 0; r < ea.rep.size(); r++) {
      const Env::Rep &p = ea.rep[r];
      if (!p.set) continue;
      char m[300];
      if (p.nt != 1 || p.npt != 1) { snprintf(m, sizeof m, "rank %zu: %d trials of %d transforms were made with a time limit of 1e-12 s", r, p.nt, p.npt); verdict("wrong-trials", m); return; }
      double f = p.t[0] * (tf == 0 ? 2 : 1);
      if (r == 0) { mf = f; ms = p.setup; }
    }
    if (!ea.rep[0].set) return;         // the steps before were shrunk away
    if (!(mf > 0) || std::fabs(mf - k0.fft) > 0.04 * k0.fft + 4e-6 + 2e-6 * ca.netcost) { char m[200]; snprintf(m, sizeof m, "the first run is said to have taken %g s; timing the same transform gives %g s", mf, k0.fft); verdict("wrong-times", m); return; }
    if (!(ms > 0) || std::fabs(ms - k0.setup) > 0.05 * k0.setup + 4e-6 + 2e-6 * ca.netcost) { char m[200]; snprintf(m, sizeof m, "setup is said to have taken %g s; timing it gives %g s", ms, k0.setup); verdict("wrong-times", m); return; }
    k0.fft = mf; k0.setup = ms;
    double one = k0.setup + k0.fft, per = k0.fft * (tt ? 3 : 1), fr = (double) s.misc.g("frac", 500) / 1000;
    if (!(k0.fft > 0) || !(k0.setup > 0)) return;
    if (regime <= 9) {                  // only so many single runs fit
      want_nruns = regime; want_niter = 1; want_tt = 0; tmax = (regime + fr) * one; probe(PR_TUNE_SHORT);
      if (regime <= 1) probe(PR_TUNE_ONE);
    } else if (regime == 10 && niter > 1) {   // fewer transforms per trial
      int k = 1 + (int) (s.misc.g("k") % (niter - 1));
      want_niter = k; tmax = 10 * (k0.setup + (k + fr) * per); probe(PR_TUNE_SHRINK);
    } else if (regime == 11 && tt) {    // no time for the extra timings
      int k = 1 + (int) (s.misc.g("k") % 2);
      want_niter = k; want_tt = 0; tmax = 10 * (k0.setup + (k + fr) * k0.fft);
      if (tmax >= 10 * (k0.setup + niter * per)) want_niter = niter, want_tt = tt;
    } else if (regime == 12) tmax = 1.5 * 10 * (k0.setup + niter * per);
  }
  if (noise && regime <= 1) { tmax = 1e-12; want_nruns = 0; want_niter = 1; want_tt = 0; probe(PR_TUNE_ONE); }
  int pidx = noise ? 0 : 2;
  if (!noise && want_niter > 1) {       // time as many repetitions as the trials make
    Env e2; e2.s = s; e2.probe_mode = true; e2.probe_iter = want_niter;
    sim::Result a = do_pass(e2, cfg(pidx++));
    if (!normal_end(a)) return;
    ep.cost = e2.cost;
  }
  Env e; e.s = s; e.pass = 2; e.tmax_override = tmax;
  sim::Config c1 = cfg(pidx);
  e.rep.resize(c1.nranks);
  sim::Result b = do_pass(e, c1);
  if (!normal_end(b)) return;
  for (size_t r = 0; r < e.rep.size(); r++) {
    const Env::Rep &p = e.rep[r];
    if (!p.set) continue;
    string w = "rank " + std::to_string(r) + ": ";
    char m[400];
    auto no = [&](const char *cls) { verdict(cls, w + m); };
    if (p.nt < 1 || p.nt > 10) { snprintf(m, sizeof m, "%d trials are reported", p.nt); return no("wrong-trials"); }
    // the documented sequence of trials
    vector<std::array<int, 3>> seq;
    int phase2 = -1; bool extra = false, initial = false;
    if (want_nruns >= 10) { for (int c = 0; c < 3; c++) for (int x = 0; x < 2; x++) seq.push_back({c, x, 2}); phase2 = 6; for (int q = 0; q < 3; q++) seq.push_back({p.cb, p.eb, q}); }
    else if (want_nruns >= 7) for (int c = 0; c < 3; c++) for (int x = 0; x < 2; x++) seq.push_back({c, x, 2});
    else if (want_nruns >= 4) for (int c = 0; c < 3; c++) seq.push_back({c, 0, 2});
    else if (want_nruns == 3) for (int c = 1; c < 3; c++) seq.push_back({c, 0, 2});
    else if (want_nruns == 2 && !(c0 == 2 && e0 == 0 && p0 == 2)) { extra = true; seq.push_back({2, 0, 2}); if (p.nt == 2) seq.insert(seq.begin(), {c0, e0, p0}); }
    else { initial = true; seq.push_back({c0, e0, p0}); }
    if ((int) seq.size() != p.nt) { snprintf(m, sizeof m, "%d trials were made with time for %d runs (limit %g s, one setup and transform %g s), documented are %zu", p.nt, want_nruns, tmax, k0.setup + k0.fft, seq.size()); return no("wrong-trials"); }
    for (int i = 0; i < p.nt; i++) if (p.cf[i] != seq[i][0] || p.ef[i] != seq[i][1] || p.pf[i] != seq[i][2]) {
      snprintf(m, sizeof m, "trial %d of %d is recorded with collective %d exchange %d pack %d, documented is %d %d %d", i, p.nt, p.cf[i], p.ef[i], p.pf[i], seq[i][0], seq[i][1], seq[i][2]); return no("wrong-trials"); }
    if (p.npt != want_niter) { snprintf(m, sizeof m, "%d transforms per trial, expected %d (asked for %d, limit %g s, setup %g s, transform %g s)", p.npt, want_niter, niter, tmax, k0.setup, k0.fft); return no("wrong-trials"); }
    // the fastest recorded trial of each phase was chosen
    auto fastest = [&](int a, int z, int x) { for (int i = a; i < z; i++) if (p.t[i] < p.t[x]) return false; return true; };
    int n1 = phase2 < 0 ? p.nt : phase2, w1 = -1;
    for (int i = 0; i < n1; i++) if (p.cf[i] == p.cb && p.ef[i] == p.eb && (phase2 >= 0 || p.pf[i] == p.pb)) { if (w1 < 0 || p.t[i] < p.t[w1]) w1 = i; }
    if (w1 < 0) { snprintf(m, sizeof m, "best settings %d %d %d were never tried", p.cb, p.eb, p.pb); return no("wrong-choice"); }
    if (!extra && !fastest(0, n1, w1)) { snprintf(m, sizeof m, "collective %d exchange %d were chosen although another trial was faster", p.cb, p.eb); return no("wrong-choice"); }
    if (extra && !(p.cb == 2 && p.eb == 0 && p.pb == 2) && !fastest(0, n1, w1)) { snprintf(m, sizeof m, "settings %d %d %d were chosen although the default trial was faster", p.cb, p.eb, p.pb); return no("wrong-choice"); }
    int wb = w1;
    if (phase2 >= 0) {
      wb = -1;
      for (int i = phase2; i < p.nt; i++) if (p.pf[i] == p.pb) wb = i;
      if (wb < 0 || !fastest(phase2, p.nt, wb)) { snprintf(m, sizeof m, "pack %d was chosen although another trial was faster", p.pb); return no("wrong-choice"); }
    } else if (!initial && !extra && p.pb != 2) { snprintf(m, sizeof m, "pack %d was chosen without a trial", p.pb); return no("wrong-choice"); }
    if (p.c != p.cb || p.e != p.eb || p.p != p.pb) { snprintf(m, sizeof m, "the plan has settings %d %d %d but %d %d %d are reported as best", p.c, p.e, p.p, p.cb, p.eb, p.pb); return no("wrong-choice"); }
    if (!(std::fabs(p.best - p.t[wb]) <= 1e-12 + 1e-9 * p.best)) { snprintf(m, sizeof m, "the best time %g is not that of the chosen trial, %g", p.best, p.t[wb]); return no("wrong-times"); }
    // reported times against the clock
    double mult = p.npt * (tf == 0 ? 2.0 : 1.0), sum = 0;
    for (int i = 0; i < p.nt; i++) {
      sum += (p.t[i] + p.t1[i] + p.tr[i]) * mult;
      for (auto &v : p.tk) sum += v[i] * mult;
      if (!(p.t[i] > 0)) { snprintf(m, sizeof m, "trial %d reports a time of %g", i, p.t[i]); return no("wrong-times"); }
    }
    if (!(sum <= p.elapsed * 1.0000001)) { snprintf(m, sizeof m, "the trials are said to have taken %g s in total but tuning took %g s", sum, p.elapsed); return no("wrong-times"); }
    bool zero = true, some = false;
    for (int i = 0; i < p.nt; i++) { for (double v : {p.t1[i], p.tr[i]}) { if (v != 0) zero = false; if (v < 0) some = true; } for (auto &v : p.tk) { if (v[i] != 0) zero = false; if (v[i] < 0) some = true; } }
    if (some) { snprintf(m, sizeof m, "a negative or missing partial time is reported"); return no("wrong-times"); }
    if (!want_tt && !zero) { snprintf(m, sizeof m, "partial times are reported although none were taken"); return no("wrong-times"); }
    if (noise) continue;
    for (int i = 0; i < p.nt; i++) {
      const Env::Cost &k = ep.cost[{p.cf[i], p.ef[i]}];
      auto off = [&](double v, double ex) { double slack = 0.08 * ex + (4e-6 + 2e-6 * c1.netcost) / mult; return !(std::fabs(v - ex) <= slack); };
      auto cmp = [&](double v, double ex, const char *what) {
        ex /= mult;
        if (!off(v, ex)) return false;
        snprintf(m, sizeof m, "trial %d (collective %d exchange %d pack %d) reports %g s per %s; timing it gives %g s", i, p.cf[i], p.ef[i], p.pf[i], v, what, ex);
        no("wrong-times"); return true;
      };
      if (cmp(p.t[i], k.fft, "transform")) return;
      if (!want_tt) continue;
      if (cmp(p.t1[i], k.d1, "set of 1d transforms") || cmp(p.tr[i], k.remap, "set of remaps")) return;
      for (size_t j = 0; j < p.tk.size(); j++) { char nm[40]; snprintf(nm, sizeof nm, "remap of stage %zu", j + 1); if (cmp(p.tk[j][i], k.stage[j], nm)) return; }
    }
    const Env::Cost &kb = ep.cost[{p.c, p.e}];
    if (!(p.setup > 0) || std::fabs(p.setup - kb.setup) > 0.05 * kb.setup + 4e-6 + 2e-6 * c1.netcost) { snprintf(m, sizeof m, "the final setup is said to have taken %g s; timing it gives %g s", p.setup, kb.setup); return no("wrong-times"); }
  }
  (void) nd;
}

// ------------------------------------------------------------------ child processes
static void on_asan(const char *rep) {
  string s = rep ? rep : "";
  size_t a = s.find("AddressSanitizer: ");
  string what = "memory error";
  if (a != string::npos) { a += 18; size_t b = s.find_first_of(" \n", a); what = s.substr(a, b - a); }
  if (what == "attempting") { size_t b = s.find(" on ", a); what = s.substr(a + 11, b == string::npos ? 20 : b - a - 11); }
  for (const char *k : {"READ of size ", "WRITE of size "}) { size_t q = s.find(k); if (q != string::npos) { size_t z = s.find_first_of(" \n", q + strlen(k)); what += ", " + s.substr(q, z - q); break; } }
  int r = sim::me();
  verdict("memory-error", what + (r >= 0 ? " on rank " + std::to_string(r) + (sim::phase[r] ? string(" in ") + sim::phase[r] : "") : ""));
  shm->done = 1;
  _exit(0);
}
static void on_cpu(int) { verdict("cpu-hang", "a process computes without end"); shm->done = 1; _exit(0); }

static void child(const Scn &s) {
  memfd_out = memfd_create("out", 0);
  dup2(memfd_out, 1); dup2(memfd_out, 2);
  __asan_set_error_report_callback(on_asan);
  signal(SIGPROF, on_cpu);
  struct itimerval tv = {{0, 0}, {30, 0}};
  setitimer(ITIMER_PROF, &tv, nullptr);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  sim::set_decision_sink(dec_sink);
  pooled = s.misc.g("reuse") != 0; oddalign = (int) s.misc.g("align"); if (oddalign > 1 && !drv_kiss()) oddalign = 1;
  execute(s);
  string o = captured();
  snprintf(shm->out, sizeof shm->out, "%s", o.c_str());
  shm->done = 1;
  _exit(0);
}
static void run_child(const Scn &s) {
  memset((void *) shm, 0, offsetof(Shm, dec));
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) child(s);
  int st = 0;
  waitpid(p, &st, 0);
  if (!shm->done) {
    char b[64];
    if (WIFSIGNALED(st)) snprintf(b, sizeof b, "the process died of signal %d", WTERMSIG(st));
    else snprintf(b, sizeof b, "the process died with status %d", WEXITSTATUS(st));
    verdict("crash", b);
  }
}
static string jesc(const string &s) {
  string o;
  for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char) c < 32 || (unsigned char) c > 126) o += '?'; else o += c; }
  return o;
}
static Scn with_decisions(Scn s) {
  int np = shm->curpass;
  for (int i = 0; i < np && i < 16; i++) {
    size_t a = shm->passstart[i], b = i + 1 < np ? shm->passstart[i + 1] : shm->ndec;
    s.dec[i].assign(shm->dec + a, shm->dec + b);
  }
  return s;
}
static string slurp(const char *f) { string s; FILE *p = fopen(f, "r"); if (!p) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p); return s; }

// the Python interpreter is started once; every run is a fork of this process
static long py_bytes(const void *p) { auto i = arr_bytes.find(p); return i == arr_bytes.end() ? 0 : (long) i->second; }
static void py_fail(const char *c, const char *d) { if (sim::me() >= 0) sim::fail(c, string("rank ") + std::to_string(sim::me()) + ": " + d); fprintf(stderr, "%s: %s\n", c, d); _exit(3); }
static void start_python() {
  if (PY) return;
  Dl_info di;
  if (!dladdr((void *) drv_scalar, &di)) _exit(3);
  string so = di.dli_fname, dir = so.substr(0, so.rfind('/'));
  string top = dir.substr(0, dir.rfind('/'));
  void *h = dlopen((top + "/libdrvpy.so").c_str(), RTLD_NOW | RTLD_GLOBAL);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(3); }
  auto f = (const DrvPy *(*) (const DrvPyHost *, const char *, const char *, const char *, int)) dlsym(h, "drvpy_start");
  static DrvPyHost host = {sim::me, py_bytes, py_fail, drv_scalar()};
  PY = f ? f(&host, top.c_str(), (top + "/fftmpi.py").c_str(), so.c_str(), (int) MPI_COMM_WORLD) : nullptr;
  if (!PY) _exit(3);
}

int main(int argc, char **argv) {
  static char obuf[1 << 16]; setvbuf(stdout, obuf, _IOFBF, sizeof obuf);   // as a program's redirected output
  shm = (Shm *) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (shm == MAP_FAILED) return 3;
  string mode = argc > 1 ? argv[1] : "";
  if (mode == "gen" && argc >= 5) { fputs(scn_text(scn_gen(argv[2], strtoull(argv[3], 0, 10), atoi(argv[4]))).c_str(), stdout); return 0; }
  if (mode == "run" && argc >= 3) {
    Scn s;
    if (!scn_parse(slurp(argv[2]), s)) { printf("{\"error\":\"cannot parse\"}\n"); return 3; }
    if (s.prop == "C17") start_python();
    run_child(s);
    if (argc > 3) { FILE *f = fopen(argv[3], "w"); if (f) { fputs(scn_text(with_decisions(s)).c_str(), f); fclose(f); } }
    printf("{\"cls\":\"%s\",\"detail\":\"%s\",\"log\":\"%016llx\",\"il\":\"%016llx\",\"steps\":%ld,\"passes\":%ld,\"nonzero\":%ld,\"out\":\"%s\"}\n", jesc(shm->cls).c_str(), jesc(shm->detail).c_str(),
           (unsigned long long) shm->loghash, (unsigned long long) shm->ilhash, shm->steps, shm->passes, shm->nonzero_dec, jesc(string(shm->out).substr(0, 400)).c_str());
    return 0;
  }
  if (mode == "batch" && argc >= 8) {
    // batch PROP MASTERSEED START COUNT STRIDE TIER [maxseconds]: runs START, START+STRIDE, ...
    string prop = argv[2];
    uint64_t master = strtoull(argv[3], 0, 10);
    long start = atol(argv[4]), count = atol(argv[5]), stride = atol(argv[6]);
    int tier = atoi(argv[7]);
    double limit = argc > 8 ? atof(argv[8]) : 1e9;
    struct timeval t0, t1; gettimeofday(&t0, nullptr);
    if (prop == "C17") start_python();
    for (long i = start; i < count; i += stride) {
      uint64_t seed = mix(mix(master, sim::hash_bytes(prop.data(), prop.size())), (uint64_t) i) >> 1;
      Scn s = scn_gen(prop, seed, tier);
      run_child(s);
      printf("{\"i\":%ld,\"seed\":%llu,\"cls\":\"%s\",\"detail\":\"%s\",\"log\":\"%016llx\",\"il\":\"%016llx\",\"steps\":%ld,\"msgs\":%ld,\"colls\":%ld,\"switches\":%ld,\"passes\":%ld,\"simtime\":%.9g,\"nonzero\":%ld,\"ranks\":%lld,\"soft\":%ld,\"f\":[", i, (unsigned long long) seed,
             jesc(shm->cls).c_str(), jesc(shm->detail).c_str(), (unsigned long long) shm->loghash, (unsigned long long) shm->ilhash, shm->steps, shm->msgs, shm->colls, shm->switches, shm->passes, shm->simtime, shm->nonzero_dec, s.cfg.g("ranks", 1), shm->soft);
      for (int k = 0; k < sim::F_NFAULT; k++) printf("%s%ld", k ? "," : "", shm->faults[k]);
      printf("],\"p\":[");
      for (int k = 0; k < PR_N; k++) printf("%s%ld", k ? "," : "", shm->probes[k]);
      printf("]}\n");
      fflush(stdout);
      gettimeofday(&t1, nullptr);
      if ((t1.tv_sec - t0.tv_sec) + 1e-6 * (t1.tv_usec - t0.tv_usec) > limit) break;
    }
    return 0;
  }
  if (mode == "names") {
    printf("{\"faults\":["); for (int k = 0; k < sim::F_NFAULT; k++) printf("%s\"%s\"", k ? "," : "", sim::fault_name[k]);
    printf("],\"probes\":["); for (int k = 0; k < PR_N; k++) printf("%s\"%s\"", k ? "," : "", prname[k]);
    printf("],\"lib\":\"%s\",\"scalar\":%d}\n", drv_lib(), drv_scalar());
    return 0;
  }
  fprintf(stderr, "usage: gen|run|batch|names\n");
  return 3;
}
