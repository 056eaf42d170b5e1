// Deterministic simulator of an MPI job.  See sim.h.
#include "sim.h"
#include "mpi.h"
#include <stdio_ext.h>
#include <algorithm>
#include <cassert>
#include <cerrno>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <link.h>
#include <memory>
#include <new>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <set>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>

using std::string;
using std::vector;

namespace sim {

const char *fault_name[F_NFAULT] = {
  "send_buffered", "send_unbuffered", "message_reordered", "transfer_delayed", "any_completion_picked",
  "rank_stalled", "clock_jump", "clock_skew", "clock_drift", "clock_coarse", "collective_left_early",
  "collective_synchronised", "allocation_failed", "memory_garbage", "rank_preempted", "rank_starved",
  "test_reported_incomplete"};
const char *phase[256];

uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
  const unsigned char *c = (const unsigned char *) p;
  while (n >= 8) { uint64_t w; memcpy(&w, c, 8); h = (h ^ w) * 0x9FB21C651E98DF25ull; h ^= h >> 29; c += 8; n -= 8; }
  while (n--) { h ^= *c++; h *= 1099511628211ull; }
  return h;
}

static const size_t STACK = 512 * 1024;

// ---------------------------------------------------------------- fibers
extern "C" void sim_switch_asm(void **save, void *to);
asm(R"(
.text
.globl sim_switch_asm
.type sim_switch_asm,@function
sim_switch_asm:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch_asm,.-sim_switch_asm
)");

struct Region { char *p; size_t n; };
static vector<Region> regions;           // writable data of the library under test
static vector<char> pristine;
static size_t region_total = 0;

__attribute__((no_sanitize("address"), noinline)) static void rawcopy(void *d, const void *s, size_t n) {
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
}
__attribute__((no_sanitize("address"), noinline)) static void rawfill(void *d, int c, size_t n) {
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
}
static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
  if (!i->dlpi_name || !strstr(i->dlpi_name, "librepo")) return 0;
  uintptr_t rlo = 0, rhi = 0;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
      rlo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      rhi = (rlo + i->dlpi_phdr[k].p_memsz + 4095) & ~4095ul;
    }
  for (int k = 0; k < i->dlpi_phnum; k++) {
    const ElfW(Phdr) &h = i->dlpi_phdr[k];
    if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) {
      uintptr_t lo = i->dlpi_addr + h.p_vaddr, hi = lo + h.p_memsz;
      if (rlo && lo <= rlo && rhi <= hi) { if (rhi < hi) lo = rhi; else continue; }
      else if (rlo && lo >= rlo && lo < rhi) { if (rhi < hi) lo = rhi; else continue; }
      if (hi > lo) regions.push_back({(char *) lo, hi - lo});
    }
    if (h.p_type == PT_TLS && i->dlpi_tls_data) regions.push_back({(char *) i->dlpi_tls_data, h.p_memsz});
  }
  return 0;
}
static void find_regions() {
  static bool did = false;
  if (did) return;
  did = true;
  dl_iterate_phdr(phdr_cb, nullptr);
  for (auto &r : regions) region_total += r.n;
  pristine.resize(region_total);
  size_t o = 0;
  for (auto &r : regions) { rawcopy(&pristine[o], r.p, r.n); o += r.n; }
}

struct Req;
struct Rank {
  int id = 0;
  void *sp = nullptr;
  char *stack = nullptr;
  void *fake = nullptr;
  vector<char> glob;
  bool done = false;
  std::function<bool()> cond;            // set while blocked
  string what;                           // last call, for reports
  long stall_until = -1;
  double cbase = 0, crate = 1, cquant = 0;
  double lastclock = -1e300;
  RankEnd end;
  bool finalized = false;
  // allocation
  bool armed = false;
  long armed_count = 0;
  Live live;
  long peak = 0;
  long calls = 0;
  Traffic tr;
  double vt = 0;                         // time by critical path
  bool lazy = false;                     // may be served by more than one event: under critical-path time, run when nothing else can
  std::set<int> comm_handles;
};

struct Comm {
  int id = 0;
  vector<int> mem;                       // world ranks
  vector<long> seq;                      // next collective per comm rank
  vector<char> freed;
  int nlive = 0;
  std::deque<std::shared_ptr<struct Coll>> colls;
  long collbase = 0;
  int rankof(int w) const { for (size_t i = 0; i < mem.size(); i++) if (mem[i] == w) return (int) i; return -1; }
};
struct Group { vector<int> mem; int owner; bool freed = false; };

struct Msg {
  long id; int src, dst, csrc, tag, comm;     // world ranks, comm rank of the source
  size_t bytes; int base;                     // base type
  bool eager, sync;
  vector<char> data;                          // if eager
  const char *buf = nullptr;                  // else read at transfer
  Req *sreq = nullptr;
  Req *rreq = nullptr;                        // matched
  bool arrived = false, taken = false;
  long born = 0;
  double vt = 0;
};
enum { RK_SEND, RK_RECV, RK_COLL };
struct Req {
  int h = 0, owner = 0, kind = 0;
  bool persistent = false, active = false, done = false, freed = false;
  char *buf = nullptr; size_t cap = 0; int base = 0; int comm = 0, peer = 0, tag = 0, dt = 0, count = 0;
  int mode = 0;
  vector<char> saved; bool poisoned = false;
  MPI_Status st;
  bool hasst = false;
  std::function<bool()> ccond; std::function<void()> cfin;
  long born = 0;
  bool cancelled = false;
  double vt = 0;
};
struct Entry {
  double vt = 0, vol = 0;                // time of entry, bytes contributed
  bool arrived = false, sync = false, left = false;
  std::function<void()> snap; bool snapped = false;
  vector<vector<char>> chunk;            // per destination (or one)
  vector<long> sendbytes, recvbytes;     // alltoall matching
  int color = 0, key = 0; vector<int> grp; bool hasgrp = false;
  void need() { if (!snapped) { snapped = true; if (snap) snap(); } }
};
struct Coll {
  bool nb = false;
  int kind = 0, root = -1; long long sig = 0; int base = 0, op = 0;
  vector<Entry> e; int narr = 0, nleft = 0;
  vector<int> newcomm; bool made = false;
  int commid = 0;
};

enum { K_BARRIER = 1, K_BCAST, K_REDUCE, K_ALLREDUCE, K_SCAN, K_EXSCAN, K_GATHER, K_SCATTER, K_ALLGATHER, K_ALLTOALL,
       K_CREATE, K_SPLIT, K_DUP, K_RSB, K_GATHERV, K_SCATTERV, K_ALLGATHERV };
static const char *kname[] = {"?", "Barrier", "Bcast", "Reduce", "Allreduce", "Scan", "Exscan", "Gather", "Scatter",
  "Allgather", "Alltoall", "Comm_create", "Comm_split", "Comm_dup", "Reduce_scatter", "Gatherv", "Scatterv", "Allgatherv"};

struct Block { size_t n; int owner; int kind; long serial; };

struct World {
  std::map<int, std::set<int>> libtags;         // nonzero tags of messages sent by the code under test, per communicator
  Config cfg;
  Rng drng{1}, trng{1}, mrng{1};
  Result res;
  vector<std::unique_ptr<Rank>> ranks;
  std::function<void(int)> body;
  int cur = -1;
  void *main_sp = nullptr, *main_fake = nullptr;
  const void *main_bottom = nullptr; size_t main_size = 0;
  bool stop = false;
  size_t dpos = 0;
  double now = 0;
  int strategy = 0, eager = 100, relax = 50, fill = 0;
  std::map<int, Comm> comms;
  int nextcomm = 0x0c000010, nextgroup = 0x09000010, nextreq = 0x0b000010, nexttype = 0x0d001000;
  std::map<int, Group> groups;
  std::map<int, Req *> reqs;
  struct DT { size_t size; int base; };
  std::map<int, DT> types;
  std::map<int, MPI_User_function *> uops; int nextop = 0x0e001000;
  long nextmsg = 0;
  std::map<std::pair<int, int>, std::deque<Msg *>> chan;   // in flight, per (src,dst)
  vector<std::deque<Msg *>> unexpected;                    // per dst
  vector<std::deque<Req *>> posted;                        // per dst
  vector<Msg *> matched;                                   // awaiting transfer
  vector<Req *> collreqs;
  vector<std::unique_ptr<Msg>> allmsgs;
  vector<std::unique_ptr<Req>> allreqs;
  vector<double> prio; std::vector<long> chg; double lowprio = -1;
  int victim = -1; long heal = 0;
  int lastrank = 0; int rr = 0;
  std::unordered_map<void *, Block> blocks; long serial = 0;
  long failed = 0;
};
static World *W = nullptr;
static void (*dsink)(uint32_t) = nullptr;
void set_decision_sink(void (*f)(uint32_t)) { dsink = f; }

int me() { return W ? W->cur : -1; }
double now() { return W ? W->now : 0; }
bool aborting() { return W && W->res.aborted; }
void note(uint64_t h) { if (W) W->res.loghash = (W->res.loghash ^ h) * 0x100000001b3ull + (W->res.loghash >> 31); }
static void il(uint64_t h) { W->res.ilhash = (W->res.ilhash ^ h) * 0x100000001b3ull + (W->res.ilhash >> 29); note(h); }
static Rank &R() { return *W->ranks[W->cur]; }

// every decision of a run goes through here; 0 is always the unremarkable choice
static uint32_t decide(uint32_t n, const std::function<uint32_t()> &pick) {
  if (n <= 1) return 0;
  uint32_t v;
  if (W->cfg.replay) {
    v = W->dpos < W->cfg.replay->size() ? (*W->cfg.replay)[W->dpos] : 0;
    if (v >= n) v %= n;
  } else if (W->cfg.quiet_schedule) v = 0;
  else v = pick();
  W->dpos++;
  W->res.decisions.push_back(v);
  if (dsink) dsink(v);
  return v;
}
static bool coin(int percent) {
  if (percent <= 0) return false;
  return decide(2, [&] { return (uint32_t) (W->drng.below(100) < (uint64_t) percent); }) != 0;
}

// ---------------------------------------------------------------- switching
static void save_globals(Rank &r) {
  size_t o = 0;
  for (auto &g : regions) { rawcopy(&r.glob[o], g.p, g.n); o += g.n; }
}
static void load_globals(Rank &r) {
  size_t o = 0;
  for (auto &g : regions) { rawcopy(g.p, &r.glob[o], g.n); o += g.n; }
}
static void to_main() {
  Rank &r = R();
  void *fake = nullptr;
  bool dying = r.done;
  __sanitizer_start_switch_fiber(dying ? nullptr : &fake, W->main_bottom, W->main_size);
  sim_switch_asm(&r.sp, W->main_sp);
  __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
}
static void resume(int id) {
  Rank &r = *W->ranks[id];
  W->cur = id;
  if (region_total) load_globals(r);
  W->res.switches++;
  __sanitizer_start_switch_fiber(&W->main_fake, r.stack, STACK);
  sim_switch_asm(&W->main_sp, r.sp);
  __sanitizer_finish_switch_fiber(W->main_fake, nullptr, nullptr);
  if (region_total) save_globals(r);
  W->cur = -1;
}
static void fiber_main() {
  __sanitizer_finish_switch_fiber(nullptr, &W->main_bottom, &W->main_size);
  Rank &r = R();
  try {
    W->body(r.id);
    r.end.returned = true;
  } catch (const std::bad_alloc &) {
    if (!W->res.violation) {
      // an uncaught exception terminates the process and with it the job
      W->res.aborted = true; W->res.abort_rank = r.id; W->res.abort_code = 134;
  __fpurge(stdout);
      fprintf(stderr, "terminate called after throwing an instance of 'std::bad_alloc'\n");
      W->stop = true;
    }
  } catch (...) {
    if (!W->res.violation) { W->res.violation = true; W->res.cls = "exception"; W->res.detail = "uncaught exception leaves the call"; }
    W->stop = true;
  }
  r.done = true;
  to_main();
  abort();
}
static void prep_fiber(Rank &r, char *stack) {
  r.stack = stack;
  __asan_unpoison_memory_region(stack, STACK);
  int pat = W->fill == 0 ? 0 : W->fill == 1 ? 0xff : W->fill == 2 ? 0x41 : 0xA5;
  rawfill(stack + STACK - 65536, pat, 65536);
  uintptr_t top = ((uintptr_t) stack + STACK) & ~15ul;
  void **sp = (void **) top;
  *--sp = nullptr;                        // fake return address slot keeps alignment
  *--sp = (void *) fiber_main;            // ret target; at entry rsp%16==8
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  r.sp = sp;
}

[[noreturn]] void fail(const string &cls, const string &detail) {
  if (W && !W->res.violation) { W->res.violation = true; W->res.cls = cls; W->res.detail = detail; }
  if (W) W->stop = true;
  if (W && W->cur >= 0) { R().done = true; to_main(); }
  abort();
}

// ---------------------------------------------------------------- scheduler
static void do_transfer(Msg *m);
static void match_arrival(Msg *m);

struct Cand { int type; int a, b; Msg *m; Req *q; };   // 0 rank, 1 deliver channel, 2 transfer, 3 collective request

static string describe() {
  string s;
  for (auto &r : W->ranks) {
    if (!s.empty()) s += "; ";
    s += "rank " + std::to_string(r->id) + ": ";
    if (r->end.exited) s += "exited";
    else if (r->done) s += "finished";
    else s += (r->cond ? "waiting in " : "at ") + r->what;
    if (phase[r->id] && !r->done) s += string(" [") + phase[r->id] + "]";
  }
  return s;
}
string where() { return describe(); }

static void schedule_loop() {
  World &w = *W;
  vector<Cand> c;
  while (!w.stop) {
    c.clear();
    bool all = true;
    // transfers of matched messages, oldest first
    for (Msg *m : w.matched) c.push_back({2, m->src, m->dst, m, nullptr});
    for (auto &ch : w.chan) if (!ch.second.empty()) c.push_back({1, ch.first.first, ch.first.second, ch.second.front(), nullptr});
    for (Req *q : w.collreqs) if (q->active && !q->done && q->ccond()) c.push_back({3, q->owner, 0, nullptr, q});
    size_t nnet = c.size();
    std::stable_sort(c.begin(), c.end(), [](const Cand &x, const Cand &y) {
      long bx = x.m ? x.m->born : x.q->born, by = y.m ? y.m->born : y.q->born;
      return bx < by;
    });
    int P = (int) w.ranks.size();
    bool stalled = false;
    for (int pass = 0; pass < 2; pass++) {
      for (int k = 0; k < P; k++) {
        int i = (w.lastrank + k) % P;
        Rank &r = *w.ranks[i];
        if (r.done) continue;
        all = false;
        if (r.stall_until > w.res.steps && pass == 0) { stalled = true; continue; }
        if (r.cond && !r.cond()) continue;
        c.push_back({0, i, 0, nullptr, nullptr});
      }
      if (!c.empty() || !stalled) break;
    }
    if (all) break;                      // every rank finished; in-flight messages are judged by the caller
    if (c.empty()) {
      w.res.violation = true; w.res.cls = "deadlock"; w.res.detail = describe();
      break;
    }
    if (++w.res.steps > w.cfg.maxsteps) {
      w.res.violation = true; w.res.cls = "no-progress"; w.res.detail = "step bound reached; " + describe();
      break;
    }
    if (w.cfg.vtime) std::stable_partition(c.begin(), c.end(), [&](const Cand &x) { return x.type != 0 || !w.ranks[x.a]->lazy; });
    uint32_t n = (uint32_t) c.size();
    uint32_t k = decide(n, [&]() -> uint32_t {
      Rng &g = w.drng;
      switch (w.strategy) {
      case 1: {                          // priorities with a few change points
        auto pr = [&](const Cand &x) -> double & { return x.type == 0 ? w.prio[x.a] : w.prio[P + (x.a * 7 + x.b * 3) % 61]; };
        uint32_t best = 0;
        for (uint32_t i = 1; i < n; i++) if (pr(c[i]) > pr(c[best])) best = i;
        for (long &s : w.chg) if (s == w.res.steps) { pr(c[best]) = w.lowprio; w.lowprio -= 1; }
        return best;
      }
      case 2: {                          // one rank and its links starve until nothing else can move
        if (w.res.steps > w.heal) { w.victim = (int) g.below(P); w.heal = w.res.steps + 20 + (long) g.below(400); }
        vector<uint32_t> ok;
        for (uint32_t i = 0; i < n; i++) {
          bool v = c[i].type == 0 ? c[i].a == w.victim : (c[i].a == w.victim || c[i].b == w.victim);
          if (!v) ok.push_back(i);
        }
        if (!ok.empty() && ok.size() < n) w.res.faults[F_STARVE]++;
        return ok.empty() ? (uint32_t) g.below(n) : ok[g.below(ok.size())];
      }
      case 3:                            // slow network: ranks first, messages only when all block
        if (nnet < n) return (uint32_t) (nnet + g.below(n - nnet));
        return (uint32_t) g.below(n);
      case 4:                            // fast network, ranks at random
        if (nnet) return (uint32_t) g.below(nnet);
        return (uint32_t) g.below(n);
      case 5:                            // run to block, newest message first
        if (nnet < n) return (uint32_t) nnet;
        return n - 1;
      case 6: {                          // round robin over ranks, network interleaved
        if (nnet && g.chance(0.5)) return (uint32_t) g.below(nnet);
        if (nnet < n) return (uint32_t) (nnet + (w.rr++ % (n - nnet)));
        return (uint32_t) g.below(n);
      }
      case 7:                            // mostly the unremarkable choice, few deviations
        return g.chance(0.05) ? (uint32_t) g.below(n) : 0;
      default: return (uint32_t) g.below(n);
      }
    });
    double dt = w.cfg.tscale;
    if (!w.cfg.constdt) {
      dt *= 0.5 + w.trng.uni();
      if (w.trng.below(64) == 0) dt *= 1 + w.trng.below(50);
    }
    const Cand x = c[k];
    if (x.type != 0) dt *= w.cfg.netcost;
    w.now += dt;
    if (x.type == 0) {
      if (x.a != w.lastrank && !w.ranks[w.lastrank]->done && !w.ranks[w.lastrank]->cond) w.res.faults[F_PREEMPT]++;
      w.lastrank = x.a;
      w.ranks[x.a]->cond = nullptr;
      resume(x.a);
    } else {
      if (k > 0 && x.type == 1) w.res.faults[F_REORDER]++;
      if (k > 0 && x.type == 2) w.res.faults[F_LATE_TRANSFER]++;
      if (x.type == 1) {
        il(mix(0x1000 + x.a, x.b));
        w.chan[{x.a, x.b}].pop_front();
        match_arrival(x.m);
      } else if (x.type == 2) {
        il(mix(0x2000 + x.a, x.b));
        do_transfer(x.m);
      } else {
        il(mix(0x3000, x.a));
        x.q->done = true; x.q->cfin();
      }
    }
  }
}

static void point(const char *what, int a = 0, int b = 0) {
  if (!W || W->cur < 0) { fprintf(stderr, "MPI call outside a rank\n"); abort(); }
  Rank &r = R();
  char buf[96];
  snprintf(buf, sizeof buf, "%s(%d,%d)", what, a, b);
  r.what = buf;
  r.calls++;
  r.vt += W->cfg.tscale;
  if (r.finalized) fail("mpi-misuse", "rank " + std::to_string(r.id) + " calls " + r.what + " after finalization");
  if (W->cfg.stalls > 0) {
    if (coin(W->cfg.stalls)) {
      uint32_t k = decide(8, [] { return (uint32_t) W->drng.below(8); });
      r.stall_until = W->res.steps + (1l << (k + 2));
      W->res.faults[F_STALL]++;
    }
  }
  to_main();
  il(mix(hash_bytes(what, strlen(what)) + (uint64_t) W->cur, (uint64_t) (uint32_t) a * 131 + (uint32_t) b));
}
static void block(std::function<bool()> f) {
  if (f()) return;
  R().cond = std::move(f);
  to_main();
}
void yield() { if (W && W->cur >= 0) { R().what = "yield"; to_main(); } }

static void bad(const string &s) {
  fail("mpi-misuse", "rank " + std::to_string(W->cur) + ": " + s);
}
static Comm &comm(MPI_Comm h) {
  if (h == MPI_COMM_SELF) h = 0x0cf00000 + W->cur;
  auto it = W->comms.find(h);
  if (it == W->comms.end()) bad("invalid communicator handle");
  int k = it->second.rankof(W->cur);
  if (k < 0) bad("communicator used by a process that is not a member");
  if (it->second.freed[k]) bad("communicator used after it was freed");
  return it->second;
}
static World::DT dt(MPI_Datatype t) {
  auto it = W->types.find(t);
  if (it == W->types.end()) bad("invalid datatype");
  return it->second;
}

// ---------------------------------------------------------------- point to point
static void set_status(MPI_Status *s, const MPI_Status &v) { if (s) *s = v; }
static MPI_Status empty_status() { MPI_Status s; s.MPI_SOURCE = MPI_ANY_SOURCE; s.MPI_TAG = MPI_ANY_TAG; s.MPI_ERROR = 0; s.sim_bytes = 0; s.sim_cancelled = 0; return s; }

static bool matches(const Req *q, const Msg *m) {
  return q->comm == m->comm && (q->peer == MPI_ANY_SOURCE || q->peer == m->csrc) && (q->tag == MPI_ANY_TAG || q->tag == m->tag);
}
static void pair_up(Msg *m, Req *q) {
  m->rreq = q; m->taken = true;
  W->matched.push_back(m);
}
static void match_arrival(Msg *m) {
  m->arrived = true;
  auto &pq = W->posted[m->dst];
  for (size_t i = 0; i < pq.size(); i++)
    if (matches(pq[i], m)) { Req *q = pq[i]; pq.erase(pq.begin() + i); pair_up(m, q); return; }
  W->unexpected[m->dst].push_back(m);
}
static string txt(long a) { return std::to_string(a); }
static void do_transfer(Msg *m) {
  auto &mv = W->matched;
  mv.erase(std::find(mv.begin(), mv.end(), m));
  Req *q = m->rreq;
  int savecur = W->cur;
  if (m->bytes > q->cap) {
    W->res.violation = true; W->res.cls = "mpi-mismatch";
    W->res.detail = "message of " + txt(m->bytes) + " bytes from rank " + txt(m->src) + " to rank " + txt(m->dst) + " overflows a receive of " + txt(q->cap);
    W->stop = true; return;
  }
  if (m->base != q->base && m->base != MPI_PACKED && q->base != MPI_PACKED && m->bytes) {
    W->res.violation = true; W->res.cls = "mpi-mismatch"; W->res.detail = "datatype of send and receive differ"; W->stop = true; return;
  }
  const char *src = m->eager ? m->data.data() : m->buf;
  if (q->poisoned && q->saved.size()) memcpy(q->buf, q->saved.data(), q->saved.size());
  if (m->bytes) memcpy(q->buf, src, m->bytes);
  note(hash_bytes(src, m->bytes));
  q->poisoned = false; q->saved.clear();
  q->st.MPI_SOURCE = m->csrc; q->st.MPI_TAG = m->tag; q->st.MPI_ERROR = 0; q->st.sim_bytes = (long long) m->bytes; q->st.sim_cancelled = 0;
  q->done = true;
  q->vt = std::max(q->vt, m->vt);
  if (m->sreq) { m->sreq->done = true; m->sreq->vt = q->vt; }
  m->buf = nullptr; m->data.clear(); m->data.shrink_to_fit();
  W->cur = savecur;
}
static Req *new_req(int kind) {
  auto u = std::make_unique<Req>();
  Req *q = u.get();
  W->allreqs.push_back(std::move(u));
  q->kind = kind; q->owner = W->cur; q->st = empty_status(); q->born = W->nextmsg++;
  q->h = W->nextreq; W->nextreq += 1 + (int) (W->mrng.below(3));
  return q;
}
static int publish(Req *q) { W->reqs[q->h] = q; R().live.reqs++; return q->h; }
static void retire(Req *q) {
  if (W->reqs.erase(q->h)) W->ranks[q->owner]->live.reqs--;
}
static Req *req(MPI_Request h) {
  auto it = W->reqs.find(h);
  if (it == W->reqs.end()) bad("invalid request handle");
  if (it->second->owner != W->cur) bad("request of another process");
  return it->second;
}
static void check_p2p(Comm &c, int count, int peer, int tag, bool recv) {
  if (count < 0) bad("negative count in point-to-point call");
  if (tag < 0 && !(recv && tag == MPI_ANY_TAG)) bad("invalid tag");
  if (peer == MPI_PROC_NULL || (recv && peer == MPI_ANY_SOURCE)) return;
  if (peer < 0 || peer >= (int) c.mem.size()) bad("invalid peer rank " + txt(peer));
}
// touch user memory now, in the caller's context, so that bad buffers are reported here
static void probe_read(const void *p, size_t n) {
  if (!n) return;
  if (!p) bad("null buffer with nonzero count");
  void *b = __asan_region_is_poisoned((void *) p, n);
  if (b) { volatile char x = *(char *) b; (void) x; bad("buffer given to MPI is not valid memory"); }
  volatile char x = ((const char *) p)[0]; x = ((const char *) p)[n - 1]; (void) x;
}
static void start_send(Req *q, bool forcesync, bool forcebuf) {
  Comm &c = comm(q->comm);
  auto u = std::make_unique<Msg>();
  Msg *m = u.get();
  W->allmsgs.push_back(std::move(u));
  m->id = W->nextmsg; m->born = W->nextmsg++;
  m->src = W->cur; m->dst = c.mem[q->peer]; m->csrc = c.rankof(W->cur); m->tag = q->tag; m->comm = q->comm;
  m->bytes = q->cap; m->base = q->base;
  m->vt = R().vt + W->cfg.tscale * W->cfg.netcost * (1.0 + (double) m->bytes / 512);
  q->vt = R().vt;
  W->res.msgs++;
  if (R().armed) { Traffic &t = R().tr; t.msgs++; t.to.resize(W->ranks.size()); t.to[m->dst] += (long) m->bytes; }
  bool eager = forcebuf;
  if (!forcesync && !forcebuf) {
    // default decision 0 = buffered
    int pct = 100 - W->eager;
    eager = !coin(pct);
  }
  m->eager = eager;
  W->res.faults[eager ? F_EAGER : F_RENDEZVOUS]++;
  if (eager) { if (q->cap) m->data.assign(q->buf, q->buf + q->cap); q->done = true; }
  else { m->buf = q->buf; m->sreq = q; }
  W->chan[{m->src, m->dst}].push_back(m);
}
static void start_recv(Req *q) {
  q->vt = R().vt;
  if (q->cap) {
    q->saved.assign(q->buf, q->buf + q->cap);
    if (!W->cfg.quiet_schedule) { memset(q->buf, 0xFB, q->cap); q->poisoned = true; } else q->saved.clear();
  }
  auto &uq = W->unexpected[W->cur];
  for (size_t i = 0; i < uq.size(); i++)
    if (matches(q, uq[i])) { Msg *m = uq[i]; uq.erase(uq.begin() + i); pair_up(m, q); return; }
  W->posted[W->cur].push_back(q);
}
static Req *mk_send(const void *buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm h) {
  Comm &c = comm(h);
  check_p2p(c, count, dest, tag, false);
  auto d = dt(t);
  probe_read(buf, d.size * count);
  Req *q = new_req(RK_SEND);
  q->buf = (char *) buf; q->cap = d.size * count; q->base = d.base; q->comm = h; q->peer = dest; q->tag = tag;
  if (tag > 0 && R().armed) W->libtags[(int) h].insert(tag);
  return q;
}
static Req *mk_recv(void *buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm h) {
  Comm &c = comm(h);
  check_p2p(c, count, src, tag, true);
  auto d = dt(t);
  probe_read(buf, d.size * count);
  Req *q = new_req(RK_RECV);
  q->buf = (char *) buf; q->cap = d.size * count; q->base = d.base; q->comm = h; q->peer = src; q->tag = tag;
  return q;
}
static void go_send(Req *q, int mode) {   // mode 0 standard, 1 sync, 2 buffered
  q->active = true; q->done = false; q->mode = mode;
  if (q->peer == MPI_PROC_NULL) { q->done = true; return; }
  start_send(q, mode == 1, mode == 2);
}
static void go_recv(Req *q) {
  q->active = true; q->done = false;
  if (q->peer == MPI_PROC_NULL) { q->done = true; q->st = empty_status(); q->st.MPI_SOURCE = MPI_PROC_NULL; return; }
  start_recv(q);
}
static void seen(Req *q) { R().vt = std::max(R().vt, q->vt); }
static void finish_req(MPI_Request *h, Req *q, MPI_Status *st) {
  seen(q);
  set_status(st, q->st);
  q->active = false;
  if (!q->persistent) { retire(q); *h = MPI_REQUEST_NULL; }
}
}  // namespace sim
using namespace sim;

extern "C" {
static int send_generic(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h, int mode, const char *nm) {
  point(nm, d, n);
  Req *q = mk_send(b, n, t, d, tag, h);
  go_send(q, mode);
  R().what = string(nm) + "(to " + std::to_string(d) + ")";
  block([q] { return q->done; }); seen(q);
  return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h) { return send_generic(b, n, t, d, tag, h, 0, "MPI_Send"); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h) { return send_generic(b, n, t, d, tag, h, 1, "MPI_Ssend"); }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h) {
  // ready mode: a matching receive must already be posted
  point("MPI_Rsend", d, n);
  Req *q = mk_send(b, n, t, d, tag, h);
  if (d != MPI_PROC_NULL) {
    Comm &c = comm(h);
    Msg m; m.comm = h; m.csrc = c.rankof(W->cur); m.tag = tag;
    bool ok = false;
    for (Req *r : W->posted[c.mem[d]]) if (matches(r, &m)) ok = true;
    if (!ok) bad("ready send without a posted receive");
  }
  go_send(q, 0);
  block([q] { return q->done; }); seen(q);
  return 0;
}
int MPI_Bsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h) { return send_generic(b, n, t, d, tag, h, 2, "MPI_Bsend"); }
int MPI_Buffer_attach(void *, int) { return 0; }
int MPI_Buffer_detach(void *, int *n) { if (n) *n = 0; return 0; }
static int isend_generic(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h, MPI_Request *r, int mode, const char *nm) {
  point(nm, d, n);
  Req *q = mk_send(b, n, t, d, tag, h);
  *r = publish(q);
  go_send(q, mode);
  return 0;
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h, MPI_Request *r) { return isend_generic(b, n, t, d, tag, h, r, 0, "MPI_Isend"); }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h, MPI_Request *r) { return isend_generic(b, n, t, d, tag, h, r, 1, "MPI_Issend"); }
int MPI_Irsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h, MPI_Request *r) { return isend_generic(b, n, t, d, tag, h, r, 0, "MPI_Irsend"); }
int MPI_Ibsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h, MPI_Request *r) { return isend_generic(b, n, t, d, tag, h, r, 2, "MPI_Ibsend"); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm h, MPI_Status *st) {
  point("MPI_Recv", s, n);
  Req *q = mk_recv(b, n, t, s, tag, h);
  go_recv(q);
  R().what = "MPI_Recv(from " + std::to_string(s) + ")";
  block([q] { return q->done; }); seen(q);
  set_status(st, q->st);
  return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm h, MPI_Request *r) {
  point("MPI_Irecv", s, n);
  Req *q = mk_recv(b, n, t, s, tag, h);
  *r = publish(q);
  go_recv(q);
  return 0;
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stt, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm h, MPI_Status *st) {
  point("MPI_Sendrecv", d, s);
  Req *q = mk_recv(rb, rn, rt, s, rtag, h);
  Req *p = mk_send(sb, sn, stt, d, stag, h);
  go_send(p, 0); go_recv(q);
  block([q, p] { return q->done && p->done; }); seen(q); seen(p);
  set_status(st, q->st);
  return 0;
}
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm h, MPI_Status *st) {
  point("MPI_Sendrecv_replace", d, s);
  Req *p = mk_send(b, n, t, d, stag, h);
  go_send(p, 2);
  Req *q = mk_recv(b, n, t, s, rtag, h);
  go_recv(q);
  block([q, p] { return q->done && p->done; }); seen(q); seen(p);
  set_status(st, q->st);
  return 0;
}
int MPI_Send_init(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h, MPI_Request *r) {
  Req *q = mk_send(b, n, t, d, tag, h); q->persistent = true; q->mode = 0; *r = publish(q); return 0;
}
int MPI_Ssend_init(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h, MPI_Request *r) {
  Req *q = mk_send(b, n, t, d, tag, h); q->persistent = true; q->mode = 1; *r = publish(q); return 0;
}
int MPI_Recv_init(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm h, MPI_Request *r) {
  Req *q = mk_recv(b, n, t, s, tag, h); q->persistent = true; *r = publish(q); return 0;
}
int MPI_Start(MPI_Request *r) {
  point("MPI_Start");
  Req *q = req(*r);
  if (!q->persistent || q->active) bad("MPI_Start on an active or non-persistent request");
  if (q->kind == RK_SEND) go_send(q, q->mode); else go_recv(q);
  return 0;
}
int MPI_Startall(int n, MPI_Request *r) { for (int i = 0; i < n; i++) MPI_Start(&r[i]); return 0; }

static bool inert(MPI_Request h) { if (h == MPI_REQUEST_NULL) return true; Req *q = req(h); return !q->active; }
int MPI_Wait(MPI_Request *r, MPI_Status *st) {
  point("MPI_Wait");
  if (inert(*r)) { set_status(st, empty_status()); return 0; }
  Req *q = req(*r);
  R().what = "MPI_Wait";
  block([q] { return q->done; }); seen(q);
  finish_req(r, q, st);
  return 0;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) {
  point("MPI_Waitall", n);
  if (n < 0) bad("negative count");
  vector<Req *> v;
  for (int i = 0; i < n; i++) v.push_back(inert(r[i]) ? nullptr : req(r[i]));
  block([&v] { for (Req *q : v) if (q && !q->done) return false; return true; });
  for (int i = 0; i < n; i++) {
    if (v[i]) finish_req(&r[i], v[i], st ? &st[i] : nullptr);
    else if (st) st[i] = empty_status();
  }
  return 0;
}
static int pick_done(vector<int> &d) {
  uint32_t k = decide((uint32_t) d.size(), [&] { return (uint32_t) W->drng.below(d.size()); });
  if (k) W->res.faults[F_WAITANY]++;
  return d[k];
}
static void wait_first(const vector<Req *> &v) {
  if (W->cfg.vtime) { R().lazy = true; R().cond = [&v] { for (Req *q : v) if (q && q->done) return true; return false; }; to_main(); R().lazy = false; return; }
  block([&v] { for (Req *q : v) if (q && q->done) return true; return false; });
}
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *st) {
  point("MPI_Waitany", n);
  if (n < 0) bad("negative count");
  vector<Req *> v; bool any = false;
  for (int i = 0; i < n; i++) { v.push_back(inert(r[i]) ? nullptr : req(r[i])); any |= v.back() != nullptr; }
  if (!any) { *idx = MPI_UNDEFINED; set_status(st, empty_status()); return 0; }
  wait_first(v);
  vector<int> d;
  for (int i = 0; i < n; i++) if (v[i] && v[i]->done) d.push_back(i);
  if (W->cfg.vtime) std::stable_sort(d.begin(), d.end(), [&](int a, int b) { return v[a]->vt < v[b]->vt; });
  int k = pick_done(d);
  *idx = k;
  finish_req(&r[k], v[k], st);
  return 0;
}
int MPI_Waitsome(int n, MPI_Request *r, int *outc, int *idx, MPI_Status *st) {
  point("MPI_Waitsome", n);
  vector<Req *> v; bool any = false;
  for (int i = 0; i < n; i++) { v.push_back(inert(r[i]) ? nullptr : req(r[i])); any |= v.back() != nullptr; }
  if (!any) { *outc = MPI_UNDEFINED; return 0; }
  wait_first(v);
  vector<int> d;
  for (int i = 0; i < n; i++) if (v[i] && v[i]->done) d.push_back(i);
  if (W->cfg.vtime) std::stable_sort(d.begin(), d.end(), [&](int a, int b) { return v[a]->vt < v[b]->vt; });
  *outc = 0;
  while (!d.empty()) {
    int k = pick_done(d);
    d.erase(std::find(d.begin(), d.end(), k));
    idx[*outc] = k;
    finish_req(&r[k], v[k], st ? &st[*outc] : nullptr);
    (*outc)++;
    if (!d.empty() && coin(50)) break;
  }
  return 0;
}
static bool late() { bool f = coin(30); if (f) W->res.faults[F_TEST_FALSE]++; return f; }
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *st) {
  point("MPI_Test");
  if (inert(*r)) { *flag = 1; set_status(st, empty_status()); return 0; }
  Req *q = req(*r);
  *flag = q->done && !late();
  if (*flag) finish_req(r, q, st);
  return 0;
}
int MPI_Testall(int n, MPI_Request *r, int *flag, MPI_Status *st) {
  point("MPI_Testall", n);
  *flag = 1;
  for (int i = 0; i < n; i++) if (!inert(r[i]) && !req(r[i])->done) *flag = 0;
  if (*flag && late()) *flag = 0;
  if (*flag) for (int i = 0; i < n; i++) {
    if (inert(r[i])) { if (st) st[i] = empty_status(); }
    else finish_req(&r[i], req(r[i]), st ? &st[i] : nullptr);
  }
  return 0;
}
int MPI_Testany(int n, MPI_Request *r, int *idx, int *flag, MPI_Status *st) {
  point("MPI_Testany", n);
  vector<int> d; bool any = false;
  for (int i = 0; i < n; i++) if (!inert(r[i])) { any = true; if (req(r[i])->done) d.push_back(i); }
  if (!any) { *flag = 1; *idx = MPI_UNDEFINED; set_status(st, empty_status()); return 0; }
  if (d.empty() || late()) { *flag = 0; *idx = MPI_UNDEFINED; return 0; }
  int k = pick_done(d);
  *flag = 1; *idx = k;
  finish_req(&r[k], req(r[k]), st);
  return 0;
}
int MPI_Testsome(int n, MPI_Request *r, int *outc, int *idx, MPI_Status *st) {
  point("MPI_Testsome", n);
  bool any = false; *outc = 0;
  for (int i = 0; i < n; i++) if (!inert(r[i])) {
    any = true; Req *q = req(r[i]);
    if (q->done && !late()) { idx[*outc] = i; finish_req(&r[i], q, st ? &st[*outc] : nullptr); (*outc)++; }
  }
  if (!any) *outc = MPI_UNDEFINED;
  return 0;
}
int MPI_Request_free(MPI_Request *r) {
  Req *q = req(*r);
  if (q->active && !q->done && q->kind == RK_RECV) bad("active receive request freed");
  q->freed = true; retire(q); *r = MPI_REQUEST_NULL; return 0;
}
int MPI_Cancel(MPI_Request *r) {
  point("MPI_Cancel");
  Req *q = req(*r);
  if (q->kind == RK_RECV) {
    auto &pq = W->posted[W->cur];
    auto it = std::find(pq.begin(), pq.end(), q);
    if (it != pq.end()) {
      pq.erase(it);
      if (q->poisoned && q->saved.size()) memcpy(q->buf, q->saved.data(), q->saved.size());
      q->done = true; q->st.sim_cancelled = 1;
    }
  }
  return 0;
}
int MPI_Test_cancelled(const MPI_Status *s, int *f) { *f = s->sim_cancelled; return 0; }
static Msg *find_probe(int s, int tag, MPI_Comm h) {
  Req q; q.comm = h; q.peer = s; q.tag = tag;
  for (Msg *m : W->unexpected[W->cur]) if (matches(&q, m)) return m;
  return nullptr;
}
static void probe_status(Msg *m, MPI_Status *st) {
  if (!st) return;
  *st = empty_status(); st->MPI_SOURCE = m->csrc; st->MPI_TAG = m->tag; st->sim_bytes = (long long) m->bytes;
}
int MPI_Probe(int s, int tag, MPI_Comm h, MPI_Status *st) {
  point("MPI_Probe", s);
  comm(h);
  block([&] { return find_probe(s, tag, h) != nullptr; });
  probe_status(find_probe(s, tag, h), st);
  return 0;
}
int MPI_Iprobe(int s, int tag, MPI_Comm h, int *flag, MPI_Status *st) {
  point("MPI_Iprobe", s);
  comm(h);
  Msg *m = find_probe(s, tag, h);
  *flag = m != nullptr;
  if (m) probe_status(m, st);
  return 0;
}
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) {
  auto d = dt(t);
  *n = d.size && s->sim_bytes % (long long) d.size == 0 ? (int) (s->sim_bytes / (long long) d.size) : MPI_UNDEFINED;
  return 0;
}
int MPI_Get_elements(const MPI_Status *s, MPI_Datatype t, int *n) { return MPI_Get_count(s, t, n); }
}  // extern C

// ---------------------------------------------------------------- collectives
namespace sim {
typedef std::shared_ptr<Coll> CP;
static CP enter(MPI_Comm h, int kind, int root, long long sig, int base, int op, int *myrank, bool nb = false) {
  Comm &c = comm(h);
  int k = c.rankof(W->cur);
  long s = c.seq[k]++;
  while (c.collbase + (long) c.colls.size() <= s) {
    auto u = std::make_shared<Coll>();
    u->e.resize(c.mem.size()); u->commid = h;
    c.colls.push_back(u);
  }
  CP x = c.colls[s - c.collbase];
  if (x->narr == 0) { x->kind = kind; x->root = root; x->sig = sig; x->base = base; x->op = op; x->nb = nb; W->res.colls++; }
  else if (x->kind != kind)
    fail("mpi-mismatch", string("collective calls differ on one communicator: rank ") + txt(W->cur) + " calls " + kname[kind] + " while others are in " + kname[x->kind] + "; " + describe());
  else if (x->nb != nb) fail("mpi-mismatch", string("rank ") + txt(W->cur) + " calls " + kname[kind] + (nb ? "" : " not") + " in its nonblocking form, unlike others");
  else if (kind == K_ALLTOALL && x->op != op) fail("mpi-mismatch", "ranks call different forms of Alltoall, Alltoallv and Alltoallw on one communicator; " + describe());
  else if (x->root != root || x->sig != sig || x->base != base || x->op != op)
    fail("mpi-mismatch", string("arguments of ") + kname[kind] + " differ between ranks (rank " + txt(W->cur) + ")");
  if (R().armed && kind != K_BARRIER && kind != K_CREATE && kind != K_SPLIT && kind != K_DUP) R().tr.colls++;
  x->e[k].arrived = true; x->narr++; x->e[k].vt = R().vt;
  *myrank = k;
  return x;
}
static void leave(MPI_Comm h, CP x, int k) {
  x->e[k].need();
  x->e[k].left = true; x->nleft++;
  if (x->narr < (int) x->e.size()) W->res.faults[F_COLL_EARLY]++;
  auto it = W->comms.find(h);
  if (it == W->comms.end()) return;
  Comm &c = it->second;
  while (!c.colls.empty() && c.colls.front()->nleft == (int) c.colls.front()->e.size()) { c.colls.pop_front(); c.collbase++; }
}
static bool all_in(const CP &x) { return x->narr == (int) x->e.size(); }
static bool may_leave_early() {
  // default decision 0 = leave as early as allowed
  bool sync = coin(100 - W->relax);
  if (sync) W->res.faults[F_COLL_SYNC]++;
  return !sync;
}
static void finish_coll(MPI_Comm h, CP x, int k, std::function<bool()> cond, std::function<void()> fin, MPI_Request *rq, const char *nm) {
  bool sync = !may_leave_early() || W->cfg.vtime;
  auto full = [x, cond, sync] { return (sync ? all_in(x) : true) && (all_in(x) || cond()); };
  if (!rq) {
    R().what = string(nm);
    block(full);
    if (W->cfg.vtime) for (auto &en : x->e) R().vt = std::max(R().vt, en.vt + W->cfg.tscale * W->cfg.netcost * (1.0 + en.vol / 512));
    fin();
    leave(h, x, k);
  } else {
    Req *q = new_req(RK_COLL);
    q->active = true;
    q->ccond = full;
    int who = W->cur;
    q->cfin = [h, x, k, fin, who] { int c = W->cur; W->cur = who; fin(); leave(h, x, k); W->cur = c; };
    *rq = publish(q);
    W->collreqs.push_back(q);
  }
}
static void put(void *dst, const vector<char> &v) { if (!v.empty()) memcpy(dst, v.data(), v.size()); }
static vector<char> grab(const void *p, size_t n) { probe_read(p, n); vector<char> v(n); if (n) memcpy(v.data(), p, n); return v; }

template <class T> static void red(int op, const T *a, T *b, int n) {
  for (int i = 0; i < n; i++) switch (op) {
    case MPI_MAX: b[i] = a[i] > b[i] ? a[i] : b[i]; break;
    case MPI_MIN: b[i] = a[i] < b[i] ? a[i] : b[i]; break;
    case MPI_SUM: b[i] = a[i] + b[i]; break;
    case MPI_PROD: b[i] = a[i] * b[i]; break;
    case MPI_LAND: b[i] = a[i] && b[i]; break;
    case MPI_LOR: b[i] = a[i] || b[i]; break;
    case MPI_LXOR: b[i] = (!a[i]) != (!b[i]); break;
    default: bad("unsupported reduction");
  }
}
template <class T> static void redi(int op, const T *a, T *b, int n) {
  for (int i = 0; i < n; i++) switch (op) {
    case MPI_BAND: b[i] = a[i] & b[i]; break;
    case MPI_BOR: b[i] = a[i] | b[i]; break;
    case MPI_BXOR: b[i] = a[i] ^ b[i]; break;
    default: red(op, a + i, b + i, 1);
  }
}
struct di { double v; int i; };
struct fi { float v; int i; };
struct ii { int v; int i; };
template <class T> static void redloc(int op, const T *a, T *b, int n) {
  for (int i = 0; i < n; i++) {
    bool take = op == MPI_MINLOC ? (a[i].v < b[i].v || (a[i].v == b[i].v && a[i].i < b[i].i))
                                 : (a[i].v > b[i].v || (a[i].v == b[i].v && a[i].i < b[i].i));
    if (op != MPI_MINLOC && op != MPI_MAXLOC) bad("unsupported reduction");
    if (take) b[i] = a[i];
  }
}
static void reduce2(int op, MPI_Datatype t, const void *a, void *b, int n) {
  auto u = W->uops.find(op);
  if (u != W->uops.end()) { u->second((void *) a, b, &n, &t); return; }
  auto d = dt(t);
  size_t per = 1;
  {
    auto b0 = dt(d.base);
    per = d.size / b0.size;
  }
  n *= (int) per;
  switch (d.base) {
  case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: redi(op, (const signed char *) a, (signed char *) b, n); break;
  case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_UINT8_T: case MPI_C_BOOL: redi(op, (const unsigned char *) a, (unsigned char *) b, n); break;
  case MPI_SHORT: case MPI_INT16_T: redi(op, (const short *) a, (short *) b, n); break;
  case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: redi(op, (const unsigned short *) a, (unsigned short *) b, n); break;
  case MPI_INT: case MPI_INT32_T: redi(op, (const int *) a, (int *) b, n); break;
  case MPI_UNSIGNED: case MPI_UINT32_T: redi(op, (const unsigned *) a, (unsigned *) b, n); break;
  case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: case MPI_AINT: redi(op, (const long long *) a, (long long *) b, n); break;
  case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: redi(op, (const unsigned long long *) a, (unsigned long long *) b, n); break;
  case MPI_FLOAT: red(op, (const float *) a, (float *) b, n); break;
  case MPI_DOUBLE: red(op, (const double *) a, (double *) b, n); break;
  case MPI_LONG_DOUBLE: red(op, (const long double *) a, (long double *) b, n); break;
  case MPI_DOUBLE_INT: redloc(op, (const di *) a, (di *) b, n); break;
  case MPI_FLOAT_INT: redloc(op, (const fi *) a, (fi *) b, n); break;
  case MPI_2INT: redloc(op, (const ii *) a, (ii *) b, n); break;
  default: bad("unsupported reduction type");
  }
}
static bool overlap(const void *a, size_t na, const void *b, size_t nb) {
  const char *x = (const char *) a, *y = (const char *) b;
  return na && nb && x < y + nb && y < x + na;
}
}  // namespace sim

extern "C" {
static int barrier(MPI_Comm h, MPI_Request *rq) {
  point("MPI_Barrier", h);
  int k; CP x = enter(h, K_BARRIER, -1, 0, 0, 0, &k, rq != nullptr);
  finish_coll(h, x, k, [x] { return all_in(x); }, [] {}, rq, "MPI_Barrier");
  return 0;
}
int MPI_Barrier(MPI_Comm h) { return barrier(h, nullptr); }
int MPI_Ibarrier(MPI_Comm h, MPI_Request *r) { return barrier(h, r); }
static int bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm h, MPI_Request *rq) {
  point("MPI_Bcast", root, n);
  size_t nb = dt(t).size * n;
  probe_read(b, nb);
  if (root < 0 || root >= (int) comm(h).mem.size()) bad("invalid root");
  int k; CP x = enter(h, K_BCAST, root, (long long) nb, dt(t).base, 0, &k, rq != nullptr);
  if (k == root) x->e[k].snap = [x, k, b, nb] { x->e[k].chunk = {grab(b, nb)}; };
  finish_coll(h, x, k, [x, k, root] { return k == root || x->e[root].arrived; },
              [x, k, root, b, nb] { if (k != root) { x->e[root].need(); put(b, x->e[root].chunk[0]); } }, rq, "MPI_Bcast");
  return 0;
}
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm h) { return bcast(b, n, t, root, h, nullptr); }
int MPI_Ibcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm h, MPI_Request *r) { return bcast(b, n, t, root, h, r); }

static int reduction(int kind, const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm h, MPI_Request *rq, const char *nm) {
  point(nm, n, op);
  size_t nb = dt(t).size * n;
  int P = (int) comm(h).mem.size();
  size_t in = kind == K_RSB ? nb * P : nb;
  const void *src = s == MPI_IN_PLACE ? r : s;
  probe_read(src, in);
  int k; CP x = enter(h, kind, root, (long long) nb, dt(t).base, op, &k, rq != nullptr);
  bool wants = kind != K_REDUCE || k == root;
  if (wants && s != MPI_IN_PLACE && overlap(s, in, r, nb)) bad(string(nm) + ": send and receive buffers overlap");
  x->e[k].snap = [x, k, src, in] { x->e[k].chunk = {grab(src, in)}; };
  if (s == MPI_IN_PLACE) x->e[k].need();
  auto cond = [x, k, kind, root] {
    if (kind == K_REDUCE) return k == root ? all_in(x) : true;
    if (kind == K_SCAN || kind == K_EXSCAN) { for (int i = 0; i < k; i++) if (!x->e[i].arrived) return false; return true; }
    return all_in(x);
  };
  auto fin = [=] {
    if (!wants) return;
    int lo = 0, hi = P;
    if (kind == K_SCAN) hi = k + 1;
    if (kind == K_EXSCAN) hi = k;
    if (hi <= lo) return;
    for (int i = lo; i < hi; i++) x->e[i].need();
    size_t off = kind == K_RSB ? nb * k : 0;
    vector<char> acc(x->e[lo].chunk[0].begin() + off, x->e[lo].chunk[0].begin() + off + nb);
    for (int i = lo + 1; i < hi; i++) {
      // op is applied as acc = acc (op) next; commutative ops only differ in rounding
      vector<char> nx(x->e[i].chunk[0].begin() + off, x->e[i].chunk[0].begin() + off + nb);
      reduce2(op, t, nx.data(), acc.data(), n);
    }
    put(r, acc);
  };
  finish_coll(h, x, k, cond, fin, rq, nm);
  return 0;
}
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm h) { return reduction(K_REDUCE, s, r, n, t, op, root, h, nullptr, "MPI_Reduce"); }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h) { return reduction(K_ALLREDUCE, s, r, n, t, op, -1, h, nullptr, "MPI_Allreduce"); }
int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h, MPI_Request *q) { return reduction(K_ALLREDUCE, s, r, n, t, op, -1, h, q, "MPI_Iallreduce"); }
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h) { return reduction(K_SCAN, s, r, n, t, op, -1, h, nullptr, "MPI_Scan"); }
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h) { return reduction(K_EXSCAN, s, r, n, t, op, -1, h, nullptr, "MPI_Exscan"); }
int MPI_Reduce_scatter_block(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h) { return reduction(K_RSB, s, r, n, t, op, -1, h, nullptr, "MPI_Reduce_scatter_block"); }

// gather family: every rank contributes one chunk; receivers place them
static int gather(int kind, const void *s, int sn, MPI_Datatype st, void *r, const int *rn, int rn1, const int *rd, MPI_Datatype rt, int root, MPI_Comm h, MPI_Request *rq, const char *nm) {
  point(nm, sn, root);
  int P = (int) comm(h).mem.size();
  int me = comm(h).rankof(W->cur);
  bool wants = root < 0 || me == root;
  size_t rs = wants ? dt(rt).size : 0;
  auto cnt = [=](int i) { return rn ? (long) rn[i] : (long) rn1; };
  auto dis = [=](int i) { return rd ? (long) rd[i] : (long) i * rn1; };
  vector<long> want, pos;
  if (wants) for (int i = 0; i < P; i++) { want.push_back(cnt(i) * (long) rs); pos.push_back(dis(i) * (long) rs); if (cnt(i) < 0) bad("negative count"); }
  const void *src; size_t nb;
  if (s == MPI_IN_PLACE) { if (!wants) bad("in-place on a non-receiving rank"); src = (char *) r + pos[me]; nb = want[me]; }
  else { src = s; nb = dt(st).size * sn; }
  probe_read(src, nb);
  long long sig = kind == K_ALLGATHER || kind == K_GATHER ? (long long) nb : 0;
  int base = s == MPI_IN_PLACE ? dt(rt).base : dt(st).base;
  int k; CP x = enter(h, kind, root, sig, base, 0, &k, rq != nullptr);
  if (wants && s != MPI_IN_PLACE)
    for (int i = 0; i < P; i++) if (overlap(s, nb, (char *) r + pos[i], want[i])) bad(string(nm) + ": send and receive buffers overlap");
  x->e[k].snap = [x, k, src, nb] { x->e[k].chunk = {grab(src, nb)}; };
  if (s == MPI_IN_PLACE) x->e[k].need();
  auto cond = [x, wants, want] {
    if (!wants) return true;
    for (size_t i = 0; i < want.size(); i++) if (want[i] && !x->e[i].arrived) return false;
    return true;
  };
  auto fin = [=] {
    if (!wants) return;
    for (int i = 0; i < P; i++) {
      if (!x->e[i].arrived) continue;
      x->e[i].need();
      if ((long) x->e[i].chunk[0].size() != want[i])
        fail("mpi-mismatch", string(nm) + ": rank " + txt(i) + " sends " + txt(x->e[i].chunk[0].size()) + " bytes, receiver expects " + txt(want[i]));
      put((char *) r + pos[i], x->e[i].chunk[0]);
    }
  };
  finish_coll(h, x, k, cond, fin, rq, nm);
  return 0;
}
int MPI_Gather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm h) { return gather(K_GATHER, s, sn, st, r, nullptr, rn, nullptr, rt, root, h, nullptr, "MPI_Gather"); }
int MPI_Gatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rn, const int *rd, MPI_Datatype rt, int root, MPI_Comm h) { return gather(K_GATHERV, s, sn, st, r, rn, 0, rd, rt, root, h, nullptr, "MPI_Gatherv"); }
int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm h) { return gather(K_ALLGATHER, s, sn, st, r, nullptr, rn, nullptr, rt, -1, h, nullptr, "MPI_Allgather"); }
int MPI_Iallgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm h, MPI_Request *q) { return gather(K_ALLGATHER, s, sn, st, r, nullptr, rn, nullptr, rt, -1, h, q, "MPI_Iallgather"); }
int MPI_Allgatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm h) { return gather(K_ALLGATHERV, s, sn, st, r, rn, 0, rd, rt, -1, h, nullptr, "MPI_Allgatherv"); }

static int scatter(int kind, const void *s, const int *sn, int sn1, const int *sd, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm h, const char *nm) {
  point(nm, rn, root);
  int P = (int) comm(h).mem.size(), me = comm(h).rankof(W->cur);
  bool inplace = r == MPI_IN_PLACE;
  size_t nb = inplace ? 0 : dt(rt).size * rn;
  if (!inplace) probe_read(r, nb);
  int k; CP x = enter(h, kind, root, kind == K_SCATTER && !inplace ? (long long) nb : 0, 0, 0, &k);
  if (me == root) {
    vector<std::pair<const char *, size_t>> parts;
    for (int i = 0; i < P; i++) {
      size_t ss = dt(st).size;
      size_t c = (sn ? sn[i] : sn1) * ss, o = (sd ? (size_t) sd[i] : (size_t) i * sn1) * ss;
      probe_read((const char *) s + o, c);
      parts.push_back({(const char *) s + o, c});
    }
    x->e[k].snap = [x, k, parts] { for (auto &p : parts) x->e[k].chunk.push_back(grab(p.first, p.second)); };
  }
  finish_coll(h, x, k, [x, root] { return x->e[root].arrived; }, [=] {
    x->e[root].need();
    if (inplace) return;
    if (x->e[root].chunk[k].size() != nb) fail("mpi-mismatch", string(nm) + ": sizes differ");
    put(r, x->e[root].chunk[k]);
  }, nullptr, nm);
  return 0;
}
int MPI_Scatter(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm h) { return scatter(K_SCATTER, s, nullptr, sn, nullptr, st, r, rn, rt, root, h, "MPI_Scatter"); }
int MPI_Scatterv(const void *s, const int *sn, const int *sd, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm h) { return scatter(K_SCATTERV, s, sn, 0, sd, st, r, rn, rt, root, h, "MPI_Scatterv"); }

static int alltoall(const void *s, const int *sn, int sn1, const int *sd, const MPI_Datatype *stv, MPI_Datatype st, bool w,
                    void *r, const int *rn, int rn1, const int *rd, const MPI_Datatype *rtv, MPI_Datatype rt, MPI_Comm h, MPI_Request *rq, const char *nm) {
  Comm &c0 = comm(h);
  int P = (int) c0.mem.size();
  point(nm, h, P);
  vector<long> ss, so, rs, ro;
  int base = 0;
  for (int i = 0; i < P; i++) {
    size_t ru = dt(rtv ? rtv[i] : rt).size;
    long rc = rn ? rn[i] : rn1;
    if (rc < 0) bad("negative count");
    rs.push_back(rc * (long) ru);
    ro.push_back(rd ? (w ? (long) rd[i] : (long) rd[i] * (long) ru) : (long) i * rn1 * (long) ru);
    if (s == MPI_IN_PLACE) { ss.push_back(rs[i]); so.push_back(ro[i]); continue; }
    size_t su = dt(stv ? stv[i] : st).size;
    long sc = sn ? sn[i] : sn1;
    if (sc < 0) bad("negative count");
    ss.push_back(sc * (long) su);
    so.push_back(sd ? (w ? (long) sd[i] : (long) sd[i] * (long) su) : (long) i * sn1 * (long) su);
  }
  if (!w) base = dt(rt).base;
  const char *src = s == MPI_IN_PLACE ? (const char *) r : (const char *) s;
  for (int i = 0; i < P; i++) { probe_read(src + so[i], ss[i]); probe_read((char *) r + ro[i], rs[i]); }
  for (int i = 0; i < P; i++) for (int j = 0; j < i; j++)
    if (overlap((char *) r + ro[i], rs[i], (char *) r + ro[j], rs[j])) bad(string(nm) + ": receive blocks overlap");
  if (s != MPI_IN_PLACE)
    for (int i = 0; i < P; i++) for (int j = 0; j < P; j++)
      if (overlap(src + so[i], ss[i], (char *) r + ro[j], rs[j])) bad(string(nm) + ": send and receive buffers overlap");
  int k; CP x = enter(h, K_ALLTOALL, -1, 0, base, w ? 2 : sn || rn ? 1 : 0, &k, rq != nullptr);
  x->e[k].sendbytes = ss; x->e[k].recvbytes = rs;
  for (long b : ss) x->e[k].vol += (double) b;
  for (int i = 0; i < P; i++) if (x->e[i].arrived)
    if (x->e[i].sendbytes[k] != rs[i] || ss[i] != x->e[i].recvbytes[k])
      fail("mpi-mismatch", string(nm) + ": ranks " + txt(i) + " and " + txt(k) + " of the communicator disagree on the amount of data exchanged");
  x->e[k].snap = [=] { for (int i = 0; i < P; i++) x->e[k].chunk.push_back(grab(src + so[i], ss[i])); };
  if (s == MPI_IN_PLACE) x->e[k].need();
  finish_coll(h, x, k, [x, rs, P] { for (int i = 0; i < P; i++) if (rs[i] && !x->e[i].arrived) return false; return true; },
    [=] {
      for (int i = 0; i < P; i++) if (x->e[i].arrived && rs[i]) { x->e[i].need(); note(hash_bytes(x->e[i].chunk[k].data(), x->e[i].chunk[k].size())); put((char *) r + ro[i], x->e[i].chunk[k]); }
    }, rq, nm);
  return 0;
}
int MPI_Alltoall(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm h) { return alltoall(s, nullptr, sn, nullptr, nullptr, st, false, r, nullptr, rn, nullptr, nullptr, rt, h, nullptr, "MPI_Alltoall"); }
int MPI_Ialltoall(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm h, MPI_Request *q) { return alltoall(s, nullptr, sn, nullptr, nullptr, st, false, r, nullptr, rn, nullptr, nullptr, rt, h, q, "MPI_Ialltoall"); }
int MPI_Alltoallv(const void *s, const int *sn, const int *sd, MPI_Datatype st, void *r, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm h) { return alltoall(s, sn, 0, sd, nullptr, st, false, r, rn, 0, rd, nullptr, rt, h, nullptr, "MPI_Alltoallv"); }
int MPI_Ialltoallv(const void *s, const int *sn, const int *sd, MPI_Datatype st, void *r, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm h, MPI_Request *q) { return alltoall(s, sn, 0, sd, nullptr, st, false, r, rn, 0, rd, nullptr, rt, h, q, "MPI_Ialltoallv"); }
int MPI_Alltoallw(const void *s, const int *sn, const int *sd, const MPI_Datatype *st, void *r, const int *rn, const int *rd, const MPI_Datatype *rt, MPI_Comm h) { return alltoall(s, sn, 0, sd, st, 0, true, r, rn, 0, rd, rt, 0, h, nullptr, "MPI_Alltoallw"); }

// ---------------------------------------------------------------- communicators and groups
static int make_comm(const vector<int> &mem) {
  int h = W->nextcomm; W->nextcomm += 1 + (int) W->mrng.below(5);
  Comm &c = W->comms[h];
  c.id = h; c.mem = mem; c.seq.assign(mem.size(), 0); c.freed.assign(mem.size(), 0); c.nlive = (int) mem.size();
  return h;
}
static void own_comm(int h) { if (h != MPI_COMM_NULL) { R().live.comms++; R().comm_handles.insert(h); } }
int MPI_Comm_rank(MPI_Comm h, int *r) { *r = comm(h).rankof(W->cur); return 0; }
int MPI_Comm_size(MPI_Comm h, int *n) { *n = (int) comm(h).mem.size(); return 0; }
static MPI_Group new_group(const vector<int> &m) {
  if (m.empty()) return MPI_GROUP_EMPTY;
  int h = W->nextgroup; W->nextgroup += 1 + (int) W->mrng.below(3);
  W->groups[h] = {m, W->cur, false};
  R().live.groups++;
  return h;
}
static vector<int> grp(MPI_Group g) {
  if (g == MPI_GROUP_EMPTY) return {};
  auto it = W->groups.find(g);
  if (it == W->groups.end() || it->second.owner != W->cur) bad("invalid group handle");
  return it->second.mem;
}
int MPI_Comm_group(MPI_Comm h, MPI_Group *g) { *g = new_group(comm(h).mem); return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *o) {
  vector<int> m = grp(g), v;
  if (n < 0) bad("negative group size");
  for (int i = 0; i < n; i++) {
    if (r[i] < 0 || r[i] >= (int) m.size()) bad("invalid rank in MPI_Group_incl");
    for (int j = 0; j < i; j++) if (r[i] == r[j]) bad("duplicate rank in MPI_Group_incl");
    v.push_back(m[r[i]]);
  }
  *o = new_group(v);
  return 0;
}
int MPI_Group_excl(MPI_Group g, int n, const int *r, MPI_Group *o) {
  vector<int> m = grp(g), v;
  for (size_t i = 0; i < m.size(); i++) { bool ex = false; for (int j = 0; j < n; j++) if (r[j] == (int) i) ex = true; if (!ex) v.push_back(m[i]); }
  *o = new_group(v);
  return 0;
}
int MPI_Group_range_incl(MPI_Group g, int n, int rg[][3], MPI_Group *o) {
  vector<int> m = grp(g), v;
  for (int i = 0; i < n; i++)
    for (int k = rg[i][0]; rg[i][2] > 0 ? k <= rg[i][1] : k >= rg[i][1]; k += rg[i][2]) { if (k < 0 || k >= (int) m.size()) bad("invalid rank range"); v.push_back(m[k]); }
  *o = new_group(v);
  return 0;
}
int MPI_Group_union(MPI_Group a, MPI_Group b, MPI_Group *o) {
  vector<int> v = grp(a);
  for (int x : grp(b)) if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x);
  *o = new_group(v); return 0;
}
int MPI_Group_intersection(MPI_Group a, MPI_Group b, MPI_Group *o) {
  vector<int> v, w = grp(b);
  for (int x : grp(a)) if (std::find(w.begin(), w.end(), x) != w.end()) v.push_back(x);
  *o = new_group(v); return 0;
}
int MPI_Group_difference(MPI_Group a, MPI_Group b, MPI_Group *o) {
  vector<int> v, w = grp(b);
  for (int x : grp(a)) if (std::find(w.begin(), w.end(), x) == w.end()) v.push_back(x);
  *o = new_group(v); return 0;
}
int MPI_Group_free(MPI_Group *g) {
  if (*g != MPI_GROUP_EMPTY) { grp(*g); W->groups.erase(*g); R().live.groups--; }
  *g = MPI_GROUP_NULL;
  return 0;
}
int MPI_Group_size(MPI_Group g, int *n) { *n = (int) grp(g).size(); return 0; }
int MPI_Group_rank(MPI_Group g, int *r) {
  vector<int> m = grp(g); *r = MPI_UNDEFINED;
  for (size_t i = 0; i < m.size(); i++) if (m[i] == W->cur) *r = (int) i;
  return 0;
}
int MPI_Group_compare(MPI_Group a, MPI_Group b, int *r) {
  vector<int> x = grp(a), y = grp(b);
  if (x == y) *r = MPI_IDENT;
  else { std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); *r = x == y ? MPI_SIMILAR : MPI_UNEQUAL; }
  return 0;
}
int MPI_Group_translate_ranks(MPI_Group a, int n, const int *r, MPI_Group b, int *o) {
  vector<int> x = grp(a), y = grp(b);
  for (int i = 0; i < n; i++) {
    if (r[i] == MPI_PROC_NULL) { o[i] = MPI_PROC_NULL; continue; }
    o[i] = MPI_UNDEFINED;
    for (size_t j = 0; j < y.size(); j++) if (y[j] == x[r[i]]) o[i] = (int) j;
  }
  return 0;
}
int MPI_Comm_create(MPI_Comm h, MPI_Group g, MPI_Comm *o) {
  point("MPI_Comm_create", h);
  vector<int> m = grp(g);
  int k; CP x = enter(h, K_CREATE, -1, 0, 0, 0, &k);
  x->e[k].grp = m;
  vector<int> mem = comm(h).mem;
  finish_coll(h, x, k, [x] { return all_in(x); }, [=] {
    if (!x->made) {
      x->made = true;
      x->newcomm.assign(mem.size(), MPI_COMM_NULL);
      for (size_t i = 0; i < mem.size(); i++) {
        const vector<int> &gi = x->e[i].grp;
        if (std::find(gi.begin(), gi.end(), mem[i]) == gi.end()) {
          // a process may pass a group it is not in; then it gets no communicator
          continue;
        }
        if (x->newcomm[i] != MPI_COMM_NULL) continue;
        int nh = make_comm(gi);
        for (int w : gi) {
          int j = -1;
          for (size_t q = 0; q < mem.size(); q++) if (mem[q] == w) j = (int) q;
          if (j < 0) fail("mpi-misuse", "group given to MPI_Comm_create is not a subgroup");
          if (x->e[j].grp != gi) fail("mpi-mismatch", "processes of one group pass different groups to MPI_Comm_create");
          if (x->newcomm[j] != MPI_COMM_NULL) fail("mpi-mismatch", "overlapping groups in MPI_Comm_create");
          x->newcomm[j] = nh;
        }
      }
    }
    *o = x->newcomm[k];
    own_comm(*o);
  }, nullptr, "MPI_Comm_create");
  return 0;
}
int MPI_Comm_create_group(MPI_Comm h, MPI_Group g, int tag, MPI_Comm *o) {
  // collective over the group only: meet on a key
  point("MPI_Comm_create_group", h, tag);
  comm(h);
  vector<int> m = grp(g);
  if (std::find(m.begin(), m.end(), W->cur) == m.end()) { *o = MPI_COMM_NULL; return 0; }
  struct Meet { int arrived = 0, left = 0, handle = 0; };
  static std::map<std::pair<std::pair<int, int>, vector<int>>, std::shared_ptr<Meet>> *meets = nullptr;
  if (!meets) meets = new std::map<std::pair<std::pair<int, int>, vector<int>>, std::shared_ptr<Meet>>();
  auto key = std::make_pair(std::make_pair((int) h, tag), m);
  auto &mp = (*meets)[key];
  if (!mp || mp->arrived == (int) m.size()) mp = std::make_shared<Meet>();
  auto my = mp;
  my->arrived++;
  block([my, &m] { return my->arrived == (int) m.size(); });
  if (!my->handle) my->handle = make_comm(m);
  *o = my->handle;
  own_comm(*o);
  return 0;
}
int MPI_Comm_split(MPI_Comm h, int color, int key, MPI_Comm *o) {
  point("MPI_Comm_split", h, color);
  int k; CP x = enter(h, K_SPLIT, -1, 0, 0, 0, &k);
  if (color < 0 && color != MPI_UNDEFINED) bad("invalid color");
  x->e[k].color = color; x->e[k].key = key;
  vector<int> mem = comm(h).mem;
  finish_coll(h, x, k, [x] { return all_in(x); }, [=] {
    if (!x->made) {
      x->made = true;
      x->newcomm.assign(mem.size(), MPI_COMM_NULL);
      for (size_t i = 0; i < mem.size(); i++) {
        if (x->e[i].color == MPI_UNDEFINED || x->newcomm[i] != MPI_COMM_NULL) continue;
        vector<int> v;
        for (size_t j = 0; j < mem.size(); j++) if (x->e[j].color == x->e[i].color) v.push_back((int) j);
        std::stable_sort(v.begin(), v.end(), [&](int a, int b) { return x->e[a].key < x->e[b].key; });
        vector<int> wr; for (int j : v) wr.push_back(mem[j]);
        int nh = make_comm(wr);
        for (int j : v) x->newcomm[j] = nh;
      }
    }
    *o = x->newcomm[k];
    own_comm(*o);
  }, nullptr, "MPI_Comm_split");
  return 0;
}
int MPI_Comm_split_type(MPI_Comm h, int, int key, MPI_Info, MPI_Comm *o) { return MPI_Comm_split(h, 0, key, o); }
int MPI_Comm_dup(MPI_Comm h, MPI_Comm *o) {
  point("MPI_Comm_dup", h);
  int k; CP x = enter(h, K_DUP, -1, 0, 0, 0, &k);
  vector<int> mem = comm(h).mem;
  finish_coll(h, x, k, [x] { return all_in(x); }, [=] {
    if (!x->made) { x->made = true; x->newcomm.assign(1, make_comm(mem)); }
    *o = x->newcomm[0];
    own_comm(*o);
  }, nullptr, "MPI_Comm_dup");
  return 0;
}
int MPI_Comm_free(MPI_Comm *h) {
  if (*h == MPI_COMM_WORLD || *h == MPI_COMM_SELF) bad("predefined communicator freed");
  Comm &c = comm(*h);
  int k = c.rankof(W->cur);
  c.freed[k] = 1; c.nlive--;
  R().live.comms--;
  R().comm_handles.erase(*h);
  *h = MPI_COMM_NULL;
  return 0;
}
int MPI_Comm_disconnect(MPI_Comm *h) { return MPI_Comm_free(h); }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) {
  if (a == b) { comm(a); *r = MPI_IDENT; return 0; }
  vector<int> x = comm(a).mem, y = comm(b).mem;
  if (x == y) *r = MPI_CONGRUENT;
  else { std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); *r = x == y ? MPI_SIMILAR : MPI_UNEQUAL; }
  return 0;
}
int MPI_Comm_test_inter(MPI_Comm h, int *f) { comm(h); *f = 0; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm h, MPI_Errhandler) { comm(h); return 0; }
int MPI_Comm_set_name(MPI_Comm h, const char *) { comm(h); return 0; }
int MPI_Comm_get_name(MPI_Comm h, char *s, int *n) { comm(h); s[0] = 0; *n = 0; return 0; }
int MPI_Comm_get_attr(MPI_Comm h, int key, void *v, int *f) {
  comm(h); static int ub = 0x7fffffff;
  *f = key == MPI_TAG_UB; if (*f) *(int **) v = &ub; return 0;
}
// Fortran handles are deliberately not the C handles
static const int FKEY = 0x05a5a5a5;
MPI_Comm MPI_Comm_f2c(MPI_Fint f) { return (MPI_Comm) (f ^ FKEY); }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return (MPI_Fint) (c ^ FKEY); }
MPI_Group MPI_Group_f2c(MPI_Fint f) { return (MPI_Group) (f ^ FKEY); }
MPI_Fint MPI_Group_c2f(MPI_Group c) { return (MPI_Fint) (c ^ FKEY); }

// ---------------------------------------------------------------- misc
int MPI_Init(int *, char ***) { return 0; }
int MPI_Init_thread(int *, char ***, int, int *p) { if (p) *p = MPI_THREAD_SINGLE; return 0; }
int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Finalized(int *f) { *f = R().finalized; return 0; }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_SINGLE; return 0; }
int MPI_Finalize(void) {
  point("MPI_Finalize");
  R().finalized = true;
  return 0;
}
int MPI_Abort(MPI_Comm, int code) {
  point("MPI_Abort", code);
  W->res.aborted = true; W->res.abort_rank = W->cur; W->res.abort_code = code;
  __fpurge(stdout);                     // the processes are killed: what they have not flushed is lost
  W->stop = true;
  R().done = true;
  to_main();
  abort();
}
double MPI_Wtime(void) {
  point("MPI_Wtime");
  Rank &r = R();
  if (W->cfg.clockmode >= 4 && coin(3)) {
    uint32_t k = decide(6, [] { return (uint32_t) W->drng.below(6); });
    static const double j[6] = {1e-3, 1, 60, 3600, 1e-6, 10};
    r.cbase += j[k] * (W->cfg.tscale / 1e-6 > 1 ? 1 : 1);
    W->res.faults[F_CLOCK_JUMP]++;
  }
  double t = r.cbase + r.crate * (W->cfg.vtime ? r.vt : W->now);
  if (r.cquant > 0) t = floor(t / r.cquant) * r.cquant;
  if (t < r.lastclock) t = r.lastclock;
  r.lastclock = t;
  note(hash_bytes(&t, sizeof t));
  return t;
}
double MPI_Wtick(void) { return R().cquant > 0 ? R().cquant : 1e-9; }
int MPI_Get_processor_name(char *s, int *n) { strcpy(s, "sim"); *n = 3; return 0; }
int MPI_Get_version(int *a, int *b) { *a = 3; *b = 1; return 0; }
int MPI_Error_string(int, char *s, int *n) { strcpy(s, "error"); *n = 5; return 0; }
int MPI_Error_class(int e, int *c) { *c = e; return 0; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint) p; return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *o) {
  auto d = dt(t); *o = W->nexttype++; W->types[*o] = {d.size * n, d.base}; R().live.types++; return 0;
}
int MPI_Type_commit(MPI_Datatype *t) { dt(*t); return 0; }
int MPI_Type_free(MPI_Datatype *t) { dt(*t); W->types.erase(*t); R().live.types--; *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t, int *n) { *n = (int) dt(t).size; return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { *lb = 0; *e = (MPI_Aint) dt(t).size; return 0; }
int MPI_Op_create(MPI_User_function *f, int, MPI_Op *o) { *o = W->nextop++; W->uops[*o] = f; return 0; }
int MPI_Op_free(MPI_Op *o) { W->uops.erase(*o); *o = MPI_OP_NULL; return 0; }

// ---------------------------------------------------------------- process and allocator seam
// objcopy redirects these symbols in the objects of the library under test
void sim_exit(int code) {
  if (!W || W->cur < 0) _exit(code);
  Rank &r = R();
  r.end.exited = true; r.end.code = code; r.done = true;
  to_main();
  abort();
}
void sim_exit1(int c) { if (W && W->cur >= 0) __fpurge(stdout); sim_exit(c); }
void sim_exit2(int c) { if (W && W->cur >= 0) __fpurge(stdout); sim_exit(c); }
void sim_abort(void) {
  if (!W || W->cur < 0) abort();
  W->res.aborted = true; W->res.abort_rank = W->cur; W->res.abort_code = 134;
  __fpurge(stdout);
  W->stop = true; R().done = true;
  to_main();
  abort();
}
static __attribute__((noinline)) bool alloc_fault() {
  if (!W || W->cur < 0) return false;
  Rank &r = R();
  if (!r.armed) return false;
  long i = r.armed_count++;
  if (W->cfg.site_rank == W->cur) {               // where in the program: return addresses, innermost first
    uintptr_t fp = (uintptr_t) __builtin_frame_address(0), lo = (uintptr_t) r.stack, hi = lo + STACK - 16;
    uint64_t h = 1469598103934665603ull; std::pair<uint64_t, uint64_t> site;
    for (int d = 0; d < 6 && fp >= lo && fp < hi; d++) {
      uintptr_t *f = (uintptr_t *) fp;
      if (d) h = (h ^ f[1]) * 1099511628211ull;   // 0 is this file
      if (d <= 2) site.first = h;
      if (f[0] <= fp) break;
      fp = f[0];
    }
    site.second = h;
    W->res.sites.push_back(site);
  }
  if (W->cfg.fail_rank == W->cur && i >= W->cfg.fail_at && i < W->cfg.fail_at + W->cfg.fail_len && W->cfg.fail_at >= 0) {
    W->res.faults[F_ALLOC_FAIL]++; W->res.alloc_fail_fired = true;
    return true;
  }
  return false;
}
static void scribble(void *p, size_t n) {
  if (!W || !n) return;
  unsigned char *c = (unsigned char *) p;
  switch (W->fill) {
  case 0: memset(p, 0, n); return;
  case 1: memset(p, 0xff, n); break;
  case 2: memset(p, 0x41, n); break;
  case 3: for (size_t i = 0; i < n; i++) c[i] = (unsigned char) W->mrng.next(); break;
  default: memset(p, 0xA5, n);
  }
  W->res.faults[F_GARBAGE_MEM]++;
}
// blocks of gigabytes (grids of billions of points, set up but not transformed) take address space only
static const size_t HUGE_BLOCK = (size_t) 1 << 27;
static std::unordered_map<void *, size_t> huge_blocks;
static void *huge_alloc(size_t n) {
  if (n > ((size_t) 1 << 38)) { errno = ENOMEM; return nullptr; }
  size_t m = (n + 4095) & ~(size_t) 4095;
  char *b = (char *) mmap(nullptr, m + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (b == MAP_FAILED) return nullptr;
  mprotect(b + 4096, m, PROT_READ | PROT_WRITE);
  huge_blocks[b + 4096] = m;
  return b + 4096;
}
static bool huge_free(void *p) {
  if (huge_blocks.empty()) return false;
  auto it = huge_blocks.find(p);
  if (it == huge_blocks.end()) return false;
  munmap((char *) p - 4096, it->second + 8192);
  huge_blocks.erase(it);
  return true;
}
static void *track(void *p, size_t n, int kind) {
  if (W && W->cur >= 0 && p) {
    W->blocks[p] = {n, W->cur, kind, W->serial++};
    Rank &r = R();
    r.live.blocks++; r.live.bytes += (long) n;
    if (r.live.bytes > r.peak) r.peak = r.live.bytes;
  }
  return p;
}
static void untrack(void *p) {
  if (!W || !p) return;
  auto it = W->blocks.find(p);
  if (it == W->blocks.end()) return;
  Rank &r = *W->ranks[it->second.owner];
  r.live.blocks--; r.live.bytes -= (long) it->second.n;
  W->blocks.erase(it);
}
void *sim_malloc(size_t n) {
  if (alloc_fault()) { errno = ENOMEM; return nullptr; }
  if (n >= HUGE_BLOCK) return track(huge_alloc(n), n, 0);
  void *p = malloc(n);
  if (p) scribble(p, n);
  return track(p, n, 0);
}
void *sim_calloc(size_t a, size_t b) {
  if (alloc_fault()) { errno = ENOMEM; return nullptr; }
  if (b && a >= HUGE_BLOCK / b) { if (a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; } return track(huge_alloc(a * b), a * b, 0); }
  void *p = calloc(a, b);
  return track(p, a * b, 0);
}
void *sim_realloc(void *q, size_t n) {
  if (alloc_fault()) { errno = ENOMEM; return nullptr; }
  size_t old = 0;
  if (W) { auto it = W->blocks.find(q); if (it != W->blocks.end()) old = it->second.n; }
  if (q && !old) { untrack(q); return track(realloc(q, n), n, 0); }
  if (n == 0) { untrack(q); if (!huge_free(q)) free(q); return nullptr; }
  void *p = n >= HUGE_BLOCK ? huge_alloc(n) : malloc(n);
  if (!p) return nullptr;
  if (n < HUGE_BLOCK) scribble(p, n);
  if (q) { memcpy(p, q, old < n ? old : n); untrack(q); if (!huge_free(q)) free(q); }
  return track(p, n, 0);
}
void *sim_reallocarray(void *q, size_t a, size_t b) { return sim_realloc(q, a * b); }
void *sim_aligned_alloc(size_t al, size_t n) {
  if (alloc_fault()) { errno = ENOMEM; return nullptr; }
  if (n >= HUGE_BLOCK) return track(huge_alloc(n), n, 0);
  void *p = nullptr;
  if (posix_memalign(&p, al < sizeof(void *) ? sizeof(void *) : al, n)) return nullptr;
  scribble(p, n);
  return track(p, n, 0);
}
void *sim_memalign(size_t al, size_t n) { return sim_aligned_alloc(al, n); }
int sim_posix_memalign(void **o, size_t al, size_t n) {
  if (alloc_fault()) return ENOMEM;
  if (n >= HUGE_BLOCK) { void *h = huge_alloc(n); if (!h) return ENOMEM; *o = track(h, n, 0); return 0; }
  void *p = nullptr;
  int rc = posix_memalign(&p, al, n);
  if (rc) return rc;
  scribble(p, n);
  *o = track(p, n, 0);
  return 0;
}
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *) sim_malloc(n); if (p) memcpy(p, s, n); return p; }
void sim_free(void *p) { untrack(p); if (!huge_free(p)) free(p); }
void *sim_new(size_t n) { if (n >= HUGE_BLOCK) { void *h = huge_alloc(n); if (!h) throw std::bad_alloc(); return track(h, n, 1); } void *p = ::operator new(n); scribble(p, n); return track(p, n, 1); }
void *sim_newa(size_t n) { if (n >= HUGE_BLOCK) { void *h = huge_alloc(n); if (!h) throw std::bad_alloc(); return track(h, n, 2); } void *p = ::operator new[](n); scribble(p, n); return track(p, n, 2); }
void *sim_new_nt(size_t n, const std::nothrow_t &) { if (alloc_fault()) return nullptr; return sim_new(n); }
void *sim_newa_nt(size_t n, const std::nothrow_t &) { if (alloc_fault()) return nullptr; return sim_newa(n); }
void *sim_new_al(size_t n, std::align_val_t a) { void *p = ::operator new(n, a); scribble(p, n); return track(p, n, 3); }
void *sim_newa_al(size_t n, std::align_val_t a) { void *p = ::operator new[](n, a); scribble(p, n); return track(p, n, 3); }
void sim_delete(void *p) { untrack(p); if (huge_free(p)) return; ::operator delete(p); }
void sim_deletea(void *p) { untrack(p); if (huge_free(p)) return; ::operator delete[](p); }
void sim_delete_sz(void *p, size_t) { untrack(p); if (huge_free(p)) return; ::operator delete(p); }
void sim_deletea_sz(void *p, size_t) { untrack(p); if (huge_free(p)) return; ::operator delete[](p); }
void sim_delete_al(void *p, std::align_val_t a) { untrack(p); ::operator delete(p, a); }
void sim_deletea_al(void *p, std::align_val_t a) { untrack(p); ::operator delete[](p, a); }
void sim_delete_sz_al(void *p, size_t, std::align_val_t a) { untrack(p); ::operator delete(p, a); }
void sim_deletea_sz_al(void *p, size_t, std::align_val_t a) { untrack(p); ::operator delete[](p, a); }
void sim_count_plan(int d) { if (W && W->cur >= 0) R().live.plans += d; }
}  // extern C

namespace sim {
void arm_alloc(bool on) { if (W && W->cur >= 0) R().armed = on; }
Live live(int r) { return W->ranks[r]->live; }
long live_bytes_peak(int r) { return W->ranks[r]->peak; }
void reset_peak(int r) { W->ranks[r]->peak = W->ranks[r]->live.bytes; }
const Traffic &traffic(int r) { Traffic &t = W->ranks[r]->tr; t.to.resize(W->ranks.size()); return t; }
long rank_msgs(int r) { return W->ranks[r]->calls; }
const std::set<int> &lib_tags(int h) { return W->libtags[h]; }
string live_text(int rank, int maxn) {
  vector<std::pair<long, size_t>> v;
  for (auto &b : W->blocks) if (b.second.owner == rank) v.push_back({b.second.serial, b.second.n});
  std::sort(v.begin(), v.end());
  string s;
  for (auto &x : v) { if (maxn-- <= 0) break; s += (s.empty() ? "" : ",") + txt((long) x.second); }
  return s;
}

static vector<char *> stacks;
Result run(const Config &cfg, const std::function<void(int)> &body) {
  find_regions();
  World w;
  World *outer = W;
  W = &w;
  w.cfg = cfg; w.body = body;
  w.drng = Rng(mix(cfg.seed, 1)); w.trng = Rng(mix(cfg.seed, 2)); w.mrng = Rng(mix(cfg.seed, 3));
  int P = cfg.nranks;
  Rng g(mix(cfg.seed, 4));
  // knobs drawn per run (swarm); they do not depend on the recorded decisions
  static const int eg[] = {0, 0, 100, 100, 50, 20, 80};
  static const int rl[] = {0, 100, 50};
  w.strategy = (int) g.below(8); w.eager = eg[g.below(7)]; w.relax = rl[g.below(3)]; w.fill = 1 + (int) g.below(4);
  if (cfg.strategy >= 0) w.strategy = cfg.strategy;
  if (cfg.eager >= 0) w.eager = cfg.eager;
  if (cfg.relax >= 0) w.relax = cfg.relax;
  if (cfg.fill >= 0) w.fill = cfg.fill;
  w.res.strategy = w.strategy;
  for (auto t : std::initializer_list<std::pair<int, size_t>>{{MPI_CHAR, 1}, {MPI_SIGNED_CHAR, 1}, {MPI_UNSIGNED_CHAR, 1}, {MPI_BYTE, 1}, {MPI_SHORT, 2}, {MPI_UNSIGNED_SHORT, 2},
        {MPI_INT, 4}, {MPI_UNSIGNED, 4}, {MPI_LONG, 8}, {MPI_UNSIGNED_LONG, 8}, {MPI_LONG_LONG, 8}, {MPI_UNSIGNED_LONG_LONG, 8}, {MPI_FLOAT, 4}, {MPI_DOUBLE, 8},
        {MPI_LONG_DOUBLE, 16}, {MPI_INT8_T, 1}, {MPI_INT16_T, 2}, {MPI_INT32_T, 4}, {MPI_INT64_T, 8}, {MPI_UINT8_T, 1}, {MPI_UINT16_T, 2}, {MPI_UINT32_T, 4}, {MPI_UINT64_T, 8},
        {MPI_C_BOOL, 1}, {MPI_PACKED, 1}, {MPI_2INT, 8}, {MPI_DOUBLE_INT, 16}, {MPI_FLOAT_INT, 8}, {MPI_C_FLOAT_COMPLEX, 8}, {MPI_C_DOUBLE_COMPLEX, 16}, {MPI_AINT, 8}})
    w.types[t.first] = {t.second, t.first};
  vector<int> all;
  for (int i = 0; i < P; i++) all.push_back(i);
  Comm &cw = w.comms[MPI_COMM_WORLD];
  cw.id = MPI_COMM_WORLD; cw.mem = all; cw.seq.assign(P, 0); cw.freed.assign(P, 0);
  for (int i = 0; i < P; i++) {          // MPI_COMM_SELF of each rank
    Comm &cs = w.comms[0x0cf00000 + i];
    cs.id = 0x0cf00000 + i; cs.mem = {i}; cs.seq.assign(1, 0); cs.freed.assign(1, 0);
  }
  w.unexpected.resize(P); w.posted.resize(P);
  for (int i = 0; i < P + 61; i++) w.prio.push_back(1 + g.uni());
  int nchg = (int) g.below(6);
  for (int i = 0; i < nchg; i++) w.chg.push_back((long) g.below(i < 3 ? 300 : 3000));
  for (int i = 0; i < P; i++) {
    auto r = std::make_unique<Rank>();
    r->id = i; phase[i] = nullptr;
    r->glob = pristine;
    static const double skew[] = {0, 1e-6, 1e-3, 1, 86400, 1.7e9};
    if (cfg.clockmode >= 1) { r->cbase = skew[g.below(6)] * g.uni(); if (r->cbase != 0) w.res.faults[F_CLOCK_SKEW]++; }
    if (cfg.clockmode >= 2) { static const double dr[] = {1, 1.0001, 0.9999, 1.5, 0.5, 3, 0.1}; r->crate = dr[g.below(7)]; if (r->crate != 1) w.res.faults[F_CLOCK_DRIFT]++; }
    if (cfg.clockmode >= 3 && g.chance(0.5)) { static const double q[] = {1e-6, 1e-3, 1e-2, 1}; r->cquant = q[g.below(4)]; w.res.faults[F_CLOCK_COARSE]++; }
    w.ranks.push_back(std::move(r));
  }
  while ((int) stacks.size() < P) {
    char *s = (char *) mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (s == MAP_FAILED) { perror("mmap"); abort(); }
    mprotect(s, 4096, PROT_NONE);
    stacks.push_back(s + 4096);
  }
  for (int i = 0; i < P; i++) prep_fiber(*w.ranks[i], stacks[i]);
  schedule_loop();
  w.res.simtime = w.now;
  for (auto &r : w.ranks) { w.res.ends.push_back(r->end); w.res.armed_allocs.push_back(r->armed_count); }
  if (!w.res.violation && !w.res.aborted) {
    bool allret = true;
    for (auto &e : w.res.ends) allret &= e.returned;
    if (allret) {
      for (auto &m : w.allmsgs) if (!m->taken) { w.res.violation = true; w.res.cls = "stray-message"; w.res.detail = "message from rank " + txt(m->src) + " to rank " + txt(m->dst) + " (tag " + txt(m->tag) + ") was never received"; break; }
      if (!w.res.violation) for (auto &q : w.reqs) if (q.second->active) { w.res.violation = true; w.res.cls = "unfinished-request"; w.res.detail = "rank " + txt(q.second->owner) + " left an active request"; break; }
      if (!w.res.violation) for (auto &c : w.comms) for (auto &x : c.second.colls) if (x->nleft < (int) x->e.size()) { w.res.violation = true; w.res.cls = "half-collective"; w.res.detail = string(kname[x->kind]) + " entered by some ranks only"; }
    }
  }
  note(w.res.steps);
  W = outer;
  return w.res;
}
}  // namespace sim
