// Deterministic simulator of an MPI job: all ranks are fibers of one process.
#ifndef SIM_H
#define SIM_H
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int) below((uint64_t) (hi - lo + 1)); }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return uni() < p; }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull + (a << 6)));
  return r.next();
}

enum Fault {
  F_EAGER, F_RENDEZVOUS, F_REORDER, F_LATE_TRANSFER, F_WAITANY, F_STALL, F_CLOCK_JUMP,
  F_CLOCK_SKEW, F_CLOCK_DRIFT, F_CLOCK_COARSE, F_COLL_EARLY, F_COLL_SYNC, F_ALLOC_FAIL,
  F_GARBAGE_MEM, F_PREEMPT, F_STARVE, F_TEST_FALSE, F_NFAULT
};
extern const char *fault_name[F_NFAULT];

struct Config {
  int nranks = 1;
  uint64_t seed = 1;          // schedule, buffering, fault decisions
  int strategy = -1;          // -1: drawn from the seed; else fixed
  int eager = -1;             // percent of standard sends that are buffered; -1: drawn
  int relax = -1;             // percent of collectives that may finish early; -1: drawn
  int fill = -1;              // pattern of fresh memory; -1: drawn
  double tscale = 1e-6;       // simulated seconds per step
  bool constdt = false;       // every step takes exactly tscale
  double netcost = 1;         // a step of the network takes this many times as long
  bool vtime = false;         // clocks show each rank's own work and waiting (critical path), not the order of simulation steps
  int clockmode = 0;          // 0 one common clock, 1 skew, 2 skew+drift, 3 +coarse, 4 +jumps
  int stalls = 0;             // percent chance scale of stalls
  long maxsteps = 400000;
  bool quiet_schedule = false;      // default decision everywhere (no search)
  const std::vector<uint32_t> *replay = nullptr;   // recorded decisions
  // allocation fault
  int fail_rank = -1;
  int site_rank = -1;         // record where this rank allocates
  long fail_at = -1;          // index among this rank's armed allocations
  int fail_len = 1;           // number of consecutive failures
};

struct RankEnd { bool returned = false; bool exited = false; int code = 0; };

struct Result {
  bool violation = false;
  std::string cls, detail;
  uint64_t loghash = 0;       // everything observable, bit for bit
  uint64_t ilhash = 0;        // interleaving: who acted, in which order, on what
  long steps = 0, switches = 0, msgs = 0, colls = 0;
  double simtime = 0;
  long faults[F_NFAULT] = {0};
  bool aborted = false;
  int abort_rank = -1, abort_code = 0;
  bool alloc_fail_fired = false;
  std::vector<RankEnd> ends;
  std::vector<uint32_t> decisions;
  std::vector<long> armed_allocs;
  std::vector<std::pair<uint64_t, uint64_t>> sites;     // of site_rank's armed allocations: the statement, the statement and how it was reached
  int strategy = 0;
};

Result run(const Config &, const std::function<void(int)> &body);

// ---- callable from rank code (harness) ----
int me();                                   // world rank of the running fiber, -1 outside
[[noreturn]] void fail(const std::string &cls, const std::string &detail);
void note(uint64_t h);                      // add to the log hash
void yield();
void arm_alloc(bool on);                    // count / inject faults in this rank's allocations
struct Live { long blocks = 0, bytes = 0, comms = 0, groups = 0, reqs = 0, plans = 0, types = 0; };
Live live(int rank);
long live_bytes_peak(int rank);
void reset_peak(int rank);
// what the library sent from a rank so far: messages, their bytes per destination (world rank), data-moving collectives
struct Traffic { long msgs = 0, colls = 0; std::vector<long> to; };
const Traffic &traffic(int rank);
long rank_msgs(int rank);                   // MPI communication calls made by a rank so far
const std::set<int> &lib_tags(int comm);     // nonzero tags of the library's messages on a communicator
bool aborting();
std::string where();                        // text of what every rank is doing
double now();
std::string live_text(int rank, int maxn);

uint64_t hash_bytes(const void *, size_t, uint64_t h = 1469598103934665603ull);
void set_decision_sink(void (*f)(uint32_t));   // sees every decision as it is made
extern const char *phase[256];               // what the harness is doing, per rank
}
#endif
