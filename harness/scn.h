// Scenario: the whole input of one simulated run, as text that a shrinker can edit line by line.
#ifndef SCN_H
#define SCN_H
#include "../sim/sim.h"
#include <array>
#include <cstdint>
#include <map>
#include <string>
#include <vector>

typedef long long ll;
struct Line {
  std::string w;
  std::map<std::string, ll> kv;
  ll g(const char *k, ll d = 0) const { auto it = kv.find(k); return it == kv.end() ? d : it->second; }
};
struct Scn {
  std::string prop;
  Line cfg, misc;                 // knobs of the simulated world; property-specific numbers
  std::vector<Line> comms, objs, ops, passes;
  std::map<int, std::vector<uint32_t>> dec;   // recorded decisions per pass
};
std::string scn_text(const Scn &);
bool scn_parse(const std::string &text, Scn &out);
Scn scn_gen(const std::string &prop, uint64_t seed, int tier);

typedef std::array<int, 6> Tile;              // ilo ihi jlo jhi klo khi
std::vector<std::vector<int>> comm_groups(const Scn &, int c);   // ordered world ranks of each group
std::vector<Tile> make_tiling(int type, uint64_t seed, int P, const int n[3], int nd);
inline long tile_size(const Tile &t) { return (long) (t[1] - t[0] + 1) * (t[3] - t[2] + 1) * (t[5] - t[4] + 1); }
#endif
