// Bounded exhaustive exploration harness: case enumeration, sharding over worker processes,
// crash/timeout capture, violation recording, replay of one case, measured coverage counters.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include "fakempi/fakempi.h"

namespace mc {

uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
struct Hash {
  uint64_t h = 1469598103934665603ull;
  template<class T> Hash& add(const T& v){ h = hash_bytes(&v, sizeof(T), h); return *this; }
  Hash& str(const std::string& s){ h = hash_bytes(s.data(), s.size(), h); return *this; }
};

class Ctx {
public:
  bool thorough = false;
  int shard = 0, nshards = 1;
  std::string only;      // replay: run only the case with this description
  bool replay() const { return !only.empty(); }

  /// Announce a case; true if this worker has to execute it
  bool begin(const std::string& desc);
  /// true if the case would be executed here, without a description being built yet
  bool mine(uint64_t index) const { return replay() || (int)(index % nshards) == shard; }

  /// true (and the case is passed over) if another worker executes the next case: avoids building its description
  bool skip(){ if(replay() || (int)(index % nshards) == shard) return false; index++; return true; }

  /// measured coverage
  void count(const std::string& name, uint64_t n = 1){ counters[name] += n; }
  void state(uint64_t h){ states.insert(h); }
  void transition(uint64_t n = 1){ transitions += n; }
  void trace(uint64_t n = 1){ traces += n; }          // model trace replayed on the implementation
  void evaluation(uint64_t n = 1){ evaluations += n; }
  void distinct(uint64_t h){ distincts.insert(h); }
  void sample(const std::string& s){ if(samples.size() < 4) samples.push_back(s); }

  /// Record a violation of the property. `key` identifies the failing input/call/history
  void violation(const std::string& key, const std::string& msg);
  bool current_failed() const { return case_failed; }
  const std::string& desc() const { return cur; }
  void progress(); // re-arms the watchdog

  uint64_t transitions = 0, traces = 0, evaluations = 0;
  std::unordered_set<uint64_t> states, distincts;
  std::map<std::string,uint64_t> counters;
  std::vector<std::string> samples;
  struct V { std::string key, desc, msg; };
  std::vector<V> violations; uint64_t nviolations = 0;
  std::map<std::string,int> per_key;
private:
  std::string cur; uint64_t index = 0; bool case_failed = false;
};

/// Run the exploration described by `explore` (called in every worker)
int run(int argc, char** argv, const std::function<void(Ctx&)>& explore);

/// helper to build descriptions
template<class... A> std::string cat(const A&... a){ std::ostringstream s; s.precision(17); (void)std::initializer_list<int>{ (s << a, 0)... }; return s.str(); }

/// Depth-first enumeration of all choice sequences of an execution (stateless model checking)
class DfsChooser : public fmpi::Chooser {
public:
  explicit DfsChooser(int max_deviations = 1000000) : bound(max_deviations) {}
  int choose(int n, const char* kind) override;
  /// advance to the next unexplored sequence; false when all have been explored
  bool next();
  void restart(){ pos = 0; dev = 0; }
  std::string str() const;
  uint64_t executions = 0, points = 0;
  void force(const std::vector<int>& v){ path.clear(); for(int x : v) path.push_back({x, -1}); }
private:
  struct P { int choice; int n; };
  std::vector<P> path; size_t pos = 0; int bound; int dev = 0;
};

} // namespace mc
