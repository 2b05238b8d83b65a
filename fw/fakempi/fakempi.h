#pragma once
#include <functional>
#include <string>
#include <vector>
#include <cstdint>

namespace fmpi {

/// Source of every nondeterministic decision of an execution.
struct Chooser {
  virtual ~Chooser() = default;
  /// return a value in [0,n). `kind` names the choice point
  virtual int choose(int n, const char* kind) = 0;
};

struct Options {
  bool late_send = false;   ///< Isend/Send payload is read as late as MPI permits (completion) instead of at the call
  bool late_recv = false;   ///< Irecv payload is only delivered when the request is completed, buffer poisoned until then
  bool sync_send = true;    ///< blocking Send only returns once matched (no buffering)
  bool reverse_reduce = false; ///< order in which contributions are combined
  bool preempt = false;     ///< offer a choice before every MPI call (else only when the running rank blocks)
  Chooser* chooser = nullptr; ///< null: run the lowest runnable rank after the current one
};

struct Result {
  bool ok = true;
  std::string error;
  std::string kind; ///< exception | deadlock | collective_mismatch | truncation | short_message | leak | ...
  uint64_t switches = 0, p2p = 0, collectives = 0;
};

/// Run body(rank) on nranks fibers
Result run(int nranks, const std::function<void(int)>& body, const Options& opt = {});

bool in_fiber();
int current_rank();   ///< -1 outside of run()
int current_size();

/// called each time the running rank changes (rank, or -1 when leaving run())
extern std::function<void(int)> on_switch;
/// used by other simulated services (file system): block the current fiber until pred() holds
void wait_until(const std::function<bool()>& pred, const char* what);
[[noreturn]] void fail(const std::string& kind, const std::string& msg);
/// like fail(), but the ranks are stopped where they are instead of being unwound: usable below noexcept functions, and a model of a crash
[[noreturn]] void halt(const std::string& kind, const std::string& msg);
/// generic collective rendezvous for other services (fake parallel HDF5): returns when all ranks called with the same tag
void collective(const std::string& tag, const std::function<void(const std::vector<void*>&)>& exec, void* mine);

} // namespace fmpi
