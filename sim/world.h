// Executes a plan against the real code and checks the property's oracles.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "plan.h"
#include "sut.h"

namespace sim {

#define SIM_COUNTERS(X)                                                                        \
  X(ops) X(cold_solves) X(warm_solves) X(solved) X(unsolved) X(certified) X(reference_skipped) \
  X(twins_compared) X(duals_checked) X(alloc_failures) X(alloc_failed_ops) X(stream_failures)  \
  X(crashes) X(restarts) X(warm_restarts) X(data_updates) X(cost_changes)                      \
  X(constraints_added) X(invalid_calls) X(reads) X(preemptions) X(threads) X(environments)     \
  X(guarded_blocks) X(adversarial_rand) X(hostile_values) X(kkt_ops) X(ill_posed)              \
  X(exceptions) X(factor_failures) X(slices) X(equivalents) X(leak_checks) X(skipped_ops)      \
  X(slow_solves) X(stalled_steps) X(warm_aborts) X(compared)

enum Counter : int {
#define X(n) c_##n,
  SIM_COUNTERS(X)
#undef X
      kNumCounters
};
const char* CounterName(int c);

struct Report {  // shared memory, written by the run
  int state = 0;  // 0 running, 1 finished, 2 verdict
  char kind[32] = {};
  char msg[2048] = {};
  int op = -1;
  unsigned long long event_hash = 0;
  unsigned long long steps = 0;
  unsigned long long interleaving = 0;
  unsigned long long rand_draws = 0;
  unsigned long long allocs = 0;
  long counters[kNumCounters] = {};
};

struct Slot {
  std::unique_ptr<conex::Program> prog;
  model::Problem model;
  sut::Api api = sut::kApiCpp;
  int ws = -1;
  uint64_t order = 0;  // seed of the construction order
  int ill = 0;         // 1 infeasible, 2 unbounded, 3 unconstrained direction
  int hostile = 0;
  int rescale = 1;       // fixed for the life of the slot
  bool cold_done = false;  // a solve has completed; warm starts make sense
  bool easy = false;       // expected to be solved by a default-like configuration
  sut::Outcome last;
  conex::SolverConfiguration last_cfg;
  bool has_last = false;
  std::vector<std::pair<int, model::Con>> pending;  // entries lost to a failed update
};

class World {
 public:
  World(const Plan& plan, Report* rep, bool verbose);
  ~World();
  void Run();

 private:
  using Log = std::map<int, std::string>;  // op index -> observable result
  struct Ctx {                             // one logical caller thread
    int base = 0;                          // slot offset
    Log* log = nullptr;
    bool threaded = false;
    bool quiet = false;  // no oracle calls (comparison runs)
  };
  using Ops = std::vector<std::pair<int, Op>>;
  Log RunOps(const Ops& ops, int base = 0, bool quiet = false);
  void Exec(int index, const Op& op, Ctx& ctx);
  void Note(Ctx& ctx, int index, const std::string& s);
  [[noreturn]] void Fail(const std::string& kind, const std::string& msg);
  void Count(int c, long n = 1) { rep_->counters[c] += n; }
  void CompareLogs(const Log& a, const Log& b, const std::string& what);
  void Clear();

  Slot* Get(const Op& op, Ctx& ctx);
  conex::SolverConfiguration Config(const Op& op, const Slot& s);
  Eigen::VectorXd* Store(int id, Ctx& ctx);

  void DoNew(int index, const Op& op, Ctx& ctx);
  void DoSolve(int index, const Op& op, Ctx& ctx);
  void DoCost(int index, const Op& op, Ctx& ctx);
  void DoUpdate(int index, const Op& op, Ctx& ctx);
  void DoAdd(int index, const Op& op, Ctx& ctx);
  void DoFeasObj(int index, const Op& op, Ctx& ctx);
  void DoReads(int index, const Op& op, Ctx& ctx);
  void DoBad(int index, const Op& op, Ctx& ctx);
  void DoRestart(int index, const Op& op, Ctx& ctx);
  void DoSlice(int index, const Op& op, Ctx& ctx);
  void DoEquiv(int index, const Op& op, Ctx& ctx);
  void DoKkt(int index, const Op& op, Ctx& ctx);
  void DoEnv(const Op& op);
  void RunThreads(const Op& op);

  void CheckOutcome(Slot* s, const conex::SolverConfiguration& cfg, const sut::Outcome& o,
                    bool warm);
  void Certify(Slot* s, const conex::SolverConfiguration& cfg, const sut::Outcome& o,
               const std::string& what);
  void CheckDuals(Slot* s, const conex::SolverConfiguration& cfg, const sut::Outcome& o);
  sut::Outcome Twin(const Slot& s, const conex::SolverConfiguration& cfg,
                    const sut::SolveOpts& so, uint64_t rs);
  void CheckStats(Slot* s, const conex::SolverConfiguration& cfg, const sut::Outcome& o);
  const model::RefSolution& Ref(const model::Problem& p);
  int WriteCon(Slot* s, int con, const model::Con& target, bool via_c, Rng* order);
  void Destroy(Slot* s);
  void CheckMemory(const char* when);
  std::string Where(const Slot& s, const conex::SolverConfiguration& cfg);

  Plan plan_;
  Report* rep_;
  bool verbose_;
  std::map<int, Slot> slots_;
  std::map<int, std::unique_ptr<Eigen::VectorXd>> stores_;
  std::map<unsigned long long, model::RefSolution> refs_;
  Hash hash_;
  int op_index_ = 0;
  int rand_mode_ = 0;
  // Oracles enabled for this plan's property.
  bool cert_ = false, progress_ = false, duals_ = false, twin_ = false, stats_ = false;
};

model::GenOpts FamilyOpts(const std::string& fam);
std::string KktRun(const Op& op, Report* rep);  // empty: property held

}  // namespace sim
