// Seams the simulator owns: allocator, stack contents, rand(), output streams,
// caller-thread scheduling (basic-block granularity), step budget, crash points.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace seam {

// ---------------------------------------------------------------- allocator
enum Fill : int {
  kFillZero = 0,
  kFillNaN = 1,       // all bits set
  kFillHuge = 2,      // finite doubles around 1e100, seeded
  kFillUnit = 3,      // finite doubles in (-2, 2), seeded
  kFillRandom = 4,    // seeded raw bytes
  kFillTiny = 5,      // denormal-ish doubles
  kNumFills = 6,
};
void SetFill(int alloc_fill, int free_fill, uint64_t seed);
void SetStackFill(int fill);
// Guard mode: every SUT block ends at an inaccessible page and freed blocks stay
// inaccessible for a while, so overruns and use-after-free fault at once.
void SetGuard(bool on);
long GuardedBlocks();

// Marks the dynamic extent of a call into the code under test (per thread).
struct Sut {
  Sut();
  ~Sut();
};
struct NoSut {  // temporarily leave (harness callback inside SUT)
  NoSut();
  ~NoSut();
  int saved;
};

void ResetAllocCounter();
long AllocCounter();                       // SUT allocations since reset
void FailAllocAt(long first, long count);  // 1-based SUT allocation indices
void ClearAllocFailure();
long AllocFailuresFired();
long LiveSutBlocks();
long LiveSutBytes();
bool HeapIntact(std::string* why);  // red zones of all live SUT blocks
void ScribbleStack();

// --------------------------------------------------------------------- rand
void SeedRand(uint64_t seed);       // per logical thread stream
enum RandMode : int { kRandSeeded = 0, kRandZero = 1, kRandMax = 2, kRandAlt = 3 };
void SetRandMode(int mode);
long RandDraws();

// ------------------------------------------------------------------ streams
struct StreamCfg {
  long fail_after = -1;   // bytes until the sink starts failing (<0: never)
  bool initially_bad = false;
  int heal_after = -1;    // number of failed writes after which it heals
};
void InstallStreams(const StreamCfg& out, const StreamCfg& err);
long OutBytes();
long ErrBytes();
long StreamFailures();
uint64_t OutHash();
void ResetOutHash();

// -------------------------------------------------------------------- steps
void StepsActivate(bool on);
uint64_t Steps();                      // basic blocks executed since start
void SetStepBudget(uint64_t budget);   // absolute; exceeding => HANG verdict
// Calls fn once when Steps() reaches at (a simulated crash/probe instant).
void AtStep(uint64_t at, std::function<void()> fn);
void ClearAtStep();
uint64_t CoverageCount();  // distinct basic-block hash cells hit
const unsigned char* CoverageMap(size_t* n);
void SetCoverageMap(unsigned char* m);  // 65536 shared cells

// ------------------------------------------------------------------ threads
struct SchedEntry {
  int thread;
  uint64_t delta;
};
// Runs bodies on real threads; exactly one runs at any time.  The schedule
// entries are consumed in order; when exhausted, threads run to completion in
// index order.  Returns number of preemptions that took effect.
long RunThreads(const std::vector<std::function<void()>>& bodies,
                const std::vector<SchedEntry>& schedule);
uint64_t InterleavingHash();

[[noreturn]] void Verdict(const std::string& kind, const std::string& msg);
void SetVerdictHandler(void (*fn)(const std::string&, const std::string&));

}  // namespace seam
