// Drives the code under test (conex) from a reference model, through its C++
// and C interfaces, and records everything observable.
#pragma once
#include <memory>
#include <string>
#include <vector>

// The C header must precede the C++ ones (CONEX_SUCCESS is also a macro there).
#include "interfaces/conex.h"

#include "conex/cone_program.h"
#include "model.h"
#include "seam.h"

namespace sut {

using model::Con;
using model::Kind;
using model::Problem;
using Eigen::MatrixXd;
using Eigen::VectorXd;

enum Api : int { kApiCpp = 0, kApiCDense = 1, kApiCIncremental = 2 };

conex::SolverConfiguration RandomConfig(sim::Rng* r, const Problem& p);
std::string DescribeConfig(const conex::SolverConfiguration& c);

struct Outcome {
  bool returned = false;       // false: an exception escaped
  std::string exception;
  int ret = -1;
  int solved = -1, primal_infeasible = -1, dual_infeasible = -1, iterations = -1;
  VectorXd y;
  std::vector<VectorXd> duals;  // empty when not requested
  std::vector<double> mus;      // iteration statistics through the C interface
  uint64_t hash() const;
};
// Compares outcomes; exact integers, doubles to rel (0: bitwise).
bool Same(const Outcome& a, const Outcome& b, double rel, std::string* why);

struct Slot {
  std::unique_ptr<conex::Program> prog;
  Problem model;
  Api api = kApiCpp;
  std::unique_ptr<VectorXd> workspace;  // caller-owned, may be null
};

bool CanUse(Api api, const Problem& p);
// Adds constraint to a program. Returns false if the API rejected it.
bool AddCon(conex::Program* prog, const Con& c, Api api, sim::Rng* order = nullptr);
std::unique_ptr<conex::Program> Create(int m, VectorXd* workspace, Api api = kApiCpp);
void Free(std::unique_ptr<conex::Program>* prog);
void SetCost(conex::Program* prog, const VectorXd& b);
struct SolveOpts {
  bool duals = false;
  bool stats = true;
  bool via_c = false;
  VectorXd y_init;  // contents of the caller's output buffer before the call
};
Outcome Solve(conex::Program* prog, const Problem& p, const conex::SolverConfiguration& cfg,
              const SolveOpts& o = SolveOpts());
bool DualReadable(const Con& c);

}  // namespace sut
