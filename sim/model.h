// Reference model of a conic program: plain data, an independent barrier
// solver, and cone-membership certificates.  Shares no code with conex.
//
//   maximize  b'y - 1/2 y'Qy   s.t.  c_i - A_i y(clique_i) in K_i,  A_e y = c_e
#pragma once
#include <Eigen/Dense>
#include <string>
#include <vector>

#include "rng.h"

namespace model {

using Eigen::MatrixXd;
using Eigen::VectorXd;

enum Kind : int {
  kLin = 0,   // c - A y >= 0
  kLmi,       // dense real symmetric LMI
  kHerm1,     // Hermitian PSD constraint, real
  kHerm2,     // complex
  kHerm4,     // quaternion
  kHerm8,     // octonion (order <= 3)
  kSoc,       // Lorentz cone
  kQuad,      // Lorentz cone with inner product Q
  kEq,        // A y = c
  kQCost,     // quadratic cost on the clique
  kLower,     // y >= c  (stored as -y <= -c : A = -I)
  kUpper,     // y <= c
  kNumKinds
};
const char* KindName(Kind k);
inline int HermDim(Kind k) {
  return k == kHerm1 ? 1 : k == kHerm2 ? 2 : k == kHerm4 ? 4 : k == kHerm8 ? 8 : 0;
}

struct Con {
  Kind kind = kLin;
  int n = 1;                 // order
  std::vector<int> clique;   // variables, in this order
  bool full = false;         // added without an explicit variable list
  MatrixXd A;                // ambient x |clique|
  VectorXd c;                // ambient
  MatrixXd Q;                // kQuad inner product (may be 0x0) / kQCost matrix
  VectorXd s0, x0;           // interior primal slack at y0 / interior dual witness
  bool range = false;        // kLin: prefers the two-sided interface where there is one
  mutable VectorXd row_scale;  // kLin: row scaling applied by the two-sided interface
  int Ambient() const;
  int Rank() const;
  bool IsCone() const { return kind != kEq && kind != kQCost; }
};

struct Problem {
  int m = 0;
  std::vector<Con> cons;
  VectorXd b;
  VectorXd y0;  // strictly feasible point
  bool HasQuadraticCost() const;
  bool SupportsLineSearch() const;
  int Rank() const;
  bool Has(Kind k) const;
};

VectorXd Sub(const VectorXd& y, const std::vector<int>& clique);
VectorXd Slack(const Con& c, const VectorXd& y);
// Smallest eigenvalue of s in the cone of c (for kEq: -|s|_inf).
double MinEig(const Con& c, const VectorXd& s);
double MinEigOfDual(const Con& c, const VectorXd& x);
double Objective(const Problem& p, const VectorXd& y);
// Largest violation over all constraints, relative to 1+|c|+|A||y|.
double HostileViolation(const Problem& p, const VectorXd& y);
double Violation(const Problem& p, const VectorXd& y, int* worst = nullptr);

struct RefSolution {
  bool ok = false;
  VectorXd y;
  double objective = 0;  // at y (strictly feasible)
  double gap = 0;        // optimum is in [objective, objective + gap]
};
RefSolution Reference(const Problem& p);

// ------------------------------------------------------------- generation
struct GenOpts {
  int max_vars = 5;
  int max_cons = 4;
  std::vector<Kind> kinds;   // allowed kinds
  bool allow_sparse = true;
  bool allow_eq = true;
  bool allow_qcost = false;
  double scale_spread = 0.0;  // log10 spread of constraint scaling
  bool force_full = false;
  int min_vars = 1;
};
Problem Generate(sim::Rng* rng, const GenOpts& opts);
Con GenerateCon(sim::Rng* rng, Kind kind, int n, std::vector<int> clique,
                const VectorXd& y0, VectorXd* x0);
// Redraws the numeric data of p.cons[i] / p.b keeping p well posed: the
// perturbation has relative size eps.
void Perturb(sim::Rng* rng, Problem* p, double eps);
// Redraws the data of one constraint (relative size eps), keeping p well posed.
void PerturbCon(sim::Rng* rng, Problem* p, int i, double eps);
// Adds a new random constraint, keeping p well posed.
void AddRandomCon(sim::Rng* rng, Problem* p, const GenOpts& o);
// Recomputes b from the dual witnesses.
// Zeroes entries of the linear operators; the program stays feasible and bounded.
void Sparsify(sim::Rng* rng, Problem* p);
void RefreshCost(Problem* p);
// Zeroes entries of the linear operators; the program stays feasible and bounded.
void Sparsify(sim::Rng* rng, Problem* p);
void PerturbCost(sim::Rng* rng, Problem* p, double eps);
// Turns p into an infeasible (which=1) or unbounded (which=2) program.
bool WellConditioned(const Problem& p);
bool MakeIllPosed(sim::Rng* rng, Problem* p, int which);
std::string Describe(const Problem& p);
MatrixXd Embed(Kind k, int n, const VectorXd& s);

}  // namespace model
