// Histories of the sparse KKT engine (assembly, factorisation, solve) against a
// dense reference.
#include <list>
#include <sstream>

#include <Eigen/Eigenvalues>

#include "world.h"

#include "conex/equality_constraint.h"
#include "conex/kkt_solver.h"
#include "conex/supernodal_assembler.h"

namespace sim {

using Eigen::MatrixXd;
using Eigen::VectorXd;
using std::vector;

namespace {
struct Block {
  vector<int> clique;  // with dual variables at the end
  vector<int> dual;
  MatrixXd G;          // static block
  MatrixXd A;          // equality block
  VectorXd memory;
  std::unique_ptr<conex::SupernodalAssemblerStatic> st;
  std::unique_ptr<conex::EqualityConstraints> eq;
  std::unique_ptr<conex::Constraint> con;
  std::unique_ptr<conex::SupernodalAssembler> as;
  conex::SupernodalAssemblerBase* base = nullptr;
};

MatrixXd RandSpd(Rng* r, int n, double floor) {
  MatrixXd R(n, n);
  for (int j = 0; j < n; j++)
    for (int i = 0; i < n; i++) R(i, j) = r->Normal();
  return R * R.transpose() / std::max(1, n) + floor * MatrixXd(MatrixXd::Identity(n, n));
}
}  // namespace

std::string KktRun(const Op& op, Report* rep) {
  Rng r((uint64_t)op.Int("gen", 1));
  int n = r.Int(1, (int)op.Int("vars", 12));
  int nb = r.Int(1, (int)op.Int("blocks", 8));
  bool eqs = op.Int("eq", 0) != 0;
  std::list<Block> blocks;
  vector<int> perm(n);
  for (int i = 0; i < n; i++) perm[i] = i;
  vector<char> covered(n, 0);
  int dual = n;
  int structure = r.Int(0, 2);  // random subsets, chain, tree/star
  for (int b = 0; b < nb; b++) {
    Block k;
    int size = r.Int(1, std::min(n, 5));
    if (r.Chance(.1)) size = n;
    for (int i = n - 1; i > 0; i--) std::swap(perm[i], perm[r.U64(i + 1)]);
    if (structure == 1) {
      int at = r.Int(0, n - size);
      for (int i = 0; i < size; i++) k.clique.push_back(at + i);
    } else {
      k.clique.assign(perm.begin(), perm.begin() + size);
      if (structure == 2 && n > 1) {  // a shared hub variable
        bool has = false;
        for (int v : k.clique) has = has || v == 0;
        if (!has) k.clique[0] = 0;
      }
    }
    if (r.Chance(.5)) std::sort(k.clique.begin(), k.clique.end());
    for (int v : k.clique) covered[v] = 1;
    k.G = RandSpd(&r, size, .5);
    blocks.push_back(std::move(k));
  }
  for (int v = 0; v < n; v++)
    if (!covered[v]) {
      Block k;
      k.clique = {v};
      k.G = RandSpd(&r, 1, .5);
      blocks.push_back(std::move(k));
    }
  if (eqs) {
    int left = n / 2;
    int ne = r.Int(1, 2);
    for (int e = 0; e < ne && left > 0; e++) {
      Block k;
      int size = r.Int(1, n);
      for (int i = n - 1; i > 0; i--) std::swap(perm[i], perm[r.U64(i + 1)]);
      k.clique.assign(perm.begin(), perm.begin() + size);
      int rows = r.Int(1, std::min(left, std::max(1, size / 2)));
      left -= rows;
      k.A = MatrixXd(rows, size);
      for (int j = 0; j < size; j++)
        for (int i = 0; i < rows; i++) k.A(i, j) = r.Normal();
      for (int i = 0; i < rows; i++) {
        k.clique.push_back(dual);
        k.dual.push_back(dual++);
      }
      // Equality blocks anywhere in the list.
      auto it = blocks.begin();
      std::advance(it, r.Int(0, (int)blocks.size()));
      blocks.insert(it, std::move(k));
    }
  }
  int eq_blocks = 0;
  for (auto& k : blocks) eq_blocks += !k.dual.empty();
  const int N = dual;
  auto dense = [&] {
    MatrixXd K = MatrixXd::Zero(N, N);
    for (auto& k : blocks) {
      if (k.dual.empty()) {
        for (size_t i = 0; i < k.clique.size(); i++)
          for (size_t j = 0; j < k.clique.size(); j++)
            K(k.clique[i], k.clique[j]) += k.G((long)i, (long)j);
      } else {
        for (int i = 0; i < k.A.rows(); i++)
          for (int j = 0; j < k.A.cols(); j++) {
            K(k.dual[i], k.clique[j]) += k.A(i, j);
            K(k.clique[j], k.dual[i]) += k.A(i, j);
          }
      }
    }
    return K;
  };
  bool independent = true;  // equality rows, with some margin
  if (dual > n) {
    MatrixXd A = dense().block(n, 0, dual - n, n);
    VectorXd ev = Eigen::SelfAdjointEigenSolver<MatrixXd>(A * A.transpose()).eigenvalues();
    independent = ev.minCoeff() > 1e-2 * ev.maxCoeff();
  }
  vector<vector<int>> cliques, duals;
  vector<conex::SupernodalAssemblerBase*> ptrs;
  for (auto& k : blocks) {
    seam::Sut s;
    if (k.dual.empty()) {
      k.st = std::make_unique<conex::SupernodalAssemblerStatic>(k.G);
      k.base = k.st.get();
    } else {
      k.eq = std::make_unique<conex::EqualityConstraints>(
          k.A, MatrixXd(MatrixXd::Zero(k.A.rows(), 1)));
      k.con = std::make_unique<conex::Constraint>(k.eq.get());
      k.as = std::make_unique<conex::SupernodalAssembler>((int)k.clique.size(), k.con.get());
      k.base = k.as.get();
    }
    k.base->SetNumberOfVariables((int)k.clique.size());
    k.memory = VectorXd::Constant(SizeOf(*k.base->GetWorkspace()), .37);
    Initialize(k.base->GetWorkspace(), k.memory.data());
    k.base->GetWorkspace()->setZero();
    cliques.push_back(k.clique);
    duals.push_back(k.dual);
    ptrs.push_back(k.base);
  }
  std::unique_ptr<conex::SupernodalKKTSolver> solver;
  auto make = [&] {
    seam::Sut s;
    solver = std::make_unique<conex::SupernodalKKTSolver>(cliques, duals);
    for (auto* p : ptrs) p->Reset();
    solver->Bind(ptrs);
  };
  make();
  rep->counters[c_kkt_ops]++;
  int steps = (int)op.Int("n", 8);
  int mode = 0, refine = 0;
  std::ostringstream desc;
  desc << "N=" << N << " cliques=";
  for (auto& c : cliques) {
    desc << "{";
    for (size_t i = 0; i < c.size(); i++) desc << (i ? "," : "") << c[i];
    desc << "}";
  }
  auto where = [&](int step) {
    return " at step " + std::to_string(step) + " mode " + std::to_string(mode) + " refinement " +
           std::to_string(refine) + " on " + desc.str();
  };
  bool factored = false;
  MatrixXd K;
  for (int t = 0; t < steps; t++) {
    rep->counters[c_kkt_ops]++;
    int what = r.Int(0, 9);
    if (what == 0) {
      mode = r.Int(0, 2);
      seam::Sut s;
      solver->SetSolverMode(mode);
      factored = false;
    }
    if (what == 1) {
      refine = r.Int(0, 3);
      seam::Sut s;
      solver->SetIterativeRefinementIterations(refine);
      factored = false;
    }
    if (what == 2) {  // new numbers, same structure
      for (auto& k : blocks)
        if (k.dual.empty() && r.Chance(.6)) {
          k.G = RandSpd(&r, (int)k.G.rows(), .5) * std::exp(r.Uniform(-1.5, 1.5));
          k.st->A_ = k.G;
        }
      factored = false;
    }
    if (what == 3) {  // analysis redone over the same assemblers
      for (auto& k : blocks) {  // a re-analysis may move the blocks: fresh workspaces
        seam::Sut s;
        Initialize(k.base->GetWorkspace(), k.memory.data());
      }
      make();
      solver->SetSolverMode(mode);
      solver->SetIterativeRefinementIterations(refine);
      factored = false;
    }
    if (what == 4 && dual == n && mode != 2) {  // an indefinite system must be refused
      Block* pick = nullptr;
      for (auto& k : blocks)
        if (!pick || r.Chance(.4)) pick = &k;
      MatrixXd keep = pick->G;
      pick->G = -50 * keep;
      pick->st->A_ = pick->G;
      MatrixXd D = dense();
      VectorXd ev = Eigen::SelfAdjointEigenSolver<MatrixXd>(D).eigenvalues();
      bool indefinite = ev.minCoeff() < -1e-3 * ev.cwiseAbs().maxCoeff();
      bool ok = false;
      if (indefinite) {
        seam::Sut s;
        solver->Assemble();
        ok = solver->Factor();
      }
      if (ok) return "an indefinite system was factored by Cholesky" + where(t);
      if (indefinite) rep->counters[c_factor_failures]++;
      pick->G = keep;
      pick->st->A_ = keep;
      factored = false;
    }
    // Assemble (either way), factor and solve; or solve again.
    if (!factored) {
      K = dense();
      bool ok;
      {
        seam::Sut s;
        if (r.Chance(.5)) {
          solver->Assemble();
        } else {
          VectorXd AW = VectorXd::Constant(N, 3), AQc = VectorXd::Constant(N, 4);
          double ip = 7;
          solver->Assemble(&AW, &AQc, &ip);
        }
      }
      MatrixXd M;
      {
        seam::Sut s;
        M = solver->KKTMatrix();
      }
      if (M.rows() != N || !((M - K).norm() <= 1e-10 * (1 + K.norm())))
        return "assembled matrix differs from the sum of the blocks by " +
               std::to_string((M - K).norm()) + where(t);
      {
        seam::Sut s;
        ok = solver->Factor();
      }
      if (!ok) return "a well conditioned system could not be factored" + where(t);
      factored = true;
    }
    VectorXd b(N);
    for (int i = 0; i < N; i++) b(i) = r.Normal() * std::pow(10, r.Uniform(-2, 2));
    VectorXd x = b;
    bool inplace = r.Chance(.6);
    {
      seam::Sut s;
      if (inplace) {
        MatrixXd buf = b;
        conex::Ref ref(buf.data(), N, 1);
        solver->SolveInPlace(&ref);
        x = buf;
      } else {
        x = solver->Solve(b);
      }
    }
    auto residual = [&](const VectorXd& v) {
      return (K * v - b).norm() / (K.norm() * v.norm() + b.norm());
    };
    if (!independent) continue;
    double res = residual(x), first = res;
    if (dual > n && mode != 2) {
      // Without pivoting a saddle-point solve may lose digits; it still has to
      // be a solve, which refinement turns into an accurate one.
      for (int k = 0; k < 30 && res > 1e-9 && res < 1; k++) {
        VectorXd d;
        {
          seam::Sut s;
          d = solver->Solve(b - K * x);
        }
        x += d;
        res = residual(x);
      }
    }
    // Several equality blocks: a pivot block may be singular by structure, and
    // the solver then regularises it.
    double tol = eq_blocks > 1 ? .5 : 1e-8;
    if (eq_blocks > 1 && res > 1e-8) rep->counters[c_skipped_ops]++;
    if (!(res <= tol)) {
      char m[64];
      snprintf(m, sizeof m, "%.3g, %.3g after refinement", first, res);
      return std::string("relative residual ") + m + (inplace ? " (in place)" : "") + where(t);
    }
    rep->counters[c_compared]++;
  }
  {
    seam::Sut s;
    solver.reset();
    blocks.clear();
  }
  return "";
}

}  // namespace sim
