#include "sut.h"

#include <cstring>
#include <sstream>

#include "conex/dense_lmi_constraint.h"
#include "conex/equality_constraint.h"
#include "conex/hermitian_psd.h"
#include "conex/linear_constraint.h"
#include "conex/quadratic_cone_constraint.h"
#include "conex/soc_constraint.h"

namespace sut {

using namespace model;
using conex::Program;

conex::SolverConfiguration RandomConfig(sim::Rng* r, const Problem& p) {
  conex::SolverConfiguration c;
  c.max_iterations = r->Pick(std::vector<int>{60, 80, 100});
  if (r->Chance(.3)) c.inv_sqrt_mu_max = std::pow(10, r->Uniform(2.5, 3.7));
  if (r->Chance(.3)) c.final_centering_steps = r->Int(1, 8);
  if (r->Chance(.2)) c.final_centering_tolerance = r->Pick(std::vector<double>{.001, .05, .5});
  if (r->Chance(.3)) c.enable_rescaling = 0;
  if (r->Chance(.3)) c.kkt_solver = r->Int(0, 2);
  if (r->Chance(.3)) c.iterative_refinement_iterations = r->Int(0, 2);
  if (r->Chance(.3)) c.initial_centering_steps_coldstart = r->Int(0, 3);
  if (r->Chance(.3)) c.initial_centering_steps_warmstart = r->Int(0, 3);
  if (r->Chance(.2)) c.divergence_upper_bound = r->Pick(std::vector<double>{.5, 1, 2});
  if (r->Chance(p.SupportsLineSearch() ? .4 : .1)) c.enable_line_search = 1;
  if (r->Chance(.4)) c.prepare_dual_variables = 1;
  if (p.HasQuadraticCost()) {
    c.enable_line_search = 1;
    c.enable_rescaling = 0;
  }
  return c;
}

std::string DescribeConfig(const conex::SolverConfiguration& c) {
  std::ostringstream o;
  o << "mode=" << c.initialization_mode << " iters=" << c.max_iterations
    << " ismu=" << c.inv_sqrt_mu_max << " fc=" << c.final_centering_steps << "/"
    << c.final_centering_tolerance << " rescale=" << c.enable_rescaling << " kkt=" << c.kkt_solver
    << " refine=" << c.iterative_refinement_iterations << " ls=" << c.enable_line_search
    << " dual=" << c.prepare_dual_variables << " icc=" << c.initial_centering_steps_coldstart
    << " icw=" << c.initial_centering_steps_warmstart << " div=" << c.divergence_upper_bound;
  return o.str();
}

uint64_t Outcome::hash() const {
  sim::Hash h;
  h.U64(returned);
  h.Bytes(exception.data(), exception.size());
  for (int v : {ret, solved, primal_infeasible, dual_infeasible, iterations}) h.U64((uint64_t)v);
  for (int i = 0; i < y.size(); i++) h.D(y(i));
  for (auto& d : duals)
    for (int i = 0; i < d.size(); i++) h.D(d(i));
  for (double d : mus) h.D(d);
  return h.h;
}

namespace {
bool SameVec(const VectorXd& a, const VectorXd& b, double rel, double* worst) {
  if (a.size() != b.size()) return false;
  if (a.size() == 0) return true;
  double scale = 1e-300;
  for (int i = 0; i < a.size(); i++)
    if (std::isfinite(a(i))) scale = std::max(scale, std::fabs(a(i)));
  for (int i = 0; i < a.size(); i++) {
    if (std::memcmp(&a(i), &b(i), 8) == 0) continue;
    if (std::isnan(a(i)) && std::isnan(b(i))) continue;
    double d = std::fabs(a(i) - b(i));
    if (!(d <= rel * scale)) {
      *worst = d / scale;
      return false;
    }
  }
  return true;
}
}  // namespace

bool Same(const Outcome& a, const Outcome& b, double rel, std::string* why) {
  std::ostringstream o;
  double w = 0;
  if (a.returned != b.returned || a.exception != b.exception)
    o << "one call threw: '" << a.exception << "' vs '" << b.exception << "'";
  else if (a.ret != b.ret)
    o << "return value " << a.ret << " vs " << b.ret;
  else if (a.solved != b.solved || a.primal_infeasible != b.primal_infeasible ||
           a.dual_infeasible != b.dual_infeasible)
    o << "status (" << a.solved << a.primal_infeasible << a.dual_infeasible << ") vs ("
      << b.solved << b.primal_infeasible << b.dual_infeasible << ")";
  else if (a.iterations != b.iterations)
    o << "iterations " << a.iterations << " vs " << b.iterations;
  else if (!SameVec(a.y, b.y, rel, &w))
    o << "primal variable differs (rel " << w << ")";
  else {
    for (size_t i = 0; i < a.duals.size() && i < b.duals.size(); i++)
      if (!SameVec(a.duals[i], b.duals[i], rel, &w)) {
        o << "dual variable " << i << " differs (rel " << w << ")";
        break;
      }
    if (o.str().empty() && a.duals.size() != b.duals.size()) o << "number of duals";
    if (o.str().empty()) {
      VectorXd ma = Eigen::Map<const VectorXd>(a.mus.data(), a.mus.size());
      VectorXd mb = Eigen::Map<const VectorXd>(b.mus.data(), b.mus.size());
      if (!SameVec(ma, mb, rel, &w)) o << "iteration statistics differ (rel " << w << ")";
    }
  }
  if (o.str().empty()) return true;
  if (why) *why = o.str();
  return false;
}

bool CanUse(Api api, const Problem& p) {
  if (api == kApiCpp) return true;
  for (auto& c : p.cons) {
    if (api == kApiCDense) {
      bool ok = c.kind == kLmi || ((c.kind == kLin || c.kind == kEq) && c.full);
      if (c.kind == kQCost && c.full) ok = true;
      if (!ok) return false;
    } else {
      bool ok = c.full && (c.kind == kLin || c.kind == kSoc || c.kind == kHerm1 ||
                           c.kind == kHerm2 || c.kind == kHerm4 || c.kind == kHerm8 ||
                           c.kind == kQCost);
      if (!ok) return false;
    }
  }
  return true;
}

namespace {
template <typename T>
bool Add(Program* p, T&& c, const Con& k) {
  bool failed;
  seam::Sut s;
  if (k.full)
    failed = p->AddConstraint(std::forward<T>(c));
  else
    failed = p->AddConstraint(std::forward<T>(c), k.clique);
  return !failed;
}
template <typename H>
bool AddHerm(Program* p, const Con& c) {
  int h = HermDim(c.kind), n = c.n;
  auto mk = [&](const double* s) {
    typename H::Matrix M(h);
    for (int d = 0; d < h; d++) M.at(d) = Eigen::Map<const MatrixXd>(s + d * n * n, n, n);
    return M;
  };
  std::vector<typename H::Matrix> A;
  for (int j = 0; j < c.A.cols(); j++) {
    VectorXd col = c.A.col(j);
    A.push_back(mk(col.data()));
  }
  auto C = mk(c.c.data());
  std::unique_ptr<conex::HermitianPsdConstraint<H>> con;
  {
    seam::Sut s;
    con = std::make_unique<conex::HermitianPsdConstraint<H>>(n, A, C);
  }
  bool ok = Add(p, std::move(*con), c);
  seam::Sut s;
  con.reset();
  return ok;
}

struct Upd {
  int what, var, r, c, dim;
  double v;
};
}  // namespace

// The caller's buffers are overwritten as soon as a call returns: conex must
// have copied whatever it needs.
static void Scribble(Con* c) {
  c->A.setConstant(std::nan(""));
  c->c.setConstant(1e200);
  c->Q.setConstant(-3e150);
}

static bool AddConImpl(Program* p, Con& c, Api api, sim::Rng* order);
bool AddCon(Program* p, const Con& c0, Api api, sim::Rng* order) {
  Con c = c0;
  c.row_scale.resize(0);
  bool ok = AddConImpl(p, c, api, order);
  c0.row_scale = c.row_scale;
  Scribble(&c);
  return ok;
}

static bool AddConImpl(Program* p, Con& c, Api api, sim::Rng* order) {
  int n = c.n;
  if (api == kApiCpp) {
    switch (c.kind) {
      case kLin: {
        MatrixXd cc = c.c;
        if (order && order->Chance(.5)) {
          // Templated pointer constructor.
          bool ok = Add(p, conex::LinearConstraint(n, &c.A, &cc), c);
          cc.setConstant(1e200);
          return ok;
        }
        return Add(p, conex::LinearConstraint(c.A, cc), c);
      }
      case kLower:
        return Add(p, conex::LowerBound(VectorXd(-c.c)), c);
      case kUpper:
        return Add(p, conex::UpperBound(c.c), c);
      case kEq:
        return Add(p, conex::EqualityConstraints(c.A, c.c), c);
      case kSoc: {
        MatrixXd cc = c.c;
        return Add(p, conex::SOCConstraint(c.A, cc), c);
      }
      case kQuad: {
        MatrixXd cc = c.c;
        if (c.Q.rows()) return Add(p, conex::QuadraticConstraint(c.Q, c.A, cc), c);
        return Add(p, conex::QuadraticConstraint(c.A, cc), c);
      }
      case kLmi: {
        std::vector<MatrixXd> A;
        for (int j = 0; j < c.A.cols(); j++) {
          VectorXd col = c.A.col(j);
          A.push_back(Eigen::Map<const MatrixXd>(col.data(), n, n));
        }
        MatrixXd C = Eigen::Map<const MatrixXd>(c.c.data(), n, n);
        bool ok = Add(p, conex::DenseLMIConstraint(n, A, C), c);
        for (auto& M : A) M.setConstant(7e77);
        C.setConstant(7e77);
        return ok;
      }
      case kHerm1:
        return AddHerm<conex::Real>(p, c);
      case kHerm2:
        return AddHerm<conex::Complex>(p, c);
      case kHerm4:
        return AddHerm<conex::Quaternions>(p, c);
      case kHerm8:
        return AddHerm<conex::Octonions>(p, c);
      case kQCost: {
        seam::Sut s;
        if (c.full) return !p->AddQuadraticCost(c.Q);
        return !p->AddQuadraticCost(c.Q, c.clique);
      }
      default:
        return false;
    }
  }
  if (api == kApiCDense) {
    int before = p->NumberOfConstraints();
    bool range = order && c.range;
    seam::Sut s;
    if (c.kind == kEq || (c.kind == kLin && range)) {
      // Two-sided interface; absent bounds are infinite.
      VectorXd lb = c.c, ub = c.c;
      MatrixXd A = c.A;
      if (c.kind == kLin)
        for (int i = 0; i < n; i++) {
          double inf = order->Chance(.5) ? std::numeric_limits<double>::infinity() : 1e9;
          if (order->Chance(.5)) {
            A.row(i) *= -1;
            lb(i) = -c.c(i);
            ub(i) = inf;
          } else {
            lb(i) = -inf;
          }
        }
      if (c.kind == kLin) {
        c.row_scale.resize(n);
        for (int i = 0; i < n; i++)
          c.row_scale(i) = 1 / std::sqrt(c.A.row(i).squaredNorm() + c.c(i) * c.c(i));
      }
      CONEX_AddLinearInequalities(p, A.data(), n, (int)A.cols(), lb.data(), n, ub.data(), n);
      return !c.c.allFinite() || p->NumberOfConstraints() == before + 1;
    }
    if (c.kind == kLin)
      return CONEX_AddDenseLinearConstraint(p, c.A.data(), n, (int)c.A.cols(), c.c.data(), n) ==
             before;
    if (c.kind == kQCost)
      return CONEX_AddQuadraticCost(p, c.Q.data(), (int)c.Q.rows(), (int)c.Q.cols()) == 0;
    if (c.full)
      return CONEX_AddDenseLMIConstraint(p, c.A.data(), n, n, (int)c.A.cols(), c.c.data(), n, n) ==
             before;
    std::vector<long> vars(c.clique.begin(), c.clique.end());
    return CONEX_AddSparseLMIConstraint(p, c.A.data(), n, n, (int)c.A.cols(), c.c.data(), n, n,
                                        vars.data(), (int)vars.size()) == before;
  }
  // Incremental C interface.
  int id = -1, rc = 1;
  {
    seam::Sut s;
    if (c.kind == kLin) rc = CONEX_NewLinearInequality(p, n, &id);
    if (c.kind == kSoc) rc = CONEX_NewLorentzConeConstraint(p, n, &id);
    if (HermDim(c.kind)) rc = CONEX_NewLinearMatrixInequality(p, n, HermDim(c.kind), &id);
    if (c.kind == kQCost) rc = CONEX_NewQuadraticCost(p, &id);
  }
  if (rc != 0) return false;
  std::vector<Upd> ups;
  int h = HermDim(c.kind);
  if (c.kind == kQCost) {
    for (int j = 0; j < c.Q.cols(); j++)
      for (int i = 0; i < c.Q.rows(); i++) ups.push_back({2, 0, i, j, 0, c.Q(i, j)});
  } else {
    for (int var = -1; var < c.A.cols(); var++) {
      VectorXd col = var < 0 ? c.c : VectorXd(c.A.col(var));
      if (h) {
        for (int d = 0; d < h; d++)
          for (int j = 0; j < n; j++)
            for (int i = (d ? j + 1 : j); i < n; i++)
              ups.push_back({var < 0, var, i, j, d, col(d * n * n + j * n + i)});
      } else {
        for (int i = 0; i < col.size(); i++) ups.push_back({var < 0, var, i, 0, 0, col(i)});
      }
    }
  }
  if (order && c.kind != kQCost && order->Chance(.5)) {
    // Entries are zero until they are set; the constraint must know its last
    // variable and its affine term.
    std::vector<Upd> kept;
    bool affine = false, last = false;
    for (auto& u : ups) {
      bool need = u.what == 1 ? !affine : (u.var == (int)c.A.cols() - 1 && !last);
      if (u.v == 0 && !need) continue;
      if (u.what == 1) affine = true;
      if (u.what == 0 && u.var == (int)c.A.cols() - 1) last = true;
      kept.push_back(u);
    }
    ups = kept;
  }
  if (order) {
    for (int i = (int)ups.size() - 1; i > 0; i--) std::swap(ups[i], ups[order->U64(i + 1)]);
    // Superseded writes first: the last write to an entry must win.
    int dup = order->Int(0, 4);
    for (int i = 0; i < dup && !ups.empty(); i++) {
      Upd u = ups[order->U64(ups.size())];
      u.v = order->Normal();
      ups.insert(ups.begin(), u);
    }
  }
  for (auto& u : ups) {
    seam::Sut s;
    if (u.what == 2)
      rc = CONEX_UpdateQuadraticCostMatrix(p, id, u.v, u.r, u.c);
    else if (u.what == 1)
      rc = CONEX_UpdateAffineTerm(p, id, u.v, u.r, u.c, u.dim);
    else
      rc = CONEX_UpdateLinearOperator(p, id, u.v, u.var, u.r, u.c, u.dim);
    if (rc != 0) return false;
  }
  return true;
}

std::unique_ptr<Program> Create(int m, VectorXd* workspace, Api api) {
  seam::Sut s;
  if (workspace) return std::make_unique<Program>(m, workspace);
  if (api == kApiCpp) return std::make_unique<Program>(m);
  std::unique_ptr<Program> p(static_cast<Program*>(CONEX_CreateConeProgram()));
  if (m >= 1) CONEX_SetNumberOfVariables(p.get(), m);
  return p;
}

void Free(std::unique_ptr<Program>* prog) {
  seam::Sut s;
  prog->reset();
}

void SetCost(Program* prog, const VectorXd& b) {
  seam::Sut s;
  prog->ClearLinearCosts();
  prog->AddLinearCost(-b);
}

// Dual variables the interface exposes faithfully.
bool DualReadable(const Con& c) {
  return c.kind == kLin || c.kind == kLmi || c.kind == kHerm1 || c.kind == kLower ||
         c.kind == kUpper;
}

Outcome Solve(Program* prog, const Problem& p, const conex::SolverConfiguration& cfg,
              const SolveOpts& o) {
  Outcome out;
  out.y = o.y_init.size() == p.m ? o.y_init : VectorXd::Constant(p.m, 7.25);
  // Canary behind the caller's buffer.
  VectorXd buf(p.m + 4);
  buf.head(p.m) = out.y;
  buf.tail(4).setConstant(-123.5);
  try {
    seam::Sut s;
    seam::ScribbleStack();
    if (o.via_c) {
      CONEX_SolverConfiguration cc;
      memset(&cc, 0x5A, sizeof cc);
      CONEX_SetDefaultOptions(&cc);
      cc.prepare_dual_variables = cfg.prepare_dual_variables;
      cc.initialization_mode = cfg.initialization_mode;
      cc.inv_sqrt_mu_max = cfg.inv_sqrt_mu_max;
      cc.minimum_mu = cfg.minimum_mu;
      cc.maximum_mu = cfg.maximum_mu;
      cc.divergence_upper_bound = cfg.divergence_upper_bound;
      cc.enable_line_search = cfg.enable_line_search;
      cc.dinf_upper_bound = cfg.dinf_upper_bound;
      cc.final_centering_steps = cfg.final_centering_steps;
      cc.final_centering_tolerance = cfg.final_centering_tolerance;
      cc.initial_centering_steps_warmstart = cfg.initial_centering_steps_warmstart;
      cc.initial_centering_steps_coldstart = cfg.initial_centering_steps_coldstart;
      cc.warmstart_abort_threshold = cfg.warmstart_abort_threshold;
      cc.max_iterations = cfg.max_iterations;
      if (cfg.iterative_refinement_iterations != 0)
        cc.iterative_refinement_iterations = cfg.iterative_refinement_iterations;
      cc.infeasibility_threshold = cfg.infeasibility_threshold;
      cc.kkt_error_tolerance = cfg.kkt_error_tolerance;
      cc.enable_rescaling = cfg.enable_rescaling;
      if (cfg.kkt_solver != 0) cc.kkt_solver = cfg.kkt_solver;
      // The program holds the same cost; the two entry points must agree.
      out.ret = (p.m + cfg.max_iterations) % 2
                    ? CONEX_Maximize(prog, p.b.data(), p.m, &cc, buf.data(), p.m)
                    : CONEX_Solve(prog, &cc, buf.data(), p.m);
    } else {
      out.ret = conex::Solve(*prog, cfg, buf.data());
    }
    out.returned = true;
  } catch (std::exception& e) {
    out.exception = e.what();
  }
  seam::ClearAllocFailure();
  for (int i = 0; i < 4; i++)
    if (buf(p.m + i) != -123.5) seam::Verdict("OVERRUN", "wrote beyond the caller's output vector");
  out.y = buf.head(p.m);
  if (!out.returned) return out;
  auto st = prog->Status();
  out.solved = st.solved;
  out.primal_infeasible = st.primal_infeasible;
  out.dual_infeasible = st.dual_infeasible;
  out.iterations = st.num_iterations;
  if (o.duals && cfg.prepare_dual_variables) {
    for (size_t i = 0; i < p.cons.size(); i++) {
      VectorXd d;
      if (DualReadable(p.cons[i])) {
        seam::Sut s;
        int sz = prog->GetDualVariableSize((int)i);
        d = VectorXd::Constant(sz, 0.5);
        prog->GetDualVariable((int)i, &d);
      }
      // The two-sided interface normalises rows; its duals refer to those.
      if (p.cons[i].row_scale.size() == d.size()) d = d.cwiseProduct(p.cons[i].row_scale);
      out.duals.push_back(d);
    }
  }
  if (o.stats && prog->NumberOfConstraints() > 0 && prog->stats) {
    for (int k = 0; k < out.iterations && k < 100000; k++) {
      CONEX_IterationStats s;
      s.mu = -1;
      s.iteration_number = -1;
      seam::Sut ss;
      CONEX_GetIterationStats(prog, &s, k);
      out.mus.push_back(s.mu);
    }
  }
  return out;
}

}  // namespace sut
