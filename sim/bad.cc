// Calls that violate the documented argument ranges: each must be rejected and
// must leave the program as it was.
#include <sstream>

#include "world.h"

#include "conex/dense_lmi_constraint.h"
#include "conex/equality_constraint.h"
#include "conex/hermitian_psd.h"
#include "conex/linear_constraint.h"
#include "conex/soc_constraint.h"

namespace sim {

using Eigen::MatrixXd;
using Eigen::VectorXd;
using model::Con;

void World::DoBad(int index, const Op& op, Ctx& ctx) {
  Slot* s = Get(op, ctx);
  if (!s) return Count(c_skipped_ops);
  Rng r((uint64_t)op.Int("gen", 1));
  conex::Program* p = s->prog.get();
  const int N = p->NumberOfConstraints(), m = p->GetNumberOfVariables();
  const int ncons = (int)s->model.cons.size();
  VectorXd cost = p->linear_cost_;
  int idx = (int)op.Int("what", 0);
  std::string what;
  int rc = 1;           // 0 would mean "accepted"
  bool has_rc = true;
  auto pick = [&](bool (*f)(const Con&)) {
    std::vector<int> v;
    for (int i = 0; i < ncons; i++)
      if (f(s->model.cons[(size_t)i])) v.push_back(i);
    return v.empty() ? -1 : r.Pick(v);
  };
  auto updatable = [](const Con& c) {
    return c.kind == model::kLin || c.kind == model::kSoc || model::HermDim(c.kind) != 0;
  };
  int badcon = r.Pick(std::vector<int>{N, N + 4, -1, -7, INT32_MAX, INT32_MIN});
  int via = r.Int(0, 1);
  auto lin = [&](int con, int var, int row, int col, int dim) {
    return via ? CONEX_UpdateLinearOperator(p, con, 3.5, var, row, col, dim)
               : p->UpdateLinearOperatorOfConstraint(con, 3.5, var, row, col, dim);
  };
  auto aff = [&](int con, int row, int col, int dim) {
    return via ? CONEX_UpdateAffineTerm(p, con, 3.5, row, col, dim)
               : p->UpdateAffineTermOfConstraint(con, 3.5, row, col, dim);
  };
  Count(c_invalid_calls);
  seam::SetStepBudget(seam::Steps() + 400000000ull);
  try {
    seam::Sut u;
    switch (idx) {
      case 0:
        what = "UpdateLinearOperator of constraint " + std::to_string(badcon);
        rc = lin(badcon, 0, 0, 0, 0);
        break;
      case 1:
        what = "UpdateAffineTerm of constraint " + std::to_string(badcon);
        rc = aff(badcon, 0, 0, 0);
        break;
      case 2:
        what = "UpdateQuadraticCostMatrix of constraint " + std::to_string(badcon);
        rc = CONEX_UpdateQuadraticCostMatrix(p, badcon, 2, 0, 0);
        break;
      case 3:
      case 4:
      case 5:
      case 6: {
        int i = pick(updatable);
        if (i < 0) return Count(c_skipped_ops);
        const Con& c = s->model.cons[(size_t)i];
        bool herm = model::HermDim(c.kind) != 0;
        int rows = c.kind == model::kSoc ? c.n + 1 : c.n;
        int k = (int)c.clique.size();
        int var = 0, row = 0, col = 0, dim = 0;
        std::ostringstream w;
        w << (idx == 3 ? "variable " : idx == 4 ? "row " : idx == 5 ? "column " : "dimension ");
        if (idx == 3) {
          var = r.Pick(std::vector<int>{k, k + 1, k + 9, -1, -3});
          w << var;
        }
        if (idx == 4) {
          row = r.Pick(std::vector<int>{rows, rows + 3, -1, -4});
          w << row;
        }
        if (idx == 5) {
          col = herm ? r.Pick(std::vector<int>{c.n, c.n + 2, -1, -3})
                     : r.Pick(std::vector<int>{1, 2, -1});
          w << col;
        }
        if (idx == 6) {
          int h = herm ? model::HermDim(c.kind) : 1;
          dim = r.Pick(std::vector<int>{h, h + 1, -1, -2});
          row = herm && c.n > 1 ? 1 : 0;
          w << dim;
        }
        bool affine = idx != 3 && r.Chance(.5);
        what = std::string(affine ? "UpdateAffineTerm" : "UpdateLinearOperator") + " of " +
               w.str() + " of constraint " + std::to_string(i) + " (" +
               model::KindName(c.kind) + std::to_string(c.n) + ")";
        rc = affine ? aff(i, row, col, dim) : lin(i, var, row, col, dim);
        break;
      }
      case 7: {
        int i = pick([](const Con& c) { return c.kind == model::kQCost; });
        if (i < 0) return Count(c_skipped_ops);
        int n = (int)s->model.cons[(size_t)i].Q.rows();
        int row = 0, col = 0;
        (r.Chance(.5) ? row : col) = r.Pick(std::vector<int>{n, n + 3, -1, -2});
        what = "UpdateQuadraticCostMatrix of entry " + std::to_string(row) + "," +
               std::to_string(col);
        rc = CONEX_UpdateQuadraticCostMatrix(p, i, 2, row, col);
        break;
      }
      case 8: {
        int i = pick([](const Con& c) {
          return c.kind == model::kLmi || c.kind == model::kQuad || c.kind == model::kEq ||
                 c.kind == model::kLower || c.kind == model::kUpper;
        });
        if (i < 0) return Count(c_skipped_ops);
        what = "update of a constraint that does not support updates";
        rc = r.Chance(.5) ? lin(i, 0, 0, 0, 0) : aff(i, 0, 0, 0);
        break;
      }
      case 9: {  // imaginary part on the diagonal
        int i = pick([](const Con& c) { return model::HermDim(c.kind) > 1; });
        if (i < 0) return Count(c_skipped_ops);
        int d = r.Int(1, model::HermDim(s->model.cons[(size_t)i].kind) - 1);
        int q = r.Int(0, s->model.cons[(size_t)i].n - 1);
        what = "imaginary diagonal entry";
        rc = r.Chance(.5) ? lin(i, 0, q, q, d) : aff(i, q, q, d);
        break;
      }
      case 10: {
        int id = -5;
        int w = r.Int(0, 4);
        what = "CONEX_NewLinearMatrixInequality with invalid arguments";
        if (w == 0) rc = CONEX_NewLinearMatrixInequality(p, r.Int(-2, 0), 1, &id);
        if (w == 1) rc = CONEX_NewLinearMatrixInequality(p, 2, r.Pick(std::vector<int>{0, 3, 16, -1}), &id);
        if (w == 2) rc = CONEX_NewLinearMatrixInequality(p, 4, 8, &id);
        if (w == 3) rc = CONEX_NewLinearMatrixInequality(p, 2, 1, nullptr);
        if (w == 4) rc = CONEX_NewLinearMatrixInequality(nullptr, 2, 1, &id);
        break;
      }
      case 11: {
        int id = -5;
        int w = r.Int(0, 2);
        what = "CONEX_NewLorentzConeConstraint with invalid arguments";
        if (w == 0) rc = CONEX_NewLorentzConeConstraint(p, r.Int(-2, 0), &id);
        if (w == 1) rc = CONEX_NewLorentzConeConstraint(p, 2, nullptr);
        if (w == 2) rc = CONEX_NewLorentzConeConstraint(nullptr, 2, &id);
        break;
      }
      case 12: {
        int id = -5;
        int w = r.Int(0, 3);
        what = "CONEX_NewLinearInequality or CONEX_NewQuadraticCost with invalid arguments " +
               std::to_string(w);
        if (w == 0) rc = CONEX_NewLinearInequality(p, 2, nullptr);
        if (w == 1) rc = CONEX_NewLinearInequality(nullptr, 2, &id);
        if (w == 2) rc = CONEX_NewQuadraticCost(p, nullptr);
        if (w == 3) rc = CONEX_NewLinearInequality(p, r.Int(-3, 0), &id);
        break;
      }
      case 13:
        what = "CONEX_SetNumberOfVariables on a program that has variables";
        rc = CONEX_SetNumberOfVariables(p, r.Pick(std::vector<int>{m, m + 1, 1, 0, -1}));
        break;
      case 14: {
        int w = r.Int(0, 5);
        int id;
        double q = 1;
        what = "call on a null program " + std::to_string(w);
        if (w == 0) rc = CONEX_UpdateLinearOperator(nullptr, 0, 1, 0, 0, 0, 0);
        if (w == 1) rc = CONEX_UpdateAffineTerm(nullptr, 0, 1, 0, 0, 0);
        if (w == 2) rc = CONEX_UpdateQuadraticCostMatrix(nullptr, 0, 1, 0, 0);
        if (w == 3) rc = CONEX_AddQuadraticCost(nullptr, &q, 1, 1);
        if (w == 4) rc = CONEX_SetNumberOfVariables(nullptr, 2);
        if (w == 5) rc = CONEX_NewQuadraticCost(nullptr, &id);
        break;
      }
      case 15:
      case 16: {
        // Variable lists with duplicates or out-of-range entries.
        int k = r.Int(1, std::max(1, std::min(3, m)));
        std::vector<int> v;
        for (int j = 0; j < k; j++) v.push_back(j);
        int w = r.Int(0, 2);
        if (w == 0 && k < 2) w = 1;
        if (w == 0) v[(size_t)k - 1] = v[0];
        if (w == 1) v[r.U64((uint64_t)k)] = m + r.Int(0, 3);
        if (w == 2) v[r.U64((uint64_t)k)] = -r.Int(1, 3);
        int kind = idx == 16 ? 5 : r.Int(0, 4);
        std::ostringstream d;
        d << "constraint type " << kind << " on variables {";
        for (int x : v) d << x << " ";
        d << "} of " << m;
        what = d.str();
        MatrixXd A = MatrixXd::Random(2, k), c = MatrixXd::Ones(2, 1);
        if (kind == 0) rc = p->AddConstraint(conex::LinearConstraint(A, c), v);
        if (kind == 1) rc = p->AddConstraint(conex::SOCConstraint(A, c), v);
        if (kind == 2) {
          std::vector<MatrixXd> As((size_t)k, MatrixXd(MatrixXd::Identity(2, 2)));
          rc = p->AddConstraint(conex::DenseLMIConstraint(2, As, MatrixXd(MatrixXd::Identity(2, 2))), v);
        }
        if (kind == 3) rc = p->AddConstraint(conex::EqualityConstraints(A, c), v);
        if (kind == 4) {
          std::vector<conex::Real::Matrix> As((size_t)k, conex::Real::Identity(2));
          rc = p->AddConstraint(
              conex::HermitianPsdConstraint<conex::Real>(2, As, conex::Real::Identity(2)), v);
        }
        if (kind == 5) rc = p->AddQuadraticCost(MatrixXd(MatrixXd::Identity(k, k)), v);
        break;
      }
      case 17: {
        int k = 2;
        std::vector<double> A(8, .5), c(4, 1.0);
        long bad = r.Chance(.5) ? m + 1 : -2;
        std::vector<long> v = {0, r.Chance(.5) ? 0 : bad};
        what = "CONEX_AddSparseLMIConstraint on variables {0 " + std::to_string(v[1]) + "}";
        CONEX_AddSparseLMIConstraint(p, A.data(), 2, 2, k, c.data(), 2, 2, v.data(), k);
        has_rc = false;
        break;
      }
      case 18:
        what = "AddLinearCost of the wrong size";
        p->AddLinearCost(VectorXd::Ones(m + r.Pick(std::vector<int>{1, 3, -m, -1})));
        has_rc = false;
        break;
      case 19: {
        what = "CONEX_GetIterationStats or CONEX_SetDefaultOptions with null pointers";
        CONEX_IterationStats st;
        CONEX_GetIterationStats(nullptr, &st, 0);
        CONEX_GetIterationStats(p, nullptr, 0);
        CONEX_SetDefaultOptions(nullptr);
        has_rc = false;
        break;
      }
      case 20:
        what = "AddQuadraticCost of the wrong order";
        rc = p->AddQuadraticCost(MatrixXd(MatrixXd::Identity(m + 1, m + 1)));
        break;
      case 21: {
        what = "CONEX_Maximize with a cost vector of the wrong size";
        CONEX_SolverConfiguration c;
        CONEX_SetDefaultOptions(&c);
        VectorXd b = VectorXd::Ones(m + 1), y = VectorXd::Constant(m, 5.5);
        int solved = CONEX_Maximize(p, b.data(), m + 1, &c, y.data(), m);
        rc = solved ? 0 : 1;
        break;
      }
      case 22: {
        if (!s->model.HasQuadraticCost()) return Count(c_skipped_ops);
        what = "Solve with a quadratic cost and an unsupported configuration";
        conex::SolverConfiguration c;
        (r.Chance(.5) ? c.enable_line_search : c.enable_rescaling) = r.Int(0, 1);
        if (c.enable_line_search && !c.enable_rescaling) c.enable_rescaling = 1;
        VectorXd y = VectorXd::Constant(m, 5.5);
        rc = conex::Solve(*p, c, y.data()) ? 0 : 1;
        break;
      }
      case 23: {
        if (s->has_last) return Count(c_skipped_ops);
        what = "CONEX_GetIterationStats before any solve";
        CONEX_IterationStats st;
        st.iteration_number = -9;
        if (p->stats) return Count(c_skipped_ops);
        CONEX_GetIterationStats(p, &st, 0);
        rc = st.iteration_number == -9;
        break;
      }
      case 24: {
        // The number of variables can be set once, before or after the first constraint.
        int k = r.Int(1, 5), again = r.Pick(std::vector<int>{k, k + 1, 1, k + 7});
        bool add = r.Chance(.3);
        what = "CONEX_SetNumberOfVariables " + std::to_string(again) + " on a new program with " +
               std::to_string(k) + " variables";
        void* q = CONEX_CreateConeProgram();
        if (CONEX_SetNumberOfVariables(q, k) != CONEX_SUCCESS) {
          what = "(valid) CONEX_SetNumberOfVariables";
          rc = 0;
        } else {
          int id;
          if (add) CONEX_NewLinearInequality(q, 2, &id);
          rc = CONEX_SetNumberOfVariables(q, again);
          if (static_cast<conex::Program*>(q)->GetNumberOfVariables() != k) rc = 0;
        }
        CONEX_DeleteConeProgram(q);
        break;
      }
      case 25: {
        if (!s->has_last || !p->stats) return Count(c_skipped_ops);
        int n = p->stats->num_iter;
        CONEX_IterationStats st;
        st.iteration_number = -9;
        st.mu = -9;
        int at = r.Pick(std::vector<int>{n, n + 1, n + 60, -n - 1, -n - 40, INT32_MAX, INT32_MIN});
        what = "CONEX_GetIterationStats of iteration " + std::to_string(at) + " of " +
               std::to_string(n);
        CONEX_GetIterationStats(p, &st, at);
        rc = st.iteration_number == -9 && st.mu == -9;
        break;
      }
      default:
        return Count(c_skipped_ops);
    }
  } catch (std::exception& e) {
    seam::NoSut ns;
    Fail("INVALID", what + " threw " + e.what() + " on " + model::Describe(s->model));
  }
  if (has_rc && rc == 0)
    Fail("INVALID", what + " was accepted on " + model::Describe(s->model));
  if (p->NumberOfConstraints() != N || p->GetNumberOfVariables() != m)
    Fail("INVALID", "rejected call changed the program: " + what + " on " +
                        model::Describe(s->model));
  if (p->linear_cost_.size() != cost.size() || (p->linear_cost_ - cost).norm() != 0)
    Fail("INVALID", "rejected call changed the cost: " + what + " on " +
                        model::Describe(s->model));
  std::string why;
  if (!seam::HeapIntact(&why)) Fail("HEAP", why + " by " + what);
  Note(ctx, index, "rejected");
}

}  // namespace sim
