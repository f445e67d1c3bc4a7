#include "world.h"

#include <cstdio>
#include <cstring>
#include <iostream>
#include <sstream>

namespace sim {

using conex::SolverConfiguration;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using model::Con;
using model::Kind;
using model::Problem;

const char* CounterName(int c) {
  static const char* names[] = {
#define X(n) #n,
      SIM_COUNTERS(X)
#undef X
  };
  return names[c];
}

namespace {
constexpr uint64_t kCallBudget = 400000000ull;  // basic blocks per call
uint64_t Budget(const SolverConfiguration& cfg) {
  return kCallBudget * (1 + (uint64_t)std::max(0, cfg.max_iterations) / 40);
}

std::string Hex(uint64_t h) {
  char b[20];
  snprintf(b, sizeof b, "%016llx", (unsigned long long)h);
  return b;
}
uint64_t ModelHash(const Problem& p) {
  Hash h;
  h.U64((uint64_t)p.m);
  for (auto& c : p.cons) {
    h.U64((uint64_t)c.kind);
    h.U64((uint64_t)c.n);
    for (int v : c.clique) h.U64((uint64_t)v);
    h.Bytes(c.A.data(), sizeof(double) * (size_t)c.A.size());
    h.Bytes(c.c.data(), sizeof(double) * (size_t)c.c.size());
    h.Bytes(c.Q.data(), sizeof(double) * (size_t)c.Q.size());
  }
  h.Bytes(p.b.data(), sizeof(double) * (size_t)p.b.size());
  return h.h;
}
sut::Api ApiFor(sut::Api api, const Con& c) {
  Problem one;
  one.cons.push_back(c);
  return sut::CanUse(api, one) ? api : sut::kApiCpp;
}
bool Updatable(const Con& c) {
  return (c.kind == model::kLin && c.row_scale.size() == 0) || c.kind == model::kSoc || model::HermDim(c.kind) ||
         c.kind == model::kQCost;
}
std::unique_ptr<conex::Program> BuildAny(const Problem& p, sut::Api api, VectorXd* ws,
                                         uint64_t order_seed) {
  Rng order(order_seed);
  Rng* o = order_seed ? &order : nullptr;
  auto prog = sut::Create(p.m, ws, api);
  for (auto& c : p.cons)
    if (!sut::AddCon(prog.get(), c, ApiFor(api, c), o)) return nullptr;
  sut::SetCost(prog.get(), p.b);
  return prog;
}
}  // namespace

World::World(const Plan& plan, Report* rep, bool verbose)
    : plan_(plan), rep_(rep), verbose_(verbose) {
  const std::string& p = plan.prop;
  cert_ = p != "P09" && p != "P10" && p != "P16";
  duals_ = p == "P03" || p == "P13";
  progress_ = p == "P02" || p == "P06";
  twin_ = p == "P05" || p == "P08" || p == "P11" || p == "P12" || p == "P16";
  stats_ = p == "P13";
}
World::~World() {}

void World::Fail(const std::string& kind, const std::string& msg) { seam::Verdict(kind, msg); }

void World::Note(Ctx& ctx, int index, const std::string& s) {
  if (!ctx.threaded) {
    hash_.U64((uint64_t)index);
    hash_.Bytes(s.data(), s.size());
    rep_->event_hash = hash_.h;
  }
  std::string& e = (*ctx.log)[index];
  e += e.empty() ? s : " ; " + s;
  if (verbose_) printf("  [%d] %s\n", index, s.c_str());
}

std::string World::Where(const Slot& s, const SolverConfiguration& cfg) {
  return model::Describe(s.model) + " | " + sut::DescribeConfig(cfg);
}

Slot* World::Get(const Op& op, Ctx& ctx) {
  auto it = slots_.find(ctx.base + (int)op.Int("slot"));
  if (it == slots_.end() || !it->second.prog) return nullptr;
  return &it->second;
}
VectorXd* World::Store(int id, Ctx& ctx) {
  if (id < 0) return nullptr;
  auto& p = stores_[ctx.base + id];
  if (!p) p = std::make_unique<VectorXd>();
  return p.get();
}

SolverConfiguration World::Config(const Op& op, const Slot& s) {
  SolverConfiguration c;
  c.max_iterations = 80;
  long long cs = op.Int("cfg", 0);
  if (cs) {
    Rng r((uint64_t)cs);
    c = sut::RandomConfig(&r, s.model);
  }
  c.initialization_mode = (int)op.Int("mode", 0);
  c.enable_rescaling = s.rescale;
  if (!c.initialization_mode && op.Has("resc")) c.enable_rescaling = (int)op.Int("resc");
  if (op.Has("iters")) c.max_iterations = (int)op.Int("iters");
  if (op.Has("ismu")) c.inv_sqrt_mu_max = op.Dbl("ismu");
  if (op.Has("fct")) c.final_centering_tolerance = op.Dbl("fct");
  if (op.Has("fcn")) c.final_centering_steps = (int)op.Int("fcn");
  if (op.Has("icc")) c.initial_centering_steps_coldstart = (int)op.Int("icc");
  if (op.Has("icw")) c.initial_centering_steps_warmstart = (int)op.Int("icw");
  if (op.Has("ls")) c.enable_line_search = (int)op.Int("ls");
  if (op.Has("kkt")) c.kkt_solver = (int)op.Int("kkt");
  if (op.Has("ref")) c.iterative_refinement_iterations = (int)op.Int("ref");
  if (op.Has("div")) c.divergence_upper_bound = op.Dbl("div");
  if (op.Has("wat")) c.warmstart_abort_threshold = op.Dbl("wat");
  if (op.Has("dinf")) c.dinf_upper_bound = op.Dbl("dinf");
  if (op.Has("inft")) c.infeasibility_threshold = op.Dbl("inft");
  if (op.Has("maxmu")) c.maximum_mu = op.Dbl("maxmu");
  if (op.Has("dual")) c.prepare_dual_variables = (int)op.Int("dual");
  if (s.model.HasQuadraticCost()) {
    c.enable_line_search = 1;
    c.enable_rescaling = 0;
  }
  return c;
}

const model::RefSolution& World::Ref(const Problem& p) {
  uint64_t h = ModelHash(p);
  auto it = refs_.find(h);
  if (it == refs_.end()) it = refs_.emplace(h, model::Reference(p)).first;
  return it->second;
}

// ------------------------------------------------------------------ oracles

void World::CheckOutcome(Slot* s, const SolverConfiguration& cfg, const sut::Outcome& o,
                         bool warm) {
  if (!o.returned) Fail("EXCEPTION", "Solve threw " + o.exception + " on " + Where(*s, cfg));
  if (o.ret != o.solved)
    Fail("STATUS", "Solve returned " + std::to_string(o.ret) + " but status.solved is " +
                       std::to_string(o.solved) + " on " + Where(*s, cfg));
  for (int f : {o.solved, o.primal_infeasible, o.dual_infeasible})
    if (f != 0 && f != 1) Fail("STATUS", "status flag is neither 0 nor 1 on " + Where(*s, cfg));
  if (o.solved && (o.primal_infeasible || o.dual_infeasible))
    Fail("STATUS", "both solved and infeasible on " + Where(*s, cfg));
  if (o.iterations < 0 || o.iterations > cfg.max_iterations)
    Fail("STATUS", "reported " + std::to_string(o.iterations) + " iterations with a limit of " +
                       std::to_string(cfg.max_iterations) + " on " + Where(*s, cfg));
  Count(warm ? c_warm_solves : c_cold_solves);
  Count(o.solved ? c_solved : c_unsolved);
  if (o.solved && !o.y.allFinite())
    Fail("NONFINITE", "solved with a non-finite point on " + Where(*s, cfg));
  if (s->ill) {
    Count(c_ill_posed);
    if (o.solved) {
      const char* w[] = {"", "infeasible", "unbounded", "unconstrained-direction"};
      Fail("ILLPOSED", std::string("reported an ") + w[s->ill] + " program as solved: " +
                           Where(*s, cfg));
    }
    // With equality constraints claims are made from iterates that oscillate.
    bool eq = false;
    for (auto& c : s->model.cons) eq = eq || c.kind == model::kEq;
    if (eq || warm || cfg.max_iterations < 20) return;
    if (s->ill == 1 && o.dual_infeasible && !o.primal_infeasible)
      Fail("CLAIM", "an infeasible program was claimed to be unbounded: " + Where(*s, cfg));
    if (s->ill == 2 && o.primal_infeasible && !o.dual_infeasible)
      Fail("CLAIM", "an unbounded program was claimed to be infeasible: " + Where(*s, cfg));
    return;
  }
  if (!s->hostile && !warm && cfg.max_iterations >= 60 && (o.primal_infeasible || o.dual_infeasible))
    Fail("CLAIM", "a program with a solution was claimed to be infeasible or unbounded: " +
                      Where(*s, cfg));
  if (o.solved && cert_ && !s->hostile) Certify(s, cfg, o, warm ? "warm start" : "cold start");
}

void World::Certify(Slot* s, const SolverConfiguration& cfg, const sut::Outcome& o,
                    const std::string& what) {
  int worst = -1;
  double viol = model::Violation(s->model, o.y, &worst);
  if (verbose_) {
    std::ostringstream t;
    t << o.y.transpose();
    printf("  y = %s, violation %g\n", t.str().c_str(), viol);
  }
  if (!(viol <= 1e-6))
    Fail("INFEASIBLE", what + ": solved, but constraint " + std::to_string(worst) +
                           " is violated by " + std::to_string(viol) + " on " + Where(*s, cfg));
  const auto& ref = Ref(s->model);
  if (!ref.ok) {
    Count(c_reference_skipped);
    return;
  }
  double obj = model::Objective(s->model, o.y);
  double scale = 1 + std::fabs(ref.objective);
  double err = std::fabs(obj - ref.objective);
  // Duality gap on the central path neighbourhood: (rank + slack) mu.
  double tol = 4.0 * s->model.Rank() / (cfg.inv_sqrt_mu_max * cfg.inv_sqrt_mu_max) *
                   (1 + (cfg.enable_rescaling ? 0.0 : 0.0)) +
               1e-5;
  if (!(err <= tol * scale)) {
    std::ostringstream m;
    m << what << ": solved, but the objective " << obj << " is not within " << tol * scale
      << " of the optimum " << ref.objective << " on " << Where(*s, cfg);
    Fail("SUBOPTIMAL", m.str());
  }
  Count(c_certified);
}

void World::CheckDuals(Slot* s, const SolverConfiguration& cfg, const sut::Outcome& o) {
  if (!o.solved || s->ill || s->hostile || s->model.HasQuadraticCost()) return;
  if (!cfg.prepare_dual_variables || o.duals.size() != s->model.cons.size()) return;
  VectorXd g = s->model.b;
  bool all = true;
  double comp = 0, cscale = 1, xs = 1;
  MatrixXd E(s->model.m, 0);
  for (size_t i = 0; i < s->model.cons.size(); i++) {
    const Con& c = s->model.cons[i];
    if (c.kind == model::kEq) {
      MatrixXd B = MatrixXd::Zero(s->model.m, E.cols() + c.n);
      B.leftCols(E.cols()) = E;
      for (size_t j = 0; j < c.clique.size(); j++)
        B.row(c.clique[j]).tail(c.n) = c.A.col(j).transpose();
      E = B;
      continue;
    }
    if (!sut::DualReadable(c)) {
      all = false;
      continue;
    }
    VectorXd x = o.duals[i];
    if (verbose_) {
      std::ostringstream t;
      t << x.transpose() << " slack " << model::Slack(c, o.y).transpose();
      printf("  dual %zu = %s\n", i, t.str().c_str());
    }
    if (x.size() != c.Ambient())
      Fail("DUAL", "dual variable " + std::to_string(i) + " has size " +
                       std::to_string(x.size()) + " on " + Where(*s, cfg));
    if (!x.allFinite())
      Fail("DUAL", "dual variable " + std::to_string(i) + " is not finite on " + Where(*s, cfg));
    double lo = model::MinEig(c, x);
    if (!(lo >= -1e-3 * (1 + x.norm())))
      Fail("DUAL", "dual variable " + std::to_string(i) + " has eigenvalue " +
                       std::to_string(lo) + " on " + Where(*s, cfg));
    VectorXd sl = model::Slack(c, o.y);
    comp += x.dot(sl);
    cscale += x.norm() + sl.norm();
    xs += x.norm();
    VectorXd ax = c.A.transpose() * x;
    for (size_t j = 0; j < c.clique.size(); j++) g(c.clique[j]) -= ax(j);
  }
  double ctol = 4.0 * s->model.Rank() / (cfg.inv_sqrt_mu_max * cfg.inv_sqrt_mu_max) + 1e-5;
  if (!(std::fabs(comp) <= ctol * cscale * 3))
    Fail("DUAL", "complementarity <x,s> = " + std::to_string(comp) + " on " + Where(*s, cfg));
  if (all) {
    if (E.cols()) {
      Eigen::ColPivHouseholderQR<MatrixXd> qr(E);
      g -= E * qr.solve(g);
    }
    if (!(g.norm() <= 1e-4 * xs))
      Fail("DUAL", "stationarity residual |b - A'x| = " + std::to_string(g.norm()) + " on " +
                       Where(*s, cfg));
  }
  Count(c_duals_checked);
}

void World::CheckStats(Slot* s, const SolverConfiguration& cfg, const sut::Outcome& o) {
  if (!s->prog->stats || s->prog->NumberOfConstraints() == 0) return;
  if ((int)o.mus.size() != o.iterations)
    Fail("STATS", "statistics of " + std::to_string(o.mus.size()) + " iterations on " +
                      Where(*s, cfg));
  for (size_t i = 0; i < o.mus.size(); i++)
    // A warm start may be abandoned before its first step chose mu.
    if (!(o.mus[i] > 0) ||
        (!std::isfinite(o.mus[i]) && !(i == 0 && cfg.initialization_mode == 1)))
      Fail("STATS", "mu of iteration " + std::to_string(i) + " is " + std::to_string(o.mus[i]) +
                        " on " + Where(*s, cfg));
}

sut::Outcome World::Twin(const Slot& s, const SolverConfiguration& cfg, const sut::SolveOpts& so,
                         uint64_t rs) {
  auto prog = BuildAny(s.model, s.api, nullptr, s.order);
  if (!prog) Fail("TWIN", "fresh program rejected a constraint of " + Where(s, cfg));
  seam::SeedRand(rs);
  auto out = sut::Solve(prog.get(), s.model, cfg, so);
  sut::Free(&prog);
  return out;
}

void World::CheckMemory(const char* when) {
  std::string why;
  if (!seam::HeapIntact(&why)) Fail("HEAP", why + ", found " + when);
}

void World::CompareLogs(const Log& a, const Log& b, const std::string& what) {
  for (auto& e : a) {
    auto it = b.find(e.first);
    if (it == b.end()) continue;
    Count(c_compared);
    if (it->second != e.second)
      Fail("DIFFERS", what + ": operation " + std::to_string(e.first) + " gave '" + e.second +
                          "' versus '" + it->second + "'");
  }
}

// --------------------------------------------------------------- operations

void World::Destroy(Slot* s) {
  sut::Free(&s->prog);
  s->has_last = false;
  s->cold_done = false;
}

void World::DoNew(int index, const Op& op, Ctx& ctx) {
  int id = ctx.base + (int)op.Int("slot");
  int ws = (int)op.Int("ws", -1);
  for (auto& e : slots_)  // a workspace belongs to at most one live program
    if (e.second.prog && (e.first == id || (ws >= 0 && e.second.ws == ws &&
                                            e.first / 100 == id / 100)))
      Destroy(&e.second);
  Slot& s = slots_[id];
  s = Slot();
  Rng r((uint64_t)op.Int("gen", 1));
  model::GenOpts o = FamilyOpts(op.Str("fam", "mix"));
  if (op.Has("vars")) o.max_vars = (int)op.Int("vars");
  if (op.Has("minvars")) o.min_vars = (int)op.Int("minvars");
  if (op.Has("cons")) o.max_cons = (int)op.Int("cons");
  if (op.Has("eq")) o.allow_eq = op.Int("eq") != 0;
  s.api = (sut::Api)op.Int("api", 0);
  if (s.api != sut::kApiCpp) o.force_full = s.api == sut::kApiCIncremental || o.force_full;
  s.model = model::Generate(&r, o);
  if (op.Has("sp")) {
    Rng r2((uint64_t)op.Int("sp"));
    model::Sparsify(&r2, &s.model);
  }
  s.order = (uint64_t)op.Int("order", 0);
  s.ws = ws;
  s.rescale = (int)op.Int("resc", 1);
  s.easy = !op.Has("sp");
  int ill = (int)op.Int("ill", 0);
  if (ill == 3) {  // a direction no constraint sees, with nonzero cost along it
    int v = r.Int(0, s.model.m - 1);
    for (auto& c : s.model.cons) {
      if (c.kind == model::kLower || c.kind == model::kUpper) {
        s.model = model::Problem();
        break;
      }
      for (size_t j = 0; j < c.clique.size(); j++)
        if (c.clique[j] == v) {
          c.A.col(j).setZero();
          if (c.Q.rows() == c.A.cols() && c.kind == model::kQCost) {
            c.Q.col(j).setZero();
            c.Q.row(j).setZero();
          }
        }
      if (c.kind != model::kQCost) c.c = c.A * model::Sub(s.model.y0, c.clique) + c.s0;
    }
    if (s.model.m == 0) {
      slots_.erase(id);
      return Count(c_skipped_ops);
    }
    model::RefreshCost(&s.model);
    s.model.b(v) = r.Chance(.5) ? 1 : -.7;
    s.ill = 3;
  } else if (ill) {
    if (!model::MakeIllPosed(&r, &s.model, ill)) {
      slots_.erase(id);
      return Count(c_skipped_ops);
    }
    s.ill = ill;
  }
  int hostile = (int)op.Int("hostile", 0);
  if (hostile) {
    s.hostile = hostile;
    const double vals[] = {std::nan(""), INFINITY, -INFINITY, 1e308, -1e300, 1e-308, 1e160, -1e25};
    int n = r.Int(1, 2);
    for (int i = 0; i < n; i++) {
      double v = vals[r.Int(0, 7)];
      Con& c = s.model.cons[r.U64(s.model.cons.size())];
      int where = r.Int(0, 3);
      Count(c_hostile_values);
      if (c.kind == model::kQCost) where = 3;
      // Matrix entries come in pairs; the imaginary diagonal is not data.
      int h = c.kind == model::kLmi ? 1 : model::HermDim(c.kind);
      auto put = [&](Eigen::Ref<VectorXd> col) {
        int k = r.Int(0, (int)col.size() - 1);
        if (h) {
          int d = k / (c.n * c.n), j = k / c.n % c.n, i = k % c.n;
          if (i == j) d = 0;
          col(d * c.n * c.n + j * c.n + i) = v;
          col(d * c.n * c.n + i * c.n + j) = d ? -v : v;
          if (i == j) col(j * c.n + i) = v;
        } else {
          col(k) = v;
        }
      };
      if (where == 0)
        s.model.b(r.Int(0, s.model.m - 1)) = v;
      else if (where == 1 && c.c.size())
        put(c.c);
      else if (where == 2 && c.A.size() && c.kind != model::kLower && c.kind != model::kUpper)
        put(c.A.col(r.Int(0, (int)c.A.cols() - 1)));
      else if (c.Q.size()) {
        int i = r.Int(0, (int)c.Q.rows() - 1), j = r.Int(0, (int)c.Q.cols() - 1);
        c.Q(i, j) = c.Q(j, i) = v;
      } else
        s.model.b(r.Int(0, s.model.m - 1)) = v;
    }
  }
  seam::SetStepBudget(seam::Steps() + kCallBudget);
  bool inject = op.Has("fail");
  long live0 = seam::LiveSutBlocks();
  if (inject) {
    // The workspace itself is not touched before the first solve.
    seam::ResetAllocCounter();
    auto tmp = BuildAny(s.model, s.api, Store(ws, ctx), s.order);
    long n = seam::AllocCounter();
    sut::Free(&tmp);
    live0 = seam::LiveSutBlocks();
    seam::ResetAllocCounter();
    seam::FailAllocAt(1 + (long)(op.Dbl("fail") * (double)n), op.Int("failn", 1));
  }
  std::string exc;
  try {
    s.prog = BuildAny(s.model, s.api, Store(ws, ctx), s.order);
  } catch (std::exception& e) {
    exc = e.what();
  }
  if (inject) {
    Count(c_alloc_failures, seam::AllocFailuresFired());
    seam::ClearAllocFailure();
  }
  if (!exc.empty()) {
    if (!inject || exc != "std::bad_alloc")
      Fail("EXCEPTION", "building " + model::Describe(s.model) + " threw " + exc);
    Count(c_alloc_failed_ops);
    if (seam::LiveSutBlocks() != live0)
      Fail("LEAK", "building a program failed with bad_alloc and leaked " +
                       std::to_string(seam::LiveSutBlocks() - live0) + " blocks: " +
                       model::Describe(s.model));
    // The caller retries.
    s.prog = BuildAny(s.model, s.api, Store(ws, ctx), s.order);
  }
  if (!s.prog && s.hostile) return Count(c_skipped_ops);  // Refusing it is fine.
  if (!s.prog) Fail("REJECTED", "a valid constraint was rejected: " + model::Describe(s.model));
  Note(ctx, index, "new " + model::Describe(s.model));
}

void World::DoSolve(int index, const Op& op, Ctx& ctx) {
  Slot* s = Get(op, ctx);
  if (!s) return Count(c_skipped_ops);
  SolverConfiguration cfg = Config(op, *s);
  bool rewarm = op.Has("rewarm");
  if (!s->cold_done || (s->ill && cfg.initialization_mode)) cfg.initialization_mode = 0;
  bool warm = cfg.initialization_mode == 1;
  if (!warm) s->rescale = cfg.enable_rescaling;  // A warm start keeps the scaling.
  sut::SolveOpts so;
  so.via_c = op.Int("via", 0) != 0;
  so.duals = op.Int("duals", cfg.prepare_dual_variables) != 0;
  if (op.Has("y")) {
    so.y_init = VectorXd(s->model.m);
    Rng r((uint64_t)op.Int("y"));
    for (int i = 0; i < s->model.m; i++)
      so.y_init(i) = r.Chance(.2) ? std::nan("") : r.Normal() * 1e3;
  }
  uint64_t rs = (uint64_t)op.Int("rs", (long long)(Mix2(plan_.seed, (uint64_t)index) >> 1));
  if (seam::RandDraws() >= 0 && rand_mode_) Count(c_adversarial_rand);

  bool inject = op.Has("fail");
  double crash = op.Dbl("crash", -1);
  long n_alloc = 0;
  uint64_t n_steps = 0;
  if (inject || crash >= 0) {  // length of the operation
    seam::SetStepBudget(seam::Steps() + Budget(cfg));
    SolverConfiguration c2 = cfg;
    c2.initialization_mode = 0;
    auto prog = BuildAny(s->model, s->api, nullptr, s->order);
    seam::SeedRand(rs);
    seam::ResetAllocCounter();
    uint64_t st = seam::Steps();
    sut::Solve(prog.get(), s->model, c2, so);
    n_alloc = seam::AllocCounter();
    n_steps = seam::Steps() - st;
    sut::Free(&prog);
  }
  VectorXd snapshot;
  bool crashed = false;
  if (crash >= 0 && s->ws >= 0) {
    VectorXd* store = Store(s->ws, ctx);
    seam::AtStep(seam::Steps() + 1 + (uint64_t)(crash * (double)n_steps), [&, store] {
      snapshot = *store;
      crashed = true;
    });
  }
  VectorXd image;
  if (rewarm && warm && s->ws >= 0) image = *Store(s->ws, ctx);
  if (inject) {
    seam::ResetAllocCounter();
    seam::FailAllocAt(1 + (long)(op.Dbl("fail") * (double)n_alloc), op.Int("failn", 1));
  }
  seam::SetStepBudget(seam::Steps() + Budget(cfg));
  if (!op.Has("rs") || op.Int("rs") >= 0) seam::SeedRand(rs);
  sut::Outcome o = sut::Solve(s->prog.get(), s->model, cfg, so);
  if (inject) {
    Count(c_alloc_failures, seam::AllocFailuresFired());
    seam::ClearAllocFailure();
    if (!o.returned) {
      if (o.exception != "std::bad_alloc")
        Fail("EXCEPTION", "allocation failure surfaced as " + o.exception + " on " +
                              Where(*s, cfg));
      Count(c_alloc_failed_ops);
      // Unless the call failed before it changed anything.
      auto st = s->prog->Status();
      if (st.solved && !(s->has_last && s->last.solved && s->last.iterations == st.num_iterations))
        Fail("STATUS", "solve failed with bad_alloc but the status says solved on " +
                           Where(*s, cfg));
      CheckMemory("after an allocation failure");
      s->has_last = false;
      Note(ctx, index, "bad_alloc");
      return;
    }
  }
  if (crash >= 0 && s->ws >= 0) {
    seam::ClearAtStep();
    if (crashed) {
      // The process died at that instant: only the caller's bytes survive.
      Count(c_crashes);
      Destroy(s);
      *Store(s->ws, ctx) = snapshot;
      s->prog = BuildAny(s->model, s->api, Store(s->ws, ctx), s->order);
      s->cold_done = op.Int("warmafter", 0) != 0 && snapshot.size() > 0;
      Note(ctx, index, "crash");
      return;
    }
  }
  if (s->hostile) {
    if (!o.returned) Count(c_exceptions);
    bool finite = s->model.b.allFinite();
    for (auto& c : s->model.cons) {
      // An absent bound is legitimate, and an infinite cost fixes variables.
      bool bound = c.kind == model::kLin || c.kind == model::kUpper;
      bool ok = c.c.allFinite();
      if (bound && !ok && !c.c.hasNaN()) ok = c.c.minCoeff() > -INFINITY;
      finite = finite && c.A.allFinite() && ok && !c.Q.hasNaN();
    }
    if (o.returned && o.solved && !o.y.allFinite())
      Fail("NONFINITE", "solved with a non-finite point on " + Where(*s, cfg));
    if (o.returned && o.solved && !finite && getenv("SIM_DUMP"))
      for (auto& c : s->model.cons)
        if (!c.A.allFinite() || !c.c.allFinite() || !c.Q.allFinite())
          std::cerr << model::KindName(c.kind) << " range " << c.range << "\nA\n" << c.A << "\nc\n" << c.c << "\nQ\n"
                    << c.Q << std::endl;
    if (o.returned && o.solved && !finite)
      Fail("HOSTILE", "a program with non-finite data was reported as solved: " + Where(*s, cfg));
    if (o.returned && o.solved) {
      double v = model::HostileViolation(s->model, o.y);
      if (!(v <= 1e-5) && getenv("SIM_DUMP")) {
        for (auto& c : s->model.cons)
          std::cerr << model::KindName(c.kind) << " n " << c.n << "\nA\n" << c.A << "\nc\n" << c.c << std::endl;
        std::cerr << "y " << o.y.transpose() << " b " << s->model.b.transpose() << std::endl;
      }
      if (!(v <= 1e-5))
        Fail("HOSTILE", "solved, but a constraint is violated by " + std::to_string(v) + " on " +
                            Where(*s, cfg));
    }
    Note(ctx, index, "hostile " + std::to_string(o.returned ? o.solved : -1));
    s->cold_done = o.returned;
    return;
  }
  CheckOutcome(s, cfg, o, warm);
  if (duals_ && so.duals) CheckDuals(s, cfg, o);
  if (stats_) CheckStats(s, cfg, o);
  int equalities = 0;
  for (auto& c : s->model.cons)
    if (c.kind == model::kEq) equalities += c.n;
  // The method has no convergence guarantee from an arbitrary start; the
  // programs on which it is relied upon have at most one equality.
  if (progress_ && s->easy && !s->ill && equalities <= 1 && op.Int("easy", 0) && !o.solved)
    Fail("NOPROGRESS", std::string(warm ? "warm" : "cold") + " start did not solve within " +
                           std::to_string(cfg.max_iterations) + " iterations: " + Where(*s, cfg));
  if (twin_ && !warm && !ctx.quiet && !ctx.threaded && !inject) {
    sut::Outcome t = Twin(*s, cfg, so, rs);
    std::string why;
    if (!sut::Same(o, t, 1e-7, &why))
      Fail("HISTORY", "cold solve differs from a fresh program's: " + why + " on " +
                          Where(*s, cfg));
    Count(c_twins_compared);
  }
  if (rewarm && warm && image.size()) {
    // Same warm start in a new process that only has the workspace bytes.
    VectorXd bytes = image;
    auto prog = BuildAny(s->model, s->api, &bytes, s->order);
    seam::SeedRand(rs);
    sut::Outcome t = sut::Solve(prog.get(), s->model, cfg, so);
    sut::Free(&prog);
    std::string why;
    if (!sut::Same(o, t, 1e-7, &why))
      Fail("RESTART", "warm start from the surviving workspace differs from the uninterrupted "
                      "program's: " + why + " on " + Where(*s, cfg));
    Count(c_warm_restarts);
  }
  s->last = o;
  s->last_cfg = cfg;
  s->has_last = true;
  s->cold_done = true;
  Note(ctx, index, std::string(warm ? "warm " : "cold ") + std::to_string(o.solved) + " it " +
                       std::to_string(o.iterations) + " " + Hex(o.hash()));
}

void World::DoCost(int index, const Op& op, Ctx& ctx) {
  Slot* s = Get(op, ctx);
  if (!s || s->ill || s->hostile) return Count(c_skipped_ops);
  Rng r((uint64_t)op.Int("gen", 1));
  model::PerturbCost(&r, &s->model, op.Dbl("eps", .1));
  int split = (int)op.Int("split", 0);
  auto apply = [&] {
    VectorXd b = s->model.b;
    seam::Sut u;
    s->prog->ClearLinearCosts();
    if (split == 0) {
      s->prog->AddLinearCost(-b);
    } else {  // exact in binary arithmetic
      VectorXd h = -b * .5;
      s->prog->AddLinearCost(split == 2 ? -2 * b : h);
      s->prog->AddLinearCost(split == 2 ? b : h);
    }
  };
  if (op.Has("fail")) {
    seam::ResetAllocCounter();
    seam::FailAllocAt(1 + (long)(op.Dbl("fail") * 4), op.Int("failn", 1));
    try {
      apply();
    } catch (std::bad_alloc&) {
      Count(c_alloc_failed_ops);
    }
    Count(c_alloc_failures, seam::AllocFailuresFired());
    seam::ClearAllocFailure();
  }
  apply();
  Count(c_cost_changes);
  Note(ctx, index, "cost");
}

int World::WriteCon(Slot* s, int i, const Con& t, bool via_c, Rng* order) {
  struct U {
    int what, var, r, c, d;
    double v;
  };
  std::vector<U> ups;
  int n = t.n, h = model::HermDim(t.kind);
  if (t.kind == model::kQCost) {
    for (int c = 0; c < t.Q.cols(); c++)
      for (int r = 0; r < t.Q.rows(); r++) ups.push_back({2, 0, r, c, 0, t.Q(r, c)});
  } else {
    for (int var = -1; var < t.A.cols(); var++) {
      VectorXd col = var < 0 ? t.c : VectorXd(t.A.col(var));
      if (h) {
        for (int d = 0; d < h; d++)
          for (int c = 0; c < n; c++)
            for (int r = (d ? c + 1 : c); r < n; r++)
              ups.push_back({var < 0, var, r, c, d, col(d * n * n + c * n + r)});
      } else {
        for (int r = 0; r < col.size(); r++) ups.push_back({var < 0, var, r, 0, 0, col(r)});
      }
    }
  }
  for (int k = (int)ups.size() - 1; k > 0; k--) std::swap(ups[k], ups[order->U64(k + 1)]);
  int failures = 0;
  for (auto& u : ups) {
    seam::Sut g;
    int rc;
    conex::Program* p = s->prog.get();
    if (via_c)
      rc = u.what == 2 ? CONEX_UpdateQuadraticCostMatrix(p, i, u.v, u.r, u.c)
           : u.what == 1
               ? CONEX_UpdateAffineTerm(p, i, u.v, u.r, u.c, u.d)
               : CONEX_UpdateLinearOperator(p, i, u.v, u.var, u.r, u.c, u.d);
    else
      rc = u.what == 0 ? p->UpdateLinearOperatorOfConstraint(i, u.v, u.var, u.r, u.c, u.d)
                       : p->UpdateAffineTermOfConstraint(i, u.v, u.r, u.c, u.d);
    failures += rc != 0;
  }
  return failures;
}

void World::DoUpdate(int index, const Op& op, Ctx& ctx) {
  Slot* s = Get(op, ctx);
  if (!s || s->ill || s->hostile) return Count(c_skipped_ops);
  Rng r((uint64_t)op.Int("gen", 1));
  std::vector<int> ok;
  for (size_t i = 0; i < s->model.cons.size(); i++)
    if (Updatable(s->model.cons[i])) ok.push_back((int)i);
  if (ok.empty()) return Count(c_skipped_ops);
  int i = ok[(size_t)op.Int("con", 0) % ok.size()];
  Problem before = s->model;
  model::PerturbCon(&r, &s->model, i, op.Dbl("eps", .1));
  if (!model::WellConditioned(s->model)) {  // keep the histories well posed
    s->model = before;
    return Count(c_skipped_ops);
  }
  int failures;
  bool via_c = op.Int("via", 0) != 0;
  if (op.Has("fail")) {
    seam::ResetAllocCounter();
    seam::FailAllocAt(1 + (long)(op.Dbl("fail") * 6), op.Int("failn", 1));
    Rng r2 = r;
    try {
      WriteCon(s, i, s->model.cons[i], via_c, &r2);
    } catch (std::bad_alloc&) {
      Count(c_alloc_failed_ops);
    }
    Count(c_alloc_failures, seam::AllocFailuresFired());
    seam::ClearAllocFailure();
  }
  failures = WriteCon(s, i, s->model.cons[i], via_c, &r);
  if (failures)
    Fail("REJECTED", "a valid update of constraint " + std::to_string(i) + " (" +
                         model::KindName(s->model.cons[i].kind) + ") was rejected on " +
                         model::Describe(s->model));
  sut::SetCost(s->prog.get(), s->model.b);
  Count(c_data_updates);
  Note(ctx, index, "upd");
}

void World::DoAdd(int index, const Op& op, Ctx& ctx) {
  Slot* s = Get(op, ctx);
  if (!s || s->ill || s->hostile) return Count(c_skipped_ops);
  Rng r((uint64_t)op.Int("gen", 1));
  model::GenOpts o = FamilyOpts(op.Str("fam", "mix"));
  Problem before = s->model;
  if (s->api == sut::kApiCIncremental) o.force_full = true;
  model::AddRandomCon(&r, &s->model, o);
  const Con& c = s->model.cons.back();
  sut::Api api = ApiFor(s->api, c);
  if (op.Has("fail")) {
    auto tmp = BuildAny(before, s->api, nullptr, s->order);
    seam::ResetAllocCounter();
    Rng r2 = r;
    sut::AddCon(tmp.get(), c, api, s->order ? &r2 : nullptr);
    long n = seam::AllocCounter();
    sut::Free(&tmp);
    long live0 = seam::LiveSutBlocks();
    int cons0 = s->prog->NumberOfConstraints();
    seam::ResetAllocCounter();
    seam::FailAllocAt(1 + (long)(op.Dbl("fail") * (double)n), op.Int("failn", 1));
    bool threw = false;
    try {
      r2 = r;
      sut::AddCon(s->prog.get(), c, api, s->order ? &r2 : nullptr);
    } catch (std::bad_alloc&) {
      threw = true;
    }
    Count(c_alloc_failures, seam::AllocFailuresFired());
    seam::ClearAllocFailure();
    if (threw) {
      Count(c_alloc_failed_ops);
      if (api != sut::kApiCIncremental) {
        if (s->prog->NumberOfConstraints() != cons0)
          Fail("ATOMIC", "adding a constraint failed with bad_alloc but the program has it: " +
                             model::Describe(s->model));
        if (seam::LiveSutBlocks() > live0 + 3)
          Fail("LEAK", "a failed AddConstraint left " +
                           std::to_string(seam::LiveSutBlocks() - live0) + " blocks behind: " +
                           model::Describe(s->model));
        if (op.Int("retry", 1)) {
          r2 = r;
          if (!sut::AddCon(s->prog.get(), c, api, s->order ? &r2 : nullptr))
            Fail("REJECTED", "retry of AddConstraint rejected");
        } else {
          s->model = before;
        }
      } else {
        // Incremental construction stopped half way: start over.
        Destroy(s);
        s->prog = BuildAny(s->model, s->api, Store(s->ws, ctx), s->order);
      }
    }
  } else if (!sut::AddCon(s->prog.get(), c, api, s->order ? &r : nullptr)) {
    Fail("REJECTED", "a valid constraint was rejected: " + model::Describe(s->model));
  }
  sut::SetCost(s->prog.get(), s->model.b);
  Count(c_constraints_added);
  Note(ctx, index, "add");
}

void World::DoFeasObj(int index, const Op& op, Ctx& ctx) {
  Slot* s = Get(op, ctx);
  if (!s || s->hostile) return Count(c_skipped_ops);
  MatrixXd v, w;
  seam::SetStepBudget(seam::Steps() + kCallBudget);
  {
    seam::Sut u;
    v = conex::GetFeasibleObjective(s->prog.get());
  }
  auto prog = BuildAny(s->model, s->api, nullptr, s->order);
  {
    seam::Sut u;
    w = conex::GetFeasibleObjective(prog.get());
  }
  sut::Free(&prog);
  if (v.rows() != w.rows() || !((v - w).norm() <= 1e-9 * (1 + w.norm())))
    Fail("HISTORY", "GetFeasibleObjective depends on the program's history: " +
                        model::Describe(s->model));
  Hash h;
  for (int i = 0; i < v.size(); i++) h.D(v(i));
  s->has_last = false;
  Note(ctx, index, "feasobj " + Hex(h.h));
}

void World::DoReads(int index, const Op& op, Ctx& ctx) {
  Slot* s = Get(op, ctx);
  if (!s || !s->has_last || s->hostile) return Count(c_skipped_ops);
  Rng r((uint64_t)op.Int("gen", 1));
  conex::Program* p = s->prog.get();
  int it = s->last.iterations;
  int n = (int)op.Int("n", 6);
  auto st = p->Status();
  if (st.solved != s->last.solved || st.num_iterations != it ||
      st.primal_infeasible != s->last.primal_infeasible ||
      st.dual_infeasible != s->last.dual_infeasible)
    Fail("READS", "Status() changed since the last solve on " + Where(*s, s->last_cfg));
  for (int k = 0; k < n; k++) {
    Count(c_reads);
    int what = r.Int(0, 3);
    if (what <= 1) {
      // In-range and out-of-range statistics.
      int idx = what == 0 && it > 0 ? r.Int(-it, it - 1)
                                    : (r.Chance(.5) ? it + r.Int(0, 5) : -it - r.Int(1, 5));
      if (r.Chance(.1)) idx = r.Chance(.5) ? INT32_MAX : INT32_MIN + 1;
      CONEX_IterationStats c;
      c.mu = -77;
      c.iteration_number = -77;
      {
        seam::Sut u;
        CONEX_GetIterationStats(p, &c, idx);
      }
      bool in = idx >= -it && idx < it;
      if (!in && (c.mu != -77 || c.iteration_number != -77))
        Fail("READS", "statistics of iteration " + std::to_string(idx) + " of " +
                          std::to_string(it) + " were returned on " + Where(*s, s->last_cfg));
      if (in) {
        int want = idx < 0 ? it + idx : idx;
        if (c.iteration_number != want || (want < (int)s->last.mus.size() &&
                                           !(c.mu == s->last.mus[(size_t)want])))
          Fail("READS", "statistics of iteration " + std::to_string(idx) + " of " +
                            std::to_string(it) + " are wrong or changed on " +
                            Where(*s, s->last_cfg));
      }
    } else if (s->last.duals.size() == s->model.cons.size() && it > 0) {
      int i = r.Int(0, (int)s->model.cons.size() - 1);
      if (!sut::DualReadable(s->model.cons[i])) continue;
      VectorXd d = s->last.duals[i];
      VectorXd buf = VectorXd::Constant(d.size() + 2, 3.25);
      {
        seam::Sut u;
        if (what == 2) {
          if (CONEX_GetDualVariableSize(p, i) != d.size())
            Fail("READS", "dual size changed on " + Where(*s, s->last_cfg));
          CONEX_GetDualVariable(p, i, buf.data(), (int)d.size(), 1);
        } else {
          Eigen::Map<MatrixXd> m(buf.data(), d.size(), 1);
          p->GetDualVariable(i, &m);
        }
      }
      if (buf(d.size()) != 3.25 || buf(d.size() + 1) != 3.25)
        Fail("OVERRUN", "GetDualVariable wrote past the buffer");
      if (s->model.cons[i].row_scale.size() == d.size())
        buf.head(d.size()) = buf.head(d.size()).cwiseProduct(s->model.cons[i].row_scale).eval();
      for (int j = 0; j < d.size(); j++)
        if (memcmp(&d(j), &buf(j), 8) != 0)
          Fail("READS", "reading dual variable " + std::to_string(i) +
                            " twice gives different values on " + Where(*s, s->last_cfg));
    }
  }
  Note(ctx, index, "reads");
}

void World::DoRestart(int index, const Op& op, Ctx& ctx) {
  Slot* s = Get(op, ctx);
  if (!s) return Count(c_skipped_ops);
  bool warm_ok = s->cold_done && s->ws >= 0 && s->has_last;
  Destroy(s);
  if (op.Has("bytes") && s->ws >= 0) {
    // Arbitrary bytes in the caller's workspace.
    VectorXd* st = Store(s->ws, ctx);
    Rng r((uint64_t)op.Int("bytes"));
    int mode = r.Int(0, 4);
    int size = mode == 0 ? 0 : (int)st->size() + r.Int(-5, 40);
    if (size < 0) size = 0;
    st->resize(size);
    for (int i = 0; i < size; i++) {
      uint64_t u = r.Next();
      double d = r.Normal();
      if (mode == 1) d = std::nan("");
      if (mode == 2) memcpy(&d, &u, 8);
      if (mode == 3) d = 1e200 * d;
      (*st)(i) = d;
    }
    warm_ok = false;
  }
  s->prog = BuildAny(s->model, s->api, Store(s->ws, ctx), s->order);
  s->cold_done = warm_ok;
  Count(c_restarts);
  Note(ctx, index, "restart");
}

// Uninterrupted solve versus the same solve cut into slices.
void World::DoSlice(int index, const Op& op, Ctx& ctx) {
  Slot* s = Get(op, ctx);
  if (!s || s->ill || s->hostile) return Count(c_skipped_ops);
  Rng r((uint64_t)op.Int("gen", 1));
  int total = (int)op.Int("iters", 6);
  Op base = op;
  SolverConfiguration cfg = Config(base, *s);
  cfg.initialization_mode = 0;
  cfg.final_centering_steps = 0;
  cfg.initial_centering_steps_coldstart = cfg.initial_centering_steps_warmstart = 0;
  cfg.inv_sqrt_mu_max = 1e7;
  cfg.prepare_dual_variables = 0;
  cfg.kkt_error_tolerance = 1e300;
  cfg.warmstart_abort_threshold = 1e300;
  cfg.max_iterations = total;
  uint64_t rs = (uint64_t)op.Int("rs", (long long)(Mix2(plan_.seed, (uint64_t)index) >> 1));
  sut::SolveOpts so;
  seam::SetStepBudget(seam::Steps() + Budget(cfg));
  auto whole = BuildAny(s->model, s->api, nullptr, s->order);
  seam::SeedRand(rs);
  sut::Outcome a = sut::Solve(whole.get(), s->model, cfg, so);
  sut::Free(&whole);
  bool monotone = true;  // an iteration without an acceptable target halves the old one
  if (!a.returned) Fail("EXCEPTION", "Solve threw " + a.exception);
  bool restart = op.Int("restart", 0) != 0;
  int slices = (int)op.Int("slices", 2);
  VectorXd store;
  auto prog = BuildAny(s->model, s->api, restart ? &store : nullptr, s->order);
  seam::SeedRand(rs);
  int done = 0, k = 0;
  sut::Outcome b;
  std::vector<double> mus;
  while (done < total) {
    int left = total - done;
    int len = k + 1 >= slices ? left : r.Int(1, left);
    if (restart && k > 0) {
      sut::Free(&prog);
      prog = BuildAny(s->model, s->api, &store, s->order);
      Count(c_restarts);
    }
    cfg.initialization_mode = k > 0;
    cfg.max_iterations = len;
    seam::SetStepBudget(seam::Steps() + Budget(cfg));
    b = sut::Solve(prog.get(), s->model, cfg, so);
    if (!b.returned) Fail("EXCEPTION", "Solve threw " + b.exception);
    mus.insert(mus.end(), b.mus.begin(), b.mus.end());
    Count(c_slices);
    if (b.iterations < len) break;
    done += len;
    k++;
  }
  sut::Free(&prog);
  (void)monotone;
  std::ostringstream m;
  if (mus.size() != a.mus.size())
    m << "number of iterations " << a.mus.size() << " vs " << mus.size();
  else
    for (size_t i = 0; i < mus.size() && m.str().empty(); i++)
      if (!(std::fabs(mus[i] - a.mus[i]) <= 1e-6 * a.mus[i]))
        m << "mu of iteration " << i << ": " << a.mus[i] << " vs " << mus[i];
  if (m.str().empty() && a.y.allFinite() && !((a.y - b.y).norm() <= 1e-5 * (1e-3 + a.y.norm())))
    m << "point after " << total << " iterations differs by " << (a.y - b.y).norm();
  if (!m.str().empty())
    Fail("RESUME", "solving in " + std::to_string(k) + " slices differs from one call: " + m.str() +
                       " on " + Where(*s, cfg));
  Note(ctx, index, "slice " + Hex(a.hash()) + " " + Hex(b.hash()));
}

// The same program built through another interface or order.
void World::DoEquiv(int index, const Op& op, Ctx& ctx) {
  Slot* s = Get(op, ctx);
  if (!s || s->ill || s->hostile) return Count(c_skipped_ops);
  Rng r((uint64_t)op.Int("gen", 1));
  SolverConfiguration cfg = Config(op, *s);
  cfg.initialization_mode = 0;
  uint64_t rs = (uint64_t)op.Int("rs", (long long)(Mix2(plan_.seed, (uint64_t)index) >> 1));
  sut::SolveOpts so;
  so.duals = cfg.prepare_dual_variables != 0;
  seam::SetStepBudget(seam::Steps() + Budget(cfg));
  sut::Outcome base = Twin(*s, cfg, so, rs);
  CheckOutcome(s, cfg, base, false);
  int how = (int)op.Int("how", 0), blocks = 0;
  for (auto& c : s->model.cons) blocks += c.kind == model::kEq;
  // With several blocks of equations the KKT factorisation may regularise, to
  // an accuracy that depends on the scale of the other rows.
  if (how == 10 && blocks > 1) how = 9;
  Slot t;
  t.model = s->model;
  t.api = s->api;
  t.order = s->order;
  t.rescale = s->rescale;
  SolverConfiguration c2 = cfg;
  bool exact = false;
  std::string what;
  switch (how) {
    case 0:
    case 1:
    case 2:  // another interface
      t.api = (sut::Api)how;
      t.order = r.Next() | 1;
      exact = true;
      what = "another construction interface";
      break;
    case 3: {  // constraints in another order
      for (int i = (int)t.model.cons.size() - 1; i > 0; i--)
        std::swap(t.model.cons[i], t.model.cons[r.U64(i + 1)]);
      what = "another constraint order";
      break;
    }
    case 4: {  // variables of each clique listed in another order
      for (auto& c : t.model.cons) {
        if (c.kind == model::kQCost) continue;
        int k = (int)c.clique.size();
        for (int i = k - 1; i > 0; i--) {
          int j = (int)r.U64(i + 1);
          if (c.kind == model::kLower || c.kind == model::kUpper) continue;
          std::swap(c.clique[i], c.clique[j]);
          c.A.col(i).swap(c.A.col(j));
        }
        c.full = false;
      }
      what = "permuted variable lists";
      break;
    }
    case 5:
      c2.kkt_solver = (cfg.kkt_solver + 1 + r.Int(0, 1)) % 3;
      what = "another factorisation";
      break;
    case 6:
      c2.iterative_refinement_iterations = r.Int(1, 3);
      what = "iterative refinement";
      break;
    case 7: {  // split a linear inequality in two
      for (size_t i = 0; i < t.model.cons.size(); i++) {
        Con c = t.model.cons[i];
        if (c.kind != model::kLin || c.n < 2) continue;
        int k = r.Int(1, c.n - 1);
        Con d = c;
        c.n = k;
        c.A = d.A.topRows(k).eval();
        c.c = d.c.head(k).eval();
        c.s0 = d.s0.head(k).eval();
        c.x0 = d.x0.head(k).eval();
        Con e = d;
        e.n = d.n - k;
        e.A = d.A.bottomRows(e.n).eval();
        e.c = d.c.tail(e.n).eval();
        e.s0 = d.s0.tail(e.n).eval();
        e.x0 = d.x0.tail(e.n).eval();
        t.model.cons[i] = c;
        t.model.cons.insert(t.model.cons.begin() + (long)i, e);
        break;
      }
      what = "a split linear inequality";
      break;
    }
    case 8:
      so.via_c = true;
      exact = true;
      what = "CONEX_Maximize";
      break;
    case 10:
    case 11:
    case 12:
      break;  // below
    default: {  // positive scaling of one constraint
      for (auto& c : t.model.cons)
        if (c.IsCone() && c.kind != model::kLower && c.kind != model::kUpper && r.Chance(.5)) {
          double f = std::exp(r.Uniform(-.7, .7));
          c.A *= f;
          c.c *= f;
          c.s0 *= f;
          c.x0 /= f;
        }
      what = "scaled constraints";
    }
  }
  sut::Outcome o;
  if (how == 10) {
    // Rows with one or two bounds and equalities, entered by one call of the
    // two-sided interface or as single constraints.
    what = "CONEX_AddLinearInequalities";
    int rows = r.Int(1, 6), m = t.model.m, eqs = 0;
    for (auto& c : t.model.cons) eqs += c.kind == model::kEq ? c.n : 0;
    MatrixXd A(rows, m);
    VectorXd lb(rows), ub(rows);
    std::vector<VectorXd> ga, ea;
    std::vector<double> gc, gs, ec;
    for (int i = 0; i < rows; i++) {
      for (int j = 0; j < m; j++) A(i, j) = r.Chance(.7) ? r.Normal() : 0;
      if (A.row(i).norm() == 0) A(i, r.Int(0, m - 1)) = 1;
      double at = A.row(i).dot(t.model.y0);
      if (eqs == 0 && m > 1 && r.Chance(.2)) {
        lb(i) = ub(i) = at;
        eqs++;
        ea.push_back(A.row(i));
        ec.push_back(at);
        continue;
      }
      for (int side = 0; side < 2; side++) {
        double slack = r.Chance(.7) ? r.Uniform(.05, 3) : std::pow(10, r.Uniform(0, 2.5));
        bool none = r.Chance(.3);
        double inf = r.Chance(.5) ? INFINITY : std::pow(10, r.Uniform(8, 12));
        double v = side ? at + slack : at - slack;
        if (none) v = side ? inf : -inf;
        (side ? ub : lb)(i) = v;
        if (none) continue;
        double sg = side ? 1 : -1;
        ga.push_back(sg * A.row(i));
        gc.push_back(sg * v);
        gs.push_back(slack);
      }
    }
    auto stack = [&](const std::vector<VectorXd>& a, const std::vector<double>& v, model::Kind k) {
      if (a.empty()) return;
      Con c;
      c.kind = k;
      c.n = (int)a.size();
      for (int j = 0; j < m; j++) c.clique.push_back(j);
      c.full = true;
      c.A = MatrixXd(c.n, m);
      c.c = VectorXd(c.n);
      for (int i = 0; i < c.n; i++) {
        c.A.row(i) = a[(size_t)i];
        c.c(i) = v[(size_t)i];
      }
      c.s0 = VectorXd::Constant(c.n, k == model::kEq ? 0 : 1);
      c.x0 = VectorXd::Zero(c.n);
      t.model.cons.push_back(c);
    };
    auto prog = BuildAny(s->model, t.api, nullptr, t.order);
    int before = prog->NumberOfConstraints();
    {
      seam::Sut u;
      CONEX_AddLinearInequalities(prog.get(), A.data(), rows, m, lb.data(), rows, ub.data(), rows);
    }
    MatrixXd A2 = A;
    A.setConstant(std::nan(""));
    stack(ga, gc, model::kLin);
    stack(ea, ec, model::kEq);
    if (prog->NumberOfConstraints() != before + (ga.size() > 0) + (ea.size() > 0))
      Fail("EQUIV", what + " added " + std::to_string(prog->NumberOfConstraints() - before) +
                        " constraints for " + std::to_string(ga.size()) + " inequalities and " +
                        std::to_string(ea.size()) + " equations");
    seam::SeedRand(rs);
    o = sut::Solve(prog.get(), s->model, c2, sut::SolveOpts());
    sut::Free(&prog);
    Slot w = Slot();
    w.model = t.model;
    w.rescale = t.rescale;
    CheckOutcome(&w, c2, o, false);
    base = Twin(w, c2, sut::SolveOpts(), rs);
    CheckOutcome(&w, c2, base, false);
    s = nullptr;
    t.model = w.model;
  } else if (how == 11 || how == 12) {
    // Every field of the configuration takes effect through the C interface;
    // a caller-owned workspace changes nothing.
    exact = true;
    what = how == 11 ? "the C interface with every option set" : "a caller-owned workspace";
    VectorXd store;
    if (r.Chance(.3)) store = VectorXd::Constant(r.Int(1, 5000), r.Normal());
    auto pa = BuildAny(s->model, s->api, nullptr, s->order);
    auto pb = BuildAny(s->model, s->api, how == 12 ? &store : nullptr, s->order);
    int n = r.Int(1, 3);
    for (int i = 0; i < n; i++) {
      SolverConfiguration x = cfg;
      if (how == 11) {
        x.max_iterations = r.Int(1, 70);
        if (r.Chance(.4)) x.maximum_mu = std::pow(10, r.Uniform(-4, 3));
        if (r.Chance(.3)) x.minimum_mu = std::pow(10, r.Uniform(-9, 1));
        if (r.Chance(.3)) x.infeasibility_threshold = std::pow(10, r.Uniform(-6, 3));
        if (r.Chance(.3)) x.kkt_error_tolerance = std::pow(10, r.Uniform(-14, 2));
        if (r.Chance(.4)) x.dinf_upper_bound = std::pow(10, r.Uniform(-.5, 3));
        if (r.Chance(.4)) x.warmstart_abort_threshold = std::pow(10, r.Uniform(-3, 1));
        if (r.Chance(.4)) x.final_centering_tolerance = std::pow(10, r.Uniform(-4, 1));
        if (r.Chance(.4)) x.inv_sqrt_mu_max = std::pow(10, r.Uniform(0, 5));
        if (r.Chance(.4)) x.initial_centering_steps_coldstart = r.Int(0, 5);
        if (r.Chance(.4)) x.initial_centering_steps_warmstart = r.Int(0, 5);
        if (r.Chance(.4)) x.final_centering_steps = r.Int(0, 9);
        if (r.Chance(.4)) x.divergence_upper_bound = std::pow(10, r.Uniform(-1, 2));
      }
      x.initialization_mode = i > 0 && r.Chance(.7);
      sut::SolveOpts sa = so, sb = so;
      sa.duals = sb.duals = x.prepare_dual_variables != 0;
      sb.via_c = how == 11;
      seam::SetStepBudget(seam::Steps() + Budget(x));
      seam::SeedRand(rs);
      sut::Outcome a = sut::Solve(pa.get(), s->model, x, sa);
      seam::SetStepBudget(seam::Steps() + Budget(x));
      seam::SeedRand(rs);
      o = sut::Solve(pb.get(), s->model, x, sb);
      std::string why;
      if (!sut::Same(a, o, 1e-7, &why))
        Fail("EQUIV", what + " gives a different result: " + why + " on " + Where(*s, x));
    }
    sut::Free(&pa);
    sut::Free(&pb);
    Count(c_equivalents);
    return Note(ctx, index, "equiv " + Hex(o.hash()));
  } else {
    o = Twin(t, c2, so, rs);
    CheckOutcome(&t, c2, o, false);
  }
  Count(c_equivalents);
  if (!s) s = &t;
  // The two-sided interface normalises rows: equivalent, but not identical.
  for (auto* m : {&s->model, &t.model})
    for (auto& c : m->cons)
      exact = exact && c.row_scale.size() == 0 &&
              (c.kind != model::kEq || (s->api != sut::kApiCDense && t.api != sut::kApiCDense));
  if (exact) {
    std::string why;
    if (!sut::Same(base, o, 1e-7, &why))
      Fail("EQUIV", what + " gives a different result: " + why + " on " + Where(*s, cfg));
  } else if (base.solved && o.solved) {
    double a = model::Objective(s->model, base.y), b = model::Objective(s->model, o.y);
    double tol = 4.0 * s->model.Rank() / (cfg.inv_sqrt_mu_max * cfg.inv_sqrt_mu_max) + 1e-5;
    if (!(std::fabs(a - b) <= tol * (1 + std::fabs(a))))
      Fail("EQUIV", what + " gives objective " + std::to_string(b) + " instead of " +
                        std::to_string(a) + " on " + Where(*s, cfg));
  }
  if (op.Int("easy", 0) && s->easy && base.solved != o.solved)
    Fail("EQUIV", what + " changes the status from " + std::to_string(base.solved) + " to " +
                      std::to_string(o.solved) + " on " + Where(*s, c2));
  Note(ctx, index, "equiv " + Hex(base.hash()) + " " + Hex(o.hash()));
}

void World::DoKkt(int index, const Op& op, Ctx& ctx) {
  seam::SetStepBudget(seam::Steps() + kCallBudget);
  std::string e = KktRun(op, rep_);
  if (!e.empty()) Fail("KKT", e);
  Note(ctx, index, "kkt");
}

void World::DoEnv(const Op& op) {
  seam::SetFill((int)op.Int("fill", -1), (int)op.Int("free", -1), (uint64_t)op.Int("fseed", 1));
  seam::SetStackFill((int)op.Int("stack", -1));
  seam::SetGuard(op.Int("guard", 0) != 0);
  seam::StreamCfg out, err;
  out.fail_after = op.Int("out", -1);
  out.initially_bad = op.Int("outbad", 0) != 0;
  out.heal_after = (int)op.Int("heal", -1);
  err.fail_after = op.Int("err", -1);
  seam::InstallStreams(out, err);
  rand_mode_ = (int)op.Int("rand", 0);
  seam::SetRandMode(rand_mode_);
  Count(c_environments);
}

void World::Exec(int index, const Op& op, Ctx& ctx) {
  if (!ctx.threaded) {
    rep_->op = index;
    op_index_ = index;
  }
  Count(c_ops);
  const std::string& n = op.name;
  if (verbose_) printf("[%d] %s\n", index, op.Line().c_str());
  if (n == "env") return DoEnv(op);
  if (n == "new") return DoNew(index, op, ctx);
  if (n == "solve") return DoSolve(index, op, ctx);
  if (n == "cost") return DoCost(index, op, ctx);
  if (n == "upd") return DoUpdate(index, op, ctx);
  if (n == "add") return DoAdd(index, op, ctx);
  if (n == "feasobj") return DoFeasObj(index, op, ctx);
  if (n == "reads") return DoReads(index, op, ctx);
  if (n == "bad") return DoBad(index, op, ctx);
  if (n == "restart") return DoRestart(index, op, ctx);
  if (n == "slice") return DoSlice(index, op, ctx);
  if (n == "equiv") return DoEquiv(index, op, ctx);
  if (n == "kkt") return DoKkt(index, op, ctx);
  if (n == "destroy") {
    if (Slot* s = Get(op, ctx)) Destroy(s);
    return;
  }
  if (n == "run") return RunThreads(op);
  Count(c_skipped_ops);
}

World::Log World::RunOps(const Ops& ops, int base, bool quiet) {
  Log log;
  Ctx ctx;
  ctx.base = base;
  ctx.log = &log;
  ctx.quiet = quiet;
  for (auto& o : ops) Exec(o.first, o.second, ctx);
  return log;
}

void World::Clear() {
  for (auto& e : slots_) Destroy(&e.second);
  slots_.clear();
  stores_.clear();
}

void World::RunThreads(const Op& op) {
  std::map<int, Ops> per;
  for (size_t i = 0; i < plan_.ops.size(); i++)
    if (plan_.ops[i].Has("t")) per[(int)plan_.ops[i].Int("t")].push_back({(int)i, plan_.ops[i]});
  if (per.empty()) return;
  std::vector<Log> serial, conc;
  std::vector<int> ids;
  for (auto& e : per) {
    ids.push_back(e.first);
    serial.push_back(RunOps(e.second, 1000, true));
    Clear();
  }
  conc.resize(ids.size());
  std::vector<seam::SchedEntry> sched;
  {
    std::string t = op.Str("sched");
    const char* p = t.c_str();
    while (*p) {
      char* e;
      long th = strtol(p, &e, 10);
      if (*e != ':') break;
      unsigned long long d = strtoull(e + 1, &e, 10);
      sched.push_back({(int)th, d});
      p = *e == ',' ? e + 1 : e;
    }
  }
  seam::SetStepBudget(seam::Steps() + 4 * kCallBudget);
  std::vector<std::function<void()>> bodies;
  for (size_t k = 0; k < ids.size(); k++)
    bodies.push_back([&, k] {
      Ctx ctx;
      ctx.base = 100 * ((int)k + 20);
      ctx.log = &conc[k];
      ctx.threaded = true;
      ctx.quiet = true;
      for (auto& o : per[ids[k]]) Exec(o.first, o.second, ctx);
    });
  long pre = seam::RunThreads(bodies, sched);
  Count(c_preemptions, pre);
  Count(c_threads, (long)ids.size());
  rep_->interleaving = seam::InterleavingHash();
  for (size_t k = 0; k < ids.size(); k++)
    CompareLogs(serial[k], conc[k],
                "thread " + std::to_string(ids[k]) + " run alone and interleaved");
  for (auto& l : conc)
    for (auto& e : l) hash_.Bytes(e.second.data(), e.second.size());
  rep_->event_hash = hash_.h;
  Clear();
}

void World::Run() {
  Ops all, body;
  std::vector<Op> variants;
  for (size_t i = 0; i < plan_.ops.size(); i++) {
    const Op& o = plan_.ops[i];
    if (o.Has("t")) continue;
    if (o.name == "variant") {
      variants.push_back(o);
      continue;
    }
    all.push_back({(int)i, o});
  }
  long live0 = seam::LiveSutBlocks();
  seam::StepsActivate(true);
  Op env0("env");
  DoEnv(env0);
  if (!variants.empty()) {
    Op base("env");
    base.Set("fill", 0).Set("free", 0).Set("stack", 0);
    DoEnv(base);
    Log a = RunOps(all, 0, true);
    Clear();
    for (size_t i = 0; i < variants.size(); i++) {
      Op v = variants[i];
      v.name = "env";
      DoEnv(v);
      Log b = RunOps(all, 0, true);
      Clear();
      DoEnv(base);
      CompareLogs(a, b, "environments 0 and {" + v.Line() + "}");
    }
  } else if (plan_.prop == "P12" || plan_.prop == "P13") {
    const char* drop = plan_.prop == "P12" ? "bad" : "reads";
    Log a = RunOps(all);
    Clear();
    for (auto& o : all)
      if (o.second.name != drop) body.push_back(o);
    Log b = RunOps(body, 0, true);
    CompareLogs(a, b, std::string("with and without the ") +
                          (plan_.prop == "P12" ? "rejected calls" : "reads"));
  } else {
    RunOps(all);
  }
  rep_->op = -1;
  CheckMemory("at the end of the run");
  Clear();
  if (plan_.prop == "P17" || plan_.prop == "P11") {
    Count(c_leak_checks);
    if (seam::LiveSutBlocks() != live0)
      Fail("LEAK", std::to_string(seam::LiveSutBlocks() - live0) +
                       " heap blocks survive the destruction of every program");
  }
  Count(c_guarded_blocks, seam::GuardedBlocks());
  Count(c_stream_failures, seam::StreamFailures());
  rep_->steps = seam::Steps();
  rep_->rand_draws = (unsigned long long)seam::RandDraws();
  rep_->event_hash = hash_.h;
}

model::GenOpts FamilyOpts(const std::string& fam) {
  using namespace model;
  GenOpts o;
  o.max_vars = 5;
  o.max_cons = 4;
  if (fam == "lin") o.kinds = {kLin, kLower, kUpper};
  else if (fam == "lp") o.kinds = {kLin};
  else if (fam == "lmi") o.kinds = {kLmi};
  else if (fam == "h1") o.kinds = {kHerm1};
  else if (fam == "h2") o.kinds = {kHerm2};
  else if (fam == "h4") o.kinds = {kHerm4};
  else if (fam == "oct") o.kinds = {kHerm8};
  else if (fam == "soc") o.kinds = {kSoc};
  else if (fam == "quad") o.kinds = {kQuad};
  else if (fam == "herm") o.kinds = {kHerm1, kHerm2, kHerm4};
  else if (fam == "sdp") o.kinds = {kLmi, kHerm1, kHerm2, kHerm4};
  else if (fam == "upd") o.kinds = {kLin, kSoc, kHerm1, kHerm2, kHerm4};
  else if (fam == "nooct") o.kinds = {kLin, kLmi, kHerm1, kHerm2, kHerm4, kSoc, kQuad, kLower, kUpper};
  else if (fam == "readable") o.kinds = {kLin, kLmi, kHerm1, kLower, kUpper};
  else if (fam == "cdense") { o.kinds = {kLin, kLmi}; o.force_full = true; }
  else if (fam == "csparse") { o.kinds = {kLmi}; }
  else if (fam == "cinc") {
    o.kinds = {kLin, kSoc, kHerm1, kHerm2, kHerm4};
    o.force_full = true;
    o.allow_eq = false;
  } else if (fam == "ciq") {
    o.kinds = {kLin};
    o.force_full = true;
    o.allow_eq = false;
    o.allow_qcost = true;
  } else if (fam == "cinco") {
    o.kinds = {kLin, kHerm8};
    o.force_full = true;
    o.allow_eq = false;
  } else if (fam == "easy") {
    o.kinds = {kLin, kLower, kUpper, kSoc, kHerm1, kHerm2, kHerm4};
  } else if (fam == "warm") {
    // Everything whose scaling state lives in the workspace.
    o.kinds = {kLin, kLmi, kSoc, kQuad, kLower, kUpper};
  } else if (fam == "qp") {
    o.kinds = {kLin, kLower, kUpper};
    o.allow_qcost = true;
  } else {  // mix
    o.kinds = {kLin, kLmi, kHerm1, kHerm2, kHerm4, kHerm8, kSoc, kQuad, kLower, kUpper};
  }
  return o;
}

}  // namespace sim
