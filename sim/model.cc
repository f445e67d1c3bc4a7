#include "model.h"

#include <algorithm>
#include <cmath>
#include <sstream>

namespace model {

using sim::Rng;

const char* KindName(Kind k) {
  static const char* names[] = {"lin",  "lmi",  "herm1", "herm2", "herm4", "herm8",
                                "soc",  "quad", "eq",    "qcost", "lower", "upper"};
  return names[k];
}

int Con::Ambient() const {
  switch (kind) {
    case kLin:
    case kEq:
    case kLower:
    case kUpper:
      return n;
    case kSoc:
    case kQuad:
      return n + 1;
    case kLmi:
      return n * n;
    case kQCost:
      return 0;
    default:
      return n * n * HermDim(kind);
  }
}
int Con::Rank() const {
  switch (kind) {
    case kEq:
    case kQCost:
      return 0;
    case kSoc:
    case kQuad:
      return 2;
    default:
      return n;
  }
}
bool Problem::HasQuadraticCost() const { return Has(kQCost); }
bool Problem::Has(Kind k) const {
  for (auto& c : cons)
    if (c.kind == k) return true;
  return false;
}
bool Problem::SupportsLineSearch() const {
  for (auto& c : cons)
    if (!(c.kind == kLin || c.kind == kEq || c.kind == kQCost || c.kind == kLower ||
          c.kind == kUpper))
      return false;
  return true;
}
int Problem::Rank() const {
  int r = 0;
  for (auto& c : cons) r += c.Rank();
  return r;
}

VectorXd Sub(const VectorXd& y, const std::vector<int>& clique) {
  VectorXd z(clique.size());
  for (size_t i = 0; i < clique.size(); i++) z(i) = y(clique[i]);
  return z;
}

VectorXd Slack(const Con& c, const VectorXd& y) {
  VectorXd s = c.c;
  VectorXd z = Sub(y, c.clique);
  for (int j = 0; j < c.A.cols(); j++) s -= c.A.col(j) * z(j);
  return s;
}

// Multiplication table e_i e_j = sign(i,j) e_(i xor j) of the algebras in use.
static const int kSign[8][8] = {{1, 1, 1, 1, 1, 1, 1, 1},     {1, -1, -1, 1, -1, 1, 1, -1},
                         {1, 1, -1, -1, -1, -1, 1, 1}, {1, -1, 1, -1, -1, 1, -1, 1},
                         {1, 1, 1, 1, -1, -1, -1, -1}, {1, -1, 1, -1, 1, -1, 1, -1},
                         {1, -1, -1, 1, 1, -1, -1, 1}, {1, 1, -1, -1, 1, 1, -1, -1}};

// Real symmetric embedding of a Hermitian matrix over R, C or H given as
// consecutive n x n column-major component blocks.
MatrixXd Embed(Kind k, int n, const VectorXd& s) {
  auto blk = [&](int d) {
    return Eigen::Map<const MatrixXd>(s.data() + d * n * n, n, n);
  };
  int h = k == kLmi ? 1 : HermDim(k);
  MatrixXd M = MatrixXd::Zero(h * n, h * n);
  for (int i = 0; i < h; i++)
    for (int j = 0; j < h; j++) M.block((i ^ j) * n, j * n, n, n) += kSign[i][j] * blk(i);
  return M;
}

// ---------------------------------------------------------------- octonions
namespace {
struct Oct {
  double v[8];
};
Oct Mul(const Oct& a, const Oct& b) {
  Oct r = {};
  for (int i = 0; i < 8; i++)
    for (int j = 0; j < 8; j++) r.v[i ^ j] += kSign[i][j] * a.v[i] * b.v[j];
  return r;
}
Oct Entry(const VectorXd& s, int n, int r, int c) {
  Oct o;
  for (int d = 0; d < 8; d++) o.v[d] = s(d * n * n + c * n + r);
  return o;
}
double Norm2(const Oct& a) {
  double t = 0;
  for (double x : a.v) t += x * x;
  return t;
}
// det, second symmetric function, trace of a Hermitian octonion matrix.
void OctInvariants(const VectorXd& s, int n, double* tr, double* sig, double* det) {
  auto D = [&](int i) { return s(i * n + i); };
  if (n == 1) {
    *tr = D(0);
    *sig = 0;
    *det = D(0);
    return;
  }
  if (n == 2) {
    double q = Norm2(Entry(s, n, 0, 1));
    *tr = D(0) + D(1);
    *sig = 0;
    *det = D(0) * D(1) - q;
    return;
  }
  Oct x01 = Entry(s, n, 0, 1), x12 = Entry(s, n, 1, 2), x20 = Entry(s, n, 2, 0);
  double a = D(0), b = D(1), c = D(2);
  *tr = a + b + c;
  *sig = a * b + b * c + a * c - Norm2(x01) - Norm2(x12) - Norm2(x20);
  *det = a * b * c + 2 * Mul(Mul(x01, x12), x20).v[0] - a * Norm2(x12) - b * Norm2(x20) -
         c * Norm2(x01);
}
double OctMinEig(const VectorXd& s, int n) {
  double tr, sig, det;
  OctInvariants(s, n, &tr, &sig, &det);
  if (n == 1) return tr;
  if (n == 2) {
    double h = tr / 2, disc = h * h - det;
    return h - std::sqrt(std::max(0.0, disc));
  }
  // Roots of t^3 - tr t^2 + sig t - det (all real): trigonometric method.
  double p = sig - tr * tr / 3;
  double q = -2 * tr * tr * tr / 27 + tr * sig / 3 - det;
  double shift = tr / 3;
  if (p > -1e-300) return shift;
  double r = 2 * std::sqrt(-p / 3);
  double arg = 3 * q / (p * r);
  arg = std::max(-1.0, std::min(1.0, arg));
  double th = std::acos(arg) / 3;
  double lo = 1e300;
  for (int k = 0; k < 3; k++) lo = std::min(lo, shift + r * std::cos(th - 2.0943951023931953 * k));
  return lo;
}
double OctDet(const VectorXd& s, int n) {
  double t, g, d;
  OctInvariants(s, n, &t, &g, &d);
  return d;
}
}  // namespace

double MinEig(const Con& c, const VectorXd& s) {
  switch (c.kind) {
    case kLin:
    case kLower:
    case kUpper:
      return s.minCoeff();
    case kEq:
      return -s.cwiseAbs().maxCoeff();
    case kQCost:
      return 0;
    case kSoc:
      return s(0) - s.tail(c.n).norm();
    case kQuad:
      if (c.Q.rows() == 0) return s(0) - s.tail(c.n).norm();
      return s(0) - std::sqrt(std::max(0.0, s.tail(c.n).dot(c.Q * s.tail(c.n))));
    case kHerm8:
      return OctMinEig(s, c.n);
    default: {
      MatrixXd M = Embed(c.kind, c.n, s);
      M = (M + M.transpose()) / 2;
      return Eigen::SelfAdjointEigenSolver<MatrixXd>(M, Eigen::EigenvaluesOnly)
          .eigenvalues()
          .minCoeff();
    }
  }
}

double MinEigOfDual(const Con& c, const VectorXd& x) { return MinEig(c, x); }

double Objective(const Problem& p, const VectorXd& y) {
  double v = p.b.dot(y);
  for (auto& c : p.cons)
    if (c.kind == kQCost) {
      VectorXd z = Sub(y, c.clique);
      v -= .5 * z.dot(c.Q * z);
    }
  return v;
}

double HostileViolation(const Problem& p, const VectorXd& y) {
  double v = 0;
  for (const Con& c : p.cons) {
    if (c.kind == kQCost) continue;
    VectorXd s = Slack(c, y);
    VectorXd cc = c.c;
    if (c.kind == kLin || c.kind == kUpper || c.kind == kLower) {
      // An infinite bound does not constrain anything.
      for (int i = 0; i < s.size(); i++)
        if (s(i) == HUGE_VAL && std::isinf(c.c(i))) s(i) = 0, cc(i) = 0;
    }
    if (!s.allFinite()) return 1e300;
    // Entries of very different magnitude: rounding of the largest one times
    // the largest variable.
    double scale = 1 + cc.norm() + c.A.cwiseAbs().maxCoeff() * (1 + y.norm());
    double e = -MinEig(c, s) / scale;
    if (!(e <= v)) v = e;
  }
  return v;
}

double Violation(const Problem& p, const VectorXd& y, int* worst) {
  double v = 0;
  for (size_t i = 0; i < p.cons.size(); i++) {
    const Con& c = p.cons[i];
    if (c.kind == kQCost) continue;
    VectorXd s = Slack(c, y);
    if (!s.allFinite()) {
      if (worst) *worst = (int)i;
      return 1e300;
    }
    double scale = 1 + c.c.norm() + (c.A.cwiseAbs() * Sub(y, c.clique).cwiseAbs()).norm();
    double e = -MinEig(c, s) / scale;
    if (e > v) {
      v = e;
      if (worst) *worst = (int)i;
    }
  }
  return v;
}

// ------------------------------------------------------- reference solver
namespace {

// Barrier value, gradient and Hessian of constraint c at clique vector z.
bool Barrier(const Con& c, const VectorXd& y, double* val, VectorXd* g, MatrixXd* H) {
  int k = (int)c.clique.size();
  VectorXd s = Slack(c, y);
  if (!s.allFinite()) return false;
  switch (c.kind) {
    case kLin:
    case kLower:
    case kUpper: {
      if (s.minCoeff() <= 0) return false;
      *val = -s.array().log().sum();
      if (!g) return true;
      VectorXd inv = s.cwiseInverse();
      *g = c.A.transpose() * inv;
      *H = c.A.transpose() * inv.cwiseAbs2().asDiagonal() * c.A;
      return true;
    }
    case kSoc:
    case kQuad: {
      MatrixXd Q = c.Q.rows() ? c.Q : MatrixXd(MatrixXd::Identity(c.n, c.n));
      VectorXd s1 = s.tail(c.n);
      double det = s(0) * s(0) - s1.dot(Q * s1);
      if (s(0) <= 0 || det <= 0) return false;
      *val = -std::log(det);
      if (!g) return true;
      VectorXd ds(c.n + 1);
      ds(0) = 2 * s(0);
      ds.tail(c.n) = -2 * (Q * s1);
      MatrixXd R = MatrixXd::Zero(c.n + 1, c.n + 1);
      R(0, 0) = 2;
      R.bottomRightCorner(c.n, c.n) = -2 * Q;
      MatrixXd Hs = ds * ds.transpose() / (det * det) - R / det;
      *g = c.A.transpose() * ds / det;
      *H = c.A.transpose() * Hs * c.A;
      return true;
    }
    case kHerm8: {
      double lo = OctMinEig(s, c.n);
      double det = OctDet(s, c.n);
      if (!(lo > 0) || !(det > 0)) return false;
      *val = -std::log(det);
      if (!g) return true;
      // Exact derivatives of the degree-n polynomial det via polarisation.
      int deg = c.n;
      VectorXd d1(k);
      MatrixXd d2(k, k);
      auto det_at = [&](const VectorXd& v) { return OctDet(v, c.n); };
      for (int i = 0; i < k; i++) {
        VectorXd u = c.A.col(i);
        if (deg == 1) {
          d1(i) = det_at(u);
        } else {
          // odd part in t of det(s+tu): t c1 + t^3 c3 with c3 = det(u) if deg 3
          double odd = (det_at(s + u) - det_at(s - u)) / 2;
          d1(i) = deg == 3 ? odd - det_at(u) : odd;
        }
      }
      for (int i = 0; i < k; i++)
        for (int j = 0; j <= i; j++) {
          VectorXd u = c.A.col(i), v = c.A.col(j);
          double h = 0;
          if (deg == 2) h = det_at(u + v) - det_at(u) - det_at(v);
          if (deg == 3)
            h = det_at(s + u + v) - det_at(s + u) - det_at(u + v) - det_at(s + v) + det_at(s) +
                det_at(u) + det_at(v);
          d2(i, j) = d2(j, i) = h;
        }
      *g = d1 / det;  // s decreases along +A
      *H = d1 * d1.transpose() / (det * det) - d2 / det;
      return true;
    }
    default: {
      MatrixXd M = Embed(c.kind, c.n, s);
      M = (M + M.transpose()) / 2;
      Eigen::LLT<MatrixXd> llt(M);
      if (llt.info() != Eigen::Success) return false;
      MatrixXd L = llt.matrixL();
      double ld = 0;
      for (int i = 0; i < L.rows(); i++) {
        if (!(L(i, i) > 0)) return false;
        ld += 2 * std::log(L(i, i));
      }
      *val = -ld;
      if (!g) return true;
      std::vector<MatrixXd> T(k);
      for (int i = 0; i < k; i++) {
        MatrixXd E = Embed(c.kind, c.n, c.A.col(i));
        T[i] = llt.solve(E);
      }
      *g = VectorXd(k);
      *H = MatrixXd(k, k);
      for (int i = 0; i < k; i++) {
        (*g)(i) = T[i].trace();
        for (int j = 0; j <= i; j++)
          (*H)(i, j) = (*H)(j, i) = (T[i].cwiseProduct(T[j].transpose())).sum();
      }
      return true;
    }
  }
}

double BarrierDegree(const Con& c) {
  switch (c.kind) {
    case kSoc:
    case kQuad:
      return 2;
    case kHerm2:
      return 2 * c.n;
    case kHerm4:
      return 4 * c.n;
    default:
      return c.n;
  }
}

}  // namespace

RefSolution Reference(const Problem& p) {
  RefSolution out;
  int m = p.m;
  VectorXd y = p.y0;
  int ne = 0;
  double nu = 0;
  for (auto& c : p.cons) {
    if (c.kind == kEq) ne += c.n;
    if (c.IsCone()) nu += BarrierDegree(c);
  }
  MatrixXd E = MatrixXd::Zero(ne, m);
  VectorXd e = VectorXd::Zero(ne);
  int r = 0;
  MatrixXd Qf = MatrixXd::Zero(m, m);
  for (auto& c : p.cons) {
    if (c.kind == kEq) {
      for (size_t j = 0; j < c.clique.size(); j++)
        for (int i = 0; i < c.n; i++) E(r + i, c.clique[j]) += c.A(i, j);
      e.segment(r, c.n) = c.c;
      r += c.n;
    }
    if (c.kind == kQCost)
      for (size_t j = 0; j < c.clique.size(); j++)
        for (size_t i = 0; i < c.clique.size(); i++) Qf(c.clique[i], c.clique[j]) += c.Q(i, j);
  }
  auto eval = [&](const VectorXd& yy, double t, double* f, VectorXd* g, MatrixXd* H) {
    *f = -t * (p.b.dot(yy) - .5 * yy.dot(Qf * yy));
    if (g) {
      *g = -t * (p.b - Qf * yy);
      *H = t * Qf;
    }
    for (auto& c : p.cons) {
      if (!c.IsCone()) continue;
      double v;
      VectorXd gc;
      MatrixXd Hc;
      if (!Barrier(c, yy, &v, g ? &gc : nullptr, g ? &Hc : nullptr)) return false;
      *f += v;
      if (g)
        for (size_t i = 0; i < c.clique.size(); i++) {
          (*g)(c.clique[i]) += gc(i);
          for (size_t j = 0; j < c.clique.size(); j++)
            (*H)(c.clique[i], c.clique[j]) += Hc(i, j);
        }
    }
    return std::isfinite(*f);
  };
  double f;
  if (!eval(y, 1, &f, nullptr, nullptr)) return out;
  if (ne && (E * y - e).norm() > 1e-9 * (1 + e.norm())) return out;
  // Equality constraints are eliminated: y = y0 + N z with orthonormal N.
  MatrixXd N = MatrixXd::Identity(m, m);
  if (ne) {
    Eigen::JacobiSVD<MatrixXd> svd(E, Eigen::ComputeFullV);
    int rank = 0;
    for (int i = 0; i < svd.singularValues().size(); i++)
      if (svd.singularValues()(i) > 1e-9 * svd.singularValues()(0)) rank++;
    N = svd.matrixV().rightCols(m - rank);
  }
  double t = 1.0;
  const double target = 1e-8;
  double gap = 1e300;
  VectorXd best = y;
  if (N.cols() == 0) {
    gap = 0;
  }
  for (int outer = 0; outer < 40 && N.cols() > 0; outer++) {
    double dec = 1e300;
    for (int it = 0; it < 80; it++) {
      VectorXd g;
      MatrixXd H;
      if (!eval(y, t, &f, &g, &H)) break;
      MatrixXd Hn = N.transpose() * H * N;
      VectorXd d = Hn.diagonal().cwiseMax(1e-300).cwiseSqrt().cwiseInverse();
      MatrixXd Hs = d.asDiagonal() * Hn * d.asDiagonal();
      VectorXd gn = d.asDiagonal() * (N.transpose() * g);
      Eigen::LLT<MatrixXd> llt(Hs);
      VectorXd dz = llt.info() == Eigen::Success ? VectorXd(llt.solve(-gn))
                                                 : VectorXd(Hs.fullPivHouseholderQr().solve(-gn));
      if (!dz.allFinite()) break;
      dec = std::sqrt(std::max(0.0, dz.dot(Hs * dz)));
      VectorXd dy = N * (d.asDiagonal() * dz);
      if (dec < 1e-4 || (it > 25 && dec < .2)) break;
      double a = dec > .25 ? 1 / (1 + dec) : 1;
      double fn;
      int ls = 0;
      while (ls < 60 && !eval(y + a * dy, t, &fn, nullptr, nullptr)) {
        a *= .5;
        ls++;
      }
      if (ls == 60) break;
      y += a * dy;
      if (!y.allFinite() || y.norm() > 1e12) return out;
    }
    if (!(dec < .25)) break;
    best = y;
    gap = (nu + dec * std::sqrt(nu)) / t * 1.01;
    if (gap < target * (1 + std::fabs(Objective(p, y)))) break;
    t *= 10;
  }
  if (ne && (E * best - e).norm() > 1e-8 * (1 + e.norm() + best.norm())) return out;
  if (gap > 1e-6 * (1 + std::fabs(Objective(p, best)))) return out;
  out.ok = true;
  out.y = best;
  out.objective = Objective(p, best);
  out.gap = gap;
  return out;
}

// -------------------------------------------------------------- generation
namespace {
MatrixXd RandMat(Rng* r, int a, int b) {
  MatrixXd M(a, b);
  for (int j = 0; j < b; j++)
    for (int i = 0; i < a; i++) M(i, j) = r->Normal();
  return M;
}
VectorXd RandVec(Rng* r, int a) { return RandMat(r, a, 1); }

// Random Hermitian element, unit-ish scale.
VectorXd RandHerm(Rng* r, int n, int h) {
  VectorXd s(n * n * h);
  for (int d = 0; d < h; d++) {
    MatrixXd M = RandMat(r, n, n) / std::sqrt(2.0 * n * h);
    if (d == 0)
      M = (M + M.transpose()).eval();
    else
      M = (M - M.transpose()).eval();
    Eigen::Map<MatrixXd>(s.data() + d * n * n, n, n) = M;
  }
  return s;
}
// Interior element of the cone of c with eigenvalues in about [.3, 3].
VectorXd RandInterior(Rng* r, const Con& c) {
  switch (c.kind) {
    case kLin:
    case kLower:
    case kUpper: {
      VectorXd s(c.n);
      for (int i = 0; i < c.n; i++) s(i) = std::exp(r->Uniform(-1.2, 1.1));
      return s;
    }
    case kSoc:
    case kQuad: {
      VectorXd s(c.n + 1);
      VectorXd v = RandVec(r, c.n);
      if (v.norm() > 0) v *= r->Uniform(0, .8) / v.norm();
      s.tail(c.n) = v;
      s(0) = 1;
      if (c.Q.rows()) {
        double q = std::sqrt(v.dot(c.Q * v));
        s(0) = q + r->Uniform(.2, 1);
      }
      return s * std::exp(r->Uniform(-.5, .9));
    }
    default: {
      int h = c.kind == kLmi ? 1 : HermDim(c.kind);
      // Diagonally dominant => positive definite in every algebra.
      VectorXd s = RandHerm(r, c.n, h);
      VectorXd diag(c.n);
      for (int i = 0; i < c.n; i++) diag(i) = std::exp(r->Uniform(-.5, 1));
      double lo = diag.minCoeff();
      // scale off-diagonals so that row sums of moduli < .8 * lo
      double worst = 1e-12;
      for (int i = 0; i < c.n; i++) {
        double row = 0;
        for (int j = 0; j < c.n; j++) {
          if (i == j) continue;
          double q = 0;
          for (int d = 0; d < h; d++) q += std::pow(s(d * c.n * c.n + j * c.n + i), 2);
          row += std::sqrt(q);
        }
        worst = std::max(worst, row);
      }
      double f = r->Uniform(.1, .8) * lo / worst;
      for (int d = 0; d < h; d++)
        for (int j = 0; j < c.n; j++)
          for (int i = 0; i < c.n; i++) {
            double& e = s(d * c.n * c.n + j * c.n + i);
            if (i == j)
              e = d == 0 ? diag(i) : 0;
            else
              e *= f;
          }
      return s;
    }
  }
}
}  // namespace

// Builds a constraint with c - A y0 interior and adds A'x0 (x0 interior dual)
// into *bacc, so both the program and its dual are strictly feasible.
Con GenerateCon(Rng* r, Kind kind, int n, std::vector<int> clique, const VectorXd& y0,
                VectorXd* bacc) {
  Con c;
  c.kind = kind;
  c.n = n;
  c.clique = clique;
  int k = (int)clique.size();
  if (kind == kQCost) {
    MatrixXd R = RandMat(r, k, k) / std::sqrt((double)k);
    c.Q = R * R.transpose() + MatrixXd(MatrixXd::Identity(k, k)) * r->Uniform(.0, .5);
    c.n = k;
    c.A = MatrixXd(0, k);
    c.c = VectorXd(0);
    return c;
  }
  if (kind == kLower || kind == kUpper) {
    c.n = k;
    c.A = MatrixXd::Identity(k, k) * (kind == kLower ? -1 : 1);
  } else if (kind == kLin || kind == kEq || kind == kSoc || kind == kQuad) {
    c.A = RandMat(r, c.Ambient(), k) / std::sqrt((double)k);
    if (kind == kLin) c.range = r->Chance(.4);
    if (kind == kLin && r->Chance(.3)) {  // sparse rows
      for (int i = 0; i < c.A.rows(); i++)
        for (int j = 0; j < k; j++)
          if (r->Chance(.5)) c.A(i, j) = 0;
    }
  } else {
    int h = kind == kLmi ? 1 : HermDim(kind);
    c.A = MatrixXd(c.Ambient(), k);
    for (int j = 0; j < k; j++) c.A.col(j) = RandHerm(r, n, h);
  }
  if (kind == kQuad && r->Chance(.7)) {
    MatrixXd R = RandMat(r, n, n) / std::sqrt((double)n);
    c.Q = R * R.transpose() + .3 * MatrixXd(MatrixXd::Identity(n, n));
  }
  VectorXd z = Sub(y0, clique);
  VectorXd Az = c.A * z;
  if (kind == kEq) {
    c.c = Az;
    VectorXd lam = RandVec(r, n) * .5;
    c.s0 = VectorXd::Zero(n);
    c.x0 = lam;
    VectorXd g = c.A.transpose() * lam;
    for (int j = 0; j < k; j++) (*bacc)(clique[j]) += g(j);
    return c;
  }
  c.s0 = RandInterior(r, c);
  c.c = Az + c.s0;
  VectorXd x;
  if (kind == kQuad && c.Q.rows()) {
    Con tmp = c;
    x = RandInterior(r, tmp);          // x = (x0, v) with x0 > |v|_Q
    x.tail(n) = (c.Q * x.tail(n)).eval();  // dual cone element (x0, Q v)
  } else {
    x = RandInterior(r, c);
  }
  c.x0 = x;
  VectorXd g = c.A.transpose() * x;
  for (int j = 0; j < k; j++) (*bacc)(clique[j]) += g(j);
  return c;
}

namespace {
std::vector<int> FullClique(int m) {
  std::vector<int> v(m);
  for (int i = 0; i < m; i++) v[i] = i;
  return v;
}
std::vector<int> RandClique(Rng* r, int m) {
  std::vector<int> v = FullClique(m);
  for (int i = m - 1; i > 0; i--) std::swap(v[i], v[r->U64(i + 1)]);
  v.resize(r->Int(1, m));
  if (r->Chance(.5)) std::sort(v.begin(), v.end());
  return v;
}
}  // namespace

bool WellConditioned(const Problem& p) {
    // All variables must be pinned down by the cones: Gram matrix well conditioned.
    MatrixXd G = MatrixXd::Zero(p.m, p.m);
    MatrixXd E(0, p.m);
    for (auto& c : p.cons) {
      if (c.IsCone()) {
        MatrixXd g = c.A.transpose() * c.A;
        for (size_t i = 0; i < c.clique.size(); i++)
          for (size_t j = 0; j < c.clique.size(); j++) G(c.clique[i], c.clique[j]) += g(i, j);
      }
      if (c.kind == kEq) {
        MatrixXd B = MatrixXd::Zero(c.n, p.m);
        for (size_t j = 0; j < c.clique.size(); j++) B.col(c.clique[j]) = c.A.col(j);
        MatrixXd T(E.rows() + c.n, p.m);
        T << E, B;
        E = T;
      }
    }
    double lo = Eigen::SelfAdjointEigenSolver<MatrixXd>(G).eigenvalues().minCoeff();
    double hi = Eigen::SelfAdjointEigenSolver<MatrixXd>(G).eigenvalues().maxCoeff();
    bool ok = lo > 2e-2 * hi && lo > 2e-2;
    if (ok && E.rows() > 0) {
      Eigen::JacobiSVD<MatrixXd> svd(E);
      ok = svd.singularValues().minCoeff() > .1;
    }
    return ok;
}

static int RandOrder(Rng* r, Kind k) {
  switch (k) {
    case kHerm8:
      return r->Int(1, 3);
    case kHerm4:
    case kHerm2:
      return r->Int(1, 4);
    case kLmi:
    case kHerm1:
    case kSoc:
    case kQuad:
      return r->Int(1, 5);
    default:
      return r->Int(1, 7);
  }
}

Problem Generate(Rng* r, const GenOpts& o) {
  for (int attempt = 0;; attempt++) {
    Problem p;
    p.m = r->Int(o.min_vars, o.max_vars);
    p.y0 = RandVec(r, p.m) * .7;
    p.b = VectorXd::Zero(p.m);
    int nc = r->Int(1, o.max_cons);
    int eq_rows = 0;
    bool sparse = o.allow_sparse && !o.force_full && r->Chance(.6);
    for (int i = 0; i < nc; i++) {
      Kind k = r->Pick(o.kinds);
      bool full = !sparse || r->Chance(.3);
      auto cl = full ? FullClique(p.m) : RandClique(r, p.m);
      int n = RandOrder(r, k);
      Con c = GenerateCon(r, k, n, cl, p.y0, &p.b);
      c.full = full;
      p.cons.push_back(c);
    }
    if (o.allow_qcost && r->Chance(.8)) {
      int nq = r->Int(1, 2);
      for (int i = 0; i < nq; i++) {
        bool full = !sparse;
        auto cl = full ? FullClique(p.m) : RandClique(r, p.m);
        Con c = GenerateCon(r, kQCost, 0, cl, p.y0, &p.b);
        c.full = full;
        p.cons.push_back(c);
      }
    }
    if (o.allow_eq && p.m >= 2 && r->Chance(.3)) {
      int ne = r->Int(1, 2);
      for (int i = 0; i < ne; i++) {
        bool full = !sparse || r->Chance(.3);
        auto cl = full ? FullClique(p.m) : RandClique(r, p.m);
        int rows = r->Int(1, std::max(1, (int)cl.size() / 2));
        if (eq_rows + rows >= p.m) break;
        if (cl.size() < 2) continue;
        eq_rows += rows;
        Con c = GenerateCon(r, kEq, rows, cl, p.y0, &p.b);
        c.full = full;
        p.cons.push_back(c);
      }
    }
    for (int i = (int)p.cons.size() - 1; i > 0; i--) std::swap(p.cons[i], p.cons[r->U64(i + 1)]);
    bool ok = WellConditioned(p);
    if (ok) return p;
    if (attempt > 200) {  // fall back: add a box
      Problem q;
      q.m = p.m;
      q.y0 = p.y0;
      q.b = VectorXd::Zero(q.m);
      q.cons.push_back(GenerateCon(r, kLin, q.m + 3, FullClique(q.m), q.y0, &q.b));
      q.cons.back().A.topRows(q.m) += 2 * MatrixXd(MatrixXd::Identity(q.m, q.m));
      q.cons.back().c = q.cons.back().A * q.y0 + VectorXd(VectorXd::Ones(q.m + 3));
      q.b = q.cons.back().A.transpose() * VectorXd(VectorXd::Ones(q.m + 3));
      q.cons.back().full = true;
      q.cons.back().s0 = VectorXd::Ones(q.m + 3);
      q.cons.back().x0 = VectorXd::Ones(q.m + 3);
      return q;
    }
  }
}

void RefreshCost(Problem* p) {
  p->b = VectorXd::Zero(p->m);
  for (auto& c : p->cons) {
    if (c.kind == kQCost) continue;
    VectorXd g = c.A.transpose() * c.x0;
    for (size_t j = 0; j < c.clique.size(); j++) p->b(c.clique[j]) += g(j);
  }
}

void Sparsify(sim::Rng* r, Problem* p) {
  for (auto& c : p->cons) {
    int h = HermDim(c.kind);
    if (!(c.kind == kLin || c.kind == kSoc || c.kind == kLmi || h)) continue;
    double keep = r->Uniform(.3, .9);
    for (int v = 0; v < c.A.cols(); v++) {
      VectorXd old = c.A.col(v);
      if (c.kind == kLin || c.kind == kSoc) {
        for (int i = 0; i < c.A.rows(); i++)
          if (!r->Chance(keep)) c.A(i, v) = 0;
      } else {
        int n = c.n;
        for (int i = 0; i < n; i++)
          for (int j = 0; j <= i; j++)
            for (int d = 0; d < std::max(1, h); d++)
              if (!r->Chance(keep)) c.A(d * n * n + j * n + i, v) = c.A(d * n * n + i * n + j, v) = 0;
      }
      if (c.A.col(v).isZero(0)) c.A.col(v) = old;
    }
    c.c = c.A * Sub(p->y0, c.clique) + c.s0;
  }
  RefreshCost(p);
}

void Perturb(Rng* r, Problem* p, double eps) {
  // Move the interior primal point and shift c accordingly; scale b mildly.
  VectorXd d = RandVec(r, p->m) * eps;
  p->y0 += d;
  for (auto& c : p->cons) {
    if (c.kind == kQCost) continue;
    c.c = c.A * Sub(p->y0, c.clique) + c.s0;
  }
  PerturbCost(r, p, eps);
}

void PerturbCost(Rng* r, Problem* p, double eps) {
  for (auto& c : p->cons) {
    if (c.kind == kQCost) continue;
    if (c.kind == kEq) {
      c.x0 += RandVec(r, c.n) * eps;
      continue;
    }
    VectorXd x = RandInterior(r, c);
    if (c.kind == kQuad && c.Q.rows()) x.tail(c.n) = (c.Q * x.tail(c.n)).eval();
    double w = std::min(1.0, eps);
    c.x0 = (1 - w) * c.x0 + w * x;
  }
  RefreshCost(p);
}

void PerturbCon(Rng* r, Problem* p, int i, double eps) {
  Con& c = p->cons[i];
  VectorXd scratch = VectorXd::Zero(p->m);
  Con d = GenerateCon(r, c.kind, c.n, c.clique, p->y0, &scratch);
  double w = std::min(1.0, eps);
  if (c.kind == kQCost) {
    c.Q = (1 - w) * c.Q + w * d.Q;
    return;
  }
  if (c.kind != kLower && c.kind != kUpper) c.A = (1 - w) * c.A + w * d.A;
  if (c.kind != kQuad) {
    c.s0 = (1 - w) * c.s0 + w * d.s0;
    c.x0 = (1 - w) * c.x0 + w * d.x0;
  }
  c.c = c.A * Sub(p->y0, c.clique) + c.s0;
  RefreshCost(p);
}

void AddRandomCon(Rng* r, Problem* p, const GenOpts& o) {
  Kind k = r->Pick(o.kinds);
  bool full = o.force_full || r->Chance(.4);
  auto cl = full ? FullClique(p->m) : RandClique(r, p->m);
  Con c = GenerateCon(r, k, RandOrder(r, k), cl, p->y0, &p->b);
  c.full = full;
  p->cons.push_back(c);
  RefreshCost(p);
}

bool MakeIllPosed(Rng* r, Problem* p, int which) {
  if (which == 1) {
    // Two half spaces with empty intersection (margin at least .5).
    std::vector<int> cl = FullClique(p->m);
    Con c;
    c.kind = kLin;
    c.n = 2;
    c.clique = cl;
    c.full = true;
    c.A = MatrixXd(2, p->m);
    VectorXd a = RandVec(r, p->m);
    a /= std::max(.3, a.norm());
    c.A.row(0) = a;
    c.A.row(1) = -a * r->Uniform(.5, 2);
    double t = a.dot(p->y0);
    c.c = VectorXd(2);
    c.c(0) = t - r->Uniform(.5, 2);
    c.c(1) = c.A.row(1).dot(p->y0) - r->Uniform(.5, 2);
    c.s0 = VectorXd::Ones(2);
    c.x0 = VectorXd::Ones(2);
    p->cons.insert(p->cons.begin() + r->U64(p->cons.size() + 1), c);
    return true;
  }
  // Unbounded: d = -y-direction with -A d interior for every cone and b'd > 0.
  VectorXd d = RandVec(r, p->m);
  for (auto& c : p->cons)
    if (!(c.kind == kLin || c.kind == kUpper || c.kind == kLower)) return false;
  for (auto& c : p->cons) {
    VectorXd z = Sub(d, c.clique);
    if (c.kind == kLin) {
      VectorXd s = c.A * z;
      for (int i = 0; i < c.n; i++)
        if (s(i) > 0) c.A.row(i) *= -1;
    } else {
      for (int i = 0; i < c.n; i++) {
        double sgn = c.kind == kUpper ? 1 : -1;
        if (sgn * z(i) > 0) return false;
      }
    }
    c.c = c.A * Sub(p->y0, c.clique) + c.s0;
  }
  RefreshCost(p);  // now b'd < 0 for the dual feasible part
  p->b = -p->b;
  return p->b.dot(d) > .05 * d.norm();
}

std::string Describe(const Problem& p) {
  std::ostringstream o;
  o << "m=" << p.m << " [";
  for (size_t i = 0; i < p.cons.size(); i++) {
    auto& c = p.cons[i];
    o << (i ? " " : "") << KindName(c.kind) << c.n << "(";
    if (c.full)
      o << "full";
    else
      for (size_t j = 0; j < c.clique.size(); j++) o << (j ? "," : "") << c.clique[j];
    o << ")";
  }
  o << "]";
  return o.str();
}

}  // namespace model
