// Random polynomial optimal-control problems whose every number is known to the TLA+ spec (spec/Poly.tla).
#pragma once
#include <mutex>
#include "common.hpp"
#include "altro/problem/problem.hpp"
#include "altro/problem/costfunction.hpp"
#include "altro/problem/dynamics.hpp"
#include "altro/constraints/constraint.hpp"
#include "altro/common/trajectory.hpp"

namespace vf {
using altro::VectorXdRef;
using Eigen::MatrixXd;
using Eigen::VectorXd;

// Calls made by the solver, in order (per thread they may interleave; only used single threaded or as counts).
struct CallLog {
  std::mutex mu;
  bool on = false;
  std::vector<std::string> ev;
  void add(const std::string& s) { std::lock_guard<std::mutex> g(mu); if (on) ev.push_back(s); }
};

// x+_i = A_i x + B_i u + h s_i x_{p_i} u_{q_i} + w_i t
struct DynPar {
  MatrixXd A, B;
  VectorXd s, w;
  std::vector<int> p, q;
  std::string json() const {
    std::vector<int> p1, q1;
    for (int i : p) p1.push_back(i + 1);
    for (int i : q) q1.push_back(i + 1);
    return Obj().raw("A", jmat(A)).raw("B", jmat(B)).raw("s", jvec(s)).raw("w", jvec(w)).f("p", p1).f("q", q1).str();
  }
};
class PolyDyn : public altro::problem::DiscreteDynamics {
 public:
  using altro::problem::DiscreteDynamics::Evaluate;
  using altro::problem::DiscreteDynamics::Jacobian;
  using altro::problem::DiscreteDynamics::Hessian;
  PolyDyn(DynPar par, int k, CallLog* log) : d_(std::move(par)), k_(k), log_(log) {}
  int StateDimension() const override { return static_cast<int>(d_.A.rows()); }
  int ControlDimension() const override { return static_cast<int>(d_.B.cols()); }
  bool HasHessian() const override { return false; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<VectorXd> xn) override {
    VectorXd r = d_.A * x + d_.B * u + d_.w * static_cast<double>(t);
    for (int i = 0; i < r.size(); ++i) r(i) += static_cast<double>(h) * d_.s(i) * x(d_.p[i]) * u(d_.q[i]);
    xn = r;
    if (log_ && log_->on) log_->add(Obj().f("c", std::string("dyn")).f("k", k_).str());
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<MatrixXd> jac) override {
    (void)t;
    const int n = StateDimension();
    jac.leftCols(n) = d_.A;
    jac.rightCols(ControlDimension()) = d_.B;
    for (int i = 0; i < n; ++i) {
      jac(i, d_.p[i]) += static_cast<double>(h) * d_.s(i) * u(d_.q[i]);
      jac(i, n + d_.q[i]) += static_cast<double>(h) * d_.s(i) * x(d_.p[i]);
    }
    if (log_ && log_->on) log_->add(Obj().f("c", std::string("jac")).f("k", k_).str());
  }
  void Hessian(const VectorXdRef&, const VectorXdRef&, float, float, const VectorXdRef&, Eigen::Ref<MatrixXd>) override {}
 private:
  DynPar d_;
  int k_;
  CallLog* log_;
};

// 1/2 x'Qx + x'Hu + 1/2 u'Ru + q'x + r'u + c + g x_p^4 + s x_p^2 u_q
struct CostPar {
  MatrixXd Q, R, H;
  VectorXd q, r;
  double c = 0, g = 0, s = 0;
  int pi = 0, qi = 0;
  std::string json() const {
    return Obj().raw("Q", jmat(Q)).raw("R", jmat(R)).raw("H", jmat(H)).raw("q", jvec(q)).raw("r", jvec(r))
        .f("c", c).f("g", g).f("s", s).f("pi", pi + 1).f("qi", qi + 1).str();
  }
};
class PolyCost : public altro::problem::CostFunction {
 public:
  using altro::problem::CostFunction::Gradient;
  using altro::problem::CostFunction::Hessian;
  PolyCost(CostPar par, int k, CallLog* log) : p_(std::move(par)), k_(k), log_(log) {}
  int StateDimension() const override { return static_cast<int>(p_.q.size()); }
  int ControlDimension() const override { return static_cast<int>(p_.r.size()); }
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override {
    if (log_ && log_->on) log_->add(Obj().f("c", std::string("cost")).f("k", k_).str());
    const double xp = x(p_.pi), uq = u(p_.qi);
    return 0.5 * x.dot(p_.Q * x) + x.dot(p_.H * u) + 0.5 * u.dot(p_.R * u) + p_.q.dot(x) + p_.r.dot(u) + p_.c +
           p_.g * xp * xp * xp * xp + p_.s * xp * xp * uq;
  }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    if (log_ && log_->on) log_->add(Obj().f("c", std::string("grad")).f("k", k_).str());
    const double xp = x(p_.pi), uq = u(p_.qi);
    dx = p_.Q * x + p_.H * u + p_.q;
    du = p_.R * u + p_.H.transpose() * x + p_.r;
    dx(p_.pi) += 4 * p_.g * xp * xp * xp + 2 * p_.s * xp * uq;
    du(p_.qi) += p_.s * xp * xp;
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> dxdx, Eigen::Ref<MatrixXd> dxdu,
               Eigen::Ref<MatrixXd> dudu) override {
    if (log_ && log_->on) log_->add(Obj().f("c", std::string("hess")).f("k", k_).str());
    const double xp = x(p_.pi), uq = u(p_.qi);
    dxdx = p_.Q;
    dudu = p_.R;
    dxdu = p_.H;
    dxdx(p_.pi, p_.pi) += 12 * p_.g * xp * xp + 2 * p_.s * uq;
    dxdu(p_.pi, p_.qi) += 2 * p_.s * xp;
  }
 private:
  CostPar p_;
  int k_;
  CallLog* log_;
};

// c_i = C_i x + D_i u + e_i + s_i x_{p_i} u_{q_i}
struct ConPar {
  bool eq = true;
  std::string label;
  MatrixXd C, D;
  VectorXd e, s;
  std::vector<int> p, q;
  std::string json() const {
    std::vector<int> p1, q1;
    for (int i : p) p1.push_back(i + 1);
    for (int i : q) q1.push_back(i + 1);
    return Obj().f("type", std::string(eq ? "eq" : "ineq")).f("label", label).raw("C", jmat(C)).raw("D", jmat(D))
        .raw("e", jvec(e)).raw("s", jvec(s)).f("p", p1).f("q", q1).str();
  }
};
template <class ConType>
class PolyCon : public altro::constraints::Constraint<ConType> {
 public:
  PolyCon(ConPar par, int n, int m) : c_(std::move(par)), n_(n), m_(m) {}
  int StateDimension() const override { return n_; }
  int ControlDimension() const override { return m_; }
  int OutputDimension() const override { return static_cast<int>(c_.e.size()); }
  std::string GetLabel() const override { return c_.label; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> c) override {
    VectorXd r = c_.C * x + c_.D * u + c_.e;
    for (int i = 0; i < r.size(); ++i) r(i) += c_.s(i) * x(c_.p[i]) * u(c_.q[i]);
    c = r;
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> jac) override {
    jac.leftCols(n_) = c_.C;
    jac.rightCols(m_) = c_.D;
    for (int i = 0; i < c_.e.size(); ++i) {
      jac(i, c_.p[i]) += c_.s(i) * u(c_.q[i]);
      jac(i, n_ + c_.q[i]) += c_.s(i) * x(c_.p[i]);
    }
  }
 private:
  ConPar c_;
  int n_, m_;
};

struct ProbPar {
  int n = 2, m = 1, N = 3;
  VectorXd x0;
  std::vector<DynPar> dyn;                // N
  std::vector<CostPar> cost;              // N+1
  std::vector<std::vector<ConPar>> con;   // N+1
  std::vector<float> t, h;                // N+1
  std::vector<VectorXd> U0;               // N+1 (terminal included)
  int guess = 0;                          // states of the initial guess: 0 zero, 1 arbitrary from x0 on, 2 arbitrary
  std::string json() const {
    std::string d = "[", c = "[", k = "[";
    for (size_t i = 0; i < dyn.size(); ++i) d += (i ? "," : "") + dyn[i].json();
    for (size_t i = 0; i < cost.size(); ++i) c += (i ? "," : "") + cost[i].json();
    for (size_t i = 0; i < con.size(); ++i) {
      k += i ? ",[" : "[";
      for (size_t j = 0; j < con[i].size(); ++j) k += (j ? "," : "") + con[i][j].json();
      k += "]";
    }
    return Obj().f("n", n).f("m", m).f("N", N).raw("x0", jvec(x0)).raw("dyn", d + "]").raw("cost", c + "]")
        .raw("con", k + "]").f("t", t).f("h", h).str();
  }
  altro::problem::Problem make(CallLog* log) const {
    altro::problem::Problem prob(N);
    for (int k = 0; k < N; ++k) prob.SetDynamics(std::make_shared<PolyDyn>(dyn[k], k, log), k);
    for (int k = 0; k <= N; ++k) {
      prob.SetCostFunction(std::make_shared<PolyCost>(cost[k], k, log), k);
      for (const ConPar& c : con[k]) {
        if (c.eq) prob.SetConstraint(std::make_shared<PolyCon<altro::constraints::Equality>>(c, n, m), k);
        else prob.SetConstraint(std::make_shared<PolyCon<altro::constraints::Inequality>>(c, n, m), k);
      }
    }
    prob.SetInitialState(x0);
    return prob;
  }
  template <int n_, int m_> std::shared_ptr<altro::Trajectory<n_, m_>> traj() const {
    auto Z = std::make_shared<altro::Trajectory<n_, m_>>(n, m, N);
    for (int k = 0; k <= N; ++k) {
      Z->Control(k) = U0[k];
      if (guess > 0) for (int i = 0; i < n; ++i) Z->State(k)(i) = k == 0 && guess == 1 ? x0(i) : ((k * 7 + i * 5) % 9 - 4) * 0.375;
      Z->SetTime(k, t[k]);
      Z->SetStep(k, h[k]);
    }
    return Z;
  }
};

struct GenOpts {
  bool constraints = true;
  int nonconvex = 0;   // percentage of knot points with an indefinite control Hessian
  bool linear = false; // LQ problem
  bool steep = false;  // huge linear control costs: only tiny steps stay within the bounds
  bool wild = false;   // large nonlinear terms, provoking rejected steps and bound violations
  int maxN = 6;
  int minN = 1;        // a horizon of 10 or more: gentle dynamics, so that the numbers stay comparable
};

inline MatrixXd rand_sym_pd(Rng& r, int n, int den, double diag) {
  MatrixXd L = MatrixXd::Zero(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) L(i, j) = r.dy(1, den);
  MatrixXd S = L * L.transpose();
  for (int i = 0; i < n; ++i) S(i, i) += diag;
  return S;
}

inline ProbPar gen_prob(Rng& r, int n, int m, const GenOpts& g) {
  ProbPar p;
  p.n = n; p.m = m; p.N = r.range(g.minN, g.maxN);
  p.x0 = VectorXd(n);
  for (int i = 0; i < n; ++i) p.x0(i) = r.dy(2, 4);
  p.guess = r.below(3);
  bool uneven = r.chance(50);
  float t = static_cast<float>(r.dy(1, 4));
  for (int k = 0; k <= p.N; ++k) {
    float h = k == p.N ? 0.0f : uneven ? r.pick({0.125f, 0.25f, 0.5f}) : 0.25f;
    p.t.push_back(t); p.h.push_back(h);
    t += h;
  }
  int clock = r.below(12);   // times are the caller's: they need not be the sums of the steps
  for (int k = 0; k <= p.N && clock <= 1; ++k) {
    if (clock == 0) p.t[k] += static_cast<float>(r.dy(1, 8));
    else { p.t[k] = 0.1f * static_cast<float>(k); if (k < p.N) p.h[k] = 0.1f; }   // not exact in binary
  }
  if (clock <= 1 && r.chance(30)) p.h[p.N] = 0.25f;
  bool termu = r.chance(30);
  for (int k = 0; k <= p.N; ++k) {
    VectorXd u(m);
    for (int i = 0; i < m; ++i) u(i) = k == p.N && !termu ? 0.0 : r.dy(1, 4);
    p.U0.push_back(u);
  }
  for (int k = 0; k < p.N; ++k) {
    DynPar d;
    d.A = MatrixXd::Identity(n, n); d.B = MatrixXd(n, m);
    d.s = VectorXd::Zero(n); d.w = VectorXd::Zero(n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) d.A(i, j) += r.dy(1, 8) * (g.minN < 10 ? 0.5 : 0.0625);
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) d.B(i, j) = r.dy(1, 4) * (g.minN < 10 ? 1 : 0.25);
    for (int i = 0; i < n; ++i) {
      if (!g.linear && r.chance(40)) d.s(i) = r.dy(1, 4) * (g.wild ? 4 : g.minN < 10 ? 1 : 0.125);
      if (r.chance(30)) d.w(i) = r.dy(1, 4) * (g.minN < 10 ? 1 : 0.0625);
      d.p.push_back(r.below(n)); d.q.push_back(r.below(m));
    }
    p.dyn.push_back(d);
  }
  for (int k = 0; k <= p.N; ++k) {
    CostPar c;
    bool nc = r.chance(g.nonconvex) && k < p.N;
    c.Q = rand_sym_pd(r, n, 4, r.pick({0.0, 0.25, 1.0}));
    c.R = rand_sym_pd(r, m, 4, nc ? 0.0 : r.pick({0.25, 0.5, 1.0}));
    if (nc) for (int i = 0; i < m; ++i) c.R(i, i) -= r.pick({0.5, 1.0, 4.0});
    c.H = MatrixXd::Zero(n, m);
    if (r.chance(50)) for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) c.H(i, j) = r.dy(1, 8) * 0.5;
    if (k == p.N) { c.H.setZero(); }
    c.q = VectorXd(n); c.r = VectorXd(m);
    for (int i = 0; i < n; ++i) c.q(i) = r.dy(1, 4);
    for (int i = 0; i < m; ++i) c.r(i) = r.dy(1, 4);
    if (g.steep && r.chance(70)) c.r *= r.pick({1e3, 1e5, 1e7});
    c.c = r.dy(2, 4);
    c.pi = r.below(n); c.qi = r.below(m);
    if (!g.linear && r.chance(50)) c.g = r.pick({0.125, 0.25});
    if (!g.linear && r.chance(30)) c.s = r.dy(1, 4) * (g.wild ? 2 : 0.5);
    p.cost.push_back(c);
  }
  p.con.resize(static_cast<size_t>(p.N) + 1);
  if (g.constraints) {
    int id = 0;
    for (int k = 0; k <= p.N; ++k) {
      int nc = r.pick({0, 0, 1, 1, 2, 3});
      for (int j = 0; j < nc; ++j) {
        ConPar c;
        c.eq = r.chance(40);
        c.label = (c.eq ? "E" : "I") + std::to_string(r.chance(20) ? 0 : ++id);
        int pd = r.range(1, 2);
        if (k == p.N && r.chance(40)) pd = std::min(n, 3);
        c.C = MatrixXd(pd, n); c.D = MatrixXd(pd, m);
        c.e = VectorXd(pd); c.s = VectorXd::Zero(pd);
        for (int i = 0; i < pd; ++i) {
          for (int l = 0; l < n; ++l) c.C(i, l) = r.chance(70) ? r.dy(1, 2) : 0;
          for (int l = 0; l < m; ++l) c.D(i, l) = (k < p.N && r.chance(60)) ? r.dy(1, 2) : 0;
          c.e(i) = r.dy(1, 4);
          if (!g.linear && r.chance(20)) c.s(i) = r.dy(1, 4) * 0.5;
          c.p.push_back(r.below(n)); c.q.push_back(r.below(m));
        }
        p.con[k].push_back(c);
      }
    }
  }
  return p;
}
}  // namespace vf
