// Calls of the explicit integrators on polynomial, time-varying models.  See spec/Integ.tla.
#include "util.hpp"
#include "altro/problem/discretized_model.hpp"
#include "altro/problem/integration.hpp"
using namespace vf;
using altro::VectorXdRef;
using Eigen::MatrixXd;
using Eigen::VectorXd;
namespace {
// xdot_i = A_i x + B_i u + s_i x_p u_q + g_i x_r^2 + w_i t^2 + v_i t x_r + y_i t u_q
struct Par {
  MatrixXd A, B;
  VectorXd s, g, w, v, y;
  std::vector<int> p, q, r;
  std::string json() const {
    auto up = [](std::vector<int> a) { for (int& i : a) ++i; return a; };
    return Obj().raw("A", jmat(A)).raw("B", jmat(B)).raw("s", jvec(s)).raw("g", jvec(g)).raw("w", jvec(w)).raw("v", jvec(v)).raw("y", jvec(y))
        .f("p", up(p)).f("q", up(q)).f("r", up(r)).str();
  }
};
Par gen_par(Rng& R, int n, int m) {
  Par a;
  a.A = MatrixXd(n, n); a.B = MatrixXd(n, m);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a.A(i, j) = R.dy(1, 4);
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) a.B(i, j) = R.dy(1, 4);
  for (VectorXd* z : {&a.s, &a.g, &a.w, &a.v, &a.y}) { *z = VectorXd(n); for (int i = 0; i < n; ++i) (*z)(i) = R.chance(50) ? R.dy(1, 4) : 0; }
  for (int i = 0; i < n; ++i) { a.p.push_back(R.below(n)); a.q.push_back(R.below(m)); a.r.push_back(R.below(n)); }
  return a;
}
template <int n_, int m_>
class Model : public altro::problem::ContinuousDynamics {
 public:
  using altro::problem::ContinuousDynamics::Evaluate;
  using altro::problem::ContinuousDynamics::Jacobian;
  using altro::problem::ContinuousDynamics::Hessian;
  static constexpr int NStates = n_;
  static constexpr int NControls = m_;
  explicit Model(Par a) : a_(std::move(a)) {}
  int StateDimension() const override { return static_cast<int>(a_.A.rows()); }
  int ControlDimension() const override { return static_cast<int>(a_.B.cols()); }
  bool HasHessian() const override { return false; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float tf, Eigen::Ref<VectorXd> xd) override {
    const double t = static_cast<double>(tf);
    VectorXd o = a_.A * x + a_.B * u;
    for (int i = 0; i < o.size(); ++i) {
      double xr = x(a_.r[i]), uq = u(a_.q[i]);
      o(i) += a_.s(i) * x(a_.p[i]) * uq + a_.g(i) * xr * xr + a_.w(i) * t * t + a_.v(i) * t * xr + a_.y(i) * t * uq;
    }
    xd = o;
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float tf, Eigen::Ref<MatrixXd> jac) override {
    const double t = static_cast<double>(tf);
    const int n = StateDimension(), m = ControlDimension();
    MatrixXd J(n, n + m);
    J << a_.A, a_.B;
    for (int i = 0; i < n; ++i) {
      J(i, a_.p[i]) += a_.s(i) * u(a_.q[i]);
      J(i, n + a_.q[i]) += a_.s(i) * x(a_.p[i]) + a_.y(i) * t;
      J(i, a_.r[i]) += 2 * a_.g(i) * x(a_.r[i]) + a_.v(i) * t;
    }
    jac = J;
  }
  void Hessian(const VectorXdRef&, const VectorXdRef&, float, const VectorXdRef&, Eigen::Ref<MatrixXd>) override {}
 private:
  Par a_;
};

struct Args { VectorXd x, u; float t, h; };
Args gen_args(Rng& R, int n, int m) {
  Args a;
  a.x = VectorXd(n); a.u = VectorXd(m);
  for (int i = 0; i < n; ++i) a.x(i) = R.dy(2, 4);
  for (int i = 0; i < m; ++i) a.u(i) = R.dy(2, 4);
  a.t = static_cast<float>(R.chance(30) ? 0 : R.dy(3, 8));
  a.h = R.pick({0.0f, 0.0625f, 0.125f, 0.25f, 0.5f, 1.0f, 0.75f, -0.25f});
  return a;
}
MatrixXd garbage(Rng& R, int r, int c) { MatrixXd g(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) g(i, j) = R.dy(9, 2); return g; }
void out(Sink& s, const char* meth, int model, const Args& a, const std::string& step, const std::string& jac) {
  s.ev(Obj().f("e", "call").f("meth", meth).f("m", model).raw("x", jvec(a.x)).raw("u", jvec(a.u)).f("t", a.t).f("h", a.h).raw("step", step).raw("jac", jac));
}
// one integrator object, several models, calls in any order
template <class I, class M>
void direct(Rng& R, Sink& s, I& integ, const char* meth, const std::vector<std::shared_ptr<M>>& ms, int n, int m) {
  int len = R.range(2, 7);
  for (int c = 0; c < len; ++c) {
    int id = R.below(static_cast<int>(ms.size()));
    std::shared_ptr<altro::problem::ContinuousDynamics> d = ms[id];
    Args a = gen_args(R, n, m);
    std::string st = "[]", jc = "[]";
    int what = R.below(3);
    if (what != 1) { VectorXd xn = garbage(R, n, 1); op("Integrate"); integ.Integrate(d, a.x, a.u, a.t, a.h, xn); st = jvec(xn); }
    if (what != 0) { MatrixXd J = garbage(R, n, n + m); op("Jacobian"); integ.Jacobian(d, a.x, a.u, a.t, a.h, J); jc = jmat(J); }
    out(s, meth, id + 1, a, st, jc);
  }
}
template <class D>
void model(Rng& R, Sink& s, std::vector<D>& ds, const char* meth, int n, int m) {
  int len = R.range(2, 7);
  for (int c = 0; c < len; ++c) {
    int id = R.below(static_cast<int>(ds.size()));
    D& d = ds[id];
    Args a = gen_args(R, n, m);
    std::string st = "[]", jc = "[]";
    altro::problem::DiscreteDynamics& b = d;
    switch (R.below(4)) {
      case 0: { VectorXd xn = garbage(R, n, 1); d.Evaluate(a.x, a.u, a.t, a.h, xn); st = jvec(xn); break; }
      case 1: { VectorXd xn = b.Evaluate(a.x, a.u, a.t, a.h); st = jvec(xn); break; }
      case 2: { VectorXd xn = b(a.x, a.u, a.t, a.h); st = jvec(xn); break; }
      case 3: {
        b.SetTime(a.t); b.SetStep(a.h);
        VectorXd xn = garbage(R, n, 1);
        b.Evaluate(a.x, a.u, xn); st = jvec(xn);
        MatrixXd J = garbage(R, n, n + m);
        b.Jacobian(a.x, a.u, J); jc = jmat(J);
        break;
      }
    }
    if (jc == "[]" && R.chance(60)) { MatrixXd J = garbage(R, n, n + m); d.Jacobian(a.x, a.u, a.t, a.h, J); jc = jmat(J); }
    out(s, meth, id + 1, a, st, jc);
  }
}
template <int n_, int m_>
std::enable_if_t<(n_ > 0), altro::problem::RungeKutta4<n_, m_>> plain(int, int) { return altro::problem::RungeKutta4<n_, m_>(); }
template <int n_, int m_>
std::enable_if_t<(n_ <= 0), altro::problem::RungeKutta4<n_, m_>> plain(int n, int m) { return altro::problem::RungeKutta4<n_, m_>(n, m); }
template <int n_, int m_>
void go(Rng& R, Sink& s, int n, int m) {
  using M = Model<n_, m_>;
  int cnt = R.range(1, 2);
  std::vector<std::shared_ptr<M>> ms;
  for (int i = 0; i < cnt; ++i) {
    Par p = gen_par(R, n, m);
    s.ev(Obj().f("e", "model").f("n", n).f("m", m).raw("par", p.json()));
    ms.push_back(std::make_shared<M>(p));
  }
  using RK = altro::problem::RungeKutta4<n_, m_>;
  using EU = altro::problem::ExplicitEuler;
  switch (R.below(5)) {
    case 0: { RK i = R.chance(50) ? plain<n_, m_>(n, m) : RK(n, m); direct(R, s, i, "rk4", ms, n, m); break; }
    case 1: { EU i(n, m); direct(R, s, i, "euler", ms, n, m); break; }
    case 2: { std::vector<altro::problem::DiscretizedModel<M, EU>> d; for (auto& q : ms) d.emplace_back(*q); model(R, s, d, "euler", n, m); break; }
    default: { std::vector<altro::problem::DiscretizedModel<M>> d; for (auto& q : ms) d.emplace_back(*q); if (R.chance(50)) { auto e = d; model(R, s, e, "rk4", n, m); } model(R, s, d, "rk4", n, m); break; }
  }
}
void gen(Rng& R, Sink& s) {
  switch (R.below(4)) {
    case 0: go<2, 1>(R, s, 2, 1); break;
    case 1: go<3, 2>(R, s, 3, 2); break;
    case 2: go<1, 1>(R, s, 1, 1); break;
    default: { int n = R.range(1, 4), m = R.range(1, 3); go<-1, -1>(R, s, n, m); }
  }
}
Reg reg("integ", gen);
}  // namespace
