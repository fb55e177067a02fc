// Finite differences ("fd") and the derivative checks of functions ("check").  See spec/Deriv.tla.
#include "util.hpp"
#include "altro/utils/derivative_checker.hpp"
#include "altro/common/functionbase.hpp"
#include "altro/problem/costfunction.hpp"
#include "altro/problem/dynamics.hpp"
using namespace vf;
using altro::VectorXdRef;
using Eigen::MatrixXd;
using Eigen::VectorXd;
namespace {
struct Mono { double c; std::vector<int> e; };
struct Poly {
  std::vector<Mono> t;
  double val(const VectorXd& z, int skip_i = -1, int skip_j = -1) const {   // derivative w.r.t. the given variables
    double s = 0;
    for (const Mono& m : t) {
      std::vector<int> e = m.e;
      double c = m.c;
      for (int d : {skip_i, skip_j}) if (d >= 0) { c *= e[d]; --e[d]; if (c == 0) break; }
      if (c == 0) continue;
      for (size_t k = 0; k < e.size(); ++k) for (int q = 0; q < e[k]; ++q) c *= z(k);
      s += c;
    }
    return s;
  }
  std::string json() const {
    std::string o = "[";
    for (size_t k = 0; k < t.size(); ++k) o += (k ? "," : "") + Obj().f("c", t[k].c).f("e", t[k].e).str();
    return o + "]";
  }
};
struct Fun {
  int n = 1, m = 0, p = 1, extra = 0;   // states, controls, outputs; extra parameters (time, step)
  std::vector<Poly> f;
  MatrixXd dJ;                          // errors planted in the Jacobian
  MatrixXd dH;                          // ... in the Hessian
  static Fun random(Rng& r, int n, int m, int p, int extra, int deg) {
    Fun F;
    F.n = n; F.m = m; F.p = p; F.extra = extra;
    int d = n + m + extra;
    for (int i = 0; i < p; ++i) {
      Poly P;
      int terms = r.range(1, 5);
      for (int k = 0; k < terms; ++k) {
        Mono mo;
        mo.c = r.dy(3, 4);
        mo.e.assign(d, 0);
        int g = r.range(0, deg);
        for (int q = 0; q < g; ++q) ++mo.e[r.below(d)];
        P.t.push_back(mo);
      }
      F.f.push_back(P);
    }
    F.dJ = MatrixXd::Zero(p, n + m);
    F.dH = MatrixXd::Zero(n + m, n + m);
    return F;
  }
  VectorXd z(const VectorXdRef& x, const VectorXdRef& u, double t = 0, double h = 0) const {
    VectorXd v(n + m + extra);
    v.head(n) = x;
    v.segment(n, m) = u;
    if (extra > 0) v(n + m) = t;
    if (extra > 1) v(n + m + 1) = h;
    return v;
  }
  VectorXd val(const VectorXd& v) const { VectorXd y(p); for (int i = 0; i < p; ++i) y(i) = f[i].val(v); return y; }
  MatrixXd jac(const VectorXd& v) const {
    MatrixXd J(p, n + m);
    for (int i = 0; i < p; ++i) for (int j = 0; j < n + m; ++j) J(i, j) = f[i].val(v, j) + dJ(i, j);
    return J;
  }
  MatrixXd hess(const VectorXd& v, const VectorXd& b) const {
    MatrixXd H = dH;
    for (int q = 0; q < p; ++q) for (int i = 0; i < n + m; ++i) for (int j = 0; j < n + m; ++j) H(i, j) += b(q) * f[q].val(v, i, j);
    return H;
  }
  std::string json() const { std::string o = "["; for (int i = 0; i < p; ++i) o += (i ? "," : "") + f[i].json(); return o + "]"; }
};

// ------------------------------------------------------------------------------------------------ finite differences
template <int rows, int cols>
void fd_jac(Rng& r, Sink& s, int p, int n) {
  Fun F = Fun::random(r, n, 0, p, 0, r.range(1, 4));
  Eigen::Matrix<double, cols, 1> x(n);
  for (int i = 0; i < n; ++i) x(i) = r.dy(2, 8);
  double eps = r.pick({1e-6, 1e-6, 1e-3, 1e-2, 0.125, 1e-4});
  bool central = r.chance(50);
  using Out = Eigen::Matrix<double, rows, 1>;
  auto fn = [&](const VectorXd& v) -> Out { return F.val(v); };
  op("FiniteDiffJacobian");
  MatrixXd J;
  Eigen::Matrix<double, cols, 1> x0 = x;
  bool def = eps == 1e-6 && !central && r.chance(50);
  if (rows == -1 && cols == -1 && r.chance(50)) J = def ? altro::utils::FiniteDiffJacobian(fn, x) : altro::utils::FiniteDiffJacobian(fn, x, eps, central);
  else J = def ? altro::utils::FiniteDiffJacobian<rows, cols>(fn, x) : altro::utils::FiniteDiffJacobian<rows, cols>(fn, x, eps, central);
  s.ev(Obj().f("e", "fd").f("k", "jac").raw("f", F.json()).raw("x", jvec(x0)).raw("xa", jvec(x)).f("eps", eps).f("central", central).raw("J", jmat(J)).f("rows", static_cast<int>(J.rows())).f("cols", static_cast<int>(J.cols())));
}
template <int cols>
void fd_scalar(Rng& r, Sink& s, int n, bool hess) {
  Fun F = Fun::random(r, n, 0, 1, 0, r.range(1, 4));
  Eigen::Matrix<double, cols, 1> x(n);
  for (int i = 0; i < n; ++i) x(i) = r.dy(2, 8);
  double eps = hess ? r.pick({1e-4, 1e-3, 1e-2, 0.125}) : r.pick({1e-6, 1e-6, 1e-3, 1e-2, 1e-4});
  bool central = r.chance(60);
  auto fn = [&](const VectorXd& v) -> double { return F.f[0].val(v); };
  Eigen::Matrix<double, cols, 1> x0 = x;
  MatrixXd J;
  if (hess) {
    op("FiniteDiffHessian");
    J = eps == 1e-4 && central && r.chance(50) ? altro::utils::FiniteDiffHessian(fn, x) : altro::utils::FiniteDiffHessian(fn, x, eps, central);
  } else {
    op("FiniteDiffGradient");
    J = eps == 1e-6 && !central && r.chance(50) ? altro::utils::FiniteDiffGradient(fn, x) : altro::utils::FiniteDiffGradient(fn, x, eps, central);
  }
  s.ev(Obj().f("e", "fd").f("k", hess ? "hess" : "grad").raw("f", F.json()).raw("x", jvec(x0)).raw("xa", jvec(x)).f("eps", eps).f("central", central).raw("J", jmat(J)).f("rows", static_cast<int>(J.rows())).f("cols", static_cast<int>(J.cols())));
}
void gen_fd(Rng& r, Sink& s) {
  for (int q = 0; q < 4; ++q) {
    switch (r.below(12)) {
      case 0: fd_jac<-1, -1>(r, s, r.range(1, 4), r.range(1, 5)); break;
      case 1: fd_jac<-1, -1>(r, s, r.range(1, 4), r.range(1, 5)); break;
      case 2: fd_jac<2, 3>(r, s, 2, 3); break;
      case 3: fd_jac<3, 1>(r, s, 3, 1); break;
      case 4: fd_jac<-1, 3>(r, s, r.range(1, 4), 3); break;
      case 5: fd_jac<2, -1>(r, s, 2, r.range(1, 5)); break;
      case 6: fd_scalar<-1>(r, s, r.range(1, 5), false); break;
      case 7: fd_scalar<3>(r, s, 3, false); break;
      case 8: fd_scalar<1>(r, s, 1, r.chance(50)); break;
      case 9: fd_scalar<2>(r, s, 2, true); break;
      default: fd_scalar<-1>(r, s, r.range(1, 4), true); break;
    }
  }
}
Reg reg("fd", gen_fd);

// ------------------------------------------------------------------------------------------------ checks
class VecFun : public altro::FunctionBase {
 public:
  explicit VecFun(const Fun& F) : F_(F) {}
  int StateDimension() const override { return F_.n; }
  int ControlDimension() const override { return F_.m; }
  int OutputDimension() const override { return F_.p; }
  bool HasHessian() const override { return true; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> out) override { out = F_.val(F_.z(x, u)); }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> jac) override { jac = F_.jac(F_.z(x, u)); }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, const VectorXdRef& b, Eigen::Ref<MatrixXd> h) override { h = F_.hess(F_.z(x, u), b); }
 private:
  const Fun& F_;
};
class ScaFun : public altro::ScalarFunction {
 public:
  using altro::ScalarFunction::Evaluate;
  using altro::ScalarFunction::Hessian;
  explicit ScaFun(const Fun& F) : F_(F) {}
  int StateDimension() const override { return F_.n; }
  int ControlDimension() const override { return F_.m; }
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override { return F_.val(F_.z(x, u))(0); }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> g) override { g = F_.jac(F_.z(x, u)).row(0).transpose(); }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> h) override { h = F_.hess(F_.z(x, u), VectorXd::Ones(1)); }
 private:
  const Fun& F_;
};
class CostFun : public altro::problem::CostFunction {
 public:
  using altro::problem::CostFunction::Gradient;
  using altro::problem::CostFunction::Hessian;
  explicit CostFun(const Fun& F) : F_(F) {}
  int StateDimension() const override { return F_.n; }
  int ControlDimension() const override { return F_.m; }
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override { return F_.val(F_.z(x, u))(0); }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    VectorXd g = F_.jac(F_.z(x, u)).row(0).transpose();
    dx = g.head(F_.n); du = g.tail(F_.m);
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> xx, Eigen::Ref<MatrixXd> xu, Eigen::Ref<MatrixXd> uu) override {
    MatrixXd h = F_.hess(F_.z(x, u), VectorXd::Ones(1));
    xx = h.topLeftCorner(F_.n, F_.n); xu = h.topRightCorner(F_.n, F_.m); uu = h.bottomRightCorner(F_.m, F_.m);
  }
 private:
  const Fun& F_;
};
class DDyn : public altro::problem::DiscreteDynamics {
 public:
  using altro::problem::DiscreteDynamics::Evaluate;
  using altro::problem::DiscreteDynamics::Jacobian;
  using altro::problem::DiscreteDynamics::Hessian;
  explicit DDyn(const Fun& F) : F_(F) {}
  int StateDimension() const override { return F_.n; }
  int ControlDimension() const override { return F_.m; }
  bool HasHessian() const override { return true; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<VectorXd> out) override { out = F_.val(F_.z(x, u, t, h)); }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<MatrixXd> jac) override { jac = F_.jac(F_.z(x, u, t, h)); }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, float t, float h, const VectorXdRef& b, Eigen::Ref<MatrixXd> H) override { H = F_.hess(F_.z(x, u, t, h), b); }
 private:
  const Fun& F_;
};
class CDyn : public altro::problem::ContinuousDynamics {
 public:
  using altro::problem::ContinuousDynamics::Evaluate;
  using altro::problem::ContinuousDynamics::Jacobian;
  using altro::problem::ContinuousDynamics::Hessian;
  explicit CDyn(const Fun& F) : F_(F) {}
  int StateDimension() const override { return F_.n; }
  int ControlDimension() const override { return F_.m; }
  bool HasHessian() const override { return true; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<VectorXd> out) override { out = F_.val(F_.z(x, u, t)); }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<MatrixXd> jac) override { jac = F_.jac(F_.z(x, u, t)); }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, float t, const VectorXdRef& b, Eigen::Ref<MatrixXd> H) override { H = F_.hess(F_.z(x, u, t), b); }
 private:
  const Fun& F_;
};
void gen_check(Rng& r, Sink& s) {
  srand(static_cast<unsigned>(r.below(1 << 30)));   // the points chosen by the checks
  Capture cap;
  for (int q = 0; q < 5; ++q) {
    int what = r.below(5);   // vector, scalar, cost, discrete dynamics, continuous dynamics
    int n = r.range(1, 4), m = r.range(1, 3);
    int p = what == 0 ? r.range(1, 4) : what >= 3 ? n : 1;
    int extra = what == 3 ? 2 : what == 4 ? 1 : 0;
    Fun F = Fun::random(r, n, m, p, extra, r.range(1, 4));
    int d = n + m;
    std::string k = what == 1 || what == 2 ? std::string(r.pick({"jac", "grad", "hess", "hess"})) : std::string(r.pick({"jac", "hess"}));
    double tol = r.pick({1e-4, 1e-4, 1e-3, 1e-2, 1.0});
    VectorXd x(n), u(m), b(p);
    for (int i = 0; i < n; ++i) x(i) = r.dy(2, 8);
    for (int i = 0; i < m; ++i) u(i) = r.dy(2, 8);
    for (int i = 0; i < p; ++i) b(i) = what == 1 || what == 2 ? 1.0 : r.dy(2, 4);
    bool random_point = r.chance(30);
    MatrixXd& E = k == "hess" ? F.dH : F.dJ;
    int wrong = r.chance(60) ? (r.chance(80) ? 1 : 2) : 0;
    for (int w = 0; w < wrong; ++w) {
      double v = tol * r.pick({0.25, 0.5, 0.75, 1.25, 1.5, 2.0, 10.0, 1000.0}) * (r.chance(50) ? 1 : -1);
      int i = r.below(static_cast<int>(E.rows())), j = r.below(static_cast<int>(E.cols()));
      if (what == 2 && k == "hess" && i >= n && j < n) std::swap(i, j);
      if (r.chance(4)) v = NAN;
      E(i, j) = v;
      if (what == 2 && k == "hess" && i < n && j >= n) E(j, i) = v;   // a cost gives this block once
    }
    float t = r.pick({0.0f, 0.5f, 1.25f, -2.0f}), h = r.pick({0.0f, 0.25f, 0.125f});
    bool verbose = r.chance(20), def = tol == 1e-4 && !verbose && r.chance(50);
    VecFun vf_(F); ScaFun sf(F); CostFun cf(F); DDyn dd(F); CDyn cd(F);
    dd.SetTime(t); dd.SetStep(h); cd.SetTime(t);
    altro::FunctionBase* fb = what == 0 ? static_cast<altro::FunctionBase*>(&vf_) : what == 1 ? static_cast<altro::FunctionBase*>(&sf) : what == 2 ? static_cast<altro::FunctionBase*>(&cf)
                              : what == 3 ? static_cast<altro::FunctionBase*>(&dd) : static_cast<altro::FunctionBase*>(&cd);
    altro::ScalarFunction* sc = what == 1 ? static_cast<altro::ScalarFunction*>(&sf) : &cf;
    bool ok;
    op(("Check " + k).c_str());
    if (k == "jac") ok = random_point ? (def ? fb->CheckJacobian() : fb->CheckJacobian(tol, verbose)) : (def ? fb->CheckJacobian(x, u) : fb->CheckJacobian(x, u, tol, verbose));
    else if (k == "grad") ok = random_point ? (def ? sc->CheckGradient() : sc->CheckGradient(tol, verbose)) : (def ? sc->CheckGradient(x, u) : sc->CheckGradient(x, u, tol, verbose));
    else ok = random_point ? (def ? fb->CheckHessian() : fb->CheckHessian(tol, verbose)) : (def ? fb->CheckHessian(x, u, b) : fb->CheckHessian(x, u, b, tol, verbose));
    cap.take();
    VectorXd z(d + extra);
    if (random_point) { z.head(d).setOnes(); b.setOnes(); } else z.head(d) << x, u;
    if (extra > 0) z(d) = t;
    if (extra > 1) z(d + 1) = h;
    std::vector<std::string> err;
    std::string es = "[";
    for (int i = 0; i < E.rows(); ++i) for (int j = 0; j < E.cols(); ++j) if (E(i, j) != 0) es += (es.size() > 1 ? "," : "") + num(E(i, j));
    s.ev(Obj().f("e", "check").f("k", k).f("what", what).raw("f", F.json()).f("d", d).raw("z", jvec(z)).raw("b", jvec(b)).f("at", !random_point).f("tol", tol).raw("err", es + "]").f("ok", ok));
    // the combined interface hands out what the parts say
    if (what >= 2) {
      VectorXd y(p); MatrixXd J = MatrixXd::Zero(p, d), H = MatrixXd::Zero(d, d);
      op("combined interface");
      F.dJ.setZero(); F.dH.setZero();
      if (what == 2) b.setOnes();
      fb->Evaluate(x, u, y);
      fb->Jacobian(x, u, J);
      fb->Hessian(x, u, b, H);
      z.head(d) << x, u;
      s.ev(Obj().f("e", "base").raw("f", F.json()).f("d", d).raw("z", jvec(z)).raw("b", jvec(b)).raw("y", jvec(y)).raw("J", jmat(J)).raw("H", jmat(H)));
      if (what == 3) { VectorXd a = dd.Evaluate(x, u, t, h), c = dd(x, u, t, h); s.ev(Obj().f("e", "val").raw("f", F.json()).raw("z", jvec(z)).raw("y", jvec(a)).raw("y2", jvec(c))); }
      if (what == 4) { VectorXd a = cd.Evaluate(x, u, t), c = cd(x, u, t); s.ev(Obj().f("e", "val").raw("f", F.json()).raw("z", jvec(z)).raw("y", jvec(a)).raw("y2", jvec(c))); }
    }
  }
}
Reg reg2("check", gen_check);
}  // namespace
