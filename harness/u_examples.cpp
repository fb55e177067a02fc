// The shipped costs, constraints, models and problems.  See spec/Examples.tla.
#include "util.hpp"
#include "examples/basic_constraints.hpp"
#include "examples/obstacle_constraints.hpp"
#include "examples/quadratic_cost.hpp"
#include "examples/triple_integrator.hpp"
#include "examples/unicycle.hpp"
#include "examples/problems/triple_integrator.hpp"
#include "examples/problems/unicycle.hpp"
using namespace vf;
using altro::VectorXdRef;
using Eigen::MatrixXd;
using Eigen::VectorXd;
namespace ex = altro::examples;
namespace {
using Eq = altro::constraints::Equality;
using In = altro::constraints::Inequality;
VectorXd rvec(Rng& r, int n, int lim = 2, int den = 4) { VectorXd v(n); for (int i = 0; i < n; ++i) v(i) = r.dy(lim, den); return v; }
MatrixXd rmat(Rng& r, int n, int m) { MatrixXd v(n, m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) v(i, j) = r.dy(2, 2); return v; }
MatrixXd psd(Rng& r, int n, bool strict) {
  MatrixXd L = rmat(r, n, n);
  if (r.chance(30)) L = MatrixXd(L.diagonal().asDiagonal());
  MatrixXd Q = L * L.transpose();
  if (strict) Q.diagonal().array() += 0.5;
  return Q;
}

// ------------------------------------------------------------------------------------------------ quadratic cost
void cost_points(Rng& r, Sink& s, ex::QuadraticCost& c, int n, int m) {
  altro::ScalarFunction& b = c;
  altro::problem::CostFunction& p = c;
  for (int q = 0; q < 3; ++q) {
    VectorXd x = rvec(r, n), u = rvec(r, m);
    VectorXd dx = rvec(r, n), du = rvec(r, m);
    MatrixXd xx = rmat(r, n, n), xu = rmat(r, n, m), uu = rmat(r, m, m);
    double J = r.chance(50) ? c.Evaluate(x, u) : b.Evaluate(x, u);
    if (r.chance(50)) {
      p.Gradient(x, u, dx, du);
    } else {
      VectorXd g = rvec(r, n + m);
      b.Gradient(x, u, g);
      dx = g.head(n); du = g.tail(m);
    }
    MatrixXd ux;
    if (r.chance(50)) {
      p.Hessian(x, u, xx, xu, uu);
      ux = xu.transpose();
    } else {
      MatrixXd H = rmat(r, n + m, n + m);
      b.Hessian(x, u, H);
      xx = H.topLeftCorner(n, n); xu = H.topRightCorner(n, m); uu = H.bottomRightCorner(m, m); ux = H.bottomLeftCorner(m, n);
    }
    s.ev(Obj().f("e", "cost").raw("x", jvec(x)).raw("u", jvec(u)).f("J", J).raw("dx", jvec(dx)).raw("du", jvec(du)).raw("xx", jmat(xx)).raw("xu", jmat(xu)).raw("ux", jmat(ux)).raw("uu", jmat(uu)));
  }
}
void describe(Sink& s, const ex::QuadraticCost& c) {
  s.ev(Obj().f("e", "costpar").f("n", c.StateDimension()).f("m", c.ControlDimension()).raw("Q", jmat(c.GetQ())).raw("R", jmat(c.GetR())).raw("H", jmat(c.GetH()))
           .raw("q", jvec(c.Getq())).raw("r", jvec(c.Getr())).f("c", c.GetConstant()).f("block", c.IsBlockDiagonal()));
}
void gen_cost(Rng& r, Sink& s) {
  int n = r.range(1, 5), m = r.range(1, 4);
  bool term = r.chance(40);
  MatrixXd Q = psd(r, n, r.chance(50)), R = term ? (r.chance(50) ? MatrixXd(MatrixXd::Zero(m, m)) : psd(r, m, false)) : psd(r, m, true);
  if (r.chance(20)) Q.setZero();
  std::unique_ptr<ex::QuadraticCost> c;
  if (r.chance(50)) {
    VectorXd xr = rvec(r, n), ur = rvec(r, m);
    s.ev(Obj().f("e", "lqr").raw("Q", jmat(Q)).raw("R", jmat(R)).raw("xr", jvec(xr)).raw("ur", jvec(ur)));
    op("LQRCost");
    c.reset(new ex::QuadraticCost(ex::QuadraticCost::LQRCost(Q, R, xr, ur, term)));
  } else {
    MatrixXd H = r.chance(30) ? MatrixXd(MatrixXd::Zero(n, m)) : rmat(r, n, m);
    VectorXd q = rvec(r, n), rr = rvec(r, m);
    double k = r.dy(3, 4);
    bool def = r.chance(20);
    s.ev(Obj().f("e", "quad").raw("Q", jmat(Q)).raw("R", jmat(R)).raw("H", jmat(H)).raw("q", jvec(q)).raw("r", jvec(rr)).f("c", def && !term ? 0 : k));
    op("QuadraticCost");
    if (def && !term) c.reset(new ex::QuadraticCost(Q, R, H, q, rr));
    else c.reset(new ex::QuadraticCost(Q, R, H, q, rr, k, term));
  }
  describe(s, *c);
  cost_points(r, s, *c, n, m);
  ex::QuadraticCost d = *c;
  c.reset();
  cost_points(r, s, d, n, m);
}

// ------------------------------------------------------------------------------------------------ constraints
template <class C>
void con_point(Rng& r, Sink& s, C& c, int n, int m, bool zeroed, int copies = 1) {
  altro::FunctionBase& b = c;
  for (int q = 0; q < copies; ++q) {
    VectorXd x = rvec(r, n), u = rvec(r, m);
    const int p = b.OutputDimension();
    VectorXd o = rvec(r, p);
    MatrixXd J = zeroed ? MatrixXd(MatrixXd::Zero(p, n + m)) : rmat(r, p, n + m);
    b.Evaluate(x, u, o);
    b.Jacobian(x, u, J);
    s.ev(Obj().f("e", "con").raw("x", jvec(x)).raw("u", jvec(u)).f("p", p).raw("c", jvec(o)).raw("J", jmat(J)).f("label", c.GetLabel()).f("type", c.GetConstraintType()).f("hess", b.HasHessian()));
  }
}
const double inf = std::numeric_limits<double>::infinity();
std::vector<double> bound(Rng& r, int m, bool up, const std::vector<double>& other) {
  std::vector<double> v(static_cast<size_t>(m));
  for (int i = 0; i < m; ++i) {
    double o = other.empty() ? 0 : other[static_cast<size_t>(i)];
    double d = r.chance(15) ? 0 : r.range(1, 12) / 4.0;
    if (std::isinf(o)) o = r.dy(2, 2);
    v[static_cast<size_t>(i)] = r.chance(35) ? (up ? inf : -inf) : up ? o + d : o - d;
  }
  return v;
}
void gen_bound(Rng& r, Sink& s) {
  int m = r.range(1, 4), n = r.range(1, 4);
  std::unique_ptr<ex::ControlBound> c;
  std::vector<double> lb(static_cast<size_t>(m), -inf), ub(static_cast<size_t>(m), inf);
  if (r.chance(50)) {
    c.reset(new ex::ControlBound(m));
  } else {
    lb = bound(r, m, false, {});
    ub = bound(r, m, true, lb);
    c.reset(new ex::ControlBound(lb, ub));
  }
  auto state = [&] { s.ev(Obj().f("e", "bounds").raw("lb", js(lb)).raw("ub", js(ub)).f("m", c->ControlDimension())); };
  state();
  con_point(r, s, *c, n, m, false);
  int ops = r.range(0, 4);
  for (int q = 0; q < ops; ++q) {
    bool up = r.chance(50);
    std::vector<double> v = bound(r, m, up, up ? lb : ub);
    std::vector<double> w = v;
    op(up ? "SetUpperBound" : "SetLowerBound");
    if (up) { ub = v; if (r.chance(50)) c->SetUpperBound(v); else c->SetUpperBound(std::move(w)); }
    else { lb = v; if (r.chance(50)) c->SetLowerBound(v); else c->SetLowerBound(std::move(w)); }
    state();
    if (r.chance(20)) { ex::ControlBound d = *c; con_point(r, s, d, n, m, false); }
    con_point(r, s, *c, n, m, false);
  }
}
void gen_goal(Rng& r, Sink& s) {
  int n = r.range(1, 5), m = r.range(0, 3);
  VectorXd xf = rvec(r, n);
  s.ev(Obj().f("e", "goal").raw("xf", jvec(xf)));
  if (r.chance(50)) {
    ex::GoalConstraint g(xf);
    s.ev(Obj().f("e", "dim").f("n", g.StateDimension()));
    con_point(r, s, g, n, m, false, 2);
  } else {
    altro::constraints::ConstraintPtr<Eq> g = ex::GoalConstraint::Create(xf);
    con_point(r, s, *g, n, m, false, 2);
  }
}
void gen_circle(Rng& r, Sink& s) {
  int n = r.range(2, 5), m = r.range(1, 3);
  ex::CircleConstraint c;
  std::string obs;
  int xi = 0, yi = 1, ops = r.range(1, 6);
  for (int q = 0; q < ops; ++q) {
    if (r.chance(65)) {
      double a = r.dy(2, 4), b = r.dy(2, 4), R = r.range(0, 8) / 4.0;
      if (r.chance(50)) c.AddObstacle(a, b, R); else c.AddObstacle(ex::Circle(a, b, R));
      obs += (obs.empty() ? "[" : ",[") + num(a) + "," + num(b) + "," + num(R) + "]";
      ex::Circle k(a, b, R);
      double px = r.dy(2, 4), py = r.dy(2, 4);
      double g[2] = {9, 9};
      k.Distance2Gradient(px, py, g);
      s.ev(Obj().f("e", "circle").raw("o", "[" + num(a) + "," + num(b) + "," + num(R) + "]").f("px", px).f("py", py).f("d2", k.Distance2(px, py)).f("d", k.Distance(px, py))
               .raw("g", "[" + num(g[0]) + "," + num(g[1]) + "]"));
    } else {
      xi = r.below(n);
      yi = r.below(n);
      if (xi == yi) yi = (yi + 1) % n;
      op("SetXYIndices");
      c.SetXYIndices(xi, yi);
    }
    s.ev(Obj().f("e", "obstacles").raw("o", "[" + obs + "]").f("x", xi + 1).f("y", yi + 1));
    con_point(r, s, c, n, m, true);
  }
}

// ------------------------------------------------------------------------------------------------ models
template <class M>
void model_points(Rng& r, Sink& s, M& d, int n, int m) {
  altro::problem::ContinuousDynamics& c = d;
  altro::FunctionBase& b = d;
  s.ev(Obj().f("e", "modeldim").f("n", c.StateDimension()).f("m", c.ControlDimension()).f("p", c.OutputDimension()).f("hess", c.HasHessian()));
  for (int q = 0; q < 3; ++q) {
    VectorXd x = rvec(r, n), u = rvec(r, m), l = rvec(r, n);
    float t = static_cast<float>(r.dy(3, 4));
    VectorXd o = rvec(r, n);
    MatrixXd J = MatrixXd::Zero(n, n + m), H = MatrixXd::Zero(n + m, n + m);
    switch (r.below(4)) {
      case 0: c.Evaluate(x, u, t, o); break;
      case 1: o = c.Evaluate(x, u, t); break;
      case 2: o = c(x, u, t); break;
      default: c.SetTime(t); b.Evaluate(x, u, o); break;
    }
    if (r.chance(50)) { c.Jacobian(x, u, t, J); c.Hessian(x, u, t, l, H); }
    else { c.SetTime(t); b.Jacobian(x, u, J); b.Hessian(x, u, l, H); }
    s.ev(Obj().f("e", "model").raw("x", jvec(x)).raw("u", jvec(u)).raw("l", jvec(l)).raw("f", jvec(o)).raw("J", jmat(J)).raw("H", jmat(H)));
  }
}
void gen_triple(Rng& r, Sink& s) {
  int dof = r.range(1, 4);
  ex::TripleIntegrator t0, t(dof);
  if (dof == 1 && r.chance(50)) t = t0;
  s.ev(Obj().f("e", "triple").f("dof", dof));
  model_points(r, s, t, 3 * dof, dof);
}
void gen_unicycle(Rng& r, Sink& s) {
  ex::Unicycle d;
  s.ev(Obj().f("e", "unicycle"));
  model_points(r, s, d, 3, 2);
}

// ------------------------------------------------------------------------------------------------ problems
template <class C>
std::string con_list(Rng& r, const std::vector<altro::constraints::ConstraintPtr<C>>& l, const VectorXd& x, const VectorXd& u) {
  std::string o = "[";
  for (size_t i = 0; i < l.size(); ++i) {
    const int p = l[i]->OutputDimension();
    VectorXd c(p);
    l[i]->Evaluate(x, u, c);
    o += (i ? "," : "") + Obj().f("label", l[i]->GetLabel()).raw("c", jvec(c)).str();
  }
  (void)r;
  return o + "]";
}
void knots(Rng& r, Sink& s, altro::problem::Problem& p, int n, int m) {
  const int N = p.NumSegments();
  s.ev(Obj().f("e", "prob").f("N", N).raw("x0", jvec(p.GetInitialState())).f("full", p.IsFullyDefined()).f("ncon", [&] { int t = 0; for (int k = 0; k <= N; ++k) t += p.NumConstraints(k); return t; }()));
  for (int q = 0; q < 6; ++q) {
    int k = q == 0 ? N : q == 1 ? 0 : q == 2 ? N - 1 : r.below(N + 1);
    VectorXd x = rvec(r, n), u = rvec(r, m);
    Obj o;
    o.f("e", "knot").f("k", k).raw("x", jvec(x)).raw("u", jvec(u));
    auto c = p.GetCostFunction(k);
    VectorXd dx(n), du(m);
    c->Gradient(x, u, dx, du);
    MatrixXd xx(n, n), xu(n, m), uu(m, m);
    c->Hessian(x, u, xx, xu, uu);
    o.f("J", c->Evaluate(x, u)).raw("dx", jvec(dx)).raw("du", jvec(du)).raw("xx", jmat(xx)).raw("uu", jmat(uu)).raw("xu", jmat(xu));
    auto qc = std::dynamic_pointer_cast<ex::QuadraticCost>(c);
    o.raw("r", qc ? jvec(qc->Getr()) : "[]").f("c", qc ? qc->GetConstant() : 0.0);
    if (k < N) {
      float t = static_cast<float>(r.dy(2, 4)), h = r.pick({0.25f, 0.125f, 0.5f});
      VectorXd y(n);
      p.GetDynamics(k)->Evaluate(x, u, t, h, y);
      o.f("h", h).raw("y", jvec(y));
    } else {
      o.f("h", 0).raw("y", "[]");
    }
    o.raw("eq", con_list<Eq>(r, p.GetEqualityConstraints().at(static_cast<size_t>(k)), x, u)).raw("in", con_list<In>(r, p.GetInequalityConstraints().at(static_cast<size_t>(k)), x, u));
    s.ev(o);
  }
}
template <class Z>
void traj(Sink& s, Z z) {
  std::string t = "[", h = "[", X = "[", U = "[";
  for (int k = 0; k <= z.NumSegments(); ++k) {
    const char* sep = k ? "," : "";
    t += sep + js(z.GetTime(k)); h += sep + js(z.GetStep(k)); X += sep + jvec(z.State(k)); U += sep + jvec(z.Control(k));
  }
  s.ev(Obj().f("e", "traj").f("N", z.NumSegments()).raw("t", t + "]").raw("h", h + "]").raw("X", X + "]").raw("U", U + "]"));
}
// Blocks of the sizes about to be allocated, full of a recognisable number.
void dirty() {
  std::vector<void*> p;
  for (int q = 0; q < 3000; ++q) { size_t z = 16u * static_cast<size_t>(1 + q % 6); double* d = static_cast<double*>(malloc(z)); for (size_t i = 0; i < z / 8; ++i) d[i] = 32.5; p.push_back(d); }
  for (void* q : p) free(q);
}
template <int dof>
void triple_problem(Rng& r, Sink& s) {
  altro::problems::TripleIntegratorProblem<dof> def;
  const int n = 3 * dof;
  if (r.chance(60)) {
    def.N = r.range(2, 12);
    def.h = r.pick({0.25f, 0.1f, 0.05f});
    if (r.chance(50)) { def.Q = psd(r, n, true); def.R = psd(r, dof, true); def.Qf = psd(r, n, true); }
    if (r.chance(50)) { def.xf = rvec(r, n); def.x0 = rvec(r, n); }
    if (r.chance(50)) for (double& b : def.ubnd) b = r.range(1, 9);
  }
  bool con = r.chance(70);
  s.ev(Obj().f("e", "tripleprob").f("dof", dof).f("N", def.N).f("h", def.h).raw("Q", jmat(def.Q)).raw("R", jmat(def.R)).raw("Qf", jmat(def.Qf)).raw("xf", jvec(def.xf)).raw("x0", jvec(def.x0))
           .raw("ub", js(def.ubnd)).f("con", con));
  dirty();
  altro::problem::Problem p = r.chance(50) || con ? def.MakeProblem(con) : def.MakeProblem();
  knots(r, s, p, n, dof);
  traj(s, def.InitialTrajectory());
  traj(s, def.template InitialTrajectory<Eigen::Dynamic, Eigen::Dynamic>());
}
void unicycle_problem(Rng& r, Sink& s) {
  altro::problems::UnicycleProblem def;
  bool obst = r.chance(60), con = r.chance(60);
  if (obst) def.SetScenario(altro::problems::UnicycleProblem::kThreeObstacles);
  else if (r.chance(50)) def.SetScenario(altro::problems::UnicycleProblem::kTurn90);
  if (r.chance(60)) def.N = r.range(2, 20);
  if (r.chance(50)) { def.v_bnd = r.range(1, 9) / 2.0; def.w_bnd = r.range(1, 9) / 4.0; }
  if (!obst && r.chance(50)) { def.xf = rvec(r, 3); def.x0 = rvec(r, 3); def.u0 = rvec(r, 2); }
  if (r.chance(50)) def.uref = rvec(r, 2);
  s.ev(Obj().f("e", "uniprob").f("N", def.N).f("obst", obst).f("con", con).f("v", def.v_bnd).f("w", def.w_bnd).raw("xf", jvec(def.xf)).raw("x0", jvec(def.x0)).raw("u0", jvec(def.u0)).raw("ur", jvec(def.uref)));
  dirty();
  altro::problem::Problem p = con && r.chance(50) ? def.MakeProblem() : def.MakeProblem(con);
  knots(r, s, p, 3, 2);
  traj(s, def.InitialTrajectory());
}
void gen(Rng& r, Sink& s) {
  switch (r.below(11)) {
    case 0: case 1: gen_cost(r, s); break;
    case 2: gen_goal(r, s); break;
    case 3: case 4: gen_bound(r, s); break;
    case 5: case 6: gen_circle(r, s); break;
    case 7: gen_triple(r, s); break;
    case 8: gen_unicycle(r, s); break;
    case 9: switch (r.below(3)) { case 0: triple_problem<1>(r, s); break; case 1: triple_problem<2>(r, s); break; default: triple_problem<3>(r, s); } break;
    default: unicycle_problem(r, s);
  }
}
Reg reg("examples", gen);
}  // namespace
