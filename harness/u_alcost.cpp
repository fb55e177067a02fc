// Histories of operations on an augmented cost and its constraint values, and on the cones.  See spec/AlCost.tla.
#include "util.hpp"
#include "prob.hpp"
#include "altro/augmented_lagrangian/al_cost.hpp"
using namespace vf;
namespace ac = altro::constraints;
namespace {
using Eq = ac::Equality;
using In = ac::Inequality;
template <int n_, int m_>
struct W {
  using Cost = altro::augmented_lagrangian::ALCost<n_, m_>;
  Rng& r; Sink& s; int n, m;
  std::unique_ptr<Cost> c;
  bool have_cost = false;
  int id = 0;

  VectorXd vec(int d, int lim = 2, int den = 4) { VectorXd v(d); for (int i = 0; i < d; ++i) v(i) = r.dy(lim, den); return v; }
  CostPar cost() {
    CostPar p;
    p.Q = rand_sym_pd(r, n, 4, 0.25); p.R = rand_sym_pd(r, m, 4, 0.5); p.H = MatrixXd(n, m);
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) p.H(i, j) = r.dy(1, 4);
    p.q = vec(n, 1); p.r = vec(m, 1); p.c = r.dy(3, 4); p.pi = r.below(n); p.qi = r.below(m);
    p.g = r.pick({0.0, 0.25}); p.s = r.dy(1, 2);
    return p;
  }
  ConPar con(bool eq) {
    ConPar p;
    p.eq = eq;
    p.label = (eq ? "E" : "I") + std::to_string(++id);
    int d = r.pick({1, 1, 2, 3});
    p.C = MatrixXd(d, n); p.D = MatrixXd(d, m); p.e = vec(d, 1); p.s = VectorXd::Zero(d);
    for (int i = 0; i < d; ++i) {
      for (int l = 0; l < n; ++l) p.C(i, l) = r.dy(1, 2);
      for (int l = 0; l < m; ++l) p.D(i, l) = r.dy(1, 2);
      if (r.chance(40)) p.s(i) = r.dy(1, 2);
      p.p.push_back(r.below(n)); p.q.push_back(r.below(m));
    }
    return p;
  }
  void set_cost() {
    CostPar p = cost();
    op("SetCostFunction");
    c->SetCostFunction(std::make_shared<PolyCost>(p, 0, nullptr));
    have_cost = true;
    s.ev(Obj().f("e", "cost").raw("P", p.json()));
  }
  template <class T> void set_list(bool eq) {
    std::vector<std::shared_ptr<ac::Constraint<T>>> l;
    std::string j = "[";
    int k = r.pick({0, 1, 1, 2, 3});
    for (int i = 0; i < k; ++i) { ConPar p = con(eq); l.push_back(std::make_shared<PolyCon<T>>(p, n, m)); j += (i ? "," : "") + p.json(); }
    op(eq ? "SetEqualityConstraints" : "SetInequalityConstraints");
    assign(l, std::is_same<T, In>());
    s.ev(Obj().f("e", "list").f("type", eq ? "eq" : "ineq").raw("L", j + "]"));
  }
  template <class L> void assign(const L& l, std::true_type) { c->SetInequalityConstraints(l.begin(), l.end()); }
  template <class L> void assign(const L& l, std::false_type) { c->SetEqualityConstraints(l.begin(), l.end()); }
  int count(bool eq) { return static_cast<int>(eq ? c->GetEqualityConstraints().size() : c->GetInequalityConstraints().size()); }

  template <class T> void setter(bool eq) {
    int k = count(eq), w = r.below(5);
    const char* ty = eq ? "eq" : "ineq";
    if (w < 3) {
      double v = r.pick({0.5, 1.0, 1.0, 3.0, 10.0, 64.0, 1e4});
      bool all = w == 0 || k == 0;
      int i = all ? -1 : r.below(k);
      op("SetPenalty");
      if (all) c->template SetPenalty<T>(v); else c->template SetPenalty<T>(v, i);
      s.ev(Obj().f("e", "pen").f("type", ty).f("i", i).f("v", v));
    } else {
      double v = r.pick({1.0, 2.0, 2.5, 10.0, 100.0});
      bool all = w == 3 || k == 0;
      int i = all ? -1 : r.below(k);
      op("SetPenaltyScaling");
      if (all) c->template SetPenaltyScaling<T>(v); else c->template SetPenaltyScaling<T>(v, i);
      s.ev(Obj().f("e", "scale").f("type", ty).f("i", i).f("v", v));
    }
  }
  template <class V> void multipliers(V& list, bool eq) {
    if (list.empty()) return;
    int i = r.below(static_cast<int>(list.size()));
    VectorXd l = vec(static_cast<int>(list[i]->GetDuals().size()), 3);
    if (!eq) for (int k = 0; k < l.size(); ++k) l(k) = -std::abs(l(k)) * r.pick({0.0, 1.0, 1.0});
    list[i]->GetDuals() = l;
    s.ev(Obj().f("e", "lam").f("type", eq ? "eq" : "ineq").f("i", i).raw("v", jvec(l)));
  }
  template <class V> void penalties(V& list, bool eq) {   // rows of different weight
    if (list.empty()) return;
    int i = r.below(static_cast<int>(list.size()));
    VectorXd v(list[i]->GetPenalty().size());
    for (int k = 0; k < v.size(); ++k) v(k) = r.pick({0.5, 1.0, 3.0, 10.0, 64.0});
    list[i]->GetPenalty() = v;
    s.ev(Obj().f("e", "penvec").f("type", eq ? "eq" : "ineq").f("i", i).raw("v", jvec(v)));
  }
  template <class V> void one(V& list, bool eq) {   // a single constraint's term
    if (list.empty()) return;
    int i = r.below(static_cast<int>(list.size()));
    auto& v = *list[i];
    VectorXd x = vec(n), u = vec(m);
    Obj o = Obj().f("e", "one").f("type", eq ? "eq" : "ineq").f("i", i).raw("x", jvec(x)).raw("u", jvec(u));
    int w = r.below(4);
    op("constraint term");
    if (w == 0) o.f("J", v.AugLag(x, u));
    else if (w == 1) { VectorXd dx = VectorXd::Constant(n, 7), du = VectorXd::Constant(m, 7); v.AugLagGradient(x, u, dx, du); o.raw("dx", jvec(dx)).raw("du", jvec(du)); }
    else if (w == 2) {
      MatrixXd xx = MatrixXd::Constant(n, n, 7), xu = MatrixXd::Constant(n, m, 7), uu = MatrixXd::Constant(m, m, 7);
      v.AugLagHessian(x, u, xx, xu, uu, false);
      o.raw("xx", jmat(xx)).raw("xu", jmat(xu)).raw("uu", jmat(uu));
    } else {
      v.CalcExpansion(x, u);
      VectorXd cv = VectorXd::Constant(v.OutputDimension(), 7);
      MatrixXd J = MatrixXd::Constant(v.OutputDimension(), n + m, 7);
      v.Evaluate(x, u, cv);
      v.Jacobian(x, u, J);
      o.raw("c", jvec(cv)).raw("jac", jmat(J)).f("n", v.StateDimension()).f("m", v.ControlDimension());
    }
    o.f("w", w);
    s.ev(o);
  }
  void eval() {
    VectorXd x = vec(n), u = vec(m);
    Obj o = Obj().f("e", "eval").raw("x", jvec(x)).raw("u", jvec(u));
    int w = r.below(3);
    op("evaluation");
    if (w == 0) o.f("J", c->Evaluate(x, u));
    else if (w == 1) { VectorXd dx = VectorXd::Constant(n, 7), du = VectorXd::Constant(m, 7); c->Gradient(x, u, dx, du); o.raw("dx", jvec(dx)).raw("du", jvec(du)); }
    else {
      MatrixXd xx = MatrixXd::Constant(n, n, 7), xu = MatrixXd::Constant(n, m, 7), uu = MatrixXd::Constant(m, m, 7);
      c->Hessian(x, u, xx, xu, uu);
      o.raw("xx", jmat(xx)).raw("xu", jmat(xu)).raw("uu", jmat(uu));
    }
    o.f("w", w);
    s.ev(o);
  }
  template <class V> std::string vals(V& list) {
    std::string o = "[";
    for (size_t i = 0; i < list.size(); ++i)
      o += (i ? "," : "") + Obj().raw("lam", jvec(list[i]->GetDuals())).raw("pen", jvec(list[i]->GetPenalty())).raw("c", jvec(list[i]->GetConstraintValue()))
                                .f("phi", list[i]->GetPenaltyScaling()).f("v", list[i]->MaxViolation()).f("p", list[i]->MaxPenalty()).raw("viol", jvec(list[i]->GetViolation())).str();
    return o + "]";
  }
  void state() {
    op("getters");
    Obj o = Obj().f("e", "state").raw("eq", vals(c->GetEqualityConstraints())).raw("ineq", vals(c->GetInequalityConstraints()));
    o.f("vinf", c->MaxViolation()).f("v1", c->template MaxViolation<1>()).f("v2", c->template MaxViolation<2>()).f("maxpen", c->MaxPenalty());
    o.f("num", c->NumConstraints()).f("neq", c->template NumConstraintFunctions<Eq>()).f("nin", c->template NumConstraintFunctions<In>());
    o.f("n", c->StateDimension()).f("m", c->ControlDimension());
    std::vector<ac::ConstraintInfo> info;
    bool pre = r.chance(30);
    if (pre) info.push_back(ac::ConstraintInfo{"first", 3, VectorXd::Zero(1), "none"});
    op("GetConstraintInfo");
    c->GetConstraintInfo(&info);
    std::string j = "[";
    for (size_t i = 0; i < info.size(); ++i) j += (i ? "," : "") + Obj().f("label", info[i].label).f("type", info[i].type).raw("viol", jvec(info[i].violation)).str();
    o.f("pre", pre).raw("info", j + "]");
    s.ev(o);
  }
  void run() {
    s.ev(Obj().f("e", "new").f("n", n).f("m", m));
    op("construction");
    c = std::make_unique<Cost>(n, m);
    if (r.chance(70)) set_cost();
    if (r.chance(20)) state();
    if (r.chance(80)) set_list<Eq>(true);
    if (r.chance(80)) set_list<In>(false);
    int k = r.range(8, 30);
    bool rows = r.chance(25);
    for (int i = 0; i < k; ++i) {
      int w = r.below(100);
      if (w < 4) set_list<Eq>(true);
      else if (w < 8) set_list<In>(false);
      else if (w < 12 || !have_cost) set_cost();
      else if (w < 24) { if (r.chance(50)) setter<Eq>(true); else setter<In>(false); }
      else if (w < 27 && rows) { if (r.chance(50)) penalties(c->GetEqualityConstraints(), true); else penalties(c->GetInequalityConstraints(), false); }
      else if (w < 34) { if (r.chance(50)) multipliers(c->GetEqualityConstraints(), true); else multipliers(c->GetInequalityConstraints(), false); }
      else if (w < 58) eval();
      else if (w < 70) { if (r.chance(50)) one(c->GetEqualityConstraints(), true); else one(c->GetInequalityConstraints(), false); }
      else if (w < 78) { op("UpdateDuals"); c->UpdateDuals(); s.ev(Obj().f("e", "duals")); }
      else if (w < 86) { op("UpdatePenalties"); c->UpdatePenalties(); s.ev(Obj().f("e", "penalties")); }
      else if (w < 89) { op("ResetDualVariables"); c->ResetDualVariables(); s.ev(Obj().f("e", "reset")); }
      else state();
    }
    state();
  }
};
void alcost(Rng& r, Sink& s) {
  int w = r.below(4);
  if (w == 0) { W<2, 1> t{r, s, 2, 1, {}}; t.run(); }
  else if (w == 1) { W<3, 2> t{r, s, 3, 2, {}}; t.run(); }
  else { W<Eigen::Dynamic, Eigen::Dynamic> t{r, s, r.range(1, 4), r.range(1, 3), {}}; t.run(); }
}
Reg ra("alcost", alcost);

template <class C> void cone_of(Rng& r, Sink& s, const char* name) {
  int d = r.range(1, 5);
  VectorXd x(d), b(d);
  for (int i = 0; i < d; ++i) { x(i) = r.pick({0.0, -0.0, 1e-300, -1e-300, 1e300, -1e300, r.dy(4, 8), r.dy(4, 8), r.dy(1, 1024)}); b(i) = r.dy(4, 8); }
  VectorXd p = VectorXd::Constant(d, 7);
  MatrixXd J = MatrixXd::Zero(d, d), H = MatrixXd::Constant(d, d, 7), H2;
  op("cone projection");
  C::Projection(x, p);
  VectorXd q = x;
  C::Projection(q, q);                       // in place
  C::Jacobian(x, J);
  C::Hessian(x, b, H);
  s.ev(Obj().f("e", "cone").f("cone", name).raw("x", jvec(x)).raw("p", jvec(p)).raw("q", jvec(q)).raw("J", jmat(J)).raw("H", jmat(H)));
}
void cones(Rng& r, Sink& s) {
  for (int i = 0; i < 6; ++i) {
    int w = r.below(5);
    if (w == 0) cone_of<ac::ZeroCone>(r, s, "zero");
    else if (w == 1) cone_of<ac::IdentityCone>(r, s, "all");
    else if (w == 2) cone_of<ac::NegativeOrthant>(r, s, "neg");
    else if (w == 3) cone_of<Eq::DualCone>(r, s, "all");
    else cone_of<In::DualCone>(r, s, "neg");
  }
}
Reg rc("cones", cones);
}  // namespace
