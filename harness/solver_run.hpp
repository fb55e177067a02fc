// Drives iLQR and the augmented Lagrangian solver through their public interface, one step at a time and as whole
// solves, on random polynomial problems; records everything spec/Solver.tla needs to check each step.
#pragma once
#include <fstream>
#include <iostream>
#include <thread>
#include "prob.hpp"
#include "altro/augmented_lagrangian/al_solver.hpp"
#include "altro/ilqr/ilqr.hpp"

using namespace vf;
using altro::SolverOptions;
using altro::SolverStats;
using altro::SolverStatus;

static std::string opts_json(const SolverOptions& o) {
  return Obj().f("maxTotal", o.max_iterations_total).f("maxOuter", o.max_iterations_outer).f("maxInner", o.max_iterations_inner)
      .f("costTol", o.cost_tolerance).f("gradTol", o.gradient_tolerance)
      .f("regFactor", o.bp_reg_increase_factor).f("regInit", o.bp_reg_initial).f("regMax", o.bp_reg_max).f("regMin", o.bp_reg_min)
      .f("regFail", o.bp_reg_fail_threshold).f("bounds", o.check_forwardpass_bounds).f("stateMax", o.state_max).f("controlMax", o.control_max)
      .f("lsMax", o.line_search_max_iterations).f("lsLo", o.line_search_lower_bound).f("lsHi", o.line_search_upper_bound)
      .f("lsFactor", o.line_search_decrease_factor).f("conTol", o.constraint_tolerance).f("maxPen", o.maximum_penalty)
      .f("initPen", o.initial_penalty).f("resetDuals", o.reset_duals).f("nthreads", o.nthreads).f("tpt", o.tasks_per_thread).str();
}

template <int n, int m> static std::string jX(const altro::Trajectory<n, m>& Z) {
  std::string s = "[";
  for (int k = 0; k <= Z.NumSegments(); ++k) s += (k ? "," : "") + jvec(Z.State(k));
  return s + "]";
}
template <int n, int m> static std::string jU(const altro::Trajectory<n, m>& Z) {
  std::string s = "[";
  for (int k = 0; k <= Z.NumSegments(); ++k) s += (k ? "," : "") + jvec(Z.Control(k));
  return s + "]";
}
template <int n, int m> static std::string jT(const altro::Trajectory<n, m>& Z, bool step) {
  std::string s = "[";
  for (int k = 0; k <= Z.NumSegments(); ++k) s += (k ? "," : "") + num(step ? Z.GetStep(k) : Z.GetTime(k));
  return s + "]";
}
static std::string hist_json(const SolverStats& s) {
  return Obj().f("cost", s.cost).f("alpha", s.alpha).f("z", s.improvement_ratio).f("grad", s.gradient).f("dJ", s.cost_decrease)
      .f("reg", s.regularization).f("viol", s.violations).f("pen", s.max_penalty).str();
}

struct Profile {
  std::string name;
  bool al = true;
  GenOpts gen;
  int maxN = 5;
  int optmode = 0;   // 0 defaults with small perturbations, 1 tight budgets, 2 regularization stress, 3 bounds stress
  bool step = true;
  bool whole = true;
};

static void rand_opts(Rng& r, const Profile& p, SolverOptions* o) {
  o->max_iterations_inner = r.pick({2, 3, 5, 8});
  o->max_iterations_outer = r.pick({1, 2, 3, 4});
  o->max_iterations_total = r.pick({3, 6, 12, 300});
  o->cost_tolerance = r.pick({1e-4, 1e-2, 1.0});
  o->gradient_tolerance = r.pick({1e-2, 1e-1, 1.0});
  o->constraint_tolerance = r.pick({1e-4, 1e-2, 0.25});
  o->initial_penalty = r.pick({1.0, 1.0, 2.0, 0.5, 0.0});
  o->reset_duals = r.chance(70);
  o->maximum_penalty = r.pick({1e8, 1e8, 50.0, 1000.0});
  o->bp_reg_initial = r.pick({0.0, 0.0, 0.5, 2.0});
  o->bp_reg_increase_factor = r.pick({1.6, 2.0, 4.0});
  o->bp_reg_min = r.pick({1e-8, 0.0078125, 0.25});
  o->line_search_max_iterations = r.pick({20, 5, 3, 2, 1});
  o->line_search_decrease_factor = r.pick({2.0, 2.0, 4.0, 1.25});
  o->line_search_lower_bound = r.pick({1e-8, 1e-8, 0.25, 0.5, 0.9375});
  o->line_search_upper_bound = r.pick({10.0, 10.0, 1.25, 1.0625});
  if (p.optmode == 1) {
    o->max_iterations_inner = r.range(1, 4);
    o->max_iterations_outer = r.range(1, 3);
    o->max_iterations_total = r.range(1, 9);
    o->maximum_penalty = r.pick({1e8, 5.0, 50.0, 10.0, 100.0, 1.0});
    o->initial_penalty = r.pick({1.0, 10.0});
  }
  if (p.optmode == 2) {
    o->bp_reg_max = r.pick({1e8, 8.0, 2.0, 64.0});
    o->bp_reg_fail_threshold = r.pick({1, 2, 3, 100});
    o->bp_reg_min = r.pick({1e-8, 0.0078125, 0.25, 1.0});
  }
  if (p.optmode == 4) {   // many iterations
    o->max_iterations_inner = r.pick({10, 25, 60, 100});
    o->max_iterations_outer = r.pick({6, 12, 30});
    o->max_iterations_total = r.pick({40, 100, 300, 1000});
    o->cost_tolerance = r.pick({1e-2, 1e-4, 1e-6, 1e-8});
    o->gradient_tolerance = r.pick({1e-1, 1e-2, 1e-4, 1e-6});
    o->constraint_tolerance = r.pick({1e-4, 1e-6, 1e-8});
    o->initial_penalty = r.pick({1.0, 0.125, 10.0, 100.0});
    o->maximum_penalty = r.pick({1e8, 1e8, 1e5, 1e4});
    o->bp_reg_min = r.pick({1e-8, 1.0, 8.0, 64.0});
    o->line_search_max_iterations = r.pick({20, 20, 10, 2});
  }
  if (p.optmode == 5) {   // many trials, only the shortest steps are within the bounds
    o->control_max = r.pick({4.0, 16.0, 64.0, 1024.0});
    o->check_forwardpass_bounds = true;
    o->line_search_max_iterations = r.pick({20, 20, 30, 12});
    o->line_search_decrease_factor = r.pick({2.0, 4.0, 10.0});
    o->line_search_lower_bound = r.pick({1e-8, 0.25});
    o->max_iterations_inner = r.range(1, 4);
  }
  if (p.optmode == 3) {
    o->state_max = r.pick({1e8, 4.0, 3.0, 6.0, 10.0});
    o->control_max = r.pick({1e8, 1.0, 2.0, 4.0, 8.0});
    o->check_forwardpass_bounds = r.chance(85);
  }
}

template <int n, int m>
class Runner {
 public:
  using AL = altro::augmented_lagrangian::AugmentedLagrangianiLQR<n, m>;
  using IL = altro::ilqr::iLQR<n, m>;
  Runner(const ProbPar& P, Sink& s) : P_(P), s_(s) {}

  // ------------------------------------------------------------ observations
  std::string lam(AL& al) { return per_con(al, 0); }
  std::string pen(AL& al) { return per_con(al, 1); }
  std::string cval(AL& al) { return per_con(al, 2); }
  std::string per_con(AL& al, int what) {
    std::string o = "[";
    for (int k = 0; k <= P_.N; ++k) {
      o += k ? ",[" : "[";
      bool first = true;
      auto put = [&](auto& v) {
        for (auto& c : v) {
          o += (first ? "" : ",") + (what == 0 ? jvec(c->GetDuals()) : what == 1 ? jvec(c->GetPenalty()) : jvec(c->GetConstraintValue()));
          first = false;
        }
      };
      put(al.GetALCost(k)->GetEqualityConstraints());
      put(al.GetALCost(k)->GetInequalityConstraints());
      o += "]";
    }
    return o + "]";
  }
  std::string expansions(IL& il) {
    std::string e = "[";
    for (int k = 0; k <= P_.N; ++k) {
      auto& f = il.GetKnotPointFunction(k);
      auto& c = f.GetCostExpansion();
      Obj o;
      o.raw("x", jvec(c.dx())).raw("u", jvec(c.du())).raw("xx", jmat(c.dxdx())).raw("uu", jmat(c.dudu())).raw("xu", jmat(c.dxdu()));
      if (k < P_.N) {
        MatrixXd A = f.GetDynamicsExpansion().GetA(), B = f.GetDynamicsExpansion().GetB();
        o.raw("A", jmat(A)).raw("B", jmat(B));
      }
      e += (k ? "," : "") + o.str();
    }
    return e + "]";
  }
  std::string gains(IL& il) {
    std::string e = "[";
    for (int k = 0; k <= P_.N; ++k) {
      auto& f = il.GetKnotPointFunction(k);
      Obj o;
      o.raw("K", jmat(f.GetFeedbackGain())).raw("d", jvec(f.GetFeedforwardGain())).raw("S", jmat(f.GetCostToGoHessian()))
          .raw("s", jvec(f.GetCostToGoGradient())).f("dv", f.GetCostToGoDelta(1.0)).f("dvh", f.GetCostToGoDelta(0.5));
      e += (k ? "," : "") + o.str();
    }
    return e + "]";
  }
  std::string result(IL& il, AL* al, std::shared_ptr<altro::Trajectory<n, m>> Z) {
    SolverStats& st = il.GetStats();
    Obj o;
    o.f("st", static_cast<int>(al ? al->GetStatus() : il.GetStatus())).f("ist", static_cast<int>(il.GetStatus()));
    o.f("inner", st.iterations_inner).f("total", st.iterations_total).f("outer", st.iterations_outer).f("J0", st.initial_cost);
    o.raw("X", jX(*Z)).raw("U", jU(*Z)).raw("t", jT(*Z, false)).raw("h", jT(*Z, true)).raw("hist", hist_json(st));
    o.f("rho", il.GetRegularization());
    if (al) o.raw("lam", lam(*al)).raw("pen", pen(*al));
    return o.str();
  }

  // ------------------------------------------------------------ one inner solve, step by step
  // `tw` moves the tolerances onto (or just past) the values they are compared with, before a decision
  void tweak(SolverOptions& o, const SolverOptions& from, bool inner) {
    if (inner) { o.cost_tolerance = from.cost_tolerance; o.gradient_tolerance = from.gradient_tolerance; }
    else { o.constraint_tolerance = from.constraint_tolerance; o.maximum_penalty = from.maximum_penalty; }
    s_.ev(Obj().f("e", "tweak").raw("opts", opts_json(o)));
  }
  static double edge(double v, Rng& r) { return r.chance(60) ? v : std::nextafter(v, r.chance(70) ? 1e300 : -1e300); }
  void inner(IL& il, std::shared_ptr<altro::Trajectory<n, m>> Z, Rng* tw = nullptr, const SolverOptions* base = nullptr) {
    SolverStats& st = il.GetStats();
    const SolverOptions plain = base ? *base : il.GetOptions();
    bool tweaked = base != nullptr;
    op("setup");
    il.SolveSetup();
    s_.ev(Obj().f("e", "setup").f("rho", il.GetRegularization()).f("st", static_cast<int>(il.GetStatus())).f("inner", st.iterations_inner).f("total", st.iterations_total).raw("task", js(il.GetTaskAssignment())));
    op("rollout");
    il.Rollout();
    s_.ev(Obj().f("e", "rollout").raw("X", jX(*Z)).raw("U", jU(*Z)));
    op("cost");
    st.initial_cost = il.Cost();
    s_.ev(Obj().f("e", "cost").f("J", st.initial_cost));
    for (int it = 0; it < il.GetOptions().max_iterations_inner; ++it) {
      op("expand");
      il.UpdateExpansions();
      s_.ev(Obj().f("e", "expand").raw("costs", jvec(il.GetCosts())).raw("exp", expansions(il)));
      op("bp");
      il.BackwardPass();
      s_.ev(Obj().f("e", "bp").raw("g", gains(il)).f("rho", il.GetRegularization()).f("reg", st.regularization.back()).f("st", static_cast<int>(il.GetStatus())));
      if (il.GetStatus() == SolverStatus::kBackwardPassRegularizationFailed) break;
      op("fp");
      il.ForwardPass();
      s_.ev(Obj().f("e", "fp").raw("X", jX(*Z)).raw("U", jU(*Z)).f("st", static_cast<int>(il.GetStatus())).f("rho", il.GetRegularization())
                .raw("costs", jvec(il.GetCosts())).f("cost", st.cost.back()).f("alpha", st.alpha.back()).f("z", st.improvement_ratio.back()));
      op("stats");
      size_t i = st.cost.size() - 1;  // the row of this iteration
      il.UpdateConvergenceStatistics();
      s_.ev(Obj().f("e", "stats").f("inner", st.iterations_inner).f("total", st.iterations_total).f("rows", st.cost.size())
                .f("dJ", i < st.cost_decrease.size() ? st.cost_decrease[i] : 0.0).f("grad", i < st.gradient.size() ? st.gradient[i] : 0.0)
                .f("viol", i < st.violations.size() ? st.violations[i] : 0.0));
      if (tw && std::isfinite(st.cost_decrease.back()) && std::isfinite(st.gradient.back()) && tw->chance(35)) {
        SolverOptions t = plain;
        int c = tw->below(3);
        t.cost_tolerance = c != 1 ? edge(st.cost_decrease.back(), *tw) : 1e300;
        t.gradient_tolerance = c != 0 ? edge(st.gradient.back(), *tw) : 1e300;
        tweak(il.GetOptions(), t, true);
        tweaked = true;
      } else if (tweaked) { tweak(il.GetOptions(), plain, true); tweaked = false; }
      op("done");
      bool d = il.IsDone();
      s_.ev(Obj().f("e", "done").f("ret", d).f("st", static_cast<int>(il.GetStatus())));
      if (d) break;
    }
    il.WrapUp();
  }

  std::string info_json(AL& al, bool sorted) {
    std::string o = "[";
    auto v = al.GetConstraintInfo(sorted);
    for (size_t i = 0; i < v.size(); ++i) {
      o += (i ? "," : "") + Obj().f("label", v[i].label).f("index", v[i].index).raw("viol", jvec(v[i].violation)).f("type", v[i].type)
                                .f("str", v[i].violation.size() > 0 ? v[i].ToString(4).substr(0, v[i].ToString(4).find('[')) : std::string("")).str();
    }
    return o + "]";
  }
  // queries on the constrained solver at an arbitrary trajectory and at its own
  void queries(AL& al, Rng& r) {
    auto Zq = std::make_shared<altro::Trajectory<n, m>>(P_.n, P_.m, P_.N);
    for (int k = 0; k <= P_.N; ++k) {
      for (int i = 0; i < P_.n; ++i) Zq->State(k)(i) = r.dy(3, 4);
      for (int i = 0; i < P_.m; ++i) Zq->Control(k)(i) = r.dy(3, 4);
      Zq->SetTime(k, P_.t[k]); Zq->SetStep(k, P_.h[k]);
    }
    op("query");
    if (r.chance(40)) al.MaxViolation();            // values of another trajectory are stored
    if (r.chance(20)) al.template GetMaxViolation<1>();
    double vinf = 0, vinf2 = 0;
    int how = r.below(4);                            // where the constraints get evaluated
    if (how == 0) vinf = al.MaxViolation(*Zq);
    else if (how == 1) al.GetiLQRSolver().Cost(*Zq);
    else for (int k = 0; k <= P_.N; ++k) {
      auto c = al.GetALCost(k);
      if (how == 2) { c->Evaluate(Zq->State(k), Zq->Control(k)); continue; }
      for (auto& v : c->GetEqualityConstraints()) v->CalcExpansion(Zq->State(k), Zq->Control(k));
      for (auto& v : c->GetInequalityConstraints()) v->CalcExpansion(Zq->State(k), Zq->Control(k));
    }
    bool late = r.chance(50);
    if (!late) vinf2 = al.template GetMaxViolation<Eigen::Infinity>();
    std::string inf, sinf;
    if (r.chance(50)) { inf = info_json(al, false); sinf = info_json(al, true); }
    else { sinf = info_json(al, true); inf = info_json(al, false); }
    if (late) vinf2 = al.template GetMaxViolation<Eigen::Infinity>();
    if (how != 0) vinf = al.MaxViolation(*Zq);
    double v1 = al.template MaxViolation<1>(*Zq);
    double v2 = al.template MaxViolation<2>(*Zq);
    double vown = al.MaxViolation();
    std::vector<int> cnt;
    for (int k = 0; k <= P_.N; ++k) cnt.push_back(al.NumConstraints(k));
    s_.ev(Obj().f("e", "query").raw("X", jX(*Zq)).raw("U", jU(*Zq)).f("vinf", vinf).f("vinf2", vinf2).f("v1", v1).f("v2", v2).f("vown", vown)
              .raw("info", inf).raw("sorted", sinf).f("cnt", cnt).f("tot", al.NumConstraints()).f("maxpen", al.GetMaxPenalty()));
  }
  // augmented cost, gradient and Hessian at arbitrary points
  void alcost(AL& al, Rng& r) {
    op("aleval");
    for (int k = 0; k <= P_.N; ++k) {
      VectorXd x(P_.n), u(P_.m);
      for (int i = 0; i < P_.n; ++i) x(i) = r.dy(2, 4);
      for (int i = 0; i < P_.m; ++i) u(i) = r.dy(2, 4);
      auto c = al.GetALCost(k);
      VectorXd dx(P_.n), du(P_.m);
      MatrixXd xx(P_.n, P_.n), xu(P_.n, P_.m), uu(P_.m, P_.m);
      dx.setConstant(7); du.setConstant(7); xx.setConstant(7); xu.setConstant(7); uu.setConstant(7);
      double J = 0;
      int ord = r.below(3);
      if (ord == 0) J = c->Evaluate(x, u);
      if (ord != 2) { c->Gradient(x, u, dx, du); c->Hessian(x, u, xx, xu, uu); }
      else { c->Hessian(x, u, xx, xu, uu); c->Gradient(x, u, dx, du); }
      if (ord != 0) J = c->Evaluate(x, u);
      s_.ev(Obj().f("e", "aleval").f("k", k + 1).raw("x", jvec(x)).raw("u", jvec(u)).f("J", J).raw("dx", jvec(dx)).raw("du", jvec(du))
                .raw("xx", jmat(xx)).raw("xu", jmat(xu)).raw("uu", jmat(uu)));
    }
    s_.ev(Obj().f("e", "alsame").raw("lam", lam(al)).raw("pen", pen(al)));
  }

  void al_steps(AL& al, std::shared_ptr<altro::Trajectory<n, m>> Z, Rng& r, bool q, bool edges = false) {
    SolverStats& st = al.GetStats();
    const SolverOptions plain = al.GetOptions();
    bool tweaked = false;
    op("alinit");
    al.Init();
    s_.ev(Obj().f("e", "alinit").raw("lam", lam(al)).raw("pen", pen(al)).f("viol", st.violations.back()).f("mpen", st.max_penalty.back()).f("rows", st.cost.size())
              .f("total", st.iterations_total).f("outer", st.iterations_outer).f("inner", st.iterations_inner)
              .raw("X", jX(*Z)).raw("U", jU(*Z)));
    for (int it = 0; it < al.GetOptions().max_iterations_outer; ++it) {
      inner(al.GetiLQRSolver(), Z, edges ? &r : nullptr, edges ? &plain : nullptr);
      op("duals");
      std::string c = cval(al);
      al.UpdateDuals();
      s_.ev(Obj().f("e", "duals").raw("c", c).raw("lam", lam(al)).raw("pen", pen(al)));
      op("alstats");
      al.UpdateConvergenceStatistics();
      s_.ev(Obj().f("e", "alstats").f("outer", st.iterations_outer).f("viol", st.violations.back()).f("mpen", st.max_penalty.back()).f("rows", st.cost.size()));
      if (edges && std::isfinite(st.violations.back()) && r.chance(50)) {
        SolverOptions t = al.GetOptions();
        int c = r.below(3);
        t.constraint_tolerance = c != 1 ? edge(st.violations.back(), r) : -1.0;
        t.maximum_penalty = c != 0 ? edge(st.max_penalty.back(), r) : 1e300;
        tweak(al.GetOptions(), t, false);
        tweaked = true;
      } else if (tweaked) { tweak(al.GetOptions(), plain, false); tweaked = false; }
      op("aldone");
      bool d = al.IsDone();
      s_.ev(Obj().f("e", "aldone").f("ret", d).f("st", static_cast<int>(d ? al.GetStatus() : SolverStatus::kUnsolved)));
      if (d) break;
      op("pens");
      al.UpdatePenalties();
      s_.ev(Obj().f("e", "pens").raw("lam", lam(al)).raw("pen", pen(al)));
    }
    s_.ev(Obj().f("e", "end").raw("res", result(al.GetiLQRSolver(), &al, Z)));
    if (q) { queries(al, r); alcost(al, r); }
  }

  void set_opts(SolverOptions& o, const SolverOptions& src) { o = src; }

  // manual duals / penalties, as a user could set them before a solve
  void perturb(AL& al, Rng& r) {
    op("perturb");
    double phi = r.pick({10.0, 2.0, 4.0, 1.0});
    double rho = r.pick({1.0, 0.5, 4.0, 2.5});
    int mode = r.below(3);
    if (mode >= 1) al.SetPenaltyScaling(phi);
    if (mode == 2) al.SetPenalty(rho);
    s_.ev(Obj().f("e", "setall").f("phi", mode >= 1 ? phi : -1.0).f("rho", mode == 2 ? rho : -1.0).raw("pen", pen(al)).raw("phis", phis(al)));
    // per-constraint values through the cost objects
    for (int k = 0; k <= P_.N; ++k) {
      auto c = al.GetALCost(k);
      int ne = static_cast<int>(c->GetEqualityConstraints().size()), ni = static_cast<int>(c->GetInequalityConstraints().size());
      for (int i = 0; i < ne + ni; ++i) {
        if (!r.chance(40)) continue;
        double v = r.pick({0.5, 2.0, 3.0, 8.0});
        double f = r.pick({1.0, 3.0, 10.0, 5.0});
        if (i < ne) { c->template SetPenalty<altro::constraints::Equality>(v, i); c->template SetPenaltyScaling<altro::constraints::Equality>(f, i); }
        else { c->template SetPenalty<altro::constraints::Inequality>(v, i - ne); c->template SetPenaltyScaling<altro::constraints::Inequality>(f, i - ne); }
        s_.ev(Obj().f("e", "setone").f("k", k + 1).f("i", i + 1).f("rho", v).f("phi", f).raw("pen", pen(al)).raw("phis", phis(al)));
      }
    }
    // multipliers of earlier solves (kept when reset_duals is off)
    for (int k = 0; k <= P_.N; ++k) {
      for (auto& e : al.GetALCost(k)->GetEqualityConstraints()) for (int i = 0; i < e->GetDuals().size(); ++i) e->GetDuals()(i) = r.dy(2, 4);
      for (auto& e : al.GetALCost(k)->GetInequalityConstraints()) for (int i = 0; i < e->GetDuals().size(); ++i) e->GetDuals()(i) = r.chance(30) ? 0.0 : -std::fabs(r.dy(2, 4));
    }
    s_.ev(Obj().f("e", "userlam").raw("lam", lam(al)));
  }
  std::string phis(AL& al) {
    std::string o = "[";
    for (int k = 0; k <= P_.N; ++k) {
      std::vector<double> v;
      for (auto& e : al.GetALCost(k)->GetEqualityConstraints()) v.push_back(e->GetPenaltyScaling());
      for (auto& e : al.GetALCost(k)->GetInequalityConstraints()) v.push_back(e->GetPenaltyScaling());
      o += (k ? "," : "") + js(v);
    }
    return o + "]";
  }
  // hands the trajectory to the solver, sometimes before its times, states and controls get their values
  template <class SV> static void attach(SV& sol, std::shared_ptr<altro::Trajectory<n, m>> Z, Rng& r) {
    if (r.chance(60)) { sol.SetTrajectory(Z); return; }
    const altro::Trajectory<n, m> full(*Z);
    for (int k = 0; k <= Z->NumSegments(); ++k) {
      Z->State(k).setConstant(-2.5); Z->Control(k).setConstant(1.5);
      Z->SetTime(k, 9.0f - static_cast<float>(k)); Z->SetStep(k, 0.75f);
    }
    sol.SetTrajectory(Z);
    *Z = full;
  }
  void reset_guess(std::shared_ptr<altro::Trajectory<n, m>> Z) { *Z = *P_.traj<n, m>(); }

  void run(const Profile& p, Rng& r) {
    if (p.name == "resolve") { if (p.al) resolve<AL>(p, r); else resolve<IL>(p, r); return; }
    CallLog log;
    SolverOptions o;
    rand_opts(r, p, &o);
    if (p.name == "threads") { o.nthreads = r.range(1, 4); o.tasks_per_thread = r.range(1, 3); }
    altro::problem::Problem prob = P_.make(&log);
    if (p.al) {
      AL al(prob);
      al.GetOptions() = o;
      auto Z = P_.traj<n, m>();
      attach(al, Z, r);
      s_.ev(Obj().f("e", "start").f("al", true).f("cb", false).raw("opts", opts_json(o)).raw("X", jX(*Z)).raw("U", jU(*Z)).raw("lam", lam(al)).raw("pen", pen(al)).raw("phis", phis(al)));
      bool pert = r.chance(50);
      if (pert) perturb(al, r);
      snap(al);
      al_steps(al, Z, r, true);
      if (p.whole) {
        // a fresh solver doing the same as one call
        AL al2(prob);
        al2.GetOptions() = o;
        auto Z2 = P_.traj<n, m>();
        attach(al2, Z2, r);
        if (pert) copy_mult(al2);
        op("alsolve");
        al2.Solve();
        s_.ev(Obj().f("e", "whole").f("first", true).raw("res", result(al2.GetiLQRSolver(), &al2, Z2)));
      }
      // second solve on the same solver, continuing from its state, possibly with other options
      reset_guess(Z);
      rand_opts(r, p, &o);
      if (r.chance(50)) o.initial_penalty = 0.0;
      if (r.chance(6)) o.max_iterations_outer = 0;   // nothing may be left of the solve before
      if (p.name == "threads") { o.nthreads = r.range(1, 4); o.tasks_per_thread = r.range(1, 3); }
      al.GetOptions() = o;
      s_.ev(Obj().f("e", "again").raw("opts", opts_json(o)).raw("X", jX(*Z)).raw("U", jU(*Z)));
      al_steps(al, Z, r, r.chance(40), r.chance(50));
    } else {
      IL il(prob);
      il.GetOptions() = o;
      auto Z = P_.traj<n, m>();
      attach(il, Z, r);
      // a violation measure of the caller's, reported with the statistics
      const bool cb = r.chance(40);
      if (cb) il.SetConstraintCallback([Z] { return std::abs(Z->State(Z->NumSegments())(0)); });
      s_.ev(Obj().f("e", "start").f("al", false).f("cb", cb).raw("opts", opts_json(o)).raw("X", jX(*Z)).raw("U", jU(*Z)));
      il.GetStats().Reset();
      s_.ev(Obj().f("e", "reset").f("rows", il.GetStats().cost.size()).f("total", il.GetStats().iterations_total).f("inner", il.GetStats().iterations_inner));
      inner(il, Z);
      s_.ev(Obj().f("e", "end").raw("res", result(il, nullptr, Z)));
      if (p.whole) {
        IL il2(prob);
        il2.GetOptions() = o;
        auto Z2 = P_.traj<n, m>();
        attach(il2, Z2, r);
        if (cb) il2.SetConstraintCallback([Z2] { return std::abs(Z2->State(Z2->NumSegments())(0)); });
        op("solve");
        il2.Solve();
        s_.ev(Obj().f("e", "whole").f("first", true).raw("res", result(il2, nullptr, Z2)));
        reset_guess(Z2);
        op("solve");
        il2.Solve();
        s_.ev(Obj().f("e", "whole").f("first", false).raw("res", result(il2, nullptr, Z2)));
      }
      if (r.chance(40)) {   // once more, with tolerances on the edge of the values they decide about
        reset_guess(Z);
        s_.ev(Obj().f("e", "again").raw("opts", opts_json(o)).raw("X", jX(*Z)).raw("U", jU(*Z)));
        il.GetStats().Reset();
        s_.ev(Obj().f("e", "reset").f("rows", il.GetStats().cost.size()).f("total", il.GetStats().iterations_total).f("inner", il.GetStats().iterations_inner));
        inner(il, Z, &r);
        s_.ev(Obj().f("e", "end").raw("res", result(il, nullptr, Z)));
      }
    }
  }
  // ------------------------------------------------------------ solving again, with other options, after moves
  struct Setting { SolverOptions o; std::vector<VectorXd> U; VectorXd x0; };
  template <class SV> static IL& ilqr_of(SV& s) { return get_il(s); }
  static IL& get_il(AL& a) { return a.GetiLQRSolver(); }
  static IL& get_il(IL& a) { return a; }
  static AL* get_al(AL& a) { return &a; }
  static AL* get_al(IL&) { return nullptr; }
  std::shared_ptr<altro::Trajectory<n, m>> setting_traj(const Setting& c) {
    auto Z = P_.traj<n, m>();
    for (int k = 0; k <= P_.N; ++k) Z->Control(k) = c.U[static_cast<size_t>(k)];
    return Z;
  }
  template <class SV>
  void resolve(const Profile& p, Rng& r) {
    CallLog log;
    altro::problem::Problem prob = P_.make(&log);
    std::vector<Setting> C(static_cast<size_t>(r.range(1, 3)));
    for (size_t j = 0; j < C.size(); ++j) {
      rand_opts(r, p, &C[j].o);
      C[j].o.reset_duals = true;
      if (!(C[j].o.initial_penalty > 0)) C[j].o.initial_penalty = 1.0;
      if (j > 0 && r.chance(30)) C[j].o = C[0].o;
      C[j].x0 = P_.x0;
      if (r.chance(50)) for (int i = 0; i < P_.n; ++i) C[j].x0(i) = r.dy(2, 4);
      for (int k = 0; k <= P_.N; ++k) { VectorXd u = P_.U0[static_cast<size_t>(k)]; if (j > 0 && k < P_.N) for (int i = 0; i < P_.m; ++i) u(i) = r.dy(1, 4); C[j].U.push_back(u); }
    }
    const double cb = r.pick({0.0, 2.5, -1.0});   // violation measure of a plain solver's caller
    auto measure = [cb](SV& sv) { if (!get_al(sv) && cb != 0.0) get_il(sv).SetConstraintCallback([cb] { return cb; }); };
    // what fresh solvers do with each setting
    for (size_t j = 0; j < C.size(); ++j) {
      op("solve");
      prob.SetInitialState(C[j].x0);
      SV s(prob);
      s.GetOptions() = C[j].o;
      measure(s);
      auto Z = setting_traj(C[j]);
      attach(s, Z, r);
      s.Solve();
      s_.ev(Obj().f("e", "ref").f("key", j + 1).raw("x0", jvec(C[j].x0)).raw("opts", opts_json(C[j].o)).raw("res", result(get_il(s), get_al(s), Z)));
    }
    auto s = std::make_unique<SV>(prob);
    measure(*s);
    bool moved = false, traj = false, assigned = false;
    std::shared_ptr<altro::Trajectory<n, m>> Z;
    int nops = r.range(3, 7), solves = 0, threads = 0;
    for (int q = 0; q < nops || solves < 2; ++q) {
      int c = r.below(100);
      if (q >= nops) c = 0;
      if (c < 55) {
        const size_t j = static_cast<size_t>(r.below(static_cast<int>(C.size())));
        SolverOptions o = C[j].o;
        if (threads < 3 && r.chance(assigned ? 60 : 20)) { o.nthreads = r.range(2, 3); ++threads; }
        const bool prof = r.chance(25);
        if (prof) { o.profiler_enable = true; o.profiler_output_to_file = r.chance(50); o.profile_filename = "p" + std::to_string(getpid()) + ".out"; }
        if (r.chance(20)) { o.verbose = r.pick({altro::LogLevel::kSilent, altro::LogLevel::kOuter, altro::LogLevel::kInner, altro::LogLevel::kInnerDebug}); o.header_frequency = r.range(1, 5); }
        s->GetOptions() = o;
        prob.SetInitialState(C[j].x0);
        auto G = setting_traj(C[j]);
        if (!traj || r.chance(30)) { Z = G; op("settraj"); attach(*s, Z, r); traj = true; } else *Z = *G;
        op("again");
        s->Solve();
        ++solves;
        s_.ev(Obj().f("e", "resolve").f("key", j + 1).f("moved", moved).f("n", solves).f("prof", prof).raw("x0", jvec(C[j].x0)).raw("res", result(get_il(*s), get_al(*s), Z)));
        if (prof) unlink((o.log_directory + "/" + o.profile_filename).c_str());
      } else if (c < 60) {
        op("assign");   // the work assignment is the caller's from here on; it makes no difference to the results
        std::vector<int> v{0};
        for (int k = 1; k <= P_.N; ++k) if (r.chance(40)) v.push_back(k);
        v.push_back(P_.N + 1);
        get_il(*s).SetTaskAssignment(v);
        assigned = true;
      } else if (c < 80) {
        op("move");
        auto t = std::make_unique<SV>(std::move(*s));
        if (r.chance(70)) s.reset();
        s = std::move(t);
        moved = true;
      } else if (traj) {
        op("steps");
        IL& il = get_il(*s);
        il.SolveSetup(); il.Rollout(); il.Cost(); il.UpdateExpansions();
        if (r.chance(60)) { il.BackwardPass(); if (r.chance(60) && il.GetStatus() == SolverStatus::kUnsolved) { il.ForwardPass(); il.UpdateConvergenceStatistics(); il.IsDone(); } }
        if (AL* a = get_al(*s)) { if (r.chance(50)) { a->UpdateDuals(); a->UpdatePenalties(); } a->MaxViolation(); }
        il.GetOptions().bp_reg_initial = 77.0;    // replaced before the next solve
      }
    }
  }
  // bring al2's multipliers, penalties and scalings to what al had before its solve
  void copy_mult(AL& al2) {
    // replay the recorded settings: scaling and penalties as set by perturb()
    for (int k = 0; k <= P_.N; ++k) {
      auto c = al2.GetALCost(k);
      size_t j = 0;
      auto set = [&](auto& v) {
        for (auto& e : v) { e->GetDuals() = pre_lam_[k][j]; e->GetPenalty() = pre_pen_[k][j]; e->SetPenaltyScaling(pre_phi_[k][j]); ++j; }
      };
      set(c->GetEqualityConstraints());
      set(c->GetInequalityConstraints());
    }
  }
  void snap(AL& al) {
    pre_lam_.assign(static_cast<size_t>(P_.N) + 1, {}); pre_pen_ = pre_lam_; pre_phi_.assign(static_cast<size_t>(P_.N) + 1, {});
    for (int k = 0; k <= P_.N; ++k) {
      auto get = [&](auto& v) { for (auto& e : v) { pre_lam_[k].push_back(e->GetDuals()); pre_pen_[k].push_back(e->GetPenalty()); pre_phi_[k].push_back(e->GetPenaltyScaling()); } };
      get(al.GetALCost(k)->GetEqualityConstraints());
      get(al.GetALCost(k)->GetInequalityConstraints());
    }
  }
  std::vector<std::vector<VectorXd>> pre_lam_, pre_pen_;
  std::vector<std::vector<double>> pre_phi_;

 private:
  const ProbPar& P_;
  Sink& s_;
};

// instantiated once per translation unit (harness/solver.cpp is compiled with PART=0..3)
void go21(const ProbPar& P, const Profile& p, Rng& r, Sink& s);
void go32(const ProbPar& P, const Profile& p, Rng& r, Sink& s);
void godyn(const ProbPar& P, const Profile& p, Rng& r, Sink& s);
