// Runs the behaviours generated from spec/Control.tla on the real solvers.  A script is a table that says, for every control
// value the behaviour visits, what the problem looks like there, and a list of solves; the results are what Replay.tla compares.
#include "solver_run.hpp"

namespace {
struct Point { double u, x, jt, c, lu, luu; };
struct Call { SolverOptions o; bool zero; };
struct Script { long id; bool al, eq; std::vector<Point> tab; std::vector<Call> calls; };

double rat(const std::string& s) {
  auto p = s.find('/');
  return p == std::string::npos ? strtod(s.c_str(), nullptr) : strtod(s.substr(0, p).c_str(), nullptr) / strtod(s.substr(p + 1).c_str(), nullptr);
}
bool read(std::istream& in, Script* s) {
  std::string w;
  auto d = [&]() { in >> w; return rat(w); };
  auto i = [&]() { in >> w; return atoi(w.c_str()); };
  if (!(in >> s->id)) return false;
  s->al = i(); s->eq = i();
  s->tab.resize(static_cast<size_t>(i()));
  for (Point& p : s->tab) { p.u = d(); p.x = d(); p.jt = d(); p.c = d(); p.lu = d(); p.luu = d(); }
  s->calls.resize(static_cast<size_t>(i()));
  for (Call& c : s->calls) {
    SolverOptions& o = c.o;
    o.max_iterations_total = i(); o.max_iterations_outer = i(); o.max_iterations_inner = i();
    o.cost_tolerance = d(); o.gradient_tolerance = d(); o.bp_reg_increase_factor = d(); o.bp_reg_initial = d(); o.bp_reg_max = d(); o.bp_reg_min = d();
    o.bp_reg_fail_threshold = i(); o.check_forwardpass_bounds = i(); o.state_max = d(); o.control_max = d(); o.line_search_max_iterations = i();
    o.line_search_lower_bound = d(); o.line_search_upper_bound = d(); o.line_search_decrease_factor = d(); o.constraint_tolerance = d();
    o.maximum_penalty = d(); o.initial_penalty = d(); o.reset_duals = i(); c.zero = i();
  }
  return static_cast<bool>(in);
}

struct Table {
  std::vector<Point> t;
  const Point& at(double u) const {
    static const Point none{0, 0, 1e30, 0, 0, 1};
    const Point* b = &none;
    double best = 1e-11 * (1 + std::fabs(u));
    for (const Point& p : t) if (std::fabs(p.u - u) <= best) { best = std::fabs(p.u - u); b = &p; }
    return *b;
  }
};
using Tab = std::shared_ptr<const Table>;

class Dyn : public altro::problem::DiscreteDynamics {
 public:
  using altro::problem::DiscreteDynamics::Evaluate;
  using altro::problem::DiscreteDynamics::Jacobian;
  using altro::problem::DiscreteDynamics::Hessian;
  Dyn(Tab t, int k) : t_(std::move(t)), k_(k) {}
  int StateDimension() const override { return 1; }
  int ControlDimension() const override { return 1; }
  bool HasHessian() const override { return false; }
  void Evaluate(const VectorXdRef&, const VectorXdRef& u, float, float, Eigen::Ref<VectorXd> xn) override { xn(0) = k_ == 0 ? t_->at(u(0)).x : 0.0; }
  void Jacobian(const VectorXdRef&, const VectorXdRef&, float, float, Eigen::Ref<MatrixXd> jac) override { jac.setZero(); }
  void Hessian(const VectorXdRef&, const VectorXdRef&, float, float, const VectorXdRef&, Eigen::Ref<MatrixXd> h) override { h.setZero(); }
 private:
  Tab t_;
  int k_;
};
class Cst : public altro::problem::CostFunction {
 public:
  using altro::problem::CostFunction::Gradient;
  using altro::problem::CostFunction::Hessian;
  Cst(Tab t, int k) : t_(std::move(t)), k_(k) {}
  int StateDimension() const override { return 1; }
  int ControlDimension() const override { return 1; }
  double Evaluate(const VectorXdRef&, const VectorXdRef& u) override { return k_ == 0 ? t_->at(u(0)).jt : 0.0; }
  void Gradient(const VectorXdRef&, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    dx(0) = 0; du(0) = k_ == 0 ? t_->at(u(0)).lu : 0.0;
  }
  void Hessian(const VectorXdRef&, const VectorXdRef& u, Eigen::Ref<MatrixXd> xx, Eigen::Ref<MatrixXd> xu, Eigen::Ref<MatrixXd> uu) override {
    xx(0, 0) = 0; xu(0, 0) = 0; uu(0, 0) = k_ == 0 ? t_->at(u(0)).luu : k_ == 1 ? 1.0 : 0.0;
  }
 private:
  Tab t_;
  int k_;
};
template <class T> class Con : public altro::constraints::Constraint<T> {
 public:
  explicit Con(Tab t) : t_(std::move(t)) {}
  int StateDimension() const override { return 1; }
  int ControlDimension() const override { return 1; }
  int OutputDimension() const override { return 1; }
  void Evaluate(const VectorXdRef&, const VectorXdRef& u, Eigen::Ref<VectorXd> c) override { c(0) = t_->at(u(0)).c; }
  void Jacobian(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<MatrixXd> jac) override { jac.setZero(); }
 private:
  Tab t_;
};

constexpr int N = 2;
altro::problem::Problem make(const Script& s) {
  auto t = std::make_shared<Table>();
  t->t = s.tab;
  altro::problem::Problem p(N);
  for (int k = 0; k < N; ++k) p.SetDynamics(std::make_shared<Dyn>(t, k), k);
  for (int k = 0; k <= N; ++k) p.SetCostFunction(std::make_shared<Cst>(t, k), k);
  if (s.al) {
    if (s.eq) p.SetConstraint(std::make_shared<Con<altro::constraints::Equality>>(t), 0);
    else p.SetConstraint(std::make_shared<Con<altro::constraints::Inequality>>(t), 0);
  }
  p.SetInitialState(VectorXd::Zero(1));
  return p;
}

template <int n, int m> struct Play {
  using AL = altro::augmented_lagrangian::AugmentedLagrangianiLQR<n, m>;
  using IL = altro::ilqr::iLQR<n, m>;
  static IL& get_il(AL& a) { return a.GetiLQRSolver(); }
  static IL& get_il(IL& a) { return a; }
  static AL* get_al(AL& a) { return &a; }
  static AL* get_al(IL&) { return nullptr; }
  static std::string result(IL& il, AL* al, altro::Trajectory<n, m>& Z) {
    SolverStats& st = il.GetStats();
    Obj o;
    o.f("st", static_cast<int>(al ? al->GetStatus() : il.GetStatus())).f("ist", static_cast<int>(il.GetStatus()));
    o.f("inner", st.iterations_inner).f("total", st.iterations_total).f("outer", st.iterations_outer).f("J0", st.initial_cost);
    o.f("u", Z.Control(0)(0)).f("x", Z.State(1)(0)).f("rho", il.GetRegularization());
    o.f("rest", Z.State(0)(0) == 0 && Z.State(2)(0) == 0 && Z.Control(1)(0) == 0 && Z.Control(2)(0) == 0);
    o.raw("h", hist_json(st));
    if (al) {
      auto c = al->GetALCost(0);
      auto put = [&](auto& v) { o.f("lam", v[0]->GetDuals()(0)).f("pen", v[0]->GetPenalty()(0)); };
      if (!c->GetEqualityConstraints().empty()) put(c->GetEqualityConstraints());
      else put(c->GetInequalityConstraints());
    }
    return o.str();
  }
  template <class SV> static void run(const Script& s, Sink& sink, const std::string& var) {
    altro::problem::Problem prob = make(s);
    auto sol = std::make_unique<SV>(prob);
    auto Z = std::make_shared<altro::Trajectory<n, m>>(1, 1, N);
    Z->SetUniformStep(0.5f);
    auto zero = [&]() { for (int k = 0; k <= N; ++k) { Z->State(k).setZero(); Z->Control(k).setZero(); } };
    zero();
    sol->SetTrajectory(Z);
    std::string res = "[";
    auto solve = [&](SolverOptions o, bool z0) {
      if (var == "threads") { o.nthreads = 2; o.verbose = altro::LogLevel::kInner; o.header_frequency = 1; }
      if (var == "moved") { sol = std::make_unique<SV>(std::move(*sol)); o.profiler_enable = true; o.verbose = altro::LogLevel::kInnerDebug; }
      if (z0) zero();
      sol->GetOptions() = o;
      sol->Solve();
    };
    bool used_ok = s.calls[0].o.reset_duals && s.calls[0].o.initial_penalty > 0;
    if (var == "used") {                      // a solve of another kind comes first
      if (!used_ok && s.al) return;
      SolverOptions o = s.calls[0].o;
      o.bp_reg_initial = 0.5; o.line_search_max_iterations = 2; o.max_iterations_inner = 3; o.max_iterations_outer = 3; o.initial_penalty = 7.0;
      o.line_search_upper_bound = 1e6; o.state_max = 1e10;
      op("dirty");
      solve(o, true);
    }
    op(var.c_str());
    for (size_t i = 0; i < s.calls.size(); ++i) {
      solve(s.calls[i].o, s.calls[i].zero);
      res += (i ? "," : "") + result(get_il(*sol), get_al(*sol), *Z);
    }
    sink.ev(Obj().f("e", std::string("run")).f("v", var).raw("res", res + "]"));
  }
  static void play(const Script& s, Sink& sink, const std::string& var) { if (s.al) run<AL>(s, sink, var); else run<IL>(s, sink, var); }
};
}  // namespace

// replay <scripts> <nproc> <out>
int main(int argc, char** argv) {
  if (argc < 4) return 2;
  std::vector<Script> all;
  { std::ifstream in(argv[1]); Script s; while (read(in, &s)) all.push_back(s); }
  int nproc = atoi(argv[2]);
  std::vector<pid_t> kids;
  for (int w = 0; w < nproc; ++w) {
    pid_t pid = fork();
    if (pid == 0) {
      std::ofstream f(std::string(argv[3]) + "." + std::to_string(w));
      int crashes = 0;
      for (size_t i = static_cast<size_t>(w); i < all.size() && crashes < 40; i += static_cast<size_t>(nproc)) {
        const Script& s = all[i];
        std::string ev = run_child([&](Sink& k) {
          Play<1, 1>::play(s, k, "plain");
          Play<1, 1>::play(s, k, "moved");
          Play<1, 1>::play(s, k, "used");
          if (s.id % 4 == 0) Play<Eigen::Dynamic, Eigen::Dynamic>::play(s, k, "threads");
        });
        if (ev.find("\"crash\"") != std::string::npos) ++crashes;
        f << s.id << " [" << ev << "]\n";
      }
      f.close();
      _exit(f.fail() ? 3 : 0);
    }
    kids.push_back(pid);
  }
  int bad = 0;
  for (pid_t k : kids) { int st; waitpid(k, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) bad = 1; }
  return bad;
}
