// Calls at and around the documented limits of the public operations, made one after another on the same objects.
// An assertion failure aborts; the handler jumps back to the harness so that the history can go on.  See spec/Misuse.tla.
#include <pthread.h>
#include <csetjmp>
#include <iostream>
#include <limits>
#include "util.hpp"
#include "altro/augmented_lagrangian/al_solver.hpp"
#include "altro/common/solver_logger.hpp"
#include "altro/common/threadpool.hpp"
#include "altro/common/trajectory.hpp"
#include "altro/ilqr/ilqr.hpp"
#include "altro/problem/problem.hpp"
using namespace vf;
using altro::VectorXdRef;
using Eigen::MatrixXd;
using Eigen::VectorXd;
namespace {
sigjmp_buf jmp;
volatile sig_atomic_t armed = 0, sig = 0;
pthread_t self;
void handler(int s) {
  if (!armed || !pthread_equal(self, pthread_self())) { signal(s, SIG_DFL); raise(s); return; }
  sig = s;
  siglongjmp(jmp, 1);
}
// Runs f; "ok", "abort" (with or without something on standard error), "signal" or "throw".
class Attempt {
 public:
  Attempt() {
    char tmpl[] = "/tmp/vf_err_XXXXXX";
    fd_ = mkstemp(tmpl);
    unlink(tmpl);
    dup2(fd_, 2);
    stack_t st{};
    st.ss_size = 1 << 16;
    st.ss_sp = malloc(st.ss_size);
    sigaltstack(&st, nullptr);
    struct sigaction a{};
    a.sa_handler = handler;
    a.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE}) sigaction(s, &a, nullptr);
  }
  template <class F> std::string operator()(const char* name, F f) {
    op(name);
    off_t before = lseek(fd_, 0, SEEK_END);
    out = "ok";
    sig = 0;
    if (sigsetjmp(jmp, 1) == 0) {
      self = pthread_self();
      armed = 1;
      try { f(); } catch (...) { out = "throw"; }
      armed = 0;
    } else {
      armed = 0;
      out = sig == SIGABRT ? "abort" : "signal";
    }
    fflush(stderr);
    std::cerr.flush();
    msg = lseek(fd_, 0, SEEK_END) > before;
    return out;
  }
  std::string out;
  bool msg = false;
  Obj ev(const char* name) const { Obj o; o.f("e", "call").f("op", name).f("out", out).f("msg", msg); return o; }
 private:
  int fd_;
};
struct Cost : altro::problem::CostFunction {
  Cost(int id, int n, int m) : id(id), n(n), m(m) {}
  int StateDimension() const override { return n; }
  int ControlDimension() const override { return m; }
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override { return 0.5 * x.squaredNorm() + 0.5 * u.squaredNorm(); }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override { dx = x; du = u; }
  void Hessian(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<MatrixXd> xx, Eigen::Ref<MatrixXd> xu, Eigen::Ref<MatrixXd> uu) override { xx.setIdentity(); xu.setZero(); uu.setIdentity(); }
  int id, n, m;
};
struct Dyn : altro::problem::DiscreteDynamics {
  Dyn(int id, int n, int m) : id(id), n(n), m(m) {}
  int StateDimension() const override { return n; }
  int ControlDimension() const override { return m; }
  bool HasHessian() const override { return false; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float, float h, Eigen::Ref<VectorXd> xn) override { xn = x; xn(0) += h * u(0); }
  void Jacobian(const VectorXdRef&, const VectorXdRef&, float, float h, Eigen::Ref<MatrixXd> j) override { j.setZero(); for (int i = 0; i < n; ++i) j(i, i) = 1; j(0, n) = h; }
  void Hessian(const VectorXdRef&, const VectorXdRef&, float, float, const VectorXdRef&, Eigen::Ref<MatrixXd>) override {}
  int id, n, m;
};
template <class C> struct Con : altro::constraints::Constraint<C> {
  Con(int n, int m, int len) : n(n), m(m), len(len) {}
  int StateDimension() const override { return n; }
  int ControlDimension() const override { return m; }
  int OutputDimension() const override { return len; }
  std::string GetLabel() const override { return "c"; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef&, Eigen::Ref<VectorXd> c) override { c.setConstant(x(0) - 1); }
  void Jacobian(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<MatrixXd> j) override { j.setZero(); j.col(0).setOnes(); }
  int n, m, len;
};
using Eq = altro::constraints::Equality;
using In = altro::constraints::Inequality;
using altro::problem::Problem;
using altro::problem::CostFunction;
using altro::problem::DiscreteDynamics;
// an index near the ends of 0..hi
int near(Rng& r, int hi) { return r.chance(50) ? r.range(0, std::max(hi, 0)) : r.pick({-2, -1, 0, 1, hi - 1, hi, hi + 1, hi + 2}); }

/* ------------------------------ problems ------------------------------ */
void genProblem(Rng& r, Sink& s) {
  Attempt t;
  int N = r.range(1, 4), next = 0;
  s.ev(Obj().f("e", "problem").f("N", N));
  auto p = std::make_unique<Problem>(N);
  std::vector<bool> has(static_cast<size_t>(N) + 1, false);
  auto obs = [&] {
    std::vector<int> c, d, n;
    bool done = t("query", [&] {
      for (int k = 0; k <= N; ++k) {
        auto q = p->GetCostFunction(k);
        c.push_back(q ? std::dynamic_pointer_cast<Cost>(q)->id : 0);
        n.push_back(p->NumConstraints(k));
        d.push_back(k < N && has[static_cast<size_t>(k)] ? std::dynamic_pointer_cast<Dyn>(p->GetDynamics(k))->id : 0);
      }
    }) == "ok";
    s.ev(Obj().f("e", "problem-state").f("done", done).f("cost", c).f("dyn", d).f("ncon", n));
    return done;
  };
  int L = r.range(5, 25);
  for (int i = 0; i < L; ++i) {
    int k = near(r, N);
    switch (r.below(9)) {
      case 0: {
        bool null = r.chance(20);
        auto c = null ? nullptr : std::make_shared<Cost>(++next, 2, 1);
        t("SetCostFunction", [&] { p->SetCostFunction(c, k); });
        s.ev(t.ev("cost").f("k", k).f("id", null ? 0 : next));
        break;
      }
      case 1: case 2: {
        bool null = r.chance(20);
        if (r.chance(40)) k = r.pick({-1, 0, N - 1, N});
        int n = 2, m = 1;
        if (k == N - 1 && r.chance(30)) { n = r.range(-1, 2); m = r.range(-1, 1); }
        auto d = null ? nullptr : std::make_shared<Dyn>(++next, n, m);
        t("SetDynamics", [&] { p->SetDynamics(d, k); });
        s.ev(t.ev("dyn").f("k", k).f("id", null ? 0 : next).f("n", n).f("m", m));
        if (t.out == "ok" && k >= 0 && k <= N) has[static_cast<size_t>(k)] = true;
        break;
      }
      case 3: case 4: {
        bool null = r.chance(15), eq = r.chance(50);
        int len = r.pick({-1, 0, 1, 1, 2, 3});
        if (eq) { auto c = null ? nullptr : std::make_shared<Con<Eq>>(2, 1, len); t("SetConstraint", [&] { p->SetConstraint(c, k); }); }
        else { auto c = null ? nullptr : std::make_shared<Con<In>>(2, 1, len); t("SetConstraint", [&] { p->SetConstraint(c, k); }); }
        s.ev(t.ev("con").f("k", k).f("null", null).f("len", len).f("eq", eq));
        break;
      }
      case 5: { int v = -9; t("NumConstraints", [&] { v = p->NumConstraints(k); }); s.ev(t.ev("ncon").f("k", k).f("v", v)); break; }
      case 6: { int v = -9; t("GetCostFunction", [&] { auto q = p->GetCostFunction(k); v = q ? std::dynamic_pointer_cast<Cost>(q)->id : 0; }); s.ev(t.ev("getcost").f("k", k).f("v", v)); break; }
      case 7: {
        if (k == N) k = N + 1;
        int v = -9;
        t("GetDynamics", [&] { auto q = p->GetDynamics(k); v = q ? std::dynamic_pointer_cast<Dyn>(q)->id : 0; });
        s.ev(t.ev("getdyn").f("k", k).f("v", v));
        break;
      }
      default: {
        bool cost = r.chance(50);
        int cnt = r.range(0, N + 2);
        std::vector<int> ids;
        if (cost) {
          std::vector<std::shared_ptr<Cost>> v;
          for (int j = 0; j < cnt; ++j) { v.push_back(std::make_shared<Cost>(++next, 2, 1)); ids.push_back(next); }
          t("SetCostFunction", [&] { p->SetCostFunction(v, k); });
        } else {
          std::vector<std::shared_ptr<Dyn>> v;
          for (int j = 0; j < cnt; ++j) { v.push_back(std::make_shared<Dyn>(++next, 2, 1)); ids.push_back(next); }
          t("SetDynamics", [&] { p->SetDynamics(v, k); });
          if (t.out == "ok") for (int j = k; j < k + cnt; ++j) if (j >= 0 && j <= N) has[static_cast<size_t>(j)] = true;
        }
        s.ev(t.ev(cost ? "costs" : "dyns").f("k", k).f("ids", ids));
        if (t.out != "ok") return;  // a list is stored element by element
        break;
      }
    }
    if (!obs()) return;
  }
}

/* ------------------------------ solvers ------------------------------ */
struct PSpec { std::shared_ptr<Problem> p; int N; bool full; int n, m; std::vector<int> eq, in; };
// A problem, complete or with one thing missing, of the usual or other dimensions.
PSpec makeProblem(Rng& r, Sink& s, int id, int N, bool con, bool odd) {
  PSpec q;
  q.N = N;
  q.n = 2; q.m = 1;
  if (odd && r.chance(40)) { q.n = r.range(1, 3); q.m = r.range(1, 2); }
  int miss = odd && r.chance(40) ? r.below(5) : -1;
  int at = r.below(N + 1), atd = r.below(N);
  q.p = std::make_shared<Problem>(N);
  for (int k = 0; k <= N; ++k) if (!(miss == 0 && k == at)) q.p->SetCostFunction(std::make_shared<Cost>(1, q.n, q.m), k);
  for (int k = 0; k < N; ++k) if (!(miss == 1 && k == atd)) q.p->SetDynamics(std::make_shared<Dyn>(1, q.n, q.m), k);
  int nx = miss == 2 ? q.n + 1 : miss == 3 ? q.n - 1 : q.n;
  if (miss != 4) q.p->SetInitialState(VectorXd::Constant(nx, 0.5));
  for (int k = 0; k <= N; ++k) {
    int e = con ? r.below(3) : 0, i = con ? r.below(3) : 0;
    for (int j = 0; j < e; ++j) q.p->SetConstraint(std::make_shared<Con<Eq>>(q.n, q.m, 1), k);
    for (int j = 0; j < i; ++j) q.p->SetConstraint(std::make_shared<Con<In>>(q.n, q.m, 2), k);
    q.eq.push_back(e); q.in.push_back(i);
  }
  q.full = miss < 0 || (miss == 2 && nx == q.n);
  s.ev(Obj().f("e", "prob").f("id", id).f("N", N).f("n", q.n).f("m", q.m).f("missing", miss).f("x0", miss == 4 ? 0 : nx).f("eq", q.eq).f("in", q.in));
  return q;
}
template <int n, int m> std::shared_ptr<altro::Trajectory<n, m>> makeTraj(int N, int dn, int dm) {
  auto z = std::make_shared<altro::Trajectory<n, m>>(dn, dm, N);
  z->SetUniformStep(0.25f);
  for (int k = 0; k < N; ++k) z->Control(k)(0) = 0.5;
  return z;
}
template <class Z> std::vector<double> content(const Z& z) {
  std::vector<double> v;
  for (int k = 0; k <= z.NumSegments(); ++k) {
    for (int i = 0; i < z.State(k).size(); ++i) v.push_back(z.State(k)(i));
    for (int i = 0; i < z.Control(k).size(); ++i) v.push_back(z.Control(k)(i));
    v.push_back(z.GetTime(k));
  }
  return v;
}
std::vector<int> inds(Rng& r, int N) {
  std::vector<int> v{0};
  for (int k = 1; k <= N; ++k) if (r.chance(40)) v.push_back(k);
  v.push_back(N + 1);
  if (r.chance(50)) switch (r.below(7)) {
    case 0: v.front() = r.pick({-1, 1}); break;
    case 1: v.back() = r.pick({N, N + 2}); break;
    case 2: v[static_cast<size_t>(r.below(static_cast<int>(v.size())))] = r.range(0, N + 1); break;
    case 3: v = {r.pick({0, N + 1})}; break;
    case 4: v.clear(); break;
    case 5: { size_t j = static_cast<size_t>(r.below(static_cast<int>(v.size()))); v.insert(v.begin() + static_cast<long>(j), v[j]); break; }
    default: if (v.size() > 3) std::swap(v[1], v[2]); break;
  }
  return v;
}

template <int n, int m> void ilqrHistory(Rng& r, Sink& s) {
  Attempt t;
  int N = r.range(1, 4);
  std::vector<PSpec> probs;
  s.ev(Obj().f("e", "ilqr").f("N", N).f("n", n).f("m", m));
  int np = r.range(2, 4);
  for (int j = 0; j < np; ++j) probs.push_back(makeProblem(r, s, j, j == 0 || r.chance(60) ? N : std::max(1, N + r.pick({-1, 1})), false, j > 0));
  std::unique_ptr<altro::ilqr::iLQR<n, m>> a;
  std::shared_ptr<altro::Trajectory<n, m>> z;
  int have = 0, cur = -1;  // knot points copied, from which problem
  if (r.chance(30)) {
    int j = r.below(np);
    t("iLQR(problem)", [&] { a = std::make_unique<altro::ilqr::iLQR<n, m>>(*probs[static_cast<size_t>(j)].p); });
    s.ev(t.ev("ilqr-from").f("p", j));
    if (t.out != "ok") return;
    N = probs[static_cast<size_t>(j)].N;
    have = N + 1; cur = j;
  } else {
    a = std::make_unique<altro::ilqr::iLQR<n, m>>(N);
  }
  int L = r.range(4, 14);
  for (int i = 0; i < L; ++i) {
    std::vector<double> before;
    if (z) before = content(*z);
    switch (r.below(10)) {
      case 0: case 1: {
        int j = r.chance(50) ? 0 : r.below(np);
        PSpec& q = probs[static_cast<size_t>(j)];
        t("InitializeFromProblem", [&] { a->InitializeFromProblem(*q.p); });
        s.ev(t.ev("ilqr-init").f("p", j));
        if (t.out != "ok" && q.N == N) return;  // knot points are dropped before the copy
        if (t.out == "ok") { have = N + 1; cur = j; }
        break;
      }
      case 2: {
        int j = r.chance(60) ? 0 : r.below(np);
        PSpec& q = probs[static_cast<size_t>(j)];
        int ks = near(r, N), ke = r.chance(50) ? N + 1 : near(r, N + 1);
        if (have > 0 && have <= N && cur == j && r.chance(70)) ks = have;
        if (q.N != N || ke == 0) break;
        bool sensible = ks == have && ke >= ks;
        if (ks >= 0 && ks <= N && ke > 0 && ke <= N + 1 && (ks >= ke || !sensible)) break;  // nothing, or knot points out of order
        t("CopyFromProblem", [&] { a->CopyFromProblem(*q.p, ks, ke); });
        s.ev(t.ev("ilqr-copy").f("p", j).f("a", ks).f("b", ke));
        if (t.out != "ok" && q.n == 2 && q.m == 1) break;
        if (t.out != "ok") return;
        if (ke > ks) have += ke - ks;
        cur = j;
        break;
      }
      case 3: {
        if (have != N + 1) break;
        int k = near(r, N), v = -9;
        t("GetKnotPointFunction", [&] { v = a->GetKnotPointFunction(k).StateDimension(); });
        s.ev(t.ev("ilqr-kpf").f("k", k).f("v", v));
        break;
      }
      case 4: {
        int len = r.chance(60) ? N : std::max(1, N + r.pick({-1, 1}));
        int dn = cur >= 0 ? probs[static_cast<size_t>(cur)].n : 2, dm = cur >= 0 ? probs[static_cast<size_t>(cur)].m : 1;
        if (n > 0) { dn = n; dm = m; }
        z = makeTraj<n, m>(len, dn, dm);
        t("SetTrajectory", [&] { a->SetTrajectory(z); });
        s.ev(t.ev("ilqr-traj").f("N", len).f("n", dn).f("m", dm));
        before = content(*z);
        break;
      }
      case 5: case 6: {
        std::vector<int> v = inds(r, N);
        t("SetTaskAssignment", [&] { a->SetTaskAssignment(v); });
        int tasks = t.out == "ok" ? a->NumTasks() : -1;
        s.ev(t.ev("ilqr-tasks").f("inds", v).f("tasks", tasks));
        if (t.out == "ok" && !v.empty() && r.chance(50)) { std::vector<int> w = a->GetTaskAssignment(); s.ev(Obj().f("e", "ilqr-assignment").f("inds", w)); }
        break;
      }
      case 7: {
        if (have != 0 && have != N + 1) break;
        if (z && cur >= 0 && z->NumSegments() == N && (z->StateDimension(0) != probs[static_cast<size_t>(cur)].n || z->ControlDimension(0) != probs[static_cast<size_t>(cur)].m)) break;
        t("Solve", [&] { a->GetOptions().verbose = altro::LogLevel::kSilent; a->Solve(); });
        s.ev(t.ev("ilqr-solve"));
        break;
      }
      case 8: {
        if (have != N + 1) break;
        if (z && cur >= 0 && (z->StateDimension(0) != probs[static_cast<size_t>(cur)].n || z->ControlDimension(0) != probs[static_cast<size_t>(cur)].m)) break;
        t("Cost", [&] { a->Cost(); });
        s.ev(t.ev("ilqr-cost"));
        break;
      }
      default: {
        if (have != N + 1 || (z && z->NumSegments() != N)) break;
        if (z && cur >= 0 && (z->StateDimension(0) != probs[static_cast<size_t>(cur)].n || z->ControlDimension(0) != probs[static_cast<size_t>(cur)].m)) break;
        t("UpdateExpansions", [&] { a->UpdateExpansions(); });
        s.ev(t.ev("ilqr-exp"));
        break;
      }
    }
    if (t.out != "ok" && z) s.ev(Obj().f("e", "unchanged").f("same", content(*z) == before));
    t.out = "ok";
  }
}
void genIlqr(Rng& r, Sink& s) { r.chance(50) ? ilqrHistory<2, 1>(r, s) : ilqrHistory<Eigen::Dynamic, Eigen::Dynamic>(r, s); }

void genAl(Rng& r, Sink& s) {
  Attempt t;
  constexpr double nan = std::numeric_limits<double>::quiet_NaN();
  int N = r.range(1, 3);
  std::vector<PSpec> probs;
  s.ev(Obj().f("e", "al").f("N", N));
  int np = r.range(2, 4);
  for (int j = 0; j < np; ++j) probs.push_back(makeProblem(r, s, j, j == 0 || r.chance(60) ? N : std::max(1, N + r.pick({-1, 1})), true, j > 0));
  using AL = altro::augmented_lagrangian::AugmentedLagrangianiLQR<2, 1>;
  std::unique_ptr<AL> a;
  std::shared_ptr<altro::Trajectory<2, 1>> z;
  int cur = -1;
  if (r.chance(30)) {
    int j = r.below(np);
    t("AL(problem)", [&] { a = std::make_unique<AL>(*probs[static_cast<size_t>(j)].p); });
    s.ev(t.ev("al-from").f("p", j));
    if (t.out != "ok") return;
    N = probs[static_cast<size_t>(j)].N;
    cur = j;
  } else {
    a = std::make_unique<AL>(N);
  }
  auto penalties = [&] {
    std::vector<double> v;
    for (int k = 0; k <= N; ++k) {
      for (auto& c : a->GetALCost(k)->GetEqualityConstraints()) { v.push_back(c->GetPenalty()(0)); v.push_back(c->GetPenaltyScaling()); }
      for (auto& c : a->GetALCost(k)->GetInequalityConstraints()) { v.push_back(c->GetPenalty()(0)); v.push_back(c->GetPenaltyScaling()); }
    }
    return v;
  };
  auto number = [&](bool scale) { return r.chance(15) ? nan : scale ? r.pick({0.0, 0.5, 0.999, 1.0, 1.0, 1.5, 10.0, -1.0, 1e9}) : r.pick({0.0, 0.0, -0.0, -1e-9, -1.0, 1e-9, 1.0, 100.0, 1e9}); };
  int L = r.range(4, 14);
  for (int i = 0; i < L; ++i) {
    std::vector<double> before;
    if (z) before = content(*z);
    std::vector<double> pb;
    if (cur >= 0) pb = penalties();
    bool pen = false;
    switch (r.below(11)) {
      case 0: {
        int j = r.chance(50) ? 0 : r.below(np);
        PSpec& q = probs[static_cast<size_t>(j)];
        if (r.chance(40) && cur >= 0) break;
        t("InitializeFromProblem", [&] { a->InitializeFromProblem(*q.p); });
        s.ev(t.ev("al-init").f("p", j));
        if (t.out != "ok" && q.N == N) return;
        if (t.out == "ok") cur = j;
        break;
      }
      case 1: { int k = near(r, N), v = -9; t("NumConstraints", [&] { v = a->NumConstraints(k); }); s.ev(t.ev("al-ncon").f("k", k).f("v", v)); break; }
      case 2: { int v = -9; t("NumConstraints", [&] { v = a->NumConstraints(); }); s.ev(t.ev("al-total").f("v", v)); break; }
      case 3: case 4: {
        if (cur < 0) break;
        bool scale = r.chance(50);
        double v = number(scale);
        t(scale ? "SetPenaltyScaling" : "SetPenalty", [&] { scale ? a->SetPenaltyScaling(v) : a->SetPenalty(v); });
        s.ev(t.ev(scale ? "al-scale" : "al-pen").f("v", v).f("i", -1).f("k", -1).f("eq", true));
        pen = true;
        break;
      }
      case 5: case 6: {
        if (cur < 0) break;
        bool scale = r.chance(50), eq = r.chance(50);
        double v = number(scale);
        int k = r.below(N + 1);
        auto c = a->GetALCost(k);
        PSpec& q = probs[static_cast<size_t>(cur)];
        int j = near(r, (eq ? q.eq : q.in)[static_cast<size_t>(k)] - 1);
        t(scale ? "SetPenaltyScaling" : "SetPenalty", [&] {
          if (eq) scale ? c->SetPenaltyScaling<Eq>(v, j) : c->SetPenalty<Eq>(v, j);
          else scale ? c->SetPenaltyScaling<In>(v, j) : c->SetPenalty<In>(v, j);
        });
        s.ev(t.ev(scale ? "al-scale" : "al-pen").f("v", v).f("i", j).f("k", k).f("eq", eq));
        pen = true;
        break;
      }
      case 7: {
        int len = r.chance(60) ? N : std::max(1, N + r.pick({-1, 1}));
        z = makeTraj<2, 1>(len, 2, 1);
        t("SetTrajectory", [&] { a->SetTrajectory(z); });
        s.ev(t.ev("al-traj").f("N", len));
        before = content(*z);
        break;
      }
      case 8: case 9: {
        t("Solve", [&] { a->GetOptions().max_iterations_outer = 2; a->GetOptions().max_iterations_inner = 3; a->Solve(); });
        s.ev(t.ev("al-solve"));
        if (t.out == "ok" && cur >= 0) { s.ev(Obj().f("e", "al-now").f("pen", penalties())); pb = penalties(); }
        break;
      }
      default: {
        // the cost of one knot point, straight from a problem
        int j = r.below(np), k;
        PSpec& q = probs[static_cast<size_t>(j)];
        k = near(r, q.N);
        if (q.n != 2 || q.m != 1) break;
        std::unique_ptr<altro::augmented_lagrangian::ALCost<2, 1>> c;
        int cnt = -9;
        bool dynOk = true, costOk = true;  // what is there at this knot point
        if (k >= 0 && k <= q.N) {
          costOk = q.p->GetCostFunction(k) != nullptr;
          dynOk = t("GetDynamics", [&] { q.p->GetDynamics(k); }) == "ok";
        }
        t("ALCost(problem,k)", [&] { c = std::make_unique<altro::augmented_lagrangian::ALCost<2, 1>>(*q.p, k); });
        if (t.out == "ok") cnt = c->NumConstraints();
        s.ev(t.ev("alcost").f("p", j).f("k", k).f("v", cnt).f("there", dynOk && costOk));
        break;
      }
    }
    if (t.out != "ok" && z) s.ev(Obj().f("e", "unchanged").f("same", content(*z) == before));
    if (pen && cur >= 0) { std::vector<double> pa = penalties(); s.ev(Obj().f("e", "al-pens").f("before", pb).f("after", pa)); }
    t.out = "ok";
  }
}

/* ------------------------------ loggers ------------------------------ */
void genLog(Rng& r, Sink& s) {
  Attempt t;
  s.ev(Obj().f("e", "logger"));
  auto lg = std::make_unique<altro::SolverLogger>(altro::LogLevel::kDebug);
  int next = 0, cnt = 0;
  Capture cap;
  constexpr double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  int L = r.range(5, 25);
  for (int i = 0; i < L; ++i) {
    switch (r.below(6)) {
      case 0: case 1: {
        int col = r.chance(30) ? r.pick({0, -1}) : r.range(-cnt - 3, cnt + 2);
        std::string title = "t" + std::to_string(++next);
        t("AddEntry", [&] { lg->AddEntry(col, title, std::string("{}"), altro::LogEntry::kFloat); });
        s.ev(t.ev("addentry").f("col", col).f("title", title));
        if (t.out == "ok") ++cnt;
        break;
      }
      case 2: { int f = r.pick({-5, -1, 0, 1, 1, 2, 10, 1000000}); t("SetFrequency", [&] { lg->SetFrequency(f); }); s.ev(t.ev("freq").f("v", f)); break; }
      default: {
        if (next == 0) break;
        std::string title = "t" + std::to_string(r.range(1, next));
        bool there = false;
        for (auto it = lg->begin(); it != lg->end(); ++it) if (it->first == title) there = true;
        if (!there) break;
        bool low = r.chance(50);
        double v = r.pick({-inf, -2.0, -1.0, -1.0, 0.0, 0.0, 1.0, 1.0, 2.0, inf, nan});
        t(low ? "SetLowerBound" : "SetUpperBound", [&] { low ? lg->GetEntry(title).SetLowerBound(v) : lg->GetEntry(title).SetUpperBound(v); });
        s.ev(t.ev(low ? "lower" : "upper").f("title", title).f("v", v));
        break;
      }
    }
    // the columns in the order the header prints them
    cap.take();
    std::string head;
    bool done = t("PrintHeader", [&] { lg->PrintHeader(); }) == "ok";
    head = cap.take();
    std::vector<std::string> titles;
    std::string cur;
    bool esc = false;
    for (char ch : head + " ") {
      if (ch == '\n') break;
      if (ch == '\033') { esc = true; continue; }
      if (esc) { if (ch == 'm') esc = false; continue; }
      if (isalnum(static_cast<unsigned char>(ch))) cur += ch;
      else if (!cur.empty()) { titles.push_back(cur); cur.clear(); }
    }
    if (!cur.empty()) titles.push_back(cur);
    s.ev(Obj().f("e", "logger-state").f("done", done).f("n", lg->NumEntries()).f("titles", titles));
  }
}

/* ------------------------------ sized objects, cones, functions ------------------------------ */
struct Sc : altro::ScalarFunction {
  using ScalarFunction::Evaluate; using ScalarFunction::Hessian;
  int StateDimension() const override { return 2; }
  int ControlDimension() const override { return 1; }
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override { return x.sum() + u.sum(); }
  void Gradient(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<VectorXd> g) override { g.setOnes(); }
  void Hessian(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<MatrixXd> h) override { h.setZero(); }
};
void genSized(Rng& r, Sink& s) {
  Attempt t;
  s.ev(Obj().f("e", "sized"));
  constexpr int X = Eigen::Dynamic;
  int L = r.range(5, 20);
  for (int i = 0; i < L; ++i) {
    int n = r.range(1, 4), m = r.range(1, 4);
    if (r.chance(50)) { n = 3; m = 2; }
    switch (r.below(18)) {
      case 0: {
        int a = r.range(2, 5), b = std::max(1, a - 1 + (r.chance(50) ? 0 : r.range(-1, 2))), c = a + (r.chance(50) ? 0 : r.range(-1, 1));
        bool st = r.chance(50);
        std::vector<float> tm;
        for (int j = 0; j < c; ++j) tm.push_back(0.25f * static_cast<float>(j));
        int N = -9;
        if (st) t("Trajectory", [&] { altro::Trajectory<3, 2> z(std::vector<Eigen::Vector3d>(static_cast<size_t>(a), Eigen::Vector3d::Zero()), std::vector<Eigen::Vector2d>(static_cast<size_t>(b), Eigen::Vector2d::Zero()), tm); N = z.NumSegments(); });
        else t("Trajectory", [&] { altro::Trajectory<X, X> z(std::vector<VectorXd>(static_cast<size_t>(a), VectorXd::Zero(n)), std::vector<VectorXd>(static_cast<size_t>(b), VectorXd::Zero(m)), tm); N = z.NumSegments(); });
        s.ev(t.ev("traj").f("x", a).f("u", b).f("t", c).f("v", N));
        break;
      }
      case 1: t("Trajectory(n,m,N)", [&] { altro::Trajectory<3, 2> z(n, m, 2); }); s.ev(t.ev("size").f("n", n).f("m", m).f("sn", 3).f("sm", 2)); break;
      case 2: t("Trajectory(n,m,N)", [&] { altro::Trajectory<X, X> z(n, m, 2); }); s.ev(t.ev("size").f("n", n).f("m", m).f("sn", X).f("sm", X)); break;
      case 3: t("KnotPoint(n,m)", [&] { altro::KnotPoint<3, 2> z(n, m); }); s.ev(t.ev("size").f("n", n).f("m", m).f("sn", 3).f("sm", 2)); break;
      case 4: t("KnotPoint(n,m)", [&] { altro::KnotPoint<X, 2> z(n, m); }); s.ev(t.ev("size").f("n", n).f("m", m).f("sn", X).f("sm", 2)); break;
      case 5: t("KnotPoint(n,m)", [&] { altro::KnotPoint<3, X> z(n, m); }); s.ev(t.ev("size").f("n", n).f("m", m).f("sn", 3).f("sm", X)); break;
      case 6: { altro::KnotPoint<X, X> d(n, m); t("KnotPoint(KnotPoint)", [&] { altro::KnotPoint<3, 2> z(d); }); s.ev(t.ev("size").f("n", n).f("m", m).f("sn", 3).f("sm", 2)); break; }
      case 7: t("KnotPoint::Random", [&] { altro::KnotPoint<X, X>::Random(); }); s.ev(t.ev("random").f("sn", X).f("sm", X)); break;
      case 8:
        if (r.chance(50)) { t("KnotPoint::Random", [&] { altro::KnotPoint<3, X>::Random(); }); s.ev(t.ev("random").f("sn", 3).f("sm", X)); }
        else { t("KnotPoint::Random", [&] { altro::KnotPoint<X, 2>::Random(); }); s.ev(t.ev("random").f("sn", X).f("sm", 2)); }
        break;
      case 9: t("KnotPoint::Random", [&] { altro::KnotPoint<3, 2>::Random(); }); s.ev(t.ev("random").f("sn", 3).f("sm", 2)); break;
      case 10: t("CostExpansion", [&] { altro::ilqr::CostExpansion<3, 2> e(n, m); }); s.ev(t.ev("size").f("n", n).f("m", m).f("sn", 3).f("sm", 2)); break;
      case 11: {
        int a = r.range(1, 3), b = r.range(1, 3);
        altro::ilqr::CostExpansion<X, X> e(a, b);
        auto c = std::make_shared<Cost>(1, n, m);
        if (r.chance(50)) { n = a; m = b; }
        t("CalcExpansion", [&] { e.CalcExpansion(c, VectorXd::Zero(n), VectorXd::Zero(m)); });
        s.ev(t.ev("expansion").f("n", a).f("m", b).f("x", n).f("u", m));
        break;
      }
      case 12: {
        bool d0 = r.chance(40), c0 = r.chance(40);
        std::shared_ptr<DiscreteDynamics> d; std::shared_ptr<CostFunction> c;
        if (!d0) d = std::make_shared<Dyn>(1, n, m);
        if (!c0) c = std::make_shared<Cost>(1, n, m);
        bool st = r.chance(50);
        if (st) t("KnotPointFunctions", [&] { altro::ilqr::KnotPointFunctions<3, 2> k(d, c); });
        else t("KnotPointFunctions", [&] { altro::ilqr::KnotPointFunctions<X, X> k(d, c); });
        s.ev(t.ev("kpf").f("null", d0 || c0).f("n", n).f("m", m).f("sn", st ? 3 : X).f("sm", st ? 2 : X));
        break;
      }
      case 13: {
        bool c0 = r.chance(50), st = r.chance(50);
        std::shared_ptr<CostFunction> c;
        if (!c0) c = std::make_shared<Cost>(1, n, m);
        if (st) t("KnotPointFunctions", [&] { altro::ilqr::KnotPointFunctions<3, 2> k(n, m, c); });
        else t("KnotPointFunctions", [&] { altro::ilqr::KnotPointFunctions<X, X> k(n, m, c); });
        s.ev(t.ev("kpf").f("null", c0).f("n", n).f("m", m).f("sn", st ? 3 : X).f("sm", st ? 2 : X));
        break;
      }
      case 14: case 15: {
        int cone = r.below(3), what = r.below(3), a = r.range(1, 4), b = r.chance(50) ? a : r.range(1, 4);
        VectorXd x = VectorXd::Constant(a, 1.0), y = VectorXd::Constant(b, 1.0);
        MatrixXd sq = MatrixXd::Zero(a, a), re = MatrixXd::Zero(a, b);
        using Id = altro::constraints::IdentityCone;
        if (what == 0) { t("Projection", [&] { cone == 0 ? Eq::Projection(x, y) : cone == 1 ? Id::Projection(x, y) : In::Projection(x, y); }); s.ev(t.ev("project").f("cone", cone).f("a", a).f("b", b)); }
        else if (what == 1) { if (cone == 0) break; t("Jacobian", [&] { cone == 1 ? Id::Jacobian(x, re) : In::Jacobian(x, re); }); s.ev(t.ev("conejac").f("cone", cone).f("a", a).f("b", b)); }
        else if (r.chance(50)) { t("Hessian", [&] { cone == 0 ? Eq::Hessian(x, y, sq) : cone == 1 ? Id::Hessian(x, y, sq) : In::Hessian(x, y, sq); }); s.ev(t.ev("conehess").f("cone", cone).f("a", a).f("b", b)); }
        else { t("Hessian", [&] { cone == 0 ? Eq::Hessian(x, x, re) : cone == 1 ? Id::Hessian(x, x, re) : In::Hessian(x, x, re); }); s.ev(t.ev("conehess").f("cone", cone).f("a", a).f("b", b)); }
        break;
      }
      case 16: {
        Sc f;
        VectorXd x = VectorXd::Zero(2), u = VectorXd::Zero(1);
        int what = r.below(3);
        if (what == 0) { int k = r.range(0, 3); VectorXd o = VectorXd::Zero(k); t("ScalarFunction::Evaluate", [&] { static_cast<altro::FunctionBase&>(f).Evaluate(x, u, o); }); s.ev(t.ev("scalar-out").f("k", k)); }
        else if (what == 1) { int k = r.range(1, 3); MatrixXd o = MatrixXd::Zero(k, 3); t("ScalarFunction::Jacobian", [&] { static_cast<altro::FunctionBase&>(f).Jacobian(x, u, o); }); s.ev(t.ev("scalar-jac").f("k", k)); }
        else { int k = r.range(1, 2); double v = r.pick({1.0, 1.0, 0.0, 2.0, -1.0}); VectorXd b = VectorXd::Constant(k, v); MatrixXd h = MatrixXd::Zero(3, 3); t("ScalarFunction::Hessian", [&] { static_cast<altro::FunctionBase&>(f).Hessian(x, u, b, h); }); s.ev(t.ev("scalar-hess").f("k", k).f("v", v)); }
        break;
      }
      default: {
        // an augmented Lagrangian cost on its own
        altro::augmented_lagrangian::ALCost<2, 1> c(2, 1);
        bool set = r.chance(50);
        std::shared_ptr<CostFunction> cf;
        if (r.chance(60)) cf = std::make_shared<Cost>(1, 2, 1);
        if (set) { t("SetCostFunction", [&] { c.SetCostFunction(cf); }); s.ev(t.ev("alset").f("null", !cf)); }
        VectorXd x = VectorXd::Zero(2), u = VectorXd::Zero(1), dx = x, du = u;
        MatrixXd xx = MatrixXd::Zero(2, 2), xu = MatrixXd::Zero(2, 1), uu = MatrixXd::Zero(1, 1);
        int what = r.below(3);
        t("ALCost::Evaluate", [&] { if (what == 0) c.Evaluate(x, u); else if (what == 1) c.Gradient(x, u, dx, du); else c.Hessian(x, u, xx, xu, uu); });
        s.ev(t.ev("aleval").f("has", set && cf));
        break;
      }
    }
  }
}

/* ------------------------------ pools ------------------------------ */
void genPool(Rng& r, Sink& s) {
  Attempt t;
  s.ev(Obj().f("e", "pool"));
  auto* p = new altro::ThreadPool();
  int L = r.range(3, 10);
  for (int i = 0; i < L; ++i) {
    switch (r.below(4)) {
      case 0: case 1: { int n = r.range(1, 3); t("LaunchThreads", [&] { p->LaunchThreads(n); }); s.ev(t.ev("launch").f("n", n)); break; }
      case 2: t("StopThreads", [&] { p->StopThreads(); }); s.ev(t.ev("stop")); break;
      default: {
        bool assign = r.chance(50);
        auto* q = new altro::ThreadPool();
        if (assign) t("move assignment", [&] { *q = std::move(*p); });
        else t("move construction", [&] { new altro::ThreadPool(std::move(*p)); });
        s.ev(t.ev("move"));
        if (t.out != "ok") return;
        p = assign ? q : new altro::ThreadPool();
        break;
      }
    }
    s.ev(Obj().f("e", "pool-state").f("running", p->IsRunning()).f("n", static_cast<int>(p->NumThreads())));
  }
  p->StopThreads();
}
Reg a("misuse-problem", genProblem);
Reg b("misuse-ilqr", genIlqr);
Reg c("misuse-al", genAl);
Reg d("misuse-log", genLog);
Reg e("misuse-sized", genSized);
Reg f("misuse-pool", genPool);
}  // namespace
