// usage: exp <kind> <seed> <count> <nproc> <outfile>
// Parallel expansions of the real iLQR solver.  kinds: expand (controlled schedules: which thread expands which knot point),
// default (default assignments of many sizes), custom (which assignments are accepted).
#include <fstream>
#include <memory>
#include "common.hpp"
#include "sched.hpp"
#include "altro/ilqr/ilqr.hpp"
#include "altro/problem/costfunction.hpp"
#include "altro/problem/discretized_model.hpp"
#include "altro/problem/dynamics.hpp"

using vf::Rng;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using altro::VectorXdRef;
using sched::ev;

enum { GRAD = 1, HESS, JAC, EXPB, EXPE, OPTS, INDS, GOT, SETUP, SOLVE, VAL, ENDV, BARRIER, NAMES };

// a barrier at the first knot point of every block: passes only if all blocks run at the same time
static std::vector<char>* starts = nullptr;     // per knot point
static std::atomic<int> arrived{0};
static int expected = 0;
static std::atomic<int> failed{0};
static void barrier(int k) {
  if (!starts || expected == 0 || !(*starts)[static_cast<size_t>(k)]) return;
  ++arrived;
  for (int i = 0; i < 400; ++i) {
    if (arrived >= expected) return;
    std::this_thread::yield();
  }
  ++failed;
}

class Dyn : public altro::problem::DiscreteDynamics {
 public:
  Dyn(int k, double a) : k_(k), a_(a) {}
  int StateDimension() const override { return 2; }
  int ControlDimension() const override { return 1; }
  bool HasHessian() const override { return false; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float, float h, Eigen::Ref<VectorXd> xn) override {
    xn(0) = x(0) + h * x(1);
    xn(1) = x(1) + h * (u(0) - a_ * x(0) * x(1));
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef&, float, float h, Eigen::Ref<MatrixXd> j) override {
    ev(JAC, k_);
    j << 1, h, 0, -h * a_ * x(1), 1 - h * a_ * x(0), h;
  }
  void Hessian(const VectorXdRef&, const VectorXdRef&, float, float, const VectorXdRef&, Eigen::Ref<MatrixXd>) override {}
 private:
  int k_;
  double a_;
};
// the same kind of dynamics in continuous time: one model, discretized and copied for every knot point as the documentation asks
template <int n, int m>
class Cont : public altro::problem::ContinuousDynamics {
 public:
  static constexpr int NStates = n;
  static constexpr int NControls = m;
  explicit Cont(double a) : a_(a) {}
  int StateDimension() const override { return 2; }
  int ControlDimension() const override { return 1; }
  bool HasHessian() const override { return false; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float, Eigen::Ref<VectorXd> xd) override {
    xd(0) = x(1);
    xd(1) = u(0) - a_ * x(0) * x(1);
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef&, float, Eigen::Ref<MatrixXd> j) override {
    ev(JAC, -1);
    j << 0, 1, 0, -a_ * x(1), -a_ * x(0), 1;
  }
  void Hessian(const VectorXdRef&, const VectorXdRef&, float, const VectorXdRef&, Eigen::Ref<MatrixXd>) override {}
 private:
  double a_;
};
class Cost : public altro::problem::CostFunction {
 public:
  Cost(int k, double q) : k_(k), q_(q) {}
  int StateDimension() const override { return 2; }
  int ControlDimension() const override { return 1; }
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override { return q_ * x.squaredNorm() + 0.1 * u.squaredNorm() + 0.05 * x(0) * x(0) * x(0) * x(0); }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    barrier(k_);
    ev(GRAD, k_);
    dx = 2 * q_ * x; dx(0) += 0.2 * x(0) * x(0) * x(0);
    du = 0.2 * u;
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef&, Eigen::Ref<MatrixXd> xx, Eigen::Ref<MatrixXd> xu, Eigen::Ref<MatrixXd> uu) override {
    ev(HESS, k_);
    xx.setIdentity(); xx *= 2 * q_; xx(0, 0) += 0.6 * x(0) * x(0);
    xu.setZero();
    uu(0, 0) = 0.2;
  }
 private:
  int k_;
  double q_;
};
using IL = altro::ilqr::iLQR<2, 1>;
using Traj = altro::Trajectory<2, 1>;

template <class C>
static void copies(altro::problem::Problem& p, int N, double a) {
  using Model = altro::problem::DiscretizedModel<C>;
  Model model = Model(C(a));
  for (int k = 0; k < N; ++k) p.SetDynamics(std::make_shared<Model>(model), k);
}
static altro::problem::Problem make(int N, Rng r) {
  altro::problem::Problem p(N);
  switch (r.below(4)) {
    case 0: copies<Cont<2, 1>>(p, N, r.dy(1, 4)); break;
    case 1: copies<Cont<Eigen::Dynamic, Eigen::Dynamic>>(p, N, r.dy(1, 4)); break;
    default: for (int k = 0; k < N; ++k) p.SetDynamics(std::make_shared<Dyn>(k, r.dy(1, 4)), k);
  }
  for (int k = 0; k <= N; ++k) p.SetCostFunction(std::make_shared<Cost>(k, 0.5 + r.below(4)), k);
  VectorXd x0(2);
  x0 << r.dy(1, 4), r.dy(1, 4);
  p.SetInitialState(x0);
  return p;
}
static std::shared_ptr<Traj> guess(int N, Rng r) {
  auto Z = std::make_shared<Traj>(N);
  Z->SetUniformStep(0.125);
  for (int k = 0; k < N; ++k) Z->Control(k)(0) = r.dy(1, 8);
  return Z;
}
static unsigned hash_bits(const Traj& Z) {
  uint64_t h = 1469598103934665603ull;
  auto add = [&h](double d) { uint64_t b; memcpy(&b, &d, 8); h = (h ^ b) * 1099511628211ull; h ^= h >> 31; };
  for (int k = 0; k <= Z.NumSegments(); ++k) { add(Z.State(k)(0)); add(Z.State(k)(1)); add(Z.Control(k)(0)); }
  return static_cast<unsigned>(h ^ (h >> 32)) & 0x7fffffff;
}
// bits of every cost and dynamics expansion
static unsigned hash_exp(IL& il, int N) {
  uint64_t h = 1469598103934665603ull;
  auto add = [&h](double d) { uint64_t b; memcpy(&b, &d, 8); h = (h ^ b) * 1099511628211ull; h ^= h >> 31; };
  for (int k = 0; k <= N; ++k) {
    auto& kp = il.GetKnotPointFunction(k);
    auto& c = kp.GetCostExpansion();
    for (int i = 0; i < 2; ++i) { add(c.dx()(i)); for (int j = 0; j < 2; ++j) add(c.dxdx()(i, j)); add(c.dxdu()(i, 0)); }
    add(c.du()(0)); add(c.dudu()(0, 0));
    if (k < N) { auto& d = kp.GetDynamicsExpansion(); for (int i = 0; i < 2; ++i) { for (int j = 0; j < 2; ++j) add(d.GetA()(i, j)); add(d.GetB()(i, 0)); } }
  }
  add(il.GetCosts().sum());
  return static_cast<unsigned>(h ^ (h >> 32)) & 0x7fffffff;
}

static std::vector<int> rand_inds(Rng& r, int N) {
  std::vector<int> v{0};
  for (int k = 1; k <= N; ++k) if (r.chance(40)) v.push_back(k);
  v.push_back(N + 1);
  return v;
}
struct Op { int op; int a = 0, b = 0; std::vector<int> v; };
struct Scen { int N; Rng pr{1}; std::vector<Op> ops; };
static Scen gen(Rng& r) {
  Scen S;
  S.N = r.range(1, 6);
  S.pr = Rng(r.next());
  int n = r.range(3, 7), threads = 0, cur = 1;
  bool fresh = true;
  for (int i = 0; i < n; ++i) {
    int c = r.below(100);
    if (fresh || c < 20) {
      int t = r.pick({1, 2, 2, 3, 4});
      if (threads + t > 9) t = cur;
      S.ops.push_back({OPTS, t, r.range(1, 3)});
      threads += t; cur = t; fresh = false;
    } else if (c < 45) S.ops.push_back({INDS, 0, 0, rand_inds(r, S.N)});
    else if (c < 52) S.ops.push_back({GOT});
    else if (c < 75) { S.ops.push_back({SETUP}); S.ops.push_back({EXPB, r.below(2)}); }
    else if (c < 92) S.ops.push_back({EXPB, r.below(2)});
    else { if (threads + cur > 10) continue; S.ops.push_back({SOLVE}); threads += 0; }
  }
  S.ops.push_back({SETUP});
  S.ops.push_back({EXPB, 0});
  S.ops.push_back({SOLVE});
  return S;
}
static void put(int kind, const std::vector<int>& v) {
  ev(kind, static_cast<int>(v.size()));
  for (int x : v) ev(VAL, x);
  ev(ENDV);
}
static void run(const Scen& S) {
  auto prob = make(S.N, S.pr);
  IL il(prob);
  auto Z = guess(S.N, S.pr);
  il.SetTrajectory(Z);
  il.GetOptions().max_iterations_inner = 4;
  bool have_setup = false;
  for (const Op& o : S.ops) {
    switch (o.op) {
      case OPTS: il.GetOptions().nthreads = o.a; il.GetOptions().tasks_per_thread = o.b; ev(OPTS, o.a, o.b); break;
      case INDS: { il.SetTaskAssignment(o.v); put(INDS, o.v); put(GOT, il.GetTaskAssignment()); break; }
      case GOT: put(GOT, il.GetTaskAssignment()); break;
      case SETUP: il.SolveSetup(); il.Rollout(); il.Cost(); have_setup = true; ev(SETUP, static_cast<int>(il.NumThreads())); put(GOT, il.GetTaskAssignment()); break;
      case EXPB: {
        if (!have_setup) break;
        ev(EXPB, static_cast<int>(il.NumThreads()));
        il.UpdateExpansions();
        ev(EXPE, 0);
        unsigned h = hash_exp(il, S.N);
        // the same expansions computed by a single-threaded solver
        IL ref(prob);
        auto Zr = std::make_shared<Traj>(*Z);
        ref.SetTrajectory(Zr);
        ref.GetOptions().nthreads = 1;
        ref.SolveSetup();
        ref.UpdateExpansions();
        unsigned h2 = hash_exp(ref, S.N);
        ev(NAMES, static_cast<int>(h), static_cast<int>(h2));
        if (o.a == 1) {   // barrier run: every block of the assignment at once, one thread each at least
          std::vector<int> inds = il.GetTaskAssignment();
          int nb = static_cast<int>(inds.size()) - 1;
          if (static_cast<int>(il.NumThreads()) >= nb && il.NumThreads() > 1) {
            std::vector<char> st(static_cast<size_t>(S.N) + 1, 0);
            for (int i = 0; i < nb; ++i) if (inds[i] >= 0 && inds[i] <= S.N) st[static_cast<size_t>(inds[i])] = 1;
            arrived = 0; failed = 0; expected = nb; starts = &st;
            ev(EXPB, static_cast<int>(il.NumThreads()));
            il.UpdateExpansions();
            ev(EXPE, 0);
            starts = nullptr; expected = 0;
            ev(BARRIER, nb, failed);
          }
        }
        break;
      }
      case SOLVE: {
        *Z = *guess(S.N, S.pr);
        ev(SOLVE, 0);
        il.Solve();
        IL ref(prob);
        auto Zr = guess(S.N, S.pr);
        ref.SetTrajectory(Zr);
        ref.GetOptions() = il.GetOptions();
        ref.GetOptions().nthreads = 1;
        ref.Solve();
        ev(SOLVE, 1);
        ev(NAMES, static_cast<int>(hash_bits(*Z)), static_cast<int>(hash_bits(*Zr)));
        ev(NAMES, static_cast<int>(il.GetStatus()) * 1000 + il.GetStats().iterations_inner, static_cast<int>(ref.GetStatus()) * 1000 + ref.GetStats().iterations_inner);
        have_setup = true;
        break;
      }
      default: break;
    }
  }
}
static std::string render(const sched::Log& L) {
  std::string o, calls;
  bool inexp = false, insolve = false;
  auto put = [&o](const std::string& s) { if (!o.empty()) o += ","; o += s; };
  for (int i = 0; i < L.n; ++i) {
    const sched::Ev& e = L.ev[i];
    vf::Obj j;
    switch (e.k) {
      case EXPB: inexp = true; calls.clear(); put(j.f("e", "begin").f("nt", e.a).str()); break;
      case GRAD: case HESS: case JAC:
        if (inexp) { calls += (calls.empty() ? "" : ",") + vf::Obj().f("c", e.k == GRAD ? "grad" : e.k == HESS ? "hess" : "jac").f("k", e.a).f("t", e.t).str(); }
        break;
      case EXPE: inexp = false; put(j.f("e", "expanded").raw("calls", "[" + calls + "]").str()); break;
      case OPTS: put(j.f("e", "opts").f("nt", e.a).f("tpt", e.b).str()); break;
      case INDS: case GOT: {
        std::vector<int> v;
        int k = i + 1;
        for (; k < L.n && L.ev[k].k == VAL; ++k) v.push_back(L.ev[k].a);
        i = k;
        put(j.f("e", e.k == INDS ? "custom" : "assignment").f("inds", v).str());
        break;
      }
      case SETUP: put(j.f("e", "setup").f("nt", e.a).str()); break;
      case SOLVE: insolve = e.a == 0; put(j.f("e", e.a ? "solved" : "solve").str()); break;
      case BARRIER: put(j.f("e", "barrier").f("n", e.a).f("failed", e.b).str()); break;
      case NAMES: put(j.f("e", "compare").f("a", e.a).f("b", e.b).str()); break;
      default: break;
    }
  }
  (void)insolve;
  return o;
}

static void child(sched::Log* L, const sched::Policy& P, const std::function<void()>& body) {
  int dn = open("/dev/null", O_WRONLY);
  dup2(dn, 1); dup2(dn, 2);
  alarm(20);
  sched::use_log(L);
  auto bad = [L](const sched::Outcome& o) { strncpy(L->bad, o.bad.c_str(), 15); strncpy(L->text, sched::race_text(), 175); };
  sched::run(P, body, bad, nullptr);
  L->done = 1;
  _exit(0);
}

int main(int argc, char** argv) {
  if (argc < 6) return 2;
  std::string kind = argv[1];
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  int count = atoi(argv[3]), nproc = atoi(argv[4]);
  std::string out = argv[5];
  std::vector<pid_t> kids;
  for (int w = 0; w < nproc; ++w) {
    pid_t pid = fork();
    if (pid == 0) {
      std::ofstream f(out + "." + std::to_string(w));
      auto* L = static_cast<sched::Log*>(mmap(nullptr, sizeof(sched::Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
      int hangs = 0;
      for (int i = w; i < count && hangs < 5; i += nproc) {
        if (!vf::wanted(i)) continue;
        Rng r(seed * 104729ull + static_cast<uint64_t>(i));
        if (kind == "expand") {
          Scen S = gen(r);
          sched::Policy P;
          P.mode = r.chance(30); P.seed = r.next(); P.stay = r.pick({0, 30, 60, 85, 95}); P.depth = r.range(1, 5); P.max_steps = 300000; P.quiet_steps = 5000;
          L->n = L->done = 0; L->bad[0] = L->text[0] = 0;
          pid_t c = fork();
          if (c == 0) child(L, P, [&S] { run(S); });
          int st = 0;
          waitpid(c, &st, 0);
          if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ++hangs;
          if (!L->done && !L->bad[0]) strcpy(L->bad, WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "hang" : WTERMSIG(st) == SIGABRT ? "abort" : "signal") : "exit");
          f << "{\"id\":" << i << ",\"N\":" << S.N << ",\"bad\":" << vf::js(L->bad) << ",\"text\":" << vf::js(L->text) << ",\"ev\":[" << render(*L) << "]}\n";
        } else if (kind == "default") {
          // all sizes up to 12, then random ones
          int N = i < 12 ? i + 1 : r.chance(50) ? r.range(13, 120) : r.range(120, 3000);
          std::string evs = vf::run_child([&](vf::Sink& s) {
            for (int q = 0; q < 48; ++q) {
              int nt = i < 12 ? q % 8 + 1 : r.range(1, 64), tp = i < 12 ? q / 8 + 1 : r.range(1, 40);
              if (q == 47 && i >= 12) { nt = r.pick({0, -1, -3}); }
              IL il(N);
              il.GetOptions().nthreads = nt; il.GetOptions().tasks_per_thread = tp;
              std::vector<int> v = il.GetTaskAssignment();
              s.ev(vf::Obj().f("e", "opts").f("nt", nt).f("tpt", tp));
              s.ev(vf::Obj().f("e", "assignment").f("inds", v));
            }
          });
          f << "{\"id\":" << i << ",\"N\":" << N << ",\"bad\":\"\",\"text\":\"\",\"ev\":[" << evs << "]}\n";
        } else {
          int N = r.range(1, 6);
          std::string evs;
          for (int q = 0; q < 12; ++q) {
            std::vector<int> v = rand_inds(r, N);
            int c = r.below(9);
            if (c == 1) v[0] = r.pick({-1, 1});
            if (c == 2) v.back() += r.pick({-1, 1});
            if (c == 3) { size_t p = static_cast<size_t>(r.below(static_cast<int>(v.size()))); v.insert(v.begin() + static_cast<long>(p), v[p]); }
            if (c == 4 && v.size() > 3) std::swap(v[1], v[2]);
            if (c == 5) v.resize(static_cast<size_t>(r.below(2)));
            if (c == 6) { v.assign(static_cast<size_t>(r.range(2, 4)), 0); for (int& x : v) x = r.range(0, N + 1); }
            int nt = r.range(1, 3);
            std::string e = vf::run_child([&](vf::Sink& s) {
              auto prob = make(N, Rng(5));
              IL il(prob);
              il.GetOptions().nthreads = nt;
              std::vector<int> before = r.chance(50) ? std::vector<int>() : rand_inds(r, N);
              s.ev(vf::Obj().f("e", "opts").f("nt", nt).f("tpt", 1));
              if (!before.empty()) { il.SetTaskAssignment(before); s.ev(vf::Obj().f("e", "custom").f("inds", before)); }
              s.ev(vf::Obj().f("e", "try").f("inds", v));
              il.SetTaskAssignment(v);
              s.ev(vf::Obj().f("e", "custom").f("inds", v));
              s.ev(vf::Obj().f("e", "assignment").f("inds", il.GetTaskAssignment()));
            });
            evs += (evs.empty() ? "" : ",") + std::string("{\"e\":\"new\"}") + (e.empty() ? "" : ",") + e;
          }
          f << "{\"id\":" << i << ",\"N\":" << N << ",\"bad\":\"\",\"text\":\"\",\"ev\":[" << evs << "]}\n";
        }
      }
      f.close();
      _exit(f.fail() ? 3 : 0);
    }
    kids.push_back(pid);
  }
  int bad = 0;
  for (pid_t k : kids) { int st; waitpid(k, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) bad = 1; }
  return bad;
}
