// Histories of problem objects: setters, copies, moves, queries, and the solvers built from them.  See spec/Problem.tla.
#include <iostream>
#include "util.hpp"
#include "altro/problem/problem.hpp"
#include "altro/ilqr/ilqr.hpp"
#include "altro/augmented_lagrangian/al_solver.hpp"
using namespace vf;
using altro::VectorXdRef;
using Eigen::MatrixXd;
using Eigen::VectorXd;
namespace {
std::vector<int>* calls = nullptr;
class MCost : public altro::problem::CostFunction {
 public:
  explicit MCost(int id) : id(id) {}
  int StateDimension() const override { return 2; }
  int ControlDimension() const override { return 1; }
  double Evaluate(const VectorXdRef&, const VectorXdRef&) override { if (calls) calls->push_back(id); return 0; }
  void Gradient(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override { dx.setZero(); du.setZero(); }
  void Hessian(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<MatrixXd> xx, Eigen::Ref<MatrixXd> xu, Eigen::Ref<MatrixXd> uu) override { xx.setZero(); xu.setZero(); uu.setIdentity(); }
  int id;
};
class MDyn : public altro::problem::DiscreteDynamics {
 public:
  MDyn(int id, int n, int m) : id(id), n_(n), m_(m) {}
  int StateDimension() const override { return n_; }
  int ControlDimension() const override { return m_; }
  bool HasHessian() const override { return false; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef&, float, float, Eigen::Ref<VectorXd> xn) override { xn = x; }
  void Jacobian(const VectorXdRef&, const VectorXdRef&, float, float, Eigen::Ref<MatrixXd> j) override { j.setIdentity(); }
  void Hessian(const VectorXdRef&, const VectorXdRef&, float, float, const VectorXdRef&, Eigen::Ref<MatrixXd>) override {}
  int id;
 private:
  int n_, m_;
};
template <class C>
class MCon : public altro::constraints::Constraint<C> {
 public:
  MCon(int id, std::vector<double> v) : id(id), v_(v) {}
  int StateDimension() const override { return 2; }
  int ControlDimension() const override { return 1; }
  int OutputDimension() const override { return static_cast<int>(v_.size()); }
  std::string GetLabel() const override { return "con" + std::to_string(id); }
  void Evaluate(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<VectorXd> c) override { for (size_t i = 0; i < v_.size(); ++i) c(static_cast<int>(i)) = v_[i]; }
  void Jacobian(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<MatrixXd> j) override { j.setZero(); }
  int id;
 private:
  std::vector<double> v_;
};
using Eq = altro::constraints::Equality;
using In = altro::constraints::Inequality;
using altro::problem::Problem;
constexpr int SLOTS = 4;

struct W {
  Rng& r; Sink& s;
  std::unique_ptr<Problem> p[SLOTS];
  bool moved[SLOTS] = {}, shared[SLOTS] = {};
  int next = 0;
  bool oddDims = false;
  Capture cap;

  std::string idsOf(const std::vector<std::shared_ptr<altro::constraints::Constraint<Eq>>>& v) { std::vector<int> o; for (auto& c : v) o.push_back(std::dynamic_pointer_cast<MCon<Eq>>(c)->id); return js(o); }
  std::string idsOf(const std::vector<std::shared_ptr<altro::constraints::Constraint<In>>>& v) { std::vector<int> o; for (auto& c : v) o.push_back(std::dynamic_pointer_cast<MCon<In>>(c)->id); return js(o); }

  void state(int i) {
    Problem& P = *p[i];
    int N = P.NumSegments();
    op("query");
    std::vector<int> cost, dyn, ncon;
    std::string eq = "[", in = "[", term = "[]";
    cap.take();
    bool d0 = P.IsFullyDefined();
    std::string silent = cap.take();
    bool d1 = P.IsFullyDefined(true);
    std::string out = cap.take();
    std::vector<bool> pass;
    for (size_t a = 0; (a = out.find("Index ", a)) != std::string::npos; ++a) {
      size_t e = out.find('\n', a);
      pass.push_back(out.substr(a, e - a).find("PASS") != std::string::npos);
    }
    for (int k = 0; k <= N; ++k) {
      auto c = P.GetCostFunction(k);
      cost.push_back(c ? std::dynamic_pointer_cast<MCost>(c)->id : 0);
      ncon.push_back(P.NumConstraints(k));
      eq += (k ? "," : "") + idsOf(P.GetEqualityConstraints().at(static_cast<size_t>(k)));
      in += (k ? "," : "") + idsOf(P.GetInequalityConstraints().at(static_cast<size_t>(k)));
      if (has[i][k]) {
        auto m = P.GetDynamics(k);
        auto md = std::dynamic_pointer_cast<MDyn>(m);
        dyn.push_back(md ? md->id : -1);
        if (k == N) term = js(std::vector<int>{m->StateDimension(), m->ControlDimension()});
      } else {
        dyn.push_back(0);
      }
    }
    s.ev(Obj().f("e", "state").f("p", i).f("N", N).raw("x0", jvec(P.GetInitialState())).f("cost", cost).f("dyn", dyn).raw("term", term)
             .raw("eq", eq + "]").raw("in", in + "]").f("ncon", ncon).f("total", P.NumConstraints()).f("def", d0).f("defv", d1).f("pass", pass).f("silent", silent.empty()));
  }
  // which dynamics were set: only so that the documented precondition of GetDynamics is kept
  std::vector<bool> has[SLOTS];

  VectorXd x0() { int n = r.chance(85) ? 2 : r.pick({0, 1, 3}); VectorXd v(n); for (int i = 0; i < n; ++i) v(i) = r.dy(3, 2); return v; }
  void fresh(int i) {
    int N = r.pick({0, 1, 1, 2, 2, 3, 4});
    has[i].assign(static_cast<size_t>(N) + 1, false);
    moved[i] = false;
    int j = r.below(SLOTS);
    op("new");
    if (r.chance(15) && j != i && p[j] && !moved[j]) {
      auto ptr = p[j]->GetInitialStatePointer();
      s.ev(Obj().f("e", "new").f("p", i).f("N", N).f("share", j));
      p[i] = std::make_unique<Problem>(N, ptr);
      shared[i] = shared[j] = true;
    } else if (r.chance(25)) {
      VectorXd v = x0();
      s.ev(Obj().f("e", "new").f("p", i).f("N", N).f("share", -1).raw("v", jvec(v)));
      p[i] = std::make_unique<Problem>(N, std::make_shared<VectorXd>(v));
      shared[i] = false;
    } else {
      s.ev(Obj().f("e", "new").f("p", i).f("N", N).f("share", -1).raw("v", "[]"));
      p[i] = std::make_unique<Problem>(N);
      shared[i] = false;
    }
  }
  std::shared_ptr<MDyn> dyn(std::string* dims, std::vector<int>* ids) {
    int n = 2, m = 1;
    if (oddDims) { n = r.range(1, 3); m = r.range(1, 2); }
    *dims += (dims->size() > 1 ? "," : "") + js(std::vector<int>{n, m});
    ids->push_back(++next);
    return std::make_shared<MDyn>(next, n, m);
  }
  void mutate(int i) {
    Problem& P = *p[i];
    int N = P.NumSegments();
    switch (r.below(12)) {
      case 0: case 1: {
        int k = r.below(N + 1);
        std::shared_ptr<MCost> c;
        if (!r.chance(10)) c = std::make_shared<MCost>(++next);
        op("SetCostFunction");
        s.ev(Obj().f("e", "cost").f("p", i).f("k", k).f("ids", std::vector<int>{c ? c->id : 0}));
        P.SetCostFunction(c, k);
        break;
      }
      case 2: case 3: {
        int k = r.below(N + 1), cnt = r.chance(70) ? N + 1 - k : r.range(0, N + 1 - k);
        if (r.chance(60)) { k = 0; cnt = N + 1; }
        std::vector<std::shared_ptr<MCost>> v; std::vector<int> ids;
        for (int j = 0; j < cnt; ++j) { v.push_back(std::make_shared<MCost>(++next)); ids.push_back(next); }
        op("SetCostFunction(vector)");
        s.ev(Obj().f("e", "cost").f("p", i).f("k", k).f("ids", ids));
        if (k == 0 && r.chance(50)) P.SetCostFunction(v); else P.SetCostFunction(v, k);
        break;
      }
      case 4: case 5: {
        if (N == 0) return;
        int k = r.below(N);
        std::string dims = "["; std::vector<int> ids;
        auto d = dyn(&dims, &ids);
        op("SetDynamics");
        s.ev(Obj().f("e", "dyn").f("p", i).f("k", k).f("ids", ids).raw("dims", dims + "]"));
        P.SetDynamics(d, k);
        has[i][k] = true; if (k == N - 1) has[i][N] = true;
        break;
      }
      case 6: case 7: {
        if (N == 0) return;
        int k = r.below(N), cnt = r.chance(70) ? N - k : r.range(0, N - k);
        if (r.chance(60)) { k = 0; cnt = N; }
        std::string dims = "["; std::vector<int> ids;
        std::vector<std::shared_ptr<MDyn>> v;
        for (int j = 0; j < cnt; ++j) v.push_back(dyn(&dims, &ids));
        op("SetDynamics(vector)");
        s.ev(Obj().f("e", "dyn").f("p", i).f("k", k).f("ids", ids).raw("dims", dims + "]"));
        if (k == 0 && r.chance(50)) P.SetDynamics(v); else P.SetDynamics(v, k);
        for (int j = 0; j < cnt; ++j) { has[i][k + j] = true; if (k + j == N - 1) has[i][N] = true; }
        break;
      }
      case 8: case 9: case 10: {
        int k = r.below(N + 1);
        bool eq = r.chance(45);
        int dim = r.range(1, 3);
        std::vector<double> v;
        for (int j = 0; j < dim; ++j) v.push_back(r.dy(4, 4));
        ++next;
        op("SetConstraint");
        s.ev(Obj().f("e", "con").f("p", i).f("k", k).f("eq", eq).f("id", next).f("v", v));
        if (eq) {
          auto c = std::make_shared<MCon<Eq>>(next, v);
          if (r.chance(30)) { altro::constraints::ConstraintPtr<Eq> b = c; P.SetConstraint(b, k); } else P.SetConstraint(c, k);
        } else {
          auto c = std::make_shared<MCon<In>>(next, v);
          if (r.chance(30)) { altro::constraints::ConstraintPtr<In> b = c; P.SetConstraint(b, k); } else P.SetConstraint(c, k);
        }
        break;
      }
      case 11: {
        VectorXd v = x0();
        op("SetInitialState");
        s.ev(Obj().f("e", "x0").f("p", i).raw("v", jvec(v)));
        P.SetInitialState(v);
        break;
      }
    }
  }
  // every slot that can be looked at
  void states() { for (int i = 0; i < SLOTS; ++i) if (p[i] && !moved[i]) state(i); }

  // what was printed, read back: the number in the first line, then label, knot point and numbers of every line
  static std::string lines(const std::string& text) {
    std::string o = "[";
    std::istringstream in(text);
    bool first = true;
    for (std::string l; std::getline(in, l);) {
      if (first) { first = false; size_t d = l.find_first_of("0123456789"); o += Obj().f("n", d == std::string::npos ? -1 : atoi(l.c_str() + d)).str(); continue; }
      size_t at = l.rfind(" at index "), open = l.find('[', at), close = l.rfind(']');
      if (at == std::string::npos || open == std::string::npos || close == std::string::npos) { o += ",{\"label\":\"?\",\"k\":-1,\"v\":[]}"; continue; }
      std::string nums = l.substr(open + 1, close - open - 1);
      for (char& ch : nums) if (ch == ',' || ch == ';') ch = ' ';
      std::vector<double> v;
      std::istringstream ns(nums);
      for (double x; ns >> x;) v.push_back(x);
      o += "," + Obj().f("label", l.substr(0, at)).f("k", atoi(l.c_str() + at + 10)).f("v", v).str();
    }
    return o + "]";
  }
  void solvers(int i) {
    Problem& P = *p[i];
    int N = P.NumSegments();
    if (N < 1 || !P.IsFullyDefined()) return;
    if (oddDims) return;
    auto Z1 = std::make_shared<altro::Trajectory<-1, -1>>(2, 1, N), Z2 = std::make_shared<altro::Trajectory<-1, -1>>(2, 1, N);
    Z1->SetUniformStep(0.5f); Z2->SetUniformStep(0.5f);
    op("iLQR construction");
    altro::ilqr::iLQR<-1, -1> ilqr(N);
    altro::ilqr::iLQR<-1, -1> ilqr2(P);
    ilqr.InitializeFromProblem(P);
    op("AL construction");
    std::unique_ptr<altro::augmented_lagrangian::AugmentedLagrangianiLQR<-1, -1>> al;
    if (r.chance(50)) al = std::make_unique<altro::augmented_lagrangian::AugmentedLagrangianiLQR<-1, -1>>(P);
    else { al = std::make_unique<altro::augmented_lagrangian::AugmentedLagrangianiLQR<-1, -1>>(N); al->InitializeFromProblem(P); }
    ilqr.SetTrajectory(Z1);
    ilqr2.SetTrajectory(Z1);
    al->SetTrajectory(Z2);
    op("solver queries");
    auto seen = [&](altro::ilqr::iLQR<-1, -1>& q, const char* which) {
      std::vector<int> cost, dyn;
      std::vector<int> got;
      VectorXd x(2), u(1);
      x.setZero(); u.setZero();
      for (int k = 0; k <= N; ++k) {
        got.clear(); calls = &got;
        q.GetKnotPointFunction(k).Cost(x, u);
        calls = nullptr;
        cost.push_back(got.size() == 1 ? got[0] : -99);
        auto d = std::dynamic_pointer_cast<MDyn>(q.GetKnotPointFunction(k).GetModelPtr());
        dyn.push_back(d ? d->id : -1);
      }
      s.ev(Obj().f("e", "solver").f("p", i).f("which", which).f("N", q.NumSegments()).f("cost", cost).f("dyn", dyn));
    };
    seen(ilqr, "ilqr"); seen(ilqr2, "ilqr"); seen(al->GetiLQRSolver(), "al");
    {
      std::vector<int> ncon;
      for (int k = 0; k <= N; ++k) ncon.push_back(al->NumConstraints(k));
      double mv = al->MaxViolation();
      std::string info = "[";
      for (auto& c : al->GetConstraintInfo()) info += (info.size() > 1 ? "," : "") + Obj().f("label", c.label).f("k", c.index).raw("v", jvec(c.violation)).str();
      s.ev(Obj().f("e", "al").f("p", i).f("ncon", ncon).f("total", al->NumConstraints()).raw("info", info + "]").f("max", mv));
      bool sorted = r.chance(50);
      int prec = r.range(1, 8);
      info = "[";
      for (auto& c : al->GetConstraintInfo(sorted)) info += (info.size() > 1 ? "," : "") + Obj().f("label", c.label).f("k", c.index).raw("v", jvec(c.violation)).str();
      op("PrintViolations");
      cap.take();
      if (prec == 4 && r.chance(50)) { if (sorted) al->PrintViolations(true); else al->PrintViolations(); }
      else al->PrintViolations(sorted, prec);
      std::string text = cap.take();
      auto all = al->GetConstraintInfo();
      std::string one = all.empty() ? "" : all.back().ToString(prec), str = "";
      if (!all.empty()) { std::ostringstream os; os << all.back(); str = os.str(); }
      s.ev(Obj().f("e", "print").f("p", i).f("sorted", sorted).f("prec", prec).raw("info", info + "]").raw("lines", lines(text))
               .raw("one", all.empty() ? "[]" : lines("x\n" + one + "\n" + str + "\n")));
    }
    for (int rep = 0; rep < 2; ++rep) {
      int who = i;
      if (rep) {
        VectorXd v(2); v << r.dy(3, 2), r.dy(3, 2);
        s.ev(Obj().f("e", "x0").f("p", who).raw("v", jvec(v)));
        P.SetInitialState(v);
        if (r.chance(50)) {   // changes of another problem must not be seen
          for (int j = 0; j < SLOTS; ++j) if (j != i && p[j] && !moved[j]) {
            s.ev(Obj().f("e", "x0").f("p", j).raw("v", jvec(x0q = x0())));
            p[j]->SetInitialState(x0q);
            break;
          }
        }
      }
      if (P.GetInitialState().size() != 2) break;
      ilqr.Rollout(); 
      VectorXd a = Z1->State(0);
      ilqr2.Rollout();
      VectorXd a2 = Z1->State(0);
      al->GetiLQRSolver().Rollout();
      VectorXd b = Z2->State(0);
      s.ev(Obj().f("e", "follow").f("p", i).raw("ilqr", jvec(a)).raw("ilqr2", jvec(a2)).raw("al", jvec(b)));
    }
    states();
  }
  VectorXd x0q;

  void go() {
    oddDims = r.chance(15);
    fresh(0);
    int len = r.range(4, 24);
    for (int step = 0; step < len; ++step) {
      int i = r.below(SLOTS);
      if (!p[i] || moved[i]) { if (r.chance(60)) i = 0; }
      int c = r.below(100);
      if (!p[i]) {
        int j = r.below(SLOTS);
        if (r.chance(65) && p[j] && !moved[j] && j != i) {
          bool mv = r.chance(40);
          op(mv ? "move construction" : "copy construction");
          s.ev(Obj().f("e", mv ? "movector" : "copyctor").f("from", j).f("p", i));
          if (mv) { p[i] = std::make_unique<Problem>(std::move(*p[j])); moved[j] = true; shared[i] = shared[j]; }
          else { p[i] = std::make_unique<Problem>(*p[j]); shared[i] = false; }
          has[i] = has[j];
          moved[i] = false;
        } else {
          fresh(i);
        }
      } else if (moved[i] || c < 14) {
        int j = r.below(SLOTS);
        if (j == i || !p[j] || moved[j] || shared[i]) {
          if (moved[i] && r.chance(50)) { op("destruction"); s.ev(Obj().f("e", "drop").f("p", i)); p[i].reset(); moved[i] = false; }
          continue;
        }
        bool mv = r.chance(40);
        op(mv ? "move assignment" : "copy assignment");
        s.ev(Obj().f("e", mv ? "moveassign" : "copyassign").f("from", j).f("p", i));
        if (mv) { *p[i] = std::move(*p[j]); moved[j] = true; } else { *p[i] = *p[j]; }
        has[i] = has[j];
        moved[i] = false;
      } else if (c < 18) {
        op("destruction");
        s.ev(Obj().f("e", "drop").f("p", i)); p[i].reset();
      } else {
        mutate(i);
      }
      states();
    }
    int who = r.below(SLOTS);
    for (int j = 0; j < SLOTS; ++j, who = (who + 1) % SLOTS) {
      if (p[who] && !moved[who]) {
        if (r.chance(80) && !oddDims) {   // complete it
          int N = p[who]->NumSegments();
          for (int k = 0; k <= N; ++k) if (!p[who]->GetCostFunction(k)) { s.ev(Obj().f("e", "cost").f("p", who).f("k", k).f("ids", std::vector<int>{++next})); p[who]->SetCostFunction(std::make_shared<MCost>(next), k); }
          for (int k = 0; k < N; ++k) if (!has[who][k]) {
            std::string dims = "["; std::vector<int> ids; auto d = dyn(&dims, &ids);
            s.ev(Obj().f("e", "dyn").f("p", who).f("k", k).f("ids", ids).raw("dims", dims + "]"));
            p[who]->SetDynamics(d, k); has[who][k] = true; if (k == N - 1) has[who][N] = true;
          }
          VectorXd v(2); v << r.dy(3, 2), r.dy(3, 2);
          s.ev(Obj().f("e", "x0").f("p", who).raw("v", jvec(v)));
          p[who]->SetInitialState(v);
        }
        solvers(who);
        break;
      }
    }
  }
};
void gen(Rng& r, Sink& s) { W w{r, s}; w.go(); }
Reg reg("problem", gen);
}  // namespace
