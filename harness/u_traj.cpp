// Histories of trajectory and knot point operations.  See spec/Traj.tla.
#include "util.hpp"
#include "altro/common/trajectory.hpp"
using namespace vf;
using Eigen::VectorXd;
namespace {
constexpr int SLOTS = 3;
template <int n_, int m_>
struct W {
  using Z = altro::Trajectory<n_, m_>;
  using K = altro::KnotPoint<n_, m_>;
  using KD = altro::KnotPoint<Eigen::Dynamic, Eigen::Dynamic>;
  using XV = altro::VectorN<n_>;
  using UV = altro::VectorN<m_>;
  Rng& r; Sink& s; int n, m;
  std::unique_ptr<Z> z[SLOTS];
  bool moved[SLOTS] = {};

  template <class V> V vec(int d) { V v(d); for (int i = 0; i < d; ++i) v(i) = r.dy(4, 4); return v; }
  XV xv() { XV v = XV::Zero(n); for (int i = 0; i < n; ++i) v(i) = r.dy(4, 4); return v; }
  UV uv() { UV v = UV::Zero(m); for (int i = 0; i < m; ++i) v(i) = r.dy(4, 4); return v; }
  float step() { return r.pick({0.0f, 0.125f, 0.25f, 0.5f, 1.0f}); }
  static std::string kjson(const K& k) { return Obj().raw("x", jvec(k.State())).raw("u", jvec(k.Control())).f("t", k.GetTime()).f("h", k.GetStep()).str(); }

  void state(int i) {
    Z& t = *z[i];
    const Z& c = t;
    int N = t.NumSegments();
    op("query");
    std::string a = "[", b = "[", it = "[", sc = "[";
    std::vector<int> dims; std::vector<bool> term;
    for (int k = 0; k <= N; ++k) {
      a += (k ? "," : "") + Obj().raw("x", jvec(t.State(k))).raw("u", jvec(t.Control(k))).f("t", t.GetTime(k)).f("h", t.GetStep(k)).str();
      const K& kp = c.GetKnotPoint(k);
      b += (k ? "," : "") + Obj().raw("x", jvec(c.State(k))).raw("u", jvec(c.Control(k))).f("t", kp.GetTime()).f("h", kp.GetStep()).str();
      op("GetStateControl");
      sc += (k ? "," : "") + jvec(kp.GetStateControl());
      op("query");
      dims.push_back(t.StateDimension(k)); dims.push_back(t.ControlDimension(k));
      dims.push_back(kp.StateDimension()); dims.push_back(kp.ControlDimension());
      term.push_back(kp.IsTerminal());
    }
    for (const K& k : c) it += (it.size() > 1 ? "," : "") + kjson(k);
    s.ev(Obj().f("e", "state").f("p", i).f("N", N).raw("a", a + "]").raw("b", b + "]").raw("it", it + "]").raw("sc", sc + "]").f("dims", dims).f("term", term));
  }
  void fresh(int i) {
    int N = r.pick({0, 1, 1, 2, 3, 5});
    int how = r.below(4);
    moved[i] = false;
    op("construction");
    if (how == 0) {
      s.ev(Obj().f("e", "new").f("p", i).f("N", N).f("n", n).f("m", m));
      z[i] = sized(N, std::integral_constant<bool, (n_ > 0 && m_ > 0)>());
    } else if (how == 1) {
      s.ev(Obj().f("e", "new").f("p", i).f("N", N).f("n", n).f("m", m));
      z[i] = std::make_unique<Z>(n, m, N);
    } else if (how == 2) {
      if (N == 0) N = 1;
      std::vector<XV> X; std::vector<UV> U; std::vector<float> t;
      std::string xs = "[", us = "[";
      float now = r.chance(50) ? 0.0f : static_cast<float>(r.dy(3, 4));
      for (int k = 0; k <= N; ++k) {
        X.push_back(xv()); xs += (k ? "," : "") + jvec(X.back());
        if (k < N) { U.push_back(uv()); us += (k ? "," : "") + jvec(U.back()); }
        t.push_back(now);
        now += step();
      }
      s.ev(Obj().f("e", "lists").f("p", i).raw("X", xs + "]").raw("U", us + "]").f("t", t));
      z[i] = std::make_unique<Z>(X, U, t);
    } else {
      std::vector<K> ks; std::string js_ = "[";
      for (int k = 0; k <= N; ++k) { ks.emplace_back(xv(), uv(), step(), step()); js_ += (k ? "," : "") + kjson(ks.back()); }
      s.ev(Obj().f("e", "kps").f("p", i).raw("z", js_ + "]"));
      z[i] = std::make_unique<Z>(ks);
    }
  }
  std::unique_ptr<Z> sized(int N, std::true_type) { return std::make_unique<Z>(N); }
  std::unique_ptr<Z> sized(int N, std::false_type) { return std::make_unique<Z>(n, m, N); }

  void mutate(int i) {
    Z& t = *z[i];
    int N = t.NumSegments(), k = r.below(N + 1);
    int via = r.below(3);
    auto kp = [&]() -> K& { return via == 1 ? t.GetKnotPoint(k) : t[k]; };
    switch (r.below(12)) {
      case 0: { XV v = xv(); s.ev(Obj().f("e", "x").f("p", i).f("k", k).raw("v", jvec(v))); if (via == 0) t.State(k) = v; else kp().State() = v; break; }
      case 1: { UV v = uv(); s.ev(Obj().f("e", "u").f("p", i).f("k", k).raw("v", jvec(v))); if (via == 0) t.Control(k) = v; else kp().Control() = v; break; }
      case 2: { int j = r.below(n); double v = r.dy(4, 4); s.ev(Obj().f("e", "xi").f("p", i).f("k", k).f("j", j).f("v", v)); if (via == 0) t.State(k)(j) = v; else kp().State()(j) = v; break; }
      case 3: { float v = static_cast<float>(r.dy(4, 8)); s.ev(Obj().f("e", "t").f("p", i).f("k", k).f("v", v)); if (via == 0) t.SetTime(k, v); else kp().SetTime(v); break; }
      case 4: {
        float v = step();
        if (r.chance(50) && k < N) v = static_cast<float>(t.GetTime(k + 1)) - static_cast<float>(t.GetTime(k));
        if (r.chance(30)) v += r.pick({7.62939453125e-06f, -7.62939453125e-06f, 2.384185791015625e-07f, -2.384185791015625e-07f});
        s.ev(Obj().f("e", "h").f("p", i).f("k", k).f("v", v)); if (via == 0) t.SetStep(k, v); else kp().SetStep(v); break; }
      case 5: { op("SetZero"); s.ev(Obj().f("e", "zero").f("p", i)); t.SetZero(); break; }
      case 6: case 7: { float h = r.pick({0.0625f, 0.125f, 0.25f, 0.5f, 1.0f, 0.75f, 0.0f}); op("SetUniformStep"); s.ev(Obj().f("e", "uniform").f("p", i).f("h", h)); t.SetUniformStep(h); break; }
      case 8: { s.ev(Obj().f("e", "terminal").f("p", i).f("k", k)); t.GetKnotPoint(k).SetTerminal(); break; }
      case 9: {   // a knot point of this or another trajectory
        int j = r.below(SLOTS);
        if (!z[j] || moved[j]) j = i;
        int l = r.below(z[j]->NumSegments() + 1);
        op("knot point assignment");
        s.ev(Obj().f("e", "kcopy").f("p", i).f("k", k).f("from", j).f("l", l));
        switch (r.below(4)) {
          case 0: t[k] = (*z[j])[l]; break;
          case 1: { K tmp((*z[j])[l]); t[k] = std::move(tmp); break; }
          case 2: { K tmp((*z[j])[l]); K t2(std::move(tmp)); t.GetKnotPoint(k) = t2; break; }
          case 3: { KD d((*z[j])[l]); K back(d); t[k] = back; break; }
        }
        break;
      }
      case 10: {
        op("conversion");
        KD d(t[k]);
        s.ev(Obj().f("e", "conv").f("p", i).f("k", k).f("n", d.StateDimension()).f("m", d.ControlDimension()).raw("x", jvec(d.State())).raw("u", jvec(d.Control())).f("t", d.GetTime()).f("h", d.GetStep()));
        d = t[r.below(N + 1)];
        break;
      }
      case 11: {
        op("KnotPoint::Random");
        K a = K::Random(n, m);
        t[k] = a;
        s.ev(Obj().f("e", "random").f("p", i).f("k", k).raw("z", kjson(a)));
        break;
      }
    }
  }
  void check(int i) {
    double eps = r.chance(50) ? 1e-6 : r.pick({0.2, 1e-3, 3e-6});
    Z& t = *z[i];
    if (t.NumSegments() > 0 && r.chance(30)) {   // consistent but for one step, which is off by about the tolerance
      op("SetUniformStep");
      float h = r.pick({0.125f, 1.0f, 3.0f, 6.0f});
      s.ev(Obj().f("e", "uniform").f("p", i).f("h", h));
      t.SetUniformStep(h);
      int k = r.below(t.NumSegments());
      float v = h + static_cast<float>(eps * r.pick({0.0, 0.5, -0.5, 1.9, -1.9, 4.0, -4.0}));
      s.ev(Obj().f("e", "h").f("p", i).f("k", k).f("v", v));
      t.SetStep(k, v);
    }
    op("CheckTimeConsistency");
    bool ok = eps == 1e-6 ? z[i]->CheckTimeConsistency() : z[i]->CheckTimeConsistency(eps, r.chance(30));
    s.ev(Obj().f("e", "check").f("p", i).f("eps", eps).f("ok", ok));
  }
  void states() { for (int i = 0; i < SLOTS; ++i) if (z[i] && !moved[i]) state(i); }
  void go() {
    fresh(0);
    states();
    int len = r.range(4, 22);
    for (int a = 0; a < len; ++a) {
      int i = r.below(SLOTS);
      int j = r.below(SLOTS);
      bool src = j != i && z[j] && !moved[j];
      int c = r.below(100);
      if (!z[i] || moved[i] || c < 15) {
        if (src && r.chance(75)) {
          bool mv = r.chance(40), assign = z[i] != nullptr;
          op(mv ? "move" : "copy");
          s.ev(Obj().f("e", mv ? "move" : "copy").f("p", i).f("from", j));
          if (assign) { if (mv) *z[i] = std::move(*z[j]); else *z[i] = *z[j]; }
          else { if (mv) z[i] = std::make_unique<Z>(std::move(*z[j])); else z[i] = std::make_unique<Z>(*z[j]); }
          if (mv) moved[j] = true;
          moved[i] = false;
        } else if (!z[i] || moved[i]) {
          fresh(i);
        } else {
          continue;
        }
      } else if (c < 30) {
        check(i);
        continue;
      } else {
        mutate(i);
        if (r.chance(30)) check(i);
      }
      states();
    }
  }
};
void gen(Rng& R, Sink& s) {
  switch (R.below(4)) {
    case 0: { W<2, 1> w{R, s, 2, 1}; w.go(); break; }
    case 1: { W<3, 2> w{R, s, 3, 2}; w.go(); break; }
    default: { W<-1, -1> w{R, s, R.range(1, 4), R.range(1, 3)}; w.go(); }
  }
}
Reg reg("traj", gen);
}  // namespace
