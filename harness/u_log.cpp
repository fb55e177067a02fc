// Histories of the iteration logger ("logger"), of the statistics object ("stats") and the output of whole solves
// ("solvelog").  See spec/Logger.tla and spec/Stats.tla.
#include "util.hpp"
#include "prob.hpp"
#include "altro/common/solver_logger.hpp"
#include "altro/common/solver_stats.hpp"
#include "altro/ilqr/ilqr.hpp"
#include "altro/augmented_lagrangian/al_solver.hpp"
using namespace vf;
namespace {
using altro::LogEntry;
using altro::LogLevel;
using altro::SolverLogger;

// Lines of the output: the visible text and, for each character, the colour in force (-1: none)
std::string lines(const std::string& out) {
  std::string js_ = "[";
  std::string plain, segs;
  int cur = -1, segcol = -2; std::string seg;
  bool any = false;
  auto flush = [&]() { if (!seg.empty()) { segs += (segs.empty() ? "" : ",") + Obj().f("c", segcol).f("s", seg).str(); seg.clear(); } };
  auto endline = [&]() { flush(); js_ += (any ? "," : "") + Obj().f("s", plain).raw("g", "[" + segs + "]").str(); any = true; plain.clear(); segs.clear(); };
  for (size_t i = 0; i < out.size(); ++i) {
    if (out[i] == '\x1b') {
      size_t e = out.find('m', i);
      std::string code = out.substr(i + 2, e - i - 2);
      int r, g, b;
      if (sscanf(code.c_str(), "38;2;%d;%d;%d", &r, &g, &b) == 3) cur = r * 65536 + g * 256 + b;
      else if (code == "0") cur = -1;
      i = e;
      continue;
    }
    if (out[i] == '\n') { endline(); continue; }
    if (cur != segcol) { flush(); segcol = cur; }
    seg += out[i]; plain += out[i];
  }
  if (!plain.empty()) endline();
  return js_ + "]";
}
struct Col { std::string title, fmt; int type; };
const std::vector<fmt::color> COLORS = {fmt::color::green, fmt::color::red, fmt::color::cyan, fmt::color::yellow, fmt::color::magenta, fmt::color::white};

struct W {
  Rng& r; Sink& s;
  Capture cap;
  std::unique_ptr<SolverLogger> L = nullptr;
  std::vector<Col> cols;
  std::vector<double> lb, ub;

  int rgb(fmt::color c) { return static_cast<int>(static_cast<uint32_t>(c)); }
  void print(const char* how) {
    op(how);
    cap.take();
    std::string h = how;
    if (h == "print") L->Print(); else if (h == "header") L->PrintHeader(); else L->PrintData();
    s.ev(Obj().f("e", h).raw("out", lines(cap.take())));
  }
  void add() {
    static const char* names[] = {"iters", "cost", "viol", "grad", "alpha", "pen", "reg", "z"};
    int n = static_cast<int>(cols.size());
    if (n >= 8) return;
    Col c;
    c.title = names[n];
    c.type = r.chance(30) ? LogEntry::kInt : LogEntry::kFloat;
    c.fmt = c.type == LogEntry::kInt ? std::string(r.pick({"{:>4}", "{}", "{:<3}"})) : std::string(r.pick({"{:>.4g}", "{:.3e}", "{:>.2f}", "{:>8.1e}"}));
    int col = r.range(-n - 1, n);
    if (r.chance(40)) col = -1;
    int level = n == 0 ? 1 : r.range(1, 5), width = r.pick({6, 8, 10, 12});
    bool dfl = r.chance(30);
    op("AddEntry");
    s.ev(Obj().f("e", "add").f("title", c.title).f("col", col).f("level", dfl && n > 0 ? 3 : level).f("width", dfl ? 10 : width));
    LogEntry& e = c.type == LogEntry::kInt ? L->AddEntry(col, c.title, c.fmt, LogEntry::kInt) : L->AddEntry(col, c.title, c.fmt);
    if (!dfl) e.SetWidth(width);
    if (!(dfl && n > 0)) e.SetLevel(static_cast<LogLevel>(level));
    cols.push_back(c);
    lb.push_back(-1e300); ub.push_back(1e300);
    s.ev(Obj().f("e", "entries").f("n", L->NumEntries()));
  }
  void log() {
    size_t i = static_cast<size_t>(r.below(static_cast<int>(cols.size())));
    const Col& c = cols[i];
    op("Log");
    if (c.type == LogEntry::kInt) {
      int v = r.range(-3, 400);
      if (r.chance(30) && std::fabs(lb[i]) < 1e6) v = static_cast<int>(lb[i]) + r.range(-1, 1);
      s.ev(Obj().f("e", "log").f("title", c.title).f("v", v).f("txt", fmt::format(c.fmt, v)));
      L->Log(c.title, v);
    } else {
      double v = r.chance(30) ? r.dy(3, 8) : r.chance(50) ? std::ldexp(r.dy(1, 1000), r.range(-20, 20)) : r.pick({0.0, 1e-4, 123456.789, -2.5e-9, 1.0 / 3, 1e10});
      if (r.chance(15) && std::fabs(lb[i]) < 1e6) v = lb[i];
      if (r.chance(15) && std::fabs(ub[i]) < 1e6) v = ub[i];
      s.ev(Obj().f("e", "log").f("title", c.title).f("v", v).f("txt", fmt::format(c.fmt, v)));
      L->Log(c.title, v);
    }
  }
  void go() {
    int lvl = r.below(6);
    op("construction");
    if (r.chance(50)) { L = std::make_unique<SolverLogger>(); s.ev(Obj().f("e", "logger").f("level", 0)); }
    else { L = std::make_unique<SolverLogger>(static_cast<LogLevel>(lvl)); s.ev(Obj().f("e", "logger").f("level", lvl)); }
    int k = r.range(1, 6);
    for (int i = 0; i < k; ++i) add();
    int len = r.range(8, 50);
    bool busy = r.chance(60);
    for (int a = 0; a < len; ++a) {
      int c = r.below(100);
      if (c < (busy ? 30 : 12)) { print("print"); }
      else if (c < 55) log();
      else if (c < 63) { int v = r.below(6); op("SetLevel"); s.ev(Obj().f("e", "level").f("level", v)); if (v == 0 && r.chance(50)) L->Disable(); else L->SetLevel(static_cast<LogLevel>(v)); }
      else if (c < 66) { s.ev(Obj().f("e", "getlevel").f("level", static_cast<int>(L->GetLevel()))); }
      else if (c < 71) { op("Clear"); s.ev(Obj().f("e", "clear")); L->Clear(); }
      else if (c < 76) { int f = r.pick({1, 2, 3, 5, 10}); op("SetFrequency"); s.ev(Obj().f("e", "freq").f("f", f)); L->SetFrequency(f); s.ev(Obj().f("e", "clear")); L->Clear(); }
      else if (c < 79) print("header");
      else if (c < 82) print("data");
      else if (c < 84) { add(); }
      else if (c < 86) { int v = r.range(1, 9); op("Log unknown"); s.ev(Obj().f("e", "log").f("title", "nothing").f("v", v).f("txt", "x")); L->Log("nothing", v); s.ev(Obj().f("e", "entries").f("n", L->NumEntries())); }
      else if (c < 88) { fmt::color q = COLORS[static_cast<size_t>(r.below(6))]; s.ev(Obj().f("e", "hcolor").f("c", rgb(q))); L->SetHeaderColor(q); }
      else if (c < 90) { op("move"); s.ev(Obj().f("e", "move")); auto M = std::make_unique<SolverLogger>(std::move(*L)); L = std::move(M); }
      else {
        size_t i = static_cast<size_t>(r.below(static_cast<int>(cols.size())));
        LogEntry& e = L->GetEntry(cols[i].title);
        op("entry settings");
        switch (r.below(4)) {
          case 0: { int w = r.pick({5, 7, 9, 14}); s.ev(Obj().f("e", "width").f("title", cols[i].title).f("v", w)); e.SetWidth(w); break; }
          case 1: { if (i == 0) break; int l = r.range(1, 5); s.ev(Obj().f("e", "elevel").f("title", cols[i].title).f("v", l)); e.SetLevel(static_cast<LogLevel>(l)); break; }
          case 2: {
            double b = std::min(r.pick({0.0, 1e-4, 1.0, -1.0, 100.0}), ub[i]);
            lb[i] = b;
            bool d = r.chance(40); fmt::color q = COLORS[static_cast<size_t>(r.below(6))];
            s.ev(Obj().f("e", "lower").f("title", cols[i].title).f("v", b).f("c", rgb(d ? fmt::color::green : q)));
            if (d) e.SetLowerBound(b); else e.SetLowerBound(b, q);
            break;
          }
          case 3: {
            double b = std::max(r.pick({0.0, 1e-4, 1.0, 2.0, 100.0}), lb[i]);
            ub[i] = b;
            bool d = r.chance(40); fmt::color q = COLORS[static_cast<size_t>(r.below(6))];
            s.ev(Obj().f("e", "upper").f("title", cols[i].title).f("v", b).f("c", rgb(d ? fmt::color::red : q)));
            if (d) e.SetUpperBound(b); else e.SetUpperBound(b, q);
            break;
          }
        }
      }
    }
    print("print");
    print("print");
  }
};
void gen_logger(Rng& r, Sink& s) { W w{r, s}; w.go(); }
Reg reg1("logger", gen_logger);

// ------------------------------------------------------------------------------------------------ statistics
std::string series(altro::SolverStats& t) {
  return Obj().f("cost", t.cost).f("alpha", t.alpha).f("z", t.improvement_ratio).f("grad", t.gradient).f("dJ", t.cost_decrease)
      .f("reg", t.regularization).f("viol", t.violations).f("pen", t.max_penalty).str();
}
void gen_stats(Rng& r, Sink& s) {
  auto S = std::make_unique<altro::SolverStats>();
  auto state = [&]() {
    s.ev(Obj().f("e", "state").raw("series", series(*S)).f("initial_cost", S->initial_cost).f("inner", S->iterations_inner).f("outer", S->iterations_outer)
             .f("total", S->iterations_total).f("verb", static_cast<int>(S->GetVerbosity())));
  };
  s.ev(Obj().f("e", "new"));
  state();
  static const char* names[] = {"cost", "alpha", "z", "grad", "dJ", "reg", "viol", "pen"};
  int len = r.range(5, 40);
  for (int a = 0; a < len; ++a) {
    int c = r.below(100);
    if (c < 45) {
      std::string t = names[r.below(8)];
      op("Log");
      { double v = r.chance(90) ? r.dy(5, 16) : r.pick({double(INFINITY), -double(INFINITY), 1e300, 1e-300}); s.ev(Obj().f("e", "log").f("title", t).f("v", v)); S->Log(t, v); }
    } else if (c < 55) {
      std::string t = r.pick({"iters", "iter_al", "unknown", "", "Cost", "costs"});
      op("Log of an unknown name");
      s.ev(Obj().f("e", "other").f("title", t));
      S->Log(t, r.range(0, 9));
    } else if (c < 78) {
      op("NewIteration");
      s.ev(Obj().f("e", "row"));
      S->NewIteration();
    } else if (c < 83) {
      op("Reset");
      s.ev(Obj().f("e", "reset"));
      S->Reset();
    } else if (c < 87) {
      int n = r.pick({0, 1, 5, 100, 3});
      op("SetCapacity");
      s.ev(Obj().f("e", "none"));
      S->SetCapacity(n);
    } else if (c < 90) {
      op("SetTolerances");
      s.ev(Obj().f("e", "none"));
      S->SetTolerances(1e-3, 1e-4, 1e-2);
    } else if (c < 93) {
      int v = r.below(6);
      s.ev(Obj().f("e", "verb").f("v", v));
      S->SetVerbosity(static_cast<LogLevel>(v));
    } else if (c < 95) {
      int v = r.below(6);
      s.ev(Obj().f("e", "optverb").f("v", v));
      S->GetOptions().verbose = static_cast<LogLevel>(v);
      S->GetOptions().max_iterations_total = r.pick({0, 1, 300});
      S->GetOptions().header_frequency = r.pick({1, 2, 10});
    } else if (c < 97) {
      S->iterations_inner = r.below(9); S->iterations_outer = r.below(9); S->iterations_total = r.below(9); S->initial_cost = r.dy(9, 2);
      s.ev(Obj().f("e", "counters").f("inner", S->iterations_inner).f("outer", S->iterations_outer).f("total", S->iterations_total).f("initial_cost", S->initial_cost));
    } else {
      op("move");
      s.ev(Obj().f("e", "none"));
      if (r.chance(50)) { auto M = std::make_unique<altro::SolverStats>(std::move(*S)); S = std::move(M); }
      else {
        auto M = std::make_unique<altro::SolverStats>();
        for (int q = 0; q < r.below(4); ++q) { M->NewIteration(); M->Log("cost", 3.0); }
        *M = std::move(*S); S = std::move(M);
      }
    }
    state();
  }
}
Reg reg2("stats", gen_stats);

// ------------------------------------------------------------------------------------------------ printed solves
template <class F>
std::string fmtall(const char* f, const std::vector<double>& v, F) { std::vector<std::string> o; for (double d : v) o.push_back(fmt::format(f, d)); return js(o); }
void gen_solvelog(Rng& r, Sink& s) {
  GenOpts g; g.maxN = 4;
  bool al = r.chance(60);
  g.constraints = al;
  ProbPar P = gen_prob(r, 2, 1, g);
  auto prob = P.make(nullptr);
  Capture cap;
  int solves = r.range(1, 2);
  altro::ilqr::iLQR<-1, -1> il(P.N);
  std::unique_ptr<altro::augmented_lagrangian::AugmentedLagrangianiLQR<-1, -1>> as;
  if (al) as = std::make_unique<altro::augmented_lagrangian::AugmentedLagrangianiLQR<-1, -1>>(prob);
  else il.InitializeFromProblem(prob);
  for (int q = 0; q < solves; ++q) {
    altro::SolverOptions& o = al ? as->GetOptions() : il.GetOptions();
    altro::SolverStats& st = al ? as->GetStats() : il.GetStats();
    int v = r.below(6);
    o.verbose = static_cast<LogLevel>(v);
    o.header_frequency = r.pick({1, 2, 3, 10});
    o.max_iterations_outer = r.pick({1, 3, 30});
    o.max_iterations_inner = r.pick({1, 5, 100});
    o.bp_reg_initial = r.pick({0.0, 0.25});
    // no ties with the bounds that decide the colours
    auto Z = P.traj<-1, -1>();
    cap.take();
    op("Solve");
    if (al) { as->SetTrajectory(Z); as->Solve(); } else { il.SetTrajectory(Z); il.Solve(); }
    std::string out = cap.take();
    auto all = [](const char* f, const std::vector<double>& w) { std::vector<std::string> z; for (double d : w) z.push_back(fmt::format(f, d)); return js(z); };
    s.ev(Obj().f("e", "solve").f("al", al).f("verb", v).f("hf", o.header_frequency).f("outer", st.iterations_outer).f("total", st.iterations_total)
             .f("viol_end", al && !st.violations.empty()).raw("cost", all("{:>.4g}", st.cost)).raw("viol", all("{:>.3e}", st.violations)).raw("dJ", all("{:>.2e}", st.cost_decrease))
             .raw("grad", all("{:>.2e}", st.gradient)).raw("alpha", all("{:>.2f}", st.alpha)).raw("reg", all("{:>.1e}", st.regularization))
             .raw("z", all("{:>.3f}", st.improvement_ratio)).raw("pen", all("{:>.1e}", st.max_penalty)).raw("out", lines(out)));
  }
}
Reg reg3("solvelog", gen_solvelog);
}  // namespace
