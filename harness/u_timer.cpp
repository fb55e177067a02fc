// Histories of the profiler ("timer"), on a clock the harness controls, and profiles of whole solves ("profile").
// See spec/Timer.tla.
#include <dirent.h>
#include <sys/stat.h>
#include <time.h>
#include <chrono>
#include <fstream>
#include "util.hpp"
#include "prob.hpp"
#include "altro/common/timer.hpp"
#include "altro/ilqr/ilqr.hpp"
#include "altro/augmented_lagrangian/al_solver.hpp"

// Replaces the clocks of the standard library in this executable.
namespace { int64_t g_now = 0; int g_mode = 0; }   // mode 0: real time, 1: g_now microseconds, 2: g_now, advancing with each call
static int64_t clock_ns(clockid_t id) {
  if (g_mode == 1) return g_now * 1000;
  if (g_mode == 2) return 1000 * ++g_now;
  timespec t;
  clock_gettime(id, &t);
  return t.tv_sec * 1000000000ll + t.tv_nsec;
}
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(clock_ns(CLOCK_REALTIME))); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(clock_ns(CLOCK_MONOTONIC))); }
} } }

using namespace vf;
namespace {
int open_fds() {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}
std::string slurp(const std::string& p) {
  std::ifstream f(p);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}
// text -> items: {"t":"sum","rows":[..]}, {"t":"user","n":..}, {"t":"bad","s":..}
std::string items(const std::string& text) {
  std::vector<std::string> out;
  std::string rows; bool insum = false;
  auto endsum = [&]() { if (insum) out.push_back(Obj().f("t", "sum").raw("rows", "[" + rows + "]").str()); insum = false; rows.clear(); };
  std::stringstream ss(text);
  std::string l;
  while (std::getline(ss, l)) {
    int un;
    if (sscanf(l.c_str(), "user %d", &un) == 1) { endsum(); out.push_back(Obj().f("t", "user").f("n", un).str()); continue; }
    if (l.compare(0, 11, "Description") == 0) {
      endsum();
      insum = true;
      std::getline(ss, l);
      if (l.empty() || l.find_first_not_of('-') != std::string::npos) out.push_back(Obj().f("t", "bad").f("s", l).str());
      continue;
    }
    long long f[3]; size_t e = l.size(); bool ok = insum;
    for (int q = 2; q >= 0 && ok; --q) {
      size_t b = l.find_last_not_of(' ', e ? e - 1 : 0);
      if (b == std::string::npos) { ok = false; break; }
      size_t a = l.find_last_of(' ', b);
      if (a == std::string::npos) { ok = false; break; }
      char* endp;
      std::string tok = l.substr(a + 1, b - a);
      f[q] = strtoll(tok.c_str(), &endp, 10);
      ok = *endp == 0;
      e = a;
    }
    if (!ok) { endsum(); out.push_back(Obj().f("t", "bad").f("s", l).str()); continue; }
    std::string d = l.substr(0, e);
    size_t i = d.find_first_not_of(' '), j = d.find_last_not_of(' ');
    if (i == std::string::npos) { i = 0; j = 0; }
    rows += (rows.empty() ? "" : ",") + Obj().f("name", d.substr(i, j - i + 1)).f("indent", static_cast<int>(i)).f("us", static_cast<double>(f[0]))
                                            .f("pt", static_cast<double>(f[1])).f("pp", static_cast<double>(f[2])).str();
  }
  endsum();
  std::string o = "[";
  for (size_t k = 0; k < out.size(); ++k) o += (k ? "," : "") + out[k];
  return o + "]";
}
struct Scratch {
  std::string dir;
  Scratch() { char t[] = "/tmp/vf_timer_XXXXXX"; dir = mkdtemp(t); }
  ~Scratch() {
    DIR* d = opendir(dir.c_str());
    while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((dir + "/" + e->d_name).c_str());
    closedir(d);
    rmdir(dir.c_str());
  }
};
struct W {
  Rng& r; Sink& s;
  Scratch sc;
  Capture cap;
  std::shared_ptr<altro::Timer> t = nullptr;
  FILE* user[2] = {nullptr, nullptr};
  int writes = 0, budget = 0;
  bool real = false;

  std::string path(int k) { return sc.dir + "/" + std::to_string(k); }
  void advance() {
    int64_t us = r.pick<int64_t>({0, 1, 2, 3, 7, 10, 33, 100, 999, 1000, 123457, 25000000, 3600000000ll});
    g_now += us;
    s.ev(Obj().f("e", "adv").f("us", static_cast<double>(us)));
  }
  void scope(int depth) {
    static const char* names[] = {"al", "ilqr", "al-2", "al.x", "a", "b", "cost", "A", "z z", "al2", "ilqr_2", "0"};
    std::string name = names[r.chance(60) ? r.below(4) : r.below(12)];
    op("Start");
    s.ev(Obj().f("e", "start").f("name", name));
    {
      altro::Stopwatch sw = t->Start(name);
      body(depth + 1);
      op("stop");
      s.ev(Obj().f("e", "stop"));
    }
  }
  void body(int depth) {
    int k = r.range(0, 4);
    for (int q = 0; q < k && budget > 0; ++q) {
      --budget;
      int c = r.below(100);
      if (c < 20) { advance(); continue; }
      if (!t) continue;
      if (c < 62) { if (depth < 5) scope(depth); }
      else if (c < 68) { s.ev(Obj().f("e", "on")); op("Activate"); t->Activate(); }
      else if (c < 73) { s.ev(Obj().f("e", "off")); op("Deactivate"); t->Deactivate(); }
      else if (c < 75) { bool a = t->IsActive(); s.ev(Obj().f("e", "active").f("v", a)); }
      else if (c < 82) { s.ev(Obj().f("e", "summary")); op("PrintSummary"); t->PrintSummary(); }
      else if (c < 84) {
        std::map<std::string, std::chrono::microseconds> m;
        std::string js_ = "[";
        for (const char* p : {"al", "al/ilqr", "al/ilqr/cost", "al-2", "al-2/x", "b/c", "b/c/d", "a", "a/a", "a/a/a"})
          if (r.chance(50)) {
            int64_t us = r.pick<int64_t>({0, 1, 10, 500, 30000000, 5000000000ll});
            for (std::string a = p; a.find('/') != std::string::npos;) {   // not more than the scope around it
              a = a.substr(0, a.rfind('/'));
              if (m.count(a)) us = std::min<int64_t>(us, m[a].count());
            }
            m[p] = std::chrono::microseconds(us);
            std::string parts = "[", w;
            for (const char* ch = p;; ++ch) { if (*ch == '/' || !*ch) { parts += (parts.size() > 1 ? "," : "") + js(w); w.clear(); if (!*ch) break; } else w += *ch; }
            js_ += (js_.size() > 1 ? "," : "") + Obj().raw("p", parts + "]").f("us", static_cast<double>(us)).str();
          }
        s.ev(Obj().f("e", "table").raw("m", js_ + "]"));
        op("PrintSummary of a table");
        t->PrintSummary(&m);
      } else if (c < 97) {
        int o = r.below(6);
        if (o == 5) {
          s.ev(Obj().f("e", "badfile"));
          op("SetOutput to an impossible file");
          bool thrown = false;
          try { t->SetOutput(sc.dir + "/none/x"); } catch (const std::exception&) { thrown = true; }
          s.ev(Obj().f("e", "thrown").f("v", thrown));
          o = r.below(5);
        }
        s.ev(Obj().f("e", "out").f("to", o));
        op("SetOutput");
        if (o < 2) t->SetOutput(user[o]); else if (o < 4) t->SetOutput(path(o)); else t->SetOutput(stdout);
      } else {
        int o = r.below(2);
        ++writes;
        s.ev(Obj().f("e", "user").f("to", o).f("n", writes));
        op("user output");
        fprintf(user[o], "user %d\n", writes);
      }
    }
  }
  void run() {
    g_mode = 1;
    g_now = 1000000;
    for (int k = 0; k < 2; ++k) user[k] = fopen(path(k).c_str(), "w");
    int fds = open_fds();
    t = r.chance(50) ? altro::Timer::MakeShared() : std::shared_ptr<altro::Timer>(altro::Timer::MakeUnique());
    s.ev(Obj().f("e", "timer"));
    budget = r.range(5, 60);
    if (r.chance(70)) { s.ev(Obj().f("e", "on")); t->Activate(); }
    while (budget > 0) {
      body(0);
      budget -= 2;
      if (r.chance(6)) {   // the last scopes outlive the user's pointer
        op("release");
        s.ev(Obj().f("e", "start").f("name", "last"));
        {
          altro::Stopwatch sw = t->Start("last");
          s.ev(Obj().f("e", "drop"));
          t.reset();
          advance();
          s.ev(Obj().f("e", "stop"));
        }
        break;
      }
    }
    if (t) { s.ev(Obj().f("e", "drop")); op("destruction"); t.reset(); }
    op("end");
    std::string sinks = "[";
    bool ok = true;
    int left = open_fds();
    for (int k = 0; k < 2; ++k) ok = (fclose(user[k]) == 0) && ok;
    for (int k = 0; k < 4; ++k) sinks += items(slurp(path(k))) + ",";
    sinks += items(cap.take());
    s.ev(Obj().f("e", "end").raw("sinks", sinks + "]").f("closed", ok).f("fds", left - fds));
  }
};
void gen_timer(Rng& r, Sink& s) { W w{r, s}; w.run(); }
Reg reg("timer", gen_timer);

void gen_profile(Rng& r, Sink& s) {
  GenOpts g; g.maxN = 4;
  bool al = r.chance(60);
  g.constraints = al;
  ProbPar P = gen_prob(r, 2, 1, g);
  Scratch sc;
  Capture cap;
  g_mode = r.chance(80) ? 2 : 0;
  bool file = r.chance(50);
  int solves = r.range(1, 2), enabled = 0;
  {
    auto prob = P.make(nullptr);
    altro::ilqr::iLQR<-1, -1> il(P.N);
    std::unique_ptr<altro::augmented_lagrangian::AugmentedLagrangianiLQR<-1, -1>> as;
    if (al) as = std::make_unique<altro::augmented_lagrangian::AugmentedLagrangianiLQR<-1, -1>>(prob);
    else il.InitializeFromProblem(prob);
    altro::SolverOptions& o = al ? as->GetOptions() : il.GetOptions();
    for (int q = 0; q < solves; ++q) {
      o.profiler_enable = r.chance(80);
      o.profiler_output_to_file = file;
      o.log_directory = sc.dir;
      o.profile_filename = "prof";
      if (o.profiler_enable) enabled = 1;
      auto Z = P.traj<-1, -1>();
      op("Solve");
      if (al) { as->SetTrajectory(Z); as->Solve(); } else { il.SetTrajectory(Z); il.Solve(); }
      // the summary is printed on destruction if the profiler is on then
      if (q == solves - 1 && !o.profiler_enable) enabled = 0;
    }
    op("destruction");
  }
  s.ev(Obj().f("e", "profile").f("al", al).f("on", enabled == 1).f("file", file).raw("f", items(slurp(sc.dir + "/prof"))).raw("o", items(cap.take())));
}
Reg reg2("profile", gen_profile);
}  // namespace
