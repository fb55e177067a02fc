// usage: solver <profile> <seed> <count> <nproc> <outfile>      (see solver_run.hpp)
#include "solver_run.hpp"
#if PART == 1
void go21(const ProbPar& P, const Profile& p, Rng& r, Sink& s) { Runner<2, 1> R(P, s); R.run(p, r); }
#elif PART == 2
void go32(const ProbPar& P, const Profile& p, Rng& r, Sink& s) { Runner<3, 2> R(P, s); R.run(p, r); }
#elif PART == 3
void godyn(const ProbPar& P, const Profile& p, Rng& r, Sink& s) { Runner<Eigen::Dynamic, Eigen::Dynamic> R(P, s); R.run(p, r); }
#else
static Profile profile(const std::string& name, Rng& r) {
  Profile p;
  p.name = name;
  p.gen.maxN = r.pick({1, 2, 3, 4, 5});
  if (name == "mix") {  // everything
    int c = r.below(6);
    p.al = r.chance(65);
    p.optmode = r.pick({0, 1, 2, 3});
    if (c == 0) p.gen.linear = true;
    if (c == 1 || p.optmode == 2) p.gen.nonconvex = 50;
    if (c == 2 || p.optmode == 3) p.gen.wild = true;
  } else if (name == "budget") { p.al = r.chance(60); p.optmode = 1; p.gen.linear = r.chance(50); }
  else if (name == "reg") { p.al = r.chance(25); p.optmode = 2; p.gen.nonconvex = 60; p.gen.linear = r.chance(40); p.gen.wild = r.chance(30); }
  else if (name == "bounds") { p.al = r.chance(30); p.optmode = 3; p.gen.wild = true; p.gen.steep = r.chance(30); if (p.gen.steep) { p.optmode = 5; p.gen.wild = false; p.gen.linear = r.chance(60); p.gen.maxN = 3; } }
  else if (name == "wild") { p.al = r.chance(40); p.optmode = r.pick({0, 3}); p.gen.wild = true; }
  else if (name == "al") { p.al = true; p.optmode = r.pick({0, 0, 1}); p.gen.wild = r.chance(20); p.gen.linear = r.chance(40); }
  else if (name == "lq") { p.al = false; p.gen.linear = true; p.gen.nonconvex = r.pick({0, 30}); }
  else if (name == "threads") { p.al = r.chance(50); p.gen.maxN = 6; }
  else if (name == "resolve") { p.al = r.chance(55); p.optmode = r.pick({0, 1, 2, 3, 4}); p.gen.nonconvex = r.pick({0, 40}); p.gen.wild = r.chance(40); p.gen.maxN = r.range(1, 4); }
  else if (name == "long") {  // long horizons, more states, controls and constraints
    p.al = r.chance(60); p.optmode = r.pick({0, 0, 1, 2}); p.gen.linear = r.chance(50); p.gen.minN = 10; p.gen.maxN = r.pick({12, 16, 24, 40});
    p.gen.nonconvex = p.optmode == 2 ? 10 : 0;
  }
  else if (name == "deep") {  // many iterations on small problems
    p.al = r.chance(60); p.optmode = 4; p.gen.wild = r.chance(40); p.gen.linear = r.chance(25); p.gen.maxN = r.range(1, 3);
  }
  if (!p.al) p.gen.constraints = false;
  return p;
}

int main(int argc, char** argv) {
  if (argc < 6) return 2;
  std::string prof = argv[1];
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  int count = atoi(argv[3]), nproc = atoi(argv[4]);
  std::string out = argv[5];
  std::vector<pid_t> kids;
  for (int w = 0; w < nproc; ++w) {
    pid_t pid = fork();
    if (pid == 0) {
      std::ofstream f(out + "." + std::to_string(w));
      for (int i = w; i < count; i += nproc) {
        if (!wanted(i)) continue;
        Rng r(seed * 1000003ull + static_cast<uint64_t>(i));
        Profile p = profile(prof, r);
        int kind = r.below(4);
        int n = kind == 1 ? 2 : kind == 2 ? 3 : r.range(1, 3), m = kind == 1 ? 1 : kind == 2 ? 2 : r.range(1, 2);
        if (prof == "long" && (kind == 0 || kind == 3)) { n = r.range(1, 7); m = r.range(1, 5); }
        ProbPar P = gen_prob(r, n, m, p.gen);
        uint64_t s0 = r.s;
        std::string ev = run_child([&](Sink& s) {
          Rng rr(1); rr.s = s0;
          if (kind == 1) go21(P, p, rr, s);
          else if (kind == 2) go32(P, p, rr, s);
          else godyn(P, p, rr, s);
        });
        f << "{\"id\":" << i << ",\"prob\":" << P.json() << ",\"ev\":[" << ev << "]}\n";
      }
      f.close();
      _exit(f.fail() ? 3 : 0);
    }
    kids.push_back(pid);
  }
  int bad = 0;
  for (pid_t k : kids) { int st; waitpid(k, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) bad = 1; }
  return bad;
}
#endif
