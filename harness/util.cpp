#include <fstream>
#include "util.hpp"
using namespace vf;
int main(int argc, char** argv) {
  if (argc < 6 || !kinds().count(argv[1])) return 2;
  Gen g = kinds()[argv[1]];
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  int count = atoi(argv[3]), nproc = atoi(argv[4]);
  std::string out = argv[5];
  std::vector<pid_t> kids;
  for (int w = 0; w < nproc; ++w) {
    pid_t pid = fork();
    if (pid == 0) {
      std::ofstream f(out + "." + std::to_string(w));
      for (int i = w; i < count; i += nproc) {
        if (!wanted(i)) continue;
        Rng r(seed * 1000003ull + static_cast<uint64_t>(i));
        std::string ev = run_child([&](Sink& s) { g(r, s); });
        f << "{\"id\":" << i << ",\"ev\":[" << ev << "]}\n";
      }
      f.close();
      _exit(f.fail() ? 3 : 0);
    }
    kids.push_back(pid);
  }
  int bad = 0;
  for (pid_t k : kids) { int st; waitpid(k, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) bad = 1; }
  return bad;
}
