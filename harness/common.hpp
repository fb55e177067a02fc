// Shared by all harnesses: random numbers, JSON, one forked child per trace.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <eigen3/Eigen/Dense>

namespace vf {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int i = 0; i < 4; ++i) next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  int below(int n) { return static_cast<int>((next() >> 33) % static_cast<uint64_t>(n)); }
  int range(int lo, int hi) { return lo + below(hi - lo + 1); }
  bool chance(int pct) { return below(100) < pct; }
  // multiple of 1/den in [-lim,lim]
  double dy(int lim, int den) { return static_cast<double>(range(-lim * den, lim * den)) / den; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(static_cast<int>(l.size()))); }
};

inline std::string num(double v) {
  if (std::isnan(v)) return "\"nan\"";
  if (std::isinf(v)) return v > 0 ? "\"inf\"" : "\"-inf\"";
  if (v == std::floor(v) && std::fabs(v) < 1e9) { char b[32]; snprintf(b, sizeof b, "%d", static_cast<int>(v)); return b; }
  char b[64];
  snprintf(b, sizeof b, "\"%a\"", v);
  return b;
}
inline std::string js(double v) { return num(v); }
inline std::string js(float v) { return num(static_cast<double>(v)); }
inline std::string js(int v) { return std::to_string(v); }
inline std::string js(long v) { return std::to_string(v); }
inline std::string js(size_t v) { return v > 2000000000ull ? std::string("\"") + std::to_string(v) + "\"" : std::to_string(v); }
inline std::string js(bool v) { return v ? "true" : "false"; }
inline std::string js(const std::string& s) {
  std::string o = "\"";
  for (char ch : s) {
    unsigned char c = static_cast<unsigned char>(ch);
    if (c == '"' || c == '\\') { o += '\\'; o += ch; }
    else if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += ch;
  }
  return o + "\"";
}
inline std::string js(const char* s) { return js(std::string(s)); }
template <class T> std::string js(const std::vector<T>& v) {
  std::string o = "[";
  for (size_t i = 0; i < v.size(); ++i) { if (i) o += ","; o += js(static_cast<T>(v[i])); }
  return o + "]";
}
template <class D> std::string jvec(const Eigen::MatrixBase<D>& v) {
  std::string o = "[";
  for (int i = 0; i < v.size(); ++i) { if (i) o += ","; o += num(v(i)); }
  return o + "]";
}
template <class D> std::string jmat(const Eigen::MatrixBase<D>& a) {
  std::string o = "[";
  for (int i = 0; i < a.rows(); ++i) {
    if (i) o += ",";
    o += "[";
    for (int j = 0; j < a.cols(); ++j) { if (j) o += ","; o += num(a(i, j)); }
    o += "]";
  }
  return o + "]";
}
struct Obj {
  std::string s = "{";
  bool first = true;
  Obj& raw(const char* k, const std::string& v) { if (!first) s += ","; first = false; s += "\""; s += k; s += "\":"; s += v; return *this; }
  template <class T> Obj& f(const char* k, const T& v) { return raw(k, js(v)); }
  std::string str() const { return s + "}"; }
};

// Traces.  A trace is produced in a forked child; each event is written immediately, so that whatever happens to the
// child the events up to then survive and the parent can add a final {"e":"crash"} event.
struct Shared { char op[128]; };
inline Shared*& shared() { static Shared* s = nullptr; return s; }
inline void op(const char* name) { if (shared()) { strncpy(shared()->op, name, sizeof(shared()->op) - 1); } }

class Sink {
 public:
  explicit Sink(int fd) : fd_(fd) {}
  void ev(const std::string& json) { std::string l = (first_ ? "" : ",") + json; first_ = false; write_all(l); }
  void ev(const Obj& o) { ev(o.str()); }
  void write_all(const std::string& l) {
    size_t off = 0;
    while (off < l.size()) { ssize_t n = ::write(fd_, l.data() + off, l.size() - off); if (n <= 0) _exit(99); off += static_cast<size_t>(n); }
  }
  bool first() const { return first_; }
 private:
  int fd_;
  bool first_ = true;
};

// Restricts a recording to the traces named in VF_ONLY ("3,17,").
inline bool wanted(int id) {
  static const char* l = getenv("VF_ONLY");
  return !l || strstr(l, ("," + std::to_string(id) + ",").c_str()) != nullptr;
}

// Run body in a child; returns the comma-joined events (with a crash event appended if it died).
inline std::string run_child(const std::function<void(Sink&)>& body, int timeout_s = 20, bool quiet = true) {
  if (!shared()) shared() = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  memset(shared(), 0, sizeof(Shared));
  static int hangs = 0;                 // once it is clear that the code hangs, do not wait so long for it
  char tmpl[] = "/tmp/vf_trace_XXXXXX";
  int fd = mkstemp(tmpl);
  unlink(tmpl);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    if (quiet) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2); }
    alarm(static_cast<unsigned>(hangs >= 2 ? 4 : timeout_s));
    { Sink s(fd); body(s); }
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ++hangs;
  off_t len = lseek(fd, 0, SEEK_END);
  std::string out(static_cast<size_t>(len), '\0');
  lseek(fd, 0, SEEK_SET);
  size_t off = 0;
  while (off < out.size()) { ssize_t n = ::read(fd, &out[off], out.size() - off); if (n <= 0) break; off += static_cast<size_t>(n); }
  close(fd);
  bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  if (bad) {
    std::string how = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "hang" : WTERMSIG(st) == SIGABRT ? "abort" : "signal") : "exit";
    // drop a half-written event: events are written whole with one write_all, so only trust balanced text
    Obj o; o.f("e", std::string("crash")).f("how", how).f("op", std::string(shared()->op));
    out += (out.empty() ? "" : ",") + o.str();
  }
  return out;
}
}  // namespace vf
