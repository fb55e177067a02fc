// Harnesses of the utility modules: each kind writes one history per trace.
#pragma once
#include <map>
#include <memory>
#include "common.hpp"
namespace vf {
using Gen = void (*)(Rng&, Sink&);
inline std::map<std::string, Gen>& kinds() { static std::map<std::string, Gen> k; return k; }
struct Reg { Reg(const char* n, Gen g) { kinds()[n] = g; } };

// Captures what goes to standard output between two calls.
class Capture {
 public:
  Capture() {
    char tmpl[] = "/tmp/vf_cap_XXXXXX";
    fd_ = mkstemp(tmpl);
    unlink(tmpl);
    fflush(stdout);
    dup2(fd_, 1);
  }
  std::string take() {
    fflush(stdout);
    off_t end = lseek(fd_, 0, SEEK_END);
    std::string out(static_cast<size_t>(end - pos_), '\0');
    size_t off = 0;
    while (off < out.size()) { ssize_t n = pread(fd_, &out[off], out.size() - off, pos_ + static_cast<off_t>(off)); if (n <= 0) break; off += static_cast<size_t>(n); }
    pos_ = end;
    return out;
  }
 private:
  int fd_;
  off_t pos_ = 0;
};
}  // namespace vf
