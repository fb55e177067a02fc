// Controlled scheduler: the code under test is compiled with -fsanitize=thread instrumentation, but linked with this
// runtime instead of libtsan.  Exactly one thread runs at a time; at every synchronisation operation (mutex, condition,
// futex, atomic, thread creation and join, yield) the schedule decides who goes on.  Plain memory accesses are checked
// for data races with vector clocks, so that interleaving at synchronisation operations loses nothing.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {
struct Policy {
  int mode = 0;                 // 0 random, 1 PCT, 2 prefix of choices (bounded DFS)
  uint64_t seed = 1;
  int stay = 60;                // random: chance (percent) to let the running thread go on
  int depth = 3;                // PCT: number of priority change points
  std::vector<int> prefix;      // DFS
  int max_steps = 80000;
  int quiet_steps = 1500;       // fire the earliest timer after so many steps without an event
};
struct Outcome {
  std::string bad;              // "", "deadlock", "hang", "race"
  std::vector<int> width;       // DFS: number of choices at every decision
  std::vector<int> taken;
  int steps = 0;
};
// Run body as thread 0 under the policy.  Only returns if nothing bad happened; otherwise on_bad is called (from whatever
// thread noticed) and the process exits.
void run(const Policy& p, const std::function<void()>& body, const std::function<void(const Outcome&)>& on_bad, Outcome* out);
int self();                     // id of the running thread, in order of creation
int live_threads();             // threads other than 0 that have started and not finished
void event();                   // something observable happened
int timers_fired();             // timed waits that ended by timeout so far
int last_timer_ms();            // length of the last timed wait
void bad_exit();                // reports what went wrong through the log and ends the process

// The observable history of one run, in memory shared with the parent process.
struct Ev { int k, t, a, b, c; };
struct Log { int n; int done; int steps; int nw; char bad[16]; char text[176]; Ev ev[4096]; int width[8192], taken[8192]; };
void use_log(Log* l);
void ev(int k, int a = 0, int b = 0, int c = 0);
const char* race_text();
}  // namespace sched
