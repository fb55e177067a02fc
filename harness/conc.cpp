// usage: conc <kind> <seed> <count> <nproc> <outfile>
// Histories of the real queue and thread pool under controlled schedules (sched.hpp).  kinds: queue, pool (random and PCT
// schedules of random scenarios), qdfs, pdfs (bounded-exhaustive schedules of small scenarios), qgen, pgen (the same for
// client programs generated by TLC from QueueImpl.tla and PoolImpl.tla, read from a sixth argument).
#include <fstream>
#include <memory>
#include <set>
#include <sstream>
#include <thread>
#include "common.hpp"
#include "sched.hpp"
#include "altro/common/threadpool.hpp"
#include "altro/common/threadsafe_queue.hpp"

using vf::Rng;
using sched::ev;

// ---------------------------------------------------------------------------------------------- events
enum { INV = 1, RES, MOVE, TSTART, TEND, ADD, LAUNCH, WAITI, WAITR, STOPI, STOPR, NUM, RUNNING, DESTROY, PMOVE, OPEN, CFG, NEWQ, SEEN, PASSIGN, CTOR, LAUNCHI };
enum { PUSH = 1, POP, EMPTY, SIZE, CLEAR };
static const char* opname(int o) { static const char* n[] = {"", "push", "pop", "empty", "size", "clear"}; return n[o]; }

static std::string render(const sched::Log& L, bool queue) {
  std::string o;
  for (int i = 0; i < L.n; ++i) {
    const sched::Ev& e = L.ev[i];
    vf::Obj j;
    switch (e.k) {
      case INV: j.f("e", "inv").f("t", e.t).f("op", opname(e.a)).f("v", e.b); break;
      case RES: j.f("e", "res").f("t", e.t).f("op", opname(e.a)).f("ok", e.c).f("v", e.b); break;
      case MOVE: j.f("e", e.a ? "assign" : "move"); break;
      case TSTART: j.f("e", "start").f("k", e.a).f("t", e.t); break;
      case TEND: j.f("e", "end").f("k", e.a).f("t", e.t); break;
      case ADD: j.f("e", "add").f("k", e.a).f("gate", e.b); break;
      case LAUNCH: j.f("e", "launch").f("n", e.a).f("threads", e.b).f("live", e.c); break;
      case LAUNCHI: j.f("e", "launching").f("n", e.a); break;
      case WAITI: j.f("e", "waiting"); break;
      case WAITR: j.f("e", "waited").f("timers", e.a).f("ms", e.b); break;
      case STOPI: j.f("e", "stopping"); break;
      case STOPR: j.f("e", "stopped").f("threads", e.a).f("live", e.b).f("running", e.c); break;
      case NUM: j.f("e", e.b ? "num1" : "num0").f("v", e.a); break;
      case RUNNING: j.f("e", "isrunning").f("v", e.a); break;
      case DESTROY: j.f("e", e.a ? "destroyed" : "destroying").f("live", e.b); break;
      case PMOVE: j.f("e", "pmove").f("running", e.a); break;
      case PASSIGN: j.f("e", "passign").f("running", e.a); break;
      case OPEN: j.f("e", "open").f("g", e.a); break;
      case CFG: j.f("e", "timeout").f("ms", e.a); break;
      case SEEN: j.f("e", "seen").f("k", e.a).f("v", e.b); break;
      case CTOR: j.f("e", "pool"); break;
      default: continue;
    }
    if (!o.empty()) o += ",";
    o += j.str();
  }
  (void)queue;
  return o;
}

// ---------------------------------------------------------------------------------------------- queue scenarios
struct Elem {  // move-only, so that a lost or duplicated element cannot hide
  std::unique_ptr<int> v;
  Elem() = default;
  explicit Elem(int x) : v(new int(x)) {}
};
struct QOp { int op, v; };
struct QPhase { std::vector<std::vector<QOp>> th; int after = 0; int others = 0; };   // after: 0 nothing 1 clear 2 move 3 assign 4 drain 5 size
struct QScen { std::vector<QPhase> ph; };
using Queue = altro::ThreadSafeQueue<Elem>;

static void qop(Queue& q, QOp o) {
  ev(INV, o.op, o.v);
  if (o.op == PUSH) { q.Push(Elem(o.v)); ev(RES, PUSH, o.v, 1); }
  else if (o.op == POP) { Elem e(-7); bool ok = q.TryPop(e); ev(RES, POP, e.v ? *e.v : -99, ok); }
  else if (o.op == EMPTY) { bool b = q.IsEmpty(); ev(RES, EMPTY, 0, b); }
  else if (o.op == SIZE) { size_t n = q.Size(); ev(RES, SIZE, n > 1000000 ? 1000000 : static_cast<int>(n), 1); }
  else if (o.op == CLEAR) { q.Clear(); ev(RES, CLEAR, 0, 1); }
}
static void run_queue(const QScen& S) {
  auto q = std::make_unique<Queue>();
  int fresh = 500;
  for (const QPhase& ph : S.ph) {
    if (ph.th.size() == 1) {
      for (const QOp& o : ph.th[0]) qop(*q, o);
    } else {
      std::vector<std::thread> th;
      for (const auto& ops : ph.th) th.emplace_back([&q, &ops] { for (const QOp& o : ops) qop(*q, o); });
      for (auto& t : th) t.join();
    }
    if (ph.after == 1) qop(*q, {CLEAR, 0});
    if (ph.after == 2) { ev(MOVE, 0); auto q2 = std::make_unique<Queue>(std::move(*q)); q = std::move(q2); }
    if (ph.after == 3) {
      auto q2 = std::make_unique<Queue>();
      for (int i = 0; i < ph.others; ++i) q2->Push(Elem(fresh++));
      ev(MOVE, 1);
      *q2 = std::move(*q);
      q = std::move(q2);
    }
    qop(*q, {SIZE, 0});
    qop(*q, {EMPTY, 0});
    if (ph.after == 4) for (int i = 0; i < 3; ++i) qop(*q, {POP, 0});
  }
  for (int i = 0; i < 30; ++i) {
    bool em = q->IsEmpty();
    qop(*q, {POP, 0});
    if (em) break;
  }
  qop(*q, {SIZE, 0});
}
static QScen gen_queue(Rng& r, int scale) {
  QScen S;
  int v = 1, nph = r.range(1, 3), used = 0;
  for (int p = 0; p < nph; ++p) {
    QPhase ph;
    int T = r.pick({1, 2, 2, 3, 3, 4});
    if (used + T > 9) T = 1;
    if (T > 1) used += T;
    int style = r.below(4);
    for (int t = 0; t < T; ++t) {
      std::vector<QOp> ops;
      int n = T == 1 ? r.range(0, 5) : r.range(1, T >= 4 ? 2 : scale);
      bool producer = style == 1 ? t % 2 == 0 : r.chance(50);
      for (int i = 0; i < n; ++i) {
        int c = r.below(100);
        int op = style >= 2 ? (c < 45 ? PUSH : c < 85 ? POP : c < 91 ? EMPTY : c < 97 ? SIZE : CLEAR)
                            : (c < 85 ? (producer ? PUSH : POP) : c < 91 ? EMPTY : c < 97 ? SIZE : CLEAR);
        ops.push_back({op, op == PUSH ? v++ : 0});
      }
      ph.th.push_back(ops);
    }
    ph.after = r.pick({0, 0, 0, 1, 2, 3, 4});
    ph.others = r.below(3);
    S.ph.push_back(ph);
  }
  return S;
}
static QScen small_queue(int i) {
  auto P = [](std::vector<std::vector<QOp>> th, int pre = 0) { QPhase p; p.th = std::move(th); (void)pre; return p; };
  QScen S;
  auto one = [&](int n) { std::vector<QOp> o; for (int k = 0; k < n; ++k) o.push_back({PUSH, 90 + k}); return P({o}); };
  switch (i) {
    case 0: S.ph = {P({{{PUSH, 1}}, {{PUSH, 2}}})}; break;
    case 1: S.ph = {P({{{PUSH, 1}}, {{POP, 0}}})}; break;
    case 2: S.ph = {one(1), P({{{POP, 0}}, {{POP, 0}}})}; break;
    case 3: S.ph = {one(1), P({{{PUSH, 1}}, {{POP, 0}, {POP, 0}}})}; break;
    case 4: S.ph = {P({{{PUSH, 1}, {PUSH, 2}}, {{POP, 0}, {POP, 0}}})}; break;
    case 5: S.ph = {one(1), P({{{PUSH, 1}}, {{SIZE, 0}, {EMPTY, 0}}})}; break;
    case 6: S.ph = {one(2), P({{{POP, 0}}, {{EMPTY, 0}, {SIZE, 0}}})}; break;
    case 7: S.ph = {one(1), P({{{PUSH, 1}}, {{CLEAR, 0}}})}; break;
    case 8: S.ph = {one(2), P({{{POP, 0}}, {{CLEAR, 0}, {SIZE, 0}}})}; break;
    case 9: S.ph = {P({{{PUSH, 1}}, {{POP, 0}}, {{SIZE, 0}}})}; break;
    case 10: S.ph = {one(1), P({{{PUSH, 1}}, {{POP, 0}}, {{POP, 0}}})}; break;
    case 11: S.ph = {P({{{PUSH, 1}}, {{PUSH, 2}}, {{POP, 0}}})}; break;
    default: break;
  }
  return S;
}
constexpr int NSMALLQ = 12;
// a line of a program file: after others pre threads {count {operation}}
static QScen read_queue(const std::string& line) {
  std::istringstream in(line);
  QScen S;
  QPhase pre, main;
  std::vector<QOp> first;
  int n = 0, T = 0;
  in >> main.after >> main.others >> n >> T;
  for (int k = 0; k < n; ++k) first.push_back({PUSH, 90 + k});
  pre.th.push_back(first);
  for (int t = 0; t < T; ++t) {
    std::vector<QOp> ops;
    int m = 0;
    in >> m;
    for (int k = 0; k < m; ++k) { int o = 0; in >> o; ops.push_back({o, o == PUSH ? 10 * (t + 1) + k + 1 : 0}); }
    main.th.push_back(ops);
  }
  S.ph = {pre, main};
  return S;
}

// ---------------------------------------------------------------------------------------------- pool scenarios
// task kinds: 0 plain, 1 yields a few times, 2 throws, 3 waits for gate
struct POp { enum { Add, Launch, Wait, Stop, Num, Run, Open, Timeout, Move, Assign, Destroy, Yield } op; int a, b; };
struct PScen { std::vector<POp> ops; };
static constexpr int NT = 64;
static int results[NT];
static std::atomic<bool> gate{false};

static void task_body(int k, int kind) {
  ev(TSTART, k);
  if (kind == 1) for (int i = 0; i < 1 + k % 3; ++i) std::this_thread::yield();
  if (kind == 3) while (!gate) std::this_thread::yield();
  results[k] += k + 1;        // plain memory: waiting must order this before the waiter's read
  ev(TEND, k);
  if (kind == 2) throw std::runtime_error("task");
}
static void run_pool(const PScen& S) {
  auto pool = std::make_unique<altro::ThreadPool>();
  gate = false;
  ev(CTOR);
  int k = 0;
  std::vector<int> seen;
  for (const POp& o : S.ops) {
    switch (o.op) {
      case POp::Add: {
        int id = k++, kind = o.a;
        ev(ADD, id, kind == 3);
        auto f = [id, kind] { task_body(id, kind); };
        if (o.b == 0) pool->AddTask(f);
        else { std::function<void()> g = f; pool->AddTask(g); }
        seen.push_back(id);
        break;
      }
      case POp::Launch: ev(LAUNCHI, o.a); pool->LaunchThreads(o.a); ev(LAUNCH, o.a, static_cast<int>(pool->NumThreads()), sched::live_threads()); ev(RUNNING, pool->IsRunning()); break;
      case POp::Wait: {
        int f0 = sched::timers_fired();
        ev(WAITI);
        pool->Wait();
        int n = sched::timers_fired() - f0;
        ev(WAITR, n, n > 0 ? sched::last_timer_ms() : 0);
        if (n == 0) { for (int id : seen) ev(SEEN, id, results[id]); }
        seen.clear();
        break;
      }
      case POp::Stop: ev(STOPI); pool->StopThreads(); ev(STOPR, static_cast<int>(pool->NumThreads()), sched::live_threads(), pool->IsRunning()); break;
      case POp::Num: ev(NUM, 0, 0); { size_t n = pool->NumTasks(); ev(NUM, n > 1000000 ? 1000000 : static_cast<int>(n), 1); } break;
      case POp::Run: ev(RUNNING, pool->IsRunning()); break;
      case POp::Open: ev(OPEN, 0); gate = true; break;
      case POp::Timeout:
        ev(CFG, o.a);
        if (o.b == 0) pool->SetTimeoutPerTask(std::chrono::milliseconds(o.a));
        else if (o.b == 1) pool->SetTimeoutPerTask(std::chrono::seconds(o.a / 1000));
        else pool->SetTimeoutPerTask(std::chrono::minutes(o.a / 60000));
        break;
      case POp::Move: { auto p2 = std::make_unique<altro::ThreadPool>(std::move(*pool)); ev(PMOVE, p2->IsRunning()); pool = std::move(p2); break; }
      case POp::Assign: {
        auto p2 = std::make_unique<altro::ThreadPool>();
        for (int i = 0; i < o.a; ++i) { p2->AddTask([] { ev(TSTART, -1); ev(TEND, -1); }); }
        *p2 = std::move(*pool);
        ev(PASSIGN, p2->IsRunning());
        pool = std::move(p2);
        break;
      }
      case POp::Destroy: ev(DESTROY, 0); pool.reset(); ev(DESTROY, 1, sched::live_threads()); pool = std::make_unique<altro::ThreadPool>(); ev(CTOR); seen.clear(); break;
      case POp::Yield: for (int i = 0; i < o.a; ++i) std::this_thread::yield(); break;
    }
  }
}
static PScen gen_pool(Rng& r) {
  PScen S;
  bool running = false, open = false, gated = false;
  int threads = 0, tasks = 0, workers = 0;
  int n = r.range(4, 12);
  if (r.chance(25)) { int u = r.below(3); S.ops.push_back({POp::Timeout, u == 0 ? 90500 : u == 1 ? 60000 : 600000, u}); }
  for (int i = 0; i < n; ++i) {
    int c = r.below(100);
    if (c < 42) { int m = r.range(1, 3); for (int j = 0; j < m && tasks < 14; ++j) { int kind = r.pick({0, 0, 0, 1, 1, 2, 3}); if (kind == 3 && !open) gated = true; S.ops.push_back({POp::Add, kind, r.below(2)}); ++tasks; } }
    else if (c < 60) {
      if (!running) { int t = r.pick({1, 1, 2, 2, 3, 4}); if (threads + t > 10) continue; threads += t; workers = t; running = true; S.ops.push_back({POp::Launch, t, 0}); }
    } else if (c < 74) { if (gated && !open && r.chance(60)) { S.ops.push_back({POp::Open, 0, 0}); open = true; } S.ops.push_back({POp::Wait, 0, 0}); }
    else if (c < 84) { if (running) { if (gated && !open) { S.ops.push_back({POp::Open, 0, 0}); open = true; } S.ops.push_back({POp::Stop, 0, 0}); running = false; } }
    else if (c < 89) S.ops.push_back({POp::Num, 0, 0});
    else if (c < 91) S.ops.push_back({POp::Run, 0, 0});
    else if (c < 93) S.ops.push_back({POp::Yield, r.range(1, 30), 0});
    else if (c < 95) { if (!running) S.ops.push_back({POp::Move, 0, 0}); }
    else if (c < 97) { if (!running) S.ops.push_back({POp::Assign, r.below(3), 0}); }
    else { if (gated && !open) { S.ops.push_back({POp::Open, 0, 0}); open = true; } S.ops.push_back({POp::Destroy, 0, 0}); running = false; if (i > 4) break; }
  }
  (void)workers;
  if (gated && !open) S.ops.push_back({POp::Open, 0, 0});
  // everything still queued runs after a relaunch
  if (running && r.chance(40)) { S.ops.push_back({POp::Stop, 0, 0}); running = false; }
  if (!running) S.ops.push_back({POp::Launch, r.range(1, 2), 0});
  S.ops.push_back({POp::Add, 0, 0});
  S.ops.push_back({POp::Wait, 0, 0});
  S.ops.push_back({POp::Num, 0, 0});
  S.ops.push_back({POp::Stop, 0, 0});
  S.ops.push_back({POp::Launch, 1, 0});   // leftovers of a wait that gave up run here
  S.ops.push_back({POp::Add, 0, 0});
  S.ops.push_back({POp::Wait, 0, 0});
  S.ops.push_back({POp::Num, 0, 0});
  S.ops.push_back({POp::Destroy, 0, 0});
  return S;
}
static PScen small_pool(int i) {
  const POp A{POp::Add, 0, 0}, W{POp::Wait, 0, 0}, X{POp::Stop, 0, 0}, N{POp::Num, 0, 0}, D{POp::Destroy, 0, 0};
  auto L = [](int n) { return POp{POp::Launch, n, 0}; };
  PScen S;
  switch (i) {
    case 0: S.ops = {A, L(1), W, X}; break;
    case 1: S.ops = {L(1), A, W, X}; break;
    case 2: S.ops = {A, A, L(2), W, X}; break;
    case 3: S.ops = {L(2), A, A, W, D}; break;
    case 4: S.ops = {A, L(1), X, L(1), W, D}; break;
    case 5: S.ops = {L(1), A, D}; break;
    case 6: S.ops = {L(2), A, N, W, N, D}; break;
    case 7: S.ops = {A, L(1), W, A, W, X, A, L(1), W, D}; break;
    default: break;
  }
  return S;
}
constexpr int NSMALLP = 8;
// a line of a program file: {operation argument argument}
static PScen read_pool(const std::string& line) {
  std::istringstream in(line);
  PScen S;
  int o, a, b;
  while (in >> o >> a >> b) S.ops.push_back({static_cast<decltype(POp::op)>(o), a, b});
  return S;
}

// ---------------------------------------------------------------------------------------------- running
static void body_in_child(sched::Log* L, const sched::Policy& P, const std::function<void()>& body) {
  int dn = open("/dev/null", O_WRONLY);
  dup2(dn, 1); dup2(dn, 2);
  alarm(10);
  sched::use_log(L);
  auto bad = [L](const sched::Outcome& o) { strncpy(L->bad, o.bad.c_str(), 15); strncpy(L->text, sched::race_text(), 175); L->steps = o.steps; };
  sched::Outcome out;
  sched::run(P, body, bad, &out);
  L->steps = out.steps;
  L->nw = static_cast<int>(std::min<size_t>(out.width.size(), 8192));
  for (int i = 0; i < L->nw; ++i) { L->width[i] = out.width[i]; L->taken[i] = out.taken[i]; }
  L->done = 1;
  _exit(0);
}
static int hangs = 0;
static void fork_run(sched::Log* L, const sched::Policy& P, const std::function<void()>& body) {
  L->n = L->done = L->steps = L->nw = 0; L->bad[0] = 0; L->text[0] = 0;
  pid_t pid = fork();
  if (pid == 0) body_in_child(L, P, body);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ++hangs;
  if (!L->done && !L->bad[0]) {
    strcpy(L->bad, WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "hang" : WTERMSIG(st) == SIGABRT ? "abort" : "signal") : "exit");
  }
}

int main(int argc, char** argv) {
  if (argc < 6) return 2;
  std::string kind = argv[1];
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  int count = atoi(argv[3]), nproc = atoi(argv[4]);
  std::string out = argv[5];
  std::vector<std::string> gen;
  if (argc > 6) { std::ifstream in(argv[6]); for (std::string l; std::getline(in, l);) gen.push_back(l); }
  std::vector<pid_t> kids;
  for (int w = 0; w < nproc; ++w) {
    pid_t pid = fork();
    if (pid == 0) {
      std::ofstream f(out + "." + std::to_string(w));
      auto* L = static_cast<sched::Log*>(mmap(nullptr, sizeof(sched::Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
      const bool dfs = kind.size() == 4 && kind.substr(1) == "dfs", prog = !dfs && kind.substr(1) == "gen";
      const bool queue = kind[0] == 'q';
      const int total = prog ? static_cast<int>(gen.size()) : dfs ? (queue ? NSMALLQ : NSMALLP) : count;
      std::set<std::string> seen;
      long runs = 0;
      int id = w;
      auto emit = [&](const std::string& what) {
        ++runs;
        std::string t = "\"bad\":" + vf::js(L->bad) + ",\"ev\":[" + render(*L, queue) + "]";
        if (!seen.insert(t).second) return;
        f << "{\"id\":" << id << ",\"what\":" << vf::js(what) << ",\"text\":" << vf::js(L->text) << "," << t << "}\n";
        id += nproc;
      };
      for (int i = w; i < total && hangs < 8; i += nproc) {
        Rng r(seed * 7919ull + static_cast<uint64_t>(i));
        std::function<void()> body;
        QScen qs; PScen ps;
        if (queue) { qs = prog ? read_queue(gen[i]) : dfs ? small_queue(i) : gen_queue(r, 4); body = [&qs] { run_queue(qs); }; }
        else { ps = prog ? read_pool(gen[i]) : dfs ? small_pool(i) : gen_pool(r); body = [&ps] { run_pool(ps); }; }
        sched::Policy P;
        if (!dfs) {
          const int reps = prog ? (count + 2) / 3 : 4;
          for (int k = 0; k < reps && hangs < 8; ++k) {     // several schedules of each scenario
            P.mode = r.chance(35); P.seed = r.next(); P.stay = r.pick({0, 30, 60, 85, 95}); P.depth = r.range(1, 5);
            fork_run(L, P, body);
            emit(kind + " " + std::to_string(i) + "/" + std::to_string(k));
          }
          if (!prog) continue;
        }
        P = sched::Policy();
        P.mode = 2; P.seed = 1; P.max_steps = 8000;
        int left = prog ? count - count / 3 : count;
        for (int maxdev = 1; maxdev <= 4 && left > 0; ++maxdev) {   // all schedules with 1, 2, ... deviations from round robin
          std::vector<int> prefix;
          for (int n = 0, lim = maxdev == 4 ? left : std::min(left, count / 3 + 1); n < lim; ++n, --left) {
            P.prefix = prefix;
            fork_run(L, P, body);
            emit(kind + " " + std::to_string(i));
            int len = L->nw, at = -1;
            std::vector<int> dev(static_cast<size_t>(len) + 1, 0);
            for (int j = 0; j < len; ++j) dev[j + 1] = dev[j] + (L->taken[j] != 0);
            for (int j = len - 1; j >= 0; --j) if (L->taken[j] + 1 < L->width[j] && dev[j] + 1 <= maxdev) { at = j; break; }
            if (L->bad[0]) { left = 0; break; }
            if (at < 0) break;
            prefix.assign(L->taken, L->taken + at);
            prefix.push_back(L->taken[at] + 1);
          }
        }
      }
      f << "#" << runs << "\n";
      f.close();
      _exit(f.fail() ? 3 : 0);
    }
    kids.push_back(pid);
  }
  int bad = 0;
  for (pid_t k : kids) { int st; waitpid(k, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) bad = 1; }
  return bad;
}
