#include "sched.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <map>
#include <unordered_map>

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

namespace {
constexpr int MAXT = 12;
struct VC { uint32_t c[MAXT]; };
inline void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; ++i) a.c[i] = std::max(a.c[i], b.c[i]); }

enum State { RUN, BLOCK, DONE };
struct Thread {
  int id = 0;
  State st = RUN;
  const void* on = nullptr;   // what it is blocked on
  bool timed = false, timed_out = false;
  long long deadline = 0;
  bool yielded = false;
  std::atomic<int> go{0};
  VC vc{};
  pthread_t real{};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  int prio = 0;
};
struct Mutex { int owner = -1; int depth = 0; int readers = 0; VC vc{}; };

bool active = false;
thread_local Thread* me = nullptr;
thread_local int guard = 0;
struct Guard { Guard() { ++guard; } ~Guard() { --guard; } };
std::vector<Thread*> threads;
std::unordered_map<const void*, Mutex> mutexes;
std::unordered_map<const void*, VC> syncs;      // atomics, once controls
sched::Policy pol;
sched::Outcome outc;
std::function<void(const sched::Outcome&)> bad_cb;
uint64_t rng;
int last_event = 0, fired = 0, timer_ms = 0;
std::vector<int> pct_points;
int low_prio = 0;
char race_msg[160];

uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1Dull; }
long long vnow = 5000000000000ll;   // virtual clock, ns
void fire(Thread* t);
int below(int n) { return static_cast<int>((rnd() >> 33) % static_cast<uint64_t>(n)); }

void fwait(std::atomic<int>* a) {
  while (a->load() == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  a->store(0);
}
void fwake(std::atomic<int>* a) { a->store(1); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

[[noreturn]] void bad(const char* what) {
  outc.bad = what;
  active = false;
  bad_cb(outc);
  _exit(0);
}

void fire(Thread* t) {
  t->st = RUN; t->timed_out = true; vnow = std::max(vnow, t->deadline); last_event = outc.steps;
  if (t->id == 0) ++fired;
}
// choose the next thread among the runnable ones
Thread* choose() {
  Guard g;
  vnow += 1000;
  if (++outc.steps > pol.max_steps) bad("hang");
  if (outc.steps - last_event > pol.quiet_steps) {
    Thread* first = nullptr;
    for (Thread* t : threads) if (t->st == BLOCK && t->timed && (!first || t->deadline < first->deadline)) first = t;
    if (threads[0]->st == BLOCK && threads[0]->timed) first = threads[0];
    if (first) fire(first);
  }
  Thread* en[MAXT];
  int n = 0;
  for (Thread* t : threads) if (t->st == RUN) en[n++] = t;
  if (n == 0) {
    Thread* first = nullptr;
    for (Thread* t : threads) if (t->st == BLOCK && t->timed && (!first || t->deadline < first->deadline)) first = t;
    if (!first) {
      bool all = true;
      for (Thread* t : threads) all = all && t->st == DONE;
      bad(all ? "finished" : "deadlock");
    }
    int le = last_event;
    fire(first);
    if (first->id != 0) last_event = le;   // a polling worker is no progress
    return first;
  }
  if (n == 1) { en[0]->yielded = false; return en[0]; }
  Thread* cur = (me && me->st == RUN) ? me : nullptr;
  if (pol.mode == 0) {
    if (cur && cur->yielded) {   // somebody else
      cur->yielded = false;
      int k = below(n - 1);
      for (int i = 0; i < n; ++i) { if (en[i] == cur) continue; if (k-- == 0) return en[i]; }
    }
    if (cur && below(100) < pol.stay) return cur;
    return en[below(n)];
  }
  if (pol.mode == 1) {
    if (cur && cur->yielded) { cur->yielded = false; cur->prio = --low_prio; }
    for (int p : pct_points) if (cur && p == outc.steps) cur->prio = --low_prio;
    Thread* b = en[0];
    for (int i = 1; i < n; ++i) if (en[i]->prio > b->prio) b = en[i];
    return b;
  }
  // DFS: choice 0 = default (go on with the current thread, or the next one round-robin if it yielded or blocked)
  int def = 0;
  for (int i = 0; i < n; ++i) if (cur && en[i] == cur) def = i;
  if (!cur || cur->yielded) {
    int base = me ? me->id : 0;
    int best = -1;
    for (int i = 0; i < n; ++i) if (en[i] != cur && en[i]->id > base) { best = i; break; }
    if (best < 0) for (int i = 0; i < n; ++i) if (en[i] != cur) { best = i; break; }
    if (best >= 0) def = best;
  }
  bool forced = cur && cur->yielded;
  if (cur) cur->yielded = false;
  size_t at = outc.width.size();
  int c = at < pol.prefix.size() ? pol.prefix[at] : 0;
  int w = (forced || (at >= 4000)) ? 1 : n;   // after a yield there is nothing to decide
  outc.width.push_back(w);
  if (c >= w) c = 0;
  outc.taken.push_back(c);
  return en[(def + c) % n];
}
void resched() {
  Thread* nx = choose();
  if (nx == me) return;
  Thread* self = me;
  fwake(&nx->go);
  if (self->st == DONE) return;
  fwait(&self->go);
}
inline bool on() { return active && me && guard == 0; }
void point() { if (on()) resched(); }
void release(VC& v) { join(v, me->vc); me->vc.c[me->id]++; }
void acquire(const VC& v) { join(me->vc, v); }
void wake_all(const void* obj) { for (Thread* t : threads) if (t->st == BLOCK && t->on == obj) { t->st = RUN; t->timed_out = false; } }
void block(const void* obj, bool timed = false, long long dl = 0) {
  if (timed) {
    long long d = (dl - vnow) / 1000000;
    if (me->id == 0) timer_ms = d > 2000000000ll ? 2000000000 : static_cast<int>(d);
  }
  me->st = BLOCK; me->on = obj; me->timed = timed; me->deadline = dl; me->timed_out = false;
  resched();
  me->on = nullptr; me->timed = false;
}

// ------------------------------------------------------------------ races
struct Cell { uint32_t wc = 0; uint8_t wt = 0; uint32_t rc[MAXT] = {}; };
std::unordered_map<uintptr_t, Cell>* shadow() { static auto* s = new std::unordered_map<uintptr_t, Cell>(); return s; }
void clear_range(uintptr_t a, size_t n) {
  Guard g;
  auto& s = *shadow();
  if (s.empty()) return;
  if (n / 2 > s.size()) { for (auto it = s.begin(); it != s.end();) { uintptr_t k = it->first & ~(1ull << 63); if (k >= a && k < a + n) it = s.erase(it); else ++it; } return; }
  for (uintptr_t k = a; k < a + n; ++k) { if ((k & 3) == 0) s.erase(k); s.erase(k | (1ull << 63)); }
}
void access1(uintptr_t k, bool w, const void* pc) {
  Cell& c = (*shadow())[k];
  const VC& v = me->vc;
  bool r = c.wc > v.c[c.wt] && c.wt != me->id;
  if (w) for (int u = 0; u < MAXT; ++u) r = r || (u != me->id && c.rc[u] > v.c[u]);
  if (r) { snprintf(race_msg, sizeof race_msg, "thread %d %s at %p", me->id, w ? "writes" : "reads", pc); bad("race"); }
  if (w) { c.wt = static_cast<uint8_t>(me->id); c.wc = v.c[me->id]; } else c.rc[me->id] = v.c[me->id];
}
void access(void* p, size_t n, bool w, const void* pc) {
  if (!on()) return;
  Guard g;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (n < 4) { for (size_t i = 0; i < n; ++i) access1((a + i) | (1ull << 63), w, pc); return; }
  for (uintptr_t k = a & ~3ull; k < a + n; k += 4) access1(k, w, pc);
}

template <class F> F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }

void* trampoline(void* p) {
  Thread* t = static_cast<Thread*>(p);
  me = t;
  fwait(&t->go);
  void* r = t->fn(t->arg);
  {
    ++guard;
    me->st = DONE;
    me->vc.c[me->id]++;
    wake_all(t);
    --guard;
  }
  resched();
  return r;
}
bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void at_load(const volatile void* a, int mo) { if (!on()) return; resched(); Guard g; if (acq(mo)) acquire(syncs[const_cast<const void*>(a)]); }
void at_store(const volatile void* a, int mo) { if (!on()) return; resched(); Guard g; VC& v = syncs[const_cast<const void*>(a)]; if (rel(mo)) release(v); else v = VC{}; }
void at_rmw(const volatile void* a, int mo) { if (!on()) return; resched(); Guard g; VC& v = syncs[const_cast<const void*>(a)]; if (acq(mo)) acquire(v); if (rel(mo)) release(v); }
}  // namespace

namespace sched {
int self() { return me ? me->id : 0; }
int live_threads() { int n = 0; for (Thread* t : threads) if (t->id > 0 && t->st != DONE) ++n; return n; }
void event() { last_event = outc.steps; }
int timers_fired() { return fired; }
const char* race_text() { return race_msg; }
int last_timer_ms() { return timer_ms; }
static Log* the_log = nullptr;
void use_log(Log* l) { the_log = l; }
void ev(int k, int a, int b, int c) {
  ++guard;
  if (the_log && the_log->n < 4096) { Ev& e = the_log->ev[the_log->n]; e.k = k; e.t = self(); e.a = a; e.b = b; e.c = c; the_log->n++; }
  last_event = outc.steps;
  --guard;
}
void run(const Policy& p, const std::function<void()>& body, const std::function<void(const Outcome&)>& on_bad, Outcome* out) {
  pol = p; bad_cb = on_bad; outc = Outcome();
  rng = p.seed * 0x9E3779B97F4A7C15ull + 77; for (int i = 0; i < 5; ++i) rnd();
  mutexes.reserve(4096); syncs.reserve(4096); threads.reserve(MAXT); shadow()->reserve(1 << 16);
  outc.width.reserve(8192); outc.taken.reserve(8192);
  for (int i = 0; i < p.depth; ++i) pct_points.push_back(1 + below(400));
  low_prio = 0;
  Thread* t = new Thread();
  t->vc.c[0] = 1; t->prio = 1 + below(1000); t->real = pthread_self();
  threads.push_back(t);
  me = t;
  active = true;
  body();
  active = false;
  if (out) *out = outc;
}
}  // namespace sched

// ------------------------------------------------------------------ interposed library functions
extern "C" {
void* malloc(size_t n) { void* p = __libc_malloc(n); if (p && on()) clear_range(reinterpret_cast<uintptr_t>(p), n); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p && on()) clear_range(reinterpret_cast<uintptr_t>(p), a * b); return p; }
void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if (p && on()) clear_range(reinterpret_cast<uintptr_t>(p), n); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (p && on()) clear_range(reinterpret_cast<uintptr_t>(p), n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) { *o = memalign(a, n); return *o ? 0 : ENOMEM; }
void free(void* p) {   // memory is kept and poisoned, so that a use after the release shows
  if (p && on()) { Guard g; size_t n = malloc_usable_size(p); memset(p, 0xDB, n < 4096 ? n : 4096); return; }
  __libc_free(p);
}

int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!on()) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); }
  resched();
  Guard g;
  Mutex& x = mutexes[m];
  if (x.owner == me->id && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { x.depth++; return 0; }
  while (mutexes[m].owner != -1) { --guard; block(m); ++guard; }
  Mutex& y = mutexes[m];
  y.owner = me->id; y.depth = 1; acquire(y.vc);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!on()) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); }
  resched();
  Guard g;
  Mutex& x = mutexes[m];
  if (x.owner == me->id && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { x.depth++; return 0; }
  if (x.owner != -1) return EBUSY;
  x.owner = me->id; x.depth = 1; acquire(x.vc);
  return 0;
}
static int timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  resched();
  Guard g;
  while (mutexes[m].owner != -1) { --guard; block(m, true, ts->tv_sec * 1000000000ll + ts->tv_nsec); ++guard; if (me->timed_out && mutexes[m].owner != -1) return ETIMEDOUT; }
  Mutex& y = mutexes[m];
  y.owner = me->id; y.depth = 1; acquire(y.vc);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return timedlock(m, ts); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts) { return timedlock(m, ts); }
static void unlock_now(pthread_mutex_t* m) {
  Mutex& x = mutexes[m];
  if (--x.depth > 0) return;
  x.owner = -1; release(x.vc);
  wake_all(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!on()) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); }
  { Guard g; unlock_now(m); }
  resched();
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) { if (on()) { Guard g; mutexes.erase(m); } return 0; }

int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!on()) { static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); return f(m); }
  resched(); Guard g;
  while (mutexes[m].owner != -1 || mutexes[m].readers > 0) { --guard; block(m); ++guard; }
  mutexes[m].owner = me->id; acquire(mutexes[m].vc); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!on()) { static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); return f(m); }
  resched(); Guard g;
  while (mutexes[m].owner != -1) { --guard; block(m); ++guard; }
  mutexes[m].readers++; acquire(mutexes[m].vc); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!on()) { static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); return f(m); }
  { Guard g; Mutex& x = mutexes[m]; if (x.owner == me->id) x.owner = -1; else x.readers--; release(x.vc); wake_all(m); }
  resched(); return 0;
}

static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, long long dl) {
  resched();
  ++guard; unlock_now(m); --guard;
  block(c, timed, dl);
  bool to = me->timed_out;
  Guard g;
  while (mutexes[m].owner != -1) { --guard; block(m); ++guard; }
  mutexes[m].owner = me->id; mutexes[m].depth = 1; acquire(mutexes[m].vc);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!on()) { static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return f(c, m); }
  return cond_wait(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!on()) { static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait"); return f(c, m, ts); }
  return cond_wait(c, m, true, ts->tv_sec * 1000000000ll + ts->tv_nsec);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  if (!on()) { static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait"); return f(c, m, k, ts); }
  return cond_wait(c, m, true, ts->tv_sec * 1000000000ll + ts->tv_nsec);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!on()) { static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_signal"); return f(c); }
  resched();
  Guard g;
  Thread* w[MAXT]; int n = 0;
  for (Thread* t : threads) if (t->st == BLOCK && t->on == c) w[n++] = t;
  if (n > 0) { Thread* t = w[pol.mode == 2 ? 0 : below(n)]; t->st = RUN; t->timed_out = false; }
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!on()) { static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); return f(c); }
  resched();
  Guard g; wake_all(c);
  return 0;
}

int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  static auto f = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  if (!on()) return f(out, at, fn, arg);
  resched();
  if (threads.size() >= MAXT) return EAGAIN;
  ++guard;
  Thread* t = new Thread();
  t->id = static_cast<int>(threads.size());
  t->fn = fn; t->arg = arg;
  t->vc = me->vc; t->vc.c[t->id] = 1; me->vc.c[me->id]++;
  t->prio = 1 + below(1000);
  threads.push_back(t);
  int r = f(&t->real, at, trampoline, t);
  if (r != 0) { t->st = DONE; --guard; return r; }
  *out = t->real;
  pthread_attr_t a;
  if (pthread_getattr_np(t->real, &a) == 0) {
    void* base; size_t sz;
    pthread_attr_getstack(&a, &base, &sz);
    pthread_attr_destroy(&a);
    clear_range(reinterpret_cast<uintptr_t>(base), sz);
  }
  --guard;
  resched();
  return 0;
}
int pthread_join(pthread_t th, void** ret) {
  static auto f = real<int (*)(pthread_t, void**)>("pthread_join");
  if (!on()) return f(th, ret);
  resched();
  Thread* t = nullptr;
  for (Thread* x : threads) if (x->id > 0 && pthread_equal(x->real, th)) t = x;   // the newest one
  if (!t) return ESRCH;
  while (t->st != DONE) block(t);
  { Guard g; acquire(t->vc); }
  return f(th, ret);
}
int pthread_once(pthread_once_t* c, void (*fn)(void)) {
  if (!on()) { static auto f = real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once"); return f(c, fn); }
  resched();
  while (*c == 1) block(c);
  if (*c & 2) { Guard g; acquire(syncs[c]); return 0; }
  *c = 1;
  try { fn(); } catch (...) { *c = 0; Guard g; wake_all(c); throw; }
  *c = 2;
  { Guard g; release(syncs[c]); wake_all(c); }
  resched();
  return 0;
}
int sched_yield() { if (on()) { me->yielded = true; resched(); } return 0; }
int clock_gettime(clockid_t k, struct timespec* ts) {
  if (!on()) return static_cast<int>(syscall(SYS_clock_gettime, k, ts));
  ts->tv_sec = vnow / 1000000000ll; ts->tv_nsec = vnow % 1000000000ll;
  return 0;
}
static void doze(const struct timespec* a) { if (a) vnow += std::min(a->tv_sec * 1000000000ll + a->tv_nsec, 1000000000ll); me->yielded = true; resched(); }
int nanosleep(const struct timespec* a, struct timespec* b) {
  if (on()) { doze(a); return 0; }
  static auto f = real<int (*)(const struct timespec*, struct timespec*)>("nanosleep"); return f(a, b);
}
int clock_nanosleep(clockid_t k, int fl, const struct timespec* a, struct timespec* b) {
  if (on()) { doze(fl == 0 ? a : nullptr); return 0; }
  static auto f = real<int (*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep"); return f(k, fl, a, b);
}

// ------------------------------------------------------------------ instrumentation entry points
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define RW(n) \
  void __tsan_read##n(void* p) { access(p, n, false, __builtin_return_address(0)); } \
  void __tsan_write##n(void* p) { access(p, n, true, __builtin_return_address(0)); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, __builtin_return_address(0)); } \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, __builtin_return_address(0)); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, __builtin_return_address(0)); } \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, __builtin_return_address(0)); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, __builtin_return_address(0)); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define ATOM(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) { at_load(a, mo); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { at_store(a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { at_rmw(a, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { at_rmw(a, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { at_rmw(a, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { at_rmw(a, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { at_rmw(a, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { at_rmw(a, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int) { at_rmw(a, mo); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int) { at_rmw(a, mo); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int) { at_rmw(a, mo); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
}

// std::future waits on a futex through these two functions of libstdc++
namespace std {
struct __atomic_futex_unsigned_base {
  bool _M_futex_wait_until(unsigned*, unsigned, bool, chrono::seconds, chrono::nanoseconds);
  bool _M_futex_wait_until_steady(unsigned*, unsigned, bool, chrono::seconds, chrono::nanoseconds);
  static void _M_futex_notify_all(unsigned*);
};
static bool futex_until(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds ns) {
  if (!on()) {
    if (__atomic_load_n(a, __ATOMIC_SEQ_CST) == v) { struct timespec ts = {0, 1000000}; syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, &ts, nullptr, 0); }
    return true;
  }
  resched();
  if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != v) return true;
  block(a, timed, s.count() * 1000000000ll + ns.count());
  return !me->timed_out;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool t, chrono::seconds s, chrono::nanoseconds n) { return futex_until(a, v, t, s, n); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool t, chrono::seconds s, chrono::nanoseconds n) { return futex_until(a, v, t, s, n); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) {
  if (!on()) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1 << 30, nullptr, nullptr, 0); return; }
  { Guard g; wake_all(a); }
  resched();
}
}  // namespace std
