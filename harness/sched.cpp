#define MC_NO_MAIN
#include "sched.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <ucontext.h>

#include <exception>

namespace sched {
Config cfg;

namespace {
struct Fiber {
  ucontext_t ctx;
  char* stack = nullptr;
  std::function<void()> body;
  bool done = false;
  std::function<bool()> blocked;  // empty: runnable
  const char* blocked_on = "";
  int id = 0;
  char eh[16];
};
const size_t kStack = 512 * 1024;
std::vector<char*>& stack_pool() {
  static std::vector<char*> p;
  return p;
}
struct Team {
  std::vector<Fiber*> fibers;
  ucontext_t main;
  char main_eh[16];
  Fiber* current = nullptr;
  std::exception_ptr error;
  // OpenMP work-sharing state
  std::map<int, std::pair<long, long>> loops;
  std::map<int, long> loop_chunk, loop_incr;
  std::vector<int> loop_no, single_no;
  std::set<int> single_done;
  std::vector<int> barrier_no;
  std::map<int, int> arrived;
};
Team* team = nullptr;
bool in_sched = false;
uint64_t n_points = 0, n_switches = 0;
void* crit_owner = nullptr;
std::map<void*, void*> crit;

void save_eh(char* to) { memcpy(to, (void*)abi::__cxa_get_globals(), 16); }
void load_eh(const char* from) { memcpy((void*)abi::__cxa_get_globals(), from, 16); }

void to_main(Fiber* f) {
  save_eh(f->eh);
  load_eh(team->main_eh);
  swapcontext(&f->ctx, &team->main);
}
void trampoline() {
  Fiber* f = team->current;
  try {
    f->body();
  } catch (...) {
    if (!team->error) team->error = std::current_exception();
  }
  f->done = true;
  in_sched = true;
  save_eh(f->eh);
  load_eh(team->main_eh);
  setcontext(&team->main);
}
int free_choice(int n, const char* label) {
  return cfg.ordered_start ? cfg.run->deviate(n, cfg.preemptions, label) : cfg.run->choose(n, label);
}
bool ready(Fiber* f) { return !f->done && (!f->blocked || f->blocked()); }

// Decides which fiber runs next; called on the current fiber's stack. Returns when this fiber is scheduled again.
void reschedule(bool current_can_run, const char* label) {
  Team* t = team;
  Fiber* me = t->current;
  in_sched = true;
  Fiber* next = nullptr;
  try {
    std::vector<Fiber*> opts;
    if (current_can_run) opts.push_back(me);
    const size_t n = t->fibers.size();
    for (size_t k = 1; k <= n; k++) {
      Fiber* f = t->fibers[(size_t)(me->id + (int)k) % n];
      if (f != me && ready(f)) opts.push_back(f);
    }
    if (current_can_run) {
      const int c = opts.size() > 1 ? cfg.run->deviate((int)opts.size(), cfg.preemptions, label) : 0;
      next = opts[(size_t)c];
      if (c) n_switches++;
    } else if (!opts.empty()) {
      next = opts[(size_t)free_choice((int)opts.size(), label)];
    }
  } catch (...) {
    t->error = std::current_exception();
    to_main(me);  // never returns: the team is abandoned
  }
  if (next == me) {
    in_sched = false;
    return;
  }
  if (!next) {
    to_main(me);  // nothing can run: the main context reports the deadlock
  }
  save_eh(me->eh);
  t->current = next;
  load_eh(next->eh);
  in_sched = false;
  swapcontext(&me->ctx, &next->ctx);
  in_sched = false;
}
void point(const char* label) {
  if (in_sched || !team || !team->current) return;
  n_points++;
  cfg.run->step();
  if (team->fibers.size() < 2) return;
  reschedule(true, label);
}
inline bool own_stack(const void* p) {
  const Fiber* f = team->current;
  return (const char*)p >= f->stack && (const char*)p < f->stack + kStack;
}
}  // namespace

bool in_fiber() { return team && !in_sched && team->current; }
int fiber_id() { return team && team->current ? team->current->id : 0; }
Quiet::Quiet() : old(in_sched) { in_sched = true; }
Quiet::~Quiet() { in_sched = old; }
uint64_t points() { return n_points; }
uint64_t switches() { return n_switches; }
void yield(const char* label) { point(label); }
void wait_until(const std::function<bool()>& pred, const char* what) {
  if (!in_fiber()) return;
  in_sched = true;
  const bool ok = pred();
  in_sched = false;
  if (ok) return;
  Fiber* f = team->current;
  f->blocked = pred;
  f->blocked_on = what;
  reschedule(false, what);
  f->blocked = nullptr;
}

static void forget_locks();
static Team* make_team() { return new Team; }
static void run_team(std::vector<std::function<void()>> bodies) {
  if (!cfg.run) throw std::runtime_error("harness error: no explorer attached to the scheduler");
  Team* outer = team;
  const bool outer_sched = in_sched;
  Team* t = make_team();
  for (size_t i = 0; i < bodies.size(); i++) {
    Fiber* f = new Fiber;
    f->id = (int)i;
    f->body = bodies[i];
    memset(f->eh, 0, 16);
    if (stack_pool().empty()) {
      f->stack = (char*)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    } else {
      f->stack = stack_pool().back();
      stack_pool().pop_back();
    }
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = f->stack;
    f->ctx.uc_stack.ss_size = kStack;
    f->ctx.uc_link = nullptr;
    makecontext(&f->ctx, trampoline, 0);
    t->fibers.push_back(f);
  }
  t->loop_no.assign(bodies.size(), 0);
  t->single_no.assign(bodies.size(), 0);
  t->barrier_no.assign(bodies.size(), 0);
  team = t;
  std::string dead;
  while (!t->error) {
    in_sched = true;
    std::vector<Fiber*> opts;
    bool all = true;
    for (Fiber* f : t->fibers) {
      if (!f->done) all = false;
      if (ready(f)) opts.push_back(f);
    }
    if (all) break;
    if (opts.empty()) {
      dead = "deadlock:";
      for (Fiber* f : t->fibers)
        dead += mc::cat(" thread ", f->id, f->done ? " finished" : mc::cat(" waits for ", std::string(f->blocked_on)), ";");
      break;
    }
    try {
      t->current = opts[(size_t)free_choice((int)opts.size(), "run thread")];
    } catch (...) {
      t->error = std::current_exception();
      break;
    }
    save_eh(t->main_eh);
    load_eh(t->current->eh);
    in_sched = false;
    swapcontext(&t->main, &t->current->ctx);
    in_sched = true;
    t->current = nullptr;
  }
  std::exception_ptr err = t->error;
  for (Fiber* f : t->fibers) {
    stack_pool().push_back(f->stack);
    delete f;
  }
  delete t;
  team = outer;
  in_sched = outer_sched;
  crit.clear();
  if (!outer) forget_locks();
  if (err) std::rethrow_exception(err);
  if (!dead.empty()) throw mc::Violation{dead, ""};
}
void run_threads(const std::vector<std::function<void()>>& bodies) { run_team(bodies); }

// ---------------------------------------------------------------- mutexes
struct Mutex {
  Fiber* owner = nullptr;
  int count = 0;
};
static std::map<pthread_mutex_t*, Mutex>& mutexes() {
  static std::map<pthread_mutex_t*, Mutex> m;
  return m;
}
static std::map<pthread_cond_t*, std::vector<Fiber*>>& cond_waiters() {
  static std::map<pthread_cond_t*, std::vector<Fiber*>> w;
  return w;
}
// an abandoned execution leaves its locks behind
static void forget_locks() {
  mutexes().clear();
  cond_waiters().clear();
}
}  // namespace sched

using namespace sched;

extern "C" {
typedef int (*mfn)(pthread_mutex_t*);
static int real_mutex(const char* name, mfn* f, pthread_mutex_t* m) {
  if (!*f) *f = (mfn)dlsym(RTLD_NEXT, name);
  return (*f)(m);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  static mfn real;
  if (!in_fiber()) return real_mutex("pthread_mutex_lock", &real, m);
  point("lock");
  in_sched = true;
  Fiber* me = team->current;
  Mutex& x = mutexes()[m];
  const bool mine = x.owner == me;
  in_sched = false;
  if (mine) {
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
      x.count++;
      return 0;
    }
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  Mutex* px = &x;
  wait_until([px] { return px->owner == nullptr; }, "a mutex");
  x.owner = me;
  x.count = 1;
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  static mfn real;
  if (!in_fiber()) return real_mutex("pthread_mutex_trylock", &real, m);
  point("trylock");
  in_sched = true;
  Mutex& x = mutexes()[m];
  in_sched = false;
  if (x.owner == team->current && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
    x.count++;
    return 0;
  }
  if (x.owner) return EBUSY;
  x.owner = team->current;
  x.count = 1;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static mfn real;
  if (!in_fiber()) return real_mutex("pthread_mutex_unlock", &real, m);
  in_sched = true;
  Mutex& x = mutexes()[m];
  in_sched = false;
  if (x.owner != team->current) {
    in_sched = true;
    cfg.run->note([] { return std::string("unlock of a mutex that is not held"); });
    in_sched = false;
    return EPERM;
  }
  if (--x.count == 0) {
    x.owner = nullptr;
    point("unlock");
  }
  return 0;
}

// condition variables: a waiter is woken by a signal, a broadcast or (timed waits) when nothing else can run
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  point("wait");
  in_sched = true;
  Fiber* me = team->current;
  cond_waiters()[c].push_back(me);
  Mutex& x = mutexes()[m];
  const int depth = x.count;
  x.owner = nullptr;
  x.count = 0;
  in_sched = false;
  bool timeout = false;
  wait_until(
      [&, me, c] {
        for (Fiber* f : cond_waiters()[c])
          if (f == me) {
            if (!timed) return false;
            for (Fiber* o : team->fibers)  // time passes when everybody else is stuck
              if (o != me && !o->done && !o->blocked) return false;
            timeout = true;
            return true;
          }
        return true;
      },
      "a condition variable");
  in_sched = true;
  auto& w = cond_waiters()[c];
  bool still = false;
  for (size_t i = 0; i < w.size(); i++)
    if (w[i] == me) {
      w.erase(w.begin() + (long)i);
      still = true;
      break;
    }
  in_sched = false;
  Mutex* px = &x;
  wait_until([px] { return px->owner == nullptr; }, "a mutex");
  x.owner = team->current;
  x.count = depth;
  return still && timeout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  typedef int (*fn)(pthread_cond_t*, pthread_mutex_t*);
  static fn real;
  if (in_fiber()) return cond_wait(c, m, false);
  if (!real) real = (fn)dlsym(RTLD_NEXT, "pthread_cond_wait");
  return real(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  typedef int (*fn)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
  static fn real;
  if (in_fiber()) return cond_wait(c, m, true);
  if (!real) real = (fn)dlsym(RTLD_NEXT, "pthread_cond_timedwait");
  return real(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  typedef int (*fn)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
  static fn real;
  if (in_fiber()) return cond_wait(c, m, true);
  if (!real) real = (fn)dlsym(RTLD_NEXT, "pthread_cond_clockwait");
  return real(c, m, k, t);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  typedef int (*fn)(pthread_cond_t*);
  static fn real;
  if (in_fiber()) {
    point("notify");
    in_sched = true;
    cond_waiters()[c].clear();
    in_sched = false;
    return 0;
  }
  if (!real) real = (fn)dlsym(RTLD_NEXT, "pthread_cond_broadcast");
  return real(c);
}
int pthread_cond_signal(pthread_cond_t* c) {
  typedef int (*fn)(pthread_cond_t*);
  static fn real;
  if (in_fiber()) {
    point("notify");
    in_sched = true;
    auto& w = cond_waiters()[c];
    int i = 0;
    try {
      if (w.size() > 1) i = cfg.run->choose((int)w.size(), "waiter woken");
    } catch (...) {
      team->error = std::current_exception();
      to_main(team->current);
    }
    if (!w.empty()) w.erase(w.begin() + i);
    in_sched = false;
    return 0;
  }
  if (!real) real = (fn)dlsym(RTLD_NEXT, "pthread_cond_signal");
  return real(c);
}

// a sleeping thread continues when another one has done something, or nothing else can run
int nanosleep(const struct timespec* t, struct timespec* rem) {
  typedef int (*fn)(const struct timespec*, struct timespec*);
  static fn real;
  if (in_fiber()) {
    const uint64_t n = n_points;
    Fiber* me = team->current;
    cfg.run->step();
    wait_until(
        [n, me] {
          if (n_points > n) return true;
          for (Fiber* o : team->fibers)
            if (o != me && !o->done && !o->blocked) return false;
          return true;
        },
        "sleep");
    return 0;
  }
  if (!real) real = (fn)dlsym(RTLD_NEXT, "nanosleep");
  return real(t, rem);
}
int clock_nanosleep(clockid_t k, int fl, const struct timespec* t, struct timespec* rem) {
  typedef int (*fn)(clockid_t, int, const struct timespec*, struct timespec*);
  static fn real;
  if (in_fiber()) return nanosleep(t, rem);
  if (!real) real = (fn)dlsym(RTLD_NEXT, "clock_nanosleep");
  return real(k, fl, t, rem);
}

// ---------------------------------------------------------------- OpenMP
struct Gomp {
  int n;
};
static int team_size() { return team && team->current ? (int)team->fibers.size() : 1; }
int omp_get_thread_num(void) { return team && team->current ? team->current->id : 0; }
int omp_get_num_threads(void) { return team_size(); }
int omp_get_max_threads(void) { return cfg.run ? cfg.omp_threads : 1; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return team_size() > 1; }
int omp_get_level(void) { return team ? 1 : 0; }
void omp_set_num_threads(int n) { cfg.omp_threads = n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
double omp_get_wtime(void) { return mc::now_s(); }
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
  if (!cfg.run || (team && team->current)) {  // not explored, or nested: one thread
    fn(data);
    return;
  }
  if (!n) n = (unsigned)cfg.omp_threads;
  std::vector<std::function<void()>> bodies;
  for (unsigned i = 0; i < n; i++) bodies.push_back([fn, data] { fn(data); });
  run_team(bodies);
}
void GOMP_barrier(void) {
  if (!in_fiber() || team_size() == 1) return;
  Team* t = team;
  const int me = t->current->id, no = t->barrier_no[(size_t)me]++;
  in_sched = true;
  t->arrived[no]++;
  in_sched = false;
  wait_until([t, no] { return t->arrived[no] == (int)t->fibers.size(); }, "a barrier");
}
static char anon_crit;
void GOMP_critical_name_start(void** p) {
  if (!in_fiber()) return;
  point("critical");
  void* key = p;
  wait_until([key] { return crit.find(key) == crit.end(); }, "a critical section");
  in_sched = true;
  crit[key] = team->current;
  in_sched = false;
}
void GOMP_critical_name_end(void** p) {
  if (!in_fiber()) return;
  in_sched = true;
  crit.erase(p);
  in_sched = false;
  point("end critical");
}
void GOMP_critical_start(void) { GOMP_critical_name_start((void**)&anon_crit); }
void GOMP_critical_end(void) { GOMP_critical_name_end((void**)&anon_crit); }
static char atomic_crit;
void GOMP_atomic_start(void) { GOMP_critical_name_start((void**)&atomic_crit); }
void GOMP_atomic_end(void) { GOMP_critical_name_end((void**)&atomic_crit); }
bool GOMP_single_start(void) {
  if (!in_fiber()) return true;
  in_sched = true;
  const int no = team->single_no[(size_t)team->current->id]++;
  const bool mine = team->single_done.insert(no).second;
  in_sched = false;
  return mine;
}
// dynamic, guided and runtime schedules: every chunk is taken at a scheduling point
static long g_serial_next, g_serial_end, g_serial_incr;
static bool loop_next(long* istart, long* iend) {
  if (!in_fiber()) {
    if (g_serial_incr > 0 ? g_serial_next >= g_serial_end : g_serial_next <= g_serial_end) return false;
    *istart = g_serial_next;
    *iend = g_serial_next = g_serial_end;
    return true;
  }
  point("chunk");
  in_sched = true;
  const int no = team->loop_no[(size_t)team->current->id] - 1;
  std::pair<long, long>& l = team->loops[no];
  const long incr = team->loop_incr[no], chunk = std::max(1l, team->loop_chunk[no]);
  bool got = false;
  if (incr > 0 ? l.first < l.second : l.first > l.second) {
    *istart = l.first;
    l.first += incr * chunk;
    if (incr > 0 ? l.first > l.second : l.first < l.second) l.first = l.second;
    *iend = l.first;
    got = true;
  }
  in_sched = false;
  return got;
}
static bool loop_start(long start, long end, long incr, long chunk, long* istart, long* iend) {
  if (!in_fiber()) {
    g_serial_next = start;
    g_serial_end = end;
    g_serial_incr = incr;
    return loop_next(istart, iend);
  }
  in_sched = true;
  const int no = team->loop_no[(size_t)team->current->id]++;
  if (!team->loops.count(no)) {
    team->loops[no] = std::make_pair(start, end);
    team->loop_incr[no] = incr;
    team->loop_chunk[no] = chunk;
  }
  in_sched = false;
  return loop_next(istart, iend);
}
#define LOOP(kind)                                                                                            \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long* a, long* b) {                           \
    return loop_start(s, e, i, c, a, b);                                                                      \
  }                                                                                                           \
  bool GOMP_loop_##kind##_next(long* a, long* b) { return loop_next(a, b); }                                  \
  bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, \
                                    unsigned long long c, unsigned long long* a, unsigned long long* b) {     \
    return loop_start((long)s, (long)e, (long)i, (long)c, (long*)a, (long*)b);                                \
  }                                                                                                           \
  bool GOMP_loop_ull_##kind##_next(unsigned long long* a, unsigned long long* b) {                            \
    return loop_next((long*)a, (long*)b);                                                                     \
  }
LOOP(static)
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)
#define LOOPR(kind)                                                                                           \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long* a, long* b) {                                   \
    return loop_start(s, e, i, 1, a, b);                                                                      \
  }                                                                                                           \
  bool GOMP_loop_##kind##_next(long* a, long* b) { return loop_next(a, b); }                                  \
  bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, \
                                    unsigned long long* a, unsigned long long* b) {                           \
    return loop_start((long)s, (long)e, (long)i, 1, (long*)a, (long*)b);                                      \
  }                                                                                                           \
  bool GOMP_loop_ull_##kind##_next(unsigned long long* a, unsigned long long* b) {                            \
    return loop_next((long*)a, (long*)b);                                                                     \
  }
LOOPR(runtime)
LOOPR(maybe_nonmonotonic_runtime)
LOOPR(nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
struct LoopArg {
  void (*fn)(void*);
  void* data;
};
#define PLOOP(kind)                                                                                         \
  void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, \
                                 unsigned fl) {                                                             \
    if (!cfg.run || (team && team->current)) {                                                              \
      g_serial_next = s;                                                                                    \
      g_serial_end = e;                                                                                     \
      g_serial_incr = i;                                                                                    \
      fn(data);                                                                                             \
      return;                                                                                               \
    }                                                                                                       \
    if (!n) n = (unsigned)cfg.omp_threads;                                                                  \
    std::vector<std::function<void()>> bodies;                                                              \
    for (unsigned k = 0; k < n; k++)                                                                        \
      bodies.push_back([=] {                                                                                \
        in_sched = true;                                                                                    \
        const int no = team->loop_no[(size_t)team->current->id]++;                                          \
        if (!team->loops.count(no)) {                                                                       \
          team->loops[no] = std::make_pair(s, e);                                                           \
          team->loop_incr[no] = i;                                                                          \
          team->loop_chunk[no] = c;                                                                         \
        }                                                                                                   \
        in_sched = false;                                                                                   \
        fn(data);                                                                                           \
      });                                                                                                   \
    run_team(bodies);                                                                                       \
  }
PLOOP(dynamic)
PLOOP(guided)
PLOOP(nonmonotonic_dynamic)
PLOOP(nonmonotonic_guided)

// ---------------------------------------------------------------- memory access hooks
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
static inline void mem_access(const void* p, const char* label) {
  if (!team || in_sched || !team->current || !cfg.access_points || own_stack(p)) return;
  if (cfg.watch && !cfg.watch(p)) return;
  point(label);
}
#define ACC(n)                                                              \
  void __tsan_read##n(void* p) { mem_access(p, "read"); }                       \
  void __tsan_write##n(void* p) { mem_access(p, "write"); }                     \
  void __tsan_volatile_read##n(void* p) { mem_access(p, "read"); }              \
  void __tsan_volatile_write##n(void* p) { mem_access(p, "write"); }            \
  void __tsan_unaligned_read##n(void* p) { mem_access(p, "read"); }             \
  void __tsan_unaligned_write##n(void* p) { mem_access(p, "write"); }           \
  void __tsan_unaligned_volatile_read##n(void* p) { mem_access(p, "read"); }    \
  void __tsan_unaligned_volatile_write##n(void* p) { mem_access(p, "write"); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, unsigned long) { mem_access(p, "read"); }
void __tsan_write_range(void* p, unsigned long) { mem_access(p, "write"); }
void __tsan_vptr_update(void** p, void*) {}
void __tsan_vptr_read(void** p) {}
#define ATOMIC(bits, T)                                                                                       \
  T __tsan_atomic##bits##_load(const volatile T* a, int) {                                                    \
    mem_access((const void*)a, "atomic load");                                                                    \
    return *a;                                                                                                \
  }                                                                                                           \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) {                                                 \
    mem_access((const void*)a, "atomic store");                                                                   \
    *a = v;                                                                                                   \
  }                                                                                                           \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) {                                                 \
    mem_access((const void*)a, "atomic exchange");                                                                \
    T o = *a;                                                                                                 \
    *a = v;                                                                                                   \
    return o;                                                                                                 \
  }                                                                                                           \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) {                                                \
    mem_access((const void*)a, "atomic add");                                                                     \
    T o = *a;                                                                                                 \
    *a = o + v;                                                                                               \
    return o;                                                                                                 \
  }                                                                                                           \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) {                                                \
    mem_access((const void*)a, "atomic sub");                                                                     \
    T o = *a;                                                                                                 \
    *a = o - v;                                                                                               \
    return o;                                                                                                 \
  }                                                                                                           \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) {                                                \
    mem_access((const void*)a, "atomic and");                                                                     \
    T o = *a;                                                                                                 \
    *a = o & v;                                                                                               \
    return o;                                                                                                 \
  }                                                                                                           \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) {                                                 \
    mem_access((const void*)a, "atomic or");                                                                      \
    T o = *a;                                                                                                 \
    *a = o | v;                                                                                               \
    return o;                                                                                                 \
  }                                                                                                           \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) {                                                \
    mem_access((const void*)a, "atomic xor");                                                                     \
    T o = *a;                                                                                                 \
    *a = o ^ v;                                                                                               \
    return o;                                                                                                 \
  }                                                                                                           \
  bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {                    \
    mem_access((const void*)a, "atomic cas");                                                                     \
    if (*a == *c) {                                                                                           \
      *a = v;                                                                                                 \
      return true;                                                                                            \
    }                                                                                                         \
    *c = *a;                                                                                                  \
    return false;                                                                                             \
  }                                                                                                           \
  bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int x, int y) {                  \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, x, y);                                      \
  }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
