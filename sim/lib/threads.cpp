#include "lib/threads.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <linux/futex.h>
#include <sched.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <random>
#include <vector>

namespace sim
{

static ThreadSim g_threads;
ThreadSim & threads() {return g_threads;}

namespace
{
struct Lock
{
  Fiber * owner = nullptr;
  int depth = 0;
  int readers = 0;
};
std::map<const void *, Lock> g_locks;
std::vector<void *> g_quarantine;
bool g_inside = false;

bool simulated()
{
  return g_threads.on && !g_inside && W() && W()->current && W()->current->preemptible > 0;
}

struct Inside
{
  bool prev;
  Inside()
  : prev(g_inside) {g_inside = true;}
  ~Inside() {g_inside = prev;}
};

void wake_waiters(const void * m)
{
  for (auto & f : W()->fibers) {
    if (f->waiting_mutex == m) {
      f->waiting_mutex = nullptr;
      W()->wake(f.get());
    }
  }
}

void wait_for(const void * m)
{
  ++g_threads.contended;
  Fiber * f = W()->current;
  f->waiting_mutex = m;
  g_inside = false;
  while (f->waiting_mutex == m) {
    W()->block();
  }
  g_inside = true;
}

int lock(void * m, bool recursive, bool shared, bool try_only)
{
  preempt();
  Inside i;
  ++g_threads.locks;
  Fiber * f = W()->current;
  for (;; ) {
    Lock & l = g_locks[m];
    if (l.owner == nullptr && (shared || l.readers == 0)) {
      if (shared) {
        ++l.readers;
      } else {
        l.owner = f;
        l.depth = 1;
      }
      return 0;
    }
    if (l.owner == f && recursive) {
      ++l.depth;
      return 0;
    }
    if (try_only) {
      return EBUSY;
    }
    wait_for(m);
  }
}

int unlock(void * m)
{
  {
    Inside i;
    Lock & l = g_locks[m];
    if (l.owner) {
      if (l.owner != W()->current) {
        W()->fail("unlock", "a lock was released by a thread that does not hold it");
      }
      if (--l.depth > 0) {
        return 0;
      }
      l.owner = nullptr;
    } else if (l.readers > 0) {
      --l.readers;
    } else {
      W()->fail("unlock", "a lock was released that nobody holds");
    }
    wake_waiters(m);
  }
  preempt();
  return 0;
}
}  // namespace

void ThreadSim::reset()
{
  *this = ThreadSim();
  g_locks.clear();
  for (void * p : g_quarantine) {
    std::free(p);
  }
  g_quarantine.clear();
}

bool preemptible() {return simulated();}

void preempt()
{
  if (!simulated()) {
    return;
  }
  ++g_threads.preempts;
  W()->yield();
}

std::string deadlocked(World & w)
{
  std::string s;
  for (auto & f : w.fibers) {
    if (!f->done && !f->killed && f->waiting_mutex) {
      s += (s.empty() ? "" : ", ") + f->name;
    }
  }
  return s;
}

template<typename F>
static F real(const char * name)
{
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

void * sim_alloc(size_t n, bool nothrow)
{
  if (g_threads.alloc_points && simulated()) {
    preempt();
    if (g_threads.n_alloc++ == g_threads.fail_alloc) {
      ++g_threads.alloc_failed;
      if (nothrow) {
        return nullptr;
      }
      throw std::bad_alloc();
    }
  }
  void * p = std::malloc(n ? n : 1);
  if (!p && !nothrow) {
    throw std::bad_alloc();
  }
  return p;
}

void sim_free(void * p) noexcept
{
  if (!p) {
    return;
  }
  if (g_threads.alloc_points && simulated()) {
    preempt();
    Inside i;
    const size_t n = malloc_usable_size(p);
    memset(p, 0xDD, n);
    g_quarantine.push_back(p);
    return;
  }
  std::free(p);
}

}  // namespace sim

using namespace sim;

// In a process that has started threads, another may run at every operation on a lock.
static void switch_threads()
{
  World * w = W();
  if (w && w->current && w->current_process && w->current_process->threaded && !g_inside) {
    w->yield();
  }
}

static World * in_fiber()
{
  World * w = W();
  return w && w->current && !g_inside ? w : nullptr;
}

// Waits until woken for the given address; false when that time came first.
static bool wait_at(World * w, const void * at, i64 until)
{
  Fiber * f = w->current;
  f->waiting_mutex = at;
  auto timed_out = std::make_shared<bool>(false);
  if (until != INT64_MAX) {
    std::shared_ptr<Fiber> self;
    for (auto & g : w->fibers) {
      if (g.get() == f) {
        self = g;
      }
    }
    w->at(
      until, [w, self, at, timed_out] {
        if (!*timed_out && self->waiting_mutex == at) {
          *timed_out = true;
          self->waiting_mutex = nullptr;
          w->wake(self.get());
        }
      });
  }
  while (f->waiting_mutex == at) {
    w->block();
  }
  const bool r = !*timed_out;
  *timed_out = true;                 // a late event must not end a later wait
  return r;
}

static int wake_at(World * w, const void * at, int n)
{
  int woken = 0;
  while (woken < n) {
    std::vector<Fiber *> waiting;
    for (auto & f : w->fibers) {
      if (f->waiting_mutex == at && !f->done && !f->killed) {
        waiting.push_back(f.get());
      }
    }
    if (waiting.empty()) {
      break;
    }
    Fiber * f = waiting[w->choose(waiting.size())];
    f->waiting_mutex = nullptr;
    w->wake(f);
    ++woken;
  }
  return woken;
}

static i64 ns_of(const struct timespec * t)
{
  return static_cast<i64>(t->tv_sec) * 1000000000LL + t->tv_nsec;
}

static i64 deadline(World * w, clockid_t clock, const struct timespec * t)
{
  struct timespec n;
  clock_gettime(clock, &n);
  return w->now + std::max<i64>(0, ns_of(t) - ns_of(&n));
}

// Outside of preemptible sections locks are the real ones. All fibres share one
// thread, so one that finds a lock taken lets simulated time pass and tries again.
template<typename T>
static int retry(T attempt, T wait)
{
  World * w = W();
  if (!w || !w->current || g_inside) {
    return wait();
  }
  switch_threads();
  for (;; ) {
    const int r = attempt();
    if (r != EBUSY) {
      return r;
    }
    ++g_threads.contended;
    w->sleep_until(w->now + 10000);
  }
}

// Sleeping inside a fibre passes simulated time.
static bool simulated_sleep(clockid_t clock, int flags, const struct timespec * t)
{
  World * w = W();
  if (!w || !w->current || g_inside) {
    return false;
  }
  i64 ns = static_cast<i64>(t->tv_sec) * 1000000000LL + t->tv_nsec;
  if (flags == TIMER_ABSTIME) {
    struct timespec n;
    clock_gettime(clock, &n);
    ns -= static_cast<i64>(n.tv_sec) * 1000000000LL + n.tv_nsec;
  }
  w->sleep_until(w->now + (ns > 0 ? ns : 0));
  return true;
}

extern "C" {
int pthread_mutex_lock(pthread_mutex_t * m)
{
  if (simulated()) {
    return lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP, false, false);
  }
  static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
  static auto t = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
  return retry<std::function<int()>>([m] {return t(m);}, [m] {return f(m);});
}
int pthread_mutex_trylock(pthread_mutex_t * m)
{
  if (simulated()) {
    return lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP, false, true);
  }
  static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
  return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t * m)
{
  if (simulated()) {
    return unlock(m);
  }
  static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
  const int r = f(m);
  switch_threads();
  return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t * m)
{
  if (simulated()) {
    return lock(m, false, true, false);
  }
  static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock");
  static auto t = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_tryrdlock");
  return retry<std::function<int()>>([m] {return t(m);}, [m] {return f(m);});
}
int pthread_rwlock_wrlock(pthread_rwlock_t * m)
{
  if (simulated()) {
    return lock(m, false, false, false);
  }
  static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock");
  static auto t = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_trywrlock");
  return retry<std::function<int()>>([m] {return t(m);}, [m] {return f(m);});
}
int pthread_rwlock_unlock(pthread_rwlock_t * m)
{
  if (simulated()) {
    return unlock(m);
  }
  static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock");
  return f(m);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t * m)
{
  if (simulated()) {
    return lock(m, false, true, true);
  }
  static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_tryrdlock");
  return f(m);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t * m)
{
  if (simulated()) {
    return lock(m, false, false, true);
  }
  static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_trywrlock");
  return f(m);
}
int nanosleep(const struct timespec * t, struct timespec * rem)
{
  if (simulated_sleep(CLOCK_MONOTONIC, 0, t)) {
    return 0;
  }
  static auto f = real<int (*)(const struct timespec *, struct timespec *)>("nanosleep");
  return f(t, rem);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec * t, struct timespec * rem)
{
  if (simulated_sleep(c, flags, t)) {
    return 0;
  }
  static auto f = real<int (*)(clockid_t, int, const struct timespec *, struct timespec *)>(
    "clock_nanosleep");
  return f(c, flags, t, rem);
}
// Clocks read inside a fibre show simulated time.
int clock_gettime(clockid_t c, struct timespec * t)
{
  World * w = W();
  if (w && w->current && !g_inside &&
    (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC || c == CLOCK_REALTIME_COARSE ||
    c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME || c == CLOCK_MONOTONIC_RAW))
  {
    const bool wall = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE;
    const i64 n = wall && w->current_process ? w->current_process->clock_now() : w->now;
    t->tv_sec = n / 1000000000LL;
    t->tv_nsec = n % 1000000000LL;
    return 0;
  }
  static auto f = real<int (*)(clockid_t, struct timespec *)>("clock_gettime");
  return f(c, t);
}
int pthread_create(
  pthread_t * id, const pthread_attr_t * attr, void * (* start)(void *), void * arg)
{
  World * w = in_fiber();
  if (!w || !w->current_process) {
    static auto f = real<int (*)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *)>(
      "pthread_create");
    return f(id, attr, start, arg);
  }
  Process * p = w->current_process;
  Fiber * f = w->spawn_fiber(
    p, p->name + "-thread", [w, start, arg] {
      start(arg);
      w->current->done = true;
      wake_at(w, w->current, 1 << 30);
    });
  f->preemptible = w->current->preemptible;
  p->threads[f] = w->fibers.back();
  p->threaded = true;
  w->count("threads_started");
  *id = reinterpret_cast<pthread_t>(f);
  switch_threads();
  return 0;
}
int pthread_join(pthread_t id, void ** value)
{
  World * w = in_fiber();
  Process * p = w ? w->current_process : nullptr;
  Fiber * t = reinterpret_cast<Fiber *>(id);
  if (!p || !p->threads.count(t)) {
    static auto f = real<int (*)(pthread_t, void **)>("pthread_join");
    return f(id, value);
  }
  while (!t->done) {
    wait_at(w, t, INT64_MAX);
  }
  if (value) {
    *value = nullptr;
  }
  p->threads.erase(t);
  return 0;
}
int pthread_detach(pthread_t id)
{
  World * w = in_fiber();
  if (w && w->current_process && w->current_process->threads.count(reinterpret_cast<Fiber *>(id))) {
    return 0;
  }
  static auto f = real<int (*)(pthread_t)>("pthread_detach");
  return f(id);
}
pthread_t pthread_self() noexcept
{
  if (World * w = in_fiber()) {
    return reinterpret_cast<pthread_t>(w->current);
  }
  static auto f = real<pthread_t (*)()>("pthread_self");
  return f();
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
  if (World * w = in_fiber()) {
    pthread_mutex_unlock(m);
    wait_at(w, c, INT64_MAX);
    return pthread_mutex_lock(m);
  }
  static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait");
  return f(c, m);
}
int pthread_cond_clockwait(
  pthread_cond_t * c, pthread_mutex_t * m, clockid_t clock, const struct timespec * t)
{
  if (World * w = in_fiber()) {
    const i64 until = deadline(w, clock, t);
    pthread_mutex_unlock(m);
    const bool woken = wait_at(w, c, until);
    pthread_mutex_lock(m);
    return woken ? 0 : ETIMEDOUT;
  }
  static auto f = real<int (*)(
        pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)>(
    "pthread_cond_clockwait");
  return f(c, m, clock, t);
}
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t)
{
  if (in_fiber()) {
    return pthread_cond_clockwait(c, m, CLOCK_REALTIME, t);
  }
  static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *)>(
    "pthread_cond_timedwait");
  return f(c, m, t);
}
int pthread_cond_signal(pthread_cond_t * c)
{
  if (World * w = in_fiber()) {
    wake_at(w, c, 1);
    switch_threads();
    return 0;
  }
  static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_signal");
  return f(c);
}
int pthread_cond_broadcast(pthread_cond_t * c)
{
  if (World * w = in_fiber()) {
    wake_at(w, c, 1 << 30);
    switch_threads();
    return 0;
  }
  static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
  return f(c);
}
// Futures, atomic waiting and the guards of local statics wait on futexes.
long syscall(long number, ...)
{
  va_list ap;
  va_start(ap, number);
  long a[6];
  for (auto & x : a) {
    x = va_arg(ap, long);
  }
  va_end(ap);
  World * w = number == SYS_futex ? in_fiber() : nullptr;
  if (w) {
    int * at = reinterpret_cast<int *>(a[0]);
    const int op = static_cast<int>(a[1]) & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (*at != static_cast<int>(a[2])) {
        errno = EAGAIN;
        return -1;
      }
      const auto * t = reinterpret_cast<const struct timespec *>(a[3]);
      i64 until = INT64_MAX;
      if (t && op == FUTEX_WAIT) {
        until = w->now + ns_of(t);
      } else if (t) {
        until = deadline(
          w, a[1] & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, t);
      }
      if (!wait_at(w, at, until)) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      const int n = wake_at(w, at, static_cast<int>(a[2]));
      switch_threads();
      return n;
    }
  }
  static auto f = real<long (*)(long, ...)>("syscall");
  return f(number, a[0], a[1], a[2], a[3], a[4], a[5]);
}
time_t time(time_t * t)
{
  struct timespec n;
  clock_gettime(CLOCK_REALTIME, &n);
  if (t) {
    *t = n.tv_sec;
  }
  return n.tv_sec;
}
int gettimeofday(struct timeval * t, void *) noexcept
{
  struct timespec n;
  clock_gettime(CLOCK_REALTIME, &n);
  t->tv_sec = n.tv_sec;
  t->tv_usec = n.tv_nsec / 1000;
  return 0;
}
int sched_yield()
{
  switch_threads();
  if (simulated()) {
    preempt();
    return 0;
  }
  static auto f = real<int (*)()>("sched_yield");
  return f();
}
}  // extern "C"

// Entropy comes from the seed.
namespace std
{
random_device::result_type random_device::_M_getval()
{
  if (World * w = in_fiber()) {
    return static_cast<result_type>(w->rng.next());
  }
  return 1;
}
}  // namespace std
