#include "sim.hpp"
#include "statics.hpp"

#include <cxxabi.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <sstream>
#include <stdexcept>
#include <typeinfo>

namespace sim
{

// ---------------------------------------------------------------- randomness
u64 splitmix(u64 & s)
{
  u64 z = (s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

u64 hash_str(const std::string & s)
{
  u64 h = 1469598103934665603ULL;
  for (unsigned char c : s) {
    h = (h ^ c) * 1099511628211ULL;
  }
  return h;
}

u64 mix(u64 a, u64 b)
{
  u64 s = a ^ (b + 0x9E3779B97F4A7C15ULL + (a << 6) + (a >> 2));
  return splitmix(s);
}

Rng::Rng(u64 seed)
{
  for (auto & x : s_) {
    x = splitmix(seed);
  }
}

static u64 rotl(u64 x, int k) {return (x << k) | (x >> (64 - k));}

u64 Rng::next()
{
  const u64 r = rotl(s_[1] * 5, 7) * 9;
  const u64 t = s_[1] << 17;
  s_[2] ^= s_[0];
  s_[3] ^= s_[1];
  s_[1] ^= s_[2];
  s_[0] ^= s_[3];
  s_[2] ^= t;
  s_[3] = rotl(s_[3], 45);
  return r;
}

u64 Rng::below(u64 n) {return n <= 1 ? 0 : next() % n;}
i64 Rng::range(i64 lo, i64 hi) {return lo + static_cast<i64>(below(static_cast<u64>(hi - lo) + 1));}
double Rng::uniform() {return static_cast<double>(next() >> 11) * 0x1.0p-53;}
double Rng::uniform(double lo, double hi) {return lo + (hi - lo) * uniform();}
double Rng::normal()
{
  double u = 0;
  do {u = uniform();} while (u <= 0);
  return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * uniform());
}
bool Rng::chance(double p) {return uniform() < p;}

Rng keyed(u64 seed, u64 a, u64 b, u64 c) {return Rng(mix(mix(mix(seed, a), b), c));}

// ---------------------------------------------------------------- plans
std::string fmt(const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  va_list ap2;
  va_copy(ap2, ap);
  int n = vsnprintf(nullptr, 0, f, ap);
  va_end(ap);
  std::string s(n > 0 ? n : 0, '\0');
  if (n > 0) {
    vsnprintf(s.data(), n + 1, f, ap2);
  }
  va_end(ap2);
  return s;
}

static std::string esc(const std::string & s)
{
  std::string r;
  for (unsigned char c : s) {
    if (c <= ' ' || c >= 127 || c == '\\') {
      r += fmt("\\%02x", c);
    } else {
      r += static_cast<char>(c);
    }
  }
  return r;
}

static std::string unesc(const std::string & s)
{
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '\\' && i + 2 < s.size()) {
      r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16));
      i += 2;
    } else {
      r += s[i];
    }
  }
  return r;
}

std::string Plan::str() const
{
  std::string out = "check " + check + "\n" + fmt("seed %llu\n", (unsigned long long)seed);
  for (const auto & [k, v] : cfg) {
    out += fmt("cfg %s %a # %.17g\n", k.c_str(), v, v);
  }
  for (const auto & o : ops) {
    out += fmt("op %lld %s", (long long)o.t, o.kind.c_str());
    if (!o.s.empty()) {
      out += " s=" + esc(o.s);
    }
    for (double d : o.a) {
      // small integers stay readable; everything else is exact in hex
      if (d == std::floor(d) && std::abs(d) < 1e15 && !(d == 0 && std::signbit(d))) {
        out += fmt(" %.0f", d);
      } else {
        out += fmt(" %a", d);
      }
    }
    out += "\n";
  }
  return out;
}

Plan Plan::parse(const std::string & text)
{
  Plan p;
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) {
    const size_t h = line.find(" # ");
    if (h != std::string::npos) {
      line = line.substr(0, h);
    }
    std::istringstream ls(line);
    std::string w;
    if (!(ls >> w)) {
      continue;
    }
    if (w == "check") {
      ls >> p.check;
    } else if (w == "seed") {
      ls >> p.seed;
    } else if (w == "cfg") {
      std::string k, v;
      ls >> k >> v;
      p.cfg[k] = std::strtod(v.c_str(), nullptr);
    } else if (w == "op") {
      Op o;
      long long t;
      ls >> t >> o.kind;
      o.t = t;
      std::string tok;
      while (ls >> tok) {
        if (tok.rfind("s=", 0) == 0) {
          o.s = unesc(tok.substr(2));
        } else {
          o.a.push_back(std::strtod(tok.c_str(), nullptr));
        }
      }
      p.ops.push_back(o);
    }
  }
  return p;
}

// ---------------------------------------------------------------- fibres
static constexpr size_t STACK = 4u << 20;
static std::vector<void *> g_free_stacks;

// The part that is used most: no luck with what an earlier fibre left there
static void scrub(void * stack)
{
  constexpr size_t n = 32u << 10;
  memset(static_cast<char *>(stack) + STACK - n, 0x5a, n);
}

static void * stack_alloc()
{
  if (!g_free_stacks.empty()) {
    void * p = g_free_stacks.back();
    g_free_stacks.pop_back();
    scrub(p);
    return p;
  }
  void * p = mmap(
    nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap stack");
    _exit(3);
  }
  mprotect(p, 4096, PROT_NONE);
  scrub(p);
  return p;
}

struct FiberImpl
{
  ucontext_t ctx;
  void * stack = nullptr;
  std::function<void ()> body;
  unsigned char eh[16] = {0};       // this fibre's __cxa_eh_globals
};

Fiber::Fiber()
: impl(new FiberImpl()) {}
Fiber::~Fiber()
{
  if (impl->stack) {
    if (done) {
      g_free_stacks.push_back(impl->stack);
    } else {
      munmap(impl->stack, STACK);   // abandoned by a crash
    }
  }
}

static ucontext_t g_sched_ctx;
static unsigned char g_sched_eh[16];
static World * g_world = nullptr;
World * W() {return g_world;}
void set_world(World * w) {g_world = w;}

static void swap_eh(unsigned char * save, const unsigned char * load)
{
  auto * g = reinterpret_cast<unsigned char *>(abi::__cxa_get_globals());
  memcpy(save, g, 16);
  memcpy(g, load, 16);
}

i64 Process::clock_now() const
{
  const i64 t = W()->now;
  const double drift = (clock_rate - 1.0) * static_cast<double>(t - clock_rate_from);
  return t + clock_offset + static_cast<i64>(drift);
}

void Process::shutdown()
{
  if (!ok) {
    return;
  }
  ok = false;
  auto fs = on_shutdown;
  for (auto & f : fs) {
    f();
  }
  for (auto & f : fibers) {
    W()->wake(f.get());
  }
}

World::World(u64 s)
: seed(s), rng(mix(s, 0x5EED))
{
  if (g_world) {
    outer_statics_ = statics_save();
  } else {
    // the stacks of earlier runs, as if they were new
    for (void * p : g_free_stacks) {
      madvise(static_cast<char *>(p) + 4096, STACK - 4096, MADV_DONTNEED);
    }
  }
  statics_reset();
  srand(1);
  set_world(this);
}

World::~World()
{
  if (ros_cleanup) {
    ros_cleanup();
  }
  if (!outer_statics_.empty()) {
    statics_restore(outer_statics_);
  }
  if (g_world == this) {
    set_world(nullptr);
  }
}

void World::at(i64 t, std::function<void ()> f)
{
  events_.push(
    Ev{t < now ? now : t, seq_++, std::make_shared<std::function<void ()>>(std::move(f))});
}

static void trampoline()
{
  Fiber * f = W()->current;
  std::string err;
  bool threw = false;
  try {
    f->impl->body();
  } catch (const KillFiber &) {
  } catch (const std::exception & e) {
    threw = true;
    int st = 0;
    char * n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    err = std::string(n ? n : typeid(e).name()) + ": " + e.what();
    free(n);
  } catch (...) {
    threw = true;
    err = "unknown exception";
  }
  World * w = W();
  f->done = true;
  f->runnable = false;
  if (threw && f->proc) {
    // an exception that escapes main() or a thread ends the whole process
    f->proc->exit_error = err;
    w->note("proc %s terminated: %s", f->proc->name.c_str(), err.c_str());
    w->kill(f->proc);
  }
  f->impl->body = nullptr;
  swap_eh(f->impl->eh, g_sched_eh);
  setcontext(&g_sched_ctx);
  abort();
}

Fiber * World::spawn_fiber(Process * p, const std::string & name, std::function<void ()> body)
{
  auto f = std::make_shared<Fiber>();
  f->name = name;
  f->proc = p;
  f->id = fiber_seq_++;
  f->impl->body = std::move(body);
  f->impl->stack = stack_alloc();
  getcontext(&f->impl->ctx);
  f->impl->ctx.uc_stack.ss_sp = f->impl->stack;
  f->impl->ctx.uc_stack.ss_size = STACK;
  f->impl->ctx.uc_link = nullptr;
  makecontext(&f->impl->ctx, trampoline, 0);
  fibers.push_back(f);
  if (p) {
    p->fibers.push_back(f);
  }
  return f.get();
}

Process * World::spawn(
  const std::string & name, std::function<int ()> main,
  std::function<void (Process &)> configure)
{
  // A process that is the only one starts with its static variables as they were linked.
  bool alone = true;
  for (const auto & q : processes) {
    alone = alone && (q->dead || q->exited);
  }
  if (alone) {
    statics_reset();
  }
  processes.push_back(std::make_unique<Process>());
  Process * p = processes.back().get();
  p->name = name;
  p->incarnation = processes.size();
  if (configure) {
    configure(*p);
  }
  spawn_fiber(
    p, name, [this, p, main] {
      const int rc = main();
      p->exit_code = rc;
      p->exited = true;
      note("proc %s exit %d", p->name.c_str(), rc);
      p->ok = false;
      for (auto & [f, t] : p->threads) {      // threads end with main
        f->runnable = false;
        f->killed = true;
      }
      if (on_process_gone) {
        on_process_gone(p);
      }
    });
  return p;
}

void World::kill(Process * p)
{
  if (p->dead) {
    return;
  }
  p->dead = true;
  p->ok = false;
  for (auto & f : p->fibers) {
    f->runnable = false;
    f->killed = true;
  }
  note("proc %s dead", p->name.c_str());
  if (on_process_gone) {
    on_process_gone(p);
  }
}

void World::resume(Fiber * f)
{
  Fiber * prev = current;
  Process * prevp = current_process;
  current = f;
  current_process = f->proc;
  swap_eh(g_sched_eh, f->impl->eh);
  if (swapcontext(&g_sched_ctx, &f->impl->ctx) != 0) {
    abort();
  }
  current = prev;
  current_process = prevp;
}

void World::switch_to_scheduler()
{
  Fiber * f = current;
  swap_eh(f->impl->eh, g_sched_eh);
  swapcontext(&f->impl->ctx, &g_sched_ctx);
}

void World::yield()
{
  if (current) {
    current->runnable = true;
    switch_to_scheduler();
  }
}

void World::block()
{
  if (current) {
    current->runnable = false;
    switch_to_scheduler();
  }
}

void World::sleep_until(i64 t)
{
  if (!current) {
    return;
  }
  // keep the fibre alive for as long as its wake-up event exists
  std::shared_ptr<Fiber> self;
  for (auto & f : fibers) {
    if (f.get() == current) {
      self = f;
    }
  }
  auto fired = std::make_shared<bool>(false);
  at(
    t, [this, self, fired] {
      *fired = true;
      wake(self.get());
    });
  Process * p = self->proc;
  while (!*fired && !(p && !p->ok)) {
    block();
  }
}

void World::wake(Fiber * f)
{
  if (!f->done && !f->killed) {
    f->runnable = true;
  }
}

size_t World::choose(size_t n)
{
  if (n <= 1) {
    return 0;
  }
  const size_t r = fifo ? 0 : rng.below(n);
  sched_hash = (sched_hash ^ (n * 131 + r)) * 1099511628211ULL;
  return r;
}

bool World::any_ready() const
{
  for (const auto & f : fibers) {
    if (!f->done && !f->killed && f->runnable && !(f->proc && f->proc->dead)) {
      return true;
    }
  }
  return false;
}

bool World::run_one_fiber()
{
  std::vector<Fiber *> ready;
  bool cleanup = false;
  for (auto & f : fibers) {
    if (f->done || f->killed) {
      cleanup = true;
    } else if (f->runnable && !(f->proc && f->proc->dead)) {
      ready.push_back(f.get());
    }
  }
  if (cleanup && fibers.size() > 32) {
    std::vector<std::shared_ptr<Fiber>> keep;
    for (auto & f : fibers) {
      if (!f->done) {
        keep.push_back(f);
      }
    }
    fibers.swap(keep);
  }
  if (ready.empty()) {
    return false;
  }
  Fiber * f = ready[choose(ready.size())];
  if (ready.size() > 1) {
    sched_hash = (sched_hash ^ (f->id + 7)) * 1099511628211ULL;
  }
  resume(f);
  return true;
}

void World::run_until(i64 t)
{
  while (!stop) {
    if (++steps > max_steps) {
      fail("livelock", fmt("no end after %llu steps", (unsigned long long)max_steps));
      break;
    }
    // events due at this very instant may happen before the ready tasks run
    const bool due = !events_.empty() && events_.top().t <= now && events_.top().t <= t;
    if (!(due && any_ready() && choose(2) == 1) && run_one_fiber()) {
      if (invariant) {
        invariant();
      }
      continue;
    }
    if (events_.empty() || events_.top().t > t) {
      if (t != INT64_MAX && t > now) {
        now = t;
      }
      break;
    }
    Ev e = events_.top();
    events_.pop();
    now = e.t > now ? e.t : now;
    (*e.f)();
    if (invariant) {
      invariant();
    }
  }
}

void World::finish()
{
  if (stop) {
    return;
  }
  for (auto & p : processes) {
    if (!p->dead) {
      p->shutdown();
    }
  }
  // let the mains run to their end; pending events no longer matter, except
  // those which fibres wait for (shutdown ends every simulated sleep)
  u64 budget = 200000;
  while (!stop && budget-- > 0 && run_one_fiber()) {
  }
}

void World::hash_bytes(const void * p, size_t n)
{
  const auto * c = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; ++i) {
    hash = (hash ^ c[i]) * 1099511628211ULL;
  }
}

void World::hash_double(double d)
{
  if (d != d) {
    d = NAN;
    u64 q = 0x7ff8000000000000ULL;
    hash_bytes(&q, 8);
    return;
  }
  if (d == 0) {
    d = 0;
  }
  hash_bytes(&d, 8);
}

void World::note(const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  char buf[2048];
  int n = vsnprintf(buf, sizeof(buf), f, ap);
  va_end(ap);
  if (n > static_cast<int>(sizeof(buf)) - 1) {
    n = sizeof(buf) - 1;
  }
  hash_bytes(&now, sizeof(now));
  hash_bytes(buf, n);
  if (tracing) {
    trace.push_back(fmt("%14.6f  %s", now / 1e9, buf));
  }
}

void World::fail(const std::string & cls, const std::string & detail)
{
  violations.push_back({cls, detail});
  note("VIOLATED %s %s", cls.c_str(), detail.c_str());
  stop = true;
}

void World::log(int level, const std::string & logger, const std::string & text)
{
  ++log_count[level];
  if (level >= 2 || tracing) {
    logs.push_back({level, logger, text, now});
  }
  if (tracing) {
    static const char * names[] = {"DEBUG", "INFO", "WARN", "ERROR", "FATAL"};
    trace.push_back(fmt("%14.6f    [%s] %s: %s", now / 1e9, names[level], logger.c_str(),
      text.c_str()));
  }
}

void collect(World & w, Outcome & o)
{
  o.violations = w.violations;
  o.hash = w.hash;
  o.sched_hash = w.sched_hash;
  o.sim_seconds += w.now / 1e9;
  o.events += w.steps;
  for (const auto & [k, v] : w.stats) {
    o.stats[k] += v;
  }
  o.trace = w.trace;
}

}  // namespace sim

// A failed assertion in the code under test is a violation of whatever the run
// was checking, and it ends the run, not the simulator.
extern "C" void __assert_fail(
  const char * expr, const char * file, unsigned int line, const char * func)
{
  sim::World * w = sim::W();
  const char * base = strrchr(file, '/');
  if (w && w->current) {
    w->fail(
      "assert", sim::fmt("%s:%u %s: assertion `%s' failed", base ? base + 1 : file, line,
      func ? func : "?", expr));
    if (w->current->proc) {
      w->kill(w->current->proc);
    }
    w->current->runnable = false;
    w->current->killed = true;
    w->block();
  }
  fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", file, line, func, expr);
  abort();
}

namespace std
{
// libstdc++'s own hardening assertions (-D_GLIBCXX_ASSERTIONS)
[[noreturn]] void __glibcxx_assert_fail(
  const char * file, int line, const char * func, const char * cond) noexcept
{
  __assert_fail(cond ? cond : "hardening", file ? file : "?", line, func);
  abort();
}
}  // namespace std
