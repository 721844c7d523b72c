// Deterministic discrete-event simulator core.
//
// Everything that could be nondeterministic for the code under test -- which
// task runs next, what time it is, when (and whether) a message arrives, what
// the disk answers -- is decided here, from one seed plus an explicit plan.
#ifndef SIM_CORE_SIM_HPP_
#define SIM_CORE_SIM_HPP_

#include <cstdarg>
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <string>
#include <tuple>
#include <vector>

namespace sim
{

using i64 = std::int64_t;
using u64 = std::uint64_t;

// ---------------------------------------------------------------- randomness
u64 splitmix(u64 & s);
u64 hash_str(const std::string & s);
u64 mix(u64 a, u64 b);

class Rng
{
public:
  explicit Rng(u64 seed = 1);
  u64 next();
  u64 below(u64 n);                       // uniform in [0, n)
  i64 range(i64 lo, i64 hi);              // uniform in [lo, hi]
  double uniform();                       // [0, 1)
  double uniform(double lo, double hi);
  double normal();
  bool chance(double p);
  template<typename T>
  const T & pick(const std::vector<T> & v) {return v[below(v.size())];}

private:
  u64 s_[4];
};

// A keyed decision: independent of how many decisions were taken before it, so
// removing an operation from a plan leaves all the other decisions alone.
Rng keyed(u64 seed, u64 a, u64 b = 0, u64 c = 0);

// ---------------------------------------------------------------- plans
struct Op
{
  i64 t = 0;                 // simulated time in ns
  std::string kind;
  std::vector<double> a;     // arguments
  std::string s;             // one optional string argument
};

struct Plan
{
  std::string check;
  u64 seed = 0;
  std::map<std::string, double> cfg;
  std::vector<Op> ops;
  double get(const std::string & k, double dflt = 0.0) const
  {
    auto it = cfg.find(k);
    return it == cfg.end() ? dflt : it->second;
  }
  std::string str() const;
  static Plan parse(const std::string & text);
};

// ---------------------------------------------------------------- violations
struct Violation
{
  std::string cls;      // class: what stays the same while minimising
  std::string detail;
};

struct AbortRun {};       // thrown on the scheduler side to end the run
struct KillFiber {};      // thrown inside a fibre to unwind it

// ---------------------------------------------------------------- fibres
struct FiberImpl;
class Process;

class Fiber
{
public:
  std::string name;
  Process * proc = nullptr;
  bool done = false;
  bool runnable = true;
  bool killed = false;
  u64 id = 0;
  std::unique_ptr<FiberImpl> impl;
  const void * waiting_mutex = nullptr;   // or condition variable, or futex
  int preemptible = 0;       // >0: running code whose locks and allocations are switch points
  Fiber();
  ~Fiber();
};

class Process
{
public:
  std::string name;
  bool ok = true;              // rclcpp::ok()
  bool dead = false;           // crashed or killed
  bool exited = false;
  int exit_code = 0;
  std::string exit_error;      // what() of an exception that escaped main
  i64 clock_offset = 0;        // simulated wall clock = world time + offset
  double clock_rate = 1.0;     // drift
  i64 clock_rate_from = 0;
  std::map<std::string, std::string> remaps;
  std::map<std::string, std::string> params;   // textual parameter overrides
  std::string ns;
  std::vector<std::shared_ptr<Fiber>> fibers;
  std::vector<std::function<void ()>> on_shutdown;
  i64 clock_now() const;
  void shutdown();
  void * user = nullptr;
  u64 incarnation = 0;
  std::map<Fiber *, std::shared_ptr<Fiber>> threads;   // started by the code under test
  bool threaded = false;
};

// ---------------------------------------------------------------- world
struct LogRecord
{
  int level;               // 0 debug 1 info 2 warn 3 error 4 fatal
  std::string proc;
  std::string text;
  i64 t;
};

class World
{
public:
  explicit World(u64 seed);
  ~World();
  World(const World &) = delete;

  u64 seed;
  Rng rng;                       // scheduling choices
  i64 now = 0;
  u64 steps = 0;
  u64 max_steps = 3000000;
  bool tracing = false;
  bool fifo = false;             // simplest schedule: always the first candidate
  int switch_bias = 0;           // >0: prefer to keep running the same task

  u64 hash = 1469598103934665603ULL;
  u64 sched_hash = 1469598103934665603ULL;   // interleaving measure
  std::vector<std::string> trace;
  std::vector<LogRecord> logs;
  u64 log_count[5] = {0, 0, 0, 0, 0};
  std::map<std::string, u64> stats;           // fault kinds fired, probes
  std::vector<Violation> violations;
  bool stop = false;

  // events
  void at(i64 t, std::function<void ()> f);
  void after(i64 dt, std::function<void ()> f) {at(now + dt, std::move(f));}

  // processes and fibres
  Process * spawn(const std::string & name, std::function<int ()> main,
    std::function<void (Process &)> configure = nullptr);
  Fiber * spawn_fiber(Process * p, const std::string & name, std::function<void ()> body);
  void kill(Process * p);            // crash: nothing in it runs any more

  // called from inside a fibre
  void yield();                      // let others run; stays runnable
  void block();                      // until wake()
  void sleep_until(i64 t);           // world time
  void wake(Fiber * f);
  Fiber * current = nullptr;
  Process * current_process = nullptr;

  // run until the given time, or until nothing is left to do
  void run_until(i64 t);
  void run_idle() {run_until(INT64_MAX);}
  void finish();                     // shut everything down, run mains to the end

  void note(const char * fmt, ...) __attribute__((format(printf, 2, 3)));   // hashed event
  void hash_bytes(const void * p, size_t n);
  void hash_double(double d);
  void fail(const std::string & cls, const std::string & detail);
  void count(const std::string & key, u64 n = 1) {stats[key] += n;}
  void log(int level, const std::string & logger, const std::string & text);

  std::vector<std::unique_ptr<Process>> processes;
  std::vector<std::shared_ptr<Fiber>> fibers;
  size_t choose(size_t n);           // a scheduling decision
  std::function<void ()> invariant;  // after each step
  std::function<void (Process *)> on_process_gone;
  void * ros = nullptr;              // owned by the ROS layer
  std::function<void ()> ros_cleanup;

private:
  struct Ev
  {
    i64 t;
    u64 seq;
    std::shared_ptr<std::function<void ()>> f;
    bool operator>(const Ev & o) const {return t != o.t ? t > o.t : seq > o.seq;}
  };
  std::priority_queue<Ev, std::vector<Ev>, std::greater<Ev>> events_;
  std::vector<unsigned char> outer_statics_;   // of the world this one is nested in
  u64 seq_ = 0;
  u64 fiber_seq_ = 0;
  void resume(Fiber * f);
  void switch_to_scheduler();
  bool run_one_fiber();
  bool any_ready() const;
};

World * W();                 // the current world (never null inside a run)
void set_world(World * w);

// ---------------------------------------------------------------- harness
struct Outcome
{
  std::vector<Violation> violations;
  u64 hash = 0;
  u64 sched_hash = 0;
  u64 state_hash = 0;          // coverage measure of the check
  bool nontrivial = true;
  double sim_seconds = 0;
  u64 events = 0;
  std::map<std::string, u64> stats;
  std::vector<std::string> trace;
};

class Check
{
public:
  virtual ~Check() {}
  virtual std::string id() const = 0;
  virtual Plan generate(u64 seed, bool thorough) = 0;
  virtual Outcome run(const Plan & plan, bool trace) = 0;
  virtual std::string rule() const = 0;             // what counts as non-trivial
  virtual std::string real_components() const = 0;
  virtual std::string stub_components() const = 0;
  virtual std::vector<std::string> assumptions() const {return {};}
  virtual std::vector<std::string> required_probes() const {return {};}   // must be > 0
  virtual u64 quick_runs() const {return 400;}
  virtual u64 thorough_runs() const {return 40000;}
  virtual std::string diversity_measure() const
  {
    return "distinct hashes of the sequence of scheduling decisions and deliveries";
  }
  virtual double run_timeout_s() const {return 60;}
  // configuration entries that minimisation may set to zero
  virtual std::vector<std::string> shrinkable() const {return {};}
  virtual void simplify(Op &) const {}
};

void collect(World & w, Outcome & o);
int harness_main(int argc, char ** argv, Check & check);
std::string fmt(const char * f, ...) __attribute__((format(printf, 1, 2)));
std::string make_scratch_dir(const std::string & tag);
void remove_scratch_dir(const std::string & dir);

}  // namespace sim

#endif  // SIM_CORE_SIM_HPP_
