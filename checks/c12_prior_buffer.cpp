// C12: threads on the stamp ordered prior buffer, preempted at every lock
// operation, allocation and copy of an element; the recorded history has to be
// explainable by a sequential buffer (linearizability).
#include <cmath>
#include <limits>
#include <map>
#include <set>

#include "lib/threads.hpp"

#include "lidar_feature_localization/stamp_sorted_objects.hpp"

using namespace sim;

namespace sim
{
void * sim_alloc(size_t n, bool nothrow);
void sim_free(void * p) noexcept;
}
void * operator new(size_t n) {return sim::sim_alloc(n, false);}
void * operator new[](size_t n) {return sim::sim_alloc(n, false);}
void * operator new(size_t n, const std::nothrow_t &) noexcept {return sim::sim_alloc(n, true);}
void operator delete(void * p) noexcept {sim::sim_free(p);}
void operator delete[](void * p) noexcept {sim::sim_free(p);}
void operator delete(void * p, size_t) noexcept {sim::sim_free(p);}
void operator delete[](void * p, size_t) noexcept {sim::sim_free(p);}

namespace
{

constexpr i64 ALIVE = 0x600DF00D;

void dead_object(const char * what)
{
  W()->fail("use-after-free", what);
  if (W()->current) {
    W()->current->runnable = false;
    W()->current->killed = true;
    W()->block();
  }
}

// An element whose copies are not atomic.
struct Obj
{
  i64 magic = ALIVE, a = -1, b = -1;
  Obj() {}
  explicit Obj(i64 id)
  : a(id), b(id) {}
  Obj(const Obj & o)
  {
    o.check();
    a = o.a;
    preempt();
    o.check();
    b = o.b;
  }
  Obj & operator=(const Obj & o)
  {
    o.check();
    check();
    a = o.a;
    preempt();
    o.check();
    check();
    b = o.b;
    return *this;
  }
  ~Obj() {*const_cast<volatile i64 *>(&magic) = 0;}
  void check() const
  {
    if (magic != ALIVE) {
      dead_object("an element was copied that no longer exists");
    }
  }
};

using Buffer = StampSortedObjects<Obj>;

template<typename B>
auto forget(B & b, double t, int)->decltype(b.ForgetBefore(t), bool())
{
  b.ForgetBefore(t);
  return true;
}
template<typename B>
bool forget(B &, double, long) {return false;}
template<typename B>
auto can_forget(B * b, int)->decltype(b->ForgetBefore(0.0), bool()) {return true;}
template<typename B>
bool can_forget(B *, long) {return false;}

enum Kind {INSERT, CLOSEST, SIZE, DISCARD, FORGET};
const char * NAMES[] = {"insert", "closest", "size", "discard", "forget"};

struct Event
{
  Kind kind;
  double t = 0;
  i64 id = -1;
  bool done = false, failed = false;
  u64 inv = 0, res = std::numeric_limits<u64>::max();
  double rt = 0;
  i64 rid = -1;
  size_t rsize = 0;
  int thread = 0;
  std::string str() const
  {
    std::string s = fmt("[%llu-%llu] thread %d %s", (unsigned long long)inv,
        (unsigned long long)(done ? res : 0), thread, NAMES[kind]);
    if (kind != SIZE) {
      s += fmt("(%.17g)", t);
    }
    if (kind == INSERT) {
      s += fmt(" #%lld", (long long)id);
    }
    if (failed) {
      return s + " -> out of memory";
    }
    if (kind == CLOSEST) {
      s += fmt(" -> %.17g #%lld", rt, (long long)rid);
    }
    if (kind == SIZE) {
      s += fmt(" -> %zu", rsize);
    }
    return s;
  }
};

using State = std::map<double, i64>;

// the sequential buffer; false: the recorded answer is not possible here
bool possible(State & s, const Event & e)
{
  if (e.failed) {
    return true;                     // no memory: nothing happened
  }
  switch (e.kind) {
    case INSERT:
      s[e.t] = e.id;
      return true;
    case CLOSEST:
      {
        auto it = s.find(e.rt);
        if (it == s.end() || it->second != e.rid) {
          return false;
        }
        const double d = std::abs(e.rt - e.t);
        for (const auto & [t, id] : s) {
          if (std::abs(t - e.t) < d) {
            return false;
          }
        }
        return true;
      }
    case SIZE:
      return e.rsize == s.size();
    case DISCARD:
      s.erase(s.upper_bound(e.t), s.end());
      return true;
    case FORGET:
      {
        auto g = s.upper_bound(e.t);
        if (g != s.begin()) {
          s.erase(s.begin(), std::prev(g));
        }
        return true;
      }
  }
  return false;
}

struct Search
{
  const std::vector<Event> & h;
  std::set<std::pair<std::string, std::string>> seen;
  u64 nodes = 0;
  bool run(std::string & done, size_t left, const State & s)
  {
    if (left == 0) {
      return true;
    }
    ++nodes;
    std::string key;
    for (const auto & [t, id] : s) {
      key.append(reinterpret_cast<const char *>(&t), 8);
      key.append(reinterpret_cast<const char *>(&id), 8);
    }
    if (!seen.insert({done, key}).second) {
      return false;
    }
    u64 first_res = std::numeric_limits<u64>::max();
    for (size_t i = 0; i < h.size(); ++i) {
      if (!done[i]) {
        first_res = std::min(first_res, h[i].res);
      }
    }
    for (size_t i = 0; i < h.size(); ++i) {
      if (done[i] || h[i].inv > first_res) {
        continue;
      }
      State n = s;
      if (!possible(n, h[i])) {
        continue;
      }
      done[i] = 1;
      if (run(done, left - 1, n)) {
        return true;
      }
      done[i] = 0;
    }
    return false;
  }
};

class C12 : public Check
{
public:
  std::string id() const override {return "C12";}
  std::string rule() const override
  {
    return "one run = one program of buffer operations on 1 to 4 threads and one schedule; "
           "non-trivial: two operations overlapped, or the program was a sequential one of at "
           "least 10 operations";
  }
  std::string real_components() const override
  {
    return "StampSortedObjects (localization), std::map and std::mutex of libstdc++";
  }
  std::string stub_components() const override
  {
    return "threads (fibres under the seeded scheduler), pthread lock functions, operator new and "
           "delete (switch points, poisoned and quarantined freed memory), element type (its "
           "copies are switch points)";
  }
  std::vector<std::string> assumptions() const override
  {
    return {"sequentially consistent memory: weak memory effects are not simulated",
      "nobody asks an empty buffer for its nearest entry (as in the node)",
      "of two equally near entries either may be returned",
      "no switch inside a statement other than at locks, allocations and element copies"};
  }
  std::vector<std::string> required_probes() const override
  {
    return {"op_insert", "op_closest", "op_size", "op_discard", "lock_contended", "overlap",
      "fault_alloc_failed", "discarded_all", "discarded_none", "replaced", "equally_near"};
  }
  u64 quick_runs() const override {return 150000;}
  u64 thorough_runs() const override {return 4000000;}
  std::vector<std::string> shrinkable() const override {return {"fail_alloc1"};}

  Plan generate(u64 seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.check = id();
    p.seed = seed;
    const int threads = r.chance(0.25) ? 1 : static_cast<int>(r.range(2, 4));
    p.cfg["threads"] = threads;
    // 0: never empty (either discard or forget); 1: may be emptied, no lookups while threads run
    const int mode = threads == 1 ? 1 : static_cast<int>(r.below(3) == 0);
    p.cfg["mode"] = mode;
    p.cfg["fail_alloc1"] = r.chance(0.3) ? r.below(12) + 1 : 0;
    const double scale = r.pick(std::vector<double>{1, 1, 1e9, 0.1});
    const double base = r.pick(std::vector<double>{0, 0, -3, 1.6e9}) * scale;
    p.cfg["base"] = base;
    p.cfg["scale"] = scale;
    const bool large = threads == 1 && r.chance(0.05);
    const int range = static_cast<int>(large ? r.range(20, 300) : r.range(1, 8));
    p.cfg["range"] = range;
    auto stamp = [&](bool halves) {
        return base + scale * (static_cast<double>(r.range(0, 2 * range)) / 2 -
               (halves && r.chance(0.2) ? 0.25 : 0));
      };
    i64 idc = 1;
    const int initial = static_cast<int>(r.below(5));
    auto add = [&](int thread, Kind k) {
        Op o;
        o.t = 0;
        o.kind = NAMES[k];
        double t = stamp(k != INSERT);
        if (r.chance(0.08) && k != INSERT) {
          t = base + scale * (r.chance(0.5) ? -1e3 : 1e3);
        }
        if (k == INSERT && threads == 1 && r.chance(0.02)) {
          t = base - scale * 5;
        }
        o.a = {static_cast<double>(thread), t, static_cast<double>(k == INSERT ? idc++ : 0)};
        if (mode == 0 && (k == DISCARD || k == FORGET) && o.a[1] < base - scale) {
          o.a[1] = base;                // never empties: the oldest entry lies below
        }
        p.ops.push_back(o);
      };
    for (int i = 0; i < initial; ++i) {
      add(-1, INSERT);
    }
    const int n = large ? static_cast<int>(r.range(60, 500)) :
      threads == 1 ? static_cast<int>(r.range(10, thorough ? 80 : 50)) :
      static_cast<int>(r.range(3, thorough ? 16 : 12));
    const int wi = 2 + r.below(4), wc = mode == 1 && threads > 1 ? 0 : 1 + r.below(4),
      ws = r.below(3);
    int wd = large ? 0 : r.below(3), wf = large && r.chance(0.7) ? 0 : r.below(3);
    if (mode == 0) {
      (r.chance(0.4) ? wd : wf) = 0;    // together they could empty it
    }
    for (int i = 0; i < n; ++i) {
      int x = static_cast<int>(r.below(wi + wc + ws + wd + wf));
      Kind k = FORGET;
      if ((x -= wi) < 0) {
        k = INSERT;
      } else if ((x -= wc) < 0) {
        k = CLOSEST;
      } else if ((x -= ws) < 0) {
        k = SIZE;
      } else if ((x -= wd) < 0) {
        k = DISCARD;
      }
      add(static_cast<int>(r.below(threads)), k);
    }
    // what is left, asked for one by one
    add(-2, SIZE);
    for (int i = 0; i < 4; ++i) {
      add(-2, CLOSEST);
    }
    return p;
  }

  Outcome run(const Plan & plan, bool trace) override
  {
    Outcome o;
    World w(plan.seed);
    w.tracing = trace;
    w.fifo = plan.get("fifo") != 0;
    auto & T = threads();
    T.reset();
    T.on = true;
    T.alloc_points = true;
    T.fail_alloc = static_cast<i64>(plan.get("fail_alloc1")) - 1;
    Buffer * buf = new Buffer();
    const int n = static_cast<int>(plan.get("threads"));
    const int mode = static_cast<int>(plan.get("mode"));
    std::vector<Event> h;
    h.reserve(plan.ops.size() + 8);
    u64 seq = 0;
    int running = 0;
    State model;                       // of sequential programs
    bool overlap = false;

    auto perform = [&](const Op & op, int thread) {
        Event e;
        e.thread = thread;
        for (int k = 0; k < 5; ++k) {
          if (op.kind == NAMES[k]) {
            e.kind = static_cast<Kind>(k);
          }
        }
        e.t = op.a[1];
        e.id = static_cast<i64>(op.a[2]);
        if (e.kind == FORGET && !can_forget(buf, 0)) {
          return;
        }
        if (e.kind == CLOSEST && (thread < 0 || n == 1) && model.empty()) {
          return;
        }
        if (e.kind == CLOSEST && thread >= 0 && n > 1 && mode == 1) {
          return;
        }
        w.count(std::string("op_") + NAMES[e.kind]);
        e.inv = ++seq;
        const size_t at = h.size();
        h.push_back(e);
        if (running++ > 0) {
          overlap = true;
        }
        Event r = e;
        try {
          Preemptible in;
          switch (e.kind) {
            case INSERT:
              {
                const Obj x(e.id);
                buf->Insert(e.t, x);
              }
              break;
            case CLOSEST:
              {
                const auto [t, x] = buf->GetClosest(e.t);
                r.rt = t;
                r.rid = x.a;
                if (x.a != x.b) {
                  w.fail("torn", fmt("a lookup returned a mixture of elements %lld and %lld",
                    (long long)x.a, (long long)x.b));
                }
              }
              break;
            case SIZE:
              r.rsize = buf->Size();
              break;
            case DISCARD:
              buf->RemoveOlderThan(e.t);
              break;
            case FORGET:
              forget(*buf, e.t, 0);
              break;
          }
        } catch (const std::bad_alloc &) {
          r.failed = true;
          w.count("fault_alloc_failed");
        }
        --running;
        r.done = true;
        r.res = ++seq;
        h[at] = r;
        w.note("%s", r.str().c_str());
        if (thread < 0 || n == 1) {
          const State before = model;
          if (r.kind == CLOSEST) {
            const double d = std::abs(r.rt - r.t);
            int near = 0;
            for (const auto & [t, id] : before) {
              near += std::abs(t - r.t) == d;
            }
            if (near > 1) {
              w.count("equally_near");
            }
          }
          possible(model, r);
          if (r.kind == DISCARD && !before.empty()) {
            w.count(model.empty() ? "discarded_all" :
              (model.size() == before.size() ? "discarded_none" : "discarded_some"));
          }
          if (r.kind == INSERT && before.count(r.t)) {
            w.count("replaced");
          }
        }
      };
    auto phase = [&](int thread) {
        for (const auto & op : plan.ops) {
          if (static_cast<int>(op.a[0]) == thread && !w.stop) {
            perform(op, thread);
          }
        }
      };

    w.spawn(
      "before", [&] {
        if (mode == 0) {
          Op s;
          s.kind = "insert";
          s.a = {-1, plan.get("base") - 2 * plan.get("scale"), 1000000};
          const i64 keep = T.fail_alloc;
          T.fail_alloc = -1;
          perform(s, -1);
          T.fail_alloc = keep;
        }
        phase(-1);
        return 0;
      });
    w.run_idle();
    for (int i = 0; i < n && !w.stop; ++i) {
      w.spawn(fmt("thread%d", i), [&, i] {phase(i); return 0;});
    }
    w.run_idle();
    const std::string stuck = deadlocked(w);
    if (!stuck.empty() && !w.stop) {
      w.fail("deadlock", "waits for ever: " + stuck);
    }
    Search search{h, {}, 0};
    auto explain = [&] {
        std::string done(h.size(), 0);
        search.seen.clear();
        if (!search.run(done, h.size(), State())) {
          std::string s = "no order of these operations explains the answers:";
          for (const auto & e : h) {
            s += " " + e.str() + ";";
          }
          w.fail("not-linearizable", s);
        }
      };
    if (!w.stop) {
      explain();
    }
    if (!w.stop) {
      // after the threads: what the history leaves, any explanation will do for
      // deciding whether a lookup may be made at all
      if (n > 1) {
        model.clear();
        model[0] = 0;
        if (mode == 1) {
          w.spawn(
            "probe", [&] {
              Preemptible in;
              if (buf->Size() == 0) {
                model.clear();
              }
              return 0;
            });
          w.run_idle();
        }
      }
      w.spawn("after", [&] {phase(-2); return 0;});
      w.run_idle();
      if (!deadlocked(w).empty() && !w.stop) {
        w.fail("deadlock", "waits for ever: " + deadlocked(w));
      }
      if (!w.stop) {
        explain();
      }
    }
    for (auto & p : w.processes) {
      if (!p->exit_error.empty() && !w.stop) {
        w.fail("terminated", p->exit_error);
      }
    }
    if (overlap) {
      w.count("overlap");
    }
    w.count("lock_contended", T.contended);
    w.count("lock_operations", T.locks);
    w.count("preemption_points", T.preempts);
    w.count("search_nodes", search.nodes);
    o.nontrivial = overlap || (n == 1 && h.size() >= 10);
    o.state_hash = w.hash;
    if (w.violations.empty()) {
      delete buf;                      // otherwise its structure may be damaged
    }
    T.on = false;
    collect(w, o);
    T.reset();
    return o;
  }
};

}  // namespace

int main(int argc, char ** argv)
{
  C12 c;
  return harness_main(argc, argv, c);
}
