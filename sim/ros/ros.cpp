#include <rclcpp/rclcpp.hpp>

#include <algorithm>

namespace rclcpp
{

using sim::W;

Middleware & mw()
{
  sim::World * w = W();
  if (!w->ros) {
    auto * m = new Middleware();
    w->ros = m;
    w->ros_cleanup = [w, m] {
        w->ros = nullptr;
        delete m;
      };
    w->on_process_gone = [m](sim::Process * p) {
        for (auto & [name, t] : m->topics) {
          for (auto * s : t.subs) {
            if (s->proc == p) {
              s->alive = false;
              *s->handle = false;
              s->queue.clear();
            }
          }
          for (auto * q : t.pubs) {
            if (q->proc == p) {
              q->alive = false;
            }
          }
          t.subs.erase(
            std::remove_if(
              t.subs.begin(), t.subs.end(), [p](SubBase * s) {return s->proc == p;}),
            t.subs.end());
          t.pubs.erase(
            std::remove_if(
              t.pubs.begin(), t.pubs.end(), [p](PubBase * s) {return s->proc == p;}),
            t.pubs.end());
        }
        m->nodes.erase(
          std::remove_if(
            m->nodes.begin(), m->nodes.end(), [p](Node * n) {return n->process() == p;}),
          m->nodes.end());
        m->waiting.erase(p);
      };
  }
  return *static_cast<Middleware *>(w->ros);
}

// ------------------------------------------------------------------ logging
bool sim_throttle(const char * site, i64 ms)
{
  auto & m = mw();
  const std::string key =
    std::string(site) + (W()->current_process ? W()->current_process->name : "");
  auto it = m.throttle.find(key);
  if (it != m.throttle.end() && W()->now - it->second < ms * 1000000LL) {
    return false;
  }
  m.throttle[key] = W()->now;
  return true;
}

bool sim_once(const char * site)
{
  return mw().once.insert(
    std::string(site) + (W()->current_process ? W()->current_process->name : "")).second;
}

// ------------------------------------------------------------------ clock
Time Clock::now() const
{
  auto & m = mw();
  if (m.now_tick) {
    W()->now += m.now_tick();
  }
  if (type_ == RCL_STEADY_TIME) {
    return Time(W()->now + 1000000000LL, type_);
  }
  const sim::Process * p = proc_ ? proc_ : W()->current_process;
  return Time(p ? p->clock_now() : W()->now, type_);
}

// ------------------------------------------------------------------ middleware
bool Middleware::compatible(const PubBase & p, const SubBase & s) const
{
  if (p.type != s.type) {
    return false;
  }
  if (s.qos.is_reliable() && !p.qos.is_reliable()) {
    return false;
  }
  if (s.qos.is_transient() && !p.qos.is_transient()) {
    return false;
  }
  return true;
}

void Middleware::send(PubBase & p, SubBase * s, const AnyMsg & m)
{
  const std::string src = p.proc ? p.proc->name : "?";
  const std::string dst = s->proc ? s->proc->name : "?";
  const std::string key = p.topic + "|" + src + "|" + dst;
  const bool rel = p.qos.is_reliable() && s->qos.is_reliable();
  const Link link{p.topic, src, dst, link_n[key]++, rel};
  std::vector<i64> delays{0};
  if (network) {
    delays = network(link, m);
  }
  AnyMsg payload = m;
  if (corrupt) {
    AnyMsg c = corrupt(link, m);
    if (c) {
      payload = c;
    }
  }
  for (i64 d : delays) {
    auto handle = s->handle;
    W()->after(
      d, [this, s, handle, payload] {
        if (*handle) {
          deliver(s, payload);
        }
      });
  }
}

void Middleware::publish(PubBase & p, const AnyMsg & m)
{
  if (!p.alive) {
    return;
  }
  ++p.n;
  if (p.qos.is_transient()) {
    p.history.push_back(m);
    const size_t depth = p.qos.is_keep_all() ? SIZE_MAX : std::max<size_t>(1, p.qos.depth());
    while (p.history.size() > depth) {
      p.history.pop_front();
    }
  }
  if (on_publish) {
    on_publish(p, m);
  }
  auto subs = topics[p.topic].subs;
  for (auto * s : subs) {
    if (s->alive && compatible(p, *s)) {
      send(p, s, m);
    }
  }
}

void Middleware::deliver(SubBase * s, const AnyMsg & m)
{
  if (!s->alive || (s->proc && s->proc->dead)) {
    return;
  }
  ++s->n_delivered;
  if (s->independent) {
    if (on_take) {
      on_take(*s, m);
    }
    s->callback(s->clone ? s->clone(m) : m);
    return;
  }
  s->queue.push_back(s->clone ? s->clone(m) : m);
  if (!s->qos.is_keep_all()) {
    const size_t depth = std::max<size_t>(1, s->qos.depth());
    while (s->queue.size() > depth) {
      if (on_overflow) {
        on_overflow(*s, s->queue.front());
      }
      s->queue.pop_front();
      ++s->n_overflow;
      W()->count("queue_overflow");
    }
  }
  wake(s->proc);
}

void Middleware::add_sub(SubBase * s)
{
  topics[s->topic].subs.push_back(s);
  if (s->qos.is_transient()) {
    for (auto * p : topics[s->topic].pubs) {
      if (p->alive && compatible(*p, *s)) {
        auto h = p->history;
        for (const auto & m : h) {
          send(*p, s, m);
        }
      }
    }
  }
}

void Middleware::add_pub(PubBase * p) {topics[p->topic].pubs.push_back(p);}

void Middleware::remove_sub(SubBase * s)
{
  auto & v = topics[s->topic].subs;
  v.erase(std::remove(v.begin(), v.end(), s), v.end());
  s->alive = false;
  *s->handle = false;
}

void Middleware::remove_pub(PubBase * p)
{
  auto & v = topics[p->topic].pubs;
  v.erase(std::remove(v.begin(), v.end(), p), v.end());
  p->alive = false;
}

void Middleware::wake(sim::Process * p)
{
  auto it = waiting.find(p);
  if (it == waiting.end()) {
    return;
  }
  auto fs = it->second;
  it->second.clear();
  for (auto * f : fs) {
    W()->wake(f);
  }
}

void Middleware::arm(const TimerBase::SharedPtr & t)
{
  const i64 j = timer_jitter ? timer_jitter(t->proc) : 0;
  t->due = t->next + j;
  std::weak_ptr<TimerBase> w = t;
  W()->at(
    t->due, [this, w] {
      if (auto t = w.lock()) {
        if (t->alive && !t->proc->dead) {
          wake(t->proc);
        }
      }
    });
}

void TimerBase::reset()
{
  canceled = false;
  next = W()->now + period;
  due = next;
  sim::Process * p = proc;
  W()->at(due, [p] {mw().wake(p);});
}

// ------------------------------------------------------------------ node
static std::string join(const std::string & ns, const std::string & n)
{
  if (!n.empty() && n[0] == '/') {
    return n;
  }
  return (ns.empty() || ns == "/") ? "/" + n : (ns[0] == '/' ? ns : "/" + ns) + "/" + n;
}

Node::Node(const std::string & name, const NodeOptions & o)
: name_(name), proc_(W()->current_process)
{
  ns_ = proc_ ? proc_->ns : "";
  setup(o);
}

Node::Node(const std::string & name, const std::string & ns, const NodeOptions & o)
: name_(name), ns_(ns), proc_(W()->current_process)
{
  setup(o);
}

void Node::setup(const NodeOptions & o)
{
  if (!proc_) {
    throw std::runtime_error("a node was created outside a simulated process");
  }
  auto r = proc_->remaps.find("__node");
  if (r != proc_->remaps.end()) {
    name_ = r->second;
  }
  fqn_ = join(ns_, name_);
  options_ = o;
  clock_ = std::make_shared<Clock>(RCL_ROS_TIME, proc_);
  default_group_ = std::make_shared<CallbackGroup>(CallbackGroupType::MutuallyExclusive);
  for (const auto & p : o.overrides) {
    proc_->params[p.name] = p.text;
  }
  mw().nodes.push_back(this);
}

Node::~Node()
{
  auto & v = mw().nodes;
  v.erase(std::remove(v.begin(), v.end(), this), v.end());
}

std::string Node::resolve(const std::string & topic) const
{
  std::string t = topic;
  if (!t.empty() && t[0] == '~') {
    t = fqn_ + t.substr(1);
  }
  auto it = proc_->remaps.find(topic);
  if (it != proc_->remaps.end()) {
    return join(ns_, it->second);
  }
  const std::string full = join(ns_, t);
  it = proc_->remaps.find(full);
  if (it != proc_->remaps.end()) {
    return join(ns_, it->second);
  }
  for (const auto & [from, to] : proc_->remaps) {
    if (join(ns_, from) == full) {
      return join(ns_, to);
    }
  }
  return full;
}

TimerBase::SharedPtr Node::add_timer(
  i64 period, std::function<void ()> cb, CallbackGroup::SharedPtr g)
{
  auto t = std::make_shared<TimerBase>();
  t->proc = proc_;
  t->period = std::max<i64>(1, period);
  t->next = W()->now + t->period;
  t->group = g ? g : default_group_;
  t->callback = std::move(cb);
  timers_.push_back(t);
  mw().arm(t);
  return t;
}

// ------------------------------------------------------------------ executors
void Executor::remove_node(std::shared_ptr<Node> n, bool)
{
  nodes_.erase(
    std::remove_if(
      nodes_.begin(), nodes_.end(), [&](auto & w) {return w.lock() == n || w.expired();}),
    nodes_.end());
}

bool Executor::run_one(sim::Process * p)
{
  auto & m = mw();
  std::vector<TimerBase::SharedPtr> timers;
  std::vector<SubBase::SharedPtr> subs;
  for (auto & wn : nodes_) {
    auto n = wn.lock();
    if (!n) {
      continue;
    }
    for (auto & wt : n->timers_) {
      auto t = wt.lock();
      if (t && t->alive && !t->canceled && W()->now >= t->due && t->group->can_run()) {
        timers.push_back(t);
      }
    }
    for (auto & ws : n->subs_) {
      auto s = ws.lock();
      if (s && s->alive && !s->queue.empty() && s->group->can_run()) {
        subs.push_back(s);
      }
    }
  }
  const size_t total = timers.size() + subs.size();
  if (total == 0) {
    return false;
  }
  const size_t k = W()->choose(total);
  if (total > 1) {
    W()->count("sched_choice_points");
  }
  CallbackGroup::SharedPtr g = k < timers.size() ? timers[k]->group : subs[k - timers.size()]->group;
  ++g->running;
  struct Release
  {
    CallbackGroup::SharedPtr g;
    sim::Process * p;
    ~Release() {--g->running; mw().wake(p);}
  } release{g, p};
  if (k < timers.size()) {
    auto t = timers[k];
    t->next += t->period;
    if (t->next < W()->now) {
      t->next += (1 + (W()->now - t->next - 1) / t->period) * t->period;
      W()->count("timer_periods_skipped");
    }
    m.arm(t);
    const auto d = m.exec_time ? m.exec_time(p, "timer") : std::pair<i64, i64>{0, 0};
    if (d.first > 0) {
      W()->sleep_until(W()->now + d.first);
    }
    if (m.on_timer) {
      m.on_timer(*t);
    }
    ++t->fired;
    t->callback();
    if (m.on_timer_done) {
      m.on_timer_done(*t);
    }
    if (d.second > 0) {
      W()->sleep_until(W()->now + d.second);
    }
  } else {
    auto s = subs[k - timers.size()];
    const AnyMsg msg = s->queue.front();
    s->queue.pop_front();
    ++s->n_taken;
    const auto d = m.exec_time ? m.exec_time(p, s->topic) : std::pair<i64, i64>{0, 0};
    if (d.first > 0) {
      W()->sleep_until(W()->now + d.first);
    }
    W()->sched_hash = (W()->sched_hash ^ sim::hash_str(s->topic)) * 1099511628211ULL;
    if (m.on_take) {
      m.on_take(*s, msg);
    }
    s->callback(msg);
    if (m.on_done) {
      m.on_done(*s, msg);
    }
    if (d.second > 0) {
      W()->sleep_until(W()->now + d.second);
    }
  }
  return true;
}

void Executor::loop(sim::Process * p)
{
  while (p->ok && !canceled_) {
    if (!run_one(p)) {
      mw().waiting[p].push_back(W()->current);
      W()->block();
    } else {
      W()->yield();
    }
  }
}

void Executor::spin_some(std::chrono::nanoseconds)
{
  sim::Process * p = W()->current_process;
  for (int i = 0; i < 64 && p->ok; ++i) {
    if (!run_one(p)) {
      break;
    }
  }
  W()->yield();
}

void Executor::spin_once(std::chrono::nanoseconds)
{
  sim::Process * p = W()->current_process;
  while (p->ok && !canceled_ && !run_one(p)) {
    mw().waiting[p].push_back(W()->current);
    W()->block();
  }
}

void executors::SingleThreadedExecutor::spin() {loop(W()->current_process);}

void executors::MultiThreadedExecutor::spin()
{
  sim::Process * p = W()->current_process;
  const size_t n = n_ ? n_ : static_cast<size_t>(mw().n_threads);
  auto running = std::make_shared<int>(0);
  sim::Fiber * main = W()->current;
  for (size_t i = 1; i < n; ++i) {
    ++*running;
    W()->spawn_fiber(
      p, p->name + "-w" + std::to_string(i), [this, p, running, main] {
        loop(p);
        --*running;
        W()->wake(main);
      });
  }
  loop(p);
  while (*running > 0) {
    W()->block();
  }
}

void init(int, char const * const *)
{
  sim::Process * p = W()->current_process;
  p->ok = true;
}

bool ok(Context::SharedPtr)
{
  sim::Process * p = W()->current_process;
  return p && p->ok;
}

bool shutdown(Context::SharedPtr, const std::string &)
{
  sim::Process * p = W()->current_process;
  if (!p || !p->ok) {
    return false;
  }
  W()->note("shutdown called in %s", p->name.c_str());
  p->shutdown();
  return true;
}

void on_shutdown(std::function<void ()> f, Context::SharedPtr)
{
  W()->current_process->on_shutdown.push_back(f);
}

void spin(std::shared_ptr<Node> n)
{
  executors::SingleThreadedExecutor e;
  e.add_node(n);
  e.spin();
}

void spin_some(std::shared_ptr<Node> n)
{
  executors::SingleThreadedExecutor e;
  e.add_node(n);
  e.spin_some();
}

bool sleep_for(const std::chrono::nanoseconds & d, Context::SharedPtr)
{
  W()->sleep_until(W()->now + d.count());
  return ok();
}

bool Clock::sleep_for(Duration d) {return rclcpp::sleep_for(std::chrono::nanoseconds(d.nanoseconds()));}

bool Rate::sleep()
{
  const i64 next = last_ + period_;
  last_ = std::max(next, W()->now);
  if (next <= W()->now) {
    W()->yield();
    return false;
  }
  W()->sleep_until(next);
  return true;
}

ComponentRegistry & components()
{
  static ComponentRegistry r;
  return r;
}

}  // namespace rclcpp
