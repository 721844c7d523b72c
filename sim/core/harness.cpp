// Runs a check: many seeds over forked workers, determinism double runs,
// crash capture, minimisation, replay gating, known findings, evidence.
#include <dirent.h>
#include <malloc.h>
#include <sys/personality.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>

#include "sim.hpp"
#include "statics.hpp"

namespace sim
{

static double wall()
{
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

std::string make_scratch_dir(const std::string & tag)
{
  std::string t = "/tmp/lfsim-" + tag + "-XXXXXX";
  std::vector<char> b(t.begin(), t.end());
  b.push_back(0);
  if (!mkdtemp(b.data())) {
    perror("mkdtemp");
    _exit(3);
  }
  return b.data();
}

// Removes one scratch directory made above (two levels deep at most).
void remove_scratch_dir(const std::string & dir)
{
  if (dir.rfind("/tmp/lfsim-", 0) != 0) {
    return;
  }
  DIR * d = opendir(dir.c_str());
  if (!d) {
    return;
  }
  while (dirent * e = readdir(d)) {
    const std::string n = e->d_name;
    if (n == "." || n == "..") {
      continue;
    }
    const std::string p = dir + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
      remove_scratch_dir(p);
    } else {
      unlink(p.c_str());
    }
  }
  closedir(d);
  rmdir(dir.c_str());
}

namespace
{

struct Shared
{
  std::atomic<u64> next;
  std::atomic<u64> current[256];
  std::atomic<int> stop;
};

struct Record
{
  u64 idx = 0, hash = 0, sched = 0, state = 0, events = 0;
  bool nontrivial = false;
  double sim_s = 0;
  std::string cls, detail;
  std::map<std::string, u64> stats;
};

// Crashes count as one class: which signal an undefined access ends in may vary.
bool same_class(const std::string & a, const std::string & b)
{
  return a == b || (a.rfind("crash", 0) == 0 && b.rfind("crash", 0) == 0);
}

std::string one_line(std::string s)
{
  for (auto & c : s) {
    if (c == '\n' || c == '\t') {
      c = ' ';
    }
  }
  return s;
}

std::string serialise(const Record & r)
{
  std::string s = fmt(
    "R\t%llu\t%llx\t%llx\t%llx\t%llu\t%d\t%.9f\t%s\t%s", (unsigned long long)r.idx,
    (unsigned long long)r.hash, (unsigned long long)r.sched, (unsigned long long)r.state,
    (unsigned long long)r.events, r.nontrivial ? 1 : 0, r.sim_s, r.cls.c_str(),
    one_line(r.detail).c_str());
  for (const auto & [k, v] : r.stats) {
    s += "\t" + k + "=" + std::to_string(v);
  }
  return s + "\n";
}

bool deserialise(const std::string & line, Record & r)
{
  std::vector<std::string> f;
  std::string cur;
  for (char c : line) {
    if (c == '\t') {
      f.push_back(cur);
      cur.clear();
    } else {
      cur += c;
    }
  }
  f.push_back(cur);
  if (f.size() < 10 || f[0] != "R") {
    return false;
  }
  r.idx = std::stoull(f[1]);
  r.hash = std::stoull(f[2], nullptr, 16);
  r.sched = std::stoull(f[3], nullptr, 16);
  r.state = std::stoull(f[4], nullptr, 16);
  r.events = std::stoull(f[5]);
  r.nontrivial = f[6] == "1";
  r.sim_s = std::stod(f[7]);
  r.cls = f[8];
  r.detail = f[9];
  for (size_t i = 10; i < f.size(); ++i) {
    const size_t e = f[i].find('=');
    if (e != std::string::npos) {
      r.stats[f[i].substr(0, e)] = std::stoull(f[i].substr(e + 1));
    }
  }
  return true;
}

u64 run_seed(const std::string & id, u64 verif_seed, u64 idx)
{
  return mix(mix(verif_seed, hash_str(id)), idx);
}

Record to_record(u64 idx, const Outcome & o)
{
  Record r;
  r.idx = idx;
  r.hash = o.hash;
  r.sched = o.sched_hash;
  r.state = o.state_hash;
  r.events = o.events;
  r.nontrivial = o.nontrivial;
  r.sim_s = o.sim_seconds;
  r.stats = o.stats;
  if (!o.violations.empty()) {
    r.cls = o.violations[0].cls;
    r.detail = o.violations[0].detail;
  }
  return r;
}

void quiet_stdio()
{
  int n = open("/dev/null", O_WRONLY);
  if (n >= 0) {
    dup2(n, 1);
    dup2(n, 2);
    if (n > 2) {
      close(n);
    }
  }
}

void set_alarm(double s)
{
  itimerval it{};
  it.it_value.tv_sec = static_cast<time_t>(s);
  it.it_value.tv_usec = static_cast<suseconds_t>((s - it.it_value.tv_sec) * 1e6);
  setitimer(ITIMER_REAL, &it, nullptr);
}

// Executes one plan in a forked child, so that a crash is just an answer.
struct Isolated
{
  bool ok = false;
  Record rec;
  std::string signal;
};

Isolated run_isolated(Check & check, const Plan & plan)
{
  int fd[2];
  if (pipe(fd) != 0) {
    perror("pipe");
    _exit(3);
  }
  fflush(stdout);
  const pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    quiet_stdio();
    set_alarm(check.run_timeout_s());
    scrub_stack();
    Outcome o = check.run(plan, false);
    const std::string s = serialise(to_record(0, o));
    size_t off = 0;
    while (off < s.size()) {
      ssize_t n = write(fd[1], s.data() + off, s.size() - off);
      if (n <= 0) {
        break;
      }
      off += n;
    }
    _exit(0);
  }
  close(fd[1]);
  std::string data;
  char buf[4096];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof(buf))) > 0) {
    data.append(buf, n);
  }
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  Isolated r;
  if (WIFSIGNALED(st)) {
    r.rec.cls = WTERMSIG(st) == SIGALRM ? "hang" : fmt("crash-signal-%d", WTERMSIG(st));
    r.rec.detail = fmt("the simulated process died of signal %d", WTERMSIG(st));
    r.ok = true;
  } else if (WIFEXITED(st) && WEXITSTATUS(st) != 0) {
    r.rec.cls = fmt("crash-exit-%d", WEXITSTATUS(st));
    r.rec.detail = "the simulated process called exit";
    r.ok = true;
  } else {
    std::istringstream in(data);
    std::string line;
    while (std::getline(in, line)) {
      if (deserialise(line, r.rec)) {
        r.ok = true;
      }
    }
  }
  return r;
}

struct Finding
{
  std::string cls, match, plan, text;
  bool reproduced = false;
};

std::vector<Finding> load_findings(const std::string & path, const std::string & id)
{
  std::vector<Finding> out;
  std::ifstream in(path);
  std::string line;
  while (std::getline(in, line)) {
    if (line.rfind("finding:", 0) != 0 || line.find("property=" + id + " ") == std::string::npos) {
      continue;
    }
    Finding f;
    std::istringstream ls(line);
    std::string w;
    while (ls >> w) {
      if (w.rfind("class=", 0) == 0) {
        f.cls = w.substr(6);
      } else if (w.rfind("match=", 0) == 0) {
        f.match = w.substr(6);
      } else if (w.rfind("plan=", 0) == 0) {
        f.plan = w.substr(5);
      } else if (w == "--") {
        std::getline(ls, f.text);
        break;
      }
    }
    out.push_back(f);
  }
  return out;
}

bool is_known(const std::vector<Finding> & fs, const Record & r)
{
  for (const auto & f : fs) {
    if (!f.cls.empty() && f.cls == r.cls &&
      (f.match.empty() || r.detail.find(f.match) != std::string::npos))
    {
      return true;
    }
  }
  return false;
}

std::string read_file(const std::string & p)
{
  std::ifstream in(p, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  return ss.str();
}

std::string json_str(const std::string & s)
{
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c >= 127) {
      o += fmt("\\u%04x", c);
    } else {
      o += static_cast<char>(c);
    }
  }
  return o + "\"";
}

// ------------------------------------------------------------ minimisation
Plan minimise(Check & check, Plan plan, const std::string & cls, double budget, u64 & tried)
{
  const double end = wall() + budget;
  auto still = [&](const Plan & p) {
      if (wall() > end) {
        return false;
      }
      ++tried;
      const Isolated r = run_isolated(check, p);
      return r.ok && same_class(r.rec.cls, cls);
    };
  // simplest schedule
  if (plan.get("fifo") == 0) {
    Plan q = plan;
    q.cfg["fifo"] = 1;
    if (still(q)) {
      plan = q;
    }
  }
  for (const auto & k : check.shrinkable()) {
    if (plan.get(k) != 0) {
      Plan q = plan;
      q.cfg[k] = 0;
      if (still(q)) {
        plan = q;
      }
    }
  }
  // ddmin over the operations
  size_t chunk = std::max<size_t>(1, plan.ops.size() / 2);
  while (wall() < end) {
    bool any = false;
    for (size_t i = 0; i < plan.ops.size() && wall() < end; ) {
      Plan q = plan;
      const size_t n = std::min(chunk, plan.ops.size() - i);
      q.ops.erase(q.ops.begin() + i, q.ops.begin() + i + n);
      if (still(q)) {
        plan = q;
        any = true;
      } else {
        i += n;
      }
    }
    if (chunk == 1 && !any) {
      break;
    }
    if (chunk > 1) {
      chunk = std::max<size_t>(1, chunk / 2);
    }
  }
  // simpler operations
  for (size_t i = 0; i < plan.ops.size() && wall() < end; ++i) {
    Plan q = plan;
    check.simplify(q.ops[i]);
    if (q.str() != plan.str() && still(q)) {
      plan = q;
    }
  }
  return plan;
}

}  // namespace

int harness_main(int argc, char ** argv, Check & check)
{
  // The same addresses in every process, and no luck with unset memory.
  const int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("LFSIM_REEXEC")) {
    setenv("LFSIM_REEXEC", "1", 1);
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) {
      execv("/proc/self/exe", argv);
    }
  }
  mallopt(M_PERTURB, 0x5a);
  statics_init();
  setvbuf(stdout, nullptr, _IOLBF, 0);
  std::map<std::string, std::string> arg;
  std::vector<std::string> flags;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a.rfind("--", 0) == 0) {
      const size_t e = a.find('=');
      if (e != std::string::npos) {
        arg[a.substr(2, e - 2)] = a.substr(e + 1);
      } else {
        arg[a.substr(2)] = "1";
      }
    }
  }
  auto get = [&](const std::string & k, const std::string & d) {
      return arg.count(k) ? arg[k] : d;
    };
  const u64 verif_seed = std::stoull(get("seed", "1"));
  const bool thorough = get("tier", "quick") == "thorough";
  const std::string id = check.id();

  // ---- single executions
  if (arg.count("replay") || arg.count("one") || arg.count("gen")) {
    Plan plan;
    if (arg.count("replay")) {
      plan = Plan::parse(read_file(arg["replay"]));
    } else {
      const u64 idx = std::stoull(arg.count("one") ? arg["one"] : arg["gen"]);
      plan = check.generate(run_seed(id, verif_seed, idx), thorough);
      if (arg.count("gen")) {
        std::cout << plan.str();
        return 0;
      }
    }
    if (arg.count("raw")) {       // in this very process, for a debugger
      scrub_stack();
      Outcome o = check.run(plan, arg.count("trace"));
      for (const auto & l : o.trace) {
        std::cout << l << "\n";
      }
      const Record r = to_record(0, o);
      printf(
        "RESULT class=%s hash=%llx sched=%llx\n", r.cls.empty() ? "ok" : r.cls.c_str(),
        (unsigned long long)r.hash, (unsigned long long)r.sched);
      if (!r.cls.empty()) {
        printf("DETAIL %s\n", one_line(r.detail).c_str());
      }
      for (const auto & [k, v] : r.stats) {
        printf("STAT %s=%llu\n", k.c_str(), (unsigned long long)v);
      }
      return r.cls.empty() ? 0 : 1;
    }
    const Isolated r = run_isolated(check, plan);
    printf(
      "RESULT class=%s hash=%llx sched=%llx\n", r.rec.cls.empty() ? "ok" : r.rec.cls.c_str(),
      (unsigned long long)r.rec.hash, (unsigned long long)r.rec.sched);
    if (!r.rec.cls.empty()) {
      printf("DETAIL %s\n", one_line(r.rec.detail).c_str());
      printf("VIOLATION property=%s replay=%s\n", id.c_str(), get("replay", "-").c_str());
    }
    return r.rec.cls.empty() ? 0 : 1;
  }

  // ---- a batch
  const double t0 = wall();
  const int jobs = std::stoi(get("jobs", std::to_string(std::max(1L, sysconf(_SC_NPROCESSORS_ONLN)))));
  const double budget = std::stod(get("budget", thorough ? "1500" : "120"));
  u64 runs = thorough ? check.thorough_runs() : check.quick_runs();
  if (arg.count("runs")) {
    runs = std::stoull(arg["runs"]);
  }
  const std::string replay_dir = get("replays", "replays");
  const std::string known_path = get("known", "");
  const std::string known_dir = get("known-dir", "");
  std::vector<Finding> findings =
    known_path.empty() ? std::vector<Finding>() : load_findings(known_path, id);
  const std::string tmp = make_scratch_dir("batch");
  printf(
    "%s: VERIF_SEED=%llu tier=%s runs=%llu jobs=%d\n", id.c_str(),
    (unsigned long long)verif_seed, thorough ? "thorough" : "quick", (unsigned long long)runs, jobs);

  auto * sh = static_cast<Shared *>(mmap(
      nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));

  // Runs the given indexes over forked workers and returns their records.
  auto batch = [&](const std::vector<u64> & idxs, int njobs, double limit, bool stop_early) {
      sh->next = 0;
      sh->stop = 0;
      const double end = wall() + limit;
      std::vector<Record> crashed;
      std::map<pid_t, int> live;
      int file_no = 0;
      static int batch_no = 0;
      ++batch_no;
      auto spawn = [&](int slot) {
          const std::string path = fmt("%s/b%d-%d.log", tmp.c_str(), batch_no, file_no++);
          sh->current[slot] = ~0ULL;
          fflush(stdout);
          const pid_t pid = fork();
          if (pid == 0) {
            quiet_stdio();
            const int fd = open(path.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600);
            int done = 0;
            // a fresh process every so often bounds what crashed runs leak
            while (done < 200) {
              if (wall() > end || sh->stop) {
                _exit(0);
              }
              const u64 k = sh->next++;
              if (k >= idxs.size()) {
                _exit(0);
              }
              sh->current[slot] = idxs[k];
              set_alarm(check.run_timeout_s());
              const Plan plan = check.generate(run_seed(id, verif_seed, idxs[k]), thorough);
              scrub_stack();
              const Outcome o = check.run(plan, false);
              set_alarm(0);
              const Record r = to_record(idxs[k], o);
              const std::string s = serialise(r);
              if (write(fd, s.data(), s.size()) != static_cast<ssize_t>(s.size())) {
                _exit(4);
              }
              sh->current[slot] = ~0ULL;
              ++done;
              if (stop_early && !r.cls.empty() && !is_known(findings, r)) {
                sh->stop = 1;
              }
            }
            _exit(7);       // respawn me
          }
          live[pid] = slot;
        };
      for (int j = 0; j < njobs; ++j) {
        spawn(j);
      }
      bool broken = false;
      while (!live.empty()) {
        int st = 0;
        const pid_t pid = wait(&st);
        if (pid < 0) {
          break;
        }
        auto it = live.find(pid);
        if (it == live.end()) {
          continue;
        }
        const int slot = it->second;
        live.erase(it);
        const u64 cur = sh->current[slot];
        if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 7)) {
          if (cur != ~0ULL) {
            Record r;
            r.idx = cur;
            r.nontrivial = true;
            if (WIFSIGNALED(st)) {
              r.cls = WTERMSIG(st) == SIGALRM ? "hang" : fmt("crash-signal-%d", WTERMSIG(st));
            } else {
              r.cls = fmt("crash-exit-%d", WEXITSTATUS(st));
            }
            r.detail = "the simulated process died";
            crashed.push_back(r);
            if (stop_early && !is_known(findings, r)) {
              sh->stop = 1;
            }
          } else {
            broken = true;
          }
          if (!sh->stop && wall() < end && crashed.size() < 64) {
            spawn(slot);
          }
        } else if (WIFEXITED(st) && WEXITSTATUS(st) == 7) {
          spawn(slot);
        }
      }
      if (broken) {
        fprintf(stderr, "%s: a worker died outside a run\n", id.c_str());
        remove_scratch_dir(tmp);
        _exit(2);
      }
      std::vector<Record> recs = crashed;
      for (int i = 0; i < file_no; ++i) {
        std::ifstream in(fmt("%s/b%d-%d.log", tmp.c_str(), batch_no, i));
        std::string line;
        while (std::getline(in, line)) {
          Record r;
          if (deserialise(line, r)) {
            recs.push_back(r);
          }
        }
      }
      std::sort(
        recs.begin(), recs.end(), [](const Record & a, const Record & b) {return a.idx < b.idx;});
      return recs;
    };

  // ---- known findings still there?
  for (auto & f : findings) {
    if (f.plan.empty()) {
      continue;
    }
    const Plan p = Plan::parse(read_file(known_dir + "/" + f.plan));
    const Isolated r = run_isolated(check, p);
    if (r.ok && r.rec.cls == f.cls &&
      (f.match.empty() || r.rec.detail.find(f.match) != std::string::npos))
    {
      f.reproduced = true;
      printf("KNOWN-FINDING: property=%s %s\n", id.c_str(), f.text.c_str());
    }
  }

  std::vector<u64> idxs(runs);
  for (u64 i = 0; i < runs; ++i) {
    idxs[i] = i;
  }
  const double ts = wall();
  std::vector<Record> recs = batch(idxs, jobs, budget, true);
  const double search_wall = wall() - ts;

  int exit_code = 0;
  int n_violations = 0;
  u64 suppressed = 0;
  std::vector<const Record *> candidates;
  for (const auto & r : recs) {
    if (r.cls.empty()) {
      continue;
    }
    if (is_known(findings, r)) {
      ++suppressed;
      continue;
    }
    candidates.push_back(&r);
  }

  // ---- determinism: a sample again, other worker count, fresh processes
  u64 det = 0, nondet = 0;
  std::vector<Record> again;
  {
    std::vector<u64> sample;
    std::map<u64, const Record *> by;
    const u64 want = thorough ? 200 : 32;
    const u64 stride = std::max<u64>(1, recs.size() / want);
    for (size_t i = 0; i < recs.size(); i += stride) {
      if (recs[i].cls.rfind("crash", 0) != 0 && recs[i].cls != "hang") {
        sample.push_back(recs[i].idx);
        by[recs[i].idx] = &recs[i];
      }
    }
    again = batch(sample, std::max(1, jobs - 3), 300, false);
    for (const auto & r : again) {
      ++det;
      const Record * o = by[r.idx];
      if (o && (o->hash != r.hash || o->sched != r.sched || o->cls != r.cls)) {
        printf(
          "NONDETERMINISM property=%s run=%llu hash %llx/%llx class '%s'/'%s'\n", id.c_str(),
          (unsigned long long)r.idx, (unsigned long long)o->hash, (unsigned long long)r.hash,
          o->cls.c_str(), r.cls.c_str());
        ++nondet;
      }
    }
  }
  for (const auto & r : again) {
    // found only the second time
    if (!r.cls.empty() && !is_known(findings, r)) {
      candidates.push_back(&r);
    }
  }

  std::string replay_path;
  // The first violation that a fresh process shows again is reported.
  for (size_t tries = 0; tries < std::min<size_t>(candidates.size(), 8) && exit_code != 1; ++tries) {
    Record adopted = *candidates[tries];
    Record * bad = &adopted;
    Plan plan = check.generate(run_seed(id, verif_seed, bad->idx), thorough);
    Isolated first = run_isolated(check, plan);
    printf(
      "%s: run %llu (seed %llu) violates: %s -- %s\n", id.c_str(), (unsigned long long)bad->idx,
      (unsigned long long)plan.seed, bad->cls.c_str(), bad->detail.c_str());
    if (first.ok && first.rec.cls.empty() &&
      (bad->cls == "hang" || bad->cls == "crash-signal-9"))
    {
      // killed from outside, by the memory limit or by the watchdog on a loaded machine
      printf("%s: repeated alone, the run passes\n", id.c_str());
      continue;
    }
    if (first.ok && !first.rec.cls.empty() && !same_class(first.rec.cls, bad->cls)) {
      printf(
        "%s: repeated alone, it violates: %s -- %s\n", id.c_str(), first.rec.cls.c_str(),
        first.rec.detail.c_str());
      bad->cls = first.rec.cls;
    }
    if (!first.ok || first.rec.cls.empty()) {
      printf(
        "NOT-REPRODUCED property=%s run=%llu class %s became '%s'\n", id.c_str(),
        (unsigned long long)bad->idx, bad->cls.c_str(), first.rec.cls.c_str());
      exit_code = 2;
    } else {
      u64 tried = 0;
      const size_t ops0 = plan.ops.size();
      const Plan small = minimise(check, plan, bad->cls, thorough ? 300 : 60, tried);
      printf(
        "%s: minimised %zu -> %zu operations (%llu executions)\n", id.c_str(), ops0,
        small.ops.size(), (unsigned long long)tried);
      mkdir(replay_dir.c_str(), 0755);
      replay_path = fmt("%s/%s-%llu.plan", replay_dir.c_str(), id.c_str(), (unsigned long long)bad->idx);
      // gate: two fresh processes must fail the very same way
      std::string h[2], c[2];
      Isolated a;
      for (const Plan & candidate : {small, plan}) {
        a = run_isolated(check, candidate);
        {
          std::ofstream out(replay_path);
          out << "# " << id << ": " << a.rec.cls << ": " << one_line(a.rec.detail) << "\n";
          out << "# replay: checks/run_check.py " << id << " replay " << replay_path << "\n";
          out << candidate.str();
        }
        for (int k = 0; k < 2; ++k) {
          h[k].clear();
          c[k].clear();
          int fd[2];
          if (pipe(fd) != 0) {
            _exit(3);
          }
          fflush(stdout);
          const pid_t pid = fork();
          if (pid == 0) {
            dup2(fd[1], 1);
            close(fd[0]);
            close(fd[1]);
            const std::string ra = "--replay=" + replay_path;
            execl("/proc/self/exe", argv[0], ra.c_str(), static_cast<char *>(nullptr));
            _exit(127);
          }
          close(fd[1]);
          std::string data;
          char buf[4096];
          ssize_t n;
          while ((n = read(fd[0], buf, sizeof(buf))) > 0) {
            data.append(buf, n);
          }
          close(fd[0]);
          int st;
          waitpid(pid, &st, 0);
          std::istringstream in(data);
          std::string w;
          while (in >> w) {
            if (w.rfind("class=", 0) == 0 && c[k].empty()) {c[k] = w.substr(6);}
            if (w.rfind("hash=", 0) == 0 && h[k].empty()) {h[k] = w.substr(5);}
          }
        }
        if (!c[0].empty() && !c[1].empty()) {
          break;
        }
      }
      if (c[0].empty() || c[1].empty()) {
        printf(
          "NOT-REPLAYED property=%s class %s/%s hash %s/%s\n", id.c_str(), c[0].c_str(),
          c[1].c_str(), h[0].c_str(), h[1].c_str());
        exit_code = 2;
      } else {
        if (h[0] != h[1] || c[0] != c[1]) {
          printf(
            "%s: note: same violation, but the two replays differ in detail (the code under test "
            "reads indeterminate memory)\n", id.c_str());
        }
        printf("%s: %s\n", id.c_str(), one_line(a.rec.detail).c_str());
        printf("VIOLATION property=%s replay=%s\n", id.c_str(), replay_path.c_str());
        n_violations = 1;
        exit_code = 1;
      }
    }
  }

  // ---- evidence
  std::map<std::string, u64> stats;
  std::set<u64> scheds, states, hashes;
  double sim_s = 0;
  u64 nontrivial = 0, events = 0;
  for (const auto & r : recs) {
    for (const auto & [k, v] : r.stats) {
      stats[k] += v;
    }
    sim_s += r.sim_s;
    events += r.events;
    scheds.insert(r.sched);
    states.insert(r.state);
    if (r.nontrivial && hashes.insert(r.hash).second) {
      ++nontrivial;
    }
  }
  if (exit_code == 0 && !recs.empty()) {
    for (const auto & p : check.required_probes()) {
      if (stats[p] == 0) {
        printf("UNREACHED property=%s probe=%s\n", id.c_str(), p.c_str());
      }
    }
  }
  std::string ev = "{\n";
  ev += " \"property\": " + json_str(id) + ",\n";
  ev += std::string(" \"tier\": ") + (thorough ? "\"thorough\"" : "\"quick\"") + ",\n";
  ev += fmt(" \"seed\": %llu,\n", (unsigned long long)verif_seed);
  ev += " \"level\": \"exploration\",\n \"coverage\": {\n";
  ev += fmt("  \"evaluations\": %zu,\n", recs.size());
  ev += fmt("  \"distinct_nontrivial\": %llu,\n", (unsigned long long)nontrivial);
  ev += "  \"rule\": " + json_str(check.rule()) + ",\n";
  ev += fmt("  \"runs_per_hour\": %.0f,\n", recs.size() / std::max(1e-9, search_wall) * 3600);
  ev += fmt("  \"simulated_seconds\": %.3f,\n", sim_s);
  ev += fmt("  \"scheduler_steps\": %llu,\n", (unsigned long long)events);
  ev += fmt("  \"distinct_interleavings\": %zu,\n", scheds.size());
  ev += "  \"interleaving_measure\": " + json_str(check.diversity_measure()) + ",\n";
  ev += fmt("  \"distinct_state_signatures\": %zu,\n", states.size());
  ev += fmt("  \"determinism_double_runs\": %llu,\n", (unsigned long long)det);
  ev += fmt("  \"runs_that_differed_when_repeated\": %llu,\n", (unsigned long long)nondet);
  ev += fmt("  \"suppressed_known_findings\": %llu,\n", (unsigned long long)suppressed);
  ev += "  \"faults_and_probes_fired\": {";
  bool first = true;
  for (const auto & [k, v] : stats) {
    ev += (first ? "\n" : ",\n") + std::string("   ") + json_str(k) + ": " + std::to_string(v);
    first = false;
  }
  ev += "\n  },\n";
  ev += "  \"real_code\": " + json_str(check.real_components()) + ",\n";
  ev += "  \"stubs\": " + json_str(check.stub_components()) + ",\n";
  ev += "  \"samples\": [";
  for (size_t i = 0; i < std::min<size_t>(2, recs.size()); ++i) {
    const u64 idx = recs[i * (recs.size() / 2)].idx;
    std::string p = check.generate(run_seed(id, verif_seed, idx), thorough).str();
    if (p.size() > 3000) {
      p = p.substr(0, 3000) + "...";
    }
    ev += (i ? ",\n   " : "\n   ") + json_str(p);
  }
  ev += "\n  ]\n },\n \"assumptions\": [";
  first = true;
  for (const auto & a : check.assumptions()) {
    ev += (first ? "\n  " : ",\n  ") + json_str(a);
    first = false;
  }
  ev += fmt("\n ],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall() - t0, n_violations);
  if (arg.count("out")) {
    std::ofstream(arg["out"]) << ev;
  }
  printf(
    "%s: %zu runs, %llu distinct non-trivial, %zu interleavings, %.0f simulated s, "
    "%llu double runs, %.1f s\n", id.c_str(), recs.size(), (unsigned long long)nontrivial,
    scheds.size(), sim_s, (unsigned long long)det, wall() - t0);
  for (const auto & [k, v] : stats) {
    printf("   %-36s %llu\n", k.c_str(), (unsigned long long)v);
  }
  remove_scratch_dir(tmp);
  return exit_code;
}

}  // namespace sim
