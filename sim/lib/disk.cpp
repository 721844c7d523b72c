#include "lib/disk.hpp"

#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>

namespace sim
{

namespace
{

constexpr size_t PAGE = 4096;

template<class F>
F real(const char * name, F)
{
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(f) (*[] {static const auto p = real(#f, &::f); return p;}())

struct OpenFile
{
  std::string path;
  u64 id = 0;
  bool dir = false, sync = false, write = false;
};
struct Mapping
{
  std::string path;
  u64 id = 0;
  size_t len = 0;
  bool write = false;
  std::string before;
};
struct NameOp
{
  std::string a, b;    // "" means none: create (b), rename (a to b), remove (a)
  u64 id = 0;
};

struct State
{
  std::map<int, OpenFile> fds;
  std::map<void *, Mapping> maps;
  std::map<std::string, u64> names;        // now
  std::map<std::string, u64> names0;       // at the beginning
  std::map<u64, std::string> durable;      // content that has reached the disk
  std::map<u64, std::string> gone;         // last content of files without name
  std::vector<NameOp> ops;
  size_t durable_ops = 0;
  u64 next_id = 1;
  int depth = 0;
};
State & st()
{
  static State s;
  return s;
}

struct Inside
{
  Inside() {++st().depth;}
  ~Inside() {--st().depth;}
};

bool on() {return disk().active && st().depth == 0;}

std::string absolute(const char * p)
{
  if (p[0] == '/') {
    return p;
  }
  char b[4096];
  if (!getcwd(b, sizeof(b))) {
    return p;
  }
  return std::string(b) + "/" + p;
}

// the name below the root, or empty
std::string below(const char * p)
{
  if (!p) {
    return "";
  }
  std::string a = absolute(p), out;
  // no "." and no doubled slashes
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i] == '/' && !out.empty() && out.back() == '/') {
      continue;
    }
    if (a[i] == '.' && out.size() && out.back() == '/' && (i + 1 == a.size() || a[i + 1] == '/')) {
      continue;
    }
    out += a[i];
  }
  while (out.size() > 1 && out.back() == '/') {
    out.pop_back();
  }
  const std::string & r = disk().root;
  if (out == r) {
    return ".";
  }
  if (out.compare(0, r.size() + 1, r + "/") != 0) {
    return "";
  }
  return out.substr(r.size() + 1);
}

std::string content(const std::string & path)
{
  Inside in;
  std::string s;
  const int fd = REAL(open)(path.c_str(), O_RDONLY);
  if (fd < 0) {
    return s;
  }
  char b[65536];
  ssize_t n;
  while ((n = REAL(read)(fd, b, sizeof(b))) > 0) {
    s.append(b, static_cast<size_t>(n));
  }
  REAL(close)(fd);
  return s;
}

std::string content_of(u64 id)
{
  for (const auto & n : st().names) {
    if (n.second == id) {
      return content(disk().root + "/" + n.first);
    }
  }
  auto it = st().gone.find(id);
  return it == st().gone.end() ? "" : it->second;
}

void walk(const std::string & dir, const std::string & rel, Files & out)
{
  DIR * d = opendir(dir.c_str());
  if (!d) {
    return;
  }
  while (dirent * e = readdir(d)) {
    const std::string n = e->d_name;
    if (n == "." || n == "..") {
      continue;
    }
    struct stat sb;
    if (lstat((dir + "/" + n).c_str(), &sb) != 0) {
      continue;
    }
    if (S_ISDIR(sb.st_mode)) {
      walk(dir + "/" + n, rel + n + "/", out);
    } else if (S_ISREG(sb.st_mode)) {
      out[rel + n] = content(dir + "/" + n);
    }
  }
  closedir(d);
}

// true: the call is to fail (errno is set); part: only part of it is to be done
bool fails(const char * call, bool * part = nullptr)
{
  Disk & d = disk();
  const i64 n = d.calls[call]++;
  for (const auto & f : d.faults) {
    if (f.call == call && f.nth == n) {
      if (f.err == 0) {
        if (part) {
          *part = true;
          d.fired.push_back(std::string(call) + " short");
        }
        return false;
      }
      d.fired.push_back(std::string(call) + " " + std::to_string(f.err));
      errno = f.err;
      return true;
    }
  }
  return false;
}

// before every call that changes something
void mutation(const char * call)
{
  Disk & d = disk();
  if (d.crashed || d.n_mutations++ != d.crash_at) {
    return;
  }
  d.crashed = true;
  d.crash_call = call;
  d.at_crash = d.files();
  // what goes through memory is there up to some byte
  for (const auto & m : st().maps) {
    auto it = d.at_crash.find(m.second.path);
    if (m.second.write && it != d.at_crash.end()) {
      std::string & now = it->second;
      const size_t k = static_cast<size_t>(d.crash_part * static_cast<double>(now.size()));
      std::string s = m.second.before;
      s.resize(now.size());
      now = now.substr(0, k) + s.substr(k);
    }
  }
}

bool no_space(i64 bytes)
{
  Disk & d = disk();
  if (d.quota < 0 || bytes <= 0) {
    return false;
  }
  if (bytes > d.quota) {
    d.fired.push_back("disk full");
    return true;
  }
  d.quota -= bytes;
  return false;
}

u64 id_of(const std::string & rel)
{
  auto it = st().names.find(rel);
  return it == st().names.end() ? 0 : it->second;
}

i64 size_of(int fd)
{
  struct stat sb;
  return fstat(fd, &sb) == 0 ? static_cast<i64>(sb.st_size) : 0;
}

int opened(const char * path, const std::string & rel, int flags, std::function<int ()> f)
{
  const bool write = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  (void)path;
  if (fails(write ? "open_write" : "open_read")) {
    return -1;
  }
  if (write) {
    mutation("open");
    if (disk().crashed) {
      errno = EIO;
      return -1;
    }
  }
  const bool fresh = id_of(rel) == 0;
  const int fd = f();
  if (fd < 0) {
    return fd;
  }
  OpenFile o;
  o.path = rel;
  struct stat sb;
  o.dir = fstat(fd, &sb) == 0 && S_ISDIR(sb.st_mode);
  o.sync = (flags & (O_SYNC | O_DSYNC)) != 0;
  o.write = write;
  if (!o.dir) {
    if (fresh && write) {
      const u64 id = st().next_id++;
      st().names[rel] = id;
      st().ops.push_back({"", rel, id});
    }
    o.id = id_of(rel);
  }
  st().fds[fd] = o;
  return fd;
}

void synced(u64 id)
{
  if (id) {
    st().durable[id] = content_of(id);
  }
}

// some pages as they were, some as they are
std::string torn(const std::string & old, const std::string & now, Rng & r)
{
  if (old == now) {
    return now;
  }
  const u64 how = r.below(4);
  if (how == 0) {
    return now;
  }
  if (how == 1) {
    return old;
  }
  std::string out(r.chance(0.7) ? now.size() : old.size(), '\0');
  const double p = r.uniform();
  for (size_t i = 0; i < out.size(); i += PAGE) {
    const std::string & src = r.chance(p) ? now : old;
    for (size_t k = i; k < std::min(out.size(), i + PAGE); ++k) {
      out[k] = k < src.size() ? src[k] : '\0';
    }
  }
  return out;
}

int renamed(const std::string & a, const std::string & b, std::function<int ()> f)
{
  if (fails("rename")) {
    return -1;
  }
  mutation("rename");
  if (disk().crashed) {
    errno = EIO;
    return -1;
  }
  const u64 id = id_of(a), victim = id_of(b);
  if (victim && victim != id) {
    st().gone[victim] = content_of(victim);
  }
  const int rc = f();
  if (rc == 0 && id) {
    st().names.erase(a);
    st().names[b] = id;
    st().ops.push_back({a, b, id});
    for (auto & o : st().fds) {
      if (o.second.id == id) {
        o.second.path = b;
      }
    }
  }
  return rc;
}

int removed(const std::string & a, std::function<int ()> f)
{
  if (fails("unlink")) {
    return -1;
  }
  mutation("unlink");
  if (disk().crashed) {
    errno = EIO;
    return -1;
  }
  const u64 id = id_of(a);
  if (id) {
    st().gone[id] = content_of(id);
  }
  const int rc = f();
  if (rc == 0 && id) {
    st().names.erase(a);
    st().ops.push_back({a, "", id});
  }
  return rc;
}

OpenFile * tracked(int fd)
{
  if (!on()) {
    return nullptr;
  }
  auto it = st().fds.find(fd);
  return it == st().fds.end() ? nullptr : &it->second;
}

}  // namespace

Disk & disk()
{
  static Disk d;
  return d;
}

void Disk::begin(const std::string & r)
{
  State & s = st();
  s = State();
  calls.clear();
  fired.clear();
  at_crash.clear();
  crash_call.clear();
  n_mutations = 0;
  crashed = false;
  char b[4096];
  root = realpath(r.c_str(), b) ? b : r;
  for (const auto & f : files()) {
    const u64 id = s.next_id++;
    s.names[f.first] = id;
    s.durable[id] = f.second;
  }
  s.names0 = s.names;
  active = true;
}

void Disk::end()
{
  active = false;
}

Files Disk::files() const
{
  Inside in;
  Files f;
  walk(root, "", f);
  return f;
}

Files Disk::after_power_loss(Rng & r) const
{
  const State & s = st();
  const Files now = crashed ? at_crash : files();
  // which changes of names have reached the disk
  const size_t k = s.durable_ops + r.below(s.ops.size() - s.durable_ops + 1);
  auto names = s.names0;
  for (size_t i = 0; i < k; ++i) {
    if (!s.ops[i].a.empty()) {
      names.erase(s.ops[i].a);
    }
    if (!s.ops[i].b.empty()) {
      names[s.ops[i].b] = s.ops[i].id;
    }
  }
  Files out;
  for (const auto & n : names) {
    std::string cur;
    bool found = false;
    for (const auto & x : s.names) {
      if (x.second == n.second && now.count(x.first)) {
        cur = now.at(x.first);
        found = true;
      }
    }
    if (!found) {
      auto g = s.gone.find(n.second);
      cur = g == s.gone.end() ? "" : g->second;
    }
    auto d = s.durable.find(n.second);
    out[n.first] = torn(d == s.durable.end() ? "" : d->second, cur, r);
  }
  return out;
}

void Disk::restore(const Files & f) const
{
  Inside in;
  for (const auto & x : files()) {
    if (!f.count(x.first)) {
      REAL(unlink)((root + "/" + x.first).c_str());
    }
  }
  for (const auto & x : f) {
    const std::string p = root + "/" + x.first;
    REAL(unlink)(p.c_str());
    const int fd = REAL(open)(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    size_t k = 0;
    while (fd >= 0 && k < x.second.size()) {
      const ssize_t n = REAL(write)(fd, x.second.data() + k, x.second.size() - k);
      if (n <= 0) {
        abort();
      }
      k += static_cast<size_t>(n);
    }
    if (fd < 0 || REAL(close)(fd) != 0) {
      abort();
    }
  }
}

}  // namespace sim

// ---------------------------------------------------------------- the calls
using namespace sim;

#define OPEN_MODE(flags) \
  mode_t mode = 0; \
  if ((flags) & (O_CREAT | O_TMPFILE)) { \
    va_list ap; \
    va_start(ap, flags); \
    mode = static_cast<mode_t>(va_arg(ap, int)); \
    va_end(ap); \
  }

extern "C" {

int open(const char * path, int flags, ...)
{
  OPEN_MODE(flags)
  auto go = [&] {return REAL(open)(path, flags, mode);};
  const std::string rel = on() ? below(path) : "";
  return rel.empty() ? go() : opened(path, rel, flags, go);
}
int open64(const char * path, int flags, ...)
{
  OPEN_MODE(flags)
  auto go = [&] {return REAL(open64)(path, flags, mode);};
  const std::string rel = on() ? below(path) : "";
  return rel.empty() ? go() : opened(path, rel, flags, go);
}
int openat(int dir, const char * path, int flags, ...)
{
  OPEN_MODE(flags)
  auto go = [&] {return REAL(openat)(dir, path, flags, mode);};
  const std::string rel = on() && (dir == AT_FDCWD || path[0] == '/') ? below(path) : "";
  return rel.empty() ? go() : opened(path, rel, flags, go);
}
int creat(const char * path, mode_t mode)
{
  return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode);
}
static FILE * file_opened(const char * path, const char * how, const std::string & rel,
  std::function<FILE *()> go)
{
  const bool plus = strchr(how, '+') != nullptr;
  int flags = how[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) :
    (O_CREAT | (plus ? O_RDWR : O_WRONLY) | (how[0] == 'w' ? O_TRUNC : O_APPEND));
  FILE * f = nullptr;
  opened(path, rel, flags, [&] {
      f = go();
      return f ? fileno(f) : -1;
    });
  return f;
}
FILE * fopen(const char * path, const char * how)
{
  auto go = [&] {return REAL(fopen)(path, how);};
  const std::string rel = on() ? below(path) : "";
  return rel.empty() ? go() : file_opened(path, how, rel, go);
}
FILE * fopen64(const char * path, const char * how)
{
  auto go = [&] {return REAL(fopen64)(path, how);};
  const std::string rel = on() ? below(path) : "";
  return rel.empty() ? go() : file_opened(path, how, rel, go);
}
int fclose(FILE * f)
{
  if (on() && f) {
    st().fds.erase(fileno(f));
  }
  return REAL(fclose)(f);
}
int close(int fd)
{
  OpenFile * o = tracked(fd);
  if (!o) {
    return REAL(close)(fd);
  }
  const bool bad = o->write && fails("close");
  const int e = errno;
  if (o->write) {
    mutation("close");
  }
  st().fds.erase(fd);
  const int rc = REAL(close)(fd);
  if (bad) {
    errno = e;
    return -1;
  }
  return rc;
}
ssize_t read(int fd, void * b, size_t n)
{
  OpenFile * o = tracked(fd);
  bool part = false;
  if (o && !o->dir && fails("read", &part)) {
    return -1;
  }
  return REAL(read)(fd, b, part && n > 1 ? n / 2 : n);
}
static ssize_t written(int fd, OpenFile * o, size_t n, std::function<ssize_t (size_t)> f)
{
  bool part = false;
  if (fails("write", &part)) {
    return -1;
  }
  mutation("write");
  if (disk().crashed) {
    errno = EIO;
    return -1;
  }
  if (disk().quota >= 0 && static_cast<i64>(n) > disk().quota) {
    n = static_cast<size_t>(disk().quota);
    disk().fired.push_back("disk full");
    if (n == 0) {
      errno = ENOSPC;
      return -1;
    }
  }
  if (part && n > 1) {
    n /= 2;
  }
  const ssize_t k = f(n);
  if (k > 0 && disk().quota >= 0) {
    disk().quota -= k;
  }
  if (o->sync) {
    synced(o->id);
  }
  return k;
}
ssize_t write(int fd, const void * b, size_t n)
{
  OpenFile * o = tracked(fd);
  auto go = [&](size_t k) {return REAL(write)(fd, b, k);};
  return o ? written(fd, o, n, go) : go(n);
}
ssize_t pwrite(int fd, const void * b, size_t n, off_t at)
{
  OpenFile * o = tracked(fd);
  auto go = [&](size_t k) {return REAL(pwrite)(fd, b, k, at);};
  return o ? written(fd, o, n, go) : go(n);
}
ssize_t writev(int fd, const struct iovec * v, int n)
{
  OpenFile * o = tracked(fd);
  if (!o) {
    return REAL(writev)(fd, v, n);
  }
  std::string all;
  for (int i = 0; i < n; ++i) {
    all.append(static_cast<const char *>(v[i].iov_base), v[i].iov_len);
  }
  return written(fd, o, all.size(), [&](size_t k) {return REAL(write)(fd, all.data(), k);});
}
static int grown(int fd, i64 size, const char * call, std::function<int ()> go)
{
  if (fails(call)) {
    return errno;
  }
  mutation(call);
  if (disk().crashed) {
    return EIO;
  }
  if (no_space(size - size_of(fd))) {
    return ENOSPC;
  }
  return go();
}
int posix_fallocate(int fd, off_t at, off_t n)
{
  auto go = [&] {return REAL(posix_fallocate)(fd, at, n);};
  return tracked(fd) ? grown(fd, at + n, "fallocate", go) : go();
}
int posix_fallocate64(int fd, off64_t at, off64_t n)
{
  auto go = [&] {return REAL(posix_fallocate64)(fd, at, n);};
  return tracked(fd) ? grown(fd, at + n, "fallocate", go) : go();
}
int ftruncate(int fd, off_t n) noexcept
{
  if (!tracked(fd)) {
    return REAL(ftruncate)(fd, n);
  }
  const int e = grown(fd, n, "ftruncate", [&] {return REAL(ftruncate)(fd, n) == 0 ? 0 : errno;});
  errno = e;
  return e == 0 ? 0 : -1;
}
void * mmap(void * a, size_t n, int prot, int flags, int fd, off_t at) noexcept
{
  OpenFile * o = fd >= 0 ? tracked(fd) : nullptr;
  if (o && fails("mmap")) {
    return MAP_FAILED;
  }
  const bool w = o && (flags & MAP_SHARED) && (prot & PROT_WRITE);
  if (w) {
    mutation("mmap");
    if (disk().crashed) {
      errno = EIO;
      return MAP_FAILED;
    }
  }
  void * p = REAL(mmap)(a, n, prot, flags, fd, at);
  if (o && p != MAP_FAILED) {
    Mapping m;
    m.path = o->path;
    m.id = o->id;
    m.len = n;
    m.write = w;
    if (w) {
      m.before = content(disk().root + "/" + o->path);
    }
    st().maps[p] = m;
  }
  return p;
}
int munmap(void * a, size_t n) noexcept
{
  if (on()) {
    auto it = st().maps.find(a);
    if (it != st().maps.end()) {
      const bool bad = it->second.write && fails("munmap");
      const int e = errno;
      if (it->second.write) {
        mutation("munmap");
      }
      st().maps.erase(a);
      if (bad) {
        REAL(munmap)(a, n);
        errno = e;
        return -1;
      }
    }
  }
  return REAL(munmap)(a, n);
}
int msync(void * a, size_t n, int flags)
{
  if (on()) {
    auto it = st().maps.find(a);
    if (it != st().maps.end() && it->second.write) {
      if (fails("msync")) {
        return -1;
      }
      mutation("msync");
      if (!disk().crashed && (flags & MS_SYNC)) {
        synced(it->second.id);
      }
    }
  }
  return REAL(msync)(a, n, flags);
}
static int flushed(OpenFile * o)
{
  if (fails("fsync")) {
    return -1;
  }
  mutation("fsync");
  if (disk().crashed) {
    errno = EIO;
    return -1;
  }
  if (o->dir) {
    st().durable_ops = st().ops.size();
  } else {
    synced(o->id);
  }
  return 0;
}
int fsync(int fd)
{
  OpenFile * o = tracked(fd);
  return o ? flushed(o) : REAL(fsync)(fd);
}
int fdatasync(int fd)
{
  OpenFile * o = tracked(fd);
  return o ? flushed(o) : REAL(fdatasync)(fd);
}
static void all_synced()
{
  if (on()) {
    mutation("sync");
    if (!disk().crashed) {
      st().durable_ops = st().ops.size();
      for (const auto & n : st().names) {
        synced(n.second);
      }
    }
  }
}
void sync() noexcept
{
  all_synced();
}
int syncfs(int fd) noexcept
{
  (void)fd;
  all_synced();
  return 0;
}
int rename(const char * a, const char * b) noexcept
{
  const std::string x = on() ? below(a) : "", y = on() ? below(b) : "";
  auto go = [&] {return REAL(rename)(a, b);};
  return x.empty() || y.empty() ? go() : renamed(x, y, go);
}
int renameat(int da, const char * a, int db, const char * b) noexcept
{
  const bool here = on() && da == AT_FDCWD && db == AT_FDCWD;
  const std::string x = here ? below(a) : "", y = here ? below(b) : "";
  auto go = [&] {return REAL(renameat)(da, a, db, b);};
  return x.empty() || y.empty() ? go() : renamed(x, y, go);
}
int unlink(const char * a) noexcept
{
  const std::string x = on() ? below(a) : "";
  auto go = [&] {return REAL(unlink)(a);};
  return x.empty() ? go() : removed(x, go);
}
int remove(const char * a) noexcept
{
  const std::string x = on() ? below(a) : "";
  auto go = [&] {return REAL(remove)(a);};
  return x.empty() ? go() : removed(x, go);
}

}  // extern "C"
