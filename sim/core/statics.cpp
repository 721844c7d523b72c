#include "core/statics.hpp"

#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>
#include <fstream>
#include <set>
#include <string>

namespace sim
{
namespace
{
struct Var
{
  unsigned char * at;
  size_t size;
};
std::vector<Var> g_vars;
std::vector<unsigned char> g_pristine;

uintptr_t load_base()
{
  uintptr_t base = 0;
  dl_iterate_phdr(
    [](struct dl_phdr_info * i, size_t, void * d) {
      *static_cast<uintptr_t *>(d) = i->dlpi_addr;   // the first is the executable
      return 1;
    }, &base);
  return base;
}

// A variable that owns memory from the start cannot be put back by its bytes alone.
bool owns_memory(const Var & v)
{
  const uintptr_t end = reinterpret_cast<uintptr_t>(sbrk(0));
  static const uintptr_t begin = end - 256 * 1024 * 1024;
  for (size_t i = 0; i + sizeof(uintptr_t) <= v.size; i += sizeof(uintptr_t)) {
    uintptr_t p;
    memcpy(&p, v.at + i, sizeof(p));
    const uintptr_t self = reinterpret_cast<uintptr_t>(v.at);
    if (p >= self && p < self + v.size) {
      continue;     // a pointer to itself, as empty containers have
    }
    if (p > begin && p < end && p >= reinterpret_cast<uintptr_t>(&g_vars)) {
      return true;
    }
  }
  return false;
}
}  // namespace

void statics_init()
{
  char exe[4096];
  const ssize_t n = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
  if (n <= 0) {
    return;
  }
  const std::string path(exe, static_cast<size_t>(n));
  std::set<std::string> names;
  {
    std::ifstream in(path + ".statics");
    std::string s;
    while (std::getline(in, s)) {
      names.insert(s);
    }
  }
  if (names.empty()) {
    return;
  }
  const int fd = open(path.c_str(), O_RDONLY);
  struct stat st;
  if (fd < 0 || fstat(fd, &st) != 0) {
    return;
  }
  auto * m = static_cast<unsigned char *>(
    mmap(nullptr, static_cast<size_t>(st.st_size), PROT_READ, MAP_PRIVATE, fd, 0));
  close(fd);
  if (m == MAP_FAILED) {
    return;
  }
  const auto * eh = reinterpret_cast<const Elf64_Ehdr *>(m);
  const auto * sh = reinterpret_cast<const Elf64_Shdr *>(m + eh->e_shoff);
  const char * shnames = reinterpret_cast<const char *>(m + sh[eh->e_shstrndx].sh_offset);
  const uintptr_t base = load_base();
  for (int i = 0; i < eh->e_shnum; ++i) {
    if (sh[i].sh_type != SHT_SYMTAB) {
      continue;
    }
    const auto * sym = reinterpret_cast<const Elf64_Sym *>(m + sh[i].sh_offset);
    const char * str = reinterpret_cast<const char *>(m + sh[sh[i].sh_link].sh_offset);
    for (size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); ++k) {
      if (ELF64_ST_TYPE(sym[k].st_info) != STT_OBJECT || sym[k].st_size == 0 ||
        sym[k].st_shndx == SHN_UNDEF || sym[k].st_shndx >= eh->e_shnum ||
        names.count(str + sym[k].st_name) == 0)
      {
        continue;
      }
      const std::string section = shnames + sh[sym[k].st_shndx].sh_name;
      if (section != ".data" && section != ".bss") {
        continue;
      }
      const Var v{reinterpret_cast<unsigned char *>(base + sym[k].st_value), sym[k].st_size};
      if (!owns_memory(v)) {
        g_vars.push_back(v);
      }
    }
  }
  munmap(m, static_cast<size_t>(st.st_size));
  g_pristine = statics_save();
}

std::vector<unsigned char> statics_save()
{
  std::vector<unsigned char> r;
  for (const auto & v : g_vars) {
    r.insert(r.end(), v.at, v.at + v.size);
  }
  return r;
}

void statics_restore(const std::vector<unsigned char> & image)
{
  size_t at = 0;
  for (const auto & v : g_vars) {
    if (at + v.size > image.size()) {
      return;
    }
    memcpy(v.at, image.data() + at, v.size);
    at += v.size;
  }
}

void statics_reset() {statics_restore(g_pristine);}

__attribute__((noinline)) void scrub_stack()
{
  volatile unsigned char a[256 * 1024];
  for (size_t i = 0; i < sizeof(a); ++i) {
    a[i] = 0x5a;
  }
}
}  // namespace sim
