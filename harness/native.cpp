// Native replay runtime: runs one harness with the input values of a file.
//   prog HARNESS FILE            replay: exit 0 = no violation, 1 = violation reproduced, 3 = an assumption
//                                is false, 4 = inputs do not fit the harness
//   prog HARNESS FILE ITER SEED  search: keeps the case-split values (fork) of FILE and draws the rest
//                                at random; used only to concretise a solver counterexample found
//                                under uninterpreted functions
#ifndef VP_NATIVE
#define VP_NATIVE
#endif
#include "vp.h"
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <string>
#include <vector>
#include <unistd.h>

namespace {
struct In { std::string name; unsigned size; bool fork; std::vector<uint64_t> v; };
std::vector<In> in; size_t pos; bool fuzz; std::mt19937_64 rng;
std::vector<In> used;
volatile bool expectTrap; sigjmp_buf jb;
struct Blk { unsigned char* raw; size_t total, start, n; std::string name; };
std::vector<Blk> blks;
std::map<std::string, void (*)()>& table() { static std::map<std::string, void (*)()> t; return t; }
void dump() {
  for (auto& i : used) { fprintf(stderr, "INPUT %s %u %d", i.name.c_str(), i.size, i.fork); for (auto x : i.v) fprintf(stderr, " %llx", (unsigned long long)x); fprintf(stderr, "\n"); }
}
[[noreturn]] void fail(const char* what) { fprintf(stderr, "REPRODUCED: %s\n", what); if (fuzz) dump(); fflush(stderr); _exit(1); }
[[noreturn]] void misfit(const char* w) { fprintf(stderr, "MISFIT: %s\n", w); _exit(4); }
uint64_t rnd(unsigned size) {
  uint64_t m = size >= 8 ? ~0ull : (1ull << (8 * size)) - 1;
  switch (rng() % 8) {
    case 0: return rng() & m;
    case 1: return (rng() % 16) & m;
    case 2: return (0 - rng() % 16) & m;
    case 3: if (size == 4) { float f = float(int(rng() % 41) - 20); uint32_t u; memcpy(&u, &f, 4); return u; } if (size == 8) { double f = int(rng() % 41) - 20; uint64_t u; memcpy(&u, &f, 8); return u; } return rng() & m;
    case 4: if (size == 4) { float f = float(int(rng() % 4001) - 2000) / 16; uint32_t u; memcpy(&u, &f, 4); return u; } if (size == 8) { double f = (int(rng() % 4001) - 2000) / 16.; uint64_t u; memcpy(&u, &f, 8); return u; } return rng() & m;
    case 5: { static const float t[] = {0.f, -0.f, 1.f, -1.f, .5f, -.5f, 1.5f, 2.5f, -2.5f, __builtin_inff(), -__builtin_inff(), __builtin_nanf(""), 1e-40f, 3.4028235e38f, 0.7f}; float f = t[rng() % 15]; if (size == 4) { uint32_t u; memcpy(&u, &f, 4); return u; } if (size == 8) { double d = f; uint64_t u; memcpy(&u, &d, 8); return u; } return rng() & m; }
    case 6: return (m >> 1) + rng() % 3;
    default: return rng() & m & 0x7f7f7f7f7f7f7f7full;
  }
}
void checkBlocks() {
  for (auto& b : blks) {
    for (size_t i = 0; i < b.start; ++i) if (b.raw[i] != 0xA5) fail(("bytes before buffer " + b.name + " were overwritten").c_str());
    for (size_t i = b.start + b.n; i < b.total; ++i) if (b.raw[i] != 0xA5) fail(("bytes after buffer " + b.name + " were overwritten").c_str());
  }
}
void handler(int sig) {
  if (expectTrap) { if (fuzz) siglongjmp(jb, 1); _exit(0); }
  static char m[64]; snprintf(m, 64, "signal %d", sig); fail(m);
}
}
namespace vp { Reg::Reg(const char* n, void (*f)()) { table()[n] = f; } }
extern "C" {
void vp_sym(void* p, unsigned es, unsigned n, const char* name) {
  In* r = nullptr; In tmp;
  if (!fuzz) { if (pos >= in.size()) misfit("more inputs read than recorded"); r = &in[pos]; if (r->fork || r->size != es || r->v.size() != n) misfit(name); }
  else { tmp = In{name, es, false, {}}; bool useOrig = pos < in.size() && !in[pos].fork && in[pos].size == es && in[pos].v.size() == n;
    int mode = rng() % 3; for (unsigned i = 0; i < n; ++i) tmp.v.push_back(useOrig && mode == 0 && rng() % 2 ? in[pos].v[i] : rnd(es)); r = &tmp; }
  ++pos;
  for (unsigned i = 0; i < n; ++i) memcpy((char*)p + size_t(i) * es, &r->v[i], es);
  if (fuzz) used.push_back(*r);
}
void vp_symbool(void* p, unsigned n, const char* name) {
  unsigned char* c = (unsigned char*)p;
  if (fuzz) { In t{name, 1, false, {}}; unsigned k = rng() % 3; for (unsigned i = 0; i < n; ++i) { c[i] = k == 0 ? rng() & 1 : k == 1 ? rng() % 4 == 0 : rng() % 4 != 0; t.v.push_back(c[i]); } ++pos; used.push_back(t); return; }
  if (pos >= in.size()) misfit("more inputs read than recorded");
  In& r = in[pos++]; if (r.fork || r.v.size() != n) misfit(name);
  for (unsigned i = 0; i < n; ++i) c[i] = r.v[i] & 1;
}
void vp_opaque(void*) {}
unsigned vp_fork(unsigned lo, unsigned hi, const char* name) {
  if (pos >= in.size() || !in[pos].fork) misfit(name);
  if (fuzz) used.push_back(in[pos]);
  unsigned v = in[pos++].v[0]; if (v < lo || v > hi) misfit(name); return v;
}
void vp_assume(bool c) { if (!c) { if (fuzz) siglongjmp(jb, 1); fprintf(stderr, "ASSUMPTION FALSE\n"); _exit(3); } }
void vp_assert(bool c, const char* l) { if (!c) fail(l); }
void vp_expect_trap() { expectTrap = true; }
void* vp_alloc(size_t n, size_t align, size_t off, const char* name) {
  size_t a = align < 1 ? 1 : align; size_t pad = 2 * a > 64 ? 2 * a : 64;
#if defined(__SANITIZE_ADDRESS__) || defined(VP_ASAN)
  // exact end of the heap block: the sanitizer sees overruns; underruns are seen below `off`
  unsigned char* raw = (unsigned char*)aligned_alloc(2 * a, (a + off + n + 2 * a - 1) / (2 * a) * (2 * a));
  free(raw);
  void* pm = nullptr; if (posix_memalign(&pm, 2 * a < 8 ? 8 : 2 * a, a + off + n)) misfit("alloc");
  return (char*)pm + a + off;
#else
  unsigned char* raw = (unsigned char*)malloc(n + off + 6 * pad);
  size_t total = n + off + 6 * pad;
  memset(raw, 0xA5, total);
  uintptr_t b = ((uintptr_t)raw + pad + 2 * a - 1) / (2 * a) * (2 * a) + a + off;
  blks.push_back({raw, total, size_t(b - (uintptr_t)raw), n, name});
  return (void*)b;
#endif
}
}
int main(int argc, char** argv) {
  if (argc < 3) { for (auto& [n, f] : table()) puts(n.c_str()); return 4; }
  auto it = table().find(argv[1]); if (it == table().end()) misfit("no such harness");
  FILE* f = fopen(argv[2], "r"); if (!f) misfit("file");
  char* line = nullptr; size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {
    if (line[0] == '#') continue;
    In r; char* sv; char* t = strtok_r(line, " \n", &sv); if (!t) continue; r.name = t;
    r.size = atoi(strtok_r(nullptr, " \n", &sv)); r.fork = atoi(strtok_r(nullptr, " \n", &sv));
    while ((t = strtok_r(nullptr, " \n", &sv))) r.v.push_back(strtoull(t, nullptr, 16));
    in.push_back(r);
  }
  fclose(f);
  for (int s : {SIGILL, SIGTRAP, SIGABRT, SIGFPE
#if !defined(__SANITIZE_ADDRESS__) && !defined(VP_ASAN)
      , SIGSEGV, SIGBUS
#endif
      }) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = handler; sa.sa_flags = SA_NODEFER; sigaction(s, &sa, nullptr); }
  if (argc >= 5) {
    fuzz = true; long iters = atol(argv[3]); rng.seed(atol(argv[4]));
    for (long k = 0; k < iters; ++k) {
      pos = 0; used.clear(); expectTrap = false;
      if (!sigsetjmp(jb, 1)) { it->second(); if (expectTrap) fail("no trap although a precondition is violated"); checkBlocks(); }
      for (auto& b : blks) free(b.raw); blks.clear();
    }
    return 0;
  }
  it->second();
  if (expectTrap) fail("no trap although a precondition is violated");
  checkBlocks();
  return 0;
}
