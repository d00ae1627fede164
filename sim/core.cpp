#include "core.h"

#include "geometrycentral/utilities/utilities.h"

#include <cstdarg>
#include <ctime>
#include <new>

namespace sim {

std::vector<Scenario>& scenarios() {
  static std::vector<Scenario> s;
  return s;
}

void Ctx::note(const char* fmt, ...) {
  if (!verbose) return;
  seam::AllocQuiet q;
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  log.push_back(buf);
  printf("    %s\n", buf);
  fflush(stdout);
}

void violate(const char* clause, const char* fmt, ...) {
  seam::AllocQuiet q;
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  throw Violation{clause, buf};
}

void seedLibraryRandomness(u64 seed) {
  geometrycentral::util_mersenne_twister.seed((unsigned)mix64(seed));
}

namespace seam {
namespace {
i64 g_armed = -1;
bool g_persist = false;
bool g_delivered = false;
int g_quiet = 0;
u64 g_count = 0;
i64 g_live = 0;
bool shouldFail() {
  if (g_quiet) return false;
  g_count++;
  if (g_armed < 0) return false;
  if (g_armed == 0) {
    g_delivered = true;
    if (!g_persist) g_armed = -1;
    return true;
  }
  g_armed--;
  return false;
}
u64 g_clk = 0, g_clkCalls = 0, g_clkSeed = 0;
int g_clkMode = 0;
} // namespace
void allocReset() {
  g_armed = -1;
  g_delivered = false;
  g_count = 0;
}
void allocArm(i64 n, bool persistent) {
  g_armed = n;
  g_persist = persistent;
  g_delivered = false;
}
bool allocDisarm() {
  g_armed = -1;
  return g_delivered;
}
u64 allocCount() { return g_count; }
i64 allocLive() { return g_live; }
AllocQuiet::AllocQuiet() { g_quiet++; }
AllocQuiet::~AllocQuiet() { g_quiet--; }
void clockReset(u64 seed, int mode) {
  g_clk = 0;
  g_clkCalls = 0;
  g_clkSeed = seed;
  g_clkMode = mode;
}
u64 clockCalls() { return g_clkCalls; }
clock_t simClock() {
  g_clkCalls++;
  u64 r = mix64(g_clkSeed + g_clkCalls);
  switch (g_clkMode) {
  case 0: g_clk += 1000; break;
  case 1: g_clk += (r % 7 == 0) ? 3600ull * CLOCKS_PER_SEC : 1000; break;
  case 2: break;
  case 3: g_clk = (r % 3 == 0) ? g_clk / 2 : g_clk + 1000; break;
  }
  return (clock_t)g_clk;
}
} // namespace seam
} // namespace sim

extern "C" {
void* __real_malloc(size_t);
void* __real_realloc(void*, size_t);
void* __real_calloc(size_t, size_t);
void __real_free(void*);
void* __wrap_malloc(size_t n) {
  if (sim::seam::shouldFail()) return nullptr;
  return __real_malloc(n);
}
void* __wrap_realloc(void* p, size_t n) {
  if (sim::seam::shouldFail()) return nullptr;
  return __real_realloc(p, n);
}
void* __wrap_calloc(size_t a, size_t b) {
  if (sim::seam::shouldFail()) return nullptr;
  return __real_calloc(a, b);
}
void __wrap_free(void* p) { __real_free(p); }
clock_t __wrap_clock() { return sim::seam::simClock(); }
}

static void* simNew(size_t n) {
  if (sim::seam::shouldFail()) throw std::bad_alloc();
  void* p = __real_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  sim::seam::g_live++;
  return p;
}
static void simDelete(void* p) noexcept {
  if (p) {
    sim::seam::g_live--;
    __real_free(p);
  }
}
void* operator new(size_t n) { return simNew(n); }
void* operator new[](size_t n) { return simNew(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept {
  try { return simNew(n); } catch (...) { return nullptr; }
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
  try { return simNew(n); } catch (...) { return nullptr; }
}
void operator delete(void* p) noexcept { simDelete(p); }
void operator delete[](void* p) noexcept { simDelete(p); }
void operator delete(void* p, size_t) noexcept { simDelete(p); }
void operator delete[](void* p, size_t) noexcept { simDelete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { simDelete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { simDelete(p); }
