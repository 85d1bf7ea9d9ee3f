// Schedule perturbation: the drivers are compiled with -fsanitize-coverage=trace-pc-guard, so that every basic block of the
// code under test may give up the processor (rate from VH_YIELD: one block in so many).  This file itself is not instrumented.
#include <cstdint>
#include <cstdlib>
#include <atomic>
#include <sched.h>
#include <unistd.h>
#define NOINST __attribute__((no_sanitize("coverage", "thread")))
static std::atomic<std::uint32_t> seeds{1};
static std::uint32_t rate = 0;
extern "C" NOINST void __sanitizer_cov_trace_pc_guard_init(std::uint32_t* a, std::uint32_t* b) {
  for (auto* p = a; p < b; ++p) *p = 1;
  const char* e = std::getenv("VH_YIELD");
  rate = e ? std::strtoul(e, nullptr, 10) : 0;
  const char* s = std::getenv("VH_SEED");
  if (s) seeds = std::strtoul(s, nullptr, 10) * 2654435761u | 1;
}
extern "C" NOINST void __sanitizer_cov_trace_pc_guard(std::uint32_t*) {
  if (!rate) return;
  static thread_local std::uint32_t x = 0, left = 0;
  if (!x) { x = seeds.fetch_add(0x9e3779b9u) | 1; left = x % rate + 1; }
  if (--left) return;
  x ^= x << 13; x ^= x >> 17; x ^= x << 5;
  left = x % (2 * rate) + 1;
  if ((x >> 8) % 4 == 0) usleep((x >> 12) % 300); else sched_yield();
}
