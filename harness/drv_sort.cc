// The parallel sort: under the controlled scheduler (VH_SCHED) or free-running.
#include "common.h"
#include <kigumi/threading.h>
#include <deque>
#include <random>
#include <set>
#ifdef VH_SCHED
#include "ctlsched.h"
#define thread vh_thread
#define jthread vh_jthread
#define mutex vh_mutex
#define atomic vh_atomic
#define barrier vh_barrier
#endif
#include <kigumi/parallel_sort.h>
#ifdef VH_SCHED
#undef thread
#undef jthread
#undef mutex
#undef atomic
#undef barrier
#else
namespace vs { inline void point() {} }
#endif
using namespace kigumi;
struct El { int key = 0, id = -1; std::string tag = "none"; };     // the tag notices elements that are lost or duplicated by moves
static int every = 0; static thread_local int calls = 0;
static std::atomic<bool> outside{false};
static void seen(const El& a, const El& b) { if (a.id < 0 || b.id < 0) outside.store(true, std::memory_order_relaxed); if (every && ++calls % every == 0) vs::point(); }
static bool operator<(const El& a, const El& b) { seen(a, b); return a.key < b.key; }
static int kof(const std::string& cmp, const El& e) {
  if (cmp == "less" || cmp == "def") return e.key;
  if (cmp == "greater") return -e.key;
  if (cmp == "mod") return e.key % 7;
  if (cmp == "same") return 0;
  return -e.id;   // total order against the original one
}
static std::string list(const std::vector<int>& v) { std::string s = "["; for (std::size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
template <class C> static std::string once(int n, int t, const std::string& cmp, const std::string& pat, unsigned seed) {
  std::mt19937 rng(seed); C v; std::vector<int> inp, out, ids;
  for (int i = 0; i < 8; ++i) v.push_back(El{});
  for (int i = 0; i < n; ++i) {
    int k = pat == "rand" ? static_cast<int>(rng() % 100000) : pat == "few" ? static_cast<int>(rng() % 5) : pat == "asc" ? i : pat == "desc" ? n - i : pat == "organ" ? std::min(i, n - i) : pat == "last" ? (i == n - 1 ? -1 : i) : (i * 7) % 64;
    v.push_back(El{k, i + 1, "e" + std::to_string(i + 1)}); inp.push_back(kof(cmp, v.back()));
  }
  for (int i = 0; i < 8; ++i) v.push_back(El{});
  outside = false; std::string exc;
  try {
    auto f = v.begin() + 8, l = f + n;
    if (cmp == "def") parallel_sort(f, l);
    else parallel_sort(f, l, [&cmp](const El& a, const El& b) { seen(a, b); return kof(cmp, a) < kof(cmp, b); });
  } catch (...) { exc = "exception"; }
  bool ok = !outside && static_cast<int>(v.size()) == n + 16;
  for (int i = 0; i < 8; ++i) ok = ok && v[i].id == -1 && v[i].tag == "none" && v[8 + n + i].id == -1 && v[8 + n + i].tag == "none";
  for (int i = 0; i < n; ++i) { auto& e = v[8 + i]; out.push_back(kof(cmp, e)); ids.push_back(e.id); ok = ok && e.tag == "e" + std::to_string(e.id); }
  return "{\"ev\":\"sort\",\"n\":" + std::to_string(n) + ",\"t\":" + std::to_string(t) + ",\"exc\":\"" + exc + "\",\"intact\":" + (ok ? "1" : "0") + ",\"inp\":" + list(inp) + ",\"out\":" + list(out) + ",\"ids\":" + list(ids) + "}";
}
int main(int argc, char** argv) {
  if (argc < 3) return 3;
  std::ifstream in(argv[1]); std::ofstream out(argv[2]); std::string line; unsigned long runs = 0, uniq = 0; std::set<std::size_t> had;
  while (std::getline(in, line)) {
    std::istringstream is(line); std::string k; is >> k; if (k.empty()) continue;
    if (k == "emit") { out << line.substr(5) << "\n"; continue; }
    int n, t, bound; std::string cmp, pat, cont, mode; unsigned seed; unsigned long budget;
    is >> n >> t >> cmp >> pat >> cont >> seed >> mode >> budget >> bound;
    Threading_options o; o.set_num_threads(t); Threading_context ctx(o);
    std::string r;
    auto go = [&] { r = cont == "deque" ? once<std::deque<El>>(n, t, cmp, pat, seed) : once<std::vector<El>>(n, t, cmp, pat, seed); };
#ifdef VH_SCHED
    every = mode == "random" ? std::max(1, n / 6) : 0;
    auto& s = vs::S(); s.prefix.clear(); s.bound = bound; s.random = mode == "random"; s.rng.seed(seed);
    s.on_deadlock = [&] { out << "{\"ev\":\"deadlock\"}\n"; out.flush(); };
    for (unsigned long b = 0; b < budget; ++b) {
      vs::run(go); ++runs;
      if (had.insert(std::hash<std::string>{}(r)).second) { out << r << "\n"; ++uniq; }
      if (!s.random && !vs::advance()) break;
    }
#else
    for (unsigned long b = 0; b < budget; ++b) { go(); ++runs; if (had.insert(std::hash<std::string>{}(r)).second) { out << r << "\n"; ++uniq; } }
#endif
    out.flush();
  }
  out << "{\"ev\":\"end\",\"runs\":" << runs << ",\"uniq\":" << uniq << "}\n"; out.flush();
  std::_Exit(0);
}
