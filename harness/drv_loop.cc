// The parallel loop: under the controlled scheduler (VH_SCHED) or free-running with plain, race-detectable bookkeeping.
#include "common.h"
#include <kigumi/threading.h>
#include <array>
#include <set>
#include <stdexcept>
#ifdef VH_SCHED
#include "ctlsched.h"
#define thread vh_thread
#define jthread vh_jthread
#define mutex vh_mutex
#define atomic vh_atomic
#define barrier vh_barrier
#endif
#include <kigumi/parallel_do.h>
#ifdef VH_SCHED
#undef thread
#undef jthread
#undef mutex
#undef atomic
#undef barrier
#else
#include <mutex>
#include <thread>
namespace vs { inline void point() {} }
#endif
using namespace kigumi;
struct Boom { int i; };
static std::vector<std::string>* logv;
static std::mutex logm;
static bool quiet = false;   // free-running: no logging while the loop runs (it would order the threads)
static void log(const std::string& s) { if (quiet) return; std::lock_guard l{logm}; logv->push_back(s); }
static std::atomic<int> ids{0};
struct St {    // copies get a new identity
  int id; int init = 77; std::vector<int> seen;
  St() : id(++ids) {}
  St(const St& o) : id(++ids), init(o.init), seen(o.seen) {}
  St(St&& o) noexcept : id(o.id ? o.id : ++ids), init(o.init), seen(std::move(o.seen)) {}
};
static std::string list(const std::vector<int>& v) { std::string s = "["; for (std::size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
struct Conf { int n, t, st; std::set<int> thr; };
static std::string ev(const char* k, int i, int s) { return std::string("{\"ev\":\"") + k + "\",\"i\":" + std::to_string(i) + ",\"s\":" + std::to_string(s); }
static int call(const Conf& c, std::vector<int>* hits = nullptr, std::vector<int>* merged = nullptr) {
  std::vector<int> r; for (int i = 1; i <= c.n; ++i) r.push_back(i);
  std::string thr = "["; for (int x : c.thr) thr += (thr.size() > 1 ? "," : "") + std::to_string(x);
  log("{\"ev\":\"call\",\"n\":" + std::to_string(c.n) + ",\"t\":" + std::to_string(c.t) + ",\"st\":" + (c.st ? "1" : "0") + ",\"thr\":" + thr + "]}");
  ids = 0; int got = 0, posts = 0;
  auto body0 = [&](int i, int s) {
    vs::point();
    if (hits) ++(*hits)[i - 1];
    if (c.thr.count(i)) { log(ev("x", i, s) + "}"); throw Boom{i}; }
    log(ev("e", i, s) + "}");
  };
  try {
    if (c.st) {
      parallel_do(r.begin(), r.end(), St{}, [&](int i, St& s) {
        log(ev("b", i, s.id) + ",\"own\":" + list(s.seen) + ",\"init\":" + std::to_string(s.init) + "}");
        s.seen.push_back(i); body0(i, s.id);
      }, [&](St& s) {
        log(ev("p", 0, s.id) + ",\"own\":" + list(s.seen) + ",\"init\":" + std::to_string(s.init) + "}");
        vs::point();
        if (merged) merged->insert(merged->end(), s.seen.begin(), s.seen.end());
        if (++posts == 1 && c.thr.count(100)) { log(ev("y", 0, s.id) + "}"); throw Boom{100}; }
        log(ev("q", 0, s.id) + "}");
      });
    } else {
      parallel_do(r.begin(), r.end(), [&](int i) { log(ev("b", i, 0) + ",\"own\":[],\"init\":77}"); body0(i, 0); });
    }
  } catch (const Boom& b) { got = b.i; } catch (...) { got = -1; }
  log("{\"ev\":\"r\",\"exc\":" + std::to_string(got) + "}");
  return got;
}
int main(int argc, char** argv) {
  if (argc < 3) return 3;
  std::ifstream in(argv[1]); std::ofstream out(argv[2]);
  std::string line; std::set<std::string> seen; unsigned long runs = 0, uniq = 0;
  while (std::getline(in, line)) {
    std::istringstream is(line); std::string k; is >> k; if (k.empty()) continue;
    if (k == "emit") { out << line.substr(5) << "\n"; continue; }
    // cfg n t st nthr thr.. mode budget bound seed
    Conf c; int nt, bound; std::string mode; unsigned long budget; unsigned seed; is >> c.n >> c.t >> c.st >> nt;
    for (int i = 0; i < nt; ++i) { int x; is >> x; c.thr.insert(x); }
    is >> mode >> budget >> bound >> seed;
    Threading_options o; o.set_num_threads(c.t); Threading_context ctx(o);
    c.t = std::max(1, std::min<int>(c.t, std::max(1U, std::thread::hardware_concurrency())));
#ifdef VH_SCHED
    auto& s = vs::S(); s.prefix.clear(); s.bound = bound; s.random = mode == "random"; s.rng.seed(seed);
    for (unsigned long b = 0; b < budget; ++b) {
      std::vector<std::string> L; logv = &L;
      s.on_deadlock = [&] { for (auto& x : L) out << x << "\n"; out << "{\"ev\":\"deadlock\"}\n"; out.flush(); };
      vs::run([&] { call(c); });
      ++runs; std::string all; for (auto& x : L) all += x + "\n";
      if (seen.insert(all).second) { out << all; ++uniq; }
      if (!s.random && !vs::advance()) break;
    }
#else
    for (unsigned long b = 0; b < budget; ++b) {
      std::vector<std::string> L; logv = &L;
      if (mode == "free") { call(c); for (auto& x : L) out << x << "\n"; ++runs; ++uniq; continue; }
      if (mode == "bulk") {   // large ranges: counts only
        std::vector<std::atomic<int>> hits(c.n); std::atomic<int> now{0}, most{0}, inpost{0}, posts2{0}; std::vector<int> merged, r(c.n); int got = 0;
        for (int i = 0; i < c.n; ++i) r[i] = i + 1;
        auto one = [&](int i) {
          int k = ++now; for (int m = most; k > m && !most.compare_exchange_weak(m, k);) {}
          ++hits[i - 1]; bool boom = c.thr.count(i); --now; if (boom) throw Boom{i};
        };
        try {
          if (c.st) parallel_do(r.begin(), r.end(), std::vector<int>{}, [&](int i, auto& l) { l.push_back(i); one(i); }, [&](auto& l) { if (++inpost > 1) ++posts2; merged.insert(merged.end(), l.begin(), l.end()); --inpost; });
          else parallel_do(r.begin(), r.end(), [&](int i) { one(i); });
        } catch (const Boom& x) { got = x.i; } catch (...) { got = -1; }
        long z = 0, w = 0; for (auto& h : hits) { z += h == 0; w += h == 1; }
        bool sub = true; std::set<int> dm(merged.begin(), merged.end()); for (int i : merged) sub = sub && i >= 1 && i <= c.n && hits[i - 1] == 1;
        out << "{\"ev\":\"bulk\",\"n\":" << c.n << ",\"t\":" << c.t << ",\"st\":" << c.st << ",\"thr\":" << list({c.thr.begin(), c.thr.end()}) << ",\"exc\":" << got << ",\"zero\":" << z << ",\"one\":" << w
            << ",\"mlen\":" << merged.size() << ",\"mdist\":" << dm.size() << ",\"sub\":" << sub << ",\"conc\":" << most << ",\"over\":" << posts2 << ",\"hit\":" << (got > 0 && got <= c.n ? hits[got - 1].load() : 0) << "}\n";
        ++runs; ++uniq; continue;
      }
      // mode sum: plain bookkeeping only, visible to the race detector
      quiet = true; std::vector<int> hits(c.n), merged; int got = call(c, &hits, &merged); quiet = false; ++runs; ++uniq;
      out << "{\"ev\":\"sum\",\"n\":" << c.n << ",\"st\":" << c.st << ",\"thr\":" << list({c.thr.begin(), c.thr.end()}) << ",\"exc\":" << got << ",\"hits\":" << list(hits) << ",\"merged\":" << list(merged) << "}\n";
    }
#endif
    out.flush();
  }
  out << "{\"ev\":\"end\",\"runs\":" << runs << ",\"uniq\":" << uniq << "}\n"; out.flush();
  std::_Exit(0);
}
