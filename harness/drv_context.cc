// Scoped options: threads run in lock-step, every scope is a real block of its thread.
#include "common.h"
#include <kigumi/Context.h>
#include <kigumi/Null_data.h>
#include <kigumi/Triangle_soup.h>
#include <kigumi/io/obj.h>
#include <kigumi/parallel_do.h>
#include <kigumi/threading.h>
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
using namespace kigumi;
static unsigned hw_value() { const char* s = std::getenv("VH_HW"); return s ? static_cast<unsigned>(std::strtoul(s, nullptr, 10)) : 4; }
unsigned std::thread::hardware_concurrency() noexcept { static const unsigned n = hw_value(); return n; }

struct Custom {          // not trivially copyable; 0 by default
  std::vector<std::string> v;
  long value() const { long n = 0; for (auto& s : v) n += static_cast<long>(s.size() > 20); return n; }
  void set(long n) { v.assign(static_cast<std::size_t>(n), std::string(40, 'x')); }
};
using Obj_context = Context<io::Write_obj_options>;
using Custom_context = Context<Custom>;
static long small(std::size_t n) { return n > 2000000000 ? 2000000000 : static_cast<long>(n); }
static std::size_t request(long v) {
  switch (v) { case 2000000000: return static_cast<std::size_t>(-1); case 2000000001: return std::size_t{1} << 32; case 2000000002: return (std::size_t{1} << 32) + 1; case 2000000003: return std::size_t{1} << 31; case 2000000004: return std::size_t{1} << 63; default: return static_cast<std::size_t>(v); }
}
static long written() {   // the form in which an OBJ file is written now: 0 counts from one, 1 counts backwards
  Triangle_soup<vh::K> s; std::array<Vertex_index, 3> f;
  for (int i = 0; i < 3; ++i) f[static_cast<std::size_t>(i)] = s.add_vertex(vh::Point(i == 1, i == 2, 0));
  s.add_face({f[0], f[1], f[2]});
  std::ostringstream o; if (!io::write_obj(o, s)) return 9;
  auto t = o.str(); return t.find("f 1 2 3\n") != std::string::npos ? 0 : t.find("f -3 -2 -1\n") != std::string::npos ? 1 : 8;
}
static std::string see(int t) {
  long w = written(); if ((w == 1) != Obj_context::current().negative_indices()) w = 7;
  return "{\"t\":" + std::to_string(t) + ",\"T\":" + std::to_string(small(Threading_context::current().num_threads())) + ",\"W\":" + std::to_string(w) + ",\"C\":" + std::to_string(Custom_context::current().value()) + "}";
}

struct Command { std::string op, o, kind; long v = 0, n = 0, k = 0; };
struct Unwind { long n; };
struct Worker {
  int t = 0; std::thread th; std::mutex m; std::condition_variable cv; Command cmd; std::string reply; bool has = false, done = false, main = false;
  std::string ask(const Command& c) { std::unique_lock l{m}; cmd = c; has = true; done = false; cv.notify_all(); cv.wait(l, [&] { return done; }); return reply; }
  Command take() { std::unique_lock l{m}; cv.wait(l, [&] { return has; }); has = false; return cmd; }
  void answer(std::string r) { std::lock_guard l{m}; reply = std::move(r); done = true; cv.notify_all(); }
};
static std::string numbers(const std::vector<long>& v) { std::string o = "["; const char* c = ""; for (auto x : v) { o += c + std::to_string(x); c = ","; } return o + "]"; }
static std::string loop(const Command& c) {
  std::vector<int> items(static_cast<std::size_t>(c.k)); std::mutex m; std::set<std::thread::id> ids; std::vector<long> other, own, set; long n = 0; bool caught = false;
  auto me = std::this_thread::get_id();
  auto body = [&](int&) {
    { std::lock_guard l{m}; ids.insert(std::this_thread::get_id()); ++n; (std::this_thread::get_id() == me ? own : other).push_back(small(Threading_context::current().num_threads())); }
    if (c.kind == "throw" && n > 0) { Threading_options o; o.set_num_threads(1); Threading_context x(o); throw std::runtime_error("x"); }
    if (c.kind == "scope") { Threading_options o; o.set_num_threads(request(c.v)); Threading_context x(o); std::this_thread::yield(); std::lock_guard l{m}; set.push_back(small(Threading_context::current().num_threads())); }
  };
  try {
    if (c.v == 2) { struct None {}; parallel_do(items.begin(), items.end(), None{}, [&](int& x, None&) { body(x); }, [](None&) {}); }
    else parallel_do(items.begin(), items.end(), body);
  } catch (const std::runtime_error&) { caught = true; }
  return ",\"threads\":" + std::to_string(ids.size()) + ",\"items\":" + std::to_string(n) + ",\"caught\":" + (caught ? "true" : "false") + ",\"other\":" + numbers(other) + ",\"own\":" + numbers(own) + ",\"set\":" + numbers(set);
}
// Runs commands until the scope that called it ends. Returns normally on pop and exit.
static void serve(Worker& w, int depth);
template <class C, class O> static void scoped(Worker& w, O& options, const std::function<void(O&)>& spoil, int depth, bool heap) {
  try {
    if (heap) { auto c = std::make_unique<C>(options); spoil(options); w.answer(""); serve(w, depth + 1); }
    else { C c{options}; spoil(options); w.answer(""); serve(w, depth + 1); }
  } catch (Unwind& u) { if (--u.n > 0) throw; }
  w.answer("");
}
static void serve(Worker& w, int depth) {
  while (true) {
    auto c = w.take();
    if (c.op == "see") w.answer(see(w.t));
    else if (c.op == "par") w.answer(loop(c));
    else if (c.op == "pop" || c.op == "exit") return;
    else if (c.op == "throw") throw Unwind{c.n};
    else if (c.op == "push") {
      bool heap = c.n % 3 == 0;
      if (c.o == "T") { Threading_options o; o.set_num_threads(1); o.set_num_threads(request(c.v)); scoped<Threading_context, Threading_options>(w, o, [](auto& x) { x.set_num_threads(3); }, depth, heap); }
      else if (c.o == "W") { io::Write_obj_options o; o.set_negative_indices(c.v == 1); scoped<Obj_context, io::Write_obj_options>(w, o, [](auto& x) { x.set_negative_indices(!x.negative_indices()); }, depth, heap); }
      else { Custom o; o.set(c.v); scoped<Custom_context, Custom>(w, o, [](auto& x) { x.set(x.value() + 5); }, depth, heap); }
    }
  }
}
static std::map<int, std::unique_ptr<Worker>> workers;
static void start(int t) {
  auto& w = workers[t]; w = std::make_unique<Worker>(); w->t = t;
  w->th = std::thread([p = w.get()] { serve(*p, 0); p->answer(""); });
}
static void stop(int t) { workers[t]->ask({"exit", "", "", 0, 0, 0}); workers[t]->th.join(); workers.erase(t); }
int main(int argc, char** argv) {
  if (argc < 3) return 3;
  std::ifstream in(argv[1]); std::ofstream o(argv[2]); std::string line; long n = 0;
  std::map<int, int> depth;
  while (std::getline(in, line)) {
    std::istringstream is(line); Command c; int t = 0; is >> c.op; if (c.op.empty()) continue;
    if (c.op == "emit") {                                  // a new world: threads start over
      for (auto& [i, d] : depth) if (workers.count(i)) { if (d) { workers[i]->ask({"throw", "", "", 0, d, 0}); d = 0; } }
      while (!workers.empty()) stop(workers.begin()->first);
      depth.clear(); start(1); o << line.substr(5) << "\n"; o.flush(); continue;
    }
    is >> t; std::string extra, head;
    if (c.op == "push") { is >> c.o >> c.v; c.n = ++n; head = ",\"o\":\"" + c.o + "\",\"v\":" + std::to_string(c.v); depth[t]++; }
    else if (c.op == "throw") { is >> c.n; head = ",\"n\":" + std::to_string(c.n); depth[t] -= static_cast<int>(c.n); }
    else if (c.op == "par") { is >> c.k >> c.v >> c.kind; head = ",\"k\":" + std::to_string(c.k) + ",\"v\":" + std::to_string(c.v) + ",\"kind\":\"" + c.kind + "\""; }
    else if (c.op == "pop") depth[t]--;
    if (c.op == "start") start(t);
    else if (c.op == "exit") stop(t);
    else if (!workers.count(t)) { std::cerr << "driver: no thread\n"; return 3; }
    else extra = workers[t]->ask(c);
    o << "{\"ev\":\"" << c.op << "\",\"t\":" << t << head << extra << ",\"see\":["; const char* s = "";
    for (auto& [i, w] : workers) { o << s << w->ask({"see", "", "", 0, 0, 0}); s = ","; }
    o << "]}\n"; o.flush();
  }
  o << "{\"ev\":\"end\"}\n"; o.flush();
  std::_Exit(0);
}
