// Executes histories of face collections (values with a cached spatial index) and records them.
#include "common.h"
#include <kigumi/Find_possibly_intersecting_faces.h>
#include <kigumi/Triangle_soup.h>
#include <kigumi/threading.h>

#include <atomic>
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <thread>
using namespace kigumi;
using vh::K; using vh::FT;
using Soup = Triangle_soup<K, int>;
using V3 = std::array<long, 3>;
static std::map<int, std::unique_ptr<Soup>> S;
static long unit = 1;
static bool snap = true;
static std::ostream* out;
static std::unique_ptr<Threading_context> ctx;
static std::size_t nthreads = 1;

// The library sees axis k of an integer point as x * sc[k] / unit + of[k]; boxes and rays keep their relations.
static bool plain = true; static FT sc[3], of[3];
static FT ax(int k, long x) {
  FT f(static_cast<double>(x)); if (unit != 1) f = f / FT(static_cast<double>(unit));
  if (!plain) { f = f * sc[k] + of[k]; if (x & 1) f.exact(); }
  return f;
}
static FT un(int k, const FT& x) { auto f = plain ? x : FT((x - of[k]) / sc[k]); return f * FT(static_cast<double>(unit)); }
static K::Point_3 pt(const V3& a) { return K::Point_3(ax(0, a[0]), ax(1, a[1]), ax(2, a[2])); }
static CGAL::Bbox_3 box(const V3& l, const V3& h) {
  if (plain) { double u = static_cast<double>(unit); return {l[0] / u, l[1] / u, l[2] / u, h[0] / u, h[1] / u, h[2] / u}; }
  double b[6]; for (int k = 0; k < 3; ++k) { b[k] = CGAL::to_interval(ax(k, l[k])).first; b[k + 3] = CGAL::to_interval(ax(k, h[k])).second; }
  return {b[0], b[1], b[2], b[3], b[4], b[5]};
}
static std::string js(const V3& a) { std::ostringstream o; o << "[" << a[0] << "," << a[1] << "," << a[2] << "]"; return o.str(); }
static V3 rd(std::istream& in) { V3 a; in >> a[0] >> a[1] >> a[2]; return a; }
static std::string num(int k, const FT& p) {   // scaled value; a marker no value of the specification equals if not an integer
  FT x = un(k, p); x.exact(); double d = CGAL::to_double(x);
  std::ostringstream o;
  if (FT(d) == x && d == static_cast<long>(d) && std::abs(d) < 1e9) o << static_cast<long>(d); else o << 999999999;
  return o.str();
}
static std::string content(const Soup& s) {
  std::ostringstream o; const char* c = "[";
  if (s.num_vertices() == 0) o << "["; 
  for (auto vi : s.vertices()) { const auto& p = s.point(vi); o << c << "[" << num(0, p.x()) << "," << num(1, p.y()) << "," << num(2, p.z()) << "]"; c = ","; }
  o << "]\t["; c = "";
  for (auto fi : s.faces()) { const auto& f = s.face(fi); o << c << "[" << f[0].idx() << "," << f[1].idx() << "," << f[2].idx() << "]"; c = ","; }
  o << "]\t["; c = "";
  for (auto fi : s.faces()) { o << c << s.data(fi); c = ","; }
  o << "]";
  return o.str();
}
static std::string all() {
  if (!snap) return "";
  std::ostringstream o; const char* c = "";
  o << ",\"all\":[";
  for (auto& [k, s] : S) { std::string t = content(*s); for (auto& ch : t) if (ch == '\t') ch = ','; o << c << "[" << k << "," << t << "]"; c = ","; }
  o << "]";
  return o.str();
}
template <class F> static std::string guard(F f) {
  try { f(); return ""; } catch (const std::exception& e) { return std::string("exception: ") + e.what(); } catch (...) { return "exception"; }
}
static void op(const std::string& c, int o, const std::string& rest, const std::string& exc) {
  *out << "{\"ev\":\"op\",\"c\":\"" << c << "\",\"o\":" << o << rest << ",\"exc\":\"" << vh::esc(exc) << "\"" << all() << "}\n";
}
static std::string q_box(const Soup& s, int o, const V3& l, const V3& h) {
  std::vector<const Soup::Leaf*> r; std::ostringstream t;
  auto e = guard([&] { s.aabb_tree().get_intersecting_leaves(std::back_inserter(r), box(l, h)); });
  t << "{\"ev\":\"box\",\"o\":" << o << ",\"l\":" << js(l) << ",\"h\":" << js(h) << ",\"q\":[";
  const char* c = ""; for (auto* x : r) { t << c << x->face_index().idx(); c = ","; }
  t << "],\"exc\":\"" << vh::esc(e) << "\"}\n"; return t.str();
}
static std::string q_ray(const Soup& s, int o, const V3& p, const V3& d) {
  std::vector<const Soup::Leaf*> r; std::ostringstream t;
  auto e = guard([&] { K::Ray_3 ray(pt(p), pt({p[0] + d[0], p[1] + d[1], p[2] + d[2]})); s.aabb_tree().get_intersecting_leaves(std::back_inserter(r), ray); });
  t << "{\"ev\":\"ray\",\"o\":" << o << ",\"p\":" << js(p) << ",\"d\":" << js(d) << ",\"q\":[";
  const char* c = ""; for (auto* x : r) { t << c << x->face_index().idx(); c = ","; }
  t << "],\"exc\":\"" << vh::esc(e) << "\"}\n"; return t.str();
}
static std::string q_val(const Soup& s, int o) {
  std::string t = content(s), a = t.substr(0, t.find('\t')), r = t.substr(t.find('\t') + 1);
  return "{\"ev\":\"val\",\"o\":" + std::to_string(o) + ",\"v\":" + a + ",\"f\":" + r.substr(0, r.find('\t')) + ",\"d\":" + r.substr(r.find('\t') + 1) + ",\"exc\":\"\"}\n";
}
static V3 rnd(std::mt19937& g, long a, long b) { std::uniform_int_distribution<long> d(a, b); return {d(g), d(g), d(g)}; }

static bool run(const std::string& line) {
  std::istringstream in(line); std::string c; in >> c;
  if (c.empty() || c[0] == '#') return true;
  int o = 0, s = 0; std::string e; std::ostringstream rest;
  if (c == "emit") { *out << line.substr(5) << "\n"; S.clear(); return true; }
  if (c == "unit") { in >> unit; plain = true; return true; }
  if (c == "axes") { plain = false; for (int k = 0; k < 3; ++k) { std::string a, b; in >> a >> b; sc[k] = vh::parse_ft(a); of[k] = vh::parse_ft(b); sc[k].exact(); of[k].exact(); } return true; }
  if (c == "snap") { int x; in >> x; snap = x; return true; }
  if (c == "threads") { std::size_t n; in >> n; nthreads = n; ctx.reset(); Threading_options t; t.set_num_threads(n); ctx = std::make_unique<Threading_context>(t); *out << "{\"ev\":\"threads\",\"n\":" << n << "}\n"; return true; }
  in >> o;
  if (c == "drop") { e = guard([&] { S[o] = std::make_unique<Soup>(); }); op(c, o, "", e); }
  else if (c == "mk") {
    std::size_t nv, nf; in >> nv >> nf; std::vector<K::Point_3> P; std::vector<Face> F; std::vector<int> D; std::ostringstream v, f, d;
    for (std::size_t i = 0; i < nv; ++i) { auto a = rd(in); P.push_back(pt(a)); v << (i ? "," : "") << js(a); }
    for (std::size_t i = 0; i < nf; ++i) { std::size_t a, b, g; int x; in >> a >> b >> g >> x; F.push_back({Vertex_index{a}, Vertex_index{b}, Vertex_index{g}}); D.push_back(x);
      f << (i ? "," : "") << "[" << a << "," << b << "," << g << "]"; d << (i ? "," : "") << x; }
    e = guard([&] { S[o] = std::make_unique<Soup>(P, F, D); });
    op(c, o, ",\"v\":[" + v.str() + "],\"f\":[" + f.str() + "],\"d\":[" + d.str() + "]", e);
  }
  else if (c == "addv") { auto p = rd(in); long r = -1; e = guard([&] { r = static_cast<long>(S.at(o)->add_vertex(pt(p)).idx()); }); rest << ",\"p\":" << js(p) << ",\"r\":" << r; op(c, o, rest.str(), e); }
  else if (c == "addf") { std::size_t a, b, g; int x; in >> a >> b >> g >> x; long r = -1;
    e = guard([&] { auto fi = S.at(o)->add_face({Vertex_index{a}, Vertex_index{b}, Vertex_index{g}}); S.at(o)->data(fi) = x; r = static_cast<long>(fi.idx()); });
    rest << ",\"t\":[" << a << "," << b << "," << g << "],\"x\":" << x << ",\"r\":" << r; op(c, o, rest.str(), e); }
  else if (c == "setd") { std::size_t i; int x; in >> i >> x; e = guard([&] { S.at(o)->data(Face_index{i}) = x; }); rest << ",\"i\":" << i << ",\"x\":" << x; op(c, o, rest.str(), e); }
  else if (c == "copy" || c == "assign" || c == "mctor" || c == "massign" || c == "swap") {
    in >> s;
    e = guard([&] {
      if (!S.count(o)) S[o] = std::make_unique<Soup>();
      if (c == "copy") { auto n = std::make_unique<Soup>(*S.at(s)); S[o] = std::move(n); }
      else if (c == "assign") { const Soup& r = *S.at(s); *S.at(o) = r; }
      else if (c == "mctor") { auto n = std::make_unique<Soup>(std::move(*S.at(s))); S[o] = std::move(n); }
      else if (c == "massign") *S.at(o) = std::move(*S.at(s));
      else std::swap(*S.at(o), *S.at(s));
    });
    rest << ",\"s\":" << s; op(c, o, rest.str(), e);
  }
  else if (c == "box") { auto l = rd(in), h = rd(in); *out << q_box(*S.at(o), o, l, h); }
  else if (c == "ray") { auto p = rd(in), d = rd(in); *out << q_ray(*S.at(o), o, p, d); }
  else if (c == "val") { *out << q_val(*S.at(o), o); }
  else if (c == "bb") {
    auto b = S.at(o)->bbox(); auto r = [&](int k, double x) { return std::lround(CGAL::to_double(un(k, FT(x)))); };
    *out << "{\"ev\":\"bb\",\"o\":" << o << ",\"l\":" << js({r(0, b.xmin()), r(1, b.ymin()), r(2, b.zmin())}) << ",\"h\":" << js({r(0, b.xmax()), r(1, b.ymax()), r(2, b.zmax())}) << ",\"exc\":\"\"}\n"; }
  else if (c == "pairs") {   // pairs o s  na ka.. nb kb..
    in >> s; std::size_t n; std::ostringstream ka, kb; const auto &A = *S.at(o), &B = *S.at(s);
    std::vector<Face_tag> ta(A.num_faces(), Face_tag::UNKNOWN), tb(B.num_faces(), Face_tag::UNKNOWN);
    in >> n; for (std::size_t i = 0; i < n; ++i) { std::size_t k; in >> k; ta.at(k) = i % 2 ? Face_tag::OPPOSITE : Face_tag::COPLANAR; ka << (i ? "," : "") << k; }
    in >> n; for (std::size_t i = 0; i < n; ++i) { std::size_t k; in >> k; tb.at(k) = i % 2 ? Face_tag::OPPOSITE : Face_tag::COPLANAR; kb << (i ? "," : "") << k; }
    std::vector<std::pair<Face_index, Face_index>> r;
    e = guard([&] { r = Find_possibly_intersecting_faces<K, int>{}(A, B, ta, tb); });
    *out << "{\"ev\":\"pairs\",\"o\":" << o << ",\"s\":" << s << ",\"ka\":[" << ka.str() << "],\"kb\":[" << kb.str() << "],\"q\":[";
    const char* k = ""; for (auto& p : r) { *out << k << "[" << p.first.idx() << "," << p.second.idx() << "]"; k = ","; }
    *out << "],\"exc\":\"" << vh::esc(e) << "\"}\n";
  }
  else if (c == "par") {     // par o threads reps seed range: concurrent readers of one object, first queries included
    int n, reps; unsigned seed; long R; in >> n >> reps >> seed >> R;
    const Soup& obj = *S.at(o); std::vector<std::string> logs(n); std::vector<std::thread> T; std::atomic<int> ready{0};
    auto threads = nthreads;
    for (int i = 0; i < n; ++i) T.emplace_back([&, i] {
      Threading_options t; t.set_num_threads(threads); Threading_context tc(t);
      std::mt19937 g(seed * 100 + i); ++ready; while (ready < n) {}
      for (int k = 0; k < reps; ++k) {
        auto a = rnd(g, -R, R), b = rnd(g, 0, 2);
        int w = static_cast<int>(g() % 4);
        if (w == 0) logs[i] += q_ray(obj, o, a, {b[0] - 1, b[1] - 1, b[2] * 2 - 1});
        else if (w == 1 && n > 1) { Soup cp(obj); logs[i] += q_box(cp, o, a, {a[0] + b[0], a[1] + b[1], a[2] + b[2]}); if (k == 0) logs[i] += q_val(cp, o); }
        else logs[i] += q_box(obj, o, a, {a[0] + b[0], a[1] + b[1], a[2] + b[2]});
      }
    });
    for (auto& t : T) t.join();
    for (auto& x : logs) *out << x;
  }
  else { std::cerr << "driver: unknown command " << line << "\n"; std::exit(3); }
  return true;
}
int main(int argc, char** argv) {
  if (argc < 3) return 3;
  std::ifstream in(argv[1]); std::ofstream o(argv[2]); out = &o;
  ctx = std::make_unique<Threading_context>(Threading_options{});
  for (std::string l; std::getline(in, l);) { run(l); o.flush(); }
  o << "{\"ev\":\"end\"}\n";
  ctx.reset();
  return 0;
}
