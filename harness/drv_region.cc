// Executes a script of region operations on the real library and logs every call with its observable result
// (one JSON object per line).  All judging is done by the TLA+ trace specification; this program only observes.
#include "common.h"
#include <kigumi/Boolean_region_builder.h>
#include <kigumi/Region.h>
#include <kigumi/Region_io.h>
#include <kigumi/threading.h>
#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <random>
#include <set>
#include <thread>
#include <unistd.h>

using namespace vh;
using Region = kigumi::Region<K, std::int32_t>;
using Soup = kigumi::Triangle_soup<K, std::int32_t>;
using Builder = kigumi::Boolean_region_builder<K, std::int32_t>;
using kigumi::Boolean_operator;
using kigumi::Face_index;
using kigumi::Vertex_index;
using Triangle = K::Triangle_3;
using Segment = K::Segment_3;

struct Germ { Point q; K::Vector_3 n; };
struct Source { Triangle tri; K::Vector_3 normal; };

static std::vector<Point> P;                        // membership samples
static std::vector<Germ> Q;                         // boundary samples
static std::map<int, Source> sources;               // data id -> source triangle
static std::vector<std::pair<int, double>> clip;    // clip planes: axis, coordinate (axis-aligned, in xform space see clip_pts)
static std::vector<std::array<Point, 3>> clip_planes;  // three points of each clip plane
static std::map<int, std::unique_ptr<Region>> regs;
static std::map<int, std::unique_ptr<Builder>> builders;
static std::ofstream out;
static std::mt19937 rng(1);

// ---------- independent geometric observation ----------
struct Flat {                                       // snapshot of a boundary
  std::vector<Point> pts;
  std::vector<std::array<std::size_t, 3>> f;
  std::vector<int> id;
  std::vector<CGAL::Bbox_3> bb;
};

static Flat flatten(const Soup& s) {
  Flat r;
  for (auto vi : s.vertices()) r.pts.push_back(s.point(vi));
  for (auto fi : s.faces()) {
    const auto& f = s.face(fi);
    r.f.push_back({f[0].idx(), f[1].idx(), f[2].idx()});
    r.id.push_back(s.data(fi));
    CGAL::Bbox_3 b;
    for (auto v : f) b += s.point(v).bbox();
    r.bb.push_back(b);
  }
  return r;
}

// 0 outside, 1 inside, 2 on the boundary, 3 undetermined
static int member(const Flat& m, const Point& p) {
  for (std::size_t i = 0; i < m.f.size(); ++i) {
    const auto &a = m.pts[m.f[i][0]], &b = m.pts[m.f[i][1]], &c = m.pts[m.f[i][2]];
    if (!CGAL::do_overlap(m.bb[i], p.bbox())) continue;
    if (Triangle(a, b, c).has_on(p)) return 2;
  }
  for (int attempt = 0; attempt < 200; ++attempt) {
    std::size_t k = rng() % m.f.size();
    int w0 = 1 + rng() % 97, w1 = 1 + rng() % 89, w2 = 1 + rng() % 101;
    const auto &a = m.pts[m.f[k][0]], &b = m.pts[m.f[k][1]], &c = m.pts[m.f[k][2]];
    Point t = CGAL::barycenter(a, FT(w0), b, FT(w1), c, FT(w2));
    if (CGAL::orientation(a, b, c, p) == CGAL::ZERO) continue;
    bool bad = false;
    std::vector<std::pair<FT, std::size_t>> hits;
    auto sbb = p.bbox() + t.bbox();
    FT dk = CGAL::squared_distance(p, t);
    for (std::size_t i = 0; i < m.f.size() && !bad; ++i) {
      if (i == k) { hits.emplace_back(dk, i); continue; }
      if (!CGAL::do_overlap(m.bb[i], sbb)) continue;
      const auto &u = m.pts[m.f[i][0]], &v = m.pts[m.f[i][1]], &w = m.pts[m.f[i][2]];
      auto op = CGAL::orientation(u, v, w, p), ot = CGAL::orientation(u, v, w, t);
      if (op == ot && op != CGAL::ZERO) continue;
      auto o1 = CGAL::orientation(p, t, u, v), o2 = CGAL::orientation(p, t, v, w), o3 = CGAL::orientation(p, t, w, u);
      bool has_pos = o1 > 0 || o2 > 0 || o3 > 0, has_neg = o1 < 0 || o2 < 0 || o3 < 0;
      if (has_pos && has_neg) continue;
      if (op == CGAL::ZERO || ot == CGAL::ZERO || o1 == 0 || o2 == 0 || o3 == 0) { bad = true; break; }
      // proper crossing
      auto ix = CGAL::intersection(K::Plane_3(u, v, w), K::Line_3(p, t));
      const Point* x = std::get_if<Point>(&*ix);
      if (!x) { bad = true; break; }
      hits.emplace_back(CGAL::squared_distance(p, *x), i);
    }
    if (bad) continue;
    std::size_t best = 0;
    for (std::size_t i = 1; i < hits.size(); ++i)
      if (hits[i].first < hits[best].first) best = i;
    const auto& f = m.f[hits[best].second];
    return CGAL::orientation(m.pts[f[0]], m.pts[f[1]], m.pts[f[2]], p) == CGAL::NEGATIVE ? 1 : 0;
  }
  return 3;
}

// covering faces of a boundary sample: list of (id, +1 same orientation as n / -1); edge hits are flagged with 0
static std::vector<std::pair<int, int>> cover(const Flat& m, const Germ& g) {
  std::vector<std::pair<int, int>> r;
  for (std::size_t i = 0; i < m.f.size(); ++i) {
    if (!CGAL::do_overlap(m.bb[i], g.q.bbox())) continue;
    const auto &a = m.pts[m.f[i][0]], &b = m.pts[m.f[i][1]], &c = m.pts[m.f[i][2]];
    if (CGAL::orientation(a, b, c, g.q) != CGAL::ZERO) continue;
    if (CGAL::collinear(a, b, c)) continue;
    if (!Triangle(a, b, c).has_on(g.q)) continue;
    bool edge = CGAL::collinear(a, b, g.q) || CGAL::collinear(b, c, g.q) || CGAL::collinear(c, a, g.q);
    int s = CGAL::sign(CGAL::normal(a, b, c) * g.n) > 0 ? 1 : -1;
    r.emplace_back(m.id[i], edge ? 2 * s : s);
  }
  return r;
}

struct Bad { int range = 0, deg = 0, dup = 0, iso = 0, unbal = 0, ovl = 0, stray = 0; };

static bool share_ok(const Flat& m, std::size_t i, std::size_t j) {
  const auto &f = m.f[i], &g = m.f[j];
  std::vector<std::size_t> sh, fi, gi;
  for (int a = 0; a < 3; ++a) {
    bool s = false;
    for (int b = 0; b < 3; ++b) if (f[a] == g[b]) s = true;
    (s ? sh : fi).push_back(f[a]);
  }
  for (int b = 0; b < 3; ++b) if (std::find(f.begin(), f.end(), g[b]) == f.end()) gi.push_back(g[b]);
  auto pt = [&](std::size_t v) -> const Point& { return m.pts[v]; };
  if (sh.size() == 3) return false;
  if (sh.size() == 2) {
    if (CGAL::orientation(pt(sh[0]), pt(sh[1]), pt(fi[0]), pt(gi[0])) != CGAL::ZERO) return true;
    return CGAL::coplanar_orientation(pt(sh[0]), pt(sh[1]), pt(fi[0]), pt(gi[0])) == CGAL::NEGATIVE;
  }
  Triangle tf(pt(f[0]), pt(f[1]), pt(f[2])), tg(pt(g[0]), pt(g[1]), pt(g[2]));
  if (sh.size() == 1) {
    if (CGAL::do_intersect(Segment(pt(fi[0]), pt(fi[1])), tg)) return false;
    return !CGAL::do_intersect(Segment(pt(gi[0]), pt(gi[1])), tf);
  }
  return !CGAL::do_intersect(tf, tg);
}

static Bad validity(const Soup& s) {
  Bad r;
  std::size_t nv = s.num_vertices();
  std::vector<bool> used(nv, false);
  for (auto fi : s.faces())
    for (auto v : s.face(fi)) {
      if (v.idx() >= nv) ++r.range;
      else used[v.idx()] = true;
    }
  if (r.range) return r;
  Flat m = flatten(s);
  for (std::size_t v = 0; v < nv; ++v) if (!used[v]) ++r.iso;
  std::vector<std::size_t> ord(nv);
  for (std::size_t v = 0; v < nv; ++v) ord[v] = v;
  std::sort(ord.begin(), ord.end(), [&](auto a, auto b) { return CGAL::lexicographically_xyz_smaller(m.pts[a], m.pts[b]); });
  for (std::size_t v = 1; v < nv; ++v) if (m.pts[ord[v - 1]] == m.pts[ord[v]]) ++r.dup;
  std::map<std::pair<std::size_t, std::size_t>, int> he;
  std::vector<bool> deg(m.f.size(), false);
  for (std::size_t i = 0; i < m.f.size(); ++i) {
    const auto& f = m.f[i];
    if (CGAL::collinear(m.pts[f[0]], m.pts[f[1]], m.pts[f[2]])) { ++r.deg; deg[i] = true; }
    for (int k = 0; k < 3; ++k) {
      auto u = f[k], v = f[(k + 1) % 3];
      if (u < v) he[{u, v}]++; else he[{v, u}]--;
    }
  }
  for (auto& [e, c] : he) {
    if (c == 0) continue;
    bool on_clip = false;
    for (auto& pl : clip_planes)
      if (CGAL::orientation(pl[0], pl[1], pl[2], m.pts[e.first]) == CGAL::ZERO &&
          CGAL::orientation(pl[0], pl[1], pl[2], m.pts[e.second]) == CGAL::ZERO) on_clip = true;
    if (!on_clip) ++r.unbal;
  }
  for (std::size_t i = 0; i < m.f.size(); ++i)
    for (std::size_t j = i + 1; j < m.f.size(); ++j) {
      if (deg[i] || deg[j] || !CGAL::do_overlap(m.bb[i], m.bb[j])) continue;
      if (!share_ok(m, i, j)) ++r.ovl;
    }
  for (std::size_t i = 0; i < m.f.size(); ++i) {
    auto it = sources.find(m.id[i]);
    if (it == sources.end()) { ++r.stray; continue; }
    bool ok = true;
    for (auto v : m.f[i]) if (!it->second.tri.has_on(m.pts[v])) ok = false;
    if (!ok) ++r.stray;
  }
  return r;
}

static const char* kind(const Region& r) { return r.is_empty() ? "E" : r.is_full() ? "F" : "B"; }

template <class V> static void put_array(std::ostream& o, const V& v) {
  o << '[';
  bool first = true;
  for (auto x : v) { if (!first) o << ','; o << static_cast<int>(x); first = false; }
  o << ']';
}

static void observe(std::ostream& o, const Region& r) {
  const auto& s = r.boundary();
  bool b = !r.is_empty_or_full();
  o << "\"kind\":\"" << kind(r) << "\",\"consistent\":" << ((s.num_faces() == 0) == r.is_empty_or_full() && r.is_empty_or_full() == (r.is_empty() || r.is_full()) && !(r.is_empty() && r.is_full()) ? 1 : 0);
  Bad v;
  std::vector<int> mem;
  std::vector<std::vector<std::pair<int, int>>> cov;
  if (b) {
    v = validity(s);
    if (!v.range) {
      Flat m = flatten(s);
      for (auto& p : P) mem.push_back(member(m, p));
      for (auto& g : Q) cov.push_back(cover(m, g));
    }
  }
  o << ",\"nf\":" << s.num_faces() << ",\"mem\":";
  put_array(o, mem);
  o << ",\"cov\":[";
  for (std::size_t i = 0; i < cov.size(); ++i) {
    o << (i ? ",[" : "[");
    for (std::size_t j = 0; j < cov[i].size(); ++j) o << (j ? "," : "") << '[' << cov[i][j].first << ',' << cov[i][j].second << ']';
    o << ']';
  }
  o << "],\"bad\":[" << v.range << ',' << v.deg << ',' << v.dup << ',' << v.iso << ',' << v.unbal << ',' << v.ovl << ',' << v.stray << ']';
}

static std::uint64_t digest(const Region& r) {      // content of an operand, to detect modification
  std::ostringstream os;
  kigumi::write_kigumi_region(os, r);
  std::uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : os.str()) { h ^= c; h *= 1099511628211ULL; }
  return h & 0x3fffffff;
}

static Boolean_operator op_of(const std::string& s) {
  static const std::string names = "VABCDEFGHIJKLMXO";
  return static_cast<Boolean_operator>(names.find(s[0]));
}

struct Line { std::string text; };

static void emit(const std::string& s) { out << s << '\n'; out.flush(); }

static std::string side_json(const Region& r) {
  std::vector<int> a, b;
  std::string exc;
  auto f = [&](const Point& p) {
    try {
      auto s = r.bounded_side(p);
      return s == CGAL::ON_BOUNDED_SIDE ? 1 : s == CGAL::ON_UNBOUNDED_SIDE ? 0 : 2;
    } catch (const std::exception& e) { exc = e.what(); return 9; }
  };
  for (auto& p : P) a.push_back(f(p));
  for (auto& g : Q) b.push_back(f(g.q));
  std::ostringstream o;
  o << "\"sp\":"; put_array(o, a); o << ",\"sq\":"; put_array(o, b); o << ",\"exc\":\"" << esc(exc) << "\"";
  return o.str();
}

static std::string do_apply(const Builder& b, const std::string& op, bool prefer, std::unique_ptr<Region>& res) {
  std::ostringstream o;
  try {
    if (prefer && rng() % 2) res = std::make_unique<Region>(b(op_of(op)));   // default argument
    else res = std::make_unique<Region>(b(op_of(op), prefer));
    o << "\"exc\":\"\",";
    observe(o, *res);
  } catch (const std::exception& e) {
    o << "\"exc\":\"" << esc(e.what()) << "\",\"kind\":\"X\",\"consistent\":1,\"nf\":0,\"mem\":[],\"cov\":[],\"bad\":[0,0,0,0,0,0,0]";
  }
  return o.str();
}

static std::optional<kigumi::Threading_context>* tctx = nullptr;

static bool run_one(std::istream& in, const std::string& cmd) {
  std::ostringstream o;
  if (cmd == "world") {
    std::string name; int np, nq, nc;
    in >> name >> np >> nq >> nc;
    P.clear(); Q.clear(); sources.clear(); clip_planes.clear(); regs.clear(); builders.clear();
    for (int i = 0; i < np; ++i) P.push_back(read_point(in));
    for (int i = 0; i < nq; ++i) { Point q = read_point(in), n = read_point(in); Q.push_back({q, n - CGAL::ORIGIN}); }
    for (int i = 0; i < nc; ++i) { Point a = read_point(in), b = read_point(in), c = read_point(in); clip_planes.push_back({a, b, c}); }
    return true;   // the generator writes the world event itself
  }
  if (cmd == "emit") { std::string line; std::getline(in, line); emit(line.substr(1)); return true; }
  if (cmd == "reset") { regs.clear(); builders.clear(); return true; }
  if (cmd == "threads") {
    std::size_t n; in >> n;
    kigumi::Threading_options opt; opt.set_num_threads(n);
    tctx->reset(); tctx->emplace(opt);
    o << "{\"ev\":\"threads\",\"n\":" << n << "}";
    emit(o.str());
    return true;
  }
  if (cmd == "prim") {
    int r, k, nv, nf; in >> r >> k >> nv >> nf;
    std::vector<Point> pts; std::vector<kigumi::Face> faces; std::vector<std::int32_t> data;
    for (int i = 0; i < nv; ++i) pts.push_back(read_point(in));
    for (int i = 0; i < nf; ++i) {
      std::size_t a, b, c; int id; in >> a >> b >> c >> id;
      faces.push_back({Vertex_index{a}, Vertex_index{b}, Vertex_index{c}}); data.push_back(id);
      sources[id] = {Triangle(pts[a], pts[b], pts[c]), CGAL::normal(pts[a], pts[b], pts[c])};
    }
    // alternate the two public ways of building a face collection
    std::unique_ptr<Region> reg;
    if (k % 2) {
      Soup s;
      for (auto& p : pts) s.add_vertex(p);
      for (std::size_t i = 0; i < faces.size(); ++i) s.data(s.add_face(faces[i])) = data[i];
      reg = std::make_unique<Region>(std::move(s));
    } else {
      reg = std::make_unique<Region>(Soup{std::move(pts), std::move(faces), std::move(data)});
    }
    regs[r] = std::move(reg);
    o << "{\"ev\":\"prim\",\"r\":" << r << ",\"k\":" << k << ",\"exc\":\"\","; observe(o, *regs[r]); o << "}";
    emit(o.str());
    return true;
  }
  if (cmd == "special") {
    int r; std::string k; in >> r >> k;
    regs[r] = std::make_unique<Region>(k == "E" ? Region::empty() : Region::full());
    o << "{\"ev\":\"special\",\"r\":" << r << ",\"k\":\"" << k << "\",\"exc\":\"\","; observe(o, *regs[r]); o << "}";
    emit(o.str());
    return true;
  }
  if (cmd == "build") {
    int b, x, y; in >> b >> x >> y;
    auto dx = digest(*regs.at(x)), dy = digest(*regs.at(y));
    std::string exc; int w = 0;
    try {
      builders[b] = std::make_unique<Builder>(*regs.at(x), *regs.at(y));
      w = static_cast<int>(builders[b]->warnings());
    } catch (const std::exception& e) { exc = e.what(); builders.erase(b); }
    int same = dx == digest(*regs.at(x)) && dy == digest(*regs.at(y));
    o << "{\"ev\":\"build\",\"b\":" << b << ",\"x\":" << x << ",\"y\":" << y << ",\"exc\":\"" << esc(exc) << "\",\"warn\":" << w << ",\"same\":" << same << "}";
    emit(o.str());
    return true;
  }
  if (cmd == "apply") {
    int r, b, pref; std::string op; in >> r >> b >> op >> pref;
    std::unique_ptr<Region> res;
    auto it = builders.find(b);
    if (it == builders.end()) return true;  // the failed build has been reported
    auto s = do_apply(*it->second, op, pref, res);
    if (res) regs[r] = std::move(res);
    o << "{\"ev\":\"apply\",\"r\":" << r << ",\"b\":" << b << ",\"op\":\"" << op << "\",\"pref\":" << pref << ',' << s << "}";
    emit(o.str());
    return true;
  }
  if (cmd == "copy" || cmd == "move" || cmd == "assign") {
    int r, s; in >> r >> s;
    if (!regs.count(s)) return true;
    if (cmd == "copy") regs[r] = std::make_unique<Region>(*regs.at(s));
    else if (cmd == "move") { auto t = std::make_unique<Region>(std::move(*regs.at(s))); if (s != r) regs.erase(s); regs[r] = std::move(t); }
    else { if (!regs.count(r)) regs[r] = std::make_unique<Region>(); *regs[r] = *regs.at(s); }
    o << "{\"ev\":\"" << cmd << "\",\"r\":" << r << ",\"s\":" << s << ",\"exc\":\"\","; observe(o, *regs[r]); o << "}";
    emit(o.str());
    return true;
  }
  if (cmd == "reload") {   // save s, load into r (which may already hold something)
    int r, s; in >> r >> s;
    if (!regs.count(s)) return true;
    std::ostringstream os(std::ios::binary);
    bool wok = kigumi::write_kigumi_region(os, *regs.at(s));
    std::istringstream is(os.str(), std::ios::binary);
    if (!regs.count(r)) regs[r] = std::make_unique<Region>();
    bool rok = false; std::string exc;
    try { rok = kigumi::read_kigumi_region(is, *regs[r]); } catch (const std::exception& e) { exc = e.what(); }
    if (!wok || !rok) exc = "reload failed " + exc;
    o << "{\"ev\":\"reload\",\"r\":" << r << ",\"s\":" << s << ",\"exc\":\"" << esc(exc) << "\","; observe(o, *regs[r]); o << "}";
    emit(o.str());
    return true;
  }
  if (cmd == "side") {
    int r; in >> r;
    if (!regs.count(r)) return true;
    o << "{\"ev\":\"side\",\"r\":" << r << ',' << side_json(*regs.at(r)) << "}";
    emit(o.str());
    return true;
  }
  if (cmd == "par") {  // par n  (b x y op pref)*n : n threads build and evaluate at the same time
    int n, thr; in >> n >> thr;
    struct Job { int r, x, y, pref; std::string op; std::unique_ptr<Region> res; std::string json; int warn = 0; };
    std::vector<Job> jobs(n);
    for (auto& j : jobs) in >> j.r >> j.x >> j.y >> j.op >> j.pref;
    std::vector<std::thread> ts;
    for (auto& j : jobs)
      ts.emplace_back([&j, thr] {
        kigumi::Threading_options opt; opt.set_num_threads(thr);
        kigumi::Threading_context ctx(opt);
        try {
          Builder b(*regs.at(j.x), *regs.at(j.y));
          j.warn = static_cast<int>(b.warnings());
          j.res = std::make_unique<Region>(b(op_of(j.op), j.pref));
        } catch (const std::exception& e) { j.json = e.what(); if (j.json.empty()) j.json = "?"; }
      });
    for (auto& t : ts) t.join();
    for (auto& j : jobs) {
      std::ostringstream p;
      p << "{\"ev\":\"pjob\",\"r\":" << j.r << ",\"x\":" << j.x << ",\"y\":" << j.y << ",\"op\":\"" << j.op << "\",\"pref\":" << j.pref << ",\"warn\":" << j.warn << ',';
      if (!j.res) p << "\"exc\":\"" << esc(j.json) << "\",\"kind\":\"X\",\"consistent\":1,\"nf\":0,\"mem\":[],\"cov\":[],\"bad\":[0,0,0,0,0,0,0]";
      else { p << "\"exc\":\"\","; observe(p, *j.res); }
      p << "}";
      emit(p.str());
    }
    for (auto& j : jobs) if (j.res) regs[j.r] = std::move(j.res);
    o << "{\"ev\":\"pend\"}";
    emit(o.str());
    return true;
  }
  if (cmd == "newthread") {   // run the following k commands in a fresh thread (fresh thread-local state)
    int k; in >> k;
    std::thread t([&] {
      std::optional<kigumi::Threading_context> inner;
      auto* save = tctx; tctx = &inner;
      std::string c;
      for (int i = 0; i < k && (in >> c); ++i) run_one(in, c);
      inner.reset();
      tctx = save;
    });
    t.join();
    return true;
  }
  std::cerr << "driver: unknown command " << cmd << "\n";
  std::exit(3);
}

int main(int argc, char** argv) {
  if (argc < 3) return 3;
  std::ifstream in(argv[1]);
  out.open(argv[2]);
  std::cout.setstate(std::ios::failbit);  // the library prints progress
  if (argc > 3) rng.seed(std::atoi(argv[3]));
  std::optional<kigumi::Threading_context> ctx;
  tctx = &ctx;
  std::string cmd;
  while (in >> cmd) {
    run_one(in, cmd);
  }
  emit("{\"ev\":\"end\"}");
  regs.clear(); builders.clear();
  ctx.reset();
  return 0;
}
