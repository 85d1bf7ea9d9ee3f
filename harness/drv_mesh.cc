// Defect reports, adjacency queries, classification of faces around one edge.
#include "common.h"
#include <kigumi/Classify_faces_locally.h>
#include <kigumi/Face_tag.h>
#include <kigumi/Find_defects.h>
#include <kigumi/Mixed.h>
#include <kigumi/Null_data.h>
#include <kigumi/Triangle_mesh.h>
#include <kigumi/Triangle_soup.h>
#include <kigumi/threading.h>
#include <array>
using namespace kigumi;
using vh::K; using vh::FT; using vh::Point;
static vh::Frame frame; static long& unit = frame.unit;
static Point pt(long x, long y, long z) { return frame(x, y, z); }
static std::string back(const Point& p) {   // in units
  std::ostringstream o; o << "[";
  for (int k = 0; k < 3; ++k) { o << (k ? "," : ""); std::ostringstream q; q << frame.back(p, k).exact(); o << (q.str().find('/') == std::string::npos ? q.str() : "99999"); }
  return o.str() + "]";
}
template <class V> static std::string list(const V& v) { std::string o = "["; const char* s = ""; for (auto i : v) { o += s + std::to_string(i.idx()); s = ","; } return o + "]"; }
template <class V> static std::string edges(const V& v) { std::string o = "["; const char* s = ""; for (auto& e : v) { o += s + list(e); s = ","; } return o + "]"; }
template <class F> static std::string guard(F f) { try { f(); return ""; } catch (const std::exception& e) { return std::string("exception: ") + e.what(); } catch (...) { return "exception"; } }
static Face face(std::istream& is) { std::size_t a, b, c; is >> a >> b >> c; return {Vertex_index{a}, Vertex_index{b}, Vertex_index{c}}; }

static std::string defects(std::istream& is) {
  std::size_t nv, nf; Triangle_soup<K> s; is >> unit >> nv;
  for (std::size_t i = 0; i < nv; ++i) { long x, y, z; is >> x >> y >> z; s.add_vertex(pt(x, y, z)); }
  is >> nf; for (std::size_t i = 0; i < nf; ++i) s.add_face(face(is));
  std::string o;
  auto e = guard([&] {
    Find_defects<K, Null_data> d{s};
    o += ",\"mv\":["; const auto& m = d.triangle_soup(); const char* c = "";
    for (auto vi : m.vertices()) { o += c + back(m.point(vi)); c = ","; }
    o += "],\"mf\":["; c = ""; for (auto fi : m.faces()) { o += c + list(m.face(fi)); c = ","; }
    o += "],\"iso\":" + list(d.isolated_vertices()) + ",\"nmv\":" + list(d.non_manifold_vertices()) + ",\"bnd\":" + edges(d.boundary_edges()) + ",\"inc\":" + edges(d.inconsistent_edges()) +
         ",\"nme\":" + edges(d.non_manifold_edges()) + ",\"tri\":" + list(d.trivial_degenerate_faces()) + ",\"deg\":" + list(d.non_trivial_degenerate_faces()) + ",\"ovl\":" + list(d.overlapping_faces());
  });
  if (!e.empty()) o.clear();
  return o + ",\"exc\":\"" + vh::esc(e) + "\"}";
}
static std::string topo(std::istream& is) {
  // how the mesh comes about must not matter: mode 0-1 at once, 2 copied, 3 finalised before it was complete and again, 4 assigned over another one,
  // 5 copied before the original goes on to have other faces
  std::size_t nv, nf, n; Triangle_mesh<K> m; is >> nv >> nf; unit = 1; auto mode = (nf + 2 * nv) % 6;
  std::vector<Face> fs; for (std::size_t i = 0; i < nf; ++i) fs.push_back(face(is));
  auto vertices = [&](Triangle_mesh<K>& m, std::size_t from, std::size_t to) { for (auto i = from; i < to; ++i) m.add_vertex(pt(static_cast<long>(i), 0, 0)); };
  std::string o;
  auto e = guard([&] {
    std::size_t k = 0, v = mode == 3 ? nv / 2 : nv; vertices(m, 0, v);
    for (const auto& f : fs) { if (mode == 3 && k == nf / 2) { vertices(m, v, nv); v = nv; } if (mode == 3 && v < nv && std::any_of(f.begin(), f.end(), [&](auto i) { return i.idx() >= v; })) { vertices(m, v, nv); v = nv; } if (mode == 3 && k == nf / 2) m.finalize(); m.add_face(f); ++k; }
    vertices(m, v, nv); m.finalize();
    if (mode == 2) { auto c = m; m = std::move(c); }
    if (mode == 4) { Triangle_mesh<K> c; vertices(c, 0, nv + 3); for (std::size_t i = 0; i < 5; ++i) c.add_face({Vertex_index{nv + i % 3}, Vertex_index{nv + (i + 1) % 3}, Vertex_index{i % (nv + 1)}}); c.finalize(); c = m; m = Triangle_mesh<K>{}; m = c; }
    if (mode == 5 && nv > 2) { auto c = m; for (std::size_t i = 0; i < 4; ++i) m.add_face({Vertex_index{i % nv}, Vertex_index{(i + 1) % nv}, Vertex_index{(i + 2) % nv}}); m.finalize(); m = Triangle_mesh<K>{std::move(c)}; }
    Edge_set border; std::size_t a, b; is >> n; for (std::size_t i = 0; i < n; ++i) { is >> a >> b; border.insert(make_edge(Vertex_index{a}, Vertex_index{b})); }
    o += ",\"edges\":["; const char* c = ""; is >> n;
    for (std::size_t i = 0; i < n; ++i) { is >> a >> b; Edge ed{Vertex_index{a}, Vertex_index{b}}; o += c + list(m.faces_around_edge(ed)); c = ","; }
    o += "],\"faces\":["; c = ""; is >> n;
    for (std::size_t i = 0; i < n; ++i) { is >> a; o += c + list(m.faces_around_face(Face_index{a}, border)); c = ","; }
    o += "]";
  });
  if (!e.empty()) o.clear();
  return o + ",\"exc\":\"" + vh::esc(e) + "\"}";
}
static const char* tagname(Face_tag t) { return t == Face_tag::UNKNOWN ? "U" : t == Face_tag::EXTERIOR ? "EXT" : t == Face_tag::INTERIOR ? "INT" : t == Face_tag::COPLANAR ? "COP" : "OPP"; }
static std::string fan(std::istream& is) {    // unit nv coords.. p q nf (a b c mesh pretag).. nb (a b)..
  std::size_t nv, nf, n, p, q, a, b; Mixed_triangle_mesh<K, Null_data> m; is >> unit >> nv;
  for (std::size_t i = 0; i < nv; ++i) { long x, y, z; is >> x >> y >> z; m.add_vertex(pt(x, y, z)); }
  is >> p >> q >> nf;
  for (std::size_t i = 0; i < nf; ++i) { auto fi = m.add_face(face(is)); int mesh; std::string t; is >> mesh >> t; m.data(fi).from_left = mesh == 1; for (auto x : {Face_tag::UNKNOWN, Face_tag::EXTERIOR, Face_tag::INTERIOR, Face_tag::COPLANAR, Face_tag::OPPOSITE}) if (t == tagname(x)) m.data(fi).tag = x; }
  Edge_set border; is >> n; for (std::size_t i = 0; i < n; ++i) { is >> a >> b; border.insert(make_edge(Vertex_index{a}, Vertex_index{b})); }
  std::string o; int w = -1;
  auto e = guard([&] {
    m.finalize();
    thread_local Classify_faces_locally<K, Null_data> c;
    w = static_cast<int>(c(m, make_edge(Vertex_index{p}, Vertex_index{q}), border));
  });
  o += ",\"tags\":["; const char* c = ""; for (auto fi : m.faces()) { o += std::string(c) + "\"" + tagname(m.data(fi).tag) + "\""; c = ","; }
  return o + "],\"warn\":" + std::to_string(w) + ",\"exc\":\"" + vh::esc(e) + "\"}";
}
int main(int argc, char** argv) {
  if (argc < 3) return 3;
  std::ifstream in(argv[1]); std::ofstream o(argv[2]);
  std::string line, pre; std::size_t threads = 0;
  while (std::getline(in, line)) {
    std::istringstream is(line); std::string k; is >> k; if (k.empty()) continue;
    if (k == "emit") { o << line.substr(5) << "\n"; continue; }
    if (k == "json") { pre = line.substr(5); continue; }
    if (k == "threads") { is >> threads; continue; }
    if (k == "map") { frame.read(is); continue; }
    o.flush();
    Threading_options t; if (threads) t.set_num_threads(threads); Threading_context ctx(t);
    if (k == "defects") o << pre << defects(is) << "\n"; else if (k == "topo") o << pre << topo(is) << "\n"; else if (k == "fan") o << pre << fan(is) << "\n";
    else { std::cerr << "driver: bad command " << k << "\n"; return 3; }
  }
  o << "{\"ev\":\"end\"}\n"; o.flush();
  std::_Exit(0);
}
