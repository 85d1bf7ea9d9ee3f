// What the library makes of the requests that the command line tool is given.
#include "common.h"
#include <kigumi/Boolean_operator.h>
#include <kigumi/Boolean_region_builder.h>
#include <kigumi/Find_defects.h>
#include <kigumi/Region.h>
#include <kigumi/Region_io.h>
#include <kigumi/Triangle_soup.h>
#include <kigumi/Triangle_soup_io.h>
#include <algorithm>
#include <array>
#include <filesystem>
using namespace kigumi;
using vh::K;
static std::string scratch;
using R = Region<K>; using S = Triangle_soup<K>;
static std::string coords(const vh::Point& p) { std::ostringstream o; for (int k = 0; k < 3; ++k) o << p[k].exact() << (k < 2 ? "," : ""); return o.str(); }
static std::string canon(const S& s) {
  std::vector<std::string> v, f;
  for (auto i : s.vertices()) v.push_back(coords(s.point(i)));
  auto names = v; std::sort(v.begin(), v.end());
  for (auto i : s.faces()) { std::array<std::string, 3> a; for (int k = 0; k < 3; ++k) a[static_cast<std::size_t>(k)] = names.at(s.face(i)[static_cast<std::size_t>(k)].idx()); std::rotate(a.begin(), std::min_element(a.begin(), a.end()), a.end()); f.push_back(a[0] + " " + a[1] + " " + a[2]); }
  std::sort(f.begin(), f.end());
  std::string o = "v"; for (auto& x : v) o += ";" + x; o += "f"; for (auto& x : f) o += ";" + x; return o;
}
static std::string canon(const R& r) { return (r.is_empty() ? "E" : r.is_full() ? "F" : "B") + canon(r.boundary()); }
static bool ends(const std::string& s, const char* e) { return s.ends_with(e); }
static bool load(const std::string& f, R& r) {
  try {
    if (f == ":empty:") { r = R::empty(); return true; }
    if (f == ":full:") { r = R::full(); return true; }
    if (ends(f, ".kigumi")) return read_kigumi_region(f, r);
    S s; if (!ends(f, ".obj") && !ends(f, ".off") && !ends(f, ".ply")) return false;
    if (!read_triangle_soup(f, s)) return false;
    r = R{std::move(s)}; return true;
  } catch (const std::exception&) { return false; }
}
static std::string q(const std::string& s) { return "\"" + vh::esc(s) + "\""; }
// what is in a file, or null
static std::string content(const std::string& f) {
  try {
    if (ends(f, ".kigumi")) { R r; return read_kigumi_region(f, r) ? q("region " + canon(r)) : "null"; }
    S s; return read_triangle_soup(f, s) ? q("mesh " + canon(s)) : "null";
  } catch (const std::exception&) { return "null"; }
}
static std::string forms(const R& r) {
  std::string o = "{"; const char* c = "";
  for (std::string e : {".obj", ".off", ".ply", ".kigumi"}) {
    auto f = scratch + e; bool ok = e == ".kigumi" ? write_kigumi_region(f, r) : write_triangle_soup(f, r.boundary());
    o += c + q(e) + ":" + (ok ? content(f) : "null"); c = ",";
  }
  return o + "}";
}
int main(int argc, char** argv) {
  if (argc < 3) return 3;
  std::ifstream in(argv[1]); std::ofstream o(argv[2]); std::string line; scratch = std::string(argv[2]) + ".ref";
  std::cerr.setstate(std::ios::failbit);
  while (std::getline(in, line)) {
    std::vector<std::string> a; std::string x; std::istringstream is(line); while (std::getline(is, x, '\t')) a.push_back(x);
    if (a.empty()) continue;
    if (a[0] == "cd") { std::filesystem::current_path(a.at(1)); o << "{}\n"; }
    else if (a[0] == "canon") o << "{\"canon\":" << content(a.at(1)) << "}\n";
    else if (a[0] == "make") { R r; if (!load(a.at(1), r) || !write_kigumi_region(a.at(2), r)) return 3; o << "{}\n"; }
    else if (a[0] == "convert") { R r; bool ok = load(a.at(1), r); o << "{\"read\":" << (ok ? "true" : "false") << ",\"made\":" << (ok ? forms(r) : "{}") << "}\n"; }
    else if (a[0] == "defects") {
      R r; bool ok = load(a.at(1), r); o << "{\"read\":" << (ok ? "true" : "false") << ",\"counts\":[";
      if (ok) {
        Find_defects d{r.boundary()}; const char* c = "";
        auto put = [&](const char* n, std::size_t k) { if (k) { o << c << "[" << k << ",\"" << n << "\"]"; c = ","; } };
        put("isolated vertices", d.isolated_vertices().size()); put("non-manifold vertices", d.non_manifold_vertices().size());
        put("boundary edges", d.boundary_edges().size()); put("inconsistent edges", d.inconsistent_edges().size()); put("non-manifold edges", d.non_manifold_edges().size());
        put("trivial degenerate faces", d.trivial_degenerate_faces().size()); put("non-trivial degenerate faces", d.non_trivial_degenerate_faces().size()); put("overlapping faces", d.overlapping_faces().size());
      }
      o << "]}\n";
    } else if (a[0] == "boolean") {
      R f, s; bool r1 = load(a.at(1), f), r2 = load(a.at(2), s), built = false; int warn = 0; std::string made = "{";
      if (r1 && r2) try {
        Boolean_region_builder b{f, s}; warn = static_cast<int>(b.warnings()); built = true; const char* c = "";
        for (auto [n, op] : {std::pair{"int", Boolean_operator::K}, {"uni", Boolean_operator::A}, {"dif", Boolean_operator::L}, {"sym", Boolean_operator::J}}) {
          std::string t = "null"; try { t = forms(b(op)); } catch (const std::exception&) {}
          made += c + q(n) + ":" + t; c = ",";
        }
      } catch (const std::exception&) {}
      o << "{\"r1\":" << (r1 ? "true" : "false") << ",\"r2\":" << (r2 ? "true" : "false") << ",\"built\":" << (built ? "true" : "false") << ",\"warn\":" << warn << ",\"made\":" << made << "}}\n";
    } else return 3;
  }
  o.flush(); std::_Exit(0);
}
