// Intersections of pairs of triangles of two meshes, symbolic and constructed.
#include "common.h"
#include <kigumi/Face_face_intersection.h>
#include <kigumi/Intersection_point_inserter.h>
#include <kigumi/Point_list.h>
#include <kigumi/Triangle_region.h>
#include <array>
#include <boost/multiprecision/cpp_int.hpp>
using namespace kigumi;
using vh::K; using vh::FT;
using Tri = std::array<std::size_t, 3>;
static boost::multiprecision::cpp_int big(const std::string& s) { return boost::multiprecision::cpp_int(s); }
static std::string feat(Triangle_region r, bool left) {
  int m = static_cast<int>(r); if (!left) m >>= 3;
  std::string o = "["; const char* c = "";
  for (int i = 0; i < 3; ++i) if (m >> i & 1) { o += c; o += std::to_string(i + 1); c = ","; }
  return o + "]";
}
int main(int argc, char** argv) {
  if (argc < 3) return 3;
  std::ifstream in(argv[1]); std::ofstream out(argv[2]);
  std::string c;
  vh::Frame frame;
  while (in >> c) {
    if (c == "map") { frame.read(in); continue; }
    if (c != "world") { std::cerr << "driver: " << c; return 3; }
    // world name unit nv coords.. nleft faces.. nright faces..
    std::string name; long unit; std::size_t nv, nf; in >> name >> unit >> nv;
    Point_list<K> pts; std::vector<std::array<long, 3>> V(nv); std::vector<std::size_t> id(nv);
    pts.start_uniqueness_check();
    for (std::size_t i = 0; i < nv; ++i) {
      in >> V[i][0] >> V[i][1] >> V[i][2];
      frame.unit = unit; id[i] = pts.insert(frame(V[i][0], V[i][1], V[i][2]));
    }
    pts.stop_uniqueness_check();
    out << "{\"ev\":\"world\",\"name\":\"" << name << "\",\"pts\":[";
    std::vector<bool> seen(nv + 1); const char* s = "";
    for (std::size_t i = 0; i < nv; ++i) { if (seen.at(id[i])) continue; seen[id[i]] = true; out << s << "[" << id[i] << "," << V[i][0] << "," << V[i][1] << "," << V[i][2] << "]"; s = ","; }
    out << "]}\n";
    std::vector<Tri> L, R;
    for (auto* F : {&L, &R}) { in >> nf; for (std::size_t i = 0; i < nf; ++i) { Tri t; in >> t[0] >> t[1] >> t[2]; F->push_back(t); } }
    Face_face_intersection<K> ffi(pts);
    Intersection_point_inserter<K> ins(pts);
    for (auto& t : L) for (auto& u : R) {
      out << "{\"ev\":\"tri\",\"t\":["; s = "";
      for (auto i : t) { out << s << "[" << V[i][0] << "," << V[i][1] << "," << V[i][2] << "]"; s = ","; }
      out << "],\"u\":["; s = "";
      for (auto i : u) { out << s << "[" << V[i][0] << "," << V[i][1] << "," << V[i][2] << "]"; s = ","; }
      out << "],\"c\":["; s = "";
      std::string exc;
      try {
        auto syms = ffi(id[t[0]], id[t[1]], id[t[2]], id[u[0]], id[u[1]], id[u[2]]);
        for (auto sym : syms) {
          auto l = intersection(sym, Triangle_region::LEFT_FACE), r = intersection(sym, Triangle_region::RIGHT_FACE);
          auto k = ins.insert(l, id[t[0]], id[t[1]], id[t[2]], r, id[u[0]], id[u[1]], id[u[2]]);
          const auto& p = pts.at(k);
          boost::multiprecision::cpp_int n[3], d[3], w = 1;
          for (int j = 0; j < 3; ++j) {
            std::ostringstream o; o << frame.back(p, j).exact(); auto q = o.str(); auto sl = q.find('/');
            n[j] = big(q.substr(0, sl)); d[j] = sl == std::string::npos ? big("1") : big(q.substr(sl + 1));
            w = boost::multiprecision::lcm(w, d[j]);
          }
          out << s << "{\"f\":" << feat(l, true) << ",\"g\":" << feat(r, false) << ",\"id\":" << k << ",\"x\":[" << n[0] * (w / d[0]) << "," << n[1] * (w / d[1]) << "," << n[2] * (w / d[2]) << "," << w << "]}";
          s = ",";
        }
      } catch (const std::exception& e) { exc = e.what(); }
      out << "],\"exc\":\"" << vh::esc(exc) << "\"}\n";
      out.flush();
    }
  }
  out << "{\"ev\":\"end\"}\n";
}
