// Shared helpers of the drivers: exact parsing, JSON output.
#pragma once
#include <CGAL/Exact_predicates_exact_constructions_kernel.h>
#include <CGAL/Exact_rational.h>

#include <cstdint>
#include <cstdlib>
#include <iostream>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <gmpxx.h>

namespace vh {
using K = CGAL::Exact_predicates_exact_constructions_kernel;
using FT = K::FT;
using Point = K::Point_3;

// A rational literal: integer, n/d, or a decimal double literal prefixed by 'd' (hex float allowed).
inline FT parse_ft(const std::string& s) {
  if (s[0] == 'd') return FT(std::strtod(s.c_str() + 1, nullptr));
  auto slash = s.find('/');
  if (slash == std::string::npos && s.size() < 15) return FT(static_cast<double>(std::stoll(s)));
  std::string num = slash == std::string::npos ? s : s.substr(0, slash);
  std::string den = slash == std::string::npos ? "1" : s.substr(slash + 1);
  bool neg = num[0] == '-';
  if (neg) num = num.substr(1);
  using ET = CGAL::Exact_rational;
#ifdef VH_GMP_ET
  ET e{mpz_class(num), mpz_class(den)};
  e.canonicalize();
#else
  boost::multiprecision::cpp_int n(num), d(den);
  ET e(n, d);
#endif
  if (neg) e = -e;
  return FT(e);
}

inline Point read_point(std::istream& in) {
  std::string x, y, z;
  in >> x >> y >> z;
  if (!in) { std::cerr << "driver: bad point\n"; std::exit(3); }
  return Point(parse_ft(x), parse_ft(y), parse_ft(z));
}

// An affine map that is applied to every point a script names: scripts and specifications speak of small integers (over a
// unit), the library sees the mapped points.
struct Frame {
  bool id = true; long unit = 1; FT m[3][3], v[3][3], t[3];
  static FT num(long x) { return FT(static_cast<double>(x)); }
  void read(std::istream& in) {       // nine entries by rows, three of the translation
    std::string s; in >> s; id = s == "id"; if (id) return;
    for (int i = 0; i < 12; ++i) { if (i) in >> s; (i < 9 ? m[i / 3][i % 3] : t[i - 9]) = parse_ft(s); }
    FT c[3][3], det(0);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) c[i][j] = m[(i + 1) % 3][(j + 1) % 3] * m[(i + 2) % 3][(j + 2) % 3] - m[(i + 1) % 3][(j + 2) % 3] * m[(i + 2) % 3][(j + 1) % 3];
    for (int j = 0; j < 3; ++j) det += m[0][j] * c[0][j];
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) v[i][j] = c[j][i] / det;
    for (auto& r : m) for (auto& x : r) x.exact();
    for (auto& r : v) for (auto& x : r) x.exact();
  }
  FT scale(long x) const { return unit == 1 ? num(x) : num(x) / num(unit); }
  Point operator()(long x, long y, long z) const {
    FT a[3]{scale(x), scale(y), scale(z)}; if (id) return Point(a[0], a[1], a[2]);
    FT r[3]; for (int i = 0; i < 3; ++i) { r[i] = m[i][0] * a[0] + m[i][1] * a[1] + m[i][2] * a[2] + t[i]; if ((x + y + z) % 3) r[i].exact(); }
    return Point(r[0], r[1], r[2]);
  }
  FT back(const Point& p, int i) const {      // in units
    if (id) return p[i] * num(unit);
    return (v[i][0] * (p.x() - t[0]) + v[i][1] * (p.y() - t[1]) + v[i][2] * (p.z() - t[2])) * num(unit);
  }
};

inline std::string esc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += static_cast<char>(c);
  }
  return r;
}
}  // namespace vh
