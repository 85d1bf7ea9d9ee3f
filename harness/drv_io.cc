// Reading and writing of regions and text meshes, with faults injected at every byte.
#include "common.h"
#include <kigumi/Region.h>
#include <kigumi/Region_io.h>
#include <kigumi/Triangle_soup_io.h>

#include <sys/resource.h>
#include <unistd.h>
#include <bit>
#include <cmath>
#include <csignal>
#include <cstring>
#include <filesystem>
#include <functional>
#include <streambuf>
using namespace kigumi;
using vh::K; using vh::FT; using vh::Point;
namespace fs = std::filesystem;
static std::ostream* out;
static std::string dir;

// ---- streams that fail ----
struct Boom {};
struct FailOut : std::streambuf {          // takes `cap` bytes, buffering `buf` of them at a time; then refuses or throws
  std::size_t cap, buf; bool thr; std::string got, pend;
  FailOut(std::size_t c, std::size_t b, bool t) : cap(c), buf(b), thr(t) {}
  bool drain() { bool ok = true; for (char c : pend) { if (got.size() >= cap) { ok = false; break; } got += c; } pend.clear(); if (!ok && thr) throw Boom{}; return ok; }
  int overflow(int c) override { if (c == EOF) return 0; pend += static_cast<char>(c); if (pend.size() > buf && !drain()) return EOF; return c; }
  int sync() override { return drain() ? 0 : -1; }
};
struct FailIn : std::streambuf {           // gives `cap` bytes of `s`, then ends (mode 0) or throws (mode 1)
  std::string s; std::size_t cap, pos = 0; int mode; char ch{};
  FailIn(std::string t, std::size_t c, int m) : s(std::move(t)), cap(c), mode(m) {}
  int underflow() override { if (pos >= cap || pos >= s.size()) { if (pos >= cap && mode) throw Boom{}; return EOF; } ch = s[pos++]; setg(&ch, &ch, &ch + 1); return static_cast<unsigned char>(ch); }
};

// ---- values ----
static FT coord(std::string s) {
  bool lazy = s[0] == 'L'; if (lazy) s = s.substr(1);
  FT x = vh::parse_ft(s);
  if (lazy) { FT y = (x * FT(3) + FT(1)) - FT(1); x = y / FT(3); }    // a value that has to be computed
  return x;
}
static mpq_class exact(const FT& x) { std::ostringstream o; o << x.exact(); mpq_class q(o.str()); q.canonicalize(); return q; }
static std::string bytes(const mpz_class& z) {
  std::string h = mpz_class(abs(z)).get_str(16); if (h.size() % 2) h = "0" + h;
  std::string r = "["; for (std::size_t i = 0; i < h.size(); i += 2) r += (i ? "," : "") + std::to_string(std::stoi(h.substr(i, 2), nullptr, 16)); return r + "]";
}
static bool as_double(const mpq_class& q, double& d) {
  if (mpz_sizeinbase(q.get_num_mpz_t(), 2) > 1024 || mpz_sizeinbase(q.get_den_mpz_t(), 2) > 1100) return false;
  d = q.get_d(); return std::isfinite(d) && mpq_class(d) == q;
}
static std::string jcoord(const FT& x) {
  mpq_class q = exact(x); double d = 0; std::string b = "[";
  if (as_double(q, d)) { auto u = std::bit_cast<std::uint64_t>(d); for (int i = 7; i >= 0; --i) b += (i < 7 ? "," : "") + std::to_string((u >> (8 * i)) & 255); }
  return std::string("{\"s\":") + (q < 0 ? "1" : "0") + ",\"n\":" + bytes(q.get_num()) + ",\"d\":" + bytes(q.get_den()) + ",\"b\":" + b + "]}";
}
static std::string bits(const FT& x) {     // IEEE bits of the coordinate, or a mark that no document spells
  mpq_class q = exact(x); double d = 0; if (!as_double(q, d)) return "not a double";
  char b[20]; std::snprintf(b, 20, "%016lx", std::bit_cast<std::uint64_t>(d == 0 ? 0.0 : d)); return b;
}
template <class D> static std::string dbytes(const D& x) {
  if constexpr (std::is_same_v<D, Null_data>) return "[]";
  else { unsigned char b[sizeof(D)]; std::memcpy(b, &x, sizeof(D)); std::string r = "["; for (std::size_t i = 0; i < sizeof(D); ++i) r += (i ? "," : "") + std::to_string(b[i]); return r + "]"; }
}
template <class D> static D dparse(const std::string& s) {
  if constexpr (std::is_same_v<D, Null_data>) return {};
  else if constexpr (std::is_same_v<D, double>) return std::strtod(s.c_str(), nullptr);
  else if constexpr (std::is_same_v<D, bool>) return s != "0";
  else return static_cast<D>(std::stoll(s));
}
template <class D> static Triangle_soup<K, D> rsoup(std::istream& is) {
  Triangle_soup<K, D> s; int n; is >> n;
  for (int i = 0; i < n; ++i) { std::string x, y, z; is >> x >> y >> z; s.add_vertex({coord(x), coord(y), coord(z)}); }
  is >> n;
  for (int i = 0; i < n; ++i) { long a, b, c; std::string d; is >> a >> b >> c >> d; auto fi = s.add_face({Vertex_index{std::size_t(a)}, Vertex_index{std::size_t(b)}, Vertex_index{std::size_t(c)}}); s.data(fi) = dparse<D>(d); }
  if (!is) { std::cerr << "driver: bad soup\n"; std::exit(3); }
  return s;
}
template <class D> static Region<K, D> rregion(std::istream& is) {
  int kind; is >> kind; auto s = rsoup<D>(is);
  return kind == 0 ? Region<K, D>::empty() : kind == 1 ? Region<K, D>::full() : Region<K, D>(std::move(s));
}
template <class D> static std::string jregion(const Region<K, D>& r) {
  std::ostringstream o; const auto& s = r.boundary();
  o << "{\"kind\":" << (r.is_empty() ? 0 : r.is_full() ? 1 : 2) << ",\"v\":["; const char* c = "";
  for (auto vi : s.vertices()) { const auto& p = s.point(vi); o << c << "[" << jcoord(p.x()) << "," << jcoord(p.y()) << "," << jcoord(p.z()) << "]"; c = ","; }
  o << "],\"f\":["; c = ""; for (auto fi : s.faces()) { const auto& f = s.face(fi); o << c << "[" << f[0].idx() << "," << f[1].idx() << "," << f[2].idx() << "]"; c = ","; }
  o << "],\"d\":["; c = ""; for (auto fi : s.faces()) { o << c << dbytes<D>(s.data(fi)); c = ","; }
  o << "]}"; return o.str();
}
template <class D> static std::string jsoup(const Triangle_soup<K, D>& s) {
  std::ostringstream o; const char* c = ""; o << "{\"v\":[";
  for (auto vi : s.vertices()) { const auto& p = s.point(vi); o << c << "[\"" << bits(p.x()) << "\",\"" << bits(p.y()) << "\",\"" << bits(p.z()) << "\"]"; c = ","; }
  o << "],\"f\":["; c = ""; for (auto fi : s.faces()) { const auto& f = s.face(fi); o << c << "[" << f[0].idx() << "," << f[1].idx() << "," << f[2].idx() << "]"; c = ","; }
  o << "]}"; return o.str();
}
static std::string jbytes(const std::string& b) { std::string r = "["; for (std::size_t i = 0; i < b.size(); ++i) r += (i ? "," : "") + std::to_string(static_cast<unsigned char>(b[i])); return r + "]"; }
static std::string unhex(const std::string& h) { if (h == "-") return ""; std::string r; for (std::size_t i = 0; i + 1 < h.size(); i += 2) r += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16)); return r; }
static std::string hex(const std::string& b) { std::string r; char t[3]; for (unsigned char c : b) { std::snprintf(t, 3, "%02x", c); r += t; } return r; }
static void spit(const std::string& f, const std::string& b) { std::ofstream o(f, std::ios::binary); o.write(b.data(), b.size()); }
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
template <class F> static std::string guard(F f) {
  try { f(); return ""; } catch (const std::exception& e) { return std::string("exception: ") + e.what(); } catch (...) { return "exception"; }
}
static std::string kfile() { return dir + "/r.kigumi"; }
static std::string tfile(const std::string& fmt) { return dir + "/t." + fmt; }
static void limit(rlim_t n) { rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &l); }

// something that a destination may hold before a read
template <class D> static Region<K, D> prior(int p) {
  if (p == 1) return Region<K, D>::empty();
  if (p == 2) return Region<K, D>::full();
  if (p == 0) return Region<K, D>();
  std::istringstream is("2 4 0 0 0 3 0 0 0 3 0 0 0 1/3 4 0 2 1 1 0 1 3 1 1 2 3 0 2 0 3 1"); auto r = rregion<D>(is);
  if (p == 4) (void)r.bounded_side(Point(FT(1) / 7, FT(1) / 7, FT(1) / 70));   // with a built index
  return r;
}
// the sides of some points, as the region and as a fresh copy of its content answers
template <class D> static std::string sides(const Region<K, D>& r) {
  std::ostringstream a;
  if (!r.is_empty_or_full())     // queries are about coordinates that doubles can enclose
    for (auto vi : r.boundary().vertices()) { auto b = r.boundary().point(vi).bbox(); for (int k = 0; k < 3; ++k) if (!std::isfinite(b.min(k)) || !std::isfinite(b.max(k))) return "beyond"; }
  for (auto& q : {Point(FT(1) / 7, FT(1) / 7, FT(1) / 70), Point(50, 51, 52)}) { try { a << r.bounded_side(q) << ";"; } catch (...) { a << "exception;"; } }
  return a.str();
}
template <class D> static std::string fresh_sides(const Region<K, D>& r) {
  if (r.is_empty_or_full()) return sides(r);
  std::vector<Point> p; std::vector<Face> f; std::vector<D> d;
  const auto& s = r.boundary(); Triangle_soup<K, D> t;
  for (auto vi : s.vertices()) t.add_vertex(s.point(vi));
  for (auto fi : s.faces()) t.add_face(s.face(fi));
  return sides(Region<K, D>(std::move(t)));
}
template <class D> static bool do_read(const std::string& via, const std::string& b, Region<K, D>& r) {
  if (via == "stream") { std::istringstream is(b, std::ios::binary); return read_kigumi_region(is, r); }
  if (via == "slow") { FailIn f(b, b.size(), 0); std::istream is(&f); return read_kigumi_region(is, r); }
  spit(kfile(), b); return read_kigumi_region(kfile(), r);
}
template <class D> static void region_cmd(const std::string& k, std::istream& is, const std::string& pre) {
  if (k == "kw") {          // write, read back into some destination, write again
    std::string via; int p; is >> via >> p; auto r = rregion<D>(is); std::string b, b2; bool ok = false, rok = false, ok2 = false;
    auto e = guard([&] { if (via == "file") { ok = write_kigumi_region(kfile(), r); b = slurp(kfile()); } else { std::ostringstream o; ok = write_kigumi_region(o, r); b = o.str(); } });
    auto d = prior<D>(p);
    auto e2 = guard([&] { rok = do_read(via, b, d); });
    auto e3 = guard([&] { std::ostringstream o; ok2 = write_kigumi_region(o, d); b2 = o.str(); });
    *out << pre << ",\"bytes\":" << jbytes(b) << ",\"ok\":" << ok << ",\"rok\":" << rok << ",\"ok2\":" << ok2 << ",\"again\":" << (b == b2) << ",\"stale\":" << (rok && sides(d) != fresh_sides(d)) << ",\"back\":" << jregion(d) << ",\"exc\":\"" << vh::esc(e + e2 + e3) << "\"}\n";
  } else if (k == "kr") {   // read given bytes
    std::string via, h; int p; is >> via >> p >> h; auto b = unhex(h); auto d = prior<D>(p); auto before = jregion(d); bool ok = false;
    auto e = guard([&] { ok = do_read(via, b, d); });
    auto e2 = guard([&] { if (ok && sides(d) != fresh_sides(d)) e = "stale"; });
    *out << pre << ",\"bytes\":" << jbytes(b) << ",\"ok\":" << ok << ",\"before\":" << before << ",\"got\":" << jregion(d) << ",\"exc\":\"" << vh::esc(e + e2) << "\"}\n";
  } else if (k == "krf") {  // the stream ends or throws after each number of bytes
    int p; std::string h; is >> p >> h; auto b = unhex(h); auto d0 = prior<D>(p); auto before = jregion(d0);
    for (int mode = 0; mode < 2; ++mode) {
      std::string ok = "[", same = "["; std::string exc;
      for (std::size_t c = 0; c <= b.size(); ++c) {
        auto d = d0; bool r = false; FailIn f(b, c, mode); std::istream s(&f);
        auto e = guard([&] { r = read_kigumi_region(s, d); }); if (!e.empty()) exc = e;
        ok += (c ? "," : "") + std::to_string(r); same += (c ? "," : "") + std::to_string(!r ? jregion(d) == before : 1);
      }
      *out << pre << ",\"mode\":" << mode << ",\"len\":" << b.size() << ",\"ok\":" << ok << "],\"same\":" << same << "],\"exc\":\"" << vh::esc(exc) << "\"}\n";
    }
  } else if (k == "kwf") {  // the stream or file refuses after each number of bytes
    auto r = rregion<D>(is); std::ostringstream o; write_kigumi_region(o, r); std::size_t n = o.str().size();
    for (int mode = 0; mode < 5; ++mode) {    // unbuffered, buffered, all buffered, throwing, file
      std::string ok = "[", exc;
      for (std::size_t c = 0; c <= n + 1; ++c) {
        bool w = false; std::string e;
        if (mode == 4) { limit(c); e = guard([&] { w = write_kigumi_region(kfile(), r); }); limit(RLIM_INFINITY); }
        else { FailOut f(c, mode == 1 ? 16 : mode == 2 ? n + 10 : 0, mode == 3); std::ostream s(&f); e = guard([&] { w = write_kigumi_region(s, r); }); if (w && f.got.size() != n) e = "content lost"; }
        if (!e.empty()) exc = e; ok += (c ? "," : "") + std::to_string(w);
      }
      *out << pre << ",\"mode\":" << mode << ",\"len\":" << n << ",\"ok\":" << ok << "],\"exc\":\"" << vh::esc(exc) << "\"}\n";
    }
  } else { std::cerr << "driver: bad command " << k << "\n"; std::exit(3); }
}
using Soup = Triangle_soup<K>;
static Soup tprior(int p) { if (!p) return {}; std::istringstream is("3 0 0 0 3 0 0 0 3 1 1 0 1 2 0"); auto s = rsoup<Null_data>(is); if (p == 2) (void)s.aabb_tree(); return s; }
static bool tread(const std::string& fmt, std::istream& is, Soup& s) { return fmt == "obj" ? io::read_obj(is, s) : fmt == "off" ? io::read_off(is, s) : io::read_ply(is, s); }
static bool twrite(const std::string& fmt, std::ostream& os, const Soup& s) { return fmt == "obj" ? io::write_obj(os, s) : fmt == "off" ? io::write_off(os, s) : io::write_ply(os, s); }
static void text_cmd(const std::string& k, std::istream& is, const std::string& pre) {
  std::string fmt; is >> fmt;
  if (k == "tr") {          // read a document
    std::string via, h; int p; is >> via >> p >> h; auto b = unhex(h); auto s = tprior(p); auto before = jsoup(s); bool ok = false;
    auto e = guard([&] {
      if (via == "file") { spit(tfile(fmt), b); ok = read_triangle_soup(tfile(fmt), s); }
      else if (via == "slow") { FailIn f(b, b.size(), 0); std::istream i(&f); ok = tread(fmt, i, s); }
      else { std::istringstream i(b); ok = tread(fmt, i, s); }
    });
    *out << pre << ",\"ok\":" << ok << ",\"before\":" << before << ",\"got\":" << jsoup(s) << ",\"exc\":\"" << vh::esc(e) << "\"}\n";
  } else if (k == "tw") {   // write, keep the document, read it back
    std::string via; int neg; is >> via >> neg; auto s = rsoup<Null_data>(is); std::string b; bool ok = false, rok = false; Soup d = tprior(2);
    auto e = guard([&] {
      io::Write_obj_options o; o.set_negative_indices(neg == 1); io::Write_obj_context ctx(o);
      if (via == "file") { ok = write_triangle_soup(tfile(fmt), s); b = slurp(tfile(fmt)); } else { std::ostringstream os; ok = twrite(fmt, os, s); b = os.str(); }
    });
    auto e2 = guard([&] { if (via == "file") rok = read_triangle_soup(tfile(fmt), d); else { std::istringstream i(b); rok = tread(fmt, i, d); } });
    *out << pre << ",\"doc\":\"" << hex(b) << "\",\"ok\":" << ok << ",\"rok\":" << rok << ",\"back\":" << jsoup(d) << ",\"exc\":\"" << vh::esc(e + e2) << "\"}\n";
  } else if (k == "trf") {  // the stream throws after each number of bytes
    int p; std::string h; is >> p >> h; auto b = unhex(h); auto s0 = tprior(p); auto before = jsoup(s0);
    std::string ok = "[", same = "[", exc;
    for (std::size_t c = 0; c <= b.size(); ++c) {
      auto s = s0; bool r = false; FailIn f(b, c, 1); std::istream i(&f); auto e = guard([&] { r = tread(fmt, i, s); }); if (!e.empty()) exc = e;
      ok += (c ? "," : "") + std::to_string(r); same += (c ? "," : "") + std::to_string(!r ? jsoup(s) == before : 1);
    }
    *out << pre << ",\"mode\":1,\"len\":" << b.size() + 1 << ",\"ok\":" << ok << "],\"same\":" << same << "],\"exc\":\"" << vh::esc(exc) << "\"}\n";
  } else if (k == "twf") {
    auto s = rsoup<Null_data>(is); std::ostringstream o; twrite(fmt, o, s); std::size_t n = o.str().size();
    for (int mode = 0; mode < 5; ++mode) {
      std::string ok = "[", exc;
      for (std::size_t c = 0; c <= n + 1; ++c) {
        bool w = false; std::string e;
        if (mode == 4) { limit(c); e = guard([&] { w = write_triangle_soup(tfile(fmt), s); }); limit(RLIM_INFINITY); }
        else { FailOut f(c, mode == 1 ? 16 : mode == 2 ? n + 10 : 0, mode == 3); std::ostream q(&f); e = guard([&] { w = twrite(fmt, q, s); }); if (w && f.got.size() != n) e = "content lost"; }
        if (!e.empty()) exc = e; ok += (c ? "," : "") + std::to_string(w);
      }
      *out << pre << ",\"mode\":" << mode << ",\"len\":" << n << ",\"ok\":" << ok << "],\"exc\":\"" << vh::esc(exc) << "\"}\n";
    }
  } else if (k == "path") { // files that cannot be opened, read or written: every answer has to be a refusal
    Soup s = tprior(1), d; auto r = prior<int>(3); std::string ans; auto before = jsoup(s), rb = jregion(r);
    fs::create_directory(dir + "/d.obj"); fs::create_directory(dir + "/d.off"); fs::create_directory(dir + "/d.ply"); fs::create_directory(dir + "/d.kigumi");
    auto e = guard([&] {
      for (std::string x : {"obj", "off", "ply"}) {
        ans += std::to_string(read_triangle_soup(dir + "/missing." + x, s)) + std::to_string(read_triangle_soup(dir + "/d." + x, s)) + std::to_string(write_triangle_soup(dir + "/no/where." + x, s)) + std::to_string(write_triangle_soup(dir + "/d." + x, s));
        if (fs::exists("/dev/full")) { fs::remove(dir + "/full." + x); fs::create_symlink("/dev/full", dir + "/full." + x); ans += std::to_string(write_triangle_soup(dir + "/full." + x, s)); }
      }
      for (std::string x : {"stl", "", "objx", "kigumi"}) { spit(dir + "/t." + x, "OFF\n0 0 0\n"); ans += std::to_string(read_triangle_soup(dir + "/t." + x, s)) + std::to_string(write_triangle_soup(dir + "/u." + x, s)); }
      ans += std::to_string(read_kigumi_region(dir + "/missing.kigumi", r)) + std::to_string(read_kigumi_region(dir + "/d.kigumi", r)) + std::to_string(write_kigumi_region(dir + "/no/where.kigumi", r)) + std::to_string(write_kigumi_region(dir + "/d.kigumi", r));
      if (fs::exists("/dev/full")) { fs::remove(dir + "/full.kigumi"); fs::create_symlink("/dev/full", dir + "/full.kigumi"); ans += std::to_string(write_kigumi_region(dir + "/full.kigumi", r)); }
      // streams that have failed already
      std::istringstream bi("OFF\n0 0 0\n"); bi.setstate(std::ios::failbit); std::ostringstream bo; bo.setstate(std::ios::badbit);
      for (std::string x : {"obj", "off", "ply"}) ans += std::to_string(tread(x, bi, s)) + std::to_string(twrite(x, bo, s));
      ans += std::to_string(read_kigumi_region(bi, r)) + std::to_string(write_kigumi_region(bo, r));
    });
    *out << pre << ",\"refused\":" << (ans.find('1') == std::string::npos) << ",\"same\":" << (jsoup(s) == before && jregion(r) == rb) << ",\"n\":" << ans.size() << ",\"exc\":\"" << vh::esc(e) << "\"}\n";
  } else { std::cerr << "driver: bad command " << k << "\n"; std::exit(3); }
}
int main(int argc, char** argv) {
  if (argc < 4) return 3;
  std::signal(SIGXFSZ, SIG_IGN);
  rlimit mem{3000ul << 20, 3000ul << 20}; setrlimit(RLIMIT_AS, &mem);      // a file must not make the reader use arbitrary amounts of memory
  std::ifstream in(argv[1]); std::ofstream o(argv[2]); out = &o; dir = argv[3];
  fs::create_directories(dir);
  std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr);
  std::string line, pre;
  while (std::getline(in, line)) {
    std::istringstream is(line); std::string k, t; is >> k; if (k.empty()) continue;
    if (k == "emit") { o << line.substr(5) << "\n"; continue; }
    if (k == "json") { pre = line.substr(5); continue; }     // the fields of the next event that are known in advance
    o.flush(); is >> t;
    if (k[0] == 'k') {
      if (t == "null") region_cmd<Null_data>(k, is, pre); else if (t == "i32") region_cmd<int>(k, is, pre); else if (t == "u16") region_cmd<std::uint16_t>(k, is, pre);
      else if (t == "u8") region_cmd<std::uint8_t>(k, is, pre); else region_cmd<double>(k, is, pre);
    } else { std::string rest; std::getline(is, rest); std::istringstream is2(t + rest); text_cmd(k, is2, pre); }
  }
  o << "{\"ev\":\"end\"}\n"; o.flush();
  std::_Exit(0);
}
