From 91564fe6ee8bb05cf133311af110059e399b52eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 01/20] fix: triangulate coplanar faces of opposite orientation
 consistently

Projection_traits_3 is built from the face normal, so the symbolic
perturbation that picks a diagonal among cocircular points depended on the
orientation of the face. Overlapping coplanar faces with opposite normals
could be given different diagonals and were then not recognised as
coincident.
---
 include/kigumi/Triangulation.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/Triangulation.h b/include/kigumi/Triangulation.h
index a1e65c0..97bfd4e 100644
--- a/include/kigumi/Triangulation.h
+++ b/include/kigumi/Triangulation.h
@@ -10,6 +10,7 @@
 #include <array>
 #include <boost/unordered/unordered_flat_map.hpp>
 #include <stdexcept>
+#include <utility>
 
 namespace kigumi {
 
@@ -37,6 +38,7 @@ class Triangulation {
     vhs_[1]->info() = b;
     vhs_[2] = cdt_.insert_outside_affine_hull(pc);
     vhs_[2]->info() = c;
+    flipped_ = cdt_.geom_traits().orientation_2_object()(pa, pb, pc) == CGAL::RIGHT_TURN;
   }
 
   template <class OutputIterator>
@@ -46,6 +48,9 @@ class Triangulation {
       auto a = Vertex_index{it->vertex(0)->info()};
       auto b = Vertex_index{it->vertex(1)->info()};
       auto c = Vertex_index{it->vertex(2)->info()};
+      if (flipped_) {
+        std::swap(b, c);
+      }
       *faces++ = {a, b, c};
       ++count;
     }
@@ -129,10 +134,22 @@ class Triangulation {
   }
 
   static CDT_traits make_cdt_traits(const Point& pa, const Point& pb, const Point& pc) {
-    return CDT_traits{CGAL::normal(pa, pb, pc)};
+    // The symbolic perturbation of cocircular points depends on the direction of the normal. Use
+    // the same direction for both orientations of a plane so that coplanar faces are triangulated
+    // identically where they overlap.
+    auto n = CGAL::normal(pa, pb, pc);
+    auto sign = CGAL::sign(n.x());
+    if (sign == CGAL::ZERO) {
+      sign = CGAL::sign(n.y());
+    }
+    if (sign == CGAL::ZERO) {
+      sign = CGAL::sign(n.z());
+    }
+    return CDT_traits{sign == CGAL::NEGATIVE ? -n : n};
   }
 
   Triangle_region f_{};
+  bool flipped_{};
   CDT cdt_;
   std::array<Vertex_handle, 3> vhs_;
   boost::unordered_flat_map<std::size_t, Vertex_handle> id_to_vh_;
-- 
2.43.0


From 43d75008020581d2653d175f056690695bf086f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 02/20] fix: find intersections of coincident faces with other
 faces

A face that coincides with a face of the other soup was skipped even against
faces it does not coincide with. When the other soup has further faces at an
edge of the face, the edge was not recorded as an intersection and tags were
propagated across it.
---
 include/kigumi/Find_possibly_intersecting_faces.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kigumi/Find_possibly_intersecting_faces.h b/include/kigumi/Find_possibly_intersecting_faces.h
index ef6a8f1..296e1e7 100644
--- a/include/kigumi/Find_possibly_intersecting_faces.h
+++ b/include/kigumi/Find_possibly_intersecting_faces.h
@@ -36,16 +36,16 @@ class Find_possibly_intersecting_faces {
         [&](auto b_fi, auto& local_pairs) {
           thread_local std::vector<const Leaf*> leaves;
 
-          if (b_face_tags.at(b_fi.idx()) != Face_tag::UNKNOWN) {
-            return;
-          }
+          auto b_is_coplanar = b_face_tags.at(b_fi.idx()) != Face_tag::UNKNOWN;
 
           leaves.clear();
           a_tree.get_intersecting_leaves(std::back_inserter(leaves), internal::face_bbox(b, b_fi));
 
           for (const auto* leaf : leaves) {
             auto a_fi = leaf->face_index();
-            if (a_face_tags.at(a_fi.idx()) != Face_tag::UNKNOWN) {
+            // A face that coincides with a face of the other soup may still share an edge with
+            // other faces of that soup.
+            if (b_is_coplanar && a_face_tags.at(a_fi.idx()) != Face_tag::UNKNOWN) {
               continue;
             }
 
-- 
2.43.0


From 5cd40bea72914e03016f1f3cab28ada5b0a4add8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 03/20] fix: do not keep references to destroyed point lists in
 thread-local objects

With one thread (or one element) parallel_do runs the body in the calling
thread, where the thread_local Face_face_intersection outlived the point list
it refers to and was reused by the next operation.
---
 include/kigumi/Corefine.h     |  9 +++++----
 include/kigumi/Find_defects.h | 12 ++++++++----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/kigumi/Corefine.h b/include/kigumi/Corefine.h
index cceb1bf..688ffa6 100644
--- a/include/kigumi/Corefine.h
+++ b/include/kigumi/Corefine.h
@@ -62,9 +62,11 @@ class Corefine {
 
     std::size_t num_intersections{};
     parallel_do(
-        pairs.begin(), pairs.end(), std::pair<std::vector<Intersection_info>, std::size_t>{},
+        pairs.begin(), pairs.end(),
+        std::tuple<Face_face_intersection, std::vector<Intersection_info>, std::size_t>{
+            Face_face_intersection{points_}, {}, 0},
         [&](const auto& pair, auto& local_state) {
-          thread_local Face_face_intersection face_face_intersection{points_};
+          auto& [face_face_intersection, local_infos, local_num_intersections] = local_state;
 
           auto [left_fi, right_fi] = pair;
           const auto& left_face = left_.face(left_fi);
@@ -79,12 +81,11 @@ class Corefine {
           if (sym_inters.empty()) {
             return;
           }
-          auto& [local_infos, local_num_intersections] = local_state;
           local_infos.emplace_back(left_fi, right_fi, sym_inters);
           local_num_intersections += sym_inters.size();
         },
         [&](auto& local_state) {
-          auto& [local_infos, local_num_intersections] = local_state;
+          auto& [_, local_infos, local_num_intersections] = local_state;
           if (infos_.empty()) {
             infos_ = std::move(local_infos);
           } else {
diff --git a/include/kigumi/Find_defects.h b/include/kigumi/Find_defects.h
index a318df7..f6ca041 100644
--- a/include/kigumi/Find_defects.h
+++ b/include/kigumi/Find_defects.h
@@ -23,6 +23,7 @@ namespace kigumi {
 
 template <class K, class FaceData>
 class Find_defects {
+  using Face_face_intersection = Face_face_intersection<K>;
   using Point_list = Point_list<K>;
   using Triangle_soup = Triangle_soup<K, FaceData>;
   using Leaf = typename Triangle_soup::Leaf;
@@ -300,9 +301,11 @@ class Find_defects {
     const auto& tree = m.aabb_tree();
 
     parallel_do(
-        m.faces_begin(), m.faces_end(), std::vector<Face_index>{},
-        [&](auto fi, auto& local_fis) {
-          thread_local Face_face_intersection face_face_intersection{points};
+        m.faces_begin(), m.faces_end(),
+        std::pair<Face_face_intersection, std::vector<Face_index>>{Face_face_intersection{points},
+                                                                   {}},
+        [&](auto fi, auto& local_state) {
+          auto& [face_face_intersection, local_fis] = local_state;
           thread_local std::vector<const Leaf*> leaves;
           thread_local std::vector<Vertex_index> shared_vertices;
 
@@ -352,7 +355,8 @@ class Find_defects {
             }
           }
         },
-        [&](auto& local_fis) {
+        [&](auto& local_state) {
+          auto& local_fis = local_state.second;
           if (fis.empty()) {
             fis = std::move(local_fis);
           } else {
-- 
2.43.0


From 53d146a8c551103d58b96334a30e84c2791f77ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 04/20] fix: read binary regions all-or-nothing and reject
 malformed data

Reading appended to the boundary of the destination and left it partially
overwritten on failure. Truncated or malformed files could throw, allocate
gigabytes or loop for billions of iterations before failing, and out-of-range
kinds and vertex indices were accepted.
---
 include/kigumi/Region.h        | 17 +++++++++++--
 include/kigumi/Triangle_soup.h | 27 ++++++++++++++------
 include/kigumi/io.h            | 46 ++++++++++++++++++++++++++--------
 3 files changed, 69 insertions(+), 21 deletions(-)

diff --git a/include/kigumi/Region.h b/include/kigumi/Region.h
index 35b4640..cb1a625 100644
--- a/include/kigumi/Region.h
+++ b/include/kigumi/Region.h
@@ -30,6 +30,10 @@ struct Read<Region_kind> {
   void operator()(std::istream& in, Region_kind& t) const {
     std::uint8_t x{};
     kigumi_read<std::uint8_t>(in, x);
+    if (x > static_cast<std::uint8_t>(Region_kind::BOUNDARY_DEFINED)) {
+      in.setstate(std::ios::failbit);
+      return;
+    }
     t = static_cast<Region_kind>(x);
   }
 };
@@ -108,8 +112,17 @@ struct Write<Region<K, FaceData>> {
 template <class K, class FaceData>
 struct Read<Region<K, FaceData>> {
   void operator()(std::istream& in, Region<K, FaceData>& t) const {
-    kigumi_read<Region_kind>(in, t.kind_);
-    kigumi_read<Triangle_soup<K, FaceData>>(in, t.boundary_);
+    Region_kind kind{};
+    kigumi_read<Region_kind>(in, kind);
+    Triangle_soup<K, FaceData> boundary;
+    kigumi_read<Triangle_soup<K, FaceData>>(in, boundary);
+    if (kind == Region_kind::BOUNDARY_DEFINED && boundary.num_faces() == 0) {
+      in.setstate(std::ios::failbit);
+    }
+    if (in) {
+      t.kind_ = kind;
+      t.boundary_ = std::move(boundary);
+    }
   }
 };
 
diff --git a/include/kigumi/Triangle_soup.h b/include/kigumi/Triangle_soup.h
index b07007f..d583830 100644
--- a/include/kigumi/Triangle_soup.h
+++ b/include/kigumi/Triangle_soup.h
@@ -185,12 +185,14 @@ struct Write<Triangle_soup<K, FaceData>> {
 template <class K, class FaceData>
 struct Read<Triangle_soup<K, FaceData>> {
   void operator()(std::istream& in, Triangle_soup<K, FaceData>& t) const {
+    Triangle_soup<K, FaceData> soup;
+
     std::size_t num_vertices{};
     std::size_t num_faces{};
     kigumi_read<std::int32_t>(in, num_vertices);
     kigumi_read<std::int32_t>(in, num_faces);
 
-    for (std::size_t i = 0; i < num_vertices; ++i) {
+    for (std::size_t i = 0; in && i < num_vertices; ++i) {
       bool is_exact{};
       kigumi_read<bool>(in, is_exact);
 
@@ -201,7 +203,7 @@ struct Read<Triangle_soup<K, FaceData>> {
         kigumi_read<double>(in, x);
         kigumi_read<double>(in, y);
         kigumi_read<double>(in, z);
-        t.add_vertex({x, y, z});
+        soup.add_vertex({x, y, z});
       } else {
         CGAL::Exact_rational x;
         CGAL::Exact_rational y;
@@ -209,21 +211,30 @@ struct Read<Triangle_soup<K, FaceData>> {
         kigumi_read<CGAL::Exact_rational>(in, x);
         kigumi_read<CGAL::Exact_rational>(in, y);
         kigumi_read<CGAL::Exact_rational>(in, z);
-        t.add_vertex({CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(x)},
-                      CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(y)},
-                      CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(z)}});
+        soup.add_vertex({CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(x)},
+                         CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(y)},
+                         CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(z)}});
       }
     }
 
-    for (std::size_t i = 0; i < num_faces; ++i) {
+    for (std::size_t i = 0; in && i < num_faces; ++i) {
       Face face{};
       FaceData f_data{};
       kigumi_read<Vertex_index>(in, face[0]);
       kigumi_read<Vertex_index>(in, face[1]);
       kigumi_read<Vertex_index>(in, face[2]);
       kigumi_read<FaceData>(in, f_data);
-      auto fi = t.add_face(face);
-      t.data(fi) = f_data;
+      for (auto vi : face) {
+        if (vi.idx() >= num_vertices) {
+          in.setstate(std::ios::failbit);
+        }
+      }
+      auto fi = soup.add_face(face);
+      soup.data(fi) = f_data;
+    }
+
+    if (in) {
+      t = std::move(soup);
     }
   }
 };
diff --git a/include/kigumi/io.h b/include/kigumi/io.h
index 6d64381..524c840 100644
--- a/include/kigumi/io.h
+++ b/include/kigumi/io.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <boost/endian/conversion.hpp>
 #include <cstdint>
 #include <iostream>
@@ -59,7 +60,24 @@ template <class U, class T, std::enable_if_t<!std::is_same_v<U, T>, std::nullptr
 void kigumi_read(std::istream& in, T& t) {
   U x{};
   Read<U>{}(in, x);
-  t = checked_cast<T>(x);
+  if (!std::in_range<T>(x)) {
+    in.setstate(std::ios::failbit);
+    return;
+  }
+  t = static_cast<T>(x);
+}
+
+// Does not allocate much more memory than the stream has data for.
+inline void kigumi_read_bytes(std::istream& in, std::vector<std::uint8_t>& buf, std::size_t count) {
+  constexpr std::size_t chunk_size{65536};
+
+  buf.clear();
+  while (in && buf.size() < count) {
+    auto offset = buf.size();
+    auto n = std::min(chunk_size, count - offset);
+    buf.resize(offset + n);
+    in.read(reinterpret_cast<char*>(buf.data() + offset), static_cast<std::streamsize>(n));
+  }
 }
 
 template <>
@@ -114,15 +132,18 @@ struct Read<boost::multiprecision::cpp_rational> {
     std::size_t count{};
 
     kigumi_read<std::int32_t>(in, count);
-    buf.resize(count);
-    in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
+    kigumi_read_bytes(in, buf, count);
     import_bits(num, buf.begin(), buf.end());
 
     kigumi_read<std::int32_t>(in, count);
-    buf.resize(count);
-    in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
+    kigumi_read_bytes(in, buf, count);
     import_bits(den, buf.begin(), buf.end());
 
+    if (!in || den == 0) {
+      in.setstate(std::ios::failbit);
+      return;
+    }
+
     t = boost::multiprecision::cpp_rational{std::move(num), std::move(den)};
     if (neg) {
       t = -std::move(t);
@@ -170,14 +191,17 @@ struct Read<mpq_class> {
     std::size_t count{};
 
     kigumi_read<std::int32_t>(in, count);
-    buf.resize(count);
-    in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
-    mpz_import(num.get_mpz_t(), count, 1, 1, 0, 0, buf.data());
+    kigumi_read_bytes(in, buf, count);
+    mpz_import(num.get_mpz_t(), buf.size(), 1, 1, 0, 0, buf.data());
 
     kigumi_read<std::int32_t>(in, count);
-    buf.resize(count);
-    in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
-    mpz_import(den.get_mpz_t(), count, 1, 1, 0, 0, buf.data());
+    kigumi_read_bytes(in, buf, count);
+    mpz_import(den.get_mpz_t(), buf.size(), 1, 1, 0, 0, buf.data());
+
+    if (!in || den == 0) {
+      in.setstate(std::ios::failbit);
+      return;
+    }
 
     t = mpq_class{std::move(num)} / mpq_class{std::move(den)};
     if (neg) {
-- 
2.43.0


From f4f055eb6073fe6a7907b10b5969c29e66211568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 05/20] fix: choose the encoding of coordinates by value

A point that had not been evaluated exactly was written as rationals even if
doubles represent it, so writing the same region twice or rewriting a loaded
region gave different bytes.
---
 include/kigumi/Triangle_soup.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/Triangle_soup.h b/include/kigumi/Triangle_soup.h
index d583830..8ddc705 100644
--- a/include/kigumi/Triangle_soup.h
+++ b/include/kigumi/Triangle_soup.h
@@ -158,7 +158,15 @@ struct Write<Triangle_soup<K, FaceData>> {
     for (auto vi : t.vertices()) {
       const auto& p = t.point(vi);
 
-      if (p.approx().x().is_point() && p.approx().y().is_point() && p.approx().z().is_point()) {
+      auto is_double = [&p]() -> bool {
+        return p.approx().x().is_point() && p.approx().y().is_point() && p.approx().z().is_point();
+      };
+      if (!is_double()) {
+        // Make the approximation as tight as possible so that the encoding depends only on the value.
+        p.exact();
+      }
+
+      if (is_double()) {
         kigumi_write<bool>(out, false);
         kigumi_write<double>(out, p.approx().x().inf());
         kigumi_write<double>(out, p.approx().y().inf());
-- 
2.43.0


From 54154ba737769aac0cefe5d78d053768d5186cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 06/20] fix: report write errors that happen when buffered
 output is flushed

---
 include/kigumi/Region_io.h | 2 +-
 include/kigumi/io/obj.h    | 2 +-
 include/kigumi/io/off.h    | 2 +-
 include/kigumi/io/ply.h    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kigumi/Region_io.h b/include/kigumi/Region_io.h
index 3802d9d..2c4df64 100644
--- a/include/kigumi/Region_io.h
+++ b/include/kigumi/Region_io.h
@@ -34,7 +34,7 @@ bool write_kigumi_region(std::ostream& os, const Region<K, FaceData>& region) {
     return false;
   }
   kigumi_write<Region<K, FaceData>>(os, region);
-  return os.good();
+  return os.flush().good();
 }
 
 template <class K, class FaceData>
diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index 5b23abb..7abc82b 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -130,7 +130,7 @@ bool write_obj(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
     }
   }
 
-  return os.good();
+  return os.flush().good();
 }
 
 template <class K, class FaceData>
diff --git a/include/kigumi/io/off.h b/include/kigumi/io/off.h
index 12525a0..db285b8 100644
--- a/include/kigumi/io/off.h
+++ b/include/kigumi/io/off.h
@@ -210,7 +210,7 @@ bool write_off(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
     os << "3 " << f[0].idx() << ' ' << f[1].idx() << ' ' << f[2].idx() << '\n';
   }
 
-  return os.good();
+  return os.flush().good();
 }
 
 template <class K, class FaceData>
diff --git a/include/kigumi/io/ply.h b/include/kigumi/io/ply.h
index f10563c..d770359 100644
--- a/include/kigumi/io/ply.h
+++ b/include/kigumi/io/ply.h
@@ -321,7 +321,7 @@ bool write_ply(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
     os << "3 " << f[0].idx() << ' ' << f[1].idx() << ' ' << f[2].idx() << '\n';
   }
 
-  return os.good();
+  return os.flush().good();
 }
 
 template <class K, class FaceData>
-- 
2.43.0


From 0f230b1fc0a812231f5a8951b29981466f6065de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 07/20] fix: rebuild the spatial index after faces are added

---
 include/kigumi/Triangle_soup.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kigumi/Triangle_soup.h b/include/kigumi/Triangle_soup.h
index 8ddc705..6f78c4c 100644
--- a/include/kigumi/Triangle_soup.h
+++ b/include/kigumi/Triangle_soup.h
@@ -84,6 +84,7 @@ class Triangle_soup {
   Face_index add_face(const Face& face) {
     faces_.push_back(face);
     face_data_.emplace_back();
+    aabb_tree_.reset();
     return Face_index{faces_.size() - 1};
   }
 
-- 
2.43.0


From a27f96e3003f77abed59290d637c84e079d58aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 08/20] fix: honour the configured number of threads in
 parallel loops without state

---
 include/kigumi/parallel_do.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/kigumi/parallel_do.h b/include/kigumi/parallel_do.h
index 149bb29..dc97879 100644
--- a/include/kigumi/parallel_do.h
+++ b/include/kigumi/parallel_do.h
@@ -80,8 +80,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
     return;
   }
 
-  auto num_threads = std::clamp(static_cast<std::size_t>(std::thread::hardware_concurrency()),
-                                std::size_t{1}, size);
+  auto num_threads = std::min(Threading_context::current().num_threads(), size);
   if (num_threads == 1) {
     for (auto it = first; it != last; ++it) {
       body(*it);
-- 
2.43.0


From 027112daa8cfd05d736dd0695bf99692eb5a5d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 09/20] fix: do not read the exception pointer while another
 thread may write it

---
 include/kigumi/parallel_do.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/kigumi/parallel_do.h b/include/kigumi/parallel_do.h
index dc97879..48c51f2 100644
--- a/include/kigumi/parallel_do.h
+++ b/include/kigumi/parallel_do.h
@@ -31,6 +31,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
 
   std::vector<std::thread> threads;
   std::atomic<std::size_t> next_index{};
+  std::atomic<bool> failed{};
   std::mutex mutex;
   std::exception_ptr exception_ptr;
 
@@ -48,7 +49,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
 
           body(*(first + index), local_state);
 
-          if (exception_ptr) {
+          if (failed) {
             return;
           }
         }
@@ -59,6 +60,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
         std::lock_guard lock{mutex};
         if (!exception_ptr) {
           exception_ptr = std::current_exception();
+          failed = true;
         }
       }
     });
@@ -90,6 +92,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
 
   std::vector<std::thread> threads;
   std::atomic<std::size_t> next_index{};
+  std::atomic<bool> failed{};
   std::mutex mutex;
   std::exception_ptr exception_ptr;
 
@@ -105,7 +108,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
 
           body(*(first + index));
 
-          if (exception_ptr) {
+          if (failed) {
             return;
           }
         }
@@ -113,6 +116,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
         std::lock_guard lock{mutex};
         if (!exception_ptr) {
           exception_ptr = std::current_exception();
+          failed = true;
         }
       }
     });
-- 
2.43.0


From 7942d028effaff99dcdd038d49071efe308077ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 10/20] fix: reject malformed faces and failing streams in text
 mesh formats

Out-of-range vertex indices and stream failures while reading OBJ were
accepted, OBJ face lines were cut at the first malformed index, and a huge
vertex count in a face kept the readers busy until memory was exhausted.
---
 include/kigumi/io/obj.h       | 20 ++++++++++++++++++--
 include/kigumi/io/off.h       |  8 +++++++-
 include/kigumi/io/ply.h       | 12 +++++++++---
 include/kigumi/mesh_utility.h | 12 ++++++++++++
 4 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index 7abc82b..95ca632 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -5,6 +5,7 @@
 #include <kigumi/Mesh_indices.h>
 #include <kigumi/Triangle_soup.h>
 #include <kigumi/io/ascii.h>
+#include <kigumi/mesh_utility.h>
 
 #include <fstream>
 #include <iostream>
@@ -63,7 +64,12 @@ bool read_obj(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     } else if (s == "f") {
       face.clear();
       std::ptrdiff_t v{};
-      while (iss >> v) {
+      while (!(iss >> opt_hash_comment_eof)) {
+        iss.clear();
+        if (!(iss >> v)) {
+          std::cerr << "invalid face line: " << line << std::endl;
+          return false;
+        }
         if (v > 0) {
           face.push_back(Vertex_index{static_cast<std::size_t>(v) - 1});
         } else if (v < 0) {
@@ -73,7 +79,7 @@ bool read_obj(std::istream& is, Triangle_soup<K, FaceData>& soup) {
           return false;
         }
         // Ignore optional texture and normal indices.
-        auto c = iss.peek();
+        auto c = iss.eof() ? std::char_traits<char>::eof() : iss.peek();
         while (!std::isspace(c) && c != std::char_traits<char>::eof()) {
           iss.ignore();
           c = iss.peek();
@@ -87,6 +93,16 @@ bool read_obj(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     }
   }
 
+  if (is.bad()) {
+    std::cerr << "failed to read" << std::endl;
+    return false;
+  }
+
+  if (!internal::has_valid_vertex_indices(new_soup)) {
+    std::cerr << "invalid vertex index" << std::endl;
+    return false;
+  }
+
   soup = std::move(new_soup);
   return true;
 }
diff --git a/include/kigumi/io/off.h b/include/kigumi/io/off.h
index db285b8..f40fb37 100644
--- a/include/kigumi/io/off.h
+++ b/include/kigumi/io/off.h
@@ -4,6 +4,7 @@
 #include <kigumi/Mesh_indices.h>
 #include <kigumi/Triangle_soup.h>
 #include <kigumi/io/ascii.h>
+#include <kigumi/mesh_utility.h>
 
 #include <cstdint>
 #include <fstream>
@@ -140,7 +141,7 @@ bool read_off(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         face.clear();
         std::size_t count{};
         iss >> count;
-        for (std::size_t i = 0; i < count; ++i) {
+        for (std::size_t i = 0; iss && i < count; ++i) {
           std::size_t v{};
           iss >> v;
           face.push_back(Vertex_index{v});
@@ -171,6 +172,11 @@ bool read_off(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     return false;
   }
 
+  if (!internal::has_valid_vertex_indices(new_soup)) {
+    std::cerr << "invalid vertex index" << std::endl;
+    return false;
+  }
+
   soup = std::move(new_soup);
   return true;
 }
diff --git a/include/kigumi/io/ply.h b/include/kigumi/io/ply.h
index d770359..0d77880 100644
--- a/include/kigumi/io/ply.h
+++ b/include/kigumi/io/ply.h
@@ -4,6 +4,7 @@
 #include <kigumi/Mesh_indices.h>
 #include <kigumi/Triangle_soup.h>
 #include <kigumi/io/ascii.h>
+#include <kigumi/mesh_utility.h>
 
 #include <cstdint>
 #include <fstream>
@@ -219,7 +220,7 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         } else if (it->type == "list") {
           std::size_t count{};
           iss >> count;
-          for (std::size_t i = 0; i < count; ++i) {
+          for (std::size_t i = 0; iss && i < count; ++i) {
             iss >> s;
           }
         } else {
@@ -237,7 +238,7 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         if (it == vertex_index_property_it) {
           std::size_t count{};
           iss >> count;
-          for (std::size_t i = 0; i < count; ++i) {
+          for (std::size_t i = 0; iss && i < count; ++i) {
             std::size_t v{};
             iss >> v;
             face.push_back(Vertex_index{v});
@@ -245,7 +246,7 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         } else if (it->type == "list") {
           std::size_t count{};
           iss >> count;
-          for (std::size_t i = 0; i < count; ++i) {
+          for (std::size_t i = 0; iss && i < count; ++i) {
             iss >> s;
           }
         } else {
@@ -274,6 +275,11 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     return false;
   }
 
+  if (!internal::has_valid_vertex_indices(new_soup)) {
+    std::cerr << "invalid vertex index" << std::endl;
+    return false;
+  }
+
   soup = std::move(new_soup);
   return true;
 }
diff --git a/include/kigumi/mesh_utility.h b/include/kigumi/mesh_utility.h
index 9419df7..6477381 100644
--- a/include/kigumi/mesh_utility.h
+++ b/include/kigumi/mesh_utility.h
@@ -45,6 +45,18 @@ CGAL::Oriented_side oriented_side_of_face_supporting_plane(const Triangle_soup<K
   return CGAL::orientation(m.point(f[0]), m.point(f[1]), m.point(f[2]), p);
 }
 
+template <class K, class FaceData>
+bool has_valid_vertex_indices(const Triangle_soup<K, FaceData>& m) {
+  for (auto fi : m.faces()) {
+    for (auto vi : m.face(fi)) {
+      if (vi.idx() >= m.num_vertices()) {
+        return false;
+      }
+    }
+  }
+  return true;
+}
+
 }  // namespace internal
 
 }  // namespace kigumi
-- 
2.43.0


From 2192393c7170c6df1bdf90623e0909bd37cc6a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 11/20] fix: check the classification at every intersecting
 edge

Edges whose faces had all been tagged by propagation were skipped, so whether
a partial intersection was reported depended on the order in which the edges
were processed.
---
 include/kigumi/Classify_faces_locally.h | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/include/kigumi/Classify_faces_locally.h b/include/kigumi/Classify_faces_locally.h
index 7caecd5..239a0be 100644
--- a/include/kigumi/Classify_faces_locally.h
+++ b/include/kigumi/Classify_faces_locally.h
@@ -25,17 +25,6 @@ class Classify_faces_locally {
  public:
   Warnings operator()(Mixed_triangle_mesh<K, FaceData>& m, const Edge& edge,
                       const Edge_set& border_edges) const {
-    bool found_untagged_face{};
-    for (auto fi : m.faces_around_edge(edge)) {
-      if (m.data(fi).tag == Face_tag::UNKNOWN) {
-        found_untagged_face = true;
-        break;
-      }
-    }
-    if (!found_untagged_face) {
-      return {};
-    }
-
     const auto& p = m.point(edge[0]);
     const auto& q = m.point(edge[1]);
     Plane_3 plane{p, q - p};
-- 
2.43.0


From 40d829a8a5048599539e93eaa86f7a22202e9932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 12/20] fix: do not classify faces across the outside of the
 clipping region

Where both meshes end at the same edge, the faces at either end of the fan are
not neighbours, and treating them as such could swap interior and exterior.
---
 include/kigumi/Classify_faces_locally.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/kigumi/Classify_faces_locally.h b/include/kigumi/Classify_faces_locally.h
index 239a0be..1e7157b 100644
--- a/include/kigumi/Classify_faces_locally.h
+++ b/include/kigumi/Classify_faces_locally.h
@@ -11,6 +11,7 @@
 #include <kigumi/Warnings.h>
 
 #include <algorithm>
+#include <cstddef>
 #include <stdexcept>
 #include <vector>
 
@@ -77,6 +78,7 @@ class Classify_faces_locally {
 
     // Find pairs of non-overlapping and non-orientable faces and tag them.
 
+    auto on_border = is_border_edge(m);
     auto is_undefined_configuration = true;
     // At the end of the loop, the kth face is tagged as either interior or exterior.
     std::size_t k{};
@@ -94,6 +96,11 @@ class Classify_faces_locally {
 
       // Neither f nor g is overlapping with adjacent faces.
 
+      if (on_border && CGAL::orientation(f.r, g.r) <= 0) {
+        // The space between f and g is outside the region that the meshes are defined in.
+        continue;
+      }
+
       if (f.orientation == g.orientation) {
         if (f.orientation == CGAL::COUNTERCLOCKWISE) {
           f_data.tag = Face_tag::INTERIOR;
@@ -230,6 +237,17 @@ class Classify_faces_locally {
     }
   };
 
+  // Returns whether the edge is on the border of either of the meshes.
+  bool is_border_edge(const Mixed_triangle_mesh<K, FaceData>& m) const {
+    std::ptrdiff_t left_balance{};
+    std::ptrdiff_t right_balance{};
+    for (const auto& f : faces_) {
+      auto& balance = m.data(f.fi).from_left ? left_balance : right_balance;
+      balance += f.orientation == CGAL::COUNTERCLOCKWISE ? 1 : -1;
+    }
+    return left_balance != 0 || right_balance != 0;
+  }
+
   mutable std::vector<Face_around_edge> faces_;
   mutable Propagate_face_tags propagate_face_tags_;
 };
-- 
2.43.0


From e50321f18f4b0da7c097a2978257237932b7dc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 13/20] fix: do not lose tags written by several threads at the
 same time

Workers read and wrote the tags of shared faces without synchronisation. A tag
overwritten between a check and a write could hide a partial intersection.
---
 include/kigumi/Classify_faces_locally.h | 46 +++++++++++++++----------
 include/kigumi/Face_tag.h               | 19 ++++++++++
 include/kigumi/Propagate_face_tags.h    |  7 ++--
 3 files changed, 49 insertions(+), 23 deletions(-)

diff --git a/include/kigumi/Classify_faces_locally.h b/include/kigumi/Classify_faces_locally.h
index 1e7157b..da63aa5 100644
--- a/include/kigumi/Classify_faces_locally.h
+++ b/include/kigumi/Classify_faces_locally.h
@@ -60,6 +60,8 @@ class Classify_faces_locally {
 
     std::sort(faces_.begin(), faces_.end(), Radial_ordering{});
 
+    Warnings warnings{};
+
     // Tag coplanar/opposite faces first.
 
     for (std::size_t i = 0; i < faces_.size(); ++i) {
@@ -71,8 +73,8 @@ class Classify_faces_locally {
 
       if (f.vi_r == g.vi_r) {
         auto tag = f.orientation == g.orientation ? Face_tag::COPLANAR : Face_tag::OPPOSITE;
-        f_data.tag = tag;
-        g_data.tag = tag;
+        warnings |= set_tag(f_data, tag);
+        warnings |= set_tag(g_data, tag);
       }
     }
 
@@ -89,8 +91,11 @@ class Classify_faces_locally {
       const auto& g = faces_.at(j);
       auto& g_data = m.data(g.fi);
 
-      if (f_data.tag == Face_tag::COPLANAR || f_data.tag == Face_tag::OPPOSITE ||
-          g_data.tag == Face_tag::COPLANAR || g_data.tag == Face_tag::OPPOSITE) {
+      auto f_tag = load_tag(f_data.tag);
+      auto g_tag = load_tag(g_data.tag);
+
+      if (f_tag == Face_tag::COPLANAR || f_tag == Face_tag::OPPOSITE ||
+          g_tag == Face_tag::COPLANAR || g_tag == Face_tag::OPPOSITE) {
         continue;
       }
 
@@ -103,11 +108,11 @@ class Classify_faces_locally {
 
       if (f.orientation == g.orientation) {
         if (f.orientation == CGAL::COUNTERCLOCKWISE) {
-          f_data.tag = Face_tag::INTERIOR;
-          g_data.tag = Face_tag::EXTERIOR;
+          warnings |= set_tag(f_data, Face_tag::INTERIOR);
+          warnings |= set_tag(g_data, Face_tag::EXTERIOR);
         } else {
-          f_data.tag = Face_tag::EXTERIOR;
-          g_data.tag = Face_tag::INTERIOR;
+          warnings |= set_tag(f_data, Face_tag::EXTERIOR);
+          warnings |= set_tag(g_data, Face_tag::INTERIOR);
         }
         is_undefined_configuration = false;
         k = j;
@@ -130,7 +135,7 @@ class Classify_faces_locally {
 
       auto consistent = true;
       for (auto dry_run : {true, false}) {
-        auto tag = m.data(faces_.at(k).fi).tag;
+        auto tag = load_tag(m.data(faces_.at(k).fi).tag);
         auto orientation = faces_.at(k).orientation;
         // Go around and return to the starting point to check consistency.
         for (std::size_t i = k + 1; i <= k + faces_.size(); ++i) {
@@ -142,12 +147,8 @@ class Classify_faces_locally {
           }
           orientation = f.orientation;
 
-          if (f_data.tag == Face_tag::UNKNOWN) {
-            if (!dry_run) {
-              f_data.tag = tag;
-            }
-          } else if ((f_data.tag == Face_tag::EXTERIOR || f_data.tag == Face_tag::INTERIOR) &&
-                     f_data.tag != tag) {
+          auto f_tag = dry_run ? load_tag(f_data.tag) : set_unknown_tag(f_data.tag, tag);
+          if ((f_tag == Face_tag::EXTERIOR || f_tag == Face_tag::INTERIOR) && f_tag != tag) {
             consistent = false;
             break;
           }
@@ -162,11 +163,8 @@ class Classify_faces_locally {
 
     // Propagate the tags.
 
-    Warnings warnings{};
-
     for (const auto& f : faces_) {
-      const auto& f_data = m.data(f.fi);
-      if (f_data.tag != Face_tag::UNKNOWN) {
+      if (load_tag(m.data(f.fi).tag) != Face_tag::UNKNOWN) {
         warnings |= propagate_face_tags_(m, border_edges, f.fi);
       }
     }
@@ -237,6 +235,16 @@ class Classify_faces_locally {
     }
   };
 
+  // Returns a warning if the face has already been tagged differently.
+  static Warnings set_tag(Mixed_face_data<FaceData>& data, Face_tag tag) {
+    auto old_tag = exchange_tag(data.tag, tag);
+    if (old_tag == Face_tag::UNKNOWN || old_tag == tag) {
+      return {};
+    }
+    return data.from_left ? Warnings::FIRST_MESH_PARTIALLY_INTERSECTS_WITH_SECOND_MESH
+                          : Warnings::SECOND_MESH_PARTIALLY_INTERSECTS_WITH_FIRST_MESH;
+  }
+
   // Returns whether the edge is on the border of either of the meshes.
   bool is_border_edge(const Mixed_triangle_mesh<K, FaceData>& m) const {
     std::ptrdiff_t left_balance{};
diff --git a/include/kigumi/Face_tag.h b/include/kigumi/Face_tag.h
index 57bd101..0a801ae 100644
--- a/include/kigumi/Face_tag.h
+++ b/include/kigumi/Face_tag.h
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <atomic>
+#include <cstdint>
+
 namespace kigumi {
 
 enum class Face_tag : std::uint8_t {
@@ -10,4 +13,20 @@ enum class Face_tag : std::uint8_t {
   OPPOSITE,
 };
 
+// During local classification, tags are read and written by several threads.
+
+inline Face_tag load_tag(Face_tag& tag) { return std::atomic_ref{tag}.load(); }
+
+// Returns the previous tag.
+inline Face_tag exchange_tag(Face_tag& tag, Face_tag new_tag) {
+  return std::atomic_ref{tag}.exchange(new_tag);
+}
+
+// Sets the tag if it is unknown. Returns the previous tag.
+inline Face_tag set_unknown_tag(Face_tag& tag, Face_tag new_tag) {
+  auto old_tag = Face_tag::UNKNOWN;
+  std::atomic_ref{tag}.compare_exchange_strong(old_tag, new_tag);
+  return old_tag;
+}
+
 }  // namespace kigumi
diff --git a/include/kigumi/Propagate_face_tags.h b/include/kigumi/Propagate_face_tags.h
index 4a1dad6..8482520 100644
--- a/include/kigumi/Propagate_face_tags.h
+++ b/include/kigumi/Propagate_face_tags.h
@@ -16,9 +16,9 @@ class Propagate_face_tags {
 
  public:
   Warnings operator()(Mixed_triangle_mesh& m, const Edge_set& border_edges, Face_index seed) const {
-    const auto& data = m.data(seed);
+    auto& data = m.data(seed);
     auto from_left = data.from_left;
-    auto tag = data.tag;
+    auto tag = load_tag(data.tag);
 
     Warnings warnings{};
 
@@ -28,9 +28,8 @@ class Propagate_face_tags {
       queue_.pop();
 
       for (auto fi2 : m.faces_around_face(fi, border_edges)) {
-        auto& tag2 = m.data(fi2).tag;
+        auto tag2 = set_unknown_tag(m.data(fi2).tag, tag);
         if (tag2 == Face_tag::UNKNOWN) {
-          tag2 = tag;
           queue_.push(fi2);
         } else if (tag2 != tag) {
           if (from_left) {
-- 
2.43.0


From f9f7cad7dae56947d8e11fca807d5948bf2aeb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 14/20] fix: exchange zero coordinates between builds with
 different number types

---
 include/kigumi/io.h | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/kigumi/io.h b/include/kigumi/io.h
index 524c840..092325a 100644
--- a/include/kigumi/io.h
+++ b/include/kigumi/io.h
@@ -133,11 +133,15 @@ struct Read<boost::multiprecision::cpp_rational> {
 
     kigumi_read<std::int32_t>(in, count);
     kigumi_read_bytes(in, buf, count);
-    import_bits(num, buf.begin(), buf.end());
+    if (!buf.empty()) {
+      import_bits(num, buf.begin(), buf.end());
+    }
 
     kigumi_read<std::int32_t>(in, count);
     kigumi_read_bytes(in, buf, count);
-    import_bits(den, buf.begin(), buf.end());
+    if (!buf.empty()) {
+      import_bits(den, buf.begin(), buf.end());
+    }
 
     if (!in || den == 0) {
       in.setstate(std::ios::failbit);
@@ -164,17 +168,15 @@ struct Write<mpq_class> {
 
     kigumi_write<bool>(out, t < 0);
 
-    std::size_t count{};
-
-    buf.resize((mpz_sizeinbase(t.get_num().get_mpz_t(), 2) + 7) / 8);
-    mpz_export(buf.data(), &count, 1, 1, 0, 0, t.get_num().get_mpz_t());
-    kigumi_write<std::int32_t>(out, count);
-    out.write(reinterpret_cast<const char*>(buf.data()), static_cast<std::streamsize>(count));
+    buf.assign((mpz_sizeinbase(t.get_num().get_mpz_t(), 2) + 7) / 8, 0);
+    mpz_export(buf.data(), nullptr, 1, 1, 0, 0, t.get_num().get_mpz_t());
+    kigumi_write<std::int32_t>(out, buf.size());
+    out.write(reinterpret_cast<const char*>(buf.data()), static_cast<std::streamsize>(buf.size()));
 
-    buf.resize((mpz_sizeinbase(t.get_den().get_mpz_t(), 2) + 7) / 8);
-    mpz_export(buf.data(), &count, 1, 1, 0, 0, t.get_den().get_mpz_t());
-    kigumi_write<std::int32_t>(out, count);
-    out.write(reinterpret_cast<const char*>(buf.data()), static_cast<std::streamsize>(count));
+    buf.assign((mpz_sizeinbase(t.get_den().get_mpz_t(), 2) + 7) / 8, 0);
+    mpz_export(buf.data(), nullptr, 1, 1, 0, 0, t.get_den().get_mpz_t());
+    kigumi_write<std::int32_t>(out, buf.size());
+    out.write(reinterpret_cast<const char*>(buf.data()), static_cast<std::streamsize>(buf.size()));
   }
 };
 
-- 
2.43.0


From 7a0b7ed9b469f8630f7d3030361b686b85c7db28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 15/20] fix: write subnormal coordinates exactly

The approximation of a subnormal number that has been evaluated exactly is
not a point, so it was written as rationals to binary files and as 1.1e-308
to text files.
---
 include/kigumi/Triangle_soup.h | 28 ++++++++++++++++++----------
 include/kigumi/io/obj.h        |  3 +--
 include/kigumi/io/off.h        |  3 +--
 include/kigumi/io/ply.h        |  3 +--
 4 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/include/kigumi/Triangle_soup.h b/include/kigumi/Triangle_soup.h
index 6f78c4c..f73cfa2 100644
--- a/include/kigumi/Triangle_soup.h
+++ b/include/kigumi/Triangle_soup.h
@@ -159,19 +159,27 @@ struct Write<Triangle_soup<K, FaceData>> {
     for (auto vi : t.vertices()) {
       const auto& p = t.point(vi);
 
-      auto is_double = [&p]() -> bool {
-        return p.approx().x().is_point() && p.approx().y().is_point() && p.approx().z().is_point();
-      };
-      if (!is_double()) {
-        // Make the approximation as tight as possible so that the encoding depends only on the value.
-        p.exact();
+      // The encoding depends only on the value, not on how the point was constructed.
+      const auto& approx = p.approx();
+      double x{approx.x().inf()};
+      double y{approx.y().inf()};
+      double z{approx.z().inf()};
+      bool is_double{approx.x().is_point() && approx.y().is_point() && approx.z().is_point()};
+      if (!is_double) {
+        const auto& exact = p.exact();
+        x = CGAL::to_double(exact.x());
+        y = CGAL::to_double(exact.y());
+        z = CGAL::to_double(exact.z());
+        is_double = CGAL::is_finite(x) && exact.x() == x &&  //
+                    CGAL::is_finite(y) && exact.y() == y &&  //
+                    CGAL::is_finite(z) && exact.z() == z;
       }
 
-      if (is_double()) {
+      if (is_double) {
         kigumi_write<bool>(out, false);
-        kigumi_write<double>(out, p.approx().x().inf());
-        kigumi_write<double>(out, p.approx().y().inf());
-        kigumi_write<double>(out, p.approx().z().inf());
+        kigumi_write<double>(out, x);
+        kigumi_write<double>(out, y);
+        kigumi_write<double>(out, z);
       } else {
         kigumi_write<bool>(out, true);
         kigumi_write<CGAL::Exact_rational>(out, p.exact().x());
diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index 95ca632..f19fecd 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -126,8 +126,7 @@ bool write_obj(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
   }
 
   for (auto vi : soup.vertices()) {
-    const auto& p = soup.point(vi);
-    p.exact();
+    const auto& p = soup.point(vi).exact();
     Double x{CGAL::to_double(p.x())};
     Double y{CGAL::to_double(p.y())};
     Double z{CGAL::to_double(p.z())};
diff --git a/include/kigumi/io/off.h b/include/kigumi/io/off.h
index f40fb37..77999c0 100644
--- a/include/kigumi/io/off.h
+++ b/include/kigumi/io/off.h
@@ -203,8 +203,7 @@ bool write_off(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
      << soup.num_vertices() << ' ' << soup.num_faces() << " 0\n";
 
   for (auto vi : soup.vertices()) {
-    const auto& p = soup.point(vi);
-    p.exact();
+    const auto& p = soup.point(vi).exact();
     Double x{CGAL::to_double(p.x())};
     Double y{CGAL::to_double(p.y())};
     Double z{CGAL::to_double(p.z())};
diff --git a/include/kigumi/io/ply.h b/include/kigumi/io/ply.h
index 0d77880..5b8ba8b 100644
--- a/include/kigumi/io/ply.h
+++ b/include/kigumi/io/ply.h
@@ -314,8 +314,7 @@ bool write_ply(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
   os << "end_header\n";
 
   for (auto vi : soup.vertices()) {
-    const auto& p = soup.point(vi);
-    p.exact();
+    const auto& p = soup.point(vi).exact();
     Double x{CGAL::to_double(p.x())};
     Double y{CGAL::to_double(p.y())};
     Double z{CGAL::to_double(p.z())};
-- 
2.43.0


From a4f8f87c44e1f5cbd7db0fadaa63bfdbe0669ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 16/20] fix: report streams that fail after the last declared
 element of OFF and PLY files

---
 include/kigumi/io/off.h | 5 +++++
 include/kigumi/io/ply.h | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/kigumi/io/off.h b/include/kigumi/io/off.h
index 77999c0..33418a2 100644
--- a/include/kigumi/io/off.h
+++ b/include/kigumi/io/off.h
@@ -167,6 +167,11 @@ bool read_off(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     }
   }
 
+  if (is.bad()) {
+    std::cerr << "failed to read" << std::endl;
+    return false;
+  }
+
   if (state != Off_reading_state::END) {
     std::cerr << "unexpected end of file" << std::endl;
     return false;
diff --git a/include/kigumi/io/ply.h b/include/kigumi/io/ply.h
index 5b8ba8b..90ac60b 100644
--- a/include/kigumi/io/ply.h
+++ b/include/kigumi/io/ply.h
@@ -270,6 +270,11 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     }
   }
 
+  if (is.bad()) {
+    std::cerr << "failed to read" << std::endl;
+    return false;
+  }
+
   if (element_it != elements.end()) {
     std::cerr << "unexpected end of file" << std::endl;
     return false;
-- 
2.43.0


From ea1251e75b25c7a4f209cc39d3f7bd38a8d3db60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 17/20] fix: reject coordinates that are not finite numbers

They violate an assertion when the points are constructed.
---
 include/kigumi/Triangle_soup.h | 5 +++++
 include/kigumi/io/ascii.h      | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/Triangle_soup.h b/include/kigumi/Triangle_soup.h
index f73cfa2..2efaded 100644
--- a/include/kigumi/Triangle_soup.h
+++ b/include/kigumi/Triangle_soup.h
@@ -13,6 +13,7 @@
 #include <kigumi/mesh_utility.h>
 
 #include <boost/range/iterator_range.hpp>
+#include <cmath>
 #include <cstdint>
 #include <iostream>
 #include <memory>
@@ -220,6 +221,10 @@ struct Read<Triangle_soup<K, FaceData>> {
         kigumi_read<double>(in, x);
         kigumi_read<double>(in, y);
         kigumi_read<double>(in, z);
+        if (!std::isfinite(x) || !std::isfinite(y) || !std::isfinite(z)) {
+          in.setstate(std::ios::failbit);
+          break;
+        }
         soup.add_vertex({x, y, z});
       } else {
         CGAL::Exact_rational x;
diff --git a/include/kigumi/io/ascii.h b/include/kigumi/io/ascii.h
index 1482b3e..75774c5 100644
--- a/include/kigumi/io/ascii.h
+++ b/include/kigumi/io/ascii.h
@@ -4,6 +4,7 @@
 
 #include <array>
 #include <charconv>
+#include <cmath>
 #include <iostream>
 #include <limits>
 #include <string>
@@ -24,7 +25,7 @@ inline std::istream& operator>>(std::istream& in, Double& d) {
   const auto* first = s.front() == '+' ? s.data() + 1 : s.data();
   const auto* last = s.data() + s.size();
   auto [ptr, ec] = fast_float::from_chars(first, last, d.value);
-  if (ptr != last || ec != std::errc{}) {
+  if (ptr != last || ec != std::errc{} || !std::isfinite(d.value)) {
     in.setstate(std::ios::failbit);
   }
 
-- 
2.43.0


From 2b6af35fafae7c0b8de6392b1ccb90d5ebfddc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 18/20] fix: write zero coordinates without a sign

The lower bound of the approximation of a computed zero is a negative zero, so
the same region was written differently depending on how it was constructed.
---
 include/kigumi/Triangle_soup.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/kigumi/Triangle_soup.h b/include/kigumi/Triangle_soup.h
index 2efaded..7965c68 100644
--- a/include/kigumi/Triangle_soup.h
+++ b/include/kigumi/Triangle_soup.h
@@ -178,9 +178,10 @@ struct Write<Triangle_soup<K, FaceData>> {
 
       if (is_double) {
         kigumi_write<bool>(out, false);
-        kigumi_write<double>(out, x);
-        kigumi_write<double>(out, y);
-        kigumi_write<double>(out, z);
+        // Adding zero removes the sign of negative zeros.
+        kigumi_write<double>(out, x + 0.0);
+        kigumi_write<double>(out, y + 0.0);
+        kigumi_write<double>(out, z + 0.0);
       } else {
         kigumi_write<bool>(out, true);
         kigumi_write<CGAL::Exact_rational>(out, p.exact().x());
-- 
2.43.0


From dfe2697afdbd12550fa0229821457ac1a6c09f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 19/20] fix: index isolated vertices at the end of a mesh

Looking up faces around an edge that has such a vertex threw an exception.
---
 include/kigumi/Triangle_mesh.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/Triangle_mesh.h b/include/kigumi/Triangle_mesh.h
index 10d6d56..9655414 100644
--- a/include/kigumi/Triangle_mesh.h
+++ b/include/kigumi/Triangle_mesh.h
@@ -130,7 +130,8 @@ class Triangle_mesh {
       prev_v = v;
       ++index;
     }
-    indices_.push_back(index);
+    // Isolated vertices may follow the last vertex that is used by faces.
+    indices_.resize(points_.size() + 1, index);
   }
 
   std::size_t num_vertices() const { return points_.size(); }
-- 
2.43.0


From 99293b78039ebef5b080a8ac43d13f88bdd945b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:12 +0000
Subject: [PATCH 20/20] fix: index meshes that are finalised again from scratch

---
 include/kigumi/Triangle_mesh.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kigumi/Triangle_mesh.h b/include/kigumi/Triangle_mesh.h
index 9655414..1fc9cde 100644
--- a/include/kigumi/Triangle_mesh.h
+++ b/include/kigumi/Triangle_mesh.h
@@ -116,6 +116,8 @@ class Triangle_mesh {
 
     parallel_sort(map.begin(), map.end());
 
+    face_indices_.clear();
+    indices_.clear();
     face_indices_.reserve(3 * faces_.size());
     indices_.reserve(points_.size() + 1);
     std::size_t index{};
-- 
2.43.0

