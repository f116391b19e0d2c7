From 3c6d2302021c7921118f89f1d6b04fe67aaf0805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 1/8] fix: read and write numbers with round-trip formatting
 whatever the stream's settings

---
 src/io_utils.h   | 32 ++++++++++++++++++++++++++++++++
 src/load_msh.cpp |  2 ++
 src/save_msh.cpp |  2 ++
 3 files changed, 36 insertions(+)

diff --git a/src/io_utils.h b/src/io_utils.h
index a8255cb..89cf483 100644
--- a/src/io_utils.h
+++ b/src/io_utils.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <ios>
 #include <istream>
 #include <limits>
 
@@ -7,5 +8,36 @@ namespace mshio {
 
 void eat_white_space(std::istream& in, size_t count = std::numeric_limits<size_t>::max());
 
+/**
+ * Selects the number formatting that MSH files use (decimal, enough digits for doubles to survive
+ * a round trip) for the lifetime of the object, and restores the caller's formatting afterwards.
+ */
+class FormatGuard
+{
+public:
+    explicit FormatGuard(std::ios_base& stream)
+        : m_stream(stream)
+        , m_flags(stream.flags(std::ios_base::dec | std::ios_base::skipws))
+        , m_precision(stream.precision(std::numeric_limits<double>::max_digits10))
+        , m_width(stream.width(0))
+    {}
+
+    ~FormatGuard()
+    {
+        m_stream.flags(m_flags);
+        m_stream.precision(m_precision);
+        m_stream.width(m_width);
+    }
+
+    FormatGuard(const FormatGuard&) = delete;
+    FormatGuard& operator=(const FormatGuard&) = delete;
+
+private:
+    std::ios_base& m_stream;
+    std::ios_base::fmtflags m_flags;
+    std::streamsize m_precision;
+    std::streamsize m_width;
+};
+
 } // namespace mshio
 
diff --git a/src/load_msh.cpp b/src/load_msh.cpp
index 1c65163..5aac251 100644
--- a/src/load_msh.cpp
+++ b/src/load_msh.cpp
@@ -1,5 +1,6 @@
 #include <mshio/MshSpec.h>
 
+#include "io_utils.h"
 #include "load_msh_curves.h"
 #include "load_msh_data.h"
 #include "load_msh_elements.h"
@@ -28,6 +29,7 @@ void forward_to(std::istream& in, const std::string& flag)
 
 MshSpec load_msh(std::istream& in)
 {
+    FormatGuard guard(in);
     MshSpec spec;
     std::string buf, end_str;
 
diff --git a/src/save_msh.cpp b/src/save_msh.cpp
index 8f90b88..2780efc 100644
--- a/src/save_msh.cpp
+++ b/src/save_msh.cpp
@@ -1,5 +1,6 @@
 #include <mshio/MshSpec.h>
 
+#include "io_utils.h"
 #include "save_msh_curves.h"
 #include "save_msh_data.h"
 #include "save_msh_elements.h"
@@ -17,6 +18,7 @@ namespace mshio {
 
 void save_msh(std::ostream& out, const MshSpec& spec)
 {
+    FormatGuard guard(out);
     save_mesh_format(out, spec);
     if (spec.physical_groups.size() > 0) {
         save_physical_groups(out, spec);
-- 
2.43.0


From 2324d3b67dd7706784e6ce3fecc69aa427193122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 2/8] fix: throw InvalidFormat when a section ends early or a
 field is malformed

---
 src/io_utils.cpp                 |  9 +++++++
 src/io_utils.h                   |  3 +++
 src/load_msh.cpp                 |  4 ++--
 src/load_msh_curves.cpp          |  6 +++++
 src/load_msh_data.cpp            | 16 +++++++++----
 src/load_msh_elements.cpp        | 16 +++++++++----
 src/load_msh_entities.cpp        | 41 +++++++++++++++++++-------------
 src/load_msh_format.cpp          |  3 ++-
 src/load_msh_nanospline_format.h |  3 +++
 src/load_msh_nodes.cpp           | 26 ++++++++++----------
 src/load_msh_patches.cpp         |  6 +++++
 src/load_msh_physical_groups.cpp |  4 +++-
 12 files changed, 95 insertions(+), 42 deletions(-)

diff --git a/src/io_utils.cpp b/src/io_utils.cpp
index 56ef54a..9aa694c 100644
--- a/src/io_utils.cpp
+++ b/src/io_utils.cpp
@@ -1,5 +1,7 @@
 #include "io_utils.h"
 
+#include <mshio/exception.h>
+
 #include <istream>
 
 namespace mshio {
@@ -18,5 +20,12 @@ void eat_white_space(std::istream& in, size_t count)
     }
 }
 
+void check_stream(const std::istream& in)
+{
+    if (in.fail()) {
+        throw InvalidFormat("Unexpected end of file or malformed value.");
+    }
+}
+
 } // namespace mshio
 
diff --git a/src/io_utils.h b/src/io_utils.h
index 89cf483..0a50065 100644
--- a/src/io_utils.h
+++ b/src/io_utils.h
@@ -8,6 +8,9 @@ namespace mshio {
 
 void eat_white_space(std::istream& in, size_t count = std::numeric_limits<size_t>::max());
 
+/// Throws InvalidFormat if any read from `in` has failed.
+void check_stream(const std::istream& in);
+
 /**
  * Selects the number formatting that MSH files use (decimal, enough digits for doubles to survive
  * a round trip) for the lifetime of the object, and restores the caller's formatting afterwards.
diff --git a/src/load_msh.cpp b/src/load_msh.cpp
index 5aac251..72792fb 100644
--- a/src/load_msh.cpp
+++ b/src/load_msh.cpp
@@ -22,7 +22,7 @@ namespace mshio {
 void forward_to(std::istream& in, const std::string& flag)
 {
     std::string buf;
-    while (!in.eof() && buf != flag) {
+    while (in.good() && buf != flag) {
         in >> buf;
     }
 }
@@ -33,7 +33,7 @@ MshSpec load_msh(std::istream& in)
     MshSpec spec;
     std::string buf, end_str;
 
-    while (!in.eof()) {
+    while (in.good()) {
         buf.clear();
         in >> buf;
         if (buf.size() == 0 || buf[0] != '$') continue;
diff --git a/src/load_msh_curves.cpp b/src/load_msh_curves.cpp
index 9e21d15..d3e2c60 100644
--- a/src/load_msh_curves.cpp
+++ b/src/load_msh_curves.cpp
@@ -11,6 +11,7 @@ void load_curves_ascii(std::istream& in, MshSpec& spec)
     auto& curves = spec.curves;
     size_t num_curves;
     in >> num_curves;
+    check_stream(in);
 
     curves.resize(num_curves);
     for (size_t i = 0; i < num_curves; i++) {
@@ -21,6 +22,7 @@ void load_curves_ascii(std::istream& in, MshSpec& spec)
         in >> curve.num_control_points;
         in >> curve.num_knots;
         in >> curve.with_weights;
+        check_stream(in);
 
         size_t num_entries =
             curve.num_control_points * ((curve.with_weights > 0) ? 4 : 3) + curve.num_knots;
@@ -28,6 +30,7 @@ void load_curves_ascii(std::istream& in, MshSpec& spec)
         for (size_t j = 0; j < num_entries; j++) {
             in >> curve.data[j];
         }
+        check_stream(in);
     }
 #endif
 }
@@ -38,6 +41,7 @@ void load_curves_binary(std::istream& in, MshSpec& spec)
     auto& curves = spec.curves;
     size_t num_curves;
     in >> num_curves;
+    check_stream(in);
 
     curves.resize(num_curves);
     for (size_t i = 0; i < num_curves; i++) {
@@ -48,12 +52,14 @@ void load_curves_binary(std::istream& in, MshSpec& spec)
         in >> curve.num_control_points;
         in >> curve.num_knots;
         in >> curve.with_weights;
+        check_stream(in);
 
         eat_white_space(in, 1);
         size_t num_entries =
             curve.num_control_points * ((curve.with_weights > 0) ? 4 : 3) + curve.num_knots;
         curve.data.resize(num_entries);
         in.read(reinterpret_cast<char*>(curve.data.data()), sizeof(double) * num_entries);
+        check_stream(in);
     }
 #endif
 }
diff --git a/src/load_msh_data.cpp b/src/load_msh_data.cpp
index 9063532..90a2770 100644
--- a/src/load_msh_data.cpp
+++ b/src/load_msh_data.cpp
@@ -18,23 +18,26 @@ void load_data_header(std::istream& in, DataHeader& header)
     size_t num_string_tags, num_real_tags, num_int_tags;
 
     in >> num_string_tags;
+    check_stream(in);
     header.string_tags.resize(num_string_tags);
     for (size_t i = 0; i < num_string_tags; i++) {
         in >> std::quoted(header.string_tags[i]);
     }
 
     in >> num_real_tags;
+    check_stream(in);
     header.real_tags.resize(num_real_tags);
     for (size_t i = 0; i < num_real_tags; i++) {
         in >> header.real_tags[i];
     }
 
     in >> num_int_tags;
+    check_stream(in);
     header.int_tags.resize(num_int_tags);
     for (size_t i = 0; i < num_int_tags; i++) {
         in >> header.int_tags[i];
     }
-    assert(in.good());
+    check_stream(in);
 }
 
 namespace v41 {
@@ -45,18 +48,20 @@ void load_data_entry(
     // Based on trial and error, it seems Gmsh 4.7.1 still expect 32
     // bits tag, which is inconsistent with their spec.  Maybe
     // report a bug?
-    int32_t tag_32;
+    int32_t tag_32 = 0;
     in.read(reinterpret_cast<char*>(&tag_32), 4);
     entry.tag = static_cast<size_t>(tag_32);
     // in.read(reinterpret_cast<char*>(&entry.tag), sizeof(size_t));
     if (is_element_node_data) {
         in.read(reinterpret_cast<char*>(&entry.num_nodes_per_element), sizeof(int));
+        check_stream(in);
         entry.data.resize(fields_per_entry * static_cast<size_t>(entry.num_nodes_per_element));
     } else {
         entry.data.resize(fields_per_entry);
     }
     in.read(reinterpret_cast<char*>(entry.data.data()),
         static_cast<std::streamsize>(sizeof(double) * entry.data.size()));
+    check_stream(in);
 }
 } // namespace v41
 
@@ -64,12 +69,13 @@ namespace v22 {
 void load_data_entry(
     std::istream& in, DataEntry& entry, size_t fields_per_entry, bool is_element_node_data)
 {
-    int32_t tag_32;
+    int32_t tag_32 = 0;
     in.read(reinterpret_cast<char*>(&tag_32), 4);
     entry.tag = static_cast<size_t>(tag_32);
     if (is_element_node_data) {
         int32_t num_nodes_per_element;
         in.read(reinterpret_cast<char*>(&num_nodes_per_element), 4);
+        check_stream(in);
         entry.num_nodes_per_element = static_cast<int>(num_nodes_per_element);
         entry.data.resize(fields_per_entry * static_cast<size_t>(entry.num_nodes_per_element));
     } else {
@@ -77,6 +83,7 @@ void load_data_entry(
     }
     in.read(reinterpret_cast<char*>(entry.data.data()),
         static_cast<std::streamsize>(sizeof(double) * entry.data.size()));
+    check_stream(in);
 }
 } // namespace v22
 
@@ -115,6 +122,7 @@ void load_data(std::istream& in,
             in >> entry.tag;
             if (is_element_node_data) {
                 in >> entry.num_nodes_per_element;
+                check_stream(in);
                 entry.data.resize(fields_per_entry * entry.num_nodes_per_element);
                 for (size_t j = 0; j < entry.num_nodes_per_element; j++) {
                     for (size_t k = 0; k < fields_per_entry; k++) {
@@ -127,9 +135,9 @@ void load_data(std::istream& in,
                     in >> entry.data[j];
                 }
             }
+            check_stream(in);
         }
     }
-    assert(in.good());
 }
 
 } // namespace internal
diff --git a/src/load_msh_elements.cpp b/src/load_msh_elements.cpp
index 9ec3bc6..30cda37 100644
--- a/src/load_msh_elements.cpp
+++ b/src/load_msh_elements.cpp
@@ -27,7 +27,7 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
     in >> elements.num_elements;
     in >> elements.min_element_tag;
     in >> elements.max_element_tag;
-    assert(in.good());
+    check_stream(in);
 
     elements.entity_blocks.resize(elements.num_entity_blocks);
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
@@ -37,6 +37,7 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
         in >> block.entity_tag;
         in >> block.element_type;
         in >> block.num_elements_in_block;
+        check_stream(in);
 
         const size_t n = nodes_per_element(block.element_type);
         block.data.resize(block.num_elements_in_block * (n + 1));
@@ -45,7 +46,7 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
                 in >> block.data[j * (n + 1) + k];
             }
         }
-        assert(in.good());
+        check_stream(in);
     }
 }
 
@@ -57,7 +58,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
     in.read(reinterpret_cast<char*>(&elements.num_elements), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&elements.min_element_tag), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&elements.max_element_tag), sizeof(size_t));
-    assert(in.good());
+    check_stream(in);
 
     elements.entity_blocks.resize(elements.num_entity_blocks);
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
@@ -67,12 +68,13 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&block.entity_tag), sizeof(int));
         in.read(reinterpret_cast<char*>(&block.element_type), sizeof(int));
         in.read(reinterpret_cast<char*>(&block.num_elements_in_block), sizeof(size_t));
+        check_stream(in);
 
         const size_t n = nodes_per_element(block.element_type);
         block.data.resize(block.num_elements_in_block * (n + 1));
         in.read(reinterpret_cast<char*>(block.data.data()),
             static_cast<std::streamsize>(sizeof(size_t) * block.data.size()));
-        assert(in.good());
+        check_stream(in);
     }
 }
 } // namespace v41
@@ -99,6 +101,7 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
     Elements& elements = spec.elements;
     size_t num_elements;
     in >> num_elements;
+    check_stream(in);
 
     // Due to v2.2 constraints, each element is parsed as a separate block, and
     // a regrouping will happen at post-processing time.
@@ -116,6 +119,7 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
         in >> element_num;
         in >> element_type;
         in >> num_tags;
+        check_stream(in);
         tags.resize(static_cast<size_t>(num_tags));
         for (int j = 0; j < num_tags; j++) {
             in >> tags[static_cast<size_t>(j)];
@@ -126,6 +130,7 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
         for (size_t j = 0; j < n; j++) {
             in >> node_ids[j];
         }
+        check_stream(in);
 
         elements.min_element_tag =
             std::min(elements.min_element_tag, static_cast<size_t>(element_num));
@@ -173,6 +178,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
 {
     Elements& elements = spec.elements;
     in >> elements.num_elements;
+    check_stream(in);
     elements.entity_blocks.reserve(elements.num_elements);
     eat_white_space(in, 1);
 
@@ -187,6 +193,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&element_type), 4);
         in.read(reinterpret_cast<char*>(&num_elements_in_block), 4);
         in.read(reinterpret_cast<char*>(&num_tags), 4);
+        check_stream(in);
 
         tags.resize(static_cast<size_t>(num_tags));
 
@@ -199,6 +206,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
             in.read(reinterpret_cast<char*>(&element_id), 4);
             in.read(reinterpret_cast<char*>(tags.data()), 4 * num_tags);
             in.read(reinterpret_cast<char*>(node_ids.data()), static_cast<int>(4 * n));
+            check_stream(in);
 
             min_tag = std::min(min_tag, element_id);
             max_tag = std::max(max_tag, element_id);
diff --git a/src/load_msh_entities.cpp b/src/load_msh_entities.cpp
index 83f0cc1..9692e56 100644
--- a/src/load_msh_entities.cpp
+++ b/src/load_msh_entities.cpp
@@ -17,7 +17,7 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
     in >> num_curves;
     in >> num_surfaces;
     in >> num_volumes;
-    assert(in.good());
+    check_stream(in);
 
     Entities& entities = spec.entities;
     entities.points.resize(num_points);
@@ -33,6 +33,7 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
         in >> point.z;
         size_t num_physical_groups;
         in >> num_physical_groups;
+        check_stream(in);
         point.physical_group_tags.resize(num_physical_groups);
         for (size_t j = 0; j < num_physical_groups; j++) {
             in >> point.physical_group_tags[j];
@@ -50,12 +51,14 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
         in >> curve.max_z;
         size_t num_physical_groups;
         in >> num_physical_groups;
+        check_stream(in);
         curve.physical_group_tags.resize(num_physical_groups);
         for (size_t j = 0; j < num_physical_groups; j++) {
             in >> curve.physical_group_tags[j];
         }
         size_t num_boundary_points;
         in >> num_boundary_points;
+        check_stream(in);
         curve.boundary_point_tags.resize(num_boundary_points);
         for (size_t j = 0; j < num_boundary_points; j++) {
             in >> curve.boundary_point_tags[j];
@@ -73,12 +76,14 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
         in >> surface.max_z;
         size_t num_physical_groups;
         in >> num_physical_groups;
+        check_stream(in);
         surface.physical_group_tags.resize(num_physical_groups);
         for (size_t j = 0; j < num_physical_groups; j++) {
             in >> surface.physical_group_tags[j];
         }
         size_t num_boundary_curves;
         in >> num_boundary_curves;
+        check_stream(in);
         surface.boundary_curve_tags.resize(num_boundary_curves);
         for (size_t j = 0; j < num_boundary_curves; j++) {
             in >> surface.boundary_curve_tags[j];
@@ -96,19 +101,21 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
         in >> volume.max_z;
         size_t num_physical_groups;
         in >> num_physical_groups;
+        check_stream(in);
         volume.physical_group_tags.resize(num_physical_groups);
         for (size_t j = 0; j < num_physical_groups; j++) {
             in >> volume.physical_group_tags[j];
         }
         size_t num_boundary_surfaces;
         in >> num_boundary_surfaces;
+        check_stream(in);
         volume.boundary_surface_tags.resize(num_boundary_surfaces);
         for (size_t j = 0; j < num_boundary_surfaces; j++) {
             in >> volume.boundary_surface_tags[j];
         }
     }
 
-    assert(in.good());
+    check_stream(in);
 }
 
 void load_entities_binary(std::istream& in, MshSpec& spec)
@@ -119,7 +126,7 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
     in.read(reinterpret_cast<char*>(&num_curves), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&num_surfaces), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&num_volumes), sizeof(size_t));
-    assert(in.good());
+    check_stream(in);
 
     Entities& entities = spec.entities;
     entities.points.resize(num_points);
@@ -135,12 +142,12 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&point.z), sizeof(double));
         size_t num_physical_groups;
         in.read(reinterpret_cast<char*>(&num_physical_groups), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         point.physical_group_tags.resize(num_physical_groups);
         in.read(reinterpret_cast<char*>(point.physical_group_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_physical_groups));
-        assert(in.good());
+        check_stream(in);
     }
 
     for (size_t i = 0; i < num_curves; i++) {
@@ -154,21 +161,21 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&curve.max_z), sizeof(double));
         size_t num_physical_groups;
         in.read(reinterpret_cast<char*>(&num_physical_groups), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         curve.physical_group_tags.resize(num_physical_groups);
         in.read(reinterpret_cast<char*>(curve.physical_group_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_physical_groups));
-        assert(in.good());
+        check_stream(in);
 
         size_t num_boundary_points;
         in.read(reinterpret_cast<char*>(&num_boundary_points), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         curve.boundary_point_tags.resize(num_boundary_points);
         in.read(reinterpret_cast<char*>(curve.boundary_point_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_boundary_points));
-        assert(in.good());
+        check_stream(in);
     }
 
     for (size_t i = 0; i < num_surfaces; i++) {
@@ -182,21 +189,21 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&surface.max_z), sizeof(double));
         size_t num_physical_groups;
         in.read(reinterpret_cast<char*>(&num_physical_groups), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         surface.physical_group_tags.resize(num_physical_groups);
         in.read(reinterpret_cast<char*>(surface.physical_group_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_physical_groups));
-        assert(in.good());
+        check_stream(in);
 
         size_t num_boundary_curves;
         in.read(reinterpret_cast<char*>(&num_boundary_curves), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         surface.boundary_curve_tags.resize(num_boundary_curves);
         in.read(reinterpret_cast<char*>(surface.boundary_curve_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_boundary_curves));
-        assert(in.good());
+        check_stream(in);
     }
 
     for (size_t i = 0; i < num_volumes; i++) {
@@ -210,21 +217,21 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&volume.max_z), sizeof(double));
         size_t num_physical_groups;
         in.read(reinterpret_cast<char*>(&num_physical_groups), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         volume.physical_group_tags.resize(num_physical_groups);
         in.read(reinterpret_cast<char*>(volume.physical_group_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_physical_groups));
-        assert(in.good());
+        check_stream(in);
 
         size_t num_boundary_surfaces;
         in.read(reinterpret_cast<char*>(&num_boundary_surfaces), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         volume.boundary_surface_tags.resize(num_boundary_surfaces);
         in.read(reinterpret_cast<char*>(volume.boundary_surface_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_boundary_surfaces));
-        assert(in.good());
+        check_stream(in);
     }
 }
 
diff --git a/src/load_msh_format.cpp b/src/load_msh_format.cpp
index 6288d0c..fc2c104 100644
--- a/src/load_msh_format.cpp
+++ b/src/load_msh_format.cpp
@@ -24,6 +24,7 @@ void load_mesh_format(std::istream& in, MshSpec& spec)
 
     in >> format.file_type;
     in >> format.data_size;
+    check_stream(in);
 
     if (format.version == "4.1" && sizeof(size_t) != format.data_size) {
         std::stringstream msg;
@@ -36,7 +37,7 @@ void load_mesh_format(std::istream& in, MshSpec& spec)
         int one = 0;
         eat_white_space(in);
         in.read(reinterpret_cast<char*>(&one), sizeof(int));
-        if (one != 1) {
+        if (!in || one != 1) {
             throw UnsupportedFeature(
                 "MSH file (v" + format.version + ") is encoded with unsupported endianness!");
         }
diff --git a/src/load_msh_nanospline_format.h b/src/load_msh_nanospline_format.h
index 2ad4131..e70f1cd 100644
--- a/src/load_msh_nanospline_format.h
+++ b/src/load_msh_nanospline_format.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include "io_utils.h"
+
 #include <mshio/MshSpec.h>
 
 #include <istream>
@@ -10,6 +12,7 @@ namespace mshio
 inline void load_nanospline_format(std::istream& in, MshSpec& spec)
 {
     in >> spec.nanospline_format.version;
+    check_stream(in);
 }
 
 }
diff --git a/src/load_msh_nodes.cpp b/src/load_msh_nodes.cpp
index f6c4627..04d10db 100644
--- a/src/load_msh_nodes.cpp
+++ b/src/load_msh_nodes.cpp
@@ -21,7 +21,7 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
     in >> nodes.num_nodes;
     in >> nodes.min_node_tag;
     in >> nodes.max_node_tag;
-    assert(in.good());
+    check_stream(in);
     nodes.entity_blocks.resize(nodes.num_entity_blocks);
     for (size_t i = 0; i < nodes.num_entity_blocks; i++) {
         NodeBlock& block = nodes.entity_blocks[i];
@@ -29,13 +29,13 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
         in >> block.entity_tag;
         in >> block.parametric;
         in >> block.num_nodes_in_block;
-        assert(in.good());
+        check_stream(in);
 
         block.tags.resize(block.num_nodes_in_block);
         for (size_t j = 0; j < block.num_nodes_in_block; j++) {
             in >> block.tags[j];
         }
-        assert(in.good());
+        check_stream(in);
 
         assert(block.parametric >= 0 && block.parametric <= 3);
         const size_t entries_per_node =
@@ -46,7 +46,7 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
                 in >> block.data[j * entries_per_node + k];
             }
         }
-        assert(in.good());
+        check_stream(in);
     }
 }
 
@@ -58,7 +58,7 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
     in.read(reinterpret_cast<char*>(&nodes.num_nodes), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&nodes.min_node_tag), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&nodes.max_node_tag), sizeof(size_t));
-    assert(in.good());
+    check_stream(in);
     nodes.entity_blocks.resize(nodes.num_entity_blocks);
     for (size_t i = 0; i < nodes.num_entity_blocks; i++) {
         NodeBlock& block = nodes.entity_blocks[i];
@@ -66,12 +66,12 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&block.entity_tag), sizeof(int));
         in.read(reinterpret_cast<char*>(&block.parametric), sizeof(int));
         in.read(reinterpret_cast<char*>(&block.num_nodes_in_block), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         block.tags.resize(block.num_nodes_in_block);
         in.read(reinterpret_cast<char*>(block.tags.data()),
             static_cast<std::streamsize>(sizeof(size_t) * block.num_nodes_in_block));
-        assert(in.good());
+        check_stream(in);
 
         const size_t entries_per_node =
             static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
@@ -79,7 +79,7 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(block.data.data()),
             static_cast<std::streamsize>(
                 sizeof(double) * block.num_nodes_in_block * entries_per_node));
-        assert(in.good());
+        check_stream(in);
     }
 }
 
@@ -98,7 +98,7 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
     block.entity_tag = 0; // Same as above.
     block.parametric = 0;
     in >> block.num_nodes_in_block;
-    assert(in.good());
+    check_stream(in);
     nodes.num_nodes += block.num_nodes_in_block;
 
     block.tags.resize(block.num_nodes_in_block);
@@ -108,7 +108,7 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
         in >> block.data[i * 3];
         in >> block.data[i * 3 + 1];
         in >> block.data[i * 3 + 2];
-        assert(in.good());
+        check_stream(in);
     }
 
     if (block.num_nodes_in_block > 0) {
@@ -130,18 +130,18 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
     block.entity_tag = 0; // Same as above.
     block.parametric = 0;
     in >> block.num_nodes_in_block;
-    assert(in.good());
+    check_stream(in);
     nodes.num_nodes += block.num_nodes_in_block;
 
     block.tags.resize(block.num_nodes_in_block);
     block.data.resize(block.num_nodes_in_block * 3);
     eat_white_space(in, 1);
     for (size_t i = 0; i < block.num_nodes_in_block; i++) {
-        assert(in.good());
-        int tag;
+        int tag = 0;
         in.read(reinterpret_cast<char*>(&tag), sizeof(int));
         block.tags[i] = static_cast<size_t>(tag);
         in.read(reinterpret_cast<char*>(block.data.data() + i * 3), sizeof(double) * 3);
+        check_stream(in);
     }
 
     if (block.num_nodes_in_block > 0) {
diff --git a/src/load_msh_patches.cpp b/src/load_msh_patches.cpp
index 161c679..4c38b71 100644
--- a/src/load_msh_patches.cpp
+++ b/src/load_msh_patches.cpp
@@ -11,6 +11,7 @@ void load_patches_ascii(std::istream& in, MshSpec& spec)
     auto& patches = spec.patches;
     size_t num_patches;
     in >> num_patches;
+    check_stream(in);
     patches.resize(num_patches);
 
     for (size_t i = 0; i < num_patches; i++) {
@@ -23,6 +24,7 @@ void load_patches_ascii(std::istream& in, MshSpec& spec)
         in >> patch.num_u_knots;
         in >> patch.num_v_knots;
         in >> patch.with_weights;
+        check_stream(in);
 
         const size_t dim = (patch.with_weights > 0) ? 4 : 3;
         const size_t num_entries =
@@ -32,6 +34,7 @@ void load_patches_ascii(std::istream& in, MshSpec& spec)
         for (size_t j = 0; j < num_entries; j++) {
             in >> patch.data[j];
         }
+        check_stream(in);
     }
 #endif
 }
@@ -42,6 +45,7 @@ void load_patches_binary(std::istream& in, MshSpec& spec)
     auto& patches = spec.patches;
     size_t num_patches;
     in >> num_patches;
+    check_stream(in);
     patches.resize(num_patches);
 
     for (size_t i = 0; i < num_patches; i++) {
@@ -54,6 +58,7 @@ void load_patches_binary(std::istream& in, MshSpec& spec)
         in >> patch.num_u_knots;
         in >> patch.num_v_knots;
         in >> patch.with_weights;
+        check_stream(in);
 
         const size_t dim = (patch.with_weights > 0) ? 4 : 3;
         const size_t num_entries =
@@ -63,6 +68,7 @@ void load_patches_binary(std::istream& in, MshSpec& spec)
         eat_white_space(in, 1);
 
         in.read(reinterpret_cast<char*>(patch.data.data()), sizeof(double) * num_entries);
+        check_stream(in);
     }
 #endif
 }
diff --git a/src/load_msh_physical_groups.cpp b/src/load_msh_physical_groups.cpp
index c857d4a..074db2b 100644
--- a/src/load_msh_physical_groups.cpp
+++ b/src/load_msh_physical_groups.cpp
@@ -1,4 +1,5 @@
 #include "load_msh_physical_groups.h"
+#include "io_utils.h"
 
 #include <mshio/MshSpec.h>
 
@@ -14,14 +15,15 @@ void load_physical_groups(std::istream& in, MshSpec& spec)
     auto& groups = spec.physical_groups;
     int num_groups;
     in >> num_groups;
+    check_stream(in);
     spec.physical_groups.resize(num_groups);
     for (int i = 0; i < num_groups; i++) {
         auto& group = groups[i];
         in >> group.dim;
         in >> group.tag;
         in >> std::quoted(group.name);
+        check_stream(in);
     }
-    assert(in.good());
 }
 
 } // namespace mshio
-- 
2.43.0


From a2cd560d2293f5ffe54197c19b93c50221701baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:25 +0000
Subject: [PATCH 3/8] fix: reject negative or overflowing sizes read from a
 file

---
 src/io_utils.cpp          | 7 +++++++
 src/io_utils.h            | 3 +++
 src/load_msh_curves.cpp   | 4 ++++
 src/load_msh_data.cpp     | 5 +++++
 src/load_msh_elements.cpp | 6 +++++-
 src/load_msh_nodes.cpp    | 3 ++-
 src/load_msh_patches.cpp  | 6 ++++++
 7 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/io_utils.cpp b/src/io_utils.cpp
index 9aa694c..6d9ad79 100644
--- a/src/io_utils.cpp
+++ b/src/io_utils.cpp
@@ -27,5 +27,12 @@ void check_stream(const std::istream& in)
     }
 }
 
+void check_size(bool valid)
+{
+    if (!valid) {
+        throw InvalidFormat("Invalid size or count.");
+    }
+}
+
 } // namespace mshio
 
diff --git a/src/io_utils.h b/src/io_utils.h
index 0a50065..ca41cdd 100644
--- a/src/io_utils.h
+++ b/src/io_utils.h
@@ -11,6 +11,9 @@ void eat_white_space(std::istream& in, size_t count = std::numeric_limits<size_t
 /// Throws InvalidFormat if any read from `in` has failed.
 void check_stream(const std::istream& in);
 
+/// Throws InvalidFormat if a size or count read from a file makes no sense.
+void check_size(bool valid);
+
 /**
  * Selects the number formatting that MSH files use (decimal, enough digits for doubles to survive
  * a round trip) for the lifetime of the object, and restores the caller's formatting afterwards.
diff --git a/src/load_msh_curves.cpp b/src/load_msh_curves.cpp
index d3e2c60..ec8b749 100644
--- a/src/load_msh_curves.cpp
+++ b/src/load_msh_curves.cpp
@@ -23,6 +23,8 @@ void load_curves_ascii(std::istream& in, MshSpec& spec)
         in >> curve.num_knots;
         in >> curve.with_weights;
         check_stream(in);
+        const size_t max_count = curve.data.max_size() / 8;
+        check_size(curve.num_control_points <= max_count && curve.num_knots <= max_count);
 
         size_t num_entries =
             curve.num_control_points * ((curve.with_weights > 0) ? 4 : 3) + curve.num_knots;
@@ -53,6 +55,8 @@ void load_curves_binary(std::istream& in, MshSpec& spec)
         in >> curve.num_knots;
         in >> curve.with_weights;
         check_stream(in);
+        const size_t max_count = curve.data.max_size() / 8;
+        check_size(curve.num_control_points <= max_count && curve.num_knots <= max_count);
 
         eat_white_space(in, 1);
         size_t num_entries =
diff --git a/src/load_msh_data.cpp b/src/load_msh_data.cpp
index 90a2770..fa23eb3 100644
--- a/src/load_msh_data.cpp
+++ b/src/load_msh_data.cpp
@@ -55,6 +55,7 @@ void load_data_entry(
     if (is_element_node_data) {
         in.read(reinterpret_cast<char*>(&entry.num_nodes_per_element), sizeof(int));
         check_stream(in);
+        check_size(entry.num_nodes_per_element >= 0);
         entry.data.resize(fields_per_entry * static_cast<size_t>(entry.num_nodes_per_element));
     } else {
         entry.data.resize(fields_per_entry);
@@ -76,6 +77,7 @@ void load_data_entry(
         int32_t num_nodes_per_element;
         in.read(reinterpret_cast<char*>(&num_nodes_per_element), 4);
         check_stream(in);
+        check_size(num_nodes_per_element >= 0);
         entry.num_nodes_per_element = static_cast<int>(num_nodes_per_element);
         entry.data.resize(fields_per_entry * static_cast<size_t>(entry.num_nodes_per_element));
     } else {
@@ -99,6 +101,8 @@ void load_data(std::istream& in,
         throw InvalidFormat("Data requires at least 3 int tags.");
     }
 
+    check_size(data.header.int_tags[1] >= 0 && data.header.int_tags[2] >= 0);
+
     size_t fields_per_entry = static_cast<size_t>(data.header.int_tags[1]);
     size_t num_entries = static_cast<size_t>(data.header.int_tags[2]);
     data.entries.resize(num_entries);
@@ -123,6 +127,7 @@ void load_data(std::istream& in,
             if (is_element_node_data) {
                 in >> entry.num_nodes_per_element;
                 check_stream(in);
+                check_size(entry.num_nodes_per_element >= 0);
                 entry.data.resize(fields_per_entry * entry.num_nodes_per_element);
                 for (size_t j = 0; j < entry.num_nodes_per_element; j++) {
                     for (size_t k = 0; k < fields_per_entry; k++) {
diff --git a/src/load_msh_elements.cpp b/src/load_msh_elements.cpp
index 30cda37..f9c9cec 100644
--- a/src/load_msh_elements.cpp
+++ b/src/load_msh_elements.cpp
@@ -40,6 +40,7 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
         check_stream(in);
 
         const size_t n = nodes_per_element(block.element_type);
+        check_size(block.num_elements_in_block <= block.data.max_size() / (n + 1));
         block.data.resize(block.num_elements_in_block * (n + 1));
         for (size_t j = 0; j < block.num_elements_in_block; j++) {
             for (size_t k = 0; k <= n; k++) {
@@ -71,6 +72,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
         check_stream(in);
 
         const size_t n = nodes_per_element(block.element_type);
+        check_size(block.num_elements_in_block <= block.data.max_size() / (n + 1));
         block.data.resize(block.num_elements_in_block * (n + 1));
         in.read(reinterpret_cast<char*>(block.data.data()),
             static_cast<std::streamsize>(sizeof(size_t) * block.data.size()));
@@ -194,6 +196,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&num_elements_in_block), 4);
         in.read(reinterpret_cast<char*>(&num_tags), 4);
         check_stream(in);
+        check_size(num_elements_in_block >= 0 && num_tags >= 0);
 
         tags.resize(static_cast<size_t>(num_tags));
 
@@ -204,7 +207,8 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
         // a regrouping will happen at post-processing time.
         for (size_t i = 0; i < num_elements_in_block; i++) {
             in.read(reinterpret_cast<char*>(&element_id), 4);
-            in.read(reinterpret_cast<char*>(tags.data()), 4 * num_tags);
+            in.read(reinterpret_cast<char*>(tags.data()),
+                static_cast<std::streamsize>(sizeof(int32_t) * tags.size()));
             in.read(reinterpret_cast<char*>(node_ids.data()), static_cast<int>(4 * n));
             check_stream(in);
 
diff --git a/src/load_msh_nodes.cpp b/src/load_msh_nodes.cpp
index 04d10db..c09ac2d 100644
--- a/src/load_msh_nodes.cpp
+++ b/src/load_msh_nodes.cpp
@@ -37,7 +37,7 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
         }
         check_stream(in);
 
-        assert(block.parametric >= 0 && block.parametric <= 3);
+        check_size(block.parametric != 1 || (block.entity_dim >= 0 && block.entity_dim <= 3));
         const size_t entries_per_node =
             static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
         block.data.resize(block.num_nodes_in_block * entries_per_node);
@@ -73,6 +73,7 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
             static_cast<std::streamsize>(sizeof(size_t) * block.num_nodes_in_block));
         check_stream(in);
 
+        check_size(block.parametric != 1 || (block.entity_dim >= 0 && block.entity_dim <= 3));
         const size_t entries_per_node =
             static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
         block.data.resize(block.num_nodes_in_block * entries_per_node);
diff --git a/src/load_msh_patches.cpp b/src/load_msh_patches.cpp
index 4c38b71..e70679b 100644
--- a/src/load_msh_patches.cpp
+++ b/src/load_msh_patches.cpp
@@ -25,6 +25,9 @@ void load_patches_ascii(std::istream& in, MshSpec& spec)
         in >> patch.num_v_knots;
         in >> patch.with_weights;
         check_stream(in);
+        const size_t max_count = patch.data.max_size() / 8;
+        check_size(patch.num_control_points <= max_count &&
+                   patch.num_u_knots <= max_count && patch.num_v_knots <= max_count);
 
         const size_t dim = (patch.with_weights > 0) ? 4 : 3;
         const size_t num_entries =
@@ -59,6 +62,9 @@ void load_patches_binary(std::istream& in, MshSpec& spec)
         in >> patch.num_v_knots;
         in >> patch.with_weights;
         check_stream(in);
+        const size_t max_count = patch.data.max_size() / 8;
+        check_size(patch.num_control_points <= max_count &&
+                   patch.num_u_knots <= max_count && patch.num_v_knots <= max_count);
 
         const size_t dim = (patch.with_weights > 0) ? 4 : 3;
         const size_t num_entries =
-- 
2.43.0


From e8741867c7b2de384d0bb9b6421168ebe2e9c8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 4/8] fix: do not index out of range when MSH 2.2 elements
 refer to undefined nodes

---
 src/load_msh_post_process.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/load_msh_post_process.cpp b/src/load_msh_post_process.cpp
index 77d9dc3..63508d7 100644
--- a/src/load_msh_post_process.cpp
+++ b/src/load_msh_post_process.cpp
@@ -5,6 +5,7 @@
 
 #include <cassert>
 #include <limits>
+#include <unordered_map>
 
 namespace mshio {
 namespace v22 {
@@ -14,17 +15,15 @@ void regroup_nodes_into_blocks(MshSpec& spec)
     auto& nodes = spec.nodes;
     auto& elements = spec.elements;
 
-    std::vector<size_t> entity_dims(nodes.max_node_tag - nodes.min_node_tag + 1, 0);
-    std::vector<size_t> entity_tags(nodes.max_node_tag - nodes.min_node_tag + 1, 0);
-    auto node_index = [&](size_t node_tag) {
-        return static_cast<size_t>(node_tag - nodes.min_node_tag);
-    };
+    // Keyed by node tag: tags may be sparse, and elements may refer to undefined nodes.
+    std::unordered_map<size_t, size_t> entity_dims;
+    std::unordered_map<size_t, size_t> entity_tags;
 
     for (const auto& block : elements.entity_blocks) {
         const auto n = nodes_per_element(block.element_type);
         for (size_t i = 0; i < block.num_elements_in_block; i++) {
             for (size_t j = 0; j < n; j++) {
-                size_t idx = node_index(block.data[i * (n + 1) + j + 1]);
+                size_t idx = block.data[i * (n + 1) + j + 1];
                 entity_dims[idx] = block.entity_dim;
                 entity_tags[idx] = block.entity_tag;
             }
@@ -38,7 +37,7 @@ void regroup_nodes_into_blocks(MshSpec& spec)
     size_t curr_dim = INVALID, curr_tag = INVALID;
     for (auto& block : nodes.entity_blocks) {
         for (size_t i = 0; i < block.num_nodes_in_block; i++) {
-            size_t idx = node_index(block.tags[i]);
+            size_t idx = block.tags[i];
             size_t dim = entity_dims[idx];
             size_t tag = entity_tags[idx];
 
-- 
2.43.0


From 23fe869654a2e7499e21d3c8d9850726e727df11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 5/8] fix: give empty MSH 2.2 sections a valid tag range

---
 src/load_msh_post_process.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/load_msh_post_process.cpp b/src/load_msh_post_process.cpp
index 63508d7..bd84d9f 100644
--- a/src/load_msh_post_process.cpp
+++ b/src/load_msh_post_process.cpp
@@ -106,6 +106,14 @@ void load_msh_post_process(MshSpec& spec)
     if (spec.mesh_format.version == "2.2") {
         v22::regroup_nodes_into_blocks(spec);
         v22::regroup_elements_into_blocks(spec);
+
+        // Empty sections have no extreme tags.
+        if (spec.nodes.num_nodes == 0) {
+            spec.nodes.min_node_tag = spec.nodes.max_node_tag = 0;
+        }
+        if (spec.elements.num_elements == 0) {
+            spec.elements.min_element_tag = spec.elements.max_element_tag = 0;
+        }
     }
 }
 
-- 
2.43.0


From 5e4d2bbfb6c76de386479230e313f60a5ff29b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 6/8] fix: do not write binary MSH 2.2 headers for empty
 element blocks

---
 src/save_msh_elements.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/save_msh_elements.cpp b/src/save_msh_elements.cpp
index af91257..4cec5eb 100644
--- a/src/save_msh_elements.cpp
+++ b/src/save_msh_elements.cpp
@@ -100,13 +100,15 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
         const ElementBlock& block = elements.entity_blocks[i];
         const int32_t element_type = block.element_type;
+        const size_t n = nodes_per_element(element_type);
+        // A header without elements after the last element is not part of the section.
+        if (block.num_elements_in_block == 0) continue;
         constexpr int32_t num_tags = 1;
         const int32_t num_element_in_block = static_cast<int32_t>(block.num_elements_in_block);
         out.write(reinterpret_cast<const char*>(&element_type), 4);
         out.write(reinterpret_cast<const char*>(&num_element_in_block), 4);
         out.write(reinterpret_cast<const char*>(&num_tags), 4);
 
-        const size_t n = nodes_per_element(element_type);
         const int32_t tag = static_cast<int32_t>(block.entity_tag);
 
         for (size_t j = 0; j < block.num_elements_in_block; j++) {
-- 
2.43.0


From 58695949b36244f553dccef2c86a501dc4bf291c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 7/8] fix: refuse unsupported element types when saving binary
 MSH 4.1

---
 src/save_msh_elements.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/save_msh_elements.cpp b/src/save_msh_elements.cpp
index 4cec5eb..203af3c 100644
--- a/src/save_msh_elements.cpp
+++ b/src/save_msh_elements.cpp
@@ -58,8 +58,10 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
         out.write(reinterpret_cast<const char*>(&block.element_type), sizeof(int));
         out.write(reinterpret_cast<const char*>(&block.num_elements_in_block), sizeof(size_t));
 
+        const size_t n = nodes_per_element(block.element_type);
         out.write(reinterpret_cast<const char*>(block.data.data()),
-            static_cast<std::streamsize>(sizeof(size_t) * block.data.size()));
+            static_cast<std::streamsize>(
+                sizeof(size_t) * block.num_elements_in_block * (n + 1)));
     }
 }
 
-- 
2.43.0


From 4ad2933e6dee7b5ff86b584708b507133fcee849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 8/8] fix: report files that could not be written completely

---
 src/save_msh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/save_msh.cpp b/src/save_msh.cpp
index 2780efc..0f86234 100644
--- a/src/save_msh.cpp
+++ b/src/save_msh.cpp
@@ -59,6 +59,10 @@ void save_msh(const std::string& filename, const MshSpec& spec)
         throw std::runtime_error("Unable to open output file to write!");
     }
     save_msh(fout, spec);
+    fout.close();
+    if (!fout) {
+        throw std::runtime_error("Unable to write the whole output file!");
+    }
 }
 
 } // namespace mshio
-- 
2.43.0

