From 48785a7535a951053f7415456d084bbccb3cbfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 1/9] fix: report an exception raised by a worker of a parallel
 region instead of terminating

---
 .../code/datastructures/graph/graph.cpp       | 21 ++++++---
 .../code/parallel/exception_collector.hpp     | 40 +++++++++++++++++
 .../code/visgraph/visgraph_generator.cpp      | 45 ++++++++++++-------
 3 files changed, 84 insertions(+), 22 deletions(-)
 create mode 100644 capi/src/implementation/visibility_graphs/code/parallel/exception_collector.hpp

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
index d39e503..c349545 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
@@ -13,6 +13,7 @@
 
 #include "coordinate_periodicity/coordinate_periodicity.hpp"
 #include "graph.hpp"
+#include "parallel/exception_collector.hpp"
 
 Graph::Graph() = default;
 
@@ -244,18 +245,24 @@ std::shared_ptr<Graph> merge_graphs(const std::vector<std::shared_ptr<Graph>> &g
 
     auto merged_graph = std::make_shared<Graph>(std::vector<Polygon>(polygons.begin(), polygons.end()));
 
-    #pragma omp parallel for shared(graphs, merged_graph) default(none) schedule(static)
+    ExceptionCollector exceptions;
+
+    #pragma omp parallel for shared(graphs, merged_graph, exceptions) default(none) schedule(static)
     for (size_t i = 0; i < graphs.size(); ++i) { // NOLINT
-        const auto graph = graphs[i];
-        for (const auto &vert_1 : graph->get_vertices()) {
-            for (const auto &vert_2 : graph->get_vertices()) {
-                if (graph->has_edge(vert_1, vert_2)) {
-                    merged_graph->add_edge(vert_1, vert_2, graph->is_edge_meridian_crossing(vert_1, vert_2));
+        exceptions.run([&]() {
+            const auto graph = graphs[i];
+            for (const auto &vert_1 : graph->get_vertices()) {
+                for (const auto &vert_2 : graph->get_vertices()) {
+                    if (graph->has_edge(vert_1, vert_2)) {
+                        merged_graph->add_edge(vert_1, vert_2, graph->is_edge_meridian_crossing(vert_1, vert_2));
+                    }
                 }
             }
-        }
+        });
     }
 
+    exceptions.rethrow_if_any();
+
     return merged_graph;
 }
 
diff --git a/capi/src/implementation/visibility_graphs/code/parallel/exception_collector.hpp b/capi/src/implementation/visibility_graphs/code/parallel/exception_collector.hpp
new file mode 100644
index 0000000..5e77e74
--- /dev/null
+++ b/capi/src/implementation/visibility_graphs/code/parallel/exception_collector.hpp
@@ -0,0 +1,40 @@
+#ifndef CAPI_EXCEPTION_COLLECTOR_HPP
+#define CAPI_EXCEPTION_COLLECTOR_HPP
+
+#include <atomic>
+#include <exception>
+#include <mutex>
+
+// An exception must not leave an OpenMP parallel region: it would terminate the process.
+// This keeps the first exception raised by any thread of the region, so that it can be rethrown after the region.
+class ExceptionCollector {
+  public:
+    template <typename Function> void run(Function &&function) noexcept {
+        if (_has_exception.load()) {
+            return;
+        }
+
+        try {
+            function();
+        } catch (...) {
+            std::lock_guard<std::mutex> lock(_mutex);
+            if (!_exception) {
+                _exception = std::current_exception();
+            }
+            _has_exception.store(true);
+        }
+    }
+
+    void rethrow_if_any() const {
+        if (_exception) {
+            std::rethrow_exception(_exception);
+        }
+    }
+
+  private:
+    std::mutex _mutex;
+    std::atomic<bool> _has_exception{false};
+    std::exception_ptr _exception;
+};
+
+#endif // CAPI_EXCEPTION_COLLECTOR_HPP
diff --git a/capi/src/implementation/visibility_graphs/code/visgraph/visgraph_generator.cpp b/capi/src/implementation/visibility_graphs/code/visgraph/visgraph_generator.cpp
index 1709d1e..41fef99 100644
--- a/capi/src/implementation/visibility_graphs/code/visgraph/visgraph_generator.cpp
+++ b/capi/src/implementation/visibility_graphs/code/visgraph/visgraph_generator.cpp
@@ -11,6 +11,7 @@
 #include <sstream>
 
 #include "coordinate_periodicity/coordinate_periodicity.hpp"
+#include "parallel/exception_collector.hpp"
 #include "visgraph_generator.hpp"
 #include "vistree_generator.hpp"
 
@@ -40,29 +41,37 @@ std::shared_ptr<Graph> VisgraphGenerator::generate(const std::vector<Polygon> &p
         indicators::option::MaxProgress{num_vertices},
     };
 
-#pragma omp parallel shared(visgraph, polygon_vertices, vistree_gen, num_vertices, bar) default(none)
+    ExceptionCollector exceptions;
+
+#pragma omp parallel shared(visgraph, polygon_vertices, vistree_gen, num_vertices, bar, exceptions) default(none)
     {
         size_t num_threads = omp_get_num_threads();
 
         if (omp_get_thread_num() == 0) {
-            bar.set_option(indicators::option::MaxProgress{num_vertices / num_threads});
-            bar.set_option(indicators::option::PostfixText(fmt::format("Generating VisGraph ({} threads)", num_threads)));
+            exceptions.run([&]() {
+                bar.set_option(indicators::option::MaxProgress{num_vertices / num_threads});
+                bar.set_option(indicators::option::PostfixText(fmt::format("Generating VisGraph ({} threads)", num_threads)));
+            });
         }
 
 #pragma omp for schedule(dynamic)
         for (size_t i = 0; i < num_vertices; ++i) { // NOLINT
-            const auto visible_vertices = vistree_gen.get_visible_vertices(polygon_vertices[i], true);
+            exceptions.run([&]() {
+                const auto visible_vertices = vistree_gen.get_visible_vertices(polygon_vertices[i], true);
 
-            for (const auto &visible_vertex : visible_vertices) {
-                visgraph->add_edge(polygon_vertices[i], visible_vertex.coord, visible_vertex.is_visible_across_meridian);
-            }
+                for (const auto &visible_vertex : visible_vertices) {
+                    visgraph->add_edge(polygon_vertices[i], visible_vertex.coord, visible_vertex.is_visible_across_meridian);
+                }
 
-            if (omp_get_thread_num() == 0) {
-                bar.tick();
-            }
+                if (omp_get_thread_num() == 0) {
+                    bar.tick();
+                }
+            });
         }
     }
 
+    exceptions.rethrow_if_any();
+
     bar.mark_as_completed();
 
     return visgraph;
@@ -83,15 +92,21 @@ std::shared_ptr<Graph> VisgraphGenerator::generate_with_shuffled_range(const std
     std::mt19937 gen(seed);
     std::shuffle(polygon_vertices.begin(), polygon_vertices.end(), gen);
 
-#pragma omp parallel for shared(visgraph, vistree_gen, polygon_vertices, range_start, range_end) default(none) schedule(dynamic)
+    ExceptionCollector exceptions;
+
+#pragma omp parallel for shared(visgraph, vistree_gen, polygon_vertices, range_start, range_end, exceptions) default(none) schedule(dynamic)
     for (size_t i = range_start; i < range_end; ++i) { // NOLINT
-        const auto visible_vertices = vistree_gen.get_visible_vertices(polygon_vertices[i], true);
+        exceptions.run([&]() {
+            const auto visible_vertices = vistree_gen.get_visible_vertices(polygon_vertices[i], true);
 
-        for (const auto &visible_vertex : visible_vertices) {
-            visgraph->add_edge(polygon_vertices[i], visible_vertex.coord, visible_vertex.is_visible_across_meridian);
-        }
+            for (const auto &visible_vertex : visible_vertices) {
+                visgraph->add_edge(polygon_vertices[i], visible_vertex.coord, visible_vertex.is_visible_across_meridian);
+            }
+        });
     }
 
+    exceptions.rethrow_if_any();
+
     return visgraph;
 }
 
-- 
2.43.0


From c6dd412ed94016213b62a6787c8a6554e9f67ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 2/9] fix: do not terminate when memory runs out while a batch
 query's error is recorded

---
 .../code/shortest_path/shortest_path_computer.cpp  | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
index 5fb11bc..6d3bd03 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
@@ -5,6 +5,7 @@
 #include <algorithm>
 #include <queue>
 #include <iostream>
+#include <new>
 #include <fmt/format.h>
 #include <sstream>
 
@@ -148,10 +149,15 @@ ShortestPathComputer::shortest_paths(const std::vector<std::pair<Coordinate, Coo
                 .error_msg = std::nullopt
             };
         } catch (const std::exception &e) {
-            paths[i] = BatchInterpolateResult{
-                .path = std::nullopt,
-                .error_msg = std::string(e.what())
-            };
+            try {
+                paths[i] = BatchInterpolateResult{
+                    .path = std::nullopt,
+                    .error_msg = std::string(e.what())
+                };
+            } catch (const std::bad_alloc &) {
+                // Short enough to be stored without an allocation
+                paths[i].error_msg.emplace("out of memory");
+            }
         }
     }
 
-- 
2.43.0


From c8fb4671f5bd451fe429bacc23320667c2cd3d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 3/9] fix: count each meridian spanning edge once when sizing a
 graph file

---
 .../code/serialization/graph_serializer.cpp               | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index f7a6dc7..f9223a5 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -234,10 +234,12 @@ size_t GraphSerializer::calculate_number_of_bytes_for_graph(const std::shared_pt
 }
 
 uint64_t GraphSerializer::calculate_number_of_meridian_spanning_edges_for_graph(const std::shared_ptr<Graph> &graph) {
+    // Counts the edges which are serialized: each undirected edge once
+    const auto &vertices = graph->get_vertices();
     size_t meridian_spanning_edges = 0;
-    for (const auto &vertex_1 : graph->get_vertices()) {
-        for (const auto &vertex_2 : graph->get_vertices()) {
-            meridian_spanning_edges += graph->is_edge_meridian_crossing(vertex_1, vertex_2);
+    for (size_t i = 0; i < vertices.size(); ++i) {
+        for (size_t j = 0; j < i; ++j) {
+            meridian_spanning_edges += graph->is_edge_meridian_crossing(vertices[i], vertices[j]);
         }
     }
 
-- 
2.43.0


From 76f02cfd8390db06fe160d1a0cf9044d65e4be32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:39 +0000
Subject: [PATCH 4/9] fix: load the polygons of a graph file as they were saved

---
 .../code/serialization/graph_serializer.cpp                 | 2 +-
 .../visibility_graphs/code/types/polygon/polygon.cpp        | 6 ++++++
 .../visibility_graphs/code/types/polygon/polygon.hpp        | 3 +++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index f9223a5..42c6c10 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -167,7 +167,7 @@ size_t GraphSerializer::deserialize_polygon_vertices_from_mmap(const mio::mmap_s
 
         curr_offset += (num_vertices * 2 * sizeof(int32_t));
 
-        polygons[i] = Polygon(vertices);
+        polygons[i] = Polygon::from_preprocessed_vertices(vertices);
     }
 
     graph = std::make_shared<Graph>(polygons);
diff --git a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
index cc34f58..e735c61 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
@@ -15,6 +15,12 @@ Polygon::Polygon(std::initializer_list<Coordinate> vertices) : _vertices(Polygon
 
 Polygon::Polygon(const std::vector<Coordinate> &vertices) : _vertices(Polygon::preprocess_vertices(vertices)) {}
 
+Polygon Polygon::from_preprocessed_vertices(const std::vector<Coordinate> &vertices) {
+    Polygon polygon;
+    polygon._vertices = std::make_shared<std::vector<Coordinate>>(vertices);
+    return polygon;
+}
+
 const std::vector<Coordinate> &Polygon::get_vertices() const { return *_vertices; }
 
 std::vector<LineSegment> Polygon::get_line_segments() const {
diff --git a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.hpp b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.hpp
index 16d29b4..5b128da 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.hpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.hpp
@@ -22,6 +22,9 @@ class Polygon {
     Polygon(std::initializer_list<Coordinate> vertices);
     explicit Polygon(const std::vector<Coordinate> &vertices);
 
+    // Takes the vertices of an already constructed polygon as they are, without preprocessing them again
+    static Polygon from_preprocessed_vertices(const std::vector<Coordinate> &vertices);
+
     [[nodiscard]] const std::vector<Coordinate> &get_vertices() const;
     [[nodiscard]] std::vector<LineSegment> get_line_segments() const;
 
-- 
2.43.0


From 46181b82f1b95375fac3c82eaddf98772b58e884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 5/9] fix: reject a malformed graph file instead of reading
 past its end

---
 .../code/serialization/graph_serializer.cpp   | 32 ++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index 42c6c10..4958d53 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -26,6 +26,10 @@ uint32_t deserialize_4_bytes_from_mmap(const mio::mmap_source &mmap, size_t offs
 int32_t deserialize_4_signed_bytes_from_mmap(const mio::mmap_source &mmap, size_t offset);
 uint8_t deserialize_byte_from_mmap(const mio::mmap_source &mmap, size_t offset);
 
+// Throws unless num_items items of item_size bytes can follow the offset
+void check_remaining_bytes(const mio::mmap_source &mmap, size_t offset, uint64_t num_items, size_t item_size);
+void handle_malformed_file();
+
 void allocate_file(const std::string &path, size_t num_bytes);
 void handle_mmap_error(const std::error_code &error);
 
@@ -149,14 +153,18 @@ size_t GraphSerializer::serialize_adjacency_matrix_to_mmap(mio::mmap_sink &mmap,
 
 size_t GraphSerializer::deserialize_polygon_vertices_from_mmap(const mio::mmap_source &mmap, std::shared_ptr<Graph> &graph,
                                                                uint64_t num_polygons, size_t offset) {
+    check_remaining_bytes(mmap, offset, num_polygons, sizeof(uint64_t));
     auto polygons = std::vector<Polygon>(num_polygons);
 
+    size_t num_graph_vertices = 0;
     size_t curr_offset = offset;
     for (size_t i = 0; i < num_polygons; ++i) {
         auto num_vertices = deserialize_8_bytes_from_mmap(mmap, curr_offset);
         curr_offset += sizeof(num_vertices);
 
+        check_remaining_bytes(mmap, curr_offset, num_vertices, 2 * sizeof(int32_t));
         auto vertices = std::vector<Coordinate>(num_vertices);
+        num_graph_vertices += num_vertices;
         for (size_t j = 0; j < num_vertices; ++j) {
             const auto longitude_offset = curr_offset + (j * 2 * sizeof(int32_t));
             const auto latitude_offset = longitude_offset + sizeof(int32_t);
@@ -170,6 +178,13 @@ size_t GraphSerializer::deserialize_polygon_vertices_from_mmap(const mio::mmap_s
         polygons[i] = Polygon::from_preprocessed_vertices(vertices);
     }
 
+    // The graph takes space for every pair of vertices: only construct it if the file has their adjacencies
+    size_t num_adjacency_matrix_bytes = 0;
+    for (size_t i = 0; i < num_graph_vertices; ++i) {
+        num_adjacency_matrix_bytes += CEIL_DIV(i, BITS_IN_A_BYTE);
+    }
+    check_remaining_bytes(mmap, curr_offset, num_adjacency_matrix_bytes, sizeof(uint8_t));
+
     graph = std::make_shared<Graph>(polygons);
 
     return curr_offset;
@@ -187,6 +202,8 @@ size_t GraphSerializer::deserialize_adjacency_matrix_from_mmap(const mio::mmap_s
 
     std::unordered_set<uint64_t> meridian_spanning_edge_indices;
     const auto num_meridian_spanning_edges = deserialize_8_bytes_from_mmap(mmap, adjacency_matrix_byte_offsets.back());
+    check_remaining_bytes(mmap, adjacency_matrix_byte_offsets.back() + sizeof(num_meridian_spanning_edges),
+                          num_meridian_spanning_edges, sizeof(uint64_t));
     for (size_t i = 0; i < num_meridian_spanning_edges; ++i) {
         meridian_spanning_edge_indices.insert(
             deserialize_8_bytes_from_mmap(mmap, adjacency_matrix_byte_offsets.back() + (i + 1) * sizeof(uint64_t)));
@@ -295,7 +312,20 @@ inline int32_t deserialize_4_signed_bytes_from_mmap(const mio::mmap_source &mmap
     return val;
 }
 
-inline uint8_t deserialize_byte_from_mmap(const mio::mmap_source &mmap, size_t offset) { return mmap[offset]; }
+inline uint8_t deserialize_byte_from_mmap(const mio::mmap_source &mmap, size_t offset) {
+    if (offset >= mmap.size()) {
+        handle_malformed_file();
+    }
+    return mmap[offset];
+}
+
+inline void check_remaining_bytes(const mio::mmap_source &mmap, size_t offset, uint64_t num_items, size_t item_size) {
+    if (offset > mmap.size() || num_items > (mmap.size() - offset) / item_size) {
+        handle_malformed_file();
+    }
+}
+
+inline void handle_malformed_file() { throw std::runtime_error("Error reading graph file: the file is malformed"); }
 
 inline void allocate_file(const std::string &path, size_t num_bytes) {
     const auto handle_allocation_error = [&]() {
-- 
2.43.0


From b8a40f8e7f878555a066f161c52a0f01531f4f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 6/9] fix: close the descriptor of a graph file when saving or
 loading fails

---
 .../code/serialization/graph_serializer.cpp   | 88 ++++++++++++++-----
 1 file changed, 65 insertions(+), 23 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index 4958d53..45c7508 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -3,10 +3,15 @@
 //
 
 #include <atomic>
+#include <cerrno>
 #include <cstdint>
+#include <cstring>
+#include <fcntl.h>
 #include <fmt/core.h>
 #include <mio.hpp>
+#include <stdexcept>
 #include <string>
+#include <sys/stat.h>
 #include <system_error>
 #include <unistd.h>
 #include <vector>
@@ -30,18 +35,62 @@ uint8_t deserialize_byte_from_mmap(const mio::mmap_source &mmap, size_t offset);
 void check_remaining_bytes(const mio::mmap_source &mmap, size_t offset, uint64_t num_items, size_t item_size);
 void handle_malformed_file();
 
-void allocate_file(const std::string &path, size_t num_bytes);
+void handle_file_error(const std::string &path);
 void handle_mmap_error(const std::error_code &error);
 
+namespace {
+// An open file, closed when it goes out of scope
+class File {
+  public:
+    File(const std::string &path, int flags)
+        : _path(path), _fd(open(path.c_str(), flags, S_IROTH | S_IWOTH | S_IRGRP | S_IWGRP | S_IRWXU)) {
+        if (_fd == -1) {
+            handle_file_error(_path);
+        }
+    }
+
+    ~File() {
+        if (_fd != -1) {
+            ::close(_fd);
+        }
+    }
+
+    File(const File &) = delete;
+    File &operator=(const File &) = delete;
+
+    [[nodiscard]] int descriptor() const { return _fd; }
+
+    void allocate(size_t num_bytes) {
+        if (ftruncate(_fd, num_bytes) != 0) {
+            handle_file_error(_path);
+        }
+    }
+
+    void close() {
+        const auto fd = _fd;
+        _fd = -1;
+        if (::close(fd) == -1) {
+            handle_file_error(_path);
+        }
+    }
+
+  private:
+    std::string _path;
+    int _fd;
+};
+} // namespace
+
 void GraphSerializer::serialize_to_file(const std::shared_ptr<Graph> &graph, const std::string &path) {
     const auto num_meridian_spanning_edges =
         GraphSerializer::calculate_number_of_meridian_spanning_edges_for_graph(graph);
     const auto num_bytes_for_graph =
         GraphSerializer::calculate_number_of_bytes_for_graph(graph, num_meridian_spanning_edges);
-    allocate_file(path, num_bytes_for_graph);
+
+    File file(path, O_CREAT | O_RDWR);
+    file.allocate(num_bytes_for_graph);
 
     std::error_code error;
-    auto rw_mmap = mio::make_mmap_sink(path, 0, mio::map_entire_file, error);
+    auto rw_mmap = mio::make_mmap_sink(file.descriptor(), 0, mio::map_entire_file, error);
     if (error) {
         handle_mmap_error(error);
     }
@@ -58,11 +107,15 @@ void GraphSerializer::serialize_to_file(const std::shared_ptr<Graph> &graph, con
     }
 
     rw_mmap.unmap();
+
+    file.close();
 }
 
 std::shared_ptr<Graph> GraphSerializer::deserialize_from_file(const std::string &path) {
+    const File file(path, O_RDONLY);
+
     std::error_code error;
-    auto r_mmap = mio::make_mmap_source(path, 0, mio::map_entire_file, error);
+    auto r_mmap = mio::make_mmap_source(file.descriptor(), 0, mio::map_entire_file, error);
     if (error) {
         handle_mmap_error(error);
     }
@@ -327,26 +380,15 @@ inline void check_remaining_bytes(const mio::mmap_source &mmap, size_t offset, u
 
 inline void handle_malformed_file() { throw std::runtime_error("Error reading graph file: the file is malformed"); }
 
-inline void allocate_file(const std::string &path, size_t num_bytes) {
-    const auto handle_allocation_error = [&]() {
-        constexpr auto buffer_len = 100;
-        char error_buffer[buffer_len];
-        const auto linux_error = strerror_r(errno, error_buffer, buffer_len);
-
-        const auto error = fmt::format("Error when allocating file {}. Errno: {}. Msg: {}", path, errno, linux_error);
-        throw std::runtime_error(error);
-    };
+inline void handle_file_error(const std::string &path) {
+    constexpr auto buffer_len = 100;
+    char error_buffer[buffer_len];
+    const auto error_number = errno;
+    const auto linux_error = strerror_r(error_number, error_buffer, buffer_len);
 
-    const auto fd = open(path.c_str(), O_CREAT | O_RDWR, S_IROTH | S_IWOTH | S_IRGRP | S_IWGRP | S_IRWXU);
-    if (fd == -1) {
-        handle_allocation_error();
-    }
-    if (ftruncate(fd, num_bytes) != 0) {
-        handle_allocation_error();
-    }
-    if (close(fd) == -1) {
-        handle_allocation_error();
-    }
+    const auto error =
+        fmt::format("Error when accessing file {}. Errno: {}. Msg: {}", path, error_number, linux_error);
+    throw std::runtime_error(error);
 }
 
 inline void handle_mmap_error(const std::error_code &error) {
-- 
2.43.0


From 4ac16ae89e0c20620e98581b6c6f13dd8bd78d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 7/9] fix: reserve the disk space of a graph file before
 writing to its mapping

---
 .../code/serialization/graph_serializer.cpp                 | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index 45c7508..17594a9 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -61,6 +61,12 @@ class File {
     [[nodiscard]] int descriptor() const { return _fd; }
 
     void allocate(size_t num_bytes) {
+        // Reserves the disk space too: writing to the mapping of a sparse file on a full disk would raise a signal
+        errno = posix_fallocate(_fd, 0, num_bytes);
+        if (errno != 0) {
+            handle_file_error(_path);
+        }
+        // The file may have been longer
         if (ftruncate(_fd, num_bytes) != 0) {
             handle_file_error(_path);
         }
-- 
2.43.0


From e5c9515399f7af6e46fc3231e8b12faeffb7dd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:49 +0000
Subject: [PATCH 8/9] fix: replace a graph file only once its successor is
 complete and on the disk

---
 .../code/serialization/graph_serializer.cpp   | 69 ++++++++++++++++++-
 1 file changed, 66 insertions(+), 3 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index 17594a9..0a88c64 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -5,15 +5,19 @@
 #include <atomic>
 #include <cerrno>
 #include <cstdint>
+#include <cstdio>
+#include <cstdlib>
 #include <cstring>
 #include <fcntl.h>
 #include <fmt/core.h>
+#include <memory>
 #include <mio.hpp>
 #include <stdexcept>
 #include <string>
 #include <sys/stat.h>
 #include <system_error>
 #include <unistd.h>
+#include <utility>
 #include <vector>
 
 #include "graph_serializer.hpp"
@@ -66,8 +70,11 @@ class File {
         if (errno != 0) {
             handle_file_error(_path);
         }
-        // The file may have been longer
-        if (ftruncate(_fd, num_bytes) != 0) {
+    }
+
+    void sync() {
+        // Not every file system can synchronise a directory
+        if (fsync(_fd) != 0 && errno != EINVAL) {
             handle_file_error(_path);
         }
     }
@@ -84,6 +91,52 @@ class File {
     std::string _path;
     int _fd;
 };
+
+// The name of a file which is removed when it goes out of scope, unless it has been renamed
+class TemporaryName {
+  public:
+    explicit TemporaryName(std::string path) : _path(std::move(path)) {}
+
+    ~TemporaryName() {
+        if (!_renamed) {
+            unlink(_path.c_str());
+        }
+    }
+
+    TemporaryName(const TemporaryName &) = delete;
+    TemporaryName &operator=(const TemporaryName &) = delete;
+
+    void rename_to(const std::string &path) {
+        if (rename(_path.c_str(), path.c_str()) != 0) {
+            handle_file_error(path);
+        }
+        _renamed = true;
+    }
+
+  private:
+    std::string _path;
+    bool _renamed = false;
+};
+
+std::string follow_symbolic_links(const std::string &path) {
+    const std::unique_ptr<char, decltype(&std::free)> resolved(realpath(path.c_str(), nullptr), &std::free);
+    return resolved ? std::string(resolved.get()) : path;
+}
+
+std::string directory_of(const std::string &path) {
+    const auto last_separator = path.rfind('/');
+    return (last_separator == std::string::npos) ? "./" : path.substr(0, last_separator + 1);
+}
+
+// A name in the given directory which no other save uses
+std::string temporary_path(const std::string &directory) {
+    static std::atomic<uint64_t> num_saves = 0;
+    std::string path;
+    do {
+        path = fmt::format("{}.capi-{}-{}.tmp", directory, getpid(), num_saves++);
+    } while (access(path.c_str(), F_OK) == 0);
+    return path;
+}
 } // namespace
 
 void GraphSerializer::serialize_to_file(const std::shared_ptr<Graph> &graph, const std::string &path) {
@@ -92,7 +145,13 @@ void GraphSerializer::serialize_to_file(const std::shared_ptr<Graph> &graph, con
     const auto num_bytes_for_graph =
         GraphSerializer::calculate_number_of_bytes_for_graph(graph, num_meridian_spanning_edges);
 
-    File file(path, O_CREAT | O_RDWR);
+    // The graph is written to another file, which replaces the one at the path once it is complete and on the disk.
+    // Thus, a save which fails or is interrupted leaves the previous graph intact.
+    const auto target_path = follow_symbolic_links(path);
+    File directory(directory_of(target_path), O_RDONLY | O_DIRECTORY);
+    const auto temp_path = temporary_path(directory_of(target_path));
+    File file(temp_path, O_CREAT | O_EXCL | O_RDWR);
+    TemporaryName temp_name(temp_path);
     file.allocate(num_bytes_for_graph);
 
     std::error_code error;
@@ -114,7 +173,11 @@ void GraphSerializer::serialize_to_file(const std::shared_ptr<Graph> &graph, con
 
     rw_mmap.unmap();
 
+    file.sync();
     file.close();
+
+    temp_name.rename_to(target_path);
+    directory.sync();
 }
 
 std::shared_ptr<Graph> GraphSerializer::deserialize_from_file(const std::string &path) {
-- 
2.43.0


From a7bb611b496bf6bfe9e615e1b2ec0d11c3874a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 9/9] fix: do not terminate the process when Python's
 sys.stdout cannot be written to

scoped_ostream_redirect flushes in its destructor; an exception of the Python stream (closed pipe, full disk) left the
destructor and std::terminate'd the process after the whole graph had been generated.
---
 .../visibility_graphs/bindings.cpp            | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/bindings.cpp b/capi/src/implementation/visibility_graphs/bindings.cpp
index 247413b..bcd489f 100644
--- a/capi/src/implementation/visibility_graphs/bindings.cpp
+++ b/capi/src/implementation/visibility_graphs/bindings.cpp
@@ -23,6 +23,23 @@
 
 namespace py = pybind11;
 
+// sys.stdout for scoped_ostream_redirect, which flushes in its destructor and therefore terminates the process when the
+// stream raises (closed pipe, full disk, sys.stdout is None...). Output that cannot be written is dropped instead.
+static py::object non_raising_stdout() {
+    const py::object python_stdout = py::module_::import("sys").attr("stdout");
+    const auto non_raising = [&](const char *method) {
+        return py::cpp_function([python_stdout, method](const py::args &args) {
+            try {
+                python_stdout.attr(method)(*args);
+            } catch (const py::error_already_set &) {
+            }
+        });
+    };
+
+    return py::module_::import("types").attr("SimpleNamespace")(py::arg("write") = non_raising("write"),
+                                                                py::arg("flush") = non_raising("flush"));
+}
+
 PYBIND11_MODULE(_vis_graph, m) {
     m.doc() = "CAPI visibility graphs";
 
@@ -69,7 +86,7 @@ PYBIND11_MODULE(_vis_graph, m) {
             [](ShortestPathComputer &self, const Coordinate &source, const Coordinate &destination,
                double maximum_distance_to_search_from_source, bool correct_vertices_on_land,
                double a_star_greediness_weighting) {
-                py::scoped_ostream_redirect output;
+                py::scoped_ostream_redirect output(std::cout, non_raising_stdout());
                 return self.shortest_path(source, destination, maximum_distance_to_search_from_source,
                                           correct_vertices_on_land, a_star_greediness_weighting);
             },
@@ -100,7 +117,7 @@ PYBIND11_MODULE(_vis_graph, m) {
 
     m.def("generate_visgraph",
      [](const std::vector<Polygon> &polygons) {
-            py::scoped_ostream_redirect output;
+            py::scoped_ostream_redirect output(std::cout, non_raising_stdout());
             return VisgraphGenerator::generate(polygons);
         },
         "Generates a visgraph from the supplied polygons");
-- 
2.43.0

