From 8bd978e6ea239cb3e88654447d4bd21cfe1c8c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:59 +0000
Subject: [PATCH 01/98] fix: voxel grid locates points just below the low faces
 outside the grid

---
 include/arc_utilities/voxel_grid.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/arc_utilities/voxel_grid.hpp b/include/arc_utilities/voxel_grid.hpp
index 64f13f7..b175b53 100644
--- a/include/arc_utilities/voxel_grid.hpp
+++ b/include/arc_utilities/voxel_grid.hpp
@@ -757,23 +757,23 @@ class VoxelGrid {
   }
 
   inline GRID_INDEX PointInFrameToGridIndex(const double x, const double y, const double z) const {
-    const int64_t x_cell = (int64_t)(x * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)(y * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)(z * inv_cell_z_size_);
+    const int64_t x_cell = (int64_t)std::floor(x * inv_cell_x_size_);
+    const int64_t y_cell = (int64_t)std::floor(y * inv_cell_y_size_);
+    const int64_t z_cell = (int64_t)std::floor(z * inv_cell_z_size_);
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
   inline GRID_INDEX PointInFrameToGridIndex3d(const Eigen::Vector3d& point_in_grid_frame) const {
-    const int64_t x_cell = (int64_t)(point_in_grid_frame(0) * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)(point_in_grid_frame(1) * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)(point_in_grid_frame(2) * inv_cell_z_size_);
+    const int64_t x_cell = (int64_t)std::floor(point_in_grid_frame(0) * inv_cell_x_size_);
+    const int64_t y_cell = (int64_t)std::floor(point_in_grid_frame(1) * inv_cell_y_size_);
+    const int64_t z_cell = (int64_t)std::floor(point_in_grid_frame(2) * inv_cell_z_size_);
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
   inline GRID_INDEX PointInFrameToGridIndex4d(const Eigen::Vector4d& point_in_grid_frame) const {
-    const int64_t x_cell = (int64_t)(point_in_grid_frame(0) * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)(point_in_grid_frame(1) * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)(point_in_grid_frame(2) * inv_cell_z_size_);
+    const int64_t x_cell = (int64_t)std::floor(point_in_grid_frame(0) * inv_cell_x_size_);
+    const int64_t y_cell = (int64_t)std::floor(point_in_grid_frame(1) * inv_cell_y_size_);
+    const int64_t z_cell = (int64_t)std::floor(point_in_grid_frame(2) * inv_cell_z_size_);
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
-- 
2.43.0


From cc4e32919e5bfbee5b11bcca73a2c3ed41f4d893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:33 +0000
Subject: [PATCH 02/98] fix: SetChunkValue by coordinates sets the chunk, not
 one cell

---
 include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 1220884..a892645 100644
--- a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -538,12 +538,12 @@ class DynamicSpatialHashedVoxelGrid {
 
   inline SET_STATUS SetChunkValue(const double x, const double y, const double z, const T& value) {
     Eigen::Vector3d location(x, y, z);
-    return SetCellValue(location, value);
+    return SetChunkValue(location, value);
   }
 
   inline SET_STATUS SetChunkValue(const double x, const double y, const double z, T&& value) {
     Eigen::Vector3d location(x, y, z);
-    return SetCellValue(location, value);
+    return SetChunkValue(location, value);
   }
 
   inline CHUNK_REGION GetContainingChunkRegion(const Eigen::Vector3d& grid_location) const {
-- 
2.43.0


From 95d99fa84af779e95e959cbad6d6ba0b029147e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 03/98] fix: dynamic voxel grid stores locations within
 rounding error of a chunk face

---
 .../dynamic_spatial_hashed_voxel_grid.hpp     | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index a892645..1811ed2 100644
--- a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -133,24 +133,24 @@ class DynamicSpatialHashedVoxelGridChunk {
 
   inline int64_t GetLocationDataIndex(const Eigen::Vector3d& location) const {
     Eigen::Vector3d location_in_chunk = location - region_.base;
-    // First, make sure the location is in the range this chunk covers
-    if (location_in_chunk.x() < 0.0 || location_in_chunk.y() < 0.0 || location_in_chunk.z() < 0.0) {
+    // First, make sure the location is in the range this chunk covers. The region is found by dividing by the chunk size,
+    // so a location within rounding error of a face may come out marginally outside the chunk it was assigned to
+    const double tolerance = 1e-6;
+    const double x_cells = location_in_chunk.x() / cell_x_size_;
+    const double y_cells = location_in_chunk.y() / cell_y_size_;
+    const double z_cells = location_in_chunk.z() / cell_z_size_;
+    if (x_cells < -tolerance || y_cells < -tolerance || z_cells < -tolerance) {
       return -1;
-    } else if (location_in_chunk.x() > chunk_x_size_ || location_in_chunk.y() > chunk_y_size_ ||
-               location_in_chunk.z() > chunk_z_size_) {
+    } else if (x_cells > (double)num_x_cells_ + tolerance || y_cells > (double)num_y_cells_ + tolerance ||
+               z_cells > (double)num_z_cells_ + tolerance) {
       return -1;
     }
     // Ok, we're inside the chunk
     else {
-      int64_t x_cell = (int64_t)(location_in_chunk.x() / cell_x_size_);
-      int64_t y_cell = (int64_t)(location_in_chunk.y() / cell_y_size_);
-      int64_t z_cell = (int64_t)(location_in_chunk.z() / cell_z_size_);
-      if (x_cell < 0 || y_cell < 0 || z_cell < 0 || x_cell >= num_x_cells_ || y_cell >= num_y_cells_ ||
-          z_cell >= num_z_cells_) {
-        return -1;
-      } else {
-        return GetDataIndex(x_cell, y_cell, z_cell);
-      }
+      const int64_t x_cell = std::min(std::max((int64_t)x_cells, (int64_t)0), num_x_cells_ - 1);
+      const int64_t y_cell = std::min(std::max((int64_t)y_cells, (int64_t)0), num_y_cells_ - 1);
+      const int64_t z_cell = std::min(std::max((int64_t)z_cells, (int64_t)0), num_z_cells_ - 1);
+      return GetDataIndex(x_cell, y_cell, z_cell);
     }
   }
 
-- 
2.43.0


From 8607b3d7fe6e4aec1fd688d2fd7aee162b658ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 04/98] fix: connected components label the node each search
 starts from

---
 include/arc_utilities/graph.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arc_utilities/graph.hpp b/include/arc_utilities/graph.hpp
index e2209ba..7508572 100644
--- a/include/arc_utilities/graph.hpp
+++ b/include/arc_utilities/graph.hpp
@@ -276,6 +276,7 @@ class Graph {
     // avoid duplication, unlike what is used in CollisionMapGrid::MarkConnectedComponent
     std::queue<int64_t> working_queue;
     working_queue.push(starting_node_idx);
+    components[starting_node_idx] = component_id;
     size_t num_marked = 1;
 
     while (working_queue.size() > 0) {
-- 
2.43.0


From 1c3962d0d5ea13c8b22cf87913b63e94c709a41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 05/98] fix: saving a Dijkstra result compiles and writes the
 links and distances

---
 include/arc_utilities/dijkstras.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/arc_utilities/dijkstras.hpp b/include/arc_utilities/dijkstras.hpp
index 8295751..35dfdae 100644
--- a/include/arc_utilities/dijkstras.hpp
+++ b/include/arc_utilities/dijkstras.hpp
@@ -94,15 +94,15 @@ class SimpleDijkstrasAlgorithm {
       const std::function<uint64_t(const NodeValueType&, std::vector<uint8_t>&)>& value_serializer) {
     const uint64_t start_buffer_size = buffer.size();
     // Serialize the graph
-    result.first.SerializeSelf(buffer, value_serializer);
+    result.first.serializeSelf(buffer, value_serializer);
     // Serialize the previous index
     const auto index_serializer =
         std::bind(arc_utilities::SerializeFixedSizePOD<int64_t>, std::placeholders::_1, std::placeholders::_2);
-    SerializeVector(result.second.first, index_serializer);
+    arc_utilities::SerializeVector<int64_t>(result.second.first, buffer, index_serializer);
     // Serialze the distances
     const auto distance_serializer =
         std::bind(arc_utilities::SerializeFixedSizePOD<double>, std::placeholders::_1, std::placeholders::_2);
-    SerializeVector(result.second.second, distance_serializer);
+    arc_utilities::SerializeVector<double>(result.second.second, buffer, distance_serializer);
     // Figure out how many bytes were written
     const uint64_t end_buffer_size = buffer.size();
     const uint64_t bytes_written = end_buffer_size - start_buffer_size;
-- 
2.43.0


From e03076e90e9d838b3e7a188796c83252c7cefd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:04 +0000
Subject: [PATCH 06/98] fix: time warping extends the cheapest predecessor when
 the other two tie

---
 include/arc_utilities/simple_dtw.hpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/arc_utilities/simple_dtw.hpp b/include/arc_utilities/simple_dtw.hpp
index f4f021c..8d0d3aa 100644
--- a/include/arc_utilities/simple_dtw.hpp
+++ b/include/arc_utilities/simple_dtw.hpp
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 
 #include <Eigen/Geometry>
+#include <algorithm>
 #include <functional>
 #include <iostream>
 #include <mutex>
@@ -54,19 +55,12 @@ class SimpleDTW {
       for (ssize_t j = 1; j <= (ssize_t)second_sequence.size(); j++) {
         const SecondDatatype& second_item = second_sequence[(size_t)j - 1];
         const double index_cost = distance_fn(first_item, second_item);
-        double prev_cost = 0.0;
         // Get the three neighboring values from the matrix to use for the update
         double im1j = dtw_matrix_(i - 1, j);
         double im1jm1 = dtw_matrix_(i - 1, j - 1);
         double ijm1 = dtw_matrix_(i, j - 1);
-        // Start the update step
-        if (im1j < im1jm1 && im1j < ijm1) {
-          prev_cost = im1j;
-        } else if (ijm1 < im1j && ijm1 < im1jm1) {
-          prev_cost = ijm1;
-        } else {
-          prev_cost = im1jm1;
-        }
+        // Extend the cheapest of the three
+        const double prev_cost = std::min(im1jm1, std::min(im1j, ijm1));
         // Update the value in the matrix
         const double new_cost = index_cost + prev_cost;
         dtw_matrix_(i, j) = new_cost;
-- 
2.43.0


From 401204c32ab0c5467e551939834b31ec44fcb0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:20 +0000
Subject: [PATCH 07/98] fix: decoding Base64 text with non-ASCII bytes stays
 inside the index table

---
 src/arc_utilities/base64_helpers.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/arc_utilities/base64_helpers.cpp b/src/arc_utilities/base64_helpers.cpp
index 90d0f82..8735841 100644
--- a/src/arc_utilities/base64_helpers.cpp
+++ b/src/arc_utilities/base64_helpers.cpp
@@ -24,23 +24,26 @@ static const std::array<int32_t, 256> B64IndexTable = {
     10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 0,  0,  0,  0,  63, 0,  26, 27, 28,
     29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51};
 
+// Plain char may be signed, so convert before indexing
+static int32_t B64Index(const char character) { return B64IndexTable[static_cast<uint8_t>(character)]; }
+
 std::vector<uint8_t> Decode(const std::string& encoded) {
   const size_t encoded_length = encoded.size();
   const size_t pad = encoded_length > 0 && (encoded_length % 4 || encoded[encoded_length - 1] == '=');
   const size_t L = ((encoded_length + 3) / 4 - pad) * 4;
   std::vector<uint8_t> buffer(L / 4 * 3 + pad, 0x00);
   for (size_t i = 0, j = 0; i < L; i += 4) {
-    const int32_t n = B64IndexTable[encoded[i]] << 18 | B64IndexTable[encoded[i + 1]] << 12 |
-                      B64IndexTable[encoded[i + 2]] << 6 | B64IndexTable[encoded[i + 3]];
+    const int32_t n = B64Index(encoded[i]) << 18 | B64Index(encoded[i + 1]) << 12 |
+                      B64Index(encoded[i + 2]) << 6 | B64Index(encoded[i + 3]);
     buffer[j++] = (uint8_t)(n >> 16);
     buffer[j++] = (uint8_t)(n >> 8 & 0xFF);
     buffer[j++] = (uint8_t)(n & 0xFF);
   }
   if (pad > 0) {
-    int32_t n = B64IndexTable[encoded[L]] << 18 | B64IndexTable[encoded[L + 1]] << 12;
+    int32_t n = B64Index(encoded[L]) << 18 | B64Index(encoded[L + 1]) << 12;
     buffer[buffer.size() - 1] = (uint8_t)(n >> 16);
     if (encoded_length > L + 2 && encoded[L + 2] != '=') {
-      n |= B64IndexTable[encoded[L + 2]] << 6;
+      n |= B64Index(encoded[L + 2]) << 6;
       buffer.push_back((uint8_t)(n >> 8 & 0xFF));
     }
   }
-- 
2.43.0


From 2110a9b1f6784e0d9db313fa83fd4e19bc4a3220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:20 +0000
Subject: [PATCH 08/98] fix: errors flushing a compressed file on close are
 reported

---
 src/arc_utilities/zlib_helpers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arc_utilities/zlib_helpers.cpp b/src/arc_utilities/zlib_helpers.cpp
index b7222ad..7a1837b 100644
--- a/src/arc_utilities/zlib_helpers.cpp
+++ b/src/arc_utilities/zlib_helpers.cpp
@@ -186,7 +186,8 @@ void CompressAndWriteToFile(const std::vector<uint8_t>& uncompressed, const std:
   }
   output_file.write(reinterpret_cast<const char*>(compressed.data()), (std::streamsize)compressed.size());
   output_file.close();
-  if (output_file.bad()) {
+  // Errors from flushing on close set only the fail bit
+  if (output_file.fail()) {
     throw_arc_exception(std::runtime_error, "Error writing to file");
   }
 }
-- 
2.43.0


From f9b6b4d9d0dd243d6fae4a61243ee48e7cc664de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:30 +0000
Subject: [PATCH 09/98] fix: a split compressed file replaces what an earlier
 write to its path left

---
 src/arc_utilities/zlib_helpers.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/arc_utilities/zlib_helpers.cpp b/src/arc_utilities/zlib_helpers.cpp
index 7a1837b..4467ebd 100644
--- a/src/arc_utilities/zlib_helpers.cpp
+++ b/src/arc_utilities/zlib_helpers.cpp
@@ -176,6 +176,14 @@ void CompressAndWriteToFile(const std::vector<uint8_t>& uncompressed, const std:
 
       ++file_idx;
     } while (file_idx * max_bytes < uncompressed.size());
+
+    // Files left by an earlier write to the same path would otherwise be loaded instead of, or after, these slices
+    if (boost::filesystem::is_regular_file(path)) {
+      boost::filesystem::remove(path);
+    }
+    for (; boost::filesystem::is_regular_file(path + "." + std::to_string(file_idx)); ++file_idx) {
+      boost::filesystem::remove(path + "." + std::to_string(file_idx));
+    }
     return;
   }
 
-- 
2.43.0


From 7f7901a1b171a6a7d9d3b1cc52ba28c54b409803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:07 +0000
Subject: [PATCH 10/98] fix: compressed files are split so that incompressible
 data can be loaded again

---
 src/arc_utilities/zlib_helpers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arc_utilities/zlib_helpers.cpp b/src/arc_utilities/zlib_helpers.cpp
index 4467ebd..269fbf8 100644
--- a/src/arc_utilities/zlib_helpers.cpp
+++ b/src/arc_utilities/zlib_helpers.cpp
@@ -156,7 +156,8 @@ std::vector<uint8_t> LoadFromFileAndDecompress(const std::string& path) {
 }
 
 void CompressAndWriteToFile(const std::vector<uint8_t>& uncompressed, const std::string& path) {
-  constexpr size_t max_bytes = std::numeric_limits<decltype(z_stream_s::avail_in)>::max();
+  // Incompressible data grows slightly when compressed, and the result must still be small enough to decompress
+  constexpr size_t max_bytes = std::numeric_limits<decltype(z_stream_s::avail_in)>::max() / 2;
   if (uncompressed.size() > max_bytes) {
     std::cerr << "ZLibHelpers::CompressAndWriteToFile(): Input buffer too large for single compression. Splitting into "
                  "multiple files"
-- 
2.43.0


From 41713ed58e6eb0dc99e07a38aeae4a8ed4f1e5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:02 +0000
Subject: [PATCH 11/98] fix: two-set distance matrix is |first| x |second|, not
 square and mirrored

---
 include/arc_utilities/arc_helpers.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 379e1a4..65ca776 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -509,7 +509,7 @@ template <typename FirstDatatype, typename SecondDatatype, typename FirstAllocat
 inline Eigen::MatrixXd BuildDistanceMatrixParallel(
     const std::vector<FirstDatatype, FirstAllocator>& data1, const std::vector<SecondDatatype, SecondAllocator>& data2,
     const std::function<double(const FirstDatatype&, const SecondDatatype&)>& distance_fn) {
-  Eigen::MatrixXd distance_matrix(data1.size(), data1.size());
+  Eigen::MatrixXd distance_matrix(data1.size(), data2.size());
 #if defined(_OPENMP)
 #pragma omp parallel for
 #endif
@@ -517,7 +517,6 @@ inline Eigen::MatrixXd BuildDistanceMatrixParallel(
     for (size_t jdx = 0; jdx < data2.size(); jdx++) {
       const double distance = distance_fn(data1[idx], data2[jdx]);
       distance_matrix((ssize_t)idx, (ssize_t)jdx) = distance;
-      distance_matrix((ssize_t)jdx, (ssize_t)idx) = distance;
     }
   }
   return distance_matrix;
@@ -548,12 +547,11 @@ template <typename FirstDatatype, typename SecondDatatype, typename FirstAllocat
 inline Eigen::MatrixXd BuildDistanceMatrixSerial(
     const std::vector<FirstDatatype, FirstAllocator>& data1, const std::vector<SecondDatatype, SecondAllocator>& data2,
     const std::function<double(const FirstDatatype&, const SecondDatatype&)>& distance_fn) {
-  Eigen::MatrixXd distance_matrix(data1.size(), data1.size());
+  Eigen::MatrixXd distance_matrix(data1.size(), data2.size());
   for (size_t idx = 0; idx < data1.size(); idx++) {
     for (size_t jdx = 0; jdx < data2.size(); jdx++) {
       const double distance = distance_fn(data1[idx], data2[jdx]);
       distance_matrix((ssize_t)idx, (ssize_t)jdx) = distance;
-      distance_matrix((ssize_t)jdx, (ssize_t)idx) = distance;
     }
   }
   return distance_matrix;
-- 
2.43.0


From 2035f144828d4f6be7446dcfeb3240df92d0512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:02 +0000
Subject: [PATCH 12/98] fix: serial nearest neighbours never lists placeholder
 index -1

---
 include/arc_utilities/arc_helpers.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 65ca776..d8e724a 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -651,6 +651,10 @@ std::vector<std::pair<int64_t, double>> GetKNearestNeighborsSerial(
         itr->second = distance;
       }
     }
+    // Like the parallel version, drop the placeholders left over when fewer than K items are at a finite distance
+    k_nearests.erase(std::remove_if(k_nearests.begin(), k_nearests.end(),
+                                    [](const std::pair<int64_t, double>& nearest) { return nearest.first == -1; }),
+                     k_nearests.end());
     return k_nearests;
   } else {
     std::vector<std::pair<int64_t, double>> k_nearests(items.size(),
-- 
2.43.0


From f043f7f3159e49472b540a57344342cf8dbabd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:42 +0000
Subject: [PATCH 13/98] fix: hierarchical clustering with an infinite distance
 limit stops when no pair is left

---
 include/arc_utilities/simple_hierarchical_clustering.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_hierarchical_clustering.hpp b/include/arc_utilities/simple_hierarchical_clustering.hpp
index 945960a..302ae46 100644
--- a/include/arc_utilities/simple_hierarchical_clustering.hpp
+++ b/include/arc_utilities/simple_hierarchical_clustering.hpp
@@ -259,7 +259,9 @@ class SimpleHierarchicalClustering {
           closest_element_pair.first;
       closest_distance = closest_element_pair.second;
       // std::cout << "Element pair: " << PrettyPrint::PrettyPrint(closest_element_pair, true) << std::endl;
-      if (closest_distance <= max_cluster_distance) {
+      // With an infinite distance limit we stop when no pair is left to merge
+      const bool found_pair = (closest_elements.second.second >= 0);
+      if (found_pair && (closest_distance <= max_cluster_distance)) {
         const std::pair<bool, int64_t>& first_element = closest_elements.first;
         const std::pair<bool, int64_t>& second_element = closest_elements.second;
         // If both elements are points, create a new cluster
-- 
2.43.0


From 8e7bfb7b744528f325618c6abae76906e50cac2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:18 +0000
Subject: [PATCH 14/98] fix: k-means keeps the centre of a cluster that has
 lost all members

---
 .../simple_kmeans_clustering.hpp              | 33 ++++++++++++-------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/include/arc_utilities/simple_kmeans_clustering.hpp b/include/arc_utilities/simple_kmeans_clustering.hpp
index fd90f64..ff50a5e 100644
--- a/include/arc_utilities/simple_kmeans_clustering.hpp
+++ b/include/arc_utilities/simple_kmeans_clustering.hpp
@@ -55,8 +55,10 @@ class SimpleKMeansClustering {
   template <typename Datatype, typename Allocator = std::allocator<Datatype>>
   static std::vector<Datatype, Allocator> ComputeClusterCenters(
       const std::vector<Datatype, Allocator>& data, const std::vector<uint32_t>& cluster_labels,
-      const std::function<Datatype(const std::vector<Datatype, Allocator>&)>& average_fn, const uint32_t num_clusters) {
+      const std::function<Datatype(const std::vector<Datatype, Allocator>&)>& average_fn,
+      std::vector<Datatype, Allocator> cluster_centers) {
     assert(data.size() == cluster_labels.size());
+    const uint32_t num_clusters = (uint32_t)cluster_centers.size();
     // Separate the datapoints into their clusters
     std::vector<std::vector<Datatype, Allocator>> clustered_data(num_clusters);
     for (size_t idx = 0; idx < data.size(); idx++) {
@@ -64,11 +66,12 @@ class SimpleKMeansClustering {
       const uint32_t label = cluster_labels[idx];
       clustered_data[label].push_back(datapoint);
     }
-    // Compute the center of each cluster
-    std::vector<Datatype, Allocator> cluster_centers(num_clusters);
+    // Compute the center of each cluster, a cluster without any members keeps its current center
     for (uint32_t cluster = 0; cluster < num_clusters; cluster++) {
       const std::vector<Datatype, Allocator>& cluster_data = clustered_data[cluster];
-      cluster_centers[cluster] = average_fn(cluster_data);
+      if (!cluster_data.empty()) {
+        cluster_centers[cluster] = average_fn(cluster_data);
+      }
     }
     return cluster_centers;
   }
@@ -78,8 +81,9 @@ class SimpleKMeansClustering {
       const std::vector<Datatype, Allocator>& data, const std::vector<double>& weights,
       const std::vector<uint32_t>& cluster_labels,
       const std::function<Datatype(const std::vector<Datatype, Allocator>&, const std::vector<double>&)>& average_fn,
-      const uint32_t num_clusters) {
+      std::vector<Datatype, Allocator> cluster_centers) {
     assert(data.size() == cluster_labels.size());
+    const uint32_t num_clusters = (uint32_t)cluster_centers.size();
 
     // Separate the datapoints into their clusters
     std::vector<std::vector<Datatype, Allocator>> clustered_data(num_clusters);
@@ -93,12 +97,13 @@ class SimpleKMeansClustering {
       clustered_weights[label].push_back(weight);
     }
 
-    // Compute the center of each cluster
-    std::vector<Datatype, Allocator> cluster_centers(num_clusters);
+    // Compute the center of each cluster, a cluster without any members keeps its current center
     for (uint32_t cluster = 0; cluster < num_clusters; cluster++) {
       const std::vector<Datatype, Allocator>& cluster_data = clustered_data[cluster];
       const std::vector<double>& cluster_weights = clustered_weights[cluster];
-      cluster_centers[cluster] = average_fn(cluster_data, cluster_weights);
+      if (!cluster_data.empty()) {
+        cluster_centers[cluster] = average_fn(cluster_data, cluster_weights);
+      }
     }
     return cluster_centers;
   }
@@ -133,7 +138,7 @@ class SimpleKMeansClustering {
     uint32_t iteration = 1u;
     while (!converged) {
       // Update cluster centers
-      cluster_centers = ComputeClusterCenters(data, cluster_labels, average_fn, num_clusters);
+      cluster_centers = ComputeClusterCenters(data, cluster_labels, average_fn, cluster_centers);
       // Cluster with the new centers
       std::vector<uint32_t> new_cluster_labels = PerformSingleClusteringIteration(data, distance_fn, cluster_centers);
       // Check for convergence
@@ -201,7 +206,9 @@ class SimpleKMeansClustering {
       // Run clustering on the subset
       std::vector<uint32_t> random_subset_labels = Cluster(random_subset, distance_fn, average_fn, num_clusters, false);
       // Now we use the centers of the clusters to form the cluster centers
-      cluster_centers = ComputeClusterCenters(random_subset, random_subset_labels, average_fn, num_clusters);
+      const std::vector<Datatype, Allocator> default_centers(random_subset.begin(),
+                                                             random_subset.begin() + num_clusters);
+      cluster_centers = ComputeClusterCenters(random_subset, random_subset_labels, average_fn, default_centers);
     } else {
       // This makes sure we don't get duplicates
       std::map<size_t, uint8_t> index_map;
@@ -238,7 +245,7 @@ class SimpleKMeansClustering {
     uint32_t iteration = 1u;
     while (!converged) {
       // Update cluster centers
-      cluster_centers = ComputeClusterCentersWeighted(data, weights, cluster_labels, average_fn, num_clusters);
+      cluster_centers = ComputeClusterCentersWeighted(data, weights, cluster_labels, average_fn, cluster_centers);
       // Cluster with the new centers
       std::vector<uint32_t> new_cluster_labels = PerformSingleClusteringIteration(data, distance_fn, cluster_centers);
       // Check for convergence
@@ -311,8 +318,10 @@ class SimpleKMeansClustering {
       std::vector<uint32_t> random_subset_labels =
           ClusterWeighted(random_subset, weights, distance_fn, average_fn, num_clusters, false);
       // Now we use the centers of the clusters to form the cluster centers
+      const std::vector<Datatype, Allocator> default_centers(random_subset.begin(),
+                                                             random_subset.begin() + num_clusters);
       cluster_centers =
-          ComputeClusterCentersWeighted(random_subset, weights, random_subset_labels, average_fn, num_clusters);
+          ComputeClusterCentersWeighted(random_subset, weights, random_subset_labels, average_fn, default_centers);
     } else {
       // This makes sure we don't get duplicates
       std::map<size_t, uint8_t> index_map;
-- 
2.43.0


From 01f3cb5732741cfd1102e219cf8146dad17744f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:18 +0000
Subject: [PATCH 15/98] fix: preliminary weighted k-means uses the weights of
 the selected items

---
 include/arc_utilities/simple_kmeans_clustering.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/arc_utilities/simple_kmeans_clustering.hpp b/include/arc_utilities/simple_kmeans_clustering.hpp
index ff50a5e..389ce71 100644
--- a/include/arc_utilities/simple_kmeans_clustering.hpp
+++ b/include/arc_utilities/simple_kmeans_clustering.hpp
@@ -306,22 +306,25 @@ class SimpleKMeansClustering {
       }
       std::vector<Datatype, Allocator> random_subset;
       random_subset.reserve(subset_size);
+      std::vector<double> random_subset_weights;
+      random_subset_weights.reserve(subset_size);
       for (auto itr = index_map.begin(); itr != index_map.end(); ++itr) {
         if (itr->second == 1u) {
           const size_t random_index = itr->first;
           const Datatype& random_element = data[random_index];
           random_subset.push_back(random_element);
+          random_subset_weights.push_back(weights[random_index]);
         }
       }
       assert(random_subset.size() == subset_size);
       // Run clustering on the subset
       std::vector<uint32_t> random_subset_labels =
-          ClusterWeighted(random_subset, weights, distance_fn, average_fn, num_clusters, false);
+          ClusterWeighted(random_subset, random_subset_weights, distance_fn, average_fn, num_clusters, false);
       // Now we use the centers of the clusters to form the cluster centers
       const std::vector<Datatype, Allocator> default_centers(random_subset.begin(),
                                                              random_subset.begin() + num_clusters);
-      cluster_centers =
-          ComputeClusterCentersWeighted(random_subset, weights, random_subset_labels, average_fn, default_centers);
+      cluster_centers = ComputeClusterCentersWeighted(random_subset, random_subset_weights, random_subset_labels,
+                                                      average_fn, default_centers);
     } else {
       // This makes sure we don't get duplicates
       std::map<size_t, uint8_t> index_map;
-- 
2.43.0


From 19ac8b791057131b506cc32e52e037ac301b19cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:50 +0000
Subject: [PATCH 16/98] fix: refreshing roadmap edges calls the linkage check
 by its name

---
 include/arc_utilities/simple_prm_planner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_prm_planner.hpp b/include/arc_utilities/simple_prm_planner.hpp
index 95834d5..cbcffdf 100644
--- a/include/arc_utilities/simple_prm_planner.hpp
+++ b/include/arc_utilities/simple_prm_planner.hpp
@@ -142,7 +142,7 @@ class SimpleGeometricPrmPlanner {
   static void UpdateRoadMapEdges(arc_dijkstras::Graph<T, Allocator>& roadmap,
                                  const std::function<bool(const T&, const T&)>& edge_validity_check_fn,
                                  const std::function<double(const T&, const T&)>& distance_fn) {
-    if (roadmap.CheckGraphLinkage() == false) {
+    if (roadmap.checkGraphLinkage() == false) {
       throw std::invalid_argument("Provided roadmap has invalid linkage");
     }
 #ifdef ENABLE_PARALLEL_ROADMAP
-- 
2.43.0


From aea432321ab8e4e668e74279123ef1825a7b0307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:04 +0000
Subject: [PATCH 17/98] fix: connecting a start state with asymmetric distances
 failed an assertion

---
 include/arc_utilities/simple_prm_planner.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/simple_prm_planner.hpp b/include/arc_utilities/simple_prm_planner.hpp
index cbcffdf..b102b03 100644
--- a/include/arc_utilities/simple_prm_planner.hpp
+++ b/include/arc_utilities/simple_prm_planner.hpp
@@ -68,10 +68,11 @@ class SimpleGeometricPrmPlanner {
         if (distance_is_symmetric) {
           nearest_neighbors_distances[idx] = std::make_pair(nearest_neighbor_distance, nearest_neighbor_distance);
         } else {
-          const double reverse_graph_distance = distance_fn(state, roadmap.getNode(nearest_neighbor_index).getValue());
           if (nn_distance_direction == ROADMAP_TO_NEW_STATE) {
+            const double reverse_graph_distance = distance_fn(state, nearest_neighbor_state);
             nearest_neighbors_distances[idx] = std::make_pair(nearest_neighbor_distance, reverse_graph_distance);
-          } else if (nn_distance_direction == ROADMAP_TO_NEW_STATE) {
+          } else if (nn_distance_direction == NEW_STATE_TO_ROADMAP) {
+            const double reverse_graph_distance = distance_fn(nearest_neighbor_state, state);
             nearest_neighbors_distances[idx] = std::make_pair(reverse_graph_distance, nearest_neighbor_distance);
           } else {
             assert(false && "This code should not be reachable");
-- 
2.43.0


From 76363c736633bc8118d01dceb50c93363ce447ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:48 +0000
Subject: [PATCH 18/98] fix: single-tree and two-state RRT planners compile
 when used

---
 include/arc_utilities/simple_rrt_planner.hpp | 31 +++++++++++---------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/include/arc_utilities/simple_rrt_planner.hpp b/include/arc_utilities/simple_rrt_planner.hpp
index 1aa7a55..8d76f12 100644
--- a/include/arc_utilities/simple_rrt_planner.hpp
+++ b/include/arc_utilities/simple_rrt_planner.hpp
@@ -1,9 +1,12 @@
 #include <stdlib.h>
 
 #include <Eigen/Dense>
+#include <algorithm>
 #include <arc_utilities/serialization.hpp>
 #include <chrono>
 #include <functional>
+#include <iostream>
+#include <map>
 #include <memory>
 #include <random>
 #include <stdexcept>
@@ -501,8 +504,8 @@ class SimpleHybridRRTPlanner {
    * statistics - map of string keys/double values of planner statistics (i.e. run time, #states explored, #states in
    * solution
    */
-  template <typename T, typename Allocator = std::allocator<T>>
-  static std::pair<std::vector<std::vector<T, Allocator>>, std::map<std::string, double>> PlanMultiPath(
+  template <typename StateType, typename SampleType, typename StateAllocator = std::allocator<StateType>>
+  static std::pair<std::vector<std::vector<StateType, StateAllocator>>, std::map<std::string, double>> PlanMultiPath(
       std::vector<SimpleRRTPlannerState<StateType, StateAllocator>>& tree,
       const std::function<int64_t(const std::vector<SimpleRRTPlannerState<StateType, StateAllocator>>&,
                                   const SampleType&)>& nearest_neighbor_fn,
@@ -543,13 +546,13 @@ class SimpleHybridRRTPlanner {
     // Plan
     while (!termination_check_fn()) {
       // Sample a random goal
-      const StateType random_target = sampling_fn();
+      const SampleType random_target = sampling_fn();
       // Get the nearest neighbor
-      const int64_t nearest_neighbor_index = nearest_neighbor_fn(nodes, random_target);
-      if (unlikely(nearest_neighbor_index < 0)) {
+      const int64_t nearest_neighbor_index = nearest_neighbor_fn(tree, random_target);
+      if (nearest_neighbor_index < 0) {
         break;
       }
-      const T& nearest_neighbor = nodes.at(nearest_neighbor_index).GetValueImmutable();
+      const StateType& nearest_neighbor = tree.at(nearest_neighbor_index).GetValueImmutable();
       // Forward propagate towards the goal
       std::vector<std::pair<StateType, int64_t>> propagated = forward_propagation_fn(nearest_neighbor, random_target);
       if (!propagated.empty()) {
@@ -578,12 +581,12 @@ class SimpleHybridRRTPlanner {
                                                          // nearest neighbor index
           }
           // Build the new state
-          const T& current_propagated = current_propagation.first;
-          const SimpleRRTPlannerState<T, Allocator> new_state(current_propagated, node_parent_index);
+          const StateType& current_propagated = current_propagation.first;
+          const SimpleRRTPlannerState<StateType, StateAllocator> new_state(current_propagated, node_parent_index);
           // Add the state to the tree
-          nodes.push_back(new_state);
-          const int64_t new_node_index = (int64_t)nodes.size() - 1;
-          nodes[node_parent_index].AddChildIndex(new_node_index);
+          tree.push_back(new_state);
+          const int64_t new_node_index = (int64_t)tree.size() - 1;
+          tree[node_parent_index].AddChildIndex(new_node_index);
           // Call the state added callback
           state_added_fn(tree, new_node_index);
           // Check if we've reached the goal
@@ -817,8 +820,8 @@ class SimpleHybridBiRRTPlanner {
    * statistics - map of string keys/double values of planner statistics (i.e. run time, #states explored, #states in
    * solution
    */
-  template <typename T, typename Allocator = std::allocator<T>>
-  static std::pair<std::vector<std::vector<T>>, std::map<std::string, double>> PlanMultiPath(
+  template <typename RNG, typename T, typename Allocator = std::allocator<T>>
+  static std::pair<std::vector<std::vector<T, Allocator>>, std::map<std::string, double>> PlanMultiPath(
       const T& start, const T& goal,
       const std::function<int64_t(const std::vector<SimpleRRTPlannerState<T, Allocator>>&, const T&)>&
           nearest_neighbor_fn,
@@ -915,7 +918,7 @@ class SimpleHybridBiRRTPlanner {
           (sample_from_tree) ? target_tree.at(target_tree_node_index).GetValueImmutable() : state_sampling_fn();
       // Get the nearest neighbor
       const int64_t nearest_neighbor_index = nearest_neighbor_fn(active_tree, target_state);
-      if (unlikely(nearest_neighbor_index < 0)) {
+      if (nearest_neighbor_index < 0) {
         break;
       }
       const StateType& nearest_neighbor = active_tree.at(nearest_neighbor_index).GetValueImmutable();
-- 
2.43.0


From e505a56b010e3cc5817ebea21d6022c5e8ccdb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:48 +0000
Subject: [PATCH 19/98] fix: RRT tree check refuses parent indices beyond the
 tree

---
 include/arc_utilities/simple_rrt_planner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_rrt_planner.hpp b/include/arc_utilities/simple_rrt_planner.hpp
index 8d76f12..ecd0713 100644
--- a/include/arc_utilities/simple_rrt_planner.hpp
+++ b/include/arc_utilities/simple_rrt_planner.hpp
@@ -651,7 +651,7 @@ class SimpleHybridRRTPlanner {
                     << " [Indices can't be the same]" << std::endl;
           return false;
         }
-      } else if (parent_index < -1) {
+      } else if (parent_index != -1) {
         std::cerr << "Invalid parent index " << parent_index << " for state " << current_index << std::endl;
         return false;
       }
-- 
2.43.0


From 70c38cd1c29fb008bfd8b5004418e094a60c2f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:25 +0000
Subject: [PATCH 20/98] fix: upsampling part of a path that needs no more
 points returns that part

---
 include/arc_utilities/path_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/path_utils.hpp b/include/arc_utilities/path_utils.hpp
index b31fa13..f38181c 100644
--- a/include/arc_utilities/path_utils.hpp
+++ b/include/arc_utilities/path_utils.hpp
@@ -167,7 +167,7 @@ inline std::vector<Configuration, ConfigAlloc> UpsamplePathPartial(const std::ve
 
   // Return early with no message if the number of points already matches
   if (end_ind - start_ind == num_points) {
-    return path;
+    return std::vector<Configuration, ConfigAlloc>(path.begin() + start_ind, path.begin() + end_ind);
   }
   // Abort with a warning if the number of points is already too many
   else if (end_ind - start_ind > num_points) {
@@ -175,7 +175,7 @@ inline std::vector<Configuration, ConfigAlloc> UpsamplePathPartial(const std::ve
                  "number of points\n"
               << "Start ind: " << start_ind << "    End ind: " << end_ind << "    Num points: " << num_points
               << std::endl;
-    return path;
+    return std::vector<Configuration, ConfigAlloc>(path.begin() + start_ind, path.begin() + end_ind);
   } else {
     const ssize_t num_segments = end_ind - start_ind - 1;
     assert(num_segments > 0);
-- 
2.43.0


From b59612f2750e109cc4b8eb464d4aa9513364bcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:26 +0000
Subject: [PATCH 21/98] fix: appending a trajectory with fewer or more joints
 is refused

---
 src/arc_utilities/trajectory_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/trajectory_utils.cpp b/src/arc_utilities/trajectory_utils.cpp
index f8feefd..97ff2f7 100644
--- a/src/arc_utilities/trajectory_utils.cpp
+++ b/src/arc_utilities/trajectory_utils.cpp
@@ -8,7 +8,7 @@ void append(trajectory_msgs::JointTrajectory &trajectory1, trajectory_msgs::Join
   if (trajectory1.joint_names.empty()) {
     trajectory1.joint_names = trajectory2.joint_names;
   } else if (not std::equal(trajectory1.joint_names.cbegin(), trajectory1.joint_names.cend(),
-                            trajectory2.joint_names.cbegin())) {
+                            trajectory2.joint_names.cbegin(), trajectory2.joint_names.cend())) {
     ROS_ERROR_STREAM("Tried to append trajectory but the joint names differ");
     ROS_ERROR_STREAM("joint 1 names:");
     for (auto const &name1 : trajectory1.joint_names) {
-- 
2.43.0


From 109e49d8470d8b0e8dab6f5b00911de93da1bace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:02 +0000
Subject: [PATCH 22/98] fix: resetting a profiler name clears its timed values
 too

---
 src/arc_utilities/timing.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index cce5239..342c465 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -38,6 +38,7 @@ void Profiler::reset(std::string name) {
     m->data[name].resize(0);
     startTimer(name);
   }
+  m->timed_double_data.erase(name);
 }
 
 void Profiler::addData(std::string name, double datum) {
-- 
2.43.0


From bf1f064ac4a538873be67fc2396ce4b10ec5bed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:02 +0000
Subject: [PATCH 23/98] fix: asking the profiler for a name without data
 neither records it nor crashes its summary

---
 src/arc_utilities/timing.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index 342c465..3434f39 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -94,7 +94,8 @@ double Profiler::recordDouble(std::string timer_name, double datum) {
 
 std::vector<double> Profiler::getData(std::string name) {
   Profiler* m = getInstance();
-  return m->data[name];
+  const auto found = m->data.find(name);
+  return found == m->data.end() ? std::vector<double>() : found->second;
 }
 
 void Profiler::printSingleSummary(std::string name) {
@@ -105,7 +106,7 @@ void Profiler::printSingleSummary(std::string name) {
   std::cout << "|| " << name << " || Summary :\n";
   std::cout << " '" << box << "' "
             << "\n";
-  if (m->data.find(name) == m->data.end()) {
+  if (m->data.find(name) == m->data.end() || m->data[name].empty()) {
     std::cout << name << " never called\n\n";
     return;
   }
-- 
2.43.0


From db9872aaf41269bc2a8e923ec85471041541e9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:02 +0000
Subject: [PATCH 24/98] fix: profiler summaries without any name no longer
 dereference the end

---
 src/arc_utilities/timing.cpp | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index 3434f39..349d3bc 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -134,13 +134,10 @@ void Profiler::printGroupSummary(const std::vector<std::string>& names) {
   std::cout << "||    Profile Summary    ||\n";
   std::cout << " '=======================' \n";
 
-  std::size_t label_len =
-      max_element(names.begin(), names.end(),
-                  [](const std::string& a, const std::string& b) { return a.length() < b.length(); })
-          ->length() +
-      2;
-
-  label_len = std::max(label_len, (size_t)8);
+  std::size_t label_len = 8;
+  for (const auto& name : names) {
+    label_len = std::max(label_len, name.length() + 2);
+  }
 
   const std::string label_format = ("%-" + std::to_string(label_len) + "s");
 
@@ -220,13 +217,10 @@ void Profiler::writeGroupSummary(const std::string& filename, const std::vector<
   // std::cout << "||    Profile Summary    ||\n";
   // std::cout << " '=======================' \n";
 
-  std::size_t label_len =
-      max_element(names.begin(), names.end(),
-                  [](const std::string& a, const std::string& b) { return a.length() < b.length(); })
-          ->length() +
-      2;
-
-  label_len = std::max(label_len, (size_t)8);
+  std::size_t label_len = 8;
+  for (const auto& name : names) {
+    label_len = std::max(label_len, name.length() + 2);
+  }
 
   const std::string label_format = ("%-" + std::to_string(label_len) + "s");
 
@@ -301,13 +295,10 @@ void Profiler::writeAll(const std::string& filename, size_t limit_per_name) {
 
   std::sort(all_names.begin(), all_names.end());
 
-  std::size_t label_len =
-      max_element(all_names.begin(), all_names.end(),
-                  [](const std::string& a, const std::string& b) { return a.length() < b.length(); })
-          ->length() +
-      2;
-
-  label_len = std::max(label_len, (size_t)8);
+  std::size_t label_len = 8;
+  for (const auto& name : all_names) {
+    label_len = std::max(label_len, name.length() + 2);
+  }
 
   const std::string label_format = ("%-" + std::to_string(label_len) + "s");
   fprintf(outfile, label_format.c_str(), "Label");
-- 
2.43.0


From 3e627855e272178e7cb6f63dcf3044396c633ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:02 +0000
Subject: [PATCH 25/98] fix: profiler files list a name used for timings and
 values once

---
 src/arc_utilities/timing.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index 349d3bc..ba56f76 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -186,6 +186,7 @@ std::vector<std::string> Profiler::getAllNames() {
   }
 
   std::sort(all_names.begin(), all_names.end());
+  all_names.erase(std::unique(all_names.begin(), all_names.end()), all_names.end());
   return all_names;
 }
 
@@ -285,15 +286,7 @@ void Profiler::writeAll(const std::string& filename, size_t limit_per_name) {
 
   addHeader(outfile);
 
-  std::vector<std::string> all_names;
-  for (auto const& imap : m->data) {
-    all_names.push_back(imap.first);
-  }
-  for (auto const& imap : m->timed_double_data) {
-    all_names.push_back(imap.first);
-  }
-
-  std::sort(all_names.begin(), all_names.end());
+  const std::vector<std::string> all_names = getAllNames();
 
   std::size_t label_len = 8;
   for (const auto& name : all_names) {
-- 
2.43.0


From 4f4f7ef508d45ed4ee72c9f876f1169eb091f0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:24 +0000
Subject: [PATCH 26/98] fix: a log file in the current directory can be opened

---
 include/arc_utilities/log.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/log.hpp b/include/arc_utilities/log.hpp
index c6dc7b3..14a76a8 100644
--- a/include/arc_utilities/log.hpp
+++ b/include/arc_utilities/log.hpp
@@ -32,7 +32,9 @@ class Log {
   Log(const std::string& filename, bool add_header = false) : filename_(filename) {
     // Create the parent folder if needed
     boost::filesystem::path p(filename_);
-    arc_utilities::CreateDirectory(p.parent_path());
+    if (p.has_parent_path()) {
+      arc_utilities::CreateDirectory(p.parent_path());
+    }
 
     out_file_.open(filename, std::ios_base::out | std::ios_base::trunc);
     // check if we've succesfully opened the file
-- 
2.43.0


From 9cf16e6a04c1b565f5cabd800785fc8e24c6e31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:24 +0000
Subject: [PATCH 27/98] fix: a log and its copies no longer overwrite each
 other's messages

---
 include/arc_utilities/log.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/arc_utilities/log.hpp b/include/arc_utilities/log.hpp
index 14a76a8..e8464de 100644
--- a/include/arc_utilities/log.hpp
+++ b/include/arc_utilities/log.hpp
@@ -42,6 +42,9 @@ class Log {
       std::cerr << "\x1b[31;1m Unable to create folder/file to log to: " << filename << "\x1b[37m \n";
       throw std::invalid_argument("filename must be write-openable");
     }
+    // Copies write to the same file, so append to it instead of overwriting what they have written
+    out_file_.close();
+    out_file_.open(filename, std::ios_base::out | std::ios_base::app);
 
     if (add_header) {
       time_t rawtime;
-- 
2.43.0


From 96c5943ccc4eac2ac9133f8fe76f1e8e0fac8b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:38 +0000
Subject: [PATCH 28/98] fix: XorShift1024StarPRNG::seed restarts the sequence

The position in the state was left where earlier draws had moved it.
---
 include/arc_utilities/arc_helpers.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index d8e724a..a15b8b0 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -906,10 +906,7 @@ class XorShift1024StarPRNG {
   }
 
  public:
-  inline XorShift1024StarPRNG(const uint64_t seed_val) {
-    seed(seed_val);
-    p = 0;
-  }
+  inline XorShift1024StarPRNG(const uint64_t seed_val) { seed(seed_val); }
 
   static constexpr uint64_t min(void) { return 0u; }
 
@@ -920,6 +917,7 @@ class XorShift1024StarPRNG {
     for (size_t idx = 0u; idx < state_.size(); idx++) {
       state_[idx] = temp_seed_gen();
     }
+    p = 0;
   }
 
   inline void discard(const unsigned long long z) {
-- 
2.43.0


From 20230bf9f153a2424c901a8ad74e12053d766307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:38 +0000
Subject: [PATCH 29/98] fix: TruncatedNormalDistribution draws from the
 standardised range

The uniform proposal used the raw bounds, so unless mean was 0 and stddev 1
narrow tail ranges gave samples outside the bounds.
---
 include/arc_utilities/arc_helpers.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index a15b8b0..1c08e01 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -1138,6 +1138,7 @@ class TruncatedNormalDistribution {
           case_ = TYPE_3;
         } else {
           case_ = TYPE_4;
+          uniform_range_dist_ = std::uniform_real_distribution<double>(std_lower_bound_, std_upper_bound_);
         }
       }
       assert((case_ == TYPE_1) || (case_ == TYPE_2) || (case_ == TYPE_3) || (case_ == TYPE_4));
-- 
2.43.0


From 9ffacb8bf16c35c5cb835d3411eca36d475ae3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:36 +0000
Subject: [PATCH 30/98] fix: ContinuousRevoluteSignedDistance sign when
 wrapping

From 3 to -3 the shortest rotation is +0.28, not -0.28; range and bounds
checks built on the signed distance were wrong with it.
---
 include/arc_utilities/math_helpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/math_helpers.hpp b/include/arc_utilities/math_helpers.hpp
index 4f81a18..f0343ed 100644
--- a/include/arc_utilities/math_helpers.hpp
+++ b/include/arc_utilities/math_helpers.hpp
@@ -179,9 +179,9 @@ inline double ContinuousRevoluteSignedDistance(const double p1, const double p2)
   const double raw_distance = real_p2 - real_p1;
   if ((raw_distance <= -M_PI) || (raw_distance > M_PI)) {
     if (raw_distance <= -M_PI) {
-      return (-(2.0 * M_PI) - raw_distance);
+      return ((2.0 * M_PI) + raw_distance);
     } else if (raw_distance > M_PI) {
-      return ((2.0 * M_PI) - raw_distance);
+      return (raw_distance - (2.0 * M_PI));
     } else {
       return raw_distance;
     }
-- 
2.43.0


From daaaefa694c1b70adfe63d66b9ec747193d4dde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 31/98] fix: a copied Trajectory no longer looks up segments of
 the original

The cached list iterator was copied along and dangled once the original was gone.
---
 .../time_optimal_trajectory_parametrization.hpp          | 3 +++
 .../time_optimal_trajectory_parametrization.cpp          | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/arc_utilities/time_optimal_trajectory_parametrization.hpp b/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
index 3ef54ab..ef5d508 100644
--- a/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
+++ b/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
@@ -74,6 +74,9 @@ class Trajectory {
   Trajectory(const Path& path_, const Eigen::VectorXd& max_velocity_, const Eigen::VectorXd& max_acceleration_,
              double timestep = 0.001);
 
+  // The lookup cache points into the trajectory it belongs to, so a copy starts with its own
+  Trajectory(const Trajectory& other);
+
   ~Trajectory(void);
 
   // Returns the optimal duration of the trajectory
diff --git a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
index ab1ee4b..e90744b 100644
--- a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
@@ -281,6 +281,15 @@ Trajectory::Trajectory(const Path& path, const Eigen::VectorXd& max_velocity, co
   }
 }
 
+Trajectory::Trajectory(const Trajectory& other)
+    : path_(other.path_),
+      max_velocity_(other.max_velocity_),
+      max_acceleration_(other.max_acceleration_),
+      n_(other.n_),
+      trajectory_(other.trajectory_),
+      time_step_(other.time_step_),
+      cached_time_(std::numeric_limits<double>::max()) {}
+
 Trajectory::~Trajectory(void) {}
 
 void Trajectory::OutputPhasePlaneTrajectory() const {
-- 
2.43.0


From 60f1bb772b3c5ed598df241493bb77f0ed5e2851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 32/98] fix: assigning a Path shared and double-freed its
 segments

---
 .../time_optimal_trajectory_parametrization.hpp            | 2 ++
 .../time_optimal_trajectory_parametrization.cpp            | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/include/arc_utilities/time_optimal_trajectory_parametrization.hpp b/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
index ef5d508..a11d11e 100644
--- a/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
+++ b/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
@@ -41,6 +41,8 @@ class Path {
 
   Path(const Path& path);
 
+  Path& operator=(Path path);
+
   ~Path();
 
   double Length() const;
diff --git a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
index e90744b..a9ff31a 100644
--- a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
@@ -161,6 +161,13 @@ Path::Path(const Path& path) : length_(path.length_), switching_points_(path.swi
   }
 }
 
+Path& Path::operator=(Path path) {
+  std::swap(length_, path.length_);
+  switching_points_.swap(path.switching_points_);
+  path_segments_.swap(path.path_segments_);
+  return *this;
+}
+
 Path::~Path() {
   for (std::list<PathSegment*>::iterator it = path_segments_.begin(); it != path_segments_.end(); it++) {
     delete *it;
-- 
2.43.0


From d8dc1e40676a62d7938ecdce3821f2e76c8979a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 33/98] fix: IntegrateForward read past the last switching
 point

---
 src/arc_utilities/time_optimal_trajectory_parametrization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
index a9ff31a..2c44765 100644
--- a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
@@ -495,7 +495,7 @@ bool Trajectory::IntegrateForward(std::list<TrajectoryStep>& trajectory, const d
       }
       trajectory.push_back(TrajectoryStep(before, before_path_vel));
       if (GetAccelerationMaxPathVelocity(after) < GetVelocityMaxPathVelocity(after)) {
-        if (after > next_discontinuity->first) {
+        if ((next_discontinuity != switching_points.end()) && (after > next_discontinuity->first)) {
           return false;
         } else if (GetMinMaxPhaseSlope(trajectory.back().path_pos_, trajectory.back().path_vel_, true) >
                    GetAccelerationMaxPathVelocityDeriv(trajectory.back().path_pos_)) {
-- 
2.43.0


From 78e4c87c5cf711042fe7c0f140fe22b155465ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 34/98] fix: UpdateBaseTransform left the inverse base
 transform stale

---
 include/arc_utilities/simple_linked_robot_model.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 89097c0..8c2e39f 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -617,6 +617,7 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
 
   inline void UpdateBaseTransform(const Eigen::Isometry3d& base_transform) {
     base_transform_ = base_transform;
+    inverse_base_transform_ = base_transform_.inverse();
     UpdateTransforms();
   }
 
-- 
2.43.0


From 894f9952689f056f9aeac5c750c6af443d416f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 35/98] fix: prismatic Jacobian column is a direction, not a
 point

---
 include/arc_utilities/simple_linked_robot_model.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 8c2e39f..65d4a31 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -834,7 +834,7 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
         jacobian.block<3, 1>(0, active_joint_index) = joint_axis.cross(world_point - joint_transform.translation());
         jacobian.block<3, 1>(3, active_joint_index) = joint_axis;
       } else if (parent_joint.JointModel().IsPrismatic()) {
-        const Eigen::Vector3d joint_axis = (Eigen::Vector3d)(joint_transform * parent_joint.JointAxis());
+        const Eigen::Vector3d joint_axis = (Eigen::Vector3d)(joint_transform.rotation() * parent_joint.JointAxis());
         jacobian.block<3, 1>(0, active_joint_index) = joint_axis;
       } else {
         // We do nothing for fixed joints
-- 
2.43.0


From a5e39e13bc1babf28247808705ada451cdec816f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 36/98] fix: reject joints that refer to links that do not
 exist

---
 include/arc_utilities/simple_linked_robot_model.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 65d4a31..d0e7433 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -549,6 +549,11 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
       // Add the edge into the kinematic skeleton
       const int64_t parent_link_index = current_joint.ParentLinkIndex();
       const int64_t child_link_index = current_joint.ChildLinkIndex();
+      if (parent_link_index < 0 || parent_link_index >= (int64_t)links.size() || child_link_index < 0 ||
+          child_link_index >= (int64_t)links.size()) {
+        std::cerr << "Joint " << current_joint.JointName() << " refers to a link that does not exist" << std::endl;
+        return std::make_pair(std::vector<KinematicSkeletonElement>(), false);
+      }
       // Set the child->parent relationship
       kinematic_skeleton[(size_t)child_link_index].parent_link_index_ = parent_link_index;
       kinematic_skeleton[(size_t)child_link_index].parent_joint_index_ = joint_idx;
-- 
2.43.0


From a5235e196bf57e2fb30b0952ed9edacdff785749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 37/98] fix: SetPosition(GetPosition()) on a linked robot lost
 the configuration

---
 include/arc_utilities/simple_linked_robot_model.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index d0e7433..dc85b40 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -368,7 +368,9 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
 
   inline void SetConfig(const SimpleLinkedConfiguration& new_config) {
     if (new_config.size() == num_active_joints_) {
-      config_.clear();
+      // new_config may be our own config_, so build the updated one separately
+      SimpleLinkedConfiguration updated_config;
+      updated_config.reserve(num_active_joints_);
       size_t config_idx = 0u;
       for (size_t idx = 0; idx < joints_.size(); idx++) {
         RobotJoint& current_joint = joints_[idx];
@@ -379,13 +381,14 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
           if (config_idx < new_config.size()) {
             const SimpleJointModel& new_joint = new_config[config_idx];
             current_joint.JointModel().SetValue(new_joint.GetValue());
-            config_.push_back(current_joint.JointModel());
+            updated_config.push_back(current_joint.JointModel());
             config_idx++;
           } else {
             throw std::runtime_error("config_idx out of range");
           }
         }
       }
+      config_ = updated_config;
       // Update forward kinematics
       UpdateTransforms();
     } else {
-- 
2.43.0


From 07aa6368a3d472d955ab105aab8add8fb2f4ab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 38/98] fix: link transforms were stale when joints were not
 listed root first

---
 include/arc_utilities/simple_linked_robot_model.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index dc85b40..ca5eb54 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -332,10 +332,15 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
   inline void UpdateTransforms() {
     // Update the transform for the first link
     links_[0].UpdateLinkTransform(base_transform_);
-    // Go out the kinematic chain
-    for (size_t idx = 0; idx < joints_.size(); idx++) {
+    // Go out the kinematic tree, so that every parent link is updated before its children
+    std::vector<int64_t> joint_order = kinematic_skeleton_[0].child_joint_indices_;
+    for (size_t idx = 0; idx < joint_order.size(); idx++) {
       // Get the current joint
-      const RobotJoint& current_joint = joints_[idx];
+      const RobotJoint& current_joint = joints_[(size_t)joint_order[idx]];
+      // Continue with the joints beyond it
+      const std::vector<int64_t>& next_joints =
+          kinematic_skeleton_[(size_t)current_joint.ChildLinkIndex()].child_joint_indices_;
+      joint_order.insert(joint_order.end(), next_joints.begin(), next_joints.end());
       // Get the parent link
       const RobotLink& parent_link = links_[(size_t)current_joint.ParentLinkIndex()];
       // Get the child link
-- 
2.43.0


From 2a9724e884f101568ae8be7e835db2d54bc1b5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 39/98] fix: SE2/SE3 configuration serializers called functions
 that do not exist

---
 include/arc_utilities/simple_se2_robot_model.hpp | 5 +++--
 include/arc_utilities/simple_se3_robot_model.hpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/simple_se2_robot_model.hpp b/include/arc_utilities/simple_se2_robot_model.hpp
index 4640fea..36c7c0c 100644
--- a/include/arc_utilities/simple_se2_robot_model.hpp
+++ b/include/arc_utilities/simple_se2_robot_model.hpp
@@ -4,6 +4,7 @@
 #include <arc_utilities/arc_helpers.hpp>
 #include <arc_utilities/eigen_helpers.hpp>
 #include <arc_utilities/pretty_print.hpp>
+#include <arc_utilities/serialization_eigen.hpp>
 #include <arc_utilities/simple_robot_model_interface.hpp>
 #include <map>
 #include <random>
@@ -21,12 +22,12 @@ class SimpleSE2ConfigSerializer {
   static inline std::string TypeName() { return std::string("EigenMatrixD31Serializer"); }
 
   static inline uint64_t Serialize(const SimpleSE2Configuration& value, std::vector<uint8_t>& buffer) {
-    return EigenHelpers::Serialize(value, buffer);
+    return arc_utilities::SerializeEigen(value, buffer);
   }
 
   static inline std::pair<SimpleSE2Configuration, uint64_t> Deserialize(const std::vector<uint8_t>& buffer,
                                                                         const uint64_t current) {
-    return EigenHelpers::Deserialize<Eigen::Matrix<double, 3, 1>>(buffer, current);
+    return arc_utilities::DeserializeEigen<Eigen::Matrix<double, 3, 1>>(buffer, current);
   }
 };
 
diff --git a/include/arc_utilities/simple_se3_robot_model.hpp b/include/arc_utilities/simple_se3_robot_model.hpp
index ae153ad..0c2491d 100644
--- a/include/arc_utilities/simple_se3_robot_model.hpp
+++ b/include/arc_utilities/simple_se3_robot_model.hpp
@@ -4,6 +4,7 @@
 #include <arc_utilities/arc_helpers.hpp>
 #include <arc_utilities/eigen_helpers.hpp>
 #include <arc_utilities/pretty_print.hpp>
+#include <arc_utilities/serialization_eigen.hpp>
 #include <arc_utilities/simple_robot_model_interface.hpp>
 #include <map>
 #include <random>
@@ -21,12 +22,12 @@ class SimpleSE3ConfigSerializer {
   static inline std::string TypeName() { return std::string("EigenIsometry3dSerializer"); }
 
   static inline uint64_t Serialize(const SimpleSE3Configuration& value, std::vector<uint8_t>& buffer) {
-    return EigenHelpers::Serialize(value, buffer);
+    return arc_utilities::SerializeEigen(value, buffer);
   }
 
   static inline std::pair<SimpleSE3Configuration, uint64_t> Deserialize(const std::vector<uint8_t>& buffer,
                                                                         const uint64_t current) {
-    return EigenHelpers::Deserialize<Eigen::Isometry3d>(buffer, current);
+    return arc_utilities::DeserializeEigen<Eigen::Isometry3d>(buffer, current);
   }
 };
 
-- 
2.43.0


From ff2017bec579a9d3d41a838cf897037168bfaf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 40/98] fix: robot model headers did not include what they use

---
 include/arc_utilities/iiwa_14_fk_fast.hpp           | 1 +
 include/arc_utilities/iiwa_7_fk_fast.hpp            | 1 +
 include/arc_utilities/simple_linked_robot_model.hpp | 1 +
 include/arc_utilities/simple_robot_models.hpp       | 1 +
 include/arc_utilities/ur_10_fk_fast.hpp             | 1 +
 5 files changed, 5 insertions(+)

diff --git a/include/arc_utilities/iiwa_14_fk_fast.hpp b/include/arc_utilities/iiwa_14_fk_fast.hpp
index 8333696..974fd50 100644
--- a/include/arc_utilities/iiwa_14_fk_fast.hpp
+++ b/include/arc_utilities/iiwa_14_fk_fast.hpp
@@ -4,6 +4,7 @@
 
 #include <Eigen/Geometry>
 #include <arc_utilities/arc_helpers.hpp>
+#include <arc_utilities/eigen_helpers.hpp>
 #include <arc_utilities/eigen_typedefs.hpp>
 #include <map>
 #include <vector>
diff --git a/include/arc_utilities/iiwa_7_fk_fast.hpp b/include/arc_utilities/iiwa_7_fk_fast.hpp
index 1b58328..06d0b1c 100644
--- a/include/arc_utilities/iiwa_7_fk_fast.hpp
+++ b/include/arc_utilities/iiwa_7_fk_fast.hpp
@@ -4,6 +4,7 @@
 
 #include <Eigen/Geometry>
 #include <arc_utilities/arc_helpers.hpp>
+#include <arc_utilities/eigen_helpers.hpp>
 #include <arc_utilities/eigen_typedefs.hpp>
 #include <map>
 #include <vector>
diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index ca5eb54..7ee8e36 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -7,6 +7,7 @@
 #include <arc_utilities/pretty_print.hpp>
 #include <arc_utilities/serialization.hpp>
 #include <arc_utilities/simple_robot_model_interface.hpp>
+#include <arc_utilities/vector_math.hpp>
 #include <map>
 #include <random>
 #include <vector>
diff --git a/include/arc_utilities/simple_robot_models.hpp b/include/arc_utilities/simple_robot_models.hpp
index 71f50ed..a7c4234 100644
--- a/include/arc_utilities/simple_robot_models.hpp
+++ b/include/arc_utilities/simple_robot_models.hpp
@@ -9,6 +9,7 @@
 #include <arc_utilities/simple_se2_robot_model.hpp>
 #include <arc_utilities/simple_se3_robot_model.hpp>
 #include <map>
+#include <memory>
 #include <random>
 #include <vector>
 
diff --git a/include/arc_utilities/ur_10_fk_fast.hpp b/include/arc_utilities/ur_10_fk_fast.hpp
index 36c1547..153502d 100644
--- a/include/arc_utilities/ur_10_fk_fast.hpp
+++ b/include/arc_utilities/ur_10_fk_fast.hpp
@@ -4,6 +4,7 @@
 
 #include <Eigen/Geometry>
 #include <arc_utilities/arc_helpers.hpp>
+#include <arc_utilities/eigen_helpers.hpp>
 #include <arc_utilities/eigen_typedefs.hpp>
 #include <map>
 #include <vector>
-- 
2.43.0


From bd258f1377b2636ba8e84bc0f363b080c8464897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 41/98] fix: a joint axis of NaN passed the unit vector check

---
 include/arc_utilities/simple_linked_robot_model.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 7ee8e36..43ebc01 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -551,7 +551,7 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
       // Check the joint axes
       const double joint_axis_norm = current_joint.JointAxis().norm();
       const double error = std::abs(joint_axis_norm - 1.0);
-      if (error > std::numeric_limits<double>::epsilon()) {
+      if (!(error <= std::numeric_limits<double>::epsilon())) {
         std::cerr << "Joint axis is not a unit vector" << std::endl;
         return std::make_pair(std::vector<KinematicSkeletonElement>(), false);
       }
-- 
2.43.0


From f5da236e53fe5ea3238c3c004414ae330863fe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 42/98] fix: TwistBetweenTransforms did not compile (int passed
 where Eigen expects TransformTraits)

---
 include/arc_utilities/eigen_helpers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index cfd2ab7..9977dee 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -213,7 +213,7 @@ inline Eigen::Matrix<double, 6, 1> TwistBetweenTransforms(const Eigen::Transform
                                                           const Eigen::Transform<double, 3, _Mode>& end) {
   EIGEN_STATIC_ASSERT(_Mode == Eigen::Affine || _Mode == Eigen::Isometry,
                       "THIS FUNCTION IS ONLY INTENDED FOR HOMOGENEOUS TRANSFORMS!!!");
-  const Eigen::Transform<double, 3, _Mode> t_diff = start.inverse(_Mode) * end;
+  const Eigen::Transform<double, 3, _Mode> t_diff = start.inverse((Eigen::TransformTraits)_Mode) * end;
   return TwistUnhat(t_diff.matrix().log());
 }
 
-- 
2.43.0


From a1e610dc7c2ee6b4cab5c65e864a5c883dce21b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 43/98] fix: elementwise Add of vectors only compiled for
 double

---
 include/arc_utilities/vector_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/vector_math.hpp b/include/arc_utilities/vector_math.hpp
index fb14a89..154588f 100644
--- a/include/arc_utilities/vector_math.hpp
+++ b/include/arc_utilities/vector_math.hpp
@@ -116,7 +116,7 @@ inline std::vector<T1> Add(const std::vector<T1>& vec, const T2 scalar) {
 }
 
 template <typename T>
-inline std::vector<double> Add(const std::vector<T>& vec1, const std::vector<T>& vec2) {
+inline std::vector<T> Add(const std::vector<T>& vec1, const std::vector<T>& vec2) {
   if (vec1.size() == vec2.size()) {
     std::vector<T> added(vec1.size(), 0.0);
     for (size_t idx = 0; idx < added.size(); idx++) {
-- 
2.43.0


From eb9692bb5b511ef89a4ff6f1ac2a8173c64cb2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 44/98] fix: CloseEnough on 3-D vectors called NaN close to
 everything

---
 include/arc_utilities/eigen_helpers.hpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index 9977dee..185b6bf 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -51,17 +51,8 @@ inline bool CloseEnough(const Eigen::Vector2d& v1, const Eigen::Vector2d& v2, co
 }
 
 inline bool CloseEnough(const Eigen::Vector3d& v1, const Eigen::Vector3d& v2, const double threshold) {
-  double real_threshold = std::abs(threshold);
-  if (std::abs(v1.x() - v2.x()) > real_threshold) {
-    return false;
-  }
-  if (std::abs(v1.y() - v2.y()) > real_threshold) {
-    return false;
-  }
-  if (std::abs(v1.z() - v2.z()) > real_threshold) {
-    return false;
-  }
-  return true;
+  return CloseEnough(v1.x(), v2.x(), threshold) && CloseEnough(v1.y(), v2.y(), threshold) &&
+         CloseEnough(v1.z(), v2.z(), threshold);
 }
 
 template <typename EigenType, typename Allocator = Eigen::aligned_allocator<EigenType>>
-- 
2.43.0


From 8564565878f36f4d46ff147a212d5c232fa27548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 45/98] fix: distance between equal rotation matrices could be
 NaN

---
 include/arc_utilities/eigen_helpers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index 185b6bf..1a28986 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -338,7 +338,8 @@ inline double Distance(const Eigen::Quaterniond& q1, const Eigen::Quaterniond& q
 inline double Distance(const Eigen::Matrix3d& r1, const Eigen::Matrix3d& r2) {
   const auto delta = r1 * r2.transpose();
   const auto tr = delta.trace();
-  return acos((tr - 1.0) / 2.0);
+  // Rounding can push the cosine slightly outside [-1, 1], for which acos is NaN
+  return acos(std::max(-1.0, std::min((tr - 1.0) / 2.0, 1.0)));
 }
 
 inline double Distance(const Eigen::Isometry3d& t1, const Eigen::Isometry3d& t2, const double alpha = 0.5) {
-- 
2.43.0


From b8133c9ca314d766b4188b2337271644944ca875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 46/98] fix: DistanceToLine failed its own assertion through
 cancellation for points close to a line away from the origin

---
 include/arc_utilities/eigen_helpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index 1a28986..d0e700d 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -882,8 +882,8 @@ inline std::pair<double, double> DistanceToLine(const Eigen::Vector3d& point_on_
 
   const auto delta = x - point_on_line;
   const double displacement_along_line = real_unit_vector.dot(delta);
-  const auto x_projected_onto_line = point_on_line + real_unit_vector * displacement_along_line;
-  const double distance_to_line = (x_projected_onto_line - x).norm();
+  // Work relative to point_on_line, so that points near a line far from the origin do not suffer from cancellation
+  const double distance_to_line = (delta - real_unit_vector * displacement_along_line).norm();
 
   // A simple neccescary (but not sufficient) check to look for math errors
   assert(IsApprox(distance_to_line * distance_to_line + displacement_along_line * displacement_along_line,
-- 
2.43.0


From a6fa116154b884f3bced729ca6b3305ce7c708ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 47/98] fix: ConvertConeToPyramid failed for cones along (1, 1,
 1)

---
 include/arc_utilities/eigen_helpers.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index d0e700d..314bf22 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -900,9 +900,10 @@ inline std::pair<double, double> DistanceToLine(const Eigen::Vector3d& point_on_
 inline VectorVector3d ConvertConeToPyramid(const Eigen::Vector3d& cone_direction,
                                            const double min_normalized_dot_product) {
   // Build a vector that is garunteed to be perpendicular to cone_direction, and non-zero
-  auto tmp = VectorRejection(cone_direction, Eigen::Vector3d::UnitX());
-  tmp += VectorRejection(cone_direction, Eigen::Vector3d::UnitY());
-  tmp += VectorRejection(cone_direction, Eigen::Vector3d::UnitZ());
+  // by using the coordinate axis that is least aligned with cone_direction
+  Eigen::Index least_aligned_axis = 0;
+  cone_direction.cwiseAbs().minCoeff(&least_aligned_axis);
+  auto tmp = VectorRejection(cone_direction, Eigen::Vector3d::Unit(least_aligned_axis));
 
   assert(tmp.norm() > 1e-6);
   tmp.normalize();
-- 
2.43.0


From 8be41e26bbf18c137f12d644129b7eec9b7fc2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 48/98] fix: VectorEigenVectorToEigenVectorX failed for vectors
 of dynamic size

---
 include/arc_utilities/eigen_helpers.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index 314bf22..4d81cc7 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -604,10 +604,12 @@ inline Eigen::Matrix<T, Eigen::Dynamic, 1> VectorEigenVectorToEigenVectorX(
   assert(vector_eigen_input.size() > 0);
 
   Eigen::Matrix<T, Eigen::Dynamic, 1> eigen_result;
-  eigen_result.resize((ssize_t)vector_eigen_input.size() * vector_eigen_input[0].rows());
+  // LENGTH can be Eigen::Dynamic, so use the actual length
+  const ssize_t length = vector_eigen_input[0].rows();
+  eigen_result.resize((ssize_t)vector_eigen_input.size() * length);
 
   for (size_t idx = 0; idx < vector_eigen_input.size(); idx++) {
-    eigen_result.segment((ssize_t)idx * LENGTH, LENGTH) = vector_eigen_input[idx];
+    eigen_result.segment((ssize_t)idx * length, length) = vector_eigen_input[idx];
   }
 
   return eigen_result;
-- 
2.43.0


From 9f3f0adf0f26cac048d0585419c15e5fdf6960b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 49/98] fix: Multiply and Divide of integer vectors went
 through double and lost integer precision

---
 include/arc_utilities/vector_math.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/arc_utilities/vector_math.hpp b/include/arc_utilities/vector_math.hpp
index 154588f..67a8e3b 100644
--- a/include/arc_utilities/vector_math.hpp
+++ b/include/arc_utilities/vector_math.hpp
@@ -64,8 +64,7 @@ template <typename T1, typename T2>
 inline std::vector<T1> Multiply(const std::vector<T1>& vec, const T2 scalar) {
   std::vector<T1> multiplied(vec.size(), 0.0);
   for (size_t idx = 0; idx < multiplied.size(); idx++) {
-    const double element = vec[idx];
-    multiplied[idx] = element * scalar;
+    multiplied[idx] = vec[idx] * scalar;
   }
   return multiplied;
 }
@@ -75,8 +74,8 @@ inline std::vector<T> Multiply(const std::vector<T>& vec1, const std::vector<T>&
   if (vec1.size() == vec2.size()) {
     std::vector<T> multiplied(vec1.size(), 0.0);
     for (size_t idx = 0; idx < multiplied.size(); idx++) {
-      const double element1 = vec1[idx];
-      const double element2 = vec2[idx];
+      const T element1 = vec1[idx];
+      const T element2 = vec2[idx];
       multiplied[idx] = element1 * element2;
     }
     return multiplied;
@@ -87,8 +86,11 @@ inline std::vector<T> Multiply(const std::vector<T>& vec1, const std::vector<T>&
 
 template <typename T1, typename T2>
 inline std::vector<T1> Divide(const std::vector<T1>& vec, const T2 scalar) {
-  const double inv_scalar = 1.0 / scalar;
-  return Multiply(vec, inv_scalar);
+  std::vector<T1> divided(vec.size(), 0.0);
+  for (size_t idx = 0; idx < divided.size(); idx++) {
+    divided[idx] = vec[idx] / scalar;
+  }
+  return divided;
 }
 
 template <typename T>
-- 
2.43.0


From d02079c3b5506e22f19132d4c0490e39f010469b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 50/98] fix: enumerate.h had no include guard

---
 include/arc_utilities/enumerate.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/arc_utilities/enumerate.h b/include/arc_utilities/enumerate.h
index 02e6063..5698cbc 100644
--- a/include/arc_utilities/enumerate.h
+++ b/include/arc_utilities/enumerate.h
@@ -1,3 +1,6 @@
+#ifndef ARC_UTILITIES_ENUMERATE_H
+#define ARC_UTILITIES_ENUMERATE_H
+
 #include <algorithm>
 #include <iterator>
 #include <utility>
@@ -20,3 +23,5 @@ struct enumerate {
 
   std::vector<std::pair<size_t, typename Itr::value_type>> internal_container;
 };
+
+#endif  // ARC_UTILITIES_ENUMERATE_H
-- 
2.43.0


From e935e726bd14d0b68206b5823aee5199523c7b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 51/98] fix: GetBit always reported false for the upper half of
 64-bit words

---
 include/arc_utilities/arc_helpers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 1c08e01..8d27a91 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -172,7 +172,7 @@ inline T SetBit(const T current, const uint32_t bit_position, const bool bit_val
 template <typename T>
 inline bool GetBit(const T current, const uint32_t bit_position) {
   // Type safety checks are performed in the SetBit() function
-  const uint32_t mask = arc_helpers::SetBit((T)0, bit_position, true);
+  const T mask = arc_helpers::SetBit((T)0, bit_position, true);
   return (mask & current) > 0;
 }
 
-- 
2.43.0


From 1a16519eae52aa3bb8b565d0d54200f77ce1ca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 52/98] fix: Listener loses messages that arrive before its
 constructor has finished

---
 src/arc_utilities/listener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/listener.py b/src/arc_utilities/listener.py
index de32672..20fa35d 100644
--- a/src/arc_utilities/listener.py
+++ b/src/arc_utilities/listener.py
@@ -25,8 +25,8 @@ class Listener:
         self.lock = Lock()
 
         self.topic_name = topic_name
+        self.custom_callback = callback  # before subscribing: messages may arrive from then on
         self.subscriber = rospy.Subscriber(topic_name, topic_type, self.callback, queue_size=queue_size)
-        self.custom_callback = callback
         self.get(wait_for_data)
 
     def callback(self, msg):
-- 
2.43.0


From 65775b9a625dcd89c79bd996a5781bef12e806ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:01 +0000
Subject: [PATCH 53/98] fix: a Listener callback that reads the listener waits
 for itself forever

---
 src/arc_utilities/listener.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arc_utilities/listener.py b/src/arc_utilities/listener.py
index 20fa35d..9daccbf 100644
--- a/src/arc_utilities/listener.py
+++ b/src/arc_utilities/listener.py
@@ -1,5 +1,5 @@
 from copy import deepcopy
-from threading import Lock
+from threading import RLock
 
 import rospy
 from arc_utilities.ros_helpers import wait_for
@@ -22,7 +22,7 @@ class Listener:
         """
 
         self.data = None
-        self.lock = Lock()
+        self.lock = RLock()  # the callback may read this listener
 
         self.topic_name = topic_name
         self.custom_callback = callback  # before subscribing: messages may arrive from then on
-- 
2.43.0


From 3143b67ca9d9206dbba90cfb006add20f98ba309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 54/98] fix: every repeated static transform made all later
 static publications longer

---
 src/arc_utilities/tf2wrapper.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/arc_utilities/tf2wrapper.py b/src/arc_utilities/tf2wrapper.py
index 3a293e8..3c07ac6 100644
--- a/src/arc_utilities/tf2wrapper.py
+++ b/src/arc_utilities/tf2wrapper.py
@@ -102,7 +102,7 @@ class TF2Wrapper:
         t.transform.rotation = pose.orientation
 
         if is_static:
-            self.static_tfs.append(t)
+            self._store_static(t)
             self.static_tf_broadcaster.sendTransform(self.static_tfs)  # send all at once.
         else:
             self.tf_broadcaster.sendTransform(t)
@@ -136,11 +136,19 @@ class TF2Wrapper:
         t.transform.rotation.w = quaternion[3]
 
         if is_static:
-            self.static_tfs.append(t)
+            self._store_static(t)
             self.static_tf_broadcaster.sendTransform(self.static_tfs) # send all at once.
         else:
             self.tf_broadcaster.sendTransform(t)
 
+    def _store_static(self, t):
+        """ each child frame is listed once, with its latest transform """
+        for i, old in enumerate(self.static_tfs):
+            if old.child_frame_id == t.child_frame_id:
+                self.static_tfs[i] = t
+                return
+        self.static_tfs.append(t)
+
     def transform_to_frame(self, object_stamped, target_frame, timeout=rospy.Duration(0), new_type=None):
         """
         Transforms many "stamped" data types between frames. The specific package for the type of stamped object needs
-- 
2.43.0


From bd342afcba1ce031def5269f4c85987153ac33af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 55/98] fix: a transient lookup failure made
 ReliableTF.start_send raise TypeError

---
 src/arc_utilities/reliable_tf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/reliable_tf.py b/src/arc_utilities/reliable_tf.py
index c8349c1..9d70405 100644
--- a/src/arc_utilities/reliable_tf.py
+++ b/src/arc_utilities/reliable_tf.py
@@ -105,7 +105,7 @@ class ReliableTF(TF2Wrapper):
         # block until the correct transform is received
         while True:
             received_transform = self.get_transform(parent, child, verbose=False)
-            if is_close_func(received_transform):
+            if received_transform is not None and is_close_func(received_transform):
                 break
 
     def stop_send(self, parent, child):
-- 
2.43.0


From caece80040961d551d029344c8264a2f6479aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 56/98] fix: zip_repeat_shorter fails on a single list

---
 src/arc_utilities/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/algorithms.py b/src/arc_utilities/algorithms.py
index bfec369..f566f97 100644
--- a/src/arc_utilities/algorithms.py
+++ b/src/arc_utilities/algorithms.py
@@ -35,7 +35,7 @@ def repeat_last(x: List):
 
 
 def zip_repeat_shorter(*args):
-    longest_len = max(*[len(x) for x in args])
+    longest_len = max(len(x) for x in args)
     zipped = zip(*[repeat_last(x) for x in args])
     for i in range(longest_len):
         yield next(zipped)
-- 
2.43.0


From f90362e502b11323d738eb49e118d4b072d341d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:11 +0000
Subject: [PATCH 57/98] fix: nested_dict_update fails where a dictionary
 replaces a plain value

---
 src/arc_utilities/algorithms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arc_utilities/algorithms.py b/src/arc_utilities/algorithms.py
index f566f97..8cd9647 100644
--- a/src/arc_utilities/algorithms.py
+++ b/src/arc_utilities/algorithms.py
@@ -13,7 +13,8 @@ def nested_dict_update(base_dict: Dict, update_dict: Optional[Dict]):
         return base_dict
     for k, v in update_dict.items():
         if isinstance(v, collections.abc.Mapping):
-            base_dict[k] = nested_dict_update(base_dict.get(k, {}), v)
+            base_v = base_dict.get(k)
+            base_dict[k] = nested_dict_update(base_v if isinstance(base_v, collections.abc.Mapping) else {}, v)
         else:
             base_dict[k] = v
     return base_dict
-- 
2.43.0


From acbb8246e135ecb452c2940bc78020a60e781097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:43 +0000
Subject: [PATCH 58/98] fix: rm_tree deletes the contents of directories that
 are only linked to, and fails on dangling links

---
 src/arc_utilities/filesystem_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/arc_utilities/filesystem_utils.py b/src/arc_utilities/filesystem_utils.py
index fa341d9..25f16b7 100644
--- a/src/arc_utilities/filesystem_utils.py
+++ b/src/arc_utilities/filesystem_utils.py
@@ -74,11 +74,14 @@ def count_files_recursive(path):
 
 def rm_tree(path):
     path = pathlib.Path(path)
+    if path.is_symlink():  # remove the link, never what it points to
+        path.unlink()
+        return
     for child in path.glob('*'):
-        if child.is_file():
-            child.unlink()
-        else:
+        if child.is_dir():
             rm_tree(child)
+        else:
+            child.unlink()
     path.rmdir()
 
 
-- 
2.43.0


From 63dd6a8a4368e232ee92382cba5ba6a090f66f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:43 +0000
Subject: [PATCH 59/98] fix: count_files_recursive follows links out of the
 directory and around in circles

---
 src/arc_utilities/filesystem_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/filesystem_utils.py b/src/arc_utilities/filesystem_utils.py
index 25f16b7..f0f9bf2 100644
--- a/src/arc_utilities/filesystem_utils.py
+++ b/src/arc_utilities/filesystem_utils.py
@@ -65,7 +65,7 @@ def count_files_recursive(path):
     count = 0
     path = pathlib.Path(path)
     for child in path.iterdir():
-        if child.is_dir():
+        if child.is_dir() and not child.is_symlink():
             count += count_files_recursive(child)
         else:
             count += 1
-- 
2.43.0


From 3eca782a0371380177d6b941c47500168f877256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:43 +0000
Subject: [PATCH 60/98] fix: ask_to_remove_directories removes nothing when it
 is given an iterator

---
 src/arc_utilities/filesystem_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arc_utilities/filesystem_utils.py b/src/arc_utilities/filesystem_utils.py
index f0f9bf2..499fde5 100644
--- a/src/arc_utilities/filesystem_utils.py
+++ b/src/arc_utilities/filesystem_utils.py
@@ -46,6 +46,7 @@ def append_str_to_path(p: pathlib.Path, s: str):
 
 
 def ask_to_remove_directories(directories_to_remove: Iterable[pathlib.Path]):
+    directories_to_remove = list(directories_to_remove)  # gone through twice
     print("Ok to delete these directories?")
     for d in directories_to_remove:
         print(d.as_posix())
-- 
2.43.0


From f30fdc16a9d92e941bb7d23d1ca31e614d359add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:43 +0000
Subject: [PATCH 61/98] fix: no_overwrite_path drops the name of hidden files

---
 src/arc_utilities/filesystem_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/filesystem_utils.py b/src/arc_utilities/filesystem_utils.py
index 499fde5..7cb108c 100644
--- a/src/arc_utilities/filesystem_utils.py
+++ b/src/arc_utilities/filesystem_utils.py
@@ -101,7 +101,7 @@ def no_overwrite_path(path):
         if not new_path.exists():
             return new_path
 
-        no_extensions = path.stem.split('.')[0]
         extensions = ''.join(path.suffixes)
+        no_extensions = path.name[:len(path.name) - len(extensions)]
         new_path = path.parent / f"{no_extensions}_v{n}{extensions}"
         n += 1
-- 
2.43.0


From 39567517f8cd375c5bf0c9ff49dcfd829e5afeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 62/98] fix: catch_timeout leaves its own handler installed for
 the caller's alarms

---
 src/arc_utilities/catches.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arc_utilities/catches.py b/src/arc_utilities/catches.py
index 70dbc66..eed5a7f 100644
--- a/src/arc_utilities/catches.py
+++ b/src/arc_utilities/catches.py
@@ -7,8 +7,8 @@ def _handle_timeout(_, __):
 
 
 def catch_timeout(seconds, func: Callable, *func_args, **func_kwargs):
+    old_handler = signal.signal(signal.SIGALRM, _handle_timeout)
     try:
-        signal.signal(signal.SIGALRM, _handle_timeout)
         signal.alarm(seconds)
         try:
             result = func(*func_args, **func_kwargs)
@@ -18,6 +18,8 @@ def catch_timeout(seconds, func: Callable, *func_args, **func_kwargs):
     except TimeoutError:
         print("Caught timeout!")
         return None, True
+    finally:
+        signal.signal(signal.SIGALRM, old_handler)
 
 
 def retry_on_timeout(seconds, on_timeout: Optional[Callable], gen: Callable, *gen_args, **gen_kwargs):
-- 
2.43.0


From b04efc516a1386472d1fbc9efe81f24ece2c1296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:03 +0000
Subject: [PATCH 63/98] fix: reverse_trajectory fails on a trajectory without
 points

---
 src/arc_utilities/path_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arc_utilities/path_utils.py b/src/arc_utilities/path_utils.py
index b9e7a4d..1aaab5c 100644
--- a/src/arc_utilities/path_utils.py
+++ b/src/arc_utilities/path_utils.py
@@ -163,6 +163,8 @@ def path_length(path):
 def reverse_trajectory(trajectory: JointTrajectory):
     reversed_trajectory = deepcopy(trajectory)
     reversed_trajectory.points = deepcopy(trajectory.points[::-1])
+    if len(reversed_trajectory.points) == 0:
+        return reversed_trajectory
     reversed_trajectory.points[0].time_from_start = rospy.Duration(0)
 
     time_from_start = rospy.Duration(0)
-- 
2.43.0


From b4aa80cd519c1ea04f126a5eae6c4c746ac544b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:03 +0000
Subject: [PATCH 64/98] fix: reverse_trajectory keeps the velocities of the
 forward motion

---
 src/arc_utilities/path_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arc_utilities/path_utils.py b/src/arc_utilities/path_utils.py
index 1aaab5c..fbe5575 100644
--- a/src/arc_utilities/path_utils.py
+++ b/src/arc_utilities/path_utils.py
@@ -171,6 +171,8 @@ def reverse_trajectory(trajectory: JointTrajectory):
     for (pt_next, pt), r_pt in zip(pairwise(trajectory.points[::-1]), reversed_trajectory.points[1:]):
         time_from_start += pt_next.time_from_start - pt.time_from_start
         r_pt.time_from_start = time_from_start
+    for r_pt in reversed_trajectory.points:
+        r_pt.velocities = [-v for v in r_pt.velocities]
     return reversed_trajectory
 
 
-- 
2.43.0


From b5328a16c7a2a3f3baa295cdd18790c525d58d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 65/98] fix: InvertMatrix always raises AttributeError

---
 src/arc_utilities/transformation_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/transformation_helper.py b/src/arc_utilities/transformation_helper.py
index 1d81eea..a27a6c6 100644
--- a/src/arc_utilities/transformation_helper.py
+++ b/src/arc_utilities/transformation_helper.py
@@ -152,7 +152,7 @@ def ComposeMatrices(matrix1, matrix2):
 
 
 def InvertMatrix(old_matrix):
-    return np.np.linalg.inv(old_matrix)
+    return np.linalg.inv(old_matrix)
 
 
 def ComposeQuaternions(q1, q2):
-- 
2.43.0


From 77495d2f2a4c741ee002d859868a2c307f5453ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 66/98] fix: AngleBetweenQuaternionsRos multiplies z with w

---
 src/arc_utilities/transformation_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/transformation_helper.py b/src/arc_utilities/transformation_helper.py
index a27a6c6..f80ffec 100644
--- a/src/arc_utilities/transformation_helper.py
+++ b/src/arc_utilities/transformation_helper.py
@@ -211,7 +211,7 @@ def AngleBetweenQuaternions(q1, q2):
 def AngleBetweenQuaternionsRos(q1, q2):
     nq1 = NormalizeQuaternionRos(q1)
     nq2 = NormalizeQuaternionRos(q2)
-    dot_product = abs(nq1.x * nq2.x + nq1.y * nq2.y + nq1.z * nq2.z + nq1.z * nq2.w)
+    dot_product = abs(nq1.x * nq2.x + nq1.y * nq2.y + nq1.z * nq2.z + nq1.w * nq2.w)
     if dot_product < 0.9999:
         return np.arccos(2.0 * (dot_product ** 2) - 1.0)
     else:
-- 
2.43.0


From b1cc4d62101736bb78540ef899ce76fd4d35e9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 67/98] fix: BuildMatrixFromDH uses the link twist in place of
 the link length

---
 src/arc_utilities/transformation_helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arc_utilities/transformation_helper.py b/src/arc_utilities/transformation_helper.py
index f80ffec..db53950 100644
--- a/src/arc_utilities/transformation_helper.py
+++ b/src/arc_utilities/transformation_helper.py
@@ -393,8 +393,8 @@ def BuildMatrixFromTransRot(trans, rot):
 def BuildMatrixFromDH(d, a, theta, alpha):
     # Do math here
     tfmatrix = np.array([
-        [cos(theta), -sin(theta) * cos(alpha), sin(theta) * sin(alpha), alpha * cos(theta)],
-        [sin(theta), cos(theta) * cos(alpha), -cos(theta) * sin(alpha), alpha * sin(theta)],
+        [cos(theta), -sin(theta) * cos(alpha), sin(theta) * sin(alpha), a * cos(theta)],
+        [sin(theta), cos(theta) * cos(alpha), -cos(theta) * sin(alpha), a * sin(theta)],
         [0.0, sin(alpha), cos(alpha), d], [0.0, 0.0, 0.0, 1.0]])
     return tfmatrix
 
-- 
2.43.0


From 5a5cc4dfc23e8a77c9c89ce3824924c5d05c87e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 68/98] fix: normalize_quaternion fails on lists

---
 src/arc_utilities/conversions.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/arc_utilities/conversions.py b/src/arc_utilities/conversions.py
index 0753c71..0dcf56e 100644
--- a/src/arc_utilities/conversions.py
+++ b/src/arc_utilities/conversions.py
@@ -39,11 +39,7 @@ def normalize_quaternion(quaternion: Union[List[int], Quaternion]):
         return quaternion
     elif isinstance(quaternion, list):
         norm = np.linalg.norm(np.array(quaternion))
-        quaternion.x = quaternion.x / norm
-        quaternion.y = quaternion.y / norm
-        quaternion.z = quaternion.z / norm
-        quaternion.w = quaternion.w / norm
-        return quaternion
+        return [value / norm for value in quaternion]
     else:
         raise NotImplementedError()
 
-- 
2.43.0


From 57dee4c1134354bb54748570fb0ada027b9e9748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 69/98] fix: interpolate_hot_to_cold is not monotone in its
 last quarter

---
 src/arc_utilities/color.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/color.py b/src/arc_utilities/color.py
index c6e392e..aec8c69 100644
--- a/src/arc_utilities/color.py
+++ b/src/arc_utilities/color.py
@@ -202,7 +202,7 @@ def interpolate_hot_to_cold(value, min_value=0.0, max_value=1.0):
         r = 4 * (value - min_value - 0.5 * val_range) / val_range
         b = 0.0
     else:
-        g = 1.0 + 4.0 * (min_value + 0.75 * val_range - min_value) / val_range
+        g = 1.0 + 4.0 * (min_value + 0.75 * val_range - value) / val_range
         b = 0.0
     return [r, g, b]
 
-- 
2.43.0


From 87bbebe0483a18f015f58bbf64e5c3cd377e85b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 70/98] fix: convert_lab_to_xyz does not undo the scaling by
 the reference white

---
 src/arc_utilities/color.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/arc_utilities/color.py b/src/arc_utilities/color.py
index aec8c69..c315cc1 100644
--- a/src/arc_utilities/color.py
+++ b/src/arc_utilities/color.py
@@ -53,10 +53,11 @@ def convert_xyz_to_lab(x, y, z):
 
 
 def convert_lab_to_xyz(l, a, b):
+    [xref, yref, zref] = get_ref_xyz()
     intermediate = (l + 16.0) * (1.0 / 116.0)
-    x = cielab_finv(intermediate + a * (1.0 / 500.0))
-    y = cielab_finv(intermediate)
-    z = cielab_finv(intermediate - b * (1.0 / 200.0))
+    x = xref * cielab_finv(intermediate + a * (1.0 / 500.0))
+    y = yref * cielab_finv(intermediate)
+    z = zref * cielab_finv(intermediate - b * (1.0 / 200.0))
     return [x, y, z]
 
 
-- 
2.43.0


From 47f1a577590cc2f5f25bac53eb1ed0451ce076ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 71/98] fix: convert_lab_to_msh loses the quadrant of the hue
 and fails on black

---
 src/arc_utilities/color.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/arc_utilities/color.py b/src/arc_utilities/color.py
index c315cc1..6e88609 100644
--- a/src/arc_utilities/color.py
+++ b/src/arc_utilities/color.py
@@ -63,9 +63,8 @@ def convert_lab_to_xyz(l, a, b):
 
 def convert_lab_to_msh(l, a, b):
     m = math.sqrt(l ** 2 + a ** 2 + b ** 2)
-    s = math.acos(l / m)
-    # h = math.atan2(b, a)
-    h = math.atan(b / a)
+    s = math.acos(l / m) if m > 0.0 else 0.0
+    h = math.atan2(b, a)
     return [m, s, h]
 
 
-- 
2.43.0


From 741a83364b63582a1fbd84c29e9c3d3c46547d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:01 +0000
Subject: [PATCH 72/98] fix: destroying a Listener lets its callback run on
 destroyed members

---
 include/arc_utilities/listener.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/arc_utilities/listener.hpp b/include/arc_utilities/listener.hpp
index 27811ed..ef1e255 100644
--- a/include/arc_utilities/listener.hpp
+++ b/include/arc_utilities/listener.hpp
@@ -10,11 +10,12 @@ template <class T>
 class Listener {
  protected:
   std::string topic_;
+  // Used by the callback, so destroyed after the subscription and the spinner
+  std::mutex mtx_;
+  typename T::ConstPtr msg_;
   ros::CallbackQueue queue_;
   ros::AsyncSpinner spinner_;
   ros::Subscriber sub_;
-  std::mutex mtx_;
-  typename T::ConstPtr msg_;
 
   void callback(typename T::ConstPtr const& msg) {
     std::lock_guard<std::mutex> lock(mtx_);
@@ -23,7 +24,7 @@ class Listener {
 
  public:
   Listener(ros::NodeHandle& nh, std::string const& topic, bool const autostart = true)
-      : topic_(topic), queue_(), spinner_(1, &queue_), msg_(nullptr) {
+      : topic_(topic), msg_(nullptr), queue_(), spinner_(1, &queue_) {
     auto options =
         ros::SubscribeOptions::create<T>(topic, 1, boost::bind(&Listener::callback, this, _1), ros::VoidPtr(), &queue_);
     sub_ = nh.subscribe(options);
-- 
2.43.0


From ae97c81f2edc078a091b2679026bbcf7e82888c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:22 +0000
Subject: [PATCH 73/98] fix: RosMessageSerializationWrapper copies four bytes
 past the end of the ROS buffer

---
 include/arc_utilities/serialization_ros.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/serialization_ros.hpp b/include/arc_utilities/serialization_ros.hpp
index abfdfd2..cc26e4d 100644
--- a/include/arc_utilities/serialization_ros.hpp
+++ b/include/arc_utilities/serialization_ros.hpp
@@ -201,8 +201,11 @@ inline std::pair<geometry_msgs::TransformStamped, uint64_t> DeserializeTransform
 template <typename MessageType>
 inline uint64_t RosMessageSerializationWrapper(const MessageType& message, std::vector<uint8_t>& buffer) {
   const ros::SerializedMessage serialized_message = ros::serialization::serializeMessage(message);
-  buffer.insert(buffer.end(), serialized_message.message_start,
-                serialized_message.message_start + serialized_message.num_bytes);
+  // message_start is past the length marker at the front of the ROS buffer, which num_bytes includes
+  uint8_t* const message_end = serialized_message.buf.get() + serialized_message.num_bytes;
+  buffer.insert(buffer.end(), serialized_message.message_start, message_end);
+  // The record keeps the size of the length marker, see RosMessageDeserializationWrapper
+  buffer.resize(buffer.size() + (serialized_message.message_start - serialized_message.buf.get()));
   return serialized_message.num_bytes;
 }
 
-- 
2.43.0


From 332d7c649a9d314eb325f44b87f10cbec0a0ff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:35 +0000
Subject: [PATCH 74/98] fix: init_node ignores anonymous, disable_rosout and
 disable_signals

---
 src/roscpp_initializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roscpp_initializer.cpp b/src/roscpp_initializer.cpp
index d436cdb..426a193 100644
--- a/src/roscpp_initializer.cpp
+++ b/src/roscpp_initializer.cpp
@@ -55,7 +55,7 @@ void init_node(std::string const &name, std::vector<std::string> argv = {}, int
     return pc;
   };
   std::transform(argv.begin(), argv.end(), std::back_inserter(argv_pointers), convert);
-  ros::init(argc, argv_pointers.data(), name);
+  ros::init(argc, argv_pointers.data(), name, options);
 
   spinner = std::make_unique<ros::AsyncSpinner>(1);
   spinner->start();
-- 
2.43.0


From 2b67a07d3ea577eeef742396ba833399fc284ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 75/98] fix: in-place operations of Aligned4Vector3 lose the
 fixed fourth coefficient

---
 include/arc_utilities/aligned_eigen_types.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/aligned_eigen_types.hpp b/include/arc_utilities/aligned_eigen_types.hpp
index 4e3dc0f..0f022d1 100644
--- a/include/arc_utilities/aligned_eigen_types.hpp
+++ b/include/arc_utilities/aligned_eigen_types.hpp
@@ -115,6 +115,7 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
 
   inline Aligned4Vector3& operator+=(const Aligned4Vector3& other) {
     m_coeffs += other.m_coeffs;
+    m_coeffs.w() = Scalar(1);
     return *this;
   }
 
@@ -124,6 +125,7 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
 
   inline Aligned4Vector3 operator-=(const Aligned4Vector3& other) {
     m_coeffs -= other.m_coeffs;
+    m_coeffs.w() = Scalar(1);
     return *this;
   }
 
@@ -135,6 +137,7 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
 
   inline Aligned4Vector3& operator*=(const Scalar& s) {
     m_coeffs *= s;
+    m_coeffs.w() = Scalar(1);
     return *this;
   }
 
@@ -142,6 +145,7 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
 
   inline Aligned4Vector3& operator/=(const Scalar& s) {
     m_coeffs /= s;
+    m_coeffs.w() = Scalar(1);
     return *this;
   }
 
@@ -151,7 +155,7 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
     return m_coeffs.dot(other.m_coeffs) - Scalar(1);
   }
 
-  inline void normalize() { m_coeffs /= norm(); }
+  inline void normalize() { *this /= norm(); }
 
   inline Aligned4Vector3 normalized() const { return Aligned4Vector3(m_coeffs / norm()); }
 
-- 
2.43.0


From 40983330dffb054a7c438a7b9cd7973ea4368490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 76/98] fix: PrettyPrint of a forward_list does not compile, it
 has no size()

---
 include/arc_utilities/pretty_print.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/pretty_print.hpp b/include/arc_utilities/pretty_print.hpp
index 15d6c76..79547f2 100644
--- a/include/arc_utilities/pretty_print.hpp
+++ b/include/arc_utilities/pretty_print.hpp
@@ -345,7 +345,7 @@ template <typename T, typename Allocator>
 inline std::string PrettyPrint(const std::forward_list<T, Allocator>& listtoprint, const bool add_delimiters,
                                const std::string& separator) {
   std::ostringstream strm;
-  if (listtoprint.size() > 0) {
+  if (!listtoprint.empty()) {
     if (add_delimiters) {
       strm << "[";
       typename std::forward_list<T, Allocator>::const_iterator itr;
-- 
2.43.0


From 444453c05d2d53e5183490615dee2f64b3297807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 77/98] fix: ConvertTo of an Eigen vector reads eight times its
 length

---
 include/arc_utilities/eigen_std_conversions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/eigen_std_conversions.hpp b/include/arc_utilities/eigen_std_conversions.hpp
index c0d6819..be4c5fb 100644
--- a/include/arc_utilities/eigen_std_conversions.hpp
+++ b/include/arc_utilities/eigen_std_conversions.hpp
@@ -10,7 +10,7 @@ Output ConvertTo(Eigen::VectorXd const &vec);
 
 template <>
 std::vector<double> ConvertTo<std::vector<double>>(Eigen::VectorXd const &vec) {
-  return std::vector<double>(vec.data(), vec.data() + static_cast<unsigned long>(vec.size()) * sizeof(double));
+  return std::vector<double>(vec.data(), vec.data() + vec.size());
 }
 
 #endif  // LGV_EIGEN_STD_CONVERSIONS
-- 
2.43.0


From a48f7ff66a75929caf3603ce77e8e5ebc14cdf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 78/98] fix: default-constructed DynamicSpatialHashedVoxelGrid
 claims to be initialised

---
 include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 1811ed2..340457f 100644
--- a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -489,7 +489,7 @@ class DynamicSpatialHashedVoxelGrid {
     chunk_z_size_ = cell_z_size_ * (double)chunk_num_z_cells_;
     chunk_stride1_ = chunk_num_y_cells_ * chunk_num_z_cells_;
     chunk_stride2_ = chunk_num_z_cells_;
-    initialized_ = true;
+    initialized_ = false;
   }
 
   inline void Initialize(const Eigen::Isometry3d& origin_transform, const double cell_x_size, const double cell_y_size,
-- 
2.43.0


From 41e9fd0744a70908c3dd96a4c3a9a6bf248ffc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 79/98] fix: random walk crosses graph edges that are marked
 invalid or have infinite weight

---
 include/arc_utilities/dijkstras.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/dijkstras.hpp b/include/arc_utilities/dijkstras.hpp
index 35dfdae..eea6875 100644
--- a/include/arc_utilities/dijkstras.hpp
+++ b/include/arc_utilities/dijkstras.hpp
@@ -294,13 +294,21 @@ class GraphRandomWalk {
       // Collect data from the current node
       const int64_t curr_index = path.back();
       const auto& out_edges = graph.getNode(curr_index).getOutEdges();
-      const auto num_edges = out_edges.size();
+      // Edges that cannot be traversed are no candidates
+      std::vector<int64_t> candidates;
+      for (const auto& edge : out_edges) {
+        if (edge.getValidity() != EDGE_VALIDITY::INVALID && edge.getWeight() < std::numeric_limits<double>::infinity()) {
+          candidates.push_back(edge.getToIndex());
+        }
+      }
+      if (candidates.empty()) {
+        throw std::runtime_error("Random walk reached a node without usable edges");
+      }
 
       // Determine which node to step to next
-      std::uniform_int_distribution<int64_t>::param_type params(0, (int64_t)(num_edges - 1));
+      std::uniform_int_distribution<int64_t>::param_type params(0, (int64_t)(candidates.size() - 1));
       uniform_int_distribution.param(params);
-      const int64_t next_step = uniform_int_distribution(generator);
-      const auto next_index = out_edges.at(next_step).getToIndex();
+      const auto next_index = candidates.at(uniform_int_distribution(generator));
 
       // If the next index is somewhere we've been already, then "trim" the loop off
       const auto it = std::find(path.begin(), path.end(), next_index);
-- 
2.43.0


From 278cf229299a0d4167cee2f178a29ce2b84940c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 80/98] fix: a static transform sent from a pose message
 changes with the caller's pose

---
 src/arc_utilities/tf2wrapper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arc_utilities/tf2wrapper.py b/src/arc_utilities/tf2wrapper.py
index 3c07ac6..271e4ba 100644
--- a/src/arc_utilities/tf2wrapper.py
+++ b/src/arc_utilities/tf2wrapper.py
@@ -99,7 +99,10 @@ class TF2Wrapper:
         t.transform.translation.x = pose.position.x
         t.transform.translation.y = pose.position.y
         t.transform.translation.z = pose.position.z
-        t.transform.rotation = pose.orientation
+        t.transform.rotation.x = pose.orientation.x
+        t.transform.rotation.y = pose.orientation.y
+        t.transform.rotation.z = pose.orientation.z
+        t.transform.rotation.w = pose.orientation.w
 
         if is_static:
             self._store_static(t)
-- 
2.43.0


From acd96e36d4dbe4690d24dd0d4e7eb36587e0d71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 81/98] fix: repeated transforms change with the caller's pose,
 matrix or lists after they were started

---
 src/arc_utilities/reliable_tf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arc_utilities/reliable_tf.py b/src/arc_utilities/reliable_tf.py
index 9d70405..2250d4d 100644
--- a/src/arc_utilities/reliable_tf.py
+++ b/src/arc_utilities/reliable_tf.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from functools import partial
 from threading import Thread, Event
 from typing import Callable
@@ -58,6 +59,7 @@ class ReliableTF(TF2Wrapper):
             self.stop_send(parent, child)
 
     def start_send_transform_matrix(self, transform, parent, child, is_static=False):
+        transform = deepcopy(transform)  # sent long after we return
         send_transform_partial = partial(send_transform_matrix, tfw=self.shared_tfw, transform=transform, parent=parent,
                                          child=child, is_static=is_static)
 
@@ -67,6 +69,7 @@ class ReliableTF(TF2Wrapper):
         self.start_send(parent, child, _is_close_func, send_transform_partial)
 
     def start_send_transform_from_pose_msg(self, pose: Pose, parent, child, is_static=False):
+        pose = deepcopy(pose)  # sent long after we return
         send_transform_partial = partial(send_transform_from_pose_msg, tfw=self.shared_tfw, pose=pose, parent=parent,
                                          child=child, is_static=is_static)
 
@@ -76,6 +79,7 @@ class ReliableTF(TF2Wrapper):
         self.start_send(parent, child, _is_close_func, send_transform_partial)
 
     def start_send_transform(self, translation, quaternion, parent, child, is_static=False):
+        translation, quaternion = deepcopy((translation, quaternion))  # sent long after we return
         send_transform_partial = partial(send_transform, tfw=self.shared_tfw, translation=translation,
                                          quaternion=quaternion, parent=parent,
                                          child=child, is_static=is_static)
-- 
2.43.0


From be0a5227a133f921affa2e7d04aa04a05089ac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:06 +0000
Subject: [PATCH 82/98] fix: addEdgeBetweenNodes returns an older edge when
 there are parallel edges

---
 include/arc_utilities/graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/graph.hpp b/include/arc_utilities/graph.hpp
index 7508572..e22dd44 100644
--- a/include/arc_utilities/graph.hpp
+++ b/include/arc_utilities/graph.hpp
@@ -483,7 +483,7 @@ class Graph {
     const GraphEdge new_edge(from_index, to_index, edge_weight);
     from_node.addOutEdge(new_edge);
     to_node.addInEdge(new_edge);
-    return from_node.getEdgeTo(to_index);
+    return from_node.getOutEdges().back();
   }
 
   std::pair<const GraphEdge, const GraphEdge> addEdgesBetweenNodes(const int64_t first_index,
-- 
2.43.0


From 43d57a4dafbfbf9e15e74158ffbe205aaca1911b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 83/98] fix: get_connected_publisher fails when a subscriber
 comes or goes while it waits

---
 src/arc_utilities/ros_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/ros_helpers.py b/src/arc_utilities/ros_helpers.py
index 272029e..29d7e71 100644
--- a/src/arc_utilities/ros_helpers.py
+++ b/src/arc_utilities/ros_helpers.py
@@ -64,8 +64,8 @@ def logfatal(exception_class, msg):
 
 def get_connected_publisher(topic_path: str, data_class: Type, *args, **kwargs):
     pub = rospy.Publisher(topic_path, data_class, *args, **kwargs)
-    num_subs = len(_get_subscribers(topic_path))
     for i in range(5):
+        num_subs = len(_get_subscribers(topic_path))  # they may come and go while we wait
         num_cons = pub.get_num_connections()
         if num_cons == num_subs:
             return pub
-- 
2.43.0


From 6f406418558c0239a328a95c583d3e31f51b1c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:13 +0000
Subject: [PATCH 84/98] fix: catch_timeout cancels an alarm of the caller or of
 an enclosing guard

---
 src/arc_utilities/catches.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/arc_utilities/catches.py b/src/arc_utilities/catches.py
index eed5a7f..5369821 100644
--- a/src/arc_utilities/catches.py
+++ b/src/arc_utilities/catches.py
@@ -1,4 +1,5 @@
 import signal
+import time
 from typing import Callable, Optional
 
 
@@ -7,6 +8,9 @@ def _handle_timeout(_, __):
 
 
 def catch_timeout(seconds, func: Callable, *func_args, **func_kwargs):
+    # an alarm of the caller (or of an enclosing guard) is set aside and continues afterwards
+    callers_seconds, interval = signal.setitimer(signal.ITIMER_REAL, 0)
+    start = time.monotonic()
     old_handler = signal.signal(signal.SIGALRM, _handle_timeout)
     try:
         signal.alarm(seconds)
@@ -20,6 +24,13 @@ def catch_timeout(seconds, func: Callable, *func_args, **func_kwargs):
         return None, True
     finally:
         signal.signal(signal.SIGALRM, old_handler)
+        if callers_seconds > 0:
+            left = callers_seconds - (time.monotonic() - start)
+            if left > 0:
+                signal.setitimer(signal.ITIMER_REAL, left, interval)
+            else:
+                signal.setitimer(signal.ITIMER_REAL, interval, interval)
+                signal.raise_signal(signal.SIGALRM)
 
 
 def retry_on_timeout(seconds, on_timeout: Optional[Callable], gen: Callable, *gen_args, **gen_kwargs):
-- 
2.43.0


From 831fa46d49e592069bba5e792b267e8e8aa32662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 85/98] fix: resetting a voxel grid to the value of one of its
 own cells reads a destroyed value

---
 include/arc_utilities/voxel_grid.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/voxel_grid.hpp b/include/arc_utilities/voxel_grid.hpp
index b175b53..b0d0d37 100644
--- a/include/arc_utilities/voxel_grid.hpp
+++ b/include/arc_utilities/voxel_grid.hpp
@@ -77,8 +77,9 @@ class VoxelGrid {
   }
 
   inline void SetContents(const T& value) {
+    const T contents = value;  // value may be one of our own cells
     data_.clear();
-    data_.resize(num_x_cells_ * num_y_cells_ * num_z_cells_, value);
+    data_.resize(num_x_cells_ * num_y_cells_ * num_z_cells_, contents);
   }
 
   inline void SafetyCheckSizes(const double cell_x_size, const double cell_y_size, const double cell_z_size,
-- 
2.43.0


From 04fda139a37d9eacd2ca458a48fb115fca96e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 86/98] fix: loading a voxel grid from a truncated buffer
 leaves a mixture of the old and the new grid

---
 include/arc_utilities/voxel_grid.hpp | 41 ++++++++++++++--------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/include/arc_utilities/voxel_grid.hpp b/include/arc_utilities/voxel_grid.hpp
index b0d0d37..a1d845c 100644
--- a/include/arc_utilities/voxel_grid.hpp
+++ b/include/arc_utilities/voxel_grid.hpp
@@ -433,89 +433,90 @@ class VoxelGrid {
     // Deserialize the initialized
     const std::pair<uint8_t, uint64_t> initialized_deserialized =
         arc_utilities::DeserializeFixedSizePOD<uint8_t>(buffer, current_position);
-    initialized_ = (bool)initialized_deserialized.first;
     current_position += initialized_deserialized.second;
     // Deserialize the transforms
     const std::pair<Eigen::Isometry3d, uint64_t> origin_transform_deserialized =
         arc_utilities::DeserializeEigen<Eigen::Isometry3d>(buffer, current_position);
-    origin_transform_ = origin_transform_deserialized.first;
     current_position += origin_transform_deserialized.second;
     const std::pair<Eigen::Isometry3d, uint64_t> inverse_origin_transform_deserialized =
         arc_utilities::DeserializeEigen<Eigen::Isometry3d>(buffer, current_position);
-    inverse_origin_transform_ = inverse_origin_transform_deserialized.first;
     current_position += inverse_origin_transform_deserialized.second;
     // Deserialize the data
     const std::pair<BackingStore, uint64_t> data_deserialized =
         arc_utilities::DeserializeVectorLike<T, BackingStore>(buffer, current_position, value_deserializer);
-    data_ = data_deserialized.first;
     current_position += data_deserialized.second;
     // Deserialize the cell sizes
     const std::pair<double, uint64_t> cell_x_size_deserialized =
         arc_utilities::DeserializeFixedSizePOD<double>(buffer, current_position);
-    cell_x_size_ = cell_x_size_deserialized.first;
     current_position += cell_x_size_deserialized.second;
     const std::pair<double, uint64_t> cell_y_size_deserialized =
         arc_utilities::DeserializeFixedSizePOD<double>(buffer, current_position);
-    cell_y_size_ = cell_y_size_deserialized.first;
     current_position += cell_y_size_deserialized.second;
     const std::pair<double, uint64_t> cell_z_size_deserialized =
         arc_utilities::DeserializeFixedSizePOD<double>(buffer, current_position);
-    cell_z_size_ = cell_z_size_deserialized.first;
     current_position += cell_z_size_deserialized.second;
     const std::pair<double, uint64_t> inv_cell_x_size_deserialized =
         arc_utilities::DeserializeFixedSizePOD<double>(buffer, current_position);
-    inv_cell_x_size_ = inv_cell_x_size_deserialized.first;
     current_position += inv_cell_x_size_deserialized.second;
     const std::pair<double, uint64_t> inv_cell_y_size_deserialized =
         arc_utilities::DeserializeFixedSizePOD<double>(buffer, current_position);
-    inv_cell_y_size_ = inv_cell_y_size_deserialized.first;
     current_position += inv_cell_y_size_deserialized.second;
     const std::pair<double, uint64_t> inv_cell_z_size_deserialized =
         arc_utilities::DeserializeFixedSizePOD<double>(buffer, current_position);
-    inv_cell_z_size_ = inv_cell_z_size_deserialized.first;
     current_position += inv_cell_z_size_deserialized.second;
     // Deserialize the grid sizes
     const std::pair<double, uint64_t> x_size_deserialized =
         arc_utilities::DeserializeFixedSizePOD<double>(buffer, current_position);
-    x_size_ = x_size_deserialized.first;
     current_position += x_size_deserialized.second;
     const std::pair<double, uint64_t> y_size_deserialized =
         arc_utilities::DeserializeFixedSizePOD<double>(buffer, current_position);
-    y_size_ = y_size_deserialized.first;
     current_position += y_size_deserialized.second;
     const std::pair<double, uint64_t> z_size_deserialized =
         arc_utilities::DeserializeFixedSizePOD<double>(buffer, current_position);
-    z_size_ = z_size_deserialized.first;
     current_position += z_size_deserialized.second;
     // Deserialize the control/bounds values
     const std::pair<int64_t, uint64_t> stride1_deserialized =
         arc_utilities::DeserializeFixedSizePOD<int64_t>(buffer, current_position);
-    stride1_ = stride1_deserialized.first;
     current_position += stride1_deserialized.second;
     const std::pair<int64_t, uint64_t> stride2_deserialized =
         arc_utilities::DeserializeFixedSizePOD<int64_t>(buffer, current_position);
-    stride2_ = stride2_deserialized.first;
     current_position += stride2_deserialized.second;
     const std::pair<int64_t, uint64_t> num_x_cells_deserialized =
         arc_utilities::DeserializeFixedSizePOD<int64_t>(buffer, current_position);
-    num_x_cells_ = num_x_cells_deserialized.first;
     current_position += num_x_cells_deserialized.second;
     const std::pair<int64_t, uint64_t> num_y_cells_deserialized =
         arc_utilities::DeserializeFixedSizePOD<int64_t>(buffer, current_position);
-    num_y_cells_ = num_y_cells_deserialized.first;
     current_position += num_y_cells_deserialized.second;
     const std::pair<int64_t, uint64_t> num_z_cells_deserialized =
         arc_utilities::DeserializeFixedSizePOD<int64_t>(buffer, current_position);
-    num_z_cells_ = num_z_cells_deserialized.first;
     current_position += num_z_cells_deserialized.second;
     // Deserialize the default value
     const std::pair<T, uint64_t> default_value_deserialized = value_deserializer(buffer, current_position);
-    default_value_ = default_value_deserialized.first;
     current_position += default_value_deserialized.second;
     // Deserialize the OOB value
     const std::pair<T, uint64_t> oob_value_deserialized = value_deserializer(buffer, current_position);
-    oob_value_ = oob_value_deserialized.first;
     current_position += oob_value_deserialized.second;
+    // Everything could be read - a failed load leaves the grid as it was
+    initialized_ = (bool)initialized_deserialized.first;
+    origin_transform_ = origin_transform_deserialized.first;
+    inverse_origin_transform_ = inverse_origin_transform_deserialized.first;
+    data_ = data_deserialized.first;
+    cell_x_size_ = cell_x_size_deserialized.first;
+    cell_y_size_ = cell_y_size_deserialized.first;
+    cell_z_size_ = cell_z_size_deserialized.first;
+    inv_cell_x_size_ = inv_cell_x_size_deserialized.first;
+    inv_cell_y_size_ = inv_cell_y_size_deserialized.first;
+    inv_cell_z_size_ = inv_cell_z_size_deserialized.first;
+    x_size_ = x_size_deserialized.first;
+    y_size_ = y_size_deserialized.first;
+    z_size_ = z_size_deserialized.first;
+    stride1_ = stride1_deserialized.first;
+    stride2_ = stride2_deserialized.first;
+    num_x_cells_ = num_x_cells_deserialized.first;
+    num_y_cells_ = num_y_cells_deserialized.first;
+    num_z_cells_ = num_z_cells_deserialized.first;
+    default_value_ = default_value_deserialized.first;
+    oob_value_ = oob_value_deserialized.first;
     // Figure out how many bytes were read
     const uint64_t bytes_read = current_position - current;
     return bytes_read;
-- 
2.43.0


From 16cd6b6b918ac2284d744da8deb22a87887534f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 87/98] fix: an empty Maybe claims to hold a value after an
 assignment that failed

---
 include/arc_utilities/maybe.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/arc_utilities/maybe.hpp b/include/arc_utilities/maybe.hpp
index 31722c2..9a51740 100644
--- a/include/arc_utilities/maybe.hpp
+++ b/include/arc_utilities/maybe.hpp
@@ -23,15 +23,16 @@ namespace Maybe {
 template <typename T>
 class Maybe {
  protected:
-  bool maybe_;
+  // In this order: if copying the value fails, an assignment must not have marked it as valid yet
   T value_;
+  bool maybe_;
 
  public:
   Maybe() : maybe_(false) {}
 
-  Maybe(const T& value) : maybe_(true), value_(value) {}
+  Maybe(const T& value) : value_(value), maybe_(true) {}
 
-  Maybe(T&& value) : maybe_(true), value_(value) {}
+  Maybe(T&& value) : value_(value), maybe_(true) {}
 
   bool Valid() const { return maybe_; }
 
@@ -50,24 +51,24 @@ class Maybe {
   }
 
   void Set(const T& value) {
-    maybe_ = true;
     value_ = value;
+    maybe_ = true;
   }
 
   void Set(T&& value) {
-    maybe_ = true;
     value_ = value;
+    maybe_ = true;
   }
 
   Maybe& operator=(const T& value) {
-    maybe_ = true;
     value_ = value;
+    maybe_ = true;
     return *this;
   }
 
   Maybe& operator=(T&& value) {
-    maybe_ = true;
     value_ = value;
+    maybe_ = true;
     return *this;
   }
 };
-- 
2.43.0


From ef09625e933e2ae12bb60ab01207d35f360104ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 88/98] fix: A* over negative node IDs returns a path that does
 not begin at the start

---
 include/arc_utilities/arc_helpers.hpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 8d27a91..ba9edd1 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -712,19 +712,12 @@ inline AstarResult ExtractAstarResult(const std::unordered_map<int64_t, std::pai
   // Extract the path indices in reverse order
   std::vector<int64_t> solution_path_indices;
   solution_path_indices.push_back(goal_index);
-  int64_t backpointer = goal_index_itr->second.first;
-  // Any backpointer >= 0 is a valid node in the graph
-  // The backpointer for start_index is -1
-  while (backpointer >= 0) {
-    const int64_t current_index = backpointer;
-    solution_path_indices.push_back(current_index);
-    if (current_index == start_index) {
-      break;
-    }
-
+  int64_t current_index = goal_index;
+  // The backpointers lead to start_index (which has none itself). Node IDs may be negative
+  while (current_index != start_index) {
     // This provides bounds safety check
-    const auto current_index_data = explored.at(current_index);
-    backpointer = current_index_data.first;
+    current_index = explored.at(current_index).first;
+    solution_path_indices.push_back(current_index);
   }
   // Reverse
   std::reverse(solution_path_indices.begin(), solution_path_indices.end());
-- 
2.43.0


From 2891c5b55cf06d753746430d8f4ef9606e82743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 89/98] fix: k-means never returns when asked for more clusters
 than there are datapoints

---
 include/arc_utilities/simple_kmeans_clustering.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/arc_utilities/simple_kmeans_clustering.hpp b/include/arc_utilities/simple_kmeans_clustering.hpp
index 389ce71..2a082ab 100644
--- a/include/arc_utilities/simple_kmeans_clustering.hpp
+++ b/include/arc_utilities/simple_kmeans_clustering.hpp
@@ -158,6 +158,9 @@ class SimpleKMeansClustering {
       const bool do_preliminary_clustering = false) {
     assert(data.size() > 0);
     assert(num_clusters > 0);
+    if (num_clusters > data.size()) {
+      throw std::invalid_argument("Cannot form more clusters than there are datapoints");
+    }
     if (num_clusters == 1) {
       std::cerr << "[K-means clustering] Provided num_clusters = 1, returning default labels for cluster 0"
                 << std::endl;
@@ -265,6 +268,9 @@ class SimpleKMeansClustering {
       const uint32_t num_clusters, const bool do_preliminary_clustering = false) {
     assert(data.size() > 0);
     assert(num_clusters > 0);
+    if (num_clusters > data.size()) {
+      throw std::invalid_argument("Cannot form more clusters than there are datapoints");
+    }
 
     if (num_clusters == 1) {
       std::cerr << "[K-means clustering] Provided num_clusters = 1, returning default labels for cluster 0"
-- 
2.43.0


From 0df146d32bcb1cf7b6506992ea1c70c38d027ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 90/98] fix: sampling a truncated normal distribution over a
 range of zero width at its mean never returns

---
 include/arc_utilities/arc_helpers.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index ba9edd1..72bd017 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -1107,6 +1107,10 @@ class TruncatedNormalDistribution {
     stddev_ = stddev;
     if (fabs(stddev_) == 0.0) {
       case_ = NONE;
+    } else if (lower_bound == upper_bound) {
+      // There is only one value to return, rejection sampling would wait for exactly it to be drawn
+      mean_ = lower_bound;
+      case_ = NONE;
     } else {
       // Standardize the lower and upper bounds
       std_lower_bound_ = (lower_bound - mean_) / stddev_;
-- 
2.43.0


From 539d89a6c0649a2e8da78dca4b905a229bbfcf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 91/98] fix: norm of a short Aligned4Vector3 is zero,
 normalizing it divides by zero

---
 include/arc_utilities/aligned_eigen_types.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/aligned_eigen_types.hpp b/include/arc_utilities/aligned_eigen_types.hpp
index 0f022d1..5cc90ba 100644
--- a/include/arc_utilities/aligned_eigen_types.hpp
+++ b/include/arc_utilities/aligned_eigen_types.hpp
@@ -161,12 +161,12 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
 
   inline Scalar sum() const {
     eigen_assert(m_coeffs.w() == Scalar(1));
-    return m_coeffs.sum() - Scalar(1);
+    return m_coeffs.template head<3>().sum();
   }
 
   inline Scalar squaredNorm() const {
     eigen_assert(m_coeffs.w() == Scalar(1));
-    return m_coeffs.squaredNorm() - Scalar(1);
+    return m_coeffs.template head<3>().squaredNorm();
   }
 
   inline Scalar norm() const {
-- 
2.43.0


From b7a3217cbe1d5e91c08d9b14b128cfec8b294108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 92/98] fix: writing profiler results to a file that cannot be
 opened crashes

---
 src/arc_utilities/timing.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index ba56f76..df67afd 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -210,6 +210,9 @@ void addHeader(FILE* outfile) {
 void Profiler::writeGroupSummary(const std::string& filename, const std::vector<std::string>& names) {
   FILE* outfile;
   outfile = std::fopen(filename.c_str(), "a+");
+  if (outfile == nullptr) {
+    throw std::runtime_error("Could not open " + filename);
+  }
 
   addHeader(outfile);
 
@@ -283,6 +286,9 @@ void Profiler::writeAll(const std::string& filename, size_t limit_per_name) {
 
   FILE* outfile;
   outfile = std::fopen(filename.c_str(), "a+");
+  if (outfile == nullptr) {
+    throw std::runtime_error("Could not open " + filename);
+  }
 
   addHeader(outfile);
 
-- 
2.43.0


From 70eb55d44e49dd0de982324372a4fa6b3641a6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 93/98] fix: a text that begins with a dash is taken as options
 of espeak

---
 scripts/tts_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/tts_node.py b/scripts/tts_node.py
index 088d345..8947906 100755
--- a/scripts/tts_node.py
+++ b/scripts/tts_node.py
@@ -6,7 +6,7 @@ from std_msgs.msg import String
 
 
 def cb(msg: String):
-    args = ["espeak", msg.data]
+    args = ["espeak", "--", msg.data]  # the text may begin with a dash
     subprocess.run(args)
 
 
-- 
2.43.0


From ea6f9d3a70eb26769ca8eeef1b7a4f0b98c3ab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 94/98] fix: no_overwrite_path returns the name of an existing
 dangling link

---
 src/arc_utilities/filesystem_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/filesystem_utils.py b/src/arc_utilities/filesystem_utils.py
index 7cb108c..8c86c0d 100644
--- a/src/arc_utilities/filesystem_utils.py
+++ b/src/arc_utilities/filesystem_utils.py
@@ -98,7 +98,7 @@ def no_overwrite_path(path):
     new_path = path
     n = 1
     while True:
-        if not new_path.exists():
+        if not new_path.exists() and not new_path.is_symlink():
             return new_path
 
         extensions = ''.join(path.suffixes)
-- 
2.43.0


From eb9226571336d759022ca3a7df3e79b1d1985c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 95/98] fix: removing directories stops half-way if one is
 listed twice or lies within another

---
 src/arc_utilities/filesystem_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arc_utilities/filesystem_utils.py b/src/arc_utilities/filesystem_utils.py
index 8c86c0d..b2b8d70 100644
--- a/src/arc_utilities/filesystem_utils.py
+++ b/src/arc_utilities/filesystem_utils.py
@@ -54,7 +54,8 @@ def ask_to_remove_directories(directories_to_remove: Iterable[pathlib.Path]):
     if k == '' or k == 'y' or k == 'Y':
         print(Fore.GREEN + "Deleting.")
         for d in directories_to_remove:
-            rm_tree(d)
+            if d.exists() or d.is_symlink():  # unless it went together with an earlier one
+                rm_tree(d)
 
         return
 
-- 
2.43.0


From c93b95e79760c6e4124ace8fe54844c49d1cd2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 96/98] fix: the angle between rotations less than 1.6 degrees
 apart is reported as zero

---
 src/arc_utilities/transformation_helper.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/arc_utilities/transformation_helper.py b/src/arc_utilities/transformation_helper.py
index db53950..9518eaf 100644
--- a/src/arc_utilities/transformation_helper.py
+++ b/src/arc_utilities/transformation_helper.py
@@ -202,20 +202,14 @@ def AngleBetweenQuaternions(q1, q2):
     nq1 = NormalizeQuaternion(q1)
     nq2 = NormalizeQuaternion(q2)
     dot_product = abs(nq1[0] * nq2[0] + nq1[1] * nq2[1] + nq1[2] * nq2[2] + nq1[3] * nq2[3])
-    if dot_product < 0.9999:
-        return np.arccos(2.0 * (dot_product ** 2) - 1.0)
-    else:
-        return 0.0
+    return np.arccos(min(2.0 * (dot_product ** 2) - 1.0, 1.0))
 
 
 def AngleBetweenQuaternionsRos(q1, q2):
     nq1 = NormalizeQuaternionRos(q1)
     nq2 = NormalizeQuaternionRos(q2)
     dot_product = abs(nq1.x * nq2.x + nq1.y * nq2.y + nq1.z * nq2.z + nq1.w * nq2.w)
-    if dot_product < 0.9999:
-        return np.arccos(2.0 * (dot_product ** 2) - 1.0)
-    else:
-        return 0
+    return np.arccos(min(2.0 * (dot_product ** 2) - 1.0, 1.0))
 
 
 '''Assist functions'''
-- 
2.43.0


From 02d75e7eb798fe7d21d94903368258c3952d56cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 97/98] fix: spherical coordinates of vectors shorter than a
 micrometre lose the inclination

---
 src/arc_utilities/transformation_helper.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/arc_utilities/transformation_helper.py b/src/arc_utilities/transformation_helper.py
index 9518eaf..bab43f4 100644
--- a/src/arc_utilities/transformation_helper.py
+++ b/src/arc_utilities/transformation_helper.py
@@ -433,8 +433,5 @@ def vector3_to_spherical(xyz):
     # phi is the angle about the z axis, where 0 is +x and pi/2 is +y
     phi = np.arctan2(y, x)
     # theta is inclination from z direction
-    if r > 1e-6:
-        theta = np.arccos(z / r)
-    else:
-        theta = 0
+    theta = np.arctan2(np.sqrt(x ** 2 + y ** 2), z)
     return [r, phi, theta]
-- 
2.43.0


From 400f8d17ae2c40c8deb2daf869bd87c8492d15a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:33 +0000
Subject: [PATCH 98/98] fix: a thin plate spline is wrong between control
 points that are hundreds of units apart

---
 include/arc_utilities/thin_plate_spline.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/arc_utilities/thin_plate_spline.hpp b/include/arc_utilities/thin_plate_spline.hpp
index f3ccbb8..e2c11d6 100644
--- a/include/arc_utilities/thin_plate_spline.hpp
+++ b/include/arc_utilities/thin_plate_spline.hpp
@@ -93,16 +93,29 @@ class ThinPlateSpline {
     //            template,    0]
     //       B = [target'
     //              0    ]
+    // The kernel and the points can differ by many orders of magnitude, depending on the unit of length and on where
+    // the origin is. Bring the points to the size of the kernel, or the solver mistakes the smaller ones for zero.
+    const Matrix<double, DIMENSIONS, 1> center =
+        homogeneous_template_points_.template topRows<DIMENSIONS>().rowwise().mean();
+    const double kernel_size = kernel.cwiseAbs().maxCoeff();
+    const double points_size =
+        (homogeneous_template_points_.template topRows<DIMENSIONS>().colwise() - center).cwiseAbs().maxCoeff();
+    Matrix<double, DIMENSIONS + 1, DIMENSIONS + 1> normalize = Matrix<double, DIMENSIONS + 1, DIMENSIONS + 1>::Identity();
+    normalize.template topRightCorner<DIMENSIONS, 1>() = -center;
+    if (kernel_size > 0.0 && points_size > 0.0) {
+      normalize.template topRows<DIMENSIONS>() *= kernel_size / points_size;
+      normalize(DIMENSIONS, DIMENSIONS) = kernel_size;
+    }
+    const HomogeneousPointSet normalized_points = normalize * homogeneous_template_points_;
     MatrixXd A(NUMPOINTS + DIMENSIONS + 1, NUMPOINTS + DIMENSIONS + 1);
-    A << kernel, homogeneous_template_points_.transpose(), homogeneous_template_points_,
-        MatrixXd::Zero(DIMENSIONS + 1, DIMENSIONS + 1);
+    A << kernel, normalized_points.transpose(), normalized_points, MatrixXd::Zero(DIMENSIONS + 1, DIMENSIONS + 1);
     MatrixXd B(NUMPOINTS + DIMENSIONS + 1, DIMENSIONS);
     B << target_points_.transpose(), MatrixXd::Zero(DIMENSIONS + 1, DIMENSIONS);
 
     // params = A \ B
     const Matrix<double, Dynamic, DIMENSIONS> params = A.colPivHouseholderQr().solve(B).eval();
     warping_coeffs_ = params.topRows(NUMPOINTS).transpose();
-    affine_coeffs_ = params.bottomRows(DIMENSIONS + 1).transpose();
+    affine_coeffs_ = params.bottomRows(DIMENSIONS + 1).transpose() * normalize;
     solved_ = true;
   }
 
-- 
2.43.0

