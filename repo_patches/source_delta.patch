From d007020ef77b174cb03e65e202974d34829c6fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 01/51] fix: report failed WAL appends and syncs instead of
 acknowledging them

---
 include/recovery/write_ahead_log.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/recovery/write_ahead_log.hpp b/include/recovery/write_ahead_log.hpp
index e11752c..de70a89 100644
--- a/include/recovery/write_ahead_log.hpp
+++ b/include/recovery/write_ahead_log.hpp
@@ -301,6 +301,8 @@ class WriteAheadLog {
       if (!wal_stream_.is_open()) {
         throw std::runtime_error("Failed to open WAL file for append at " + path_.string());
       }
+      // The file may just have been created: its directory entry must survive a crash as well.
+      platform::sync_directory_or_throw(path_.parent_path());
     }
   }
 
@@ -350,12 +352,15 @@ class WriteAheadLog {
 
     wal_stream_.write(buf.data(), static_cast<std::streamsize>(buf.size()));
     wal_stream_.flush();
+    if (!wal_stream_) {
+      throw std::runtime_error("Failed to append WAL frame at " + path_.string());
+    }
 
     // Only fsync on COMMIT frames. PREPARE frames are durable enough after
     // flush — a crash between PREPARE and COMMIT leaves an uncommitted record
     // that is correctly skipped during replay.
     if (frame_type == WalFrameType::kCommit) {
-      platform::sync_file(path_);
+      platform::sync_file_or_throw(path_);
     }
   }
 
-- 
2.43.0


From 7d08a91c5d166f8609ef9442c3822f74ee0ee9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 02/51] fix: do not switch recovery pointer files to content
 that failed to reach disk

---
 include/recovery/recovery_manager.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index e142eb9..ebaa605 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -254,11 +254,14 @@ class RecoveryManager {
       output.write(content.data(), static_cast<std::streamsize>(content.size()));
       output.flush();
       output.close();
+      if (!output) {
+        throw std::runtime_error("Failed to write " + tmp_path.string());
+      }
     }
 
-    platform::sync_file(tmp_path);
+    platform::sync_file_or_throw(tmp_path);
     platform::atomic_replace(tmp_path, path);
-    platform::sync_directory(path.parent_path());
+    platform::sync_directory_or_throw(path.parent_path());
   }
 
   /**
-- 
2.43.0


From 76d0f3d210dd85c99d81bb92974e3b8b88c8360b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 03/51] fix: give every recovery snapshot a directory of its
 own

---
 include/recovery/recovery_manager.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index ebaa605..18bbd37 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -64,12 +64,16 @@ class RecoveryManager {
 
   [[nodiscard]] auto create_snapshot_dir() const -> fs::path {
     ensure_layout();
-    auto now = SnapshotManifest::current_unix_ms();
-    std::ostringstream name;
-    name << "snapshot-" << now;
-    auto snapshot_dir = snapshots_dir_ / name.str();
-    fs::create_directories(snapshot_dir);
-    return snapshot_dir;
+    // Never reuse an existing directory: it may be the live snapshot (same clock tick, or a clock
+    // that was set back), which must not be overwritten in place.
+    for (auto id = SnapshotManifest::current_unix_ms();; ++id) {
+      std::ostringstream name;
+      name << "snapshot-" << id;
+      auto snapshot_dir = snapshots_dir_ / name.str();
+      if (fs::create_directory(snapshot_dir)) {
+        return snapshot_dir;
+      }
+    }
   }
 
   // TODO(P2): The snapshot directory is only published after graph files and the RocksDB
-- 
2.43.0


From 8158676ef0070fdd66931b04e7c1907317c58f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 04/51] fix: make snapshot files durable before CURRENT points
 to them

---
 include/recovery/recovery_manager.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index 18bbd37..dafa308 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -91,8 +91,11 @@ class RecoveryManager {
   auto publish_snapshot(const SnapshotManifest &manifest, const fs::path &snapshot_dir) const
       -> void {
     ensure_layout();
+    fs::create_directories(snapshot_dir);
+    sync_tree(snapshot_dir);
     auto manifest_path = snapshot_dir / "manifest.txt";
     write_text_atomically(manifest_path, manifest.serialize());
+    platform::sync_directory_or_throw(snapshots_dir_);
     write_text_atomically(current_path_, manifest.snapshot_id_ + "\n");
     LOG_INFO("recovery: published snapshot id={} applied_through={}",
              manifest.snapshot_id_,
@@ -217,6 +220,20 @@ class RecoveryManager {
     }
   }
 
+  /**
+   * @brief Forces every file and directory below root (and root itself) to stable storage.
+   */
+  static auto sync_tree(const fs::path &root) -> void {
+    for (const auto &entry : fs::recursive_directory_iterator(root)) {
+      if (entry.is_directory()) {
+        platform::sync_directory_or_throw(entry.path());
+      } else if (entry.is_regular_file()) {
+        platform::sync_file_or_throw(entry.path());
+      }
+    }
+    platform::sync_directory_or_throw(root);
+  }
+
   static auto trim(std::string value) -> std::string {
     while (!value.empty() &&
            (value.back() == '\n' || value.back() == '\r' || value.back() == ' ')) {
-- 
2.43.0


From fb8febb24b4774ceb43b5c4307656473f3a6ce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 05/51] fix: cut a torn WAL tail before appending so later
 records stay recoverable

---
 include/recovery/write_ahead_log.hpp | 45 ++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/include/recovery/write_ahead_log.hpp b/include/recovery/write_ahead_log.hpp
index de70a89..9a82c99 100644
--- a/include/recovery/write_ahead_log.hpp
+++ b/include/recovery/write_ahead_log.hpp
@@ -294,9 +294,54 @@ class WriteAheadLog {
            static_cast<uintmax_t>(payload_size) <= remaining_bytes - kTrailerSize;
   }
 
+  /**
+   * @brief Cuts the log after its last complete frame.
+   *
+   * Replay stops at the first incomplete or corrupted frame, so anything appended behind one would
+   * never be recovered.
+   */
+  auto discard_torn_tail() const -> void {
+    if (!fs::exists(path_)) {
+      return;
+    }
+    const auto file_size = fs::file_size(path_);
+    uintmax_t valid_size = 0;
+    {
+      std::ifstream input(path_, std::ios::binary);
+      if (!input.is_open()) {
+        throw std::runtime_error("Failed to open WAL file at " + path_.string());
+      }
+      while (valid_size < file_size) {
+        const auto header = read_frame_header(input);
+        if (!header.has_value() ||
+            !payload_size_is_plausible(input, file_size, header->payload_size_)) {
+          break;
+        }
+        uint32_t trailer = 0;
+        input.seekg(static_cast<std::streamoff>(header->payload_size_), std::ios::cur);
+        input.read(reinterpret_cast<char *>(&trailer), sizeof(trailer));
+        if (!input || trailer != kWalTrailerMagic) {
+          break;
+        }
+        valid_size = static_cast<uintmax_t>(input.tellg());
+      }
+      if (input.bad()) {
+        throw std::runtime_error("Failed to read WAL file at " + path_.string());
+      }
+    }
+    if (valid_size < file_size) {
+      LOG_WARN("WAL has a torn tail at {}: keeping {} of {} bytes",
+               path_.string(),
+               valid_size,
+               file_size);
+      fs::resize_file(path_, valid_size);
+    }
+  }
+
   auto ensure_stream_open() const -> void {
     if (!wal_stream_.is_open()) {
       fs::create_directories(path_.parent_path());
+      discard_torn_tail();
       wal_stream_.open(path_, std::ios::binary | std::ios::app);
       if (!wal_stream_.is_open()) {
         throw std::runtime_error("Failed to open WAL file for append at " + path_.string());
-- 
2.43.0


From 1a883ab0fcfc254dfeedfa7842435339d882a047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 06/51] fix: report failed RocksDB flushes and checkpoints

---
 include/storage/rocksdb_storage.hpp | 26 +++++++++++++++++++++-----
 python/include/index.hpp            |  4 +++-
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/storage/rocksdb_storage.hpp b/include/storage/rocksdb_storage.hpp
index 76cff7d..d66f57a 100644
--- a/include/storage/rocksdb_storage.hpp
+++ b/include/storage/rocksdb_storage.hpp
@@ -667,14 +667,21 @@ class RocksDBStorage {
     ensure_writable("flush");
     if (db_ != nullptr) {
       save_count();
-      db_->Flush(rocksdb::FlushOptions());
+      rocksdb::Status status = db_->Flush(rocksdb::FlushOptions());
+      if (!status.ok()) {
+        throw std::runtime_error("Failed to flush RocksDB: " + status.ToString());
+      }
     }
   }
 
   void compact() {
     ensure_writable("compact");
     if (db_ != nullptr) {
-      db_->CompactRange(rocksdb::CompactRangeOptions(), nullptr, nullptr);
+      rocksdb::Status status =
+          db_->CompactRange(rocksdb::CompactRangeOptions(), nullptr, nullptr);
+      if (!status.ok()) {
+        throw std::runtime_error("Failed to compact RocksDB: " + status.ToString());
+      }
     }
   }
 
@@ -687,7 +694,11 @@ class RocksDBStorage {
     return stats;
   }
 
-  void save(const std::string &filepath) const {
+  /**
+   * @brief Writes a checkpoint of the database to filepath
+   * @return false if the checkpoint could not be created
+   */
+  auto save(const std::string &filepath) const -> bool {
     if (!read_only_) {
       flush();
     }
@@ -697,14 +708,16 @@ class RocksDBStorage {
     std::unique_ptr<rocksdb::Checkpoint> checkpoint(checkpoint_raw);
     if (!status.ok()) {
       LOG_ERROR("Failed to create checkpoint: {}", status.ToString());
-      return;
+      return false;
     }
 
     status = checkpoint->CreateCheckpoint(filepath);
 
     if (!status.ok()) {
       LOG_ERROR("Failed to save checkpoint to {}: {}", filepath, status.ToString());
+      return false;
     }
+    return true;
   }
 
  private:
@@ -981,7 +994,10 @@ class RocksDBStorage {
 
     size_t cnt = cached_count_.load();
     rocksdb::Slice count_slice(reinterpret_cast<const char *>(&cnt), sizeof(size_t));
-    db_->Put(sync_options, count_key(), count_slice);
+    rocksdb::Status status = db_->Put(sync_options, count_key(), count_slice);
+    if (!status.ok()) {
+      throw std::runtime_error("Failed to persist RocksDB count: " + status.ToString());
+    }
   }
 
   static auto item_id_index_key(const std::string &item_id) -> std::string {
diff --git a/python/include/index.hpp b/python/include/index.hpp
index 587ac72..7219c86 100644
--- a/python/include/index.hpp
+++ b/python/include/index.hpp
@@ -280,7 +280,9 @@ class PyIndex : public BasePyIndex {
     std::string rocksdb_dir;
     if (auto *storage = recovery_scalar_storage(); storage != nullptr) {
       rocksdb_dir = "rocksdb";
-      storage->save((snapshot_dir / rocksdb_dir).string());
+      if (!storage->save((snapshot_dir / rocksdb_dir).string())) {
+        throw std::runtime_error("Failed to checkpoint scalar data for a recovery snapshot");
+      }
     }
 
     alaya::recovery::SnapshotManifest manifest;
-- 
2.43.0


From 50298036cf591e4117b97a668861229ea0c28113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 07/51] fix: report failed space and graph file writes and
 short reads

---
 include/index/graph/graph.hpp  | 10 ++++++++++
 include/space/rabitq_space.hpp |  7 +++++++
 include/space/raw_space.hpp    |  7 +++++++
 include/space/sq4_space.hpp    |  7 +++++++
 include/space/sq8_space.hpp    |  7 +++++++
 5 files changed, 38 insertions(+)

diff --git a/include/index/graph/graph.hpp b/include/index/graph/graph.hpp
index 3a9c0d2..83b3c13 100644
--- a/include/index/graph/graph.hpp
+++ b/include/index/graph/graph.hpp
@@ -185,6 +185,10 @@ struct Graph {
     if (overlay_graph_) {
       overlay_graph_->save(writer);
     }
+    writer.flush();
+    if (!writer) {
+      throw std::runtime_error("Failed to write file " + std::string(filename));
+    }
     LOG_INFO("Graph Saving done in {}\n", filename);
   }
 
@@ -210,6 +214,9 @@ struct Graph {
     reader.read(reinterpret_cast<char *>(&max_nbrs_), sizeof(NodeIDType));
 
     data_storage_.load(reader);
+    if (!reader) {
+      throw std::runtime_error("Failed to read file " + std::string(filename));
+    }
 
     // reader.read(reinterpret_cast<char *>(&include_raw_data_), sizeof(bool));
     // if (include_raw_data_) {
@@ -222,6 +229,9 @@ struct Graph {
     if (reader.peek() != EOF) {
       overlay_graph_ = std::make_unique<OverlayGraph<NodeIDType>>(max_nodes_, max_nbrs_);
       overlay_graph_->load(reader);
+      if (!reader) {
+        throw std::runtime_error("Failed to read file " + std::string(filename));
+      }
     }
     LOG_INFO("Graph Loading done\n");
   }
diff --git a/include/space/rabitq_space.hpp b/include/space/rabitq_space.hpp
index 5b6d5e4..8f06310 100644
--- a/include/space/rabitq_space.hpp
+++ b/include/space/rabitq_space.hpp
@@ -596,6 +596,10 @@ class RaBitQSpace {
 
     quantizer_->save(writer);
 
+    writer.flush();
+    if (!writer) {
+      throw std::runtime_error("Failed to write file " + std::string(filename));
+    }
     LOG_INFO("RaBitQSpace is successfully saved to {}.", filename);
   }
 
@@ -629,6 +633,9 @@ class RaBitQSpace {
     quantizer_ = std::make_unique<RaBitQQuantizer<DataType>>();
     quantizer_->load(reader);
 
+    if (!reader) {
+      throw std::runtime_error("Failed to read file " + std::string(filename));
+    }
     LOG_INFO("RaBitQSpace is successfully loaded from {}", filename);
   }
 
diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 5ac04a0..56fde69 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -383,6 +383,9 @@ class RawSpace {
       scalar_storage_ = std::make_unique<RocksDBStorage<IDType>>(config_);
     }
     data_storage_.load(reader);
+    if (!reader) {
+      throw std::runtime_error("Failed to read file " + std::string(filename));
+    }
     LOG_INFO("RawSpace is loaded from {}", filename);
   }
 
@@ -403,6 +406,10 @@ class RawSpace {
     }
 
     data_storage_.save(writer);
+    writer.flush();
+    if (!writer) {
+      throw std::runtime_error("Failed to write file " + std::string(filename));
+    }
     LOG_INFO("RawSpace is saved to {}", filename);
   }
 
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index ec50c9f..ade786d 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -362,6 +362,9 @@ class SQ4Space {
 
     data_storage_.load(reader);
     quantizer_.load(reader);
+    if (!reader) {
+      throw std::runtime_error("Failed to read file " + std::string(filename));
+    }
     LOG_INFO("SQ4Space is loaded from {}", filename);
   }
 
@@ -388,6 +391,10 @@ class SQ4Space {
 
     data_storage_.save(writer);
     quantizer_.save(writer);
+    writer.flush();
+    if (!writer) {
+      throw std::runtime_error("Failed to write file " + std::string(filename));
+    }
     LOG_INFO("SQ4Space is saved to {}", filename);
   }
 
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index b8808ba..f232538 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -361,6 +361,9 @@ class SQ8Space {
 
     data_storage_.load(reader);
     quantizer_.load(reader);
+    if (!reader) {
+      throw std::runtime_error("Failed to read file " + std::string(filename));
+    }
     LOG_INFO("SQ8Space is loaded from {}", filename);
   }
 
@@ -387,6 +390,10 @@ class SQ8Space {
 
     data_storage_.save(writer);
     quantizer_.save(writer);
+    writer.flush();
+    if (!writer) {
+      throw std::runtime_error("Failed to write file " + std::string(filename));
+    }
     LOG_INFO("SQ8Space is saved to {}", filename);
   }
   /**
-- 
2.43.0


From b024e0ebd16c5e9f3af0b1b151c3043970dbe710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 08/51] fix: sync segment directory entries and imported
 artifacts before publishing a segment

---
 include/index/disk/disk_flat_builder.hpp      | 1 +
 include/index/disk/laser_segment_importer.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/index/disk/disk_flat_builder.hpp b/include/index/disk/disk_flat_builder.hpp
index 4257e6e..b486dfc 100644
--- a/include/index/disk/disk_flat_builder.hpp
+++ b/include/index/disk/disk_flat_builder.hpp
@@ -252,6 +252,7 @@ class DiskFlatBuilder {
     manifest.vectors_file = "vectors.f32.bin";
     manifest.save(tmp_dir / "manifest.txt");
 
+    detail::fsync_dir(tmp_dir);
     detail::rename_no_replace(tmp_dir, segment_dir);
     guard.disarm();
     // The segment is now published — mark builder closed BEFORE the parent
diff --git a/include/index/disk/laser_segment_importer.hpp b/include/index/disk/laser_segment_importer.hpp
index 3bd273d..4225d63 100644
--- a/include/index/disk/laser_segment_importer.hpp
+++ b/include/index/disk/laser_segment_importer.hpp
@@ -172,6 +172,7 @@ inline auto copy_or_link_artifact(const std::filesystem::path &src,
     throw std::runtime_error("LaserSegmentImporter: artifact publish failed: " + src.string() +
                              " -> " + dst.string() + ": " + ec.message());
   }
+  ::alaya::platform::sync_file_or_throw(dst);
 }
 
 inline auto make_tmp_dir(const std::filesystem::path &parent, const std::string &seg_basename)
-- 
2.43.0


From 651d849d93b18722b7ab4e40571630b80619774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 09/51] fix: report a failed final flush of a Vamana graph file

---
 include/index/graph/vamana/vamana_writer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/index/graph/vamana/vamana_writer.hpp b/include/index/graph/vamana/vamana_writer.hpp
index 565f1a9..6cf6db5 100644
--- a/include/index/graph/vamana/vamana_writer.hpp
+++ b/include/index/graph/vamana/vamana_writer.hpp
@@ -65,10 +65,10 @@ inline void save_graph(const std::vector<std::vector<uint32_t>> &graph,
   // Rewrite the expected_file_size at offset 0 now that we know the total.
   out.seekp(0, std::ios::beg);
   out.write(reinterpret_cast<const char *>(&index_size), sizeof(uint64_t));
+  out.close();
   if (!out.good()) {
     throw std::runtime_error("save_graph: write error on " + path.string());
   }
-  out.close();
 }
 
 }  // namespace alaya::vamana
-- 
2.43.0


From 133cea6f8f30395b5a39484f88b884cd802b89b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:44 +0000
Subject: [PATCH 10/51] fix: load every indexed field name saved with a space

load_scalar_config() skipped the list when it held 1000 names or more and
left the stream positioned in the middle of it, so the following sections of
the file were misread.
---
 include/space/rabitq_space.hpp | 4 ++--
 include/space/raw_space.hpp    | 4 ++--
 include/space/sq4_space.hpp    | 4 ++--
 include/space/sq8_space.hpp    | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/space/rabitq_space.hpp b/include/space/rabitq_space.hpp
index 8f06310..25433d8 100644
--- a/include/space/rabitq_space.hpp
+++ b/include/space/rabitq_space.hpp
@@ -158,9 +158,9 @@ class RaBitQSpace {
     // Load indexed_fields_ for secondary index support
     size_t fields_count = 0;
     reader.read(reinterpret_cast<char *>(&fields_count), sizeof(fields_count));
-    if (reader.good() && fields_count < 1000) {
+    if (reader.good()) {
       config_.indexed_fields_.clear();
-      for (size_t i = 0; i < fields_count; i++) {
+      for (size_t i = 0; i < fields_count && reader.good(); i++) {
         size_t field_len = 0;
         reader.read(reinterpret_cast<char *>(&field_len), sizeof(field_len));
         std::string field(field_len, '\0');
diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 56fde69..b61149e 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -354,9 +354,9 @@ class RawSpace {
 
     size_t fields_count = 0;
     reader.read(reinterpret_cast<char *>(&fields_count), sizeof(fields_count));
-    if (reader.good() && fields_count < 1000) {
+    if (reader.good()) {
       config_.indexed_fields_.clear();
-      for (size_t i = 0; i < fields_count; ++i) {
+      for (size_t i = 0; i < fields_count && reader.good(); ++i) {
         size_t field_len = 0;
         reader.read(reinterpret_cast<char *>(&field_len), sizeof(field_len));
         std::string field(field_len, '\0');
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index ade786d..3986f28 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -557,9 +557,9 @@ class SQ4Space {
     // Load indexed_fields_ for secondary index support
     size_t fields_count = 0;
     reader.read(reinterpret_cast<char *>(&fields_count), sizeof(fields_count));
-    if (reader.good() && fields_count < 1000) {
+    if (reader.good()) {
       config_.indexed_fields_.clear();
-      for (size_t i = 0; i < fields_count; i++) {
+      for (size_t i = 0; i < fields_count && reader.good(); i++) {
         size_t field_len = 0;
         reader.read(reinterpret_cast<char *>(&field_len), sizeof(field_len));
         std::string field(field_len, '\0');
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index f232538..7c22c49 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -557,9 +557,9 @@ class SQ8Space {
     // Load indexed_fields_ for secondary index support
     size_t fields_count = 0;
     reader.read(reinterpret_cast<char *>(&fields_count), sizeof(fields_count));
-    if (reader.good() && fields_count < 1000) {
+    if (reader.good()) {
       config_.indexed_fields_.clear();
-      for (size_t i = 0; i < fields_count; i++) {
+      for (size_t i = 0; i < fields_count && reader.good(); i++) {
         size_t field_len = 0;
         reader.read(reinterpret_cast<char *>(&field_len), sizeof(field_len));
         std::string field(field_len, '\0');
-- 
2.43.0


From fe23e201cf9c32d1e3f2f89001d4e2d5e84ca389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 11/51] fix: save the upper graph layers with the width of
 their ids

OverlayGraph wrote and read 4 bytes per id, which loses half of every list
(and of the header fields) when the id type is 64 bits wide.
---
 include/index/graph/overlay_graph.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/index/graph/overlay_graph.hpp b/include/index/graph/overlay_graph.hpp
index fe5ef46..7574163 100644
--- a/include/index/graph/overlay_graph.hpp
+++ b/include/index/graph/overlay_graph.hpp
@@ -140,9 +140,9 @@ class OverlayGraph {
   void load(std::ifstream &reader) {
     static_assert(std::is_trivial<NodeIDType>::value && std::is_standard_layout<NodeIDType>::value,
                   "IDType must be a POD type");
-    reader.read(reinterpret_cast<char *>(&node_num_), 4);
-    reader.read(reinterpret_cast<char *>(&max_nbrs_), 4);
-    reader.read(reinterpret_cast<char *>(&ep_), 4);
+    reader.read(reinterpret_cast<char *>(&node_num_), sizeof(node_num_));
+    reader.read(reinterpret_cast<char *>(&max_nbrs_), sizeof(max_nbrs_));
+    reader.read(reinterpret_cast<char *>(&ep_), sizeof(ep_));
 
     levels_.clear();
     lists_.clear();
@@ -160,7 +160,7 @@ class OverlayGraph {
       lists_[i].clear();
       lists_[i].resize(cur, -1);
 
-      reader.read(reinterpret_cast<char *>(lists_[i].data()), cur * 4);
+      reader.read(reinterpret_cast<char *>(lists_[i].data()), cur * sizeof(EdgeIDType));
     }
   }
 
@@ -172,13 +172,14 @@ class OverlayGraph {
   void save(std::ofstream &writer) const {
     static_assert(std::is_trivial<NodeIDType>::value && std::is_standard_layout<NodeIDType>::value,
                   "IDType must be a POD type");
-    writer.write(const_cast<char *>(reinterpret_cast<const char *>(&node_num_)), 4);
-    writer.write(const_cast<char *>(reinterpret_cast<const char *>(&max_nbrs_)), 4);
-    writer.write(const_cast<char *>(reinterpret_cast<const char *>(&ep_)), 4);
+    writer.write(const_cast<char *>(reinterpret_cast<const char *>(&node_num_)), sizeof(node_num_));
+    writer.write(const_cast<char *>(reinterpret_cast<const char *>(&max_nbrs_)), sizeof(max_nbrs_));
+    writer.write(const_cast<char *>(reinterpret_cast<const char *>(&ep_)), sizeof(ep_));
     for (NodeIDType i = 0; i < node_num_; ++i) {
       int cur = levels_[i] * max_nbrs_;
       writer.write(reinterpret_cast<char *>(&cur), 4);
-      writer.write(const_cast<char *>(reinterpret_cast<const char *>(lists_[i].data())), cur * 4);
+      writer.write(const_cast<char *>(reinterpret_cast<const char *>(lists_[i].data())),
+                   cur * sizeof(EdgeIDType));
     }
   }
 };
-- 
2.43.0


From 11c0158e4a23c3c1f8e92e6a78f66bc2dee8edf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 12/51] fix: report a log whose size cannot be determined

replayable_records() returned no records in that case, so recovery would have
dropped every committed operation in the log and then truncated it.
---
 include/recovery/write_ahead_log.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/recovery/write_ahead_log.hpp b/include/recovery/write_ahead_log.hpp
index 9a82c99..0bd7a75 100644
--- a/include/recovery/write_ahead_log.hpp
+++ b/include/recovery/write_ahead_log.hpp
@@ -161,11 +161,8 @@ class WriteAheadLog {
     std::error_code file_size_ec;
     const auto wal_file_size = fs::file_size(path_, file_size_ec);
     if (file_size_ec) {
-      LOG_WARN("Failed to stat WAL file at {}: {}", path_.string(), file_size_ec.message());
-      if (max_seen_op_id != nullptr) {
-        *max_seen_op_id = applied_through;
-      }
-      return committed;
+      throw std::runtime_error("Failed to stat WAL file at " + path_.string() + ": " +
+                               file_size_ec.message());
     }
 
     uint64_t max_op_id = applied_through;
-- 
2.43.0


From b9a0884fd8adc15d98c4f542e06a47249da04111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:39 +0000
Subject: [PATCH 13/51] fix: reject signed and padded integers in collection
 manifest extras

---
 include/index/disk/disk_collection.hpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index ea44831..763e3c1 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -534,9 +534,9 @@ inline auto parse_u32_extra(const CollectionManifest &manifest,
     return fallback;
   }
   try {
-    size_t pos = 0;
-    const auto value = std::stoull(it->second, &pos);
-    if (pos != it->second.size() || value > std::numeric_limits<uint32_t>::max()) {
+    // Digits only: std::stoull would also accept signs and leading blanks and wrap "-1".
+    const auto value = parse_uint64(it->second, key);
+    if (value > std::numeric_limits<uint32_t>::max()) {
       throw std::out_of_range("not uint32");
     }
     return static_cast<uint32_t>(value);
@@ -554,12 +554,7 @@ inline auto parse_u64_extra(const CollectionManifest &manifest,
     return fallback;
   }
   try {
-    size_t pos = 0;
-    const auto value = std::stoull(it->second, &pos);
-    if (pos != it->second.size()) {
-      throw std::out_of_range("not uint64");
-    }
-    return value;
+    return parse_uint64(it->second, key);
   } catch (const std::exception &e) {
     throw std::runtime_error("DiskCollection: invalid collection manifest " + key + "='" +
                              it->second + "': " + e.what());
-- 
2.43.0


From e4d2e06bd2957b53f35c4584ba6c9cc8a68ec58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:39 +0000
Subject: [PATCH 14/51] fix: read back every Vamana seed that can be written to
 the manifest

---
 include/index/disk/disk_collection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index 763e3c1..b632bb5 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -594,7 +594,7 @@ inline auto load_vamana_params_from_manifest(const CollectionManifest &manifest)
   params.R = parse_u32_extra(manifest, "x_vamana_R", params.R);
   params.L = parse_u32_extra(manifest, "x_vamana_L", params.L);
   params.alpha = parse_float_extra(manifest, "x_vamana_alpha", params.alpha);
-  params.seed = parse_u32_extra(manifest, "x_vamana_seed", static_cast<uint32_t>(params.seed));
+  params.seed = parse_u64_extra(manifest, "x_vamana_seed", params.seed);
   params.num_threads = parse_u32_extra(manifest, "x_vamana_num_threads", params.num_threads);
   return params;
 }
-- 
2.43.0


From 1f6c6a188f0616861ac2f86317e76c123cda3094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 15/51] fix: store floating point manifest values without
 losing digits

---
 include/index/disk/disk_collection.hpp        | 6 +++++-
 include/index/disk/laser_segment_importer.hpp | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index b632bb5..d20477b 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -21,6 +21,7 @@
 #include <mutex>
 #include <optional>
 #include <set>
+#include <sstream>
 #include <stdexcept>
 #include <string>
 #include <thread>
@@ -628,7 +629,10 @@ inline auto store_vamana_params_in_manifest(CollectionManifest &manifest,
                                             const VamanaSegmentBuildParams &params) -> void {
   manifest.x_extras["x_vamana_R"] = std::to_string(params.R);
   manifest.x_extras["x_vamana_L"] = std::to_string(params.L);
-  manifest.x_extras["x_vamana_alpha"] = std::to_string(params.alpha);
+  std::ostringstream alpha;
+  alpha.precision(std::numeric_limits<float>::max_digits10);
+  alpha << params.alpha;
+  manifest.x_extras["x_vamana_alpha"] = alpha.str();
   manifest.x_extras["x_vamana_seed"] = std::to_string(params.seed);
   manifest.x_extras["x_vamana_num_threads"] = std::to_string(params.num_threads);
 }
diff --git a/include/index/disk/laser_segment_importer.hpp b/include/index/disk/laser_segment_importer.hpp
index 4225d63..9f93d98 100644
--- a/include/index/disk/laser_segment_importer.hpp
+++ b/include/index/disk/laser_segment_importer.hpp
@@ -81,6 +81,7 @@ inline auto metric_name(MetricType metric) -> std::string {
 
 inline auto format_float(float value) -> std::string {
   std::ostringstream out;
+  out.precision(std::numeric_limits<float>::max_digits10);
   out << value;
   return out.str();
 }
-- 
2.43.0


From 89373385d312ddb3473b52eba509b4c2f7370ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 16/51] fix: reject collection and index names that leave the
 client's data directory

---
 python/src/alayalite/client.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python/src/alayalite/client.py b/python/src/alayalite/client.py
index eaa155c..dca53d4 100644
--- a/python/src/alayalite/client.py
+++ b/python/src/alayalite/client.py
@@ -20,6 +20,12 @@ __all__ = ["Client"]
 logger = logging.getLogger(__name__)
 
 
+def _validate_name(name: str) -> None:
+    """Reject names that do not denote a direct child of the client's data directory."""
+    if not name or name in (os.curdir, os.pardir) or os.path.basename(name) != name or "\0" in name:
+        raise ValueError(f"Invalid collection or index name: {name!r}")
+
+
 class Client:
     """
     Client manages collections and indices. This class provides methods for
@@ -129,7 +135,9 @@ class Client:
 
         Raises:
             RuntimeError: If a collection or index with the same name already exists.
+            ValueError: If the name could denote a path outside the client's data directory.
         """
+        _validate_name(name)
         if name in self.__collection_map or name in self.__index_map:
             raise RuntimeError(f"A collection or index with name '{name}' already exists")
 
@@ -153,7 +161,9 @@ class Client:
 
         Raises:
             RuntimeError: If a collection or index with the same name already exists.
+            ValueError: If the name could denote a path outside the client's data directory.
         """
+        _validate_name(name)
         if name in self.__collection_map or name in self.__index_map:
             raise RuntimeError(f"A collection or index with name '{name}' already exists")
 
-- 
2.43.0


From c88b128df7cd15ff6f1043ca487b36004ac486fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 17/51] fix: combine $or with the other entries of a filter
 dictionary by AND

---
 python/src/alayalite/collection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/src/alayalite/collection.py b/python/src/alayalite/collection.py
index 8f87de4..8fccac6 100644
--- a/python/src/alayalite/collection.py
+++ b/python/src/alayalite/collection.py
@@ -473,10 +473,13 @@ class Collection:
                     sub_filter = self._build_filter(sub_dict)
                     mf.add_sub_filter(sub_filter)
             elif key == "$or":
-                mf.logic_op = _LogicOp.OR
+                # Nested, so that the other entries of this dict are still combined with AND.
+                or_filter = _MetadataFilter()
+                or_filter.logic_op = _LogicOp.OR
                 for sub_dict in value:
                     sub_filter = self._build_filter(sub_dict)
-                    mf.add_sub_filter(sub_filter)
+                    or_filter.add_sub_filter(sub_filter)
+                mf.add_sub_filter(or_filter)
             elif isinstance(value, dict):
                 for op, op_value in value.items():
                     # TODO(review - filter DSL parity): expose `$ne`, `$not_in`, and `$contains`
-- 
2.43.0


From e037ac6ebcc48898a23e0695b144e969755aed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 18/51] fix: field index lookups return only exact matches of
 the field and value

---
 include/storage/rocksdb_storage.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/storage/rocksdb_storage.hpp b/include/storage/rocksdb_storage.hpp
index d66f57a..cc02dc7 100644
--- a/include/storage/rocksdb_storage.hpp
+++ b/include/storage/rocksdb_storage.hpp
@@ -561,6 +561,10 @@ class RocksDBStorage {
       if (!key.starts_with(prefix)) {
         break;
       }
+      // A longer value that continues with '_' has the same prefix
+      if (key.rfind('_') + 1 != prefix.size()) {
+        continue;
+      }
       IDType id = index_encoding::extract_id_from_key<IDType>(key);
       ids.push_back(id);
     }
@@ -601,7 +605,8 @@ class RocksDBStorage {
       // Extract encoded value and check range
       auto value_start = field_prefix.size() + 2;
       auto value_end = key.rfind('_');
-      if (value_end == std::string::npos || value_end <= value_start) {
+      // A field whose name continues with the type tag has the same prefix but no plain number here
+      if (value_end == std::string::npos || value_end != value_start + end_encoded.size()) {
         continue;
       }
       std::string encoded_value = key.substr(value_start, value_end - value_start);
@@ -645,7 +650,8 @@ class RocksDBStorage {
       }
       auto value_start = field_prefix.size() + 2;
       auto value_end = key.rfind('_');
-      if (value_end == std::string::npos || value_end <= value_start) {
+      // A field whose name continues with the type tag has the same prefix but no plain number here
+      if (value_end == std::string::npos || value_end != value_start + end_encoded.size()) {
         continue;
       }
       std::string encoded_value = key.substr(value_start, value_end - value_start);
-- 
2.43.0


From 222893bd8696808abe7ea826b5dd8474362e448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 19/51] fix: field index agrees with evaluation on infinities
 and negative zero

---
 include/utils/index_encoding.hpp          |  3 +++
 include/utils/metadata_filter_matcher.hpp | 24 ++++++++++++-----------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/utils/index_encoding.hpp b/include/utils/index_encoding.hpp
index 250a75a..1070c31 100644
--- a/include/utils/index_encoding.hpp
+++ b/include/utils/index_encoding.hpp
@@ -51,6 +51,9 @@ inline auto decode_int64(const std::string &s) -> int64_t {
 inline auto encode_double(double value) -> std::string {
   uint64_t bits;
   std::memcpy(&bits, &value, sizeof(bits));
+  if ((bits << 1) == 0U) {
+    bits = 0;  // -0.0 is equal to 0.0
+  }
   if ((bits >> 63) != 0U) {
     bits = ~bits;  // Negative: flip all bits
   } else {
diff --git a/include/utils/metadata_filter_matcher.hpp b/include/utils/metadata_filter_matcher.hpp
index b374b53..afdb416 100644
--- a/include/utils/metadata_filter_matcher.hpp
+++ b/include/utils/metadata_filter_matcher.hpp
@@ -16,6 +16,7 @@
 #include <vector>
 
 #include "storage/rocksdb_storage.hpp"
+#include "utils/index_encoding.hpp"
 #include "utils/metadata_filter.hpp"
 #include "utils/query_utils.hpp"
 #include "utils/scalar_data.hpp"
@@ -196,7 +197,7 @@ class MetadataFilterExecutor {
         if (std::holds_alternative<double>(cond.value)) {
           return storage_->get_ids_by_double_range(cond.field,
                                                    std::get<double>(cond.value),
-                                                   std::numeric_limits<double>::max());
+                                                   std::numeric_limits<double>::infinity());
         }
         return std::nullopt;
       case FilterOp::GT:
@@ -211,10 +212,11 @@ class MetadataFilterExecutor {
         }
         if (std::holds_alternative<double>(cond.value)) {
           auto value = std::get<double>(cond.value);
-          return storage_
-              ->get_ids_by_double_range(cond.field,
-                                        std::nextafter(value, std::numeric_limits<double>::max()),
-                                        std::numeric_limits<double>::max());
+          constexpr auto kInf = std::numeric_limits<double>::infinity();
+          if (index_encoding::encode_double(value) == index_encoding::encode_double(kInf)) {
+            return std::vector<IDType>{};
+          }
+          return storage_->get_ids_by_double_range(cond.field, std::nextafter(value, kInf), kInf);
         }
         return std::nullopt;
       case FilterOp::LE:
@@ -225,7 +227,7 @@ class MetadataFilterExecutor {
         }
         if (std::holds_alternative<double>(cond.value)) {
           return storage_->get_ids_by_double_range(cond.field,
-                                                   std::numeric_limits<double>::lowest(),
+                                                   -std::numeric_limits<double>::infinity(),
                                                    std::get<double>(cond.value));
         }
         return std::nullopt;
@@ -241,11 +243,11 @@ class MetadataFilterExecutor {
         }
         if (std::holds_alternative<double>(cond.value)) {
           auto value = std::get<double>(cond.value);
-          return storage_
-              ->get_ids_by_double_range(cond.field,
-                                        std::numeric_limits<double>::lowest(),
-                                        std::nextafter(value,
-                                                       std::numeric_limits<double>::lowest()));
+          constexpr auto kInf = std::numeric_limits<double>::infinity();
+          if (index_encoding::encode_double(value) == index_encoding::encode_double(-kInf)) {
+            return std::vector<IDType>{};
+          }
+          return storage_->get_ids_by_double_range(cond.field, -kInf, std::nextafter(value, -kInf));
         }
         return std::nullopt;
       default:
-- 
2.43.0


From c302e550eb1ae2304b4e2702d5f8304009f7b006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 20/51] fix: a NaN in metadata no longer satisfies equality and
 range filters

---
 include/utils/metadata_filter.hpp         | 38 +++++++++++++++++++----
 include/utils/metadata_filter_matcher.hpp |  4 +++
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/include/utils/metadata_filter.hpp b/include/utils/metadata_filter.hpp
index 876d061..d54bef5 100644
--- a/include/utils/metadata_filter.hpp
+++ b/include/utils/metadata_filter.hpp
@@ -5,6 +5,8 @@
 #pragma once
 
 #include <algorithm>
+#include <bit>
+#include <cstdint>
 #include <memory>
 #include <optional>
 #include <string>
@@ -63,9 +65,9 @@ struct FilterCondition {
 
     switch (op) {
       case FilterOp::EQ:
-        return actual == value;
+        return equals(actual, value);
       case FilterOp::NE:
-        return actual != value;
+        return !equals(actual, value);
       case FilterOp::GT: {
         auto cmp = compare(actual, value);
         return cmp.has_value() && *cmp > 0;
@@ -83,9 +85,9 @@ struct FilterCondition {
         return cmp.has_value() && *cmp <= 0;
       }
       case FilterOp::IN_SET:
-        return std::find(values.begin(), values.end(), actual) != values.end();
+        return is_listed(actual);
       case FilterOp::NOT_IN_SET:
-        return std::find(values.begin(), values.end(), actual) == values.end();
+        return !is_listed(actual);
       case FilterOp::CONTAINS:
         return contains_string(actual, value);
       default:
@@ -93,14 +95,38 @@ struct FilterCondition {
     }
   }
 
+  /**
+   * @brief Check if a value is a NaN
+   *
+   * Decided on the bits: fast-math builds assume that no NaN takes part in a comparison.
+   */
+  static auto is_nan(const MetadataValue &v) -> bool {
+    constexpr uint64_t kInfBitsWithoutSign = 0xffe0000000000000ULL;
+    return std::holds_alternative<double>(v) &&
+           (std::bit_cast<uint64_t>(std::get<double>(v)) << 1) > kInfBitsWithoutSign;
+  }
+
  private:
+  /**
+   * @brief Check two MetadataValue objects for equality; a NaN equals nothing
+   */
+  static auto equals(const MetadataValue &a, const MetadataValue &b) -> bool {
+    return !is_nan(a) && !is_nan(b) && a == b;
+  }
+
+  [[nodiscard]] auto is_listed(const MetadataValue &actual) const -> bool {
+    return std::any_of(values.begin(), values.end(), [&actual](const MetadataValue &listed) {
+      return equals(actual, listed);
+    });
+  }
+
   /**
    * @brief Compare two MetadataValue objects
    * @return -1 if a < b, 0 if a == b, 1 if a > b
    */
   static auto compare(const MetadataValue &a, const MetadataValue &b) -> std::optional<int> {
-    // Type mismatch: cannot compare
-    if (a.index() != b.index()) {
+    // Type mismatch or unordered: cannot compare
+    if (a.index() != b.index() || is_nan(a) || is_nan(b)) {
       return std::nullopt;
     }
 
diff --git a/include/utils/metadata_filter_matcher.hpp b/include/utils/metadata_filter_matcher.hpp
index afdb416..ada52f4 100644
--- a/include/utils/metadata_filter_matcher.hpp
+++ b/include/utils/metadata_filter_matcher.hpp
@@ -174,6 +174,10 @@ class MetadataFilterExecutor {
     if (!is_indexed_field(cond.field)) {
       return std::nullopt;
     }
+    if (FilterCondition::is_nan(cond.value) ||
+        std::any_of(cond.values.begin(), cond.values.end(), FilterCondition::is_nan)) {
+      return std::nullopt;  // The index stores NaN under a key of its own, but it equals nothing.
+    }
 
     std::vector<IDType> ids;
     switch (cond.op) {
-- 
2.43.0


From f5df09b9394a199991e8939a78e7355eac47e13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:05 +0000
Subject: [PATCH 21/51] fix: the LASER segment searcher rejects non-finite
 queries like the other engines

---
 include/index/disk/laser_segment_searcher.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/index/disk/laser_segment_searcher.hpp b/include/index/disk/laser_segment_searcher.hpp
index 457e5cf..aa74904 100644
--- a/include/index/disk/laser_segment_searcher.hpp
+++ b/include/index/disk/laser_segment_searcher.hpp
@@ -103,6 +103,11 @@ inline auto laser_parse_float_extra_default(const SegmentManifest &manifest,
   }
 }
 
+// Bit-pattern test: -Ofast folds std::isfinite to true.
+inline auto laser_is_finite_f32(float value) -> bool {
+  return (std::bit_cast<uint32_t>(value) & 0x7F800000U) != 0x7F800000U;
+}
+
 inline auto laser_compute_expected_ids_bytes(uint64_t count, const std::filesystem::path &seg_dir)
     -> uint64_t {
   uint64_t bytes = 0;
@@ -306,6 +311,12 @@ class LaserSegmentSearcher : public SegmentSearcher {
     if (query == nullptr) {
       throw std::invalid_argument("LaserSegmentSearcher: query must not be null");
     }
+    for (uint64_t c = 0; c < manifest_.dim; ++c) {
+      if (!detail::laser_is_finite_f32(query[c])) {
+        throw std::invalid_argument("LaserSegmentSearcher: non-finite query component at position " +
+                                    std::to_string(c));
+      }
+    }
     if (opts.beam_width > static_cast<uint32_t>(std::numeric_limits<int>::max())) {
       throw std::invalid_argument("LaserSegmentSearcher: beam_width exceeds int max");
     }
-- 
2.43.0


From edbe3d738405e03cc1b17474dbe5a4cd71858fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:05 +0000
Subject: [PATCH 22/51] fix: NaN distances are ordered by bit pattern, not by a
 test that fast-math folds away

---
 include/index/disk/disk_collection.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index d20477b..e7ec8de 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -653,9 +653,10 @@ inline auto load_max_pending_bytes_from_manifest(const CollectionManifest &manif
   return static_cast<size_t>(value);
 }
 
+// Bit-pattern NaN test: -Ofast folds std::isnan to false.
 inline auto disk_search_distance_less(float a, float b) -> bool {
-  const bool a_nan = std::isnan(a);
-  const bool b_nan = std::isnan(b);
+  const bool a_nan = is_nan_f32(a);
+  const bool b_nan = is_nan_f32(b);
   if (a_nan || b_nan) {
     return !a_nan && b_nan;
   }
@@ -663,7 +664,12 @@ inline auto disk_search_distance_less(float a, float b) -> bool {
 }
 
 inline auto disk_search_distance_equal_for_order(float a, float b) -> bool {
-  return (std::isnan(a) && std::isnan(b)) || a == b;
+  const bool a_nan = is_nan_f32(a);
+  const bool b_nan = is_nan_f32(b);
+  if (a_nan || b_nan) {
+    return a_nan && b_nan;
+  }
+  return a == b;
 }
 
 }  // namespace detail
-- 
2.43.0


From 60469db2c8612652828dc78e7c32526290e57dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:56 +0000
Subject: [PATCH 23/51] fix: DiskANN artifact writers flush before they report
 success

---
 include/index/graph/diskann/diskann_index.hpp    | 2 ++
 include/index/graph/diskann/node_cache.hpp       | 2 ++
 include/index/graph/diskann/pq_table.hpp         | 2 ++
 include/index/graph/diskann/slot_allocator.hpp   | 1 +
 include/index/graph/diskann/tombstone_bitmap.hpp | 1 +
 5 files changed, 8 insertions(+)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index c4cde0f..a4ee826 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -2251,6 +2251,7 @@ class DiskANNIndex {
     w(&m.nodes_per_sector, sizeof(m.nodes_per_sector));
     w(&m.max_slot_id, sizeof(m.max_slot_id));  // v2
     w(&m.live_count, sizeof(m.live_count));    // v2
+    out.flush();
     if (!out) {
       throw std::runtime_error("DiskANNIndex: meta write failed " + p);
     }
@@ -2310,6 +2311,7 @@ class DiskANNIndex {
     out.write(reinterpret_cast<const char *>(&n), sizeof(n));
     out.write(reinterpret_cast<const char *>(labels),
               static_cast<std::streamsize>(n * sizeof(uint64_t)));
+    out.flush();
     if (!out) {
       throw std::runtime_error("DiskANNIndex: ids write failed " + p);
     }
diff --git a/include/index/graph/diskann/node_cache.hpp b/include/index/graph/diskann/node_cache.hpp
index 403dd83..6ca442f 100644
--- a/include/index/graph/diskann/node_cache.hpp
+++ b/include/index/graph/diskann/node_cache.hpp
@@ -169,6 +169,7 @@ class NodeCache {
         out.write(reinterpret_cast<const char *>(ids.data()),
                   static_cast<std::streamsize>(count * sizeof(uint32_t)));
       }
+      out.flush();
       if (!out) {
         throw std::runtime_error("NodeCache::save: write failed for " + ids_path);
       }
@@ -189,6 +190,7 @@ class NodeCache {
         }
         out.write(record, static_cast<std::streamsize>(node_len_));
       }
+      out.flush();
       if (!out) {
         throw std::runtime_error("NodeCache::save: write failed for " + nodes_path);
       }
diff --git a/include/index/graph/diskann/pq_table.hpp b/include/index/graph/diskann/pq_table.hpp
index e31dff8..a2d401b 100644
--- a/include/index/graph/diskann/pq_table.hpp
+++ b/include/index/graph/diskann/pq_table.hpp
@@ -380,6 +380,7 @@ class PQTable {
                 static_cast<std::streamsize>(global_centroid_.size() * sizeof(float)));
       out.write(reinterpret_cast<const char *>(codebook_.data()),
                 static_cast<std::streamsize>(codebook_.size() * sizeof(float)));
+      out.flush();
       if (!out) {
         throw std::runtime_error("PQTable::save: write failed for " + pivots_path);
       }
@@ -391,6 +392,7 @@ class PQTable {
       }
       out.write(reinterpret_cast<const char *>(codes_.data()),
                 static_cast<std::streamsize>(codes_.size()));
+      out.flush();
       if (!out) {
         throw std::runtime_error("PQTable::save: write failed for " + compressed_path);
       }
diff --git a/include/index/graph/diskann/slot_allocator.hpp b/include/index/graph/diskann/slot_allocator.hpp
index 1926593..b9fc5ee 100644
--- a/include/index/graph/diskann/slot_allocator.hpp
+++ b/include/index/graph/diskann/slot_allocator.hpp
@@ -103,6 +103,7 @@ class SlotAllocator {
                 static_cast<std::streamsize>(n_free * sizeof(uint32_t)));
     }
     tombstone_.serialize(out);
+    out.flush();
     if (!out) {
       throw std::runtime_error("SlotAllocator::save: write failed " + path);
     }
diff --git a/include/index/graph/diskann/tombstone_bitmap.hpp b/include/index/graph/diskann/tombstone_bitmap.hpp
index 9cf8904..e698b03 100644
--- a/include/index/graph/diskann/tombstone_bitmap.hpp
+++ b/include/index/graph/diskann/tombstone_bitmap.hpp
@@ -221,6 +221,7 @@ class TombstoneBitmap {
       throw std::runtime_error("TombstoneBitmap::save: cannot open " + path);
     }
     serialize(out);
+    out.flush();
     if (!out) {
       throw std::runtime_error("TombstoneBitmap::save: write failed " + path);
     }
-- 
2.43.0


From 9903badad917cfc74bd3e3d70fe5ddbea8d2c709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:56 +0000
Subject: [PATCH 24/51] fix: LASER loaders and builder detect short reads and
 failed writes

---
 include/index/graph/laser/qg/qg.hpp           | 31 ++++++++++++++++++-
 include/index/graph/laser/qg/qg_builder.hpp   | 20 +++++++++++-
 .../index/graph/laser/utils/freq_relayout.hpp | 12 +++++++
 .../index/graph/laser/utils/pca_transform.hpp | 12 +++++++
 include/index/graph/laser/utils/rotator.hpp   |  1 +
 5 files changed, 74 insertions(+), 2 deletions(-)

diff --git a/include/index/graph/laser/qg/qg.hpp b/include/index/graph/laser/qg/qg.hpp
index 7aec188..f438edd 100644
--- a/include/index/graph/laser/qg/qg.hpp
+++ b/include/index/graph/laser/qg/qg.hpp
@@ -857,6 +857,10 @@ inline void QuantizedGraph::load_disk_index(const char *filename, float search_D
 
   std::vector<uint64_t> metas(kSectorLen / sizeof(uint64_t), 0);
   input.read(reinterpret_cast<char *>(metas.data()), kSectorLen);
+  if (!input) {
+    throw std::runtime_error("QuantizedGraph::load_disk_index: truncated header: " +
+                             index_file_name_);
+  }
 
   assert(metas[0] == num_points_);
   assert(metas[1] == dimension_);
@@ -870,6 +874,10 @@ inline void QuantizedGraph::load_disk_index(const char *filename, float search_D
   std::ifstream rotator_input(rotator_path, std::ios::binary);
   assert(rotator_input.is_open());
   rotator_.load(rotator_input);
+  if (!rotator_input) {
+    throw std::runtime_error("QuantizedGraph::load_disk_index: cannot read rotator: " +
+                             rotator_path);
+  }
 
   init_workspace();
 
@@ -878,7 +886,10 @@ inline void QuantizedGraph::load_disk_index(const char *filename, float search_D
   // Load PCA parameters for online query transformation
   std::string pca_path = std::string(filename) + "_pca.bin";
   if (std::filesystem::exists(pca_path)) {
-    pca_transform_.load(pca_path);
+    if (!pca_transform_.load(pca_path)) {
+      throw std::runtime_error("QuantizedGraph::load_disk_index: cannot read PCA parameters: " +
+                               pca_path);
+    }
   } else {
     std::cerr << "Warning: PCA file not found: " << pca_path << std::endl;
   }
@@ -914,9 +925,15 @@ inline void QuantizedGraph::load_medoids(const char *filename) {
   int tmp;
   medoid_input.read(reinterpret_cast<char *>(&medoid_num), sizeof(int));
   medoid_input.read(reinterpret_cast<char *>(&tmp), sizeof(int));
+  if (!medoid_input) {
+    throw std::runtime_error("QuantizedGraph::load_medoids: truncated medoid indices file");
+  }
   medoids_.resize(static_cast<uint64_t>(medoid_num) * static_cast<uint64_t>(tmp));
   medoid_input.read(reinterpret_cast<char *>(medoids_.data()),
                     static_cast<std::streamsize>(sizeof(int) * medoid_num * tmp));
+  if (!medoid_input) {
+    throw std::runtime_error("QuantizedGraph::load_medoids: truncated medoid indices file");
+  }
   medoid_input.close();
 
   std::ifstream mediod_vector_input(medoids_file, std::ios::binary);
@@ -924,6 +941,9 @@ inline void QuantizedGraph::load_medoids(const char *filename) {
   int dim = 0;
   mediod_vector_input.read(reinterpret_cast<char *>(&medoid_num), sizeof(int));
   mediod_vector_input.read(reinterpret_cast<char *>(&dim), sizeof(int));
+  if (!mediod_vector_input) {
+    throw std::runtime_error("QuantizedGraph::load_medoids: truncated medoid vectors file");
+  }
   if (medoid_num != static_cast<int>(medoids_.size())) {
     throw std::runtime_error(
         "QuantizedGraph::load_medoids: medoid count mismatch between indices and vectors file");
@@ -936,6 +956,9 @@ inline void QuantizedGraph::load_medoids(const char *filename) {
   mediod_vector_input.read(reinterpret_cast<char *>(medoids_vector_.data()),
                            static_cast<std::streamsize>(sizeof(float) * medoid_num *
                                                         (dimension_ + residual_dimension_)));
+  if (!mediod_vector_input) {
+    throw std::runtime_error("QuantizedGraph::load_medoids: truncated medoid vectors file");
+  }
   mediod_vector_input.close();
 }
 
@@ -952,6 +975,9 @@ inline void QuantizedGraph::load_cache(std::string &cache_ids_file,
   cache_ids_input.read(reinterpret_cast<char *>(&cache_ids_num), sizeof(size_t));
   cache_vectors_input.read(reinterpret_cast<char *>(&cache_nodes_num), sizeof(size_t));
   cache_vectors_input.read(reinterpret_cast<char *>(&tmp_node_len), sizeof(size_t));
+  if (!cache_ids_input || !cache_vectors_input) {
+    throw std::runtime_error("QuantizedGraph::load_cache: truncated cache file header");
+  }
   online_cache_num = std::min(online_cache_num, std::min(cache_ids_num, cache_nodes_num));
   std::cout << "online_cache_num: " << online_cache_num << std::endl;
   cache_ids_.resize(online_cache_num);
@@ -962,6 +988,9 @@ inline void QuantizedGraph::load_cache(std::string &cache_ids_file,
   cache_vectors_input.read(reinterpret_cast<char *>(cache_nodes_.data()),
                            static_cast<std::streamsize>(sizeof(char) * online_cache_num *
                                                         node_len_));
+  if (!cache_ids_input || !cache_vectors_input) {
+    throw std::runtime_error("QuantizedGraph::load_cache: truncated cache file");
+  }
   for (unsigned i = 0; i < cache_ids_.size(); i++) {
     PID cur_id = cache_ids_[i];
     caches_[cur_id] = cache_nodes_.data() + i * node_len_;
diff --git a/include/index/graph/laser/qg/qg_builder.hpp b/include/index/graph/laser/qg/qg_builder.hpp
index 332cd34..9e81bb1 100644
--- a/include/index/graph/laser/qg/qg_builder.hpp
+++ b/include/index/graph/laser/qg/qg_builder.hpp
@@ -233,8 +233,14 @@ class QGBuilder {
       tmp_output.write(buffer.data(), static_cast<std::streamsize>(vector_tmp_page_size));
     }
 
-    vector_input.close();
     tmp_output.close();
+    if (!vector_input) {
+      throw std::runtime_error("QGBuilder::build: short read from " + data_path);
+    }
+    if (!tmp_output) {
+      throw std::runtime_error("QGBuilder::build: write failed on " + tmp_path);
+    }
+    vector_input.close();
 
     // ==================== PHASE 2: Parallel Out-of-Core Index Construction ====================
     // Open the aligned vector file for direct I/O (bypasses page cache)
@@ -343,6 +349,9 @@ class QGBuilder {
     vector_reader->deregister_all_threads();
     vector_reader->close();
     output.close();
+    if (!output) {
+      throw std::runtime_error("QGBuilder::build: write failed on " + index_path);
+    }
 
     // ==================== Save Rotation Matrix ====================
     // The Fast Hadamard Transform rotation matrix is small and saved separately
@@ -351,6 +360,9 @@ class QGBuilder {
     assert(rotator_output.is_open());
     qg_.rotator_.save(rotator_output);
     rotator_output.close();
+    if (!rotator_output) {
+      throw std::runtime_error("QGBuilder::build: write failed on " + rotator_path);
+    }
 
     // ==================== Cleanup Temporary File ====================
     // The sector-aligned temporary file is no longer needed
@@ -378,6 +390,9 @@ class QGBuilder {
     cache_ids_output.write(reinterpret_cast<const char *>(qg_.cache_ids_.data()),
                            static_cast<std::streamsize>(sizeof(PID) * cache_num));
     cache_ids_output.close();
+    if (!cache_ids_output) {
+      throw std::runtime_error("QGBuilder::build: write failed on " + cache_ids_file);
+    }
 
     // Write cache node data (extracted from the completed index)
     std::ofstream cache_vectors_output(cache_nodes_file, std::ios::binary);
@@ -418,6 +433,9 @@ class QGBuilder {
       }
     }
     cache_vectors_output.close();
+    if (!cache_vectors_output) {
+      throw std::runtime_error("QGBuilder::build: write failed on " + cache_nodes_file);
+    }
     cache_reader->deregister_all_threads();
     cache_reader->close();
     memory::align_free(cache_buffer);
diff --git a/include/index/graph/laser/utils/freq_relayout.hpp b/include/index/graph/laser/utils/freq_relayout.hpp
index 19fa846..220d874 100644
--- a/include/index/graph/laser/utils/freq_relayout.hpp
+++ b/include/index/graph/laser/utils/freq_relayout.hpp
@@ -20,6 +20,9 @@ inline void read_freq(std::vector<puu> &freq_list,
   std::cout << "read visited neighbors information: " << freq_file << std::endl;
   unsigned num = 0;
   reader.read(reinterpret_cast<char *>(&num), 4);
+  if (!reader) {
+    throw std::runtime_error("read_freq: cannot read " + freq_file);
+  }
   freq_list.clear();
   freq_list.reserve(num);
   freq_nei_list.clear();
@@ -28,6 +31,9 @@ inline void read_freq(std::vector<puu> &freq_list,
   for (size_t i = 0; i < num; i++) {
     unsigned v_freq = 0;
     reader.read(reinterpret_cast<char *>(&v_freq), sizeof(unsigned));
+    if (!reader) {
+      throw std::runtime_error("read_freq: truncated " + freq_file);
+    }
     freq_list.emplace_back(i, v_freq);
   }
   std::sort(freq_list.begin(), freq_list.end(), [](puu &left, puu &right) -> bool {
@@ -35,12 +41,18 @@ inline void read_freq(std::vector<puu> &freq_list,
   });
   for (size_t i = 0; i < num; i++) {
     reader.read(reinterpret_cast<char *>(&n_size), sizeof(unsigned));
+    if (!reader) {
+      throw std::runtime_error("read_freq: truncated " + freq_file);
+    }
     freq_nei_list[i].reserve(n_size);
     for (size_t j = 0; j < n_size; j++) {
       unsigned nbr_id;
       unsigned visit_nbr_id_freq;
       reader.read(reinterpret_cast<char *>(&nbr_id), sizeof(unsigned));
       reader.read(reinterpret_cast<char *>(&visit_nbr_id_freq), sizeof(unsigned));
+      if (!reader) {
+        throw std::runtime_error("read_freq: truncated " + freq_file);
+      }
       freq_nei_list[i].emplace_back(nbr_id, visit_nbr_id_freq);
     }
   }
diff --git a/include/index/graph/laser/utils/pca_transform.hpp b/include/index/graph/laser/utils/pca_transform.hpp
index 389a2c5..0c37417 100644
--- a/include/index/graph/laser/utils/pca_transform.hpp
+++ b/include/index/graph/laser/utils/pca_transform.hpp
@@ -103,6 +103,10 @@ class PCATransform {
     // Read dimension
     uint64_t dim;
     input.read(reinterpret_cast<char *>(&dim), sizeof(uint64_t));
+    if (!input) {
+      std::cerr << "PCATransform: Truncated file " << filename << std::endl;
+      return false;
+    }
     input_dim_ = static_cast<size_t>(dim);
     output_dim_ = input_dim_;  // Orthogonal transformation
 
@@ -118,6 +122,10 @@ class PCATransform {
     input.read(reinterpret_cast<char *>(pca_matrix_.data()),
                static_cast<std::streamsize>(sizeof(float) * output_dim_ * input_dim_));
 
+    if (!input) {
+      std::cerr << "PCATransform: Truncated file " << filename << std::endl;
+      return false;
+    }
     input.close();
     loaded_ = true;
 
@@ -150,6 +158,10 @@ class PCATransform {
                  static_cast<std::streamsize>(sizeof(float) * output_dim_ * input_dim_));
 
     output.close();
+    if (!output) {
+      std::cerr << "PCATransform: Write failed on " << filename << std::endl;
+      return false;
+    }
     return true;
   }
 
diff --git a/include/index/graph/laser/utils/rotator.hpp b/include/index/graph/laser/utils/rotator.hpp
index c997263..4048c8e 100644
--- a/include/index/graph/laser/utils/rotator.hpp
+++ b/include/index/graph/laser/utils/rotator.hpp
@@ -169,6 +169,7 @@ class FHTRotator {
       const float v = mat_.at(i);
       out.write(reinterpret_cast<const char *>(&v), sizeof(float));
     }
+    out.flush();
     if (!out) {
       throw std::runtime_error("FHTRotator::dump_signs: write failed on " + path);
     }
-- 
2.43.0


From 7ccca0c9bdcfa1f44c105a6c106a061489a885c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:56 +0000
Subject: [PATCH 25/51] fix: Vamana partition build detects short reads and
 late write failures

---
 include/index/graph/vamana/build_dispatch.hpp |  4 ++++
 include/index/graph/vamana/shard_merger.hpp   | 13 ++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/index/graph/vamana/build_dispatch.hpp b/include/index/graph/vamana/build_dispatch.hpp
index 986b56e..e51776c 100644
--- a/include/index/graph/vamana/build_dispatch.hpp
+++ b/include/index/graph/vamana/build_dispatch.hpp
@@ -196,6 +196,9 @@ inline void gen_random_slice(const std::string &path,
   for (uint32_t i = 0; i < num; ++i) {
     in.read(reinterpret_cast<char *>(buf.data()),
             static_cast<std::streamsize>(dim) * sizeof(float));
+    if (!in) {
+      throw std::runtime_error("gen_random_slice: truncated .fbin: " + path);
+    }
     if (u01(rng) < rate) {
       out.insert(out.end(), buf.begin(), buf.end());
       ++out_num;
@@ -332,6 +335,7 @@ inline void run_partition_merge(const BuildVamanaParams &args, uint32_t num, uin
     cf.write(reinterpret_cast<const char *>(pivots.data()),
              static_cast<std::streamsize>(num_parts) * static_cast<std::streamsize>(dim) *
                  sizeof(float));
+    cf.flush();
     if (!cf.good()) {
       throw std::runtime_error("write error on centroids file: " + centroids_path.string());
     }
diff --git a/include/index/graph/vamana/shard_merger.hpp b/include/index/graph/vamana/shard_merger.hpp
index 9ba43e3..635c841 100644
--- a/include/index/graph/vamana/shard_merger.hpp
+++ b/include/index/graph/vamana/shard_merger.hpp
@@ -87,6 +87,9 @@ inline uint32_t compute_medoid_streaming(const std::filesystem::path &fbin_path,
     const size_t cur = std::min(block_size, N - read_so_far);
     in.read(reinterpret_cast<char *>(buf.data()),
             static_cast<std::streamsize>(cur) * dim * sizeof(float));
+    if (!in) {
+      throw std::runtime_error("compute_medoid_streaming: truncated .fbin: " + fbin_path.string());
+    }
     for (size_t p = 0; p < cur; ++p) {
       const float *v = buf.data() + p * dim;
       for (uint32_t d = 0; d < dim; ++d) {
@@ -111,6 +114,9 @@ inline uint32_t compute_medoid_streaming(const std::filesystem::path &fbin_path,
     const size_t cur = std::min(block_size, N - read_so_far);
     in.read(reinterpret_cast<char *>(buf.data()),
             static_cast<std::streamsize>(cur) * dim * sizeof(float));
+    if (!in) {
+      throw std::runtime_error("compute_medoid_streaming: truncated .fbin: " + fbin_path.string());
+    }
 
     double local_best = std::numeric_limits<double>::max();
     uint32_t local_id = 0;
@@ -303,6 +309,10 @@ inline uint64_t merge_shards(const std::vector<std::filesystem::path> &shard_gra
         std::vector<uint32_t> local_nbrs(k);
         readers[s].read(reinterpret_cast<char *>(local_nbrs.data()),
                         static_cast<std::streamsize>(k) * sizeof(uint32_t));
+        if (!readers[s].good()) {
+          throw std::runtime_error("merge_shards: truncated neighbor list on shard " +
+                                   std::to_string(s));
+        }
         for (uint32_t lnb : local_nbrs) {
           if (lnb >= idmaps[s].size()) {
             throw std::runtime_error("merge_shards: out-of-range shard-local neighbor " +
@@ -338,10 +348,10 @@ inline uint64_t merge_shards(const std::vector<std::filesystem::path> &shard_gra
   // Patch the expected_file_size header.
   out.seekp(0, std::ios::beg);
   out.write(reinterpret_cast<const char *>(&expected_file_size), sizeof(uint64_t));
+  out.close();
   if (!out.good()) {
     throw std::runtime_error("merge_shards: write error on output");
   }
-  out.close();
 
   // DiskANN-format medoids file: uint32 nshards, uint32 1 (stride),
   // nshards × uint32 global_medoid. Path = `<output>_medoids.bin`,
@@ -359,6 +369,7 @@ inline uint64_t merge_shards(const std::vector<std::filesystem::path> &shard_gra
     mf.write(reinterpret_cast<const char *>(&one_stride), sizeof(uint32_t));
     mf.write(reinterpret_cast<const char *>(shard_medoids_global.data()),
              static_cast<std::streamsize>(nshards) * sizeof(uint32_t));
+    mf.flush();
     if (!mf.good()) {
       throw std::runtime_error("merge_shards: write error on " + medoids_path.string());
     }
-- 
2.43.0


From 9df2c6c322298bb78dbbcb29c58f82db2ffdab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:18 +0000
Subject: [PATCH 26/51] fix: LASER search and batched readers act on the result
 of asynchronous reads

---
 include/index/graph/laser/qg/qg.hpp           | 30 +++++++++++++++++--
 include/index/graph/laser/qg/qg_builder.hpp   | 18 +++++++++--
 .../graph/laser/utils/aligned_file_reader.hpp |  6 ++++
 .../laser/utils/threadpool_file_reader.hpp    | 22 ++++++++++++--
 4 files changed, 69 insertions(+), 7 deletions(-)

diff --git a/include/index/graph/laser/qg/qg.hpp b/include/index/graph/laser/qg/qg.hpp
index f438edd..d06b178 100644
--- a/include/index/graph/laser/qg/qg.hpp
+++ b/include/index/graph/laser/qg/qg.hpp
@@ -15,6 +15,7 @@
 #include <cstdint>
 #include <cstring>
 #include <deque>
+#include <exception>
 #include <filesystem>  // NOLINT(build/c++17)
 #include <fstream>
 #include <iomanip>
@@ -357,10 +358,21 @@ inline void QuantizedGraph::batch_search(const float *ALAYA_RESTRICT query,
                                          size_t num_queries) {
   const int64_t num_queries_signed = static_cast<int64_t>(num_queries);
   const int nthreads_signed = static_cast<int>(nthreads_);
+  std::exception_ptr error;
 #pragma omp parallel for schedule(dynamic) num_threads(nthreads_signed)
   for (int64_t ii = 0; ii < num_queries_signed; ++ii) {
     const size_t i = static_cast<size_t>(ii);
-    disk_search_qg(query + i * (dimension_ + residual_dimension_), knn, results + i * knn);
+    try {
+      disk_search_qg(query + i * (dimension_ + residual_dimension_), knn, results + i * knn);
+    } catch (...) {
+#pragma omp critical
+      if (!error) {
+        error = std::current_exception();
+      }
+    }
+  }
+  if (error) {
+    std::rethrow_exception(error);
   }
 }
 
@@ -507,7 +519,11 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
   // ==================== Node Processing Lambda ====================
   // This lambda processes a single node: computes exact distance to query,
   // scans neighbors using RaBitQ approximation, and updates search/result pools.
+  bool read_failed = false;
   auto process_node = [&](PID cur_node, float *cur_data) {
+    if (read_failed) {
+      return;
+    }
     // Scan neighbors and compute approximate distances using RaBitQ.
     // Also computes exact L2 distance from query to current node.
     float sqr_y = scan_neighbors(q_obj,
@@ -542,6 +558,9 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
             "disk_search_qg: I/O completion id not in ongoing_nodes "
             "(AlignedFileReader::poll_events returned an unexpected id)");
       }
+      if (evts[i].result != static_cast<int64_t>(page_size_)) {
+        read_failed = true;
+      }
       // Move from ongoing to prepared queue
       prepared_nodes.emplace_back(id, ongoing_nodes[id]);
       ongoing_nodes.erase(id);
@@ -557,7 +576,7 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
   // ==================== Main Search Loop ====================
   // Iteratively expand search frontier until no more candidates remain.
   // Uses beam search with adaptive width and pipelined I/O processing.
-  while (data.search_pool_.has_next()) {
+  while (!read_failed && data.search_pool_.has_next()) {
     frontier_read_reqs.clear();
     cache_nhoods.clear();
     size_t n_ops = 0;
@@ -674,11 +693,16 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
 
   // ==================== Copy Results and Cleanup ====================
   // Copy the k nearest neighbor IDs from result pool to output array
-  res_pool.copy_results(results);
+  if (!read_failed) {
+    res_pool.copy_results(results);
+  }
 
   // Return thread-local data to the concurrent queue for reuse by other threads
   thread_data_.push(data);
   thread_data_.push_notify_all();
+  if (read_failed) {
+    throw std::runtime_error("disk_search_qg: short/failed read from " + index_file_name_);
+  }
 }
 
 // scan a data row (including data vec and quantization codes for its neighbors)
diff --git a/include/index/graph/laser/qg/qg_builder.hpp b/include/index/graph/laser/qg/qg_builder.hpp
index 9e81bb1..c536dbe 100644
--- a/include/index/graph/laser/qg/qg_builder.hpp
+++ b/include/index/graph/laser/qg/qg_builder.hpp
@@ -10,6 +10,7 @@
 #include <cstdint>
 #include <cstdlib>
 #include <cstring>
+#include <exception>
 #include <functional>
 #include <iomanip>
 #include <iostream>
@@ -273,6 +274,7 @@ class QGBuilder {
     // Process all nodes in parallel with dynamic scheduling.
     // Each iteration processes ONE node: reads its neighbors, computes quantization, writes to
     // disk.
+    std::exception_ptr error;
     const int64_t qg_num_points_signed = static_cast<int64_t>(qg_.num_points_);
 #pragma omp parallel for schedule(dynamic)
     for (int64_t ii = 0; ii < qg_num_points_signed; ++ii) {
@@ -305,11 +307,20 @@ class QGBuilder {
       // Core processing: read vectors from disk, compute RaBitQ codes, prepare node data
       // This function reads the node's vector and all neighbor vectors via async I/O,
       // then computes quantization codes without holding vectors in memory permanently
-      qg_.update_qg_out_of_memory(i, new_neighbors_[i], *vector_reader, data);
+      bool updated = false;
+      try {
+        qg_.update_qg_out_of_memory(i, new_neighbors_[i], *vector_reader, data);
+        updated = true;
+      } catch (...) {
+#pragma omp critical
+        if (!error) {
+          error = std::current_exception();
+        }
+      }
 
       // Pack completed node bytes into the read-path page layout.
 #pragma omp critical
-      {
+      if (updated) {
         const size_t page_index = i / qg_.node_per_page_;
         const size_t slot = i % qg_.node_per_page_;
         auto assembler =
@@ -349,6 +360,9 @@ class QGBuilder {
     vector_reader->deregister_all_threads();
     vector_reader->close();
     output.close();
+    if (error) {
+      std::rethrow_exception(error);
+    }
     if (!output) {
       throw std::runtime_error("QGBuilder::build: write failed on " + index_path);
     }
diff --git a/include/index/graph/laser/utils/aligned_file_reader.hpp b/include/index/graph/laser/utils/aligned_file_reader.hpp
index 75bf21c..1d81732 100644
--- a/include/index/graph/laser/utils/aligned_file_reader.hpp
+++ b/include/index/graph/laser/utils/aligned_file_reader.hpp
@@ -266,6 +266,12 @@ inline void execute_io(io_context_t ctx,
       } else {
         // wait for the whole batch (drains partial deliveries after interrupts)
         io_getevents_exact(ctx, evts.data(), static_cast<int64_t>(n_ops), "LinuxAlignedFileReader");
+        for (const auto &evt : evts) {
+          if (static_cast<int64_t>(evt.res) != static_cast<int64_t>(evt.obj->u.c.nbytes)) {
+            throw std::runtime_error("LinuxAlignedFileReader: short/failed read, result=" +
+                                     std::to_string(static_cast<int64_t>(evt.res)));
+          }
+        }
         break;
       }
     }
diff --git a/include/index/graph/laser/utils/threadpool_file_reader.hpp b/include/index/graph/laser/utils/threadpool_file_reader.hpp
index d49e446..0be6d07 100644
--- a/include/index/graph/laser/utils/threadpool_file_reader.hpp
+++ b/include/index/graph/laser/utils/threadpool_file_reader.hpp
@@ -202,12 +202,30 @@ inline void ThreadPoolFileReader::read(std::vector<AlignedRead> &read_reqs,
     return;
   }
 
-  std::vector<AlignedReadEvent> ignored;
-  const int completed = get_events(ctx, submitted, ignored);
+  std::vector<AlignedReadEvent> events;
+  const int completed = get_events(ctx, submitted, events);
   if (completed != submitted) {
     throw std::runtime_error("ThreadPoolFileReader::read: completed " + std::to_string(completed) +
                              " reads, expected " + std::to_string(submitted));
   }
+  // Completions arrive in any order and ids may repeat, so compare the totals: no read can
+  // deliver more than it asked for.
+  int64_t expected = 0;
+  for (const auto &req : read_reqs) {
+    expected += static_cast<int64_t>(req.len);
+  }
+  int64_t delivered = 0;
+  for (const auto &event : events) {
+    if (event.result < 0) {
+      throw std::runtime_error("ThreadPoolFileReader::read: failed read, result=" +
+                               std::to_string(event.result));
+    }
+    delivered += event.result;
+  }
+  if (delivered != expected) {
+    throw std::runtime_error("ThreadPoolFileReader::read: short read, got " +
+                             std::to_string(delivered) + " of " + std::to_string(expected));
+  }
 }
 
 inline int ThreadPoolFileReader::submit_reqs(std::vector<AlignedRead> &read_reqs, IOContext &ctx) {
-- 
2.43.0


From 860ce37ade13c31d7f44f6c9600401aa677c1e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:16 +0000
Subject: [PATCH 27/51] fix: a failed RocksDB read is reported instead of being
 taken for a missing key

---
 include/storage/rocksdb_storage.hpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/storage/rocksdb_storage.hpp b/include/storage/rocksdb_storage.hpp
index cc02dc7..96bff43 100644
--- a/include/storage/rocksdb_storage.hpp
+++ b/include/storage/rocksdb_storage.hpp
@@ -451,7 +451,7 @@ class RocksDBStorage {
     std::string value;
     rocksdb::Status status = db_->Get(rocksdb::ReadOptions(), key, &value);
 
-    if (!status.ok() || value.size() != sizeof(IDType)) {
+    if (!found_or_throw(status) || value.size() != sizeof(IDType)) {
       return std::nullopt;
     }
 
@@ -756,6 +756,17 @@ class RocksDBStorage {
     }
   }
 
+  /// A read that failed is not a missing key: only NotFound means that nothing is stored.
+  static auto found_or_throw(const rocksdb::Status &status) -> bool {
+    if (status.ok()) {
+      return true;
+    }
+    if (!status.IsNotFound()) {
+      throw std::runtime_error("Failed to read from RocksDB: " + status.ToString());
+    }
+    return false;
+  }
+
   static constexpr auto data_key_prefix() -> std::string_view { return "d_"; }
 
   using UnsignedIDType = std::make_unsigned_t<IDType>;
@@ -803,7 +814,7 @@ class RocksDBStorage {
       -> bool {
     auto primary_key = data_key(id);
     rocksdb::Status status = db_->Get(rocksdb::ReadOptions(), primary_key, value);
-    if (status.ok()) {
+    if (found_or_throw(status)) {
       if (resolved_key != nullptr) {
         *resolved_key = std::move(primary_key);
       }
@@ -816,7 +827,7 @@ class RocksDBStorage {
     }
 
     status = db_->Get(rocksdb::ReadOptions(), fallback_key, value);
-    if (!status.ok()) {
+    if (!found_or_throw(status)) {
       return false;
     }
     if (resolved_key != nullptr) {
@@ -849,7 +860,7 @@ class RocksDBStorage {
     fallback_keys.reserve(ids.size());
 
     for (size_t i = 0; i < primary_statuses.size(); ++i) {
-      if (primary_statuses[i].ok()) {
+      if (found_or_throw(primary_statuses[i])) {
         results[i].found = true;
         results[i].value = std::move(primary_values[i]);
         results[i].resolved_key = primary_key_strings[i];
@@ -872,7 +883,7 @@ class RocksDBStorage {
     std::vector<std::string> fallback_values(fallback_keys.size());
     auto fallback_statuses = db_->MultiGet(rocksdb::ReadOptions(), fallback_keys, &fallback_values);
     for (size_t i = 0; i < fallback_statuses.size(); ++i) {
-      if (!fallback_statuses[i].ok()) {
+      if (!found_or_throw(fallback_statuses[i])) {
         continue;
       }
       auto result_index = fallback_indexes[i];
@@ -902,7 +913,7 @@ class RocksDBStorage {
     std::vector<std::string> values(item_ids.size());
     auto statuses = db_->MultiGet(rocksdb::ReadOptions(), keys, &values);
     for (size_t i = 0; i < statuses.size(); ++i) {
-      if (!statuses[i].ok() || values[i].size() != sizeof(IDType)) {
+      if (!found_or_throw(statuses[i]) || values[i].size() != sizeof(IDType)) {
         continue;
       }
       IDType owner_id;
@@ -984,7 +995,7 @@ class RocksDBStorage {
   void load_count() {
     std::string count_str;
     rocksdb::Status status = db_->Get(rocksdb::ReadOptions(), count_key(), &count_str);
-    if (status.ok() && count_str.size() == sizeof(size_t)) {
+    if (found_or_throw(status) && count_str.size() == sizeof(size_t)) {
       size_t count = 0;
       std::memcpy(&count, count_str.data(), sizeof(size_t));
       cached_count_.store(count);
-- 
2.43.0


From cba72055d093682423fcfd0e873a562ee453e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:16 +0000
Subject: [PATCH 28/51] fix: spaces take back a stored vector when its scalar
 record fails and report failed removals

---
 include/space/raw_space.hpp | 25 ++++++++++++++++++++-----
 include/space/sq4_space.hpp | 23 +++++++++++++++++------
 include/space/sq8_space.hpp | 23 +++++++++++++++++------
 3 files changed, 54 insertions(+), 17 deletions(-)

diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index b61149e..9b886fa 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -138,7 +138,9 @@ class RawSpace {
     }
     item_cnt_ = item_cnt;
     for (IDType i = 0; i < item_cnt_; ++i) {
-      data_storage_.insert(data + (i * dim_));
+      if (data_storage_.insert(data + (i * dim_)) == static_cast<IDType>(-1)) {
+        throw std::length_error("The space has no room for the data points");
+      }
     }
     if constexpr (has_scalar_data) {
       if (scalar_data == nullptr) {
@@ -163,11 +165,21 @@ class RawSpace {
    */
   auto insert(const DataType *data, const ScalarDataType *scalar_data = nullptr) -> IDType {
     auto id = data_storage_.insert(data);
+    if (id == static_cast<IDType>(-1)) {
+      return id;
+    }
     item_cnt_++;
     if constexpr (has_scalar_data) {
       if (scalar_data != nullptr && scalar_storage_ != nullptr) {
-        if (!scalar_storage_->insert(id, *scalar_data)) {
-          throw std::runtime_error("Failed to insert ScalarData");
+        try {
+          if (!scalar_storage_->insert(id, *scalar_data)) {
+            throw std::runtime_error("Failed to insert ScalarData");
+          }
+        } catch (...) {
+          // The ID stays used: item_cnt_ bounds every ID handed out, available or deleted.
+          data_storage_.remove(id);
+          delete_cnt_++;
+          throw;
         }
       }
     }
@@ -180,12 +192,15 @@ class RawSpace {
    * @param id the id of the data point to delete
    */
   auto remove(IDType id) -> IDType {
-    delete_cnt_++;
     if constexpr (has_scalar_data) {
       if (scalar_storage_ != nullptr) {
-        scalar_storage_->remove(id);
+        // A record without ScalarData has nothing to remove; a failed removal is an error.
+        if (!scalar_storage_->remove(id) && scalar_storage_->is_valid(id)) {
+          throw std::runtime_error("Failed to remove ScalarData");
+        }
       }
     }
+    delete_cnt_++;
     return data_storage_.remove(id);
   }
 
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index 3986f28..4f5dd79 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -136,6 +136,9 @@ class SQ4Space {
     quantizer_.fit(data, item_cnt);
     for (IDType i = 0; i < item_cnt; i++) {
       auto id = data_storage_.reserve();
+      if (id == static_cast<IDType>(-1)) {
+        throw std::length_error("The space has no room for the data points");
+      }
       quantizer_.encode(data + (i * dim_), data_storage_[id]);
     }
 
@@ -288,11 +291,16 @@ class SQ4Space {
     // Insert ScalarData with the same ID as vector
     if constexpr (has_scalar_data) {  // NOLINT
       if (scalar_data != nullptr && scalar_storage_ != nullptr) {
-        if (!scalar_storage_->insert(id, *scalar_data)) {
+        try {
+          if (!scalar_storage_->insert(id, *scalar_data)) {
+            throw std::runtime_error("Failed to insert ScalarData");
+          }
+        } catch (...) {
           LOG_ERROR("Failed to insert ScalarData for ID {}", id);
+          // The ID stays used: item_cnt_ bounds every ID handed out, available or deleted.
           data_storage_.remove(id);
-          item_cnt_--;
-          throw std::runtime_error("Failed to insert ScalarData");
+          delete_cnt_++;
+          throw;
         }
       }
     }
@@ -308,15 +316,18 @@ class SQ4Space {
    * @return IDType The ID of the deleted data point
    */
   auto remove(IDType id) -> IDType {
-    delete_cnt_++;
-
     // Remove ScalarData if present
     if constexpr (has_scalar_data) {  // NOLINT
       if (scalar_storage_ != nullptr) {
-        scalar_storage_->remove(id);
+        // A record without ScalarData has nothing to remove; a failed removal is an error.
+        if (!scalar_storage_->remove(id) && scalar_storage_->is_valid(id)) {
+          throw std::runtime_error("Failed to remove ScalarData");
+        }
       }
     }
 
+    delete_cnt_++;
+
     return data_storage_.remove(id);
   }
 
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index 7c22c49..9746907 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -135,6 +135,9 @@ class SQ8Space {
     quantizer_.fit(data, item_cnt);
     for (IDType i = 0; i < item_cnt; i++) {
       auto id = data_storage_.reserve();
+      if (id == static_cast<IDType>(-1)) {
+        throw std::length_error("The space has no room for the data points");
+      }
       quantizer_.encode(data + (i * dim_), data_storage_[id]);
     }
 
@@ -287,11 +290,16 @@ class SQ8Space {
     // Insert ScalarData with the same ID as vector
     if constexpr (has_scalar_data) {  // NOLINT
       if (scalar_data != nullptr && scalar_storage_ != nullptr) {
-        if (!scalar_storage_->insert(id, *scalar_data)) {
+        try {
+          if (!scalar_storage_->insert(id, *scalar_data)) {
+            throw std::runtime_error("Failed to insert ScalarData");
+          }
+        } catch (...) {
           LOG_ERROR("Failed to insert ScalarData for ID {}", id);
+          // The ID stays used: item_cnt_ bounds every ID handed out, available or deleted.
           data_storage_.remove(id);
-          item_cnt_--;
-          throw std::runtime_error("Failed to insert ScalarData");
+          delete_cnt_++;
+          throw;
         }
       }
     }
@@ -307,15 +315,18 @@ class SQ8Space {
    * @return IDType The ID of the deleted data point
    */
   auto remove(IDType id) -> IDType {
-    delete_cnt_++;
-
     // Remove ScalarData if present
     if constexpr (has_scalar_data) {  // NOLINT
       if (scalar_storage_ != nullptr) {
-        scalar_storage_->remove(id);
+        // A record without ScalarData has nothing to remove; a failed removal is an error.
+        if (!scalar_storage_->remove(id) && scalar_storage_->is_valid(id)) {
+          throw std::runtime_error("Failed to remove ScalarData");
+        }
       }
     }
 
+    delete_cnt_++;
+
     return data_storage_.remove(id);
   }
 
-- 
2.43.0


From 5402899dd2bbeb3a0d42ddd9b12feff1cd749f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:16 +0000
Subject: [PATCH 29/51] fix: graph insertion undoes all stored parts on failure
 and never links unfilled edges

---
 include/executor/jobs/graph_update_job.hpp | 54 ++++++++++++++--------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/include/executor/jobs/graph_update_job.hpp b/include/executor/jobs/graph_update_job.hpp
index 4cc9033..bf50d7c 100644
--- a/include/executor/jobs/graph_update_job.hpp
+++ b/include/executor/jobs/graph_update_job.hpp
@@ -66,13 +66,21 @@ class GraphUpdateJob {
       throw;
     }
 
-    for (IDType i = 0; i < search_size; i++) {
-      auto invert_node = search_results[i];
+    try {
+      for (IDType i = 0; i < search_size; i++) {
+        auto invert_node = search_results[i];
 
-      if (invert_node != static_cast<IDType>(-1)) {
-        job_context_->inserted_edges_[invert_node].push_back(node_id);
-        *(ids + i) = invert_node;
+        if (invert_node != static_cast<IDType>(-1)) {
+          job_context_->inserted_edges_[invert_node].push_back(node_id);
+          *(ids + i) = invert_node;
+        }
       }
+    } catch (...) {
+      for (auto &[nbr, inserted] : job_context_->inserted_edges_) {
+        std::erase(inserted, node_id);
+      }
+      remove(node_id);
+      throw;
     }
     return node_id;
   }
@@ -101,21 +109,31 @@ class GraphUpdateJob {
       throw;
     }
 
-    for (IDType i = 0; i < search_size; i++) {
-      auto invert_node = search_results[i];
+    try {
+      for (IDType i = 0; i < search_size; i++) {
+        auto invert_node = search_results[i];
 
-      if (invert_node != static_cast<IDType>(-1)) {
-        job_context_->inserted_edges_[invert_node].push_back(node_id);
+        if (invert_node != static_cast<IDType>(-1)) {
+          job_context_->inserted_edges_[invert_node].push_back(node_id);
+        }
       }
-    }
-    for (const auto &[k, v] : job_context_->inserted_edges_) {
-      update(k);
+      for (const auto &[k, v] : job_context_->inserted_edges_) {
+        update(k);
+      }
+    } catch (...) {
+      job_context_->inserted_edges_.clear();
+      remove(node_id);
+      throw;
     }
     job_context_->inserted_edges_.clear();
     return node_id;
   }
 
   auto remove(IDType node_id) -> void {
+    space_->remove(node_id);  // the only part whose removal can fail goes first
+    if constexpr (!std::is_same_v<DistanceSpaceType, BuildSpaceType>) {
+      build_space_->remove(node_id);
+    }
     auto nbrs = graph_->edges(node_id);
     for (IDType i = 0; i < graph_->max_nbrs_; i++) {
       auto nbr = nbrs[i];
@@ -126,10 +144,6 @@ class GraphUpdateJob {
     }
     job_context_->removed_vertices_.insert(node_id);
     graph_->remove(node_id);
-    if constexpr (!std::is_same_v<DistanceSpaceType, BuildSpaceType>) {
-      build_space_->remove(node_id);
-    }
-    space_->remove(node_id);
   }
 
   /**
@@ -166,8 +180,9 @@ class GraphUpdateJob {
       if (nbr == static_cast<IDType>(-1)) {
         break;
       }
-      if (job_context_->removed_vertices_.count(nbr)) {
-        for (auto &second_hop_nbr : job_context_->removed_node_nbrs_.at(nbr)) {
+      auto removed = job_context_->removed_node_nbrs_.find(nbr);
+      if (removed != job_context_->removed_node_nbrs_.end()) {
+        for (auto &second_hop_nbr : removed->second) {
           candidate_nbrs.insert(second_hop_nbr);
         }
       }
@@ -185,7 +200,7 @@ class GraphUpdateJob {
       pool.insert(nbr, dist);
     }
 
-    std::vector<IDType> updated_edges(graph_->max_nbrs_);
+    std::vector<IDType> updated_edges(graph_->max_nbrs_, static_cast<IDType>(-1));
     for (IDType i = 0; i < graph_->max_nbrs_ && i < pool.size(); i++) {
       updated_edges[i] = pool.id(i);
     }
@@ -245,7 +260,6 @@ class GraphUpdateJob {
           if (search_id != invalid_id()) {
             space_->remove(search_id);
           }
-          build_space_->remove(build_id);
           throw std::runtime_error("Search space ID drift detected during insert");
         }
       } catch (...) {
-- 
2.43.0


From 93a0e9e7a4b7dcf4f87f10e078c2f731402c1bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:16 +0000
Subject: [PATCH 30/51] fix: a full index rejects insert and upsert instead of
 losing the record; contains() reports read errors

---
 python/include/index.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/python/include/index.hpp b/python/include/index.hpp
index 7219c86..d416168 100644
--- a/python/include/index.hpp
+++ b/python/include/index.hpp
@@ -327,6 +327,9 @@ class PyIndex : public BasePyIndex {
       throw std::runtime_error("incremental updates are not supported for the current index type");
     }
     auto inserted_id = update_job_->insert_and_update(data, ef, scalar_data);
+    if (inserted_id == static_cast<IDType>(-1)) {
+      throw std::runtime_error("The index is full, cannot insert more vectors");
+    }
     materialized_view_manager_.invalidate("insert");
     return inserted_id;
   }
@@ -386,6 +389,10 @@ class PyIndex : public BasePyIndex {
         return insert_nondurable(data, ef, &scalar_data);
       }
 
+      // The replaced record must not be given up when there is no room for the new one.
+      if (search_space_->get_data_num() >= search_space_->get_capacity()) {
+        throw std::runtime_error("The index is full, cannot insert more vectors");
+      }
       auto [old_internal_id, old_scalar] = search_space_->get_scalar_data(scalar_data.item_id);
       auto old_vector = copy_vector_by_internal_id(old_internal_id);
       remove_nondurable(scalar_data.item_id);
@@ -783,12 +790,8 @@ class PyIndex : public BasePyIndex {
    */
   auto contains(const std::string &item_id) -> bool {
     if constexpr (SearchSpaceType::has_scalar_data) {
-      try {
-        search_space_->get_scalar_data(item_id);
-        return true;
-      } catch (...) {
-        return false;
-      }
+      auto *storage = search_space_->get_scalar_storage();
+      return storage != nullptr && storage->find_by_item_id(item_id).has_value();
     }
     return false;
   }
-- 
2.43.0


From 66108074e7a743b5877a517b8737758b5557dd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:42 +0000
Subject: [PATCH 31/51] fix: the orphan scan stays inside the collection
 directory

---
 include/index/disk/disk_collection.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index e7ec8de..f071047 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -1300,8 +1300,13 @@ class DiskCollection {
         max_on_disk = std::max(max_on_disk, id);
         continue;
       }
-      // Orphan segment. Classify.
-      classify_and_log_orphan(entry.path());
+      // Orphan segment. Classify, but never through a symlink: it may lead out of the collection.
+      std::error_code link_ec;
+      if (entry.is_symlink(link_ec) || link_ec) {
+        LOG_WARN("DiskCollection: orphan segment at {} is a symlink", entry.path().string());
+      } else {
+        classify_and_log_orphan(entry.path());
+      }
       const uint64_t id = std::stoull(name.substr(4));
       max_on_disk = std::max(max_on_disk, id);
     }
@@ -1391,6 +1396,11 @@ class DiskCollection {
                  orphan_dir.string());
         return;
       }
+      if (!detail::is_valid_basename(graph_it->second)) {
+        LOG_WARN("DiskCollection: orphan segment at {} kind=truncated (x_graph_file malformed)",
+                 orphan_dir.string());
+        return;
+      }
       const auto graph_path = orphan_dir / graph_it->second;
       const auto graph_size_actual = std::filesystem::file_size(graph_path, ec);
       if (ec) {
@@ -1424,7 +1434,7 @@ class DiskCollection {
       };
       for (const char *key : kRequiredLaserFiles) {
         const auto it = sm.x_extras.find(key);
-        if (it == sm.x_extras.end() || it->second.empty() ||
+        if (it == sm.x_extras.end() || !detail::is_valid_basename(it->second) ||
             !stat_nonempty_regular_file(orphan_dir / it->second)) {
           LOG_WARN("DiskCollection: orphan segment at {} kind=truncated ({} missing or empty)",
                    orphan_dir.string(),
@@ -1437,7 +1447,8 @@ class DiskCollection {
         if (it == sm.x_extras.end()) {
           continue;
         }
-        if (it->second.empty() || !stat_nonempty_regular_file(orphan_dir / it->second)) {
+        if (!detail::is_valid_basename(it->second) ||
+            !stat_nonempty_regular_file(orphan_dir / it->second)) {
           LOG_WARN("DiskCollection: orphan segment at {} kind=truncated ({} missing or empty)",
                    orphan_dir.string(),
                    key);
-- 
2.43.0


From 08e556f79e3848d0fbfe453cf5e976eb154c4aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:42 +0000
Subject: [PATCH 32/51] fix: LASER artifacts are never read or imported through
 symbolic links

---
 include/index/disk/laser_segment_importer.hpp | 17 ++++++++++++-----
 include/index/disk/laser_segment_searcher.hpp |  3 ++-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/index/disk/laser_segment_importer.hpp b/include/index/disk/laser_segment_importer.hpp
index 9f93d98..3af1e61 100644
--- a/include/index/disk/laser_segment_importer.hpp
+++ b/include/index/disk/laser_segment_importer.hpp
@@ -137,12 +137,19 @@ inline auto require_regular_nonempty(const std::filesystem::path &path) -> void
 
 inline auto optional_exists(const std::filesystem::path &path) -> bool {
   std::error_code ec;
-  const bool exists = std::filesystem::exists(path, ec);
-  if (ec) {
-    throw std::runtime_error("LaserSegmentImporter: optional artifact stat failed: " +
-                             path.string() + ": " + ec.message());
+  const auto status = std::filesystem::symlink_status(path, ec);
+  if (!std::filesystem::exists(status)) {
+    if (ec && status.type() != std::filesystem::file_type::not_found) {
+      throw std::runtime_error("LaserSegmentImporter: optional artifact stat failed: " +
+                               path.string() + ": " + ec.message());
+    }
+    return false;
+  }
+  if (!std::filesystem::is_regular_file(status)) {
+    throw std::runtime_error(
+        "LaserSegmentImporter: optional native artifact is not a regular file: " + path.string());
   }
-  return exists;
+  return true;
 }
 
 inline auto read_index_count(const std::filesystem::path &index_path) -> uint64_t {
diff --git a/include/index/disk/laser_segment_searcher.hpp b/include/index/disk/laser_segment_searcher.hpp
index aa74904..a9752bd 100644
--- a/include/index/disk/laser_segment_searcher.hpp
+++ b/include/index/disk/laser_segment_searcher.hpp
@@ -157,7 +157,8 @@ inline auto laser_validate_manifest_artifact(const SegmentManifest &manifest,
 
   const auto path = seg_dir / it->second;
   std::error_code ec;
-  if (!std::filesystem::is_regular_file(path, ec) || ec) {
+  // symlink_status: a link could lead out of the segment directory.
+  if (!std::filesystem::is_regular_file(std::filesystem::symlink_status(path, ec)) || ec) {
     throw std::runtime_error(
         "LaserSegmentSearcher: native artifact is missing, empty, or not "
         "regular for " +
-- 
2.43.0


From e11c8d069128ebe01bd09b29f4945bad78983772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:40 +0000
Subject: [PATCH 33/51] fix: spaces reject a metric they have no distance
 function for

RawSpace, SQ8Space and SQ4Space left distance_calu_func_ unset for
MetricType::NONE (or any undefined value), so the first distance call went
through an uninitialised function pointer. Throw like RaBitQSpace does.
---
 include/space/raw_space.hpp | 2 +-
 include/space/sq4_space.hpp | 2 +-
 include/space/sq8_space.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 9b886fa..a405eea 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -119,7 +119,7 @@ class RawSpace {
         distance_calu_func_ = simd::ip_sqr<DataType, DistanceType>;
         break;
       default:
-        break;
+        throw std::invalid_argument("Unsupported metric type.");
     }
   }
 
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index 4f5dd79..6b322b3 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -107,7 +107,7 @@ class SQ4Space {
         distance_calu_func_ = simd::ip_sqr_sq4<DataType, DistanceType>;
         break;
       default:
-        break;
+        throw std::invalid_argument("Unsupported metric type.");
     }
   }
 
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index 9746907..44c1792 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -106,7 +106,7 @@ class SQ8Space {
         distance_calu_func_ = simd::ip_sqr_sq8<DataType, DistanceType>;
         break;
       default:
-        break;
+        throw std::invalid_argument("Unsupported metric type.");
     }
   }
 
-- 
2.43.0


From 56d840ace020a8aa10d843c7aa6bea451472defb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 34/51] fix: index and quantization type tables reject what
 they do not list

The lookups ended in ALAYA_UNREACHABLE for a missing key, and the index type
tables did not list NSG and FUSION, which IndexFactory::create names in its
error message: undefined behaviour instead of the error.
---
 include/index/index_type.hpp        | 13 +++++++++----
 include/utils/quantization_type.hpp |  5 +++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/index/index_type.hpp b/include/index/index_type.hpp
index 203a3f8..68841bc 100644
--- a/include/index/index_type.hpp
+++ b/include/index/index_type.hpp
@@ -5,6 +5,7 @@
 #pragma once
 
 #include <array>
+#include <stdexcept>
 #include <string_view>
 #include <tuple>
 #include "utils/platform.hpp"
@@ -22,9 +23,11 @@ enum class IndexType {
 // NOLINTEND
 
 struct IndexTypeMap {
-  static constexpr std::array<std::tuple<std::string_view, IndexType>, 3> kStaticMap = {
+  static constexpr std::array<std::tuple<std::string_view, IndexType>, 5> kStaticMap = {
       std::make_tuple("FLAT", IndexType::FLAT),
       std::make_tuple("HNSW", IndexType::HNSW),
+      std::make_tuple("NSG", IndexType::NSG),
+      std::make_tuple("FUSION", IndexType::FUSION),
       std::make_tuple("QG", IndexType::QG),
   };
 
@@ -34,15 +37,17 @@ struct IndexTypeMap {
         return val;
       }
     }
-    ALAYA_UNREACHABLE;
+    throw std::invalid_argument("Unknown index type.");
   }
 };
 
 // index type to string
 struct IndexTypeToString {
-  static constexpr std::array<std::tuple<IndexType, std::string_view>, 3> kStaticMap = {
+  static constexpr std::array<std::tuple<IndexType, std::string_view>, 5> kStaticMap = {
       std::make_tuple(IndexType::FLAT, "FLAT"),
       std::make_tuple(IndexType::HNSW, "HNSW"),
+      std::make_tuple(IndexType::NSG, "NSG"),
+      std::make_tuple(IndexType::FUSION, "FUSION"),
       std::make_tuple(IndexType::QG, "QG"),
   };
 
@@ -52,7 +57,7 @@ struct IndexTypeToString {
         return val;
       }
     }
-    ALAYA_UNREACHABLE;
+    throw std::invalid_argument("Unknown index type.");
   }
 };
 
diff --git a/include/utils/quantization_type.hpp b/include/utils/quantization_type.hpp
index 6d339d7..e67c750 100644
--- a/include/utils/quantization_type.hpp
+++ b/include/utils/quantization_type.hpp
@@ -5,6 +5,7 @@
 #pragma once
 
 #include <array>
+#include <stdexcept>
 #include <string_view>
 #include <tuple>
 #include "utils/platform.hpp"
@@ -34,7 +35,7 @@ struct QuantizationTypeMap {
         return val;
       }
     }
-    ALAYA_UNREACHABLE;
+    throw std::invalid_argument("Unknown quantization type.");
   }
 };
 
@@ -53,7 +54,7 @@ struct QuantizationTypeToString {
         return val;
       }
     }
-    ALAYA_UNREACHABLE;
+    throw std::invalid_argument("Unknown quantization type.");
   }
 };
 
-- 
2.43.0


From 1afd02c8d6c181a10e88ff36a24b07051df72860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:56 +0000
Subject: [PATCH 35/51] fix: compile the AVX-512 kernels for AVX-512F only, the
 one extension their dispatch verifies

---
 include/utils/platform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/platform.hpp b/include/utils/platform.hpp
index c752603..d7e444f 100644
--- a/include/utils/platform.hpp
+++ b/include/utils/platform.hpp
@@ -41,7 +41,7 @@
 #if defined(__GNUC__) || defined(__clang__)
   // x86-specific target attributes (only valid on x86 architecture)
   #if defined(ALAYA_ARCH_X86)
-    #define ALAYA_TARGET_AVX512 __attribute__((target("avx512f,avx512bw,avx512dq")))
+    #define ALAYA_TARGET_AVX512 __attribute__((target("avx512f")))
     #define ALAYA_TARGET_AVX512_BW __attribute__((target("avx512f,avx512bw")))
     #define ALAYA_TARGET_AVX2 __attribute__((target("avx2,fma")))
     #define ALAYA_TARGET_SSE4 __attribute__((target("sse4.1")))
-- 
2.43.0


From 80716311d6bc03d187b450aa12db4d087e00d9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:56 +0000
Subject: [PATCH 36/51] fix: select the AVX2+FMA Hadamard kernels only on
 processors that have FMA

---
 include/simd/fht.ipp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/simd/fht.ipp b/include/simd/fht.ipp
index edc5b46..b327ec6 100644
--- a/include/simd/fht.ipp
+++ b/include/simd/fht.ipp
@@ -3654,7 +3654,7 @@ inline auto helper_float_6(float *buf) -> void {  // NOLINT
     if (f.avx512f_) {
       return helper_float_6_avx512;
     }
-    if (f.avx2_) {
+    if (f.avx2_ && f.fma_) {
       return helper_float_6_avx2;
     }
 #endif
@@ -3669,7 +3669,7 @@ inline auto helper_float_7(float *buf) -> void {
     if (f.avx512f_) {
       return helper_float_7_avx512;
     }
-    if (f.avx2_) {
+    if (f.avx2_ && f.fma_) {
       return helper_float_7_avx2;
     }
 #endif
@@ -3684,7 +3684,7 @@ inline auto helper_float_8(float *buf) -> void {
     if (f.avx512f_) {
       return helper_float_8_avx512;
     }
-    if (f.avx2_) {
+    if (f.avx2_ && f.fma_) {
       return helper_float_8_avx2;
     }
 #endif
@@ -3700,7 +3700,7 @@ inline auto helper_float_9(float *buf) -> void {
     if (f.avx512f_) {
       return helper_float_9_avx512;
     }
-    if (f.avx2_) {
+    if (f.avx2_ && f.fma_) {
       return helper_float_9_avx2;
     }
 #endif
@@ -3715,7 +3715,7 @@ inline auto helper_float_10(float *buf) -> void {
     if (f.avx512f_) {
       return helper_float_10_avx512;
     }
-    if (f.avx2_) {
+    if (f.avx2_ && f.fma_) {
       return helper_float_10_avx2;
     }
 #endif
@@ -3730,7 +3730,7 @@ inline auto helper_float_11(float *buf) -> void {
     if (f.avx512f_) {
       return helper_float_11_avx512;
     }
-    if (f.avx2_) {
+    if (f.avx2_ && f.fma_) {
       return helper_float_11_avx2;
     }
 #endif
-- 
2.43.0


From 54025026d072dcf06e714d0a62e5378708be5c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:56 +0000
Subject: [PATCH 37/51] fix: honour ALAYA_FORCE_DISKANN_COMPAT_L2 only on
 processors with AVX2 and FMA

---
 include/simd/distance_l2.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/simd/distance_l2.ipp b/include/simd/distance_l2.ipp
index 9a35fd4..be21f89 100644
--- a/include/simd/distance_l2.ipp
+++ b/include/simd/distance_l2.ipp
@@ -708,16 +708,16 @@ inline auto get_l2_sqr_func() -> L2SqrFunc {
       return l2_sqr_generic;
     }
 #ifdef ALAYA_ARCH_X86
+    const auto &f = get_cpu_features();
     // Byte-identical-with-DiskANN mode: use the same 1-accumulator AVX2
     // kernel + reduction as DiskANN to remove the last ULP-level divergence
     // in the Vamana build. Still FMA, so faster than scalar.
     if (const char *force = std::getenv("ALAYA_FORCE_DISKANN_COMPAT_L2");
-        force != nullptr && force[0] == '1' && force[1] == '\0') {
+        force != nullptr && force[0] == '1' && force[1] == '\0' && f.avx2_ && f.fma_) {
       return l2_sqr_avx2_diskann_compat;
     }
 #endif
 #ifdef ALAYA_ARCH_X86
-    const auto &f = get_cpu_features();
     switch (select_fp32_distance_level(f, get_distance_dispatch_policy())) {
       case SimdLevel::kAvx512:
         return l2_sqr_avx512;
-- 
2.43.0


From 9440e94731295d60eb76a9ef55643dce01d6a4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:00 +0000
Subject: [PATCH 38/51] fix: read numpy buffers before releasing the
 interpreter lock

---
 python/src/diskann_bindings.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/python/src/diskann_bindings.cpp b/python/src/diskann_bindings.cpp
index 28185bb..bc1519a 100644
--- a/python/src/diskann_bindings.cpp
+++ b/python/src/diskann_bindings.cpp
@@ -88,9 +88,10 @@ class PyDiskANNIndex {
     std::vector<uint64_t> labels(top_k);
     std::vector<float> distances(top_k);
     uint32_t count = 0;
+    const auto *query_data = static_cast<const float *>(query.data());
     {
       py::gil_scoped_release release;
-      count = index_.search(static_cast<const float *>(query.data()),
+      count = index_.search(query_data,
                             top_k,
                             labels.data(),
                             distances.data(),
@@ -121,9 +122,10 @@ class PyDiskANNIndex {
     const size_t result_count = static_cast<size_t>(count) * top_k;
     std::vector<uint64_t> labels(result_count);
     std::vector<float> distances(result_count);
+    const auto *query_data = static_cast<const float *>(queries.data());
     {
       py::gil_scoped_release release;
-      index_.batch_search(static_cast<const float *>(queries.data()),
+      index_.batch_search(query_data,
                           count,
                           top_k,
                           labels.data(),
@@ -142,8 +144,9 @@ class PyDiskANNIndex {
 
   void insert(const py::array &vector, uint64_t external_id) {
     require_vector(vector, "vector");
+    const auto *vector_data = static_cast<const float *>(vector.data());
     py::gil_scoped_release release;
-    index_.insert(static_cast<const float *>(vector.data()), external_id);
+    index_.insert(vector_data, external_id);
   }
 
   void batch_insert(const py::array &vectors, const py::array &external_ids, uint32_t batch_size) {
@@ -156,11 +159,10 @@ class PyDiskANNIndex {
       throw py::value_error("external_ids length must match vectors rows");
     }
     const uint32_t count = checked_u32(vectors.shape(0), "vectors rows");
+    const auto *vector_data = static_cast<const float *>(vectors.data());
+    const auto *id_data = static_cast<const uint64_t *>(external_ids.data());
     py::gil_scoped_release release;
-    index_.batch_insert(static_cast<const float *>(vectors.data()),
-                        static_cast<const uint64_t *>(external_ids.data()),
-                        count,
-                        batch_size);
+    index_.batch_insert(vector_data, id_data, count, batch_size);
   }
 
   void remove(uint64_t external_id) {
@@ -175,9 +177,10 @@ class PyDiskANNIndex {
   void batch_remove(const py::array &external_ids) {
     require_array(external_ids, py::dtype::of<uint64_t>(), 1, "external_ids");
     const uint32_t count = checked_u32(external_ids.shape(0), "external_ids length");
+    const auto *id_data = static_cast<const uint64_t *>(external_ids.data());
     try {
       py::gil_scoped_release release;
-      index_.batch_remove_by_labels(static_cast<const uint64_t *>(external_ids.data()), count);
+      index_.batch_remove_by_labels(id_data, count);
     } catch (const std::out_of_range &error) {
       throw py::key_error(error.what());
     }
-- 
2.43.0


From ad7490a340a5473cfbc87c9f6cd4679e4e56f634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:09 +0000
Subject: [PATCH 39/51] fix: join worker threads and report their failure when
 one throws or cannot be started

---
 include/index/disk/disk_collection.hpp        |  2 +
 include/index/graph/diskann/disk_page_io.hpp  |  2 +
 include/index/graph/diskann/diskann_index.hpp | 37 ++++++++----
 include/index/graph/diskann/pq_table.hpp      |  3 +
 include/utils/worker_threads.hpp              | 56 +++++++++++++++++++
 5 files changed, 89 insertions(+), 11 deletions(-)
 create mode 100644 include/utils/worker_threads.hpp

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index f071047..f36d074 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -50,6 +50,7 @@
 #include "utils/metric_type.hpp"
 #include "utils/platform.hpp"
 #include "utils/platform_fs.hpp"
+#include "utils/worker_threads.hpp"
 
 namespace alaya::disk {
 
@@ -1199,6 +1200,7 @@ class DiskCollection {
     std::exception_ptr first_error{nullptr};
 
     std::vector<std::thread> workers;
+    const alaya::ThreadJoiner joiner(workers);
     workers.reserve(worker_count);
     for (uint32_t t = 0; t < worker_count; ++t) {
       workers.emplace_back([&, this]() {
diff --git a/include/index/graph/diskann/disk_page_io.hpp b/include/index/graph/diskann/disk_page_io.hpp
index 7d3589d..3909af1 100644
--- a/include/index/graph/diskann/disk_page_io.hpp
+++ b/include/index/graph/diskann/disk_page_io.hpp
@@ -61,6 +61,7 @@
 #include "index/graph/diskann/disk_page_cache.hpp"
 #include "index/graph/laser/utils/memory.hpp"
 #include "storage/io/uring_reactor.hpp"
+#include "utils/worker_threads.hpp"
 
 namespace alaya::diskann {
 
@@ -346,6 +347,7 @@ class DiskPageIO {
     std::exception_ptr error;
     std::mutex error_mutex;
     std::vector<std::thread> pool;
+    const ThreadJoiner joiner(pool);
     pool.reserve(workers);
     for (uint32_t worker = 0; worker < workers; ++worker) {
       pool.emplace_back([&, worker]() {
diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index a4ee826..b5edf9b 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -65,6 +65,7 @@
 #include "simd/distance_l2.hpp"
 #include "storage/io/uring_reactor.hpp"
 #include "utils/coro_gate.hpp"
+#include "utils/worker_threads.hpp"
 
 namespace alaya::diskann {
 
@@ -387,20 +388,27 @@ class DiskANNIndex {
     search_page_cache_ = params.search_page_cache;
     thread_data_storage_.resize(pool);
     {
+      FirstError error;
       std::vector<std::thread> regs;
+      const ThreadJoiner joiner(regs);
       regs.reserve(pool);
       for (uint32_t t = 0; t < pool; ++t) {
-        regs.emplace_back([this, t, scratch_config]() {
-          reader_->register_thread();
-          auto td = std::make_unique<ThreadData>();
-          td->ctx_ = reader_->get_ctx();
-          td->alloc_scratch(scratch_config);
-          thread_data_storage_[t] = std::move(td);
+        regs.emplace_back([this, t, scratch_config, &error]() {
+          try {
+            reader_->register_thread();
+            auto td = std::make_unique<ThreadData>();
+            td->ctx_ = reader_->get_ctx();
+            td->alloc_scratch(scratch_config);
+            thread_data_storage_[t] = std::move(td);
+          } catch (...) {
+            error.capture();
+          }
         });
       }
       for (auto &th : regs) {
         th.join();
       }
+      error.rethrow();
     }
     for (auto &td : thread_data_storage_) {
       ThreadData *p = td.get();
@@ -543,22 +551,29 @@ class DiskANNIndex {
     }
 
     std::atomic<uint32_t> next{0};
+    FirstError error;
     std::vector<std::thread> pool;
+    const ThreadJoiner joiner(pool);
     pool.reserve(workers);
     for (uint32_t w = 0; w < workers; ++w) {
       pool.emplace_back([&]() {
-        for (;;) {
-          const uint32_t qi = next.fetch_add(1);
-          if (qi >= n_queries) {
-            break;
+        try {
+          for (;;) {
+            const uint32_t qi = next.fetch_add(1);
+            if (qi >= n_queries) {
+              break;
+            }
+            run_one(qi);
           }
-          run_one(qi);
+        } catch (...) {
+          error.capture();
         }
       });
     }
     for (auto &th : pool) {
       th.join();
     }
+    error.rethrow();
   }
 
 #if defined(__linux__)
diff --git a/include/index/graph/diskann/pq_table.hpp b/include/index/graph/diskann/pq_table.hpp
index a2d401b..d793222 100644
--- a/include/index/graph/diskann/pq_table.hpp
+++ b/include/index/graph/diskann/pq_table.hpp
@@ -40,6 +40,7 @@
 
 #include "simd/distance_l2.hpp"
 #include "utils/prefetch.hpp"
+#include "utils/worker_threads.hpp"
 
 namespace alaya::diskann {
 
@@ -143,6 +144,7 @@ class PQTable {
       chunk_worker();
     } else {
       std::vector<std::thread> pool;
+      const ThreadJoiner joiner(pool);
       pool.reserve(workers);
       for (uint32_t t = 0; t < workers; ++t) {
         pool.emplace_back(chunk_worker);
@@ -198,6 +200,7 @@ class PQTable {
       encode_worker();
     } else {
       std::vector<std::thread> pool;
+      const ThreadJoiner joiner(pool);
       pool.reserve(workers);
       for (uint32_t t = 0; t < workers; ++t) {
         pool.emplace_back(encode_worker);
diff --git a/include/utils/worker_threads.hpp b/include/utils/worker_threads.hpp
new file mode 100644
index 0000000..655f167
--- /dev/null
+++ b/include/utils/worker_threads.hpp
@@ -0,0 +1,56 @@
+// SPDX-FileCopyrightText: 2025 AlayaDB.AI
+//
+// SPDX-License-Identifier: AGPL-3.0-only
+
+#pragma once
+
+#include <exception>
+#include <mutex>   //NOLINT [build/c++11]
+#include <thread>  //NOLINT [build/c++11]
+#include <vector>
+
+namespace alaya {
+
+/// Joins the threads of a vector on every way out of a scope. Without it, failing to start a later
+/// thread destroys the running ones, which terminates the process.
+class ThreadJoiner {
+ public:
+  explicit ThreadJoiner(std::vector<std::thread> &threads) : threads_(threads) {}
+  ThreadJoiner(const ThreadJoiner &) = delete;
+  auto operator=(const ThreadJoiner &) -> ThreadJoiner & = delete;
+  ~ThreadJoiner() {
+    for (auto &thread : threads_) {
+      if (thread.joinable()) {
+        thread.join();
+      }
+    }
+  }
+
+ private:
+  std::vector<std::thread> &threads_;
+};
+
+/// Keeps the first exception of a group of workers for the thread that waits for them.
+class FirstError {
+ public:
+  /// To be called from a handler.
+  void capture() noexcept {
+    std::lock_guard<std::mutex> lock(mutex_);
+    if (error_ == nullptr) {
+      error_ = std::current_exception();
+    }
+  }
+
+  /// To be called once the workers are joined.
+  void rethrow() const {
+    if (error_ != nullptr) {
+      std::rethrow_exception(error_);
+    }
+  }
+
+ private:
+  std::mutex mutex_;
+  std::exception_ptr error_{nullptr};
+};
+
+}  // namespace alaya
-- 
2.43.0


From 8e22026b0c0c7f585b7fcddc5e5bbc44ef103d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:09 +0000
Subject: [PATCH 40/51] fix: stop the pool's threads when one cannot be started
 and report task failures to the waiter

---
 include/utils/thread_pool.hpp | 91 +++++++++++++++++++++++------------
 1 file changed, 59 insertions(+), 32 deletions(-)

diff --git a/include/utils/thread_pool.hpp b/include/utils/thread_pool.hpp
index a78a3c7..6b39bd8 100644
--- a/include/utils/thread_pool.hpp
+++ b/include/utils/thread_pool.hpp
@@ -12,6 +12,9 @@
 #include <thread>  //NOLINT [build/c++11]
 #include <utility>
 #include <vector>
+
+#include "worker_threads.hpp"
+
 namespace alaya {
 
 class ThreadPool {
@@ -27,30 +30,11 @@ class ThreadPool {
    * @param num_threads The number of threads to create in the pool.
    */
   explicit ThreadPool(size_t num_threads) {
-    for (size_t i = 0; i < num_threads; ++i) {
-      workers_.emplace_back([this]() -> void {
-        for (;;) {
-          std::function<void()> task;
-          {
-            std::unique_lock<std::mutex> lock(this->queue_mutex_);
-            // Wait until a task is available or the pool is stopped
-            this->condition_.wait(lock, [this]() -> bool {
-              return this->stop_ || !this->tasks_.empty();
-            });
-            if (this->stop_ && this->tasks_.empty()) {
-              return;  // Exit the thread if the pool is stopped and there are no tasks
-            }
-            task = std::move(this->tasks_.front());
-            this->tasks_.pop();
-          }
-          task();  // Execute the task
-          {
-            std::lock_guard<std::mutex> lock(this->queue_mutex_);
-            tasks_completed_.fetch_add(1);
-            condition_tasks_completed_.notify_one();
-          }
-        }
-      });
+    try {
+      start_workers(num_threads);
+    } catch (...) {
+      stop_and_join();
+      throw;
     }
   }
 
@@ -72,7 +56,15 @@ class ThreadPool {
   auto enqueue(F &&f, Args &&...args) -> std::future<std::invoke_result_t<F, Args...>> {
     using return_type = std::invoke_result_t<F, Args...>;
     auto task = std::make_shared<std::packaged_task<return_type()>>(
-        std::bind(std::forward<F>(f), std::forward<Args>(args)...));
+        [this, work = std::bind(std::forward<F>(f), std::forward<Args>(args)...)]() mutable
+        -> return_type {
+          try {
+            return work();
+          } catch (...) {
+            first_error_.capture();
+            throw;
+          }
+        });
     std::future<return_type> res = task->get_future();
     {
       std::unique_lock<std::mutex> lock(queue_mutex_);
@@ -103,13 +95,17 @@ class ThreadPool {
    * @param task_num The total number of tasks that were enqueued and for which the completion
    *                  status is being checked. This parameter allows the method to determine when
    *                  all expected tasks have been completed.
+   * @throws The first exception raised by a task of this pool so far.
    */
   void wait_until_all_tasks_completed(size_t task_num) {
-    std::unique_lock<std::mutex> lock(queue_mutex_);
-    // Wait until the number of completed tasks matches the total number of tasks
-    condition_tasks_completed_.wait(lock, [this, task_num]() -> bool {
-      return tasks_completed_.load() == task_num;
-    });
+    {
+      std::unique_lock<std::mutex> lock(queue_mutex_);
+      // Wait until the number of completed tasks matches the total number of tasks
+      condition_tasks_completed_.wait(lock, [this, task_num]() -> bool {
+        return tasks_completed_.load() == task_num;
+      });
+    }
+    first_error_.rethrow();
   }
 
   void reset_task() {
@@ -124,7 +120,38 @@ class ThreadPool {
    * object is destroyed. It sets the stop flag, notifies all waiting threads, and waits for
    * each thread to finish executing any remaining tasks.
    */
-  ~ThreadPool() {
+  ~ThreadPool() { stop_and_join(); }
+
+ private:
+  void start_workers(size_t num_threads) {
+    for (size_t i = 0; i < num_threads; ++i) {
+      workers_.emplace_back([this]() -> void {
+        for (;;) {
+          std::function<void()> task;
+          {
+            std::unique_lock<std::mutex> lock(this->queue_mutex_);
+            // Wait until a task is available or the pool is stopped
+            this->condition_.wait(lock, [this]() -> bool {
+              return this->stop_ || !this->tasks_.empty();
+            });
+            if (this->stop_ && this->tasks_.empty()) {
+              return;  // Exit the thread if the pool is stopped and there are no tasks
+            }
+            task = std::move(this->tasks_.front());
+            this->tasks_.pop();
+          }
+          task();  // Execute the task
+          {
+            std::lock_guard<std::mutex> lock(this->queue_mutex_);
+            tasks_completed_.fetch_add(1);
+            condition_tasks_completed_.notify_one();
+          }
+        }
+      });
+    }
+  }
+
+  void stop_and_join() {
     {
       std::unique_lock<std::mutex> lock(queue_mutex_);
       stop_ = true;  // Stop accepting new tasks
@@ -135,7 +162,6 @@ class ThreadPool {
     }
   }
 
- private:
   std::vector<std::thread> workers_;         // Vector of worker threads
   std::queue<std::function<void()>> tasks_;  // Queue of tasks to be executed
   std::mutex queue_mutex_;                   // Mutex for synchronizing access to the task queue
@@ -144,5 +170,6 @@ class ThreadPool {
 
   std::condition_variable condition_tasks_completed_;
   std::atomic<uint32_t> tasks_completed_ = 0;
+  FirstError first_error_;  // First exception raised by a task
 };
 }  // namespace alaya
-- 
2.43.0


From 9dd51217ff3960fb4ebe810826717b64dfd3308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:09 +0000
Subject: [PATCH 41/51] fix: wait for every task of batch_hybrid_search before
 leaving it

---
 python/include/index.hpp | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/python/include/index.hpp b/python/include/index.hpp
index d416168..3bf5533 100644
--- a/python/include/index.hpp
+++ b/python/include/index.hpp
@@ -1019,18 +1019,35 @@ class PyIndex : public BasePyIndex {
         auto batch_pool = get_hybrid_batch_pool(num_threads);
         std::vector<std::future<void>> futures;
         futures.reserve(query_size);
-        for (uint32_t i = 0; i < query_size; i++) {
-          auto cur_query = query_ptr + i * query_dim;
-          futures.emplace_back(batch_pool->enqueue([this,
-                                                    cur_query,
-                                                    ids = id_results[i].data(),
-                                                    search_info,
-                                                    filter_ptr = &filter,
-                                                    bf,
-                                                    item_ids = item_id_results[i].data()]() {
-            execute_hybrid_search_dispatch(cur_query, ids, search_info, *filter_ptr, bf, item_ids);
-          }));
+        // The tasks write to locals of this call, so every one has to be finished before any exit.
+        auto wait_all = [&futures]() {
+          for (auto &future : futures) {
+            future.wait();
+          }
+        };
+        try {
+          for (uint32_t i = 0; i < query_size; i++) {
+            auto cur_query = query_ptr + i * query_dim;
+            futures.emplace_back(batch_pool->enqueue([this,
+                                                      cur_query,
+                                                      ids = id_results[i].data(),
+                                                      search_info,
+                                                      filter_ptr = &filter,
+                                                      bf,
+                                                      item_ids = item_id_results[i].data()]() {
+              execute_hybrid_search_dispatch(cur_query,
+                                             ids,
+                                             search_info,
+                                             *filter_ptr,
+                                             bf,
+                                             item_ids);
+            }));
+          }
+        } catch (...) {
+          wait_all();
+          throw;
         }
+        wait_all();
         for (auto &future : futures) {
           future.get();
         }
-- 
2.43.0


From f02c6b705a62a3bcd8140efde41e7e9563ee236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:09 +0000
Subject: [PATCH 42/51] fix: report an adjacency mismatch after the parallel
 region of relayout_adj

---
 include/index/graph/laser/utils/freq_relayout.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/index/graph/laser/utils/freq_relayout.hpp b/include/index/graph/laser/utils/freq_relayout.hpp
index 220d874..3af4eb4 100644
--- a/include/index/graph/laser/utils/freq_relayout.hpp
+++ b/include/index/graph/laser/utils/freq_relayout.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 #include <algorithm>
+#include <atomic>
 #include <fstream>
 #include <iostream>
 #include <stdexcept>
@@ -62,6 +63,8 @@ void relayout_adj(vpu &freq_nei_list, vvu &full_graph) {
   std::vector<unsigned> tmp_adj(100);
   std::unordered_set<unsigned> vis;
   const int64_t graph_size_signed = static_cast<int64_t>(full_graph.size());
+  // An exception must not leave the parallel region, so a mismatch is reported after it.
+  std::atomic<bool> mismatch{false};
 #pragma omp parallel for schedule(dynamic, 1000) private(tmp_adj, vis)
   for (int64_t ii = 0; ii < graph_size_signed; ii++) {
     const unsigned i = static_cast<unsigned>(ii);
@@ -80,11 +83,15 @@ void relayout_adj(vpu &freq_nei_list, vvu &full_graph) {
       tmp_adj.emplace_back(v);
     }
     if (full_graph[i].size() != tmp_adj.size()) {
-      throw std::runtime_error(
-          "freq_relayout: freq file was generated from a different graph (adjacency size "
-          "mismatch)");
+      mismatch.store(true, std::memory_order_relaxed);
+      continue;
     }
     full_graph[i].swap(tmp_adj);
   }
+  if (mismatch.load(std::memory_order_relaxed)) {
+    throw std::runtime_error(
+        "freq_relayout: freq file was generated from a different graph (adjacency size "
+        "mismatch)");
+  }
 }
 }  // namespace gp
-- 
2.43.0


From 0deac05bfbd85ef603d761f188257619b900fc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:09 +0000
Subject: [PATCH 43/51] fix: report failures of tasks joined with when_all

---
 include/index/graph/diskann/disk_page_io.hpp  |  5 ++++-
 include/index/graph/diskann/diskann_index.hpp | 20 +++++++++++++++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/index/graph/diskann/disk_page_io.hpp b/include/index/graph/diskann/disk_page_io.hpp
index 3909af1..618dce2 100644
--- a/include/index/graph/diskann/disk_page_io.hpp
+++ b/include/index/graph/diskann/disk_page_io.hpp
@@ -294,7 +294,10 @@ class DiskPageIO {
       for (uint32_t i = 0; i < count; ++i) {
         tasks.emplace_back(read_one(i));
       }
-      co_await coro::when_all(std::move(tasks));
+      auto results = co_await coro::when_all(std::move(tasks));
+      for (auto &result : results) {
+        result.return_value();
+      }
     };
     coro::sync_wait(run());
     return out;
diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index b5edf9b..3d82d05 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -1807,7 +1807,10 @@ class DiskANNIndex {
       for (const uint32_t n : selected) {
         reconnects.emplace_back(reconnect_one(n));
       }
-      co_await coro::when_all(std::move(reconnects));
+      auto results = co_await coro::when_all(std::move(reconnects));
+      for (auto &result : results) {
+        result.return_value();
+      }
       st_reconnect_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
       st_inserts_.fetch_add(1, std::memory_order_relaxed);
     };
@@ -1820,7 +1823,10 @@ class DiskANNIndex {
         for (uint32_t i = off; i < end; ++i) {
           tasks.emplace_back(insert_one(i));
         }
-        co_await coro::when_all(std::move(tasks));
+        auto results = co_await coro::when_all(std::move(tasks));
+        for (auto &result : results) {
+          result.return_value();
+        }
       };
       coro::sync_wait(run());
     }
@@ -2115,7 +2121,10 @@ class DiskANNIndex {
       for (const uint32_t node_id : neighbors) {
         tasks.emplace_back(reconnect_one(node_id));
       }
-      co_await coro::when_all(std::move(tasks));
+      auto results = co_await coro::when_all(std::move(tasks));
+      for (auto &result : results) {
+        result.return_value();
+      }
     };
     try {
       coro::sync_wait(run());
@@ -2404,7 +2413,10 @@ class DiskANNIndex {
     for (uint32_t t = 0; t < inflight; ++t) {
       warm.emplace_back(presize(pipeline_tds_[t].get()));
     }
-    coro::sync_wait(coro::when_all(std::move(warm)));
+    auto results = coro::sync_wait(coro::when_all(std::move(warm)));
+    for (auto &result : results) {
+      result.return_value();
+    }
   }
 #endif
 
-- 
2.43.0


From 52f7b8c817b0d2275abdc9d1b218f632b7b4446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:09 +0000
Subject: [PATCH 44/51] fix: report failures of scheduled searches and join
 only started workers

---
 include/executor/worker.hpp | 4 +++-
 python/include/index.hpp    | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/executor/worker.hpp b/include/executor/worker.hpp
index 0bf09f5..002199e 100644
--- a/include/executor/worker.hpp
+++ b/include/executor/worker.hpp
@@ -74,7 +74,9 @@ class Worker : public std::enable_shared_from_this<Worker> {
    */
   void join() {
     active_ = false;
-    thread_.join();
+    if (thread_.joinable()) {  // a worker that failed to start has no thread
+      thread_.join();
+    }
   }
 
   auto operator=(const Worker &) -> Worker & = delete;
diff --git a/python/include/index.hpp b/python/include/index.hpp
index 3bf5533..ff7ee2d 100644
--- a/python/include/index.hpp
+++ b/python/include/index.hpp
@@ -1135,6 +1135,9 @@ class PyIndex : public BasePyIndex {
       }
       scheduler->begin();
       scheduler->join();
+      for (auto &coro : coros) {
+        coro.promise().result();
+      }
     }
 
     auto ret = py::array_t<IDType>({query_size, static_cast<size_t>(topk)});
@@ -1212,6 +1215,9 @@ class PyIndex : public BasePyIndex {
 
       scheduler->begin();
       scheduler->join();
+      for (auto &coro : coros) {
+        coro.promise().result();
+      }
     }
 
     auto ret_id = get_topk_array(topk_ids, topk);
-- 
2.43.0


From 69ff62b78a1dd39c7ce40c9a7b9a82ee26183b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:15 +0000
Subject: [PATCH 45/51] fix: read the kept worker error under its lock

---
 include/utils/worker_threads.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/utils/worker_threads.hpp b/include/utils/worker_threads.hpp
index 655f167..91bf33d 100644
--- a/include/utils/worker_threads.hpp
+++ b/include/utils/worker_threads.hpp
@@ -43,13 +43,18 @@ class FirstError {
 
   /// To be called once the workers are joined.
   void rethrow() const {
-    if (error_ != nullptr) {
-      std::rethrow_exception(error_);
+    std::exception_ptr error;
+    {
+      std::lock_guard<std::mutex> lock(mutex_);
+      error = error_;
+    }
+    if (error != nullptr) {
+      std::rethrow_exception(error);
     }
   }
 
  private:
-  std::mutex mutex_;
+  mutable std::mutex mutex_;
   std::exception_ptr error_{nullptr};
 };
 
-- 
2.43.0


From d53d317b633610bce0b12147c7e42e03c6e4ea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:32 +0000
Subject: [PATCH 46/51] fix: attach the label of an inserted record when its
 slot is published

---
 include/index/graph/diskann/diskann_index.hpp | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index 3d82d05..1014a99 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -850,11 +850,11 @@ class DiskANNIndex {
     {
       std::unique_lock<std::shared_mutex> state_lock(update_mutex_);
       std::lock_guard<std::mutex> slot_lock(slot_mutex_);
-      slot = allocate_update_slot_unlocked(label);
+      slot = allocate_update_slot_unlocked();
     }
     encode_pq_slot(query, slot);
     write_inserted_node(slot, query, pruned);
-    publish_slots(&slot, &slot + 1);
+    publish_slots(&slot, &slot + 1, &label);
     reconnect_inserted_neighbors(pruned, slot);
     return slot;
   }
@@ -1497,11 +1497,13 @@ class DiskANNIndex {
     return select_insert_neighbors_from(query, run_update_search(query, update_search_l_));
   }
 
-  uint32_t allocate_update_slot_unlocked(uint64_t label) {
+  uint32_t allocate_update_slot_unlocked() {
     const uint32_t slot = slot_alloc_.alloc();
     update_ctx_.forget_slot(slot);
     max_slot_id_ = std::max<uint64_t>(max_slot_id_, slot_alloc_.next_fresh_id());
-    set_label(slot, label);
+    // A reused slot keeps its old label until it is published: a search that
+    // found its old record still maps that record to its own label.
+    grow_labels(slot);
     ++live_count_;
     ops_since_last_insert_ = 0;
     return slot;
@@ -1780,7 +1782,7 @@ class DiskANNIndex {
       {
         std::unique_lock<std::shared_mutex> state_lock(update_mutex_);
         std::lock_guard<std::mutex> slot_lock(slot_mutex_);
-        ids[i] = allocate_update_slot_unlocked(labels[i]);
+        ids[i] = allocate_update_slot_unlocked();
       }
       encode_pq_slot(vec, ids[i]);
       st_alloc_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
@@ -1797,7 +1799,7 @@ class DiskANNIndex {
       }
       st_prefetch_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
       write_inserted_node(ids[i], vec, selected);
-      publish_slots(&ids[i], &ids[i] + 1);
+      publish_slots(&ids[i], &ids[i] + 1, &labels[i]);
       for (const uint32_t n : selected) {
         staged.add(n, ids[i]);
       }
@@ -1836,11 +1838,12 @@ class DiskANNIndex {
   /// Make written slots search-visible. Slots stay tombstoned ("dark") from
   /// allocation until their node record and PQ code exist, so a concurrent
   /// search can never surface a reused slot's stale bytes under a new label.
-  void publish_slots(const uint32_t *begin, const uint32_t *end) {
+  void publish_slots(const uint32_t *begin, const uint32_t *end, const uint64_t *labels) {
     std::unique_lock<std::shared_mutex> state_lock(update_mutex_);
-    for (const uint32_t *it = begin; it != end; ++it) {
+    for (const uint32_t *it = begin; it != end; ++it, ++labels) {
+      labels_[*it] = *labels;
+      label_to_slot_[*labels] = *it;
       slot_alloc_.publish(*it);
-      label_to_slot_[labels_[*it]] = *it;
     }
   }
 
@@ -2185,12 +2188,11 @@ class DiskANNIndex {
     return true;
   }
 
-  /// Grow labels_ on append; assign in place on slot reuse.
-  void set_label(uint32_t slot, uint64_t label) {
+  /// Grow labels_ on append; a reused slot has an entry already.
+  void grow_labels(uint32_t slot) {
     if (slot >= labels_.size()) {
       labels_.resize(static_cast<size_t>(slot) + 1, kNoLabel);
     }
-    labels_[slot] = label;
   }
 
   void resize_thread_data_slot_capacity() {
-- 
2.43.0


From dbca608cab196c1c9ff7db92a2cbf3254f808132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:51 +0000
Subject: [PATCH 47/51] fix: stop using the precomputed partitions before the
 index changes

---
 python/include/index.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/include/index.hpp b/python/include/index.hpp
index ff7ee2d..f74b075 100644
--- a/python/include/index.hpp
+++ b/python/include/index.hpp
@@ -326,11 +326,11 @@ class PyIndex : public BasePyIndex {
     if (update_job_ == nullptr) {
       throw std::runtime_error("incremental updates are not supported for the current index type");
     }
+    materialized_view_manager_.invalidate("insert");  // first: a failed insert may leave traces
     auto inserted_id = update_job_->insert_and_update(data, ef, scalar_data);
     if (inserted_id == static_cast<IDType>(-1)) {
       throw std::runtime_error("The index is full, cannot insert more vectors");
     }
-    materialized_view_manager_.invalidate("insert");
     return inserted_id;
   }
 
@@ -355,16 +355,16 @@ class PyIndex : public BasePyIndex {
     if (update_job_ == nullptr) {
       throw std::runtime_error("incremental updates are not supported for the current index type");
     }
-    update_job_->remove(id);
     materialized_view_manager_.invalidate("remove");
+    update_job_->remove(id);
   }
 
   auto remove_nondurable(const std::string &item_id) -> void {
     if (update_job_ == nullptr) {
       throw std::runtime_error("incremental updates are not supported for the current index type");
     }
-    update_job_->remove(item_id);
     materialized_view_manager_.invalidate("remove_by_item_id");
+    update_job_->remove(item_id);
   }
 
   [[nodiscard]] auto copy_vector_by_internal_id(IDType internal_id) const -> std::vector<DataType> {
@@ -522,6 +522,7 @@ class PyIndex : public BasePyIndex {
   auto load(const std::string &index_path,
             const std::string &data_path = std::string(),
             const std::string &quant_path = std::string()) -> void override {
+    materialized_view_manager_.invalidate("load");
     std::string resolved_index_path = index_path;
     std::string resolved_data_path = data_path;
     std::string resolved_quant_path = quant_path;
@@ -578,6 +579,7 @@ class PyIndex : public BasePyIndex {
       throw std::runtime_error("Array must be 2D");
     }
 
+    materialized_view_manager_.invalidate("fit");
     data_size_ = vectors.shape(0);
     data_dim_ = vectors.shape(1);
     vectors_ = static_cast<DataType *>(vectors.request().ptr);
-- 
2.43.0


From 16da4281c8e9ed0aad9fbb106930310d5507c9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:39 +0000
Subject: [PATCH 48/51] fix: workers keep waiting for tasks until they are
 joined

---
 include/executor/worker.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/executor/worker.hpp b/include/executor/worker.hpp
index 002199e..42ef598 100644
--- a/include/executor/worker.hpp
+++ b/include/executor/worker.hpp
@@ -110,7 +110,8 @@ class Worker : public std::enable_shared_from_this<Worker> {
       if (handle == nullptr) {
         auto success = task_queue_->pop(handle);
         if (!success) {
-          if (total_finish_cnt_->load() == total_task_cnt_->load()) {
+          // Being idle is no reason to quit: tasks can be scheduled until the worker is joined.
+          if (!active_.load() && total_finish_cnt_->load() == total_task_cnt_->load()) {
             break;
           }
           continue;
@@ -172,7 +173,7 @@ class Worker : public std::enable_shared_from_this<Worker> {
   WorkerID id_{0};   ///< Worker identifier
   CpuID cpu_id_{0};  ///< CPU identifier, represents the CPU on which the worker operates.
 
-  bool active_{true};  ///< Flag indicating whether the worker is active.
+  std::atomic<bool> active_{true};  ///< Flag indicating whether the worker is active.
 
   std::thread thread_;  ///< The thread associated with the worker.
 
-- 
2.43.0


From 6632b6fe03811d6227980d0cff7d962a06377496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:39 +0000
Subject: [PATCH 49/51] fix: a task that yields to the scheduler is resumed by
 one worker only

---
 include/executor/scheduler.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/executor/scheduler.hpp b/include/executor/scheduler.hpp
index 8cabc89..1cef0b4 100644
--- a/include/executor/scheduler.hpp
+++ b/include/executor/scheduler.hpp
@@ -59,18 +59,16 @@ class Scheduler {
     }
 
     /**
-     * @brief Suspends the current coroutine and schedules it to be resumed later by a worker
-     * thread.
+     * @brief Suspends the current coroutine and hands control back to the worker.
      *
-     * This function stores the awaiting coroutine and hands control back to the scheduler. The
-     * coroutine will be resumed by the worker thread once the task is ready to continue.
+     * The worker running the task keeps it among its local tasks and resumes it in its turn, so the
+     * task must not be put into the queue as well: another worker would resume it a second time.
      *
-     * @param awaiting_coroutine The coroutine that is waiting to be resumed.
      * @return Always returns true to indicate that the coroutine is suspended.
      */
     template <typename Promise>
-    auto await_suspend(std::coroutine_handle<Promise> awaiting_coroutine) noexcept -> bool {
-      scheduler_.resume(awaiting_coroutine);
+    auto await_suspend(
+        [[maybe_unused]] std::coroutine_handle<Promise> awaiting_coroutine) noexcept -> bool {
       return true;
     }
 
-- 
2.43.0


From 6f5588e56a3113d5172f48f40822cb8678f0853d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:39 +0000
Subject: [PATCH 50/51] fix: batch search with no threads requested still
 searches

---
 python/include/index.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/include/index.hpp b/python/include/index.hpp
index f74b075..c8fcb98 100644
--- a/python/include/index.hpp
+++ b/python/include/index.hpp
@@ -1113,6 +1113,7 @@ class PyIndex : public BasePyIndex {
 
     {
       py::gil_scoped_release release;
+      num_threads = std::max<uint32_t>(1, num_threads);  // without a worker nothing would be searched
       std::vector<CpuID> worker_cpus;
       std::vector<coro::task<>> coros;
 
@@ -1196,6 +1197,7 @@ class PyIndex : public BasePyIndex {
 
     {
       py::gil_scoped_release release;
+      num_threads = std::max<uint32_t>(1, num_threads);  // without a worker nothing would be searched
       std::vector<CpuID> worker_cpus;
       std::vector<coro::task<>> coros;
 
-- 
2.43.0


From f63b22b9b72c7889f1716d35c079448d5cf48a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:39 +0000
Subject: [PATCH 51/51] fix: positions without a result of a RaBitQ search hold
 the invalid id

---
 include/executor/jobs/graph_search_job.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/executor/jobs/graph_search_job.hpp b/include/executor/jobs/graph_search_job.hpp
index 8b85bf4..a78e104 100644
--- a/include/executor/jobs/graph_search_job.hpp
+++ b/include/executor/jobs/graph_search_job.hpp
@@ -411,6 +411,7 @@ struct GraphSearchJob {
 
     // return result
     res_pool.copy_results_to(reinterpret_cast<uint32_t *>(ids));
+    fill_invalid_ids(ids, static_cast<uint32_t>(res_pool.size()), k);
   }
 
 #if defined(__linux__)
@@ -483,6 +484,7 @@ struct GraphSearchJob {
 
     // return result
     res_pool.copy_results_to(reinterpret_cast<uint32_t *>(ids));
+    fill_invalid_ids(ids, static_cast<uint32_t>(res_pool.size()), k);
 
     co_return;
   }
-- 
2.43.0

