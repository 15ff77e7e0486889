From 971ed20366862a4c7d3ea58b8a5af71e7c74111f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:21 +0000
Subject: [PATCH 01/39] fix: fail key reconstruction with a status when key
 shares are missing or malformed

The server process was terminated by a failed check when no neighbor of a
client answered in the unmasking round, or when a client sent a self mask key
share of an unexpected size. Reconstruction now returns an error, which aborts
the session.
---
 fcp/secagg/shared/aes_key.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fcp/secagg/shared/aes_key.cc b/fcp/secagg/shared/aes_key.cc
index 721399f..71e4e5e 100644
--- a/fcp/secagg/shared/aes_key.cc
+++ b/fcp/secagg/shared/aes_key.cc
@@ -43,10 +43,18 @@ StatusOr<AesKey> AesKey::CreateFromShares(
       key_length = kLegacyKeySize;  // May be 17 bytes or shorter, see below
     } else {
       // Key share must be missing if it's not one of those lengths.
-      FCP_CHECK(shares[i].data.empty());
+      if (!shares[i].data.empty()) {
+        return FCP_STATUS(INVALID_ARGUMENT)
+               << "Key share with index " << i << " has unexpected size "
+               << shares[i].data.size();
+      }
     }
   }
-  FCP_CHECK(key_length != 0);
+  if (key_length == 0) {
+    return FCP_STATUS(FAILED_PRECONDITION)
+           << "No key shares were provided, but threshold was specified as "
+           << threshold;
+  }
   std::string reconstructed;
   FCP_ASSIGN_OR_RETURN(
       reconstructed, reconstructor.Reconstruct(threshold, shares, key_length));
-- 
2.43.0


From abbcef3b17acae1448e445e6cb5c0de2e851efd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:21 +0000
Subject: [PATCH 02/39] fix: check the number of key shares in an
 UnmaskingResponse

A response with fewer shares than the client has neighbors was read out of
bounds.
---
 fcp/secagg/server/secagg_server_protocol_impl.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fcp/secagg/server/secagg_server_protocol_impl.cc b/fcp/secagg/server/secagg_server_protocol_impl.cc
index cceb251..48d5a58 100644
--- a/fcp/secagg/server/secagg_server_protocol_impl.cc
+++ b/fcp/secagg/server/secagg_server_protocol_impl.cc
@@ -258,6 +258,14 @@ Status SecAggServerProtocolImpl::HandleUnmaskingResponse(
             self_shamir_share_table_ != nullptr)
       << "Shamir Shares Tables haven't been initialized";
 
+  // Verify the client sent the expected number of shares.
+  if (unmasking_response.noise_or_prf_key_shares().size() !=
+      number_of_neighbors()) {
+    return ::absl::InvalidArgumentError(
+        "The UnmaskingResponse does not contain the expected number of key "
+        "shares.");
+  }
+
   // Verify the client sent all the right types of shares.
   for (uint32_t i = 0; i < number_of_neighbors(); ++i) {
     int ith_neighbor = GetNeighbor(client_id, i);
-- 
2.43.0


From 02a46a61dc29efa8461ca2b11137cb88e0e21262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:07 +0000
Subject: [PATCH 03/39] fix: check sizes of key shares before reconstructing
 keys

Key shares come from remote clients, so shares of the wrong size must fail the
session instead of terminating the server process.
---
 .../server/secagg_server_protocol_impl.cc     | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/fcp/secagg/server/secagg_server_protocol_impl.cc b/fcp/secagg/server/secagg_server_protocol_impl.cc
index 48d5a58..e209842 100644
--- a/fcp/secagg/server/secagg_server_protocol_impl.cc
+++ b/fcp/secagg/server/secagg_server_protocol_impl.cc
@@ -318,6 +318,29 @@ Status SecAggServerProtocolImpl::HandleUnmaskingResponse(
 // PRNG computation methods
 // -----------------------------------------------------------------------------
 
+// Verifies that the key shares received from clients can be passed on to
+// ShamirSecretSharing::Reconstruct: all shares that are present must have the
+// same size, which must be a whole number of 4-byte subsecret shares and at
+// most the size of a share of a 32-byte key.
+static Status ValidateShareSizes(const std::vector<ShamirShare>& shares) {
+  constexpr size_t kMaxShareSize = 36;
+  size_t share_size = 0;
+  for (const ShamirShare& share : shares) {
+    if (share.data.empty()) {
+      continue;
+    }
+    if (share_size == 0) {
+      share_size = share.data.size();
+    }
+    if (share.data.size() != share_size || share_size > kMaxShareSize ||
+        share_size % 4 != 0) {
+      return ::absl::InvalidArgumentError(
+          "Key shares received from clients have unexpected sizes");
+    }
+  }
+  return ::absl::OkStatus();
+}
+
 StatusOr<SecAggServerProtocolImpl::ShamirReconstructionResult>
 SecAggServerProtocolImpl::HandleShamirReconstruction() {
   FCP_CHECK(pairwise_shamir_share_table_ != nullptr &&
@@ -328,6 +351,7 @@ SecAggServerProtocolImpl::HandleShamirReconstruction() {
   ShamirSecretSharing reconstructor;
 
   for (const auto& item : *pairwise_shamir_share_table_) {
+    FCP_RETURN_IF_ERROR(ValidateShareSizes(item.second));
     FCP_ASSIGN_OR_RETURN(std::string reconstructed_key,
                          reconstructor.Reconstruct(
                              minimum_surviving_neighbors_for_reconstruction(),
@@ -346,6 +370,7 @@ SecAggServerProtocolImpl::HandleShamirReconstruction() {
   }
 
   for (const auto& item : *self_shamir_share_table_) {
+    FCP_RETURN_IF_ERROR(ValidateShareSizes(item.second));
     FCP_ASSIGN_OR_RETURN(
         AesKey reconstructed,
         AesKey::CreateFromShares(
-- 
2.43.0


From 2540d085cbd74e818859077528ca720ac00f9cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:08 +0000
Subject: [PATCH 04/39] fix: wait for the PRNG completion callback when
 cancelling a SecAgg server session

Aborting the server while the unmasking computation was finishing destroyed the
state, and possibly the whole server, which the completion callback was still
using. Cancelling now prevents the callback from starting, or waits for it. The
callback of the server's owner is scheduled rather than run from within the
completion callback, so that waiting can't deadlock with it.
---
 .../aes/aes_secagg_server_protocol_impl.cc    | 22 +++++++------
 fcp/secagg/server/secagg_scheduler.h          | 31 ++++++++++++++++++-
 .../secagg_server_prng_running_state.cc       | 16 +++++-----
 3 files changed, 50 insertions(+), 19 deletions(-)

diff --git a/fcp/secagg/server/aes/aes_secagg_server_protocol_impl.cc b/fcp/secagg/server/aes/aes_secagg_server_protocol_impl.cc
index b060eb2..90d1c4e 100644
--- a/fcp/secagg/server/aes/aes_secagg_server_protocol_impl.cc
+++ b/fcp/secagg/server/aes/aes_secagg_server_protocol_impl.cc
@@ -211,15 +211,19 @@ AsyncToken AesSecAggServerProtocolImpl::StartPrng(
     accumulator->Schedule(generator);
   }
   accumulator->SetAsyncObserver([=, accumulator = accumulator.get()]() {
-    auto unpacked_map = accumulator->GetResultAndCancel();
-    auto packed_map = std::make_unique<SecAggVectorMap>();
-    for (auto& entry : *unpacked_map) {
-      uint64_t modulus = entry.second.modulus();
-      packed_map->emplace(entry.first,
-                          SecAggVector(std::move(entry.second), modulus));
-    }
-    SetResult(std::move(packed_map));
-    done_callback(absl::OkStatus());
+    // Both this object and the one done_callback refers to may be destroyed
+    // once the computation has been cancelled.
+    accumulator->RunUnlessCancelled([&] {
+      auto unpacked_map = accumulator->GetResultAndCancel();
+      auto packed_map = std::make_unique<SecAggVectorMap>();
+      for (auto& entry : *unpacked_map) {
+        uint64_t modulus = entry.second.modulus();
+        packed_map->emplace(entry.first,
+                            SecAggVector(std::move(entry.second), modulus));
+      }
+      SetResult(std::move(packed_map));
+      done_callback(absl::OkStatus());
+    });
   });
   return accumulator;
 }
diff --git a/fcp/secagg/server/secagg_scheduler.h b/fcp/secagg/server/secagg_scheduler.h
index f9cd72b..d226ba6 100644
--- a/fcp/secagg/server/secagg_scheduler.h
+++ b/fcp/secagg/server/secagg_scheduler.h
@@ -20,6 +20,7 @@
 #include <atomic>
 #include <functional>
 #include <memory>
+#include <thread>
 #include <utility>
 
 #include "absl/synchronization/mutex.h"
@@ -212,6 +213,23 @@ class Accumulator : public AsyncWorker,
     }
   }
 
+  // Runs the function unless Cancel() has been called. Once started, the
+  // function is waited for by Cancel(), so it may use objects that are destroyed
+  // after Cancel() returns. To be used by at most one function at a time.
+  void RunUnlessCancelled(const std::function<void()>& function) {
+    {
+      absl::MutexLock lock(&mutex_);
+      if (cancel_called_) {
+        return;
+      }
+      running_thread_id_ = std::this_thread::get_id();
+    }
+    function();
+    absl::MutexLock lock(&mutex_);
+    running_thread_id_ = std::thread::id();
+    inactive_cv_.SignalAll();
+  }
+
   // Take the accumulated result and abort any further work. This method can
   // only be called when the accumulator is idle
   std::unique_ptr<T> GetResultAndCancel() {
@@ -225,7 +243,12 @@ class Accumulator : public AsyncWorker,
   void Cancel() override {
     mutex_.Lock();
     is_cancelled_ = true;
-    while (active_count_ > 0) {
+    cancel_called_ = true;
+    // A function passed to RunUnlessCancelled() may itself call Cancel(), in
+    // which case it must not be waited for.
+    while (active_count_ > 0 ||
+           (running_thread_id_ != std::thread::id() &&
+            running_thread_id_ != std::this_thread::get_id())) {
       inactive_cv_.Wait(&mutex_);
     }
     mutex_.Unlock();
@@ -295,6 +318,12 @@ class Accumulator : public AsyncWorker,
   size_t active_count_ ABSL_GUARDED_BY(mutex_) = 0;
   // This is set to true when the run is aborted.
   bool is_cancelled_ ABSL_GUARDED_BY(mutex_) = false;
+  // This is set to true when Cancel() is called.
+  bool cancel_called_ ABSL_GUARDED_BY(mutex_) = false;
+
+  // The thread which is in a RunUnlessCancelled() call, if any.
+  std::thread::id running_thread_id_ ABSL_GUARDED_BY(mutex_);
+
   // Protects active_count_ and cancelled_.
   absl::Mutex mutex_;
   // Used to notify cancellation about reaching inactive state;
diff --git a/fcp/secagg/server/secagg_server_prng_running_state.cc b/fcp/secagg/server/secagg_server_prng_running_state.cc
index 8ad33d8..360ac8d 100644
--- a/fcp/secagg/server/secagg_server_prng_running_state.cc
+++ b/fcp/secagg/server/secagg_server_prng_running_state.cc
@@ -119,15 +119,13 @@ void SecAggServerPrngRunningState::PrngRunnerFinished(Status final_status) {
   }
   Trace<PrngExpansion>(elapsed_millis);
 
-  std::function<void()> prng_done_callback;
-  {
-    absl::MutexLock lock(&mutex_);
-    completion_status_ = final_status;
-    prng_done_callback = prng_done_callback_;
-  }
-
-  if (prng_done_callback) {
-    prng_done_callback();
+  absl::MutexLock lock(&mutex_);
+  completion_status_ = final_status;
+  if (prng_done_callback_) {
+    // The callback isn't run directly because aborting the server waits for
+    // this method to finish, and the callback may be waiting for the thread
+    // which is aborting the server.
+    impl()->scheduler()->ScheduleCallback(prng_done_callback_);
   }
 }
 
-- 
2.43.0


From 5564ce5547fd76a90a3a6951ae6e0d7e1da306ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:07 +0000
Subject: [PATCH 05/39] fix: report errors that occur while reading a file

A read error in the middle of a file was only visible on the destination
stream, so ReadFileToString and ReadFileToCord returned the part read so far
as if it were the whole file.
---
 fcp/base/platform.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/fcp/base/platform.cc b/fcp/base/platform.cc
index 0f43c72..6d5d7e1 100644
--- a/fcp/base/platform.cc
+++ b/fcp/base/platform.cc
@@ -21,8 +21,8 @@
 
 #include <cstdio>
 #include <fstream>
-#include <sstream>
 #include <string>
+#include <utility>
 
 #include "absl/status/status.h"
 
@@ -66,13 +66,17 @@ absl::StatusOr<T> ReadFile(absl::string_view file_name) {
     return absl::InternalError(
         absl::StrCat("cannot read file ", file_name_str));
   }
-  std::ostringstream buffer;
-  buffer << is.rdbuf();
-  if (!is) {
+  std::string contents;
+  char buffer[4096];
+  do {
+    is.read(buffer, sizeof(buffer));
+    contents.append(buffer, is.gcount());
+  } while (is);
+  if (is.bad()) {
     return absl::InternalError(
         absl::StrCat("error reading file ", file_name_str));
   }
-  return static_cast<T>(buffer.str());
+  return static_cast<T>(std::move(contents));
 }
 
 }  // namespace internal
-- 
2.43.0


From ee8f33554adc939453ddf8a43d70dfca1b232a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:07 +0000
Subject: [PATCH 06/39] fix: report errors when flushing a written file

Buffered data is written when the stream is closed. The destructor ignored
failures of that write, so a full disk could go unnoticed.
---
 fcp/base/platform.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fcp/base/platform.cc b/fcp/base/platform.cc
index 6d5d7e1..e015792 100644
--- a/fcp/base/platform.cc
+++ b/fcp/base/platform.cc
@@ -98,6 +98,8 @@ absl::Status WriteStringToFile(absl::string_view file_name,
         absl::StrCat("cannot create file ", file_name_str));
   }
   os << content;
+  // Closing flushes the remaining data, which may fail, too.
+  os.close();
   if (!os) {
     return absl::InternalError(
         absl::StrCat("error writing to file ", file_name_str));
@@ -120,6 +122,12 @@ absl::Status WriteCordToFile(absl::string_view file_name,
           absl::StrCat("error writing to file ", file_name_str));
     }
   }
+  // Closing flushes the remaining data, which may fail, too.
+  os.close();
+  if (!os) {
+    return absl::InternalError(
+        absl::StrCat("error writing to file ", file_name_str));
+  }
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 8b0a8b90af86a0374fb13a4086cf74c3f92ca548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:25 +0000
Subject: [PATCH 07/39] fix: add cache entries only after the resource was
 written

The manifest entry was stored before the file. A failed write or a crash in
between left an incomplete file that later lookups returned as a hit. Putting
an existing id kept the old file although the interface says that it is
overwritten.
---
 .../cache/file_backed_resource_cache.cc       | 41 ++++++++-----------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/fcp/client/cache/file_backed_resource_cache.cc b/fcp/client/cache/file_backed_resource_cache.cc
index d71b97c..5f76f8a 100644
--- a/fcp/client/cache/file_backed_resource_cache.cc
+++ b/fcp/client/cache/file_backed_resource_cache.cc
@@ -168,9 +168,11 @@ absl::Status FileBackedResourceCache::Put(absl::string_view cache_id,
   }
 
   FCP_ASSIGN_OR_RETURN(CacheManifest manifest, ReadInternal());
+  std::string cache_id_str(cache_id);
+  bool has_previous_entry = manifest.cache().contains(cache_id_str);
+
   FCP_RETURN_IF_ERROR(CleanUp(resource.size(), manifest));
 
-  std::string cache_id_str(cache_id);
   std::filesystem::path cached_file_path = cache_dir_path_ / cache_id_str;
   absl::Time now = clock_.Now();
   absl::Time expiry = now + max_age;
@@ -182,31 +184,22 @@ absl::Status FileBackedResourceCache::Put(absl::string_view cache_id,
   *cached_resource.mutable_last_accessed_time() =
       TimeUtil::ConvertAbslToProtoTimestamp(now);
 
-  // Write the manifest back to disk before we write the file.
-  manifest.mutable_cache()->insert({cache_id_str, cached_resource});
-  FCP_RETURN_IF_ERROR(
-      WriteInternal(std::make_unique<CacheManifest>(std::move(manifest))));
-
-  // Write file if it doesn't exist.
-  std::error_code exists_error;
-  bool cached_file_exists =
-      std::filesystem::exists(cached_file_path, exists_error);
-  if (exists_error.value() != 0) {
-    log_manager_.LogDiag(
-        ProdDiagCode::RESOURCE_CACHE_PUT_FAILED_TO_CHECK_IF_FILE_EXISTS);
-    return absl::InternalError(absl::StrCat(
-        "Failed to check if cached resource already exists with error code: ",
-        exists_error.value()));
+  // Drop any previous entry for this id before its file is overwritten, and add
+  // the new entry only once the file was written completely. This way the
+  // manifest never points at stale or incomplete data, even if we crash or fail
+  // partway through. An untracked file will be removed by the next CleanUp.
+  if (has_previous_entry) {
+    manifest.mutable_cache()->erase(cache_id_str);
+    FCP_RETURN_IF_ERROR(
+        WriteInternal(std::make_unique<CacheManifest>(manifest)));
   }
-  if (!cached_file_exists) {
-    auto status = WriteCordToFile(cached_file_path.string(), resource);
-    if (!status.ok()) {
-      log_manager_.LogDiag(ProdDiagCode::RESOURCE_CACHE_RESOURCE_WRITE_FAILED);
-      return status;
-    }
+  absl::Status status = WriteCordToFile(cached_file_path.string(), resource);
+  if (!status.ok()) {
+    log_manager_.LogDiag(ProdDiagCode::RESOURCE_CACHE_RESOURCE_WRITE_FAILED);
+    return status;
   }
-
-  return absl::OkStatus();
+  manifest.mutable_cache()->insert({cache_id_str, cached_resource});
+  return WriteInternal(std::make_unique<CacheManifest>(std::move(manifest)));
 }
 
 absl::StatusOr<FileBackedResourceCache::ResourceAndMetadata>
-- 
2.43.0


From cdab33a98b8f7a9a7cde49298958fc35a3d87032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:25 +0000
Subject: [PATCH 08/39] fix: reject cache ids that are not plain file names

The id names a file in the cache directory. An id with a path separator or a
relative component wrote or read files outside of that directory.
---
 fcp/client/cache/file_backed_resource_cache.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fcp/client/cache/file_backed_resource_cache.cc b/fcp/client/cache/file_backed_resource_cache.cc
index 5f76f8a..7ee7751 100644
--- a/fcp/client/cache/file_backed_resource_cache.cc
+++ b/fcp/client/cache/file_backed_resource_cache.cc
@@ -35,6 +35,7 @@
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
 #include "absl/strings/cord.h"
+#include "absl/strings/match.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/string_view.h"
 #include "absl/synchronization/mutex.h"
@@ -163,6 +164,14 @@ absl::Status FileBackedResourceCache::Put(absl::string_view cache_id,
                                           absl::Duration max_age) {
   absl::MutexLock lock(&mutex_);
 
+  // The id is used as a file name, so it must not refer to a file outside of
+  // the cache directory.
+  if (cache_id.empty() || cache_id == "." || cache_id == ".." ||
+      absl::StrContains(cache_id, '/')) {
+    return absl::InvalidArgumentError(
+        absl::StrCat(cache_id, " is not a valid cache id"));
+  }
+
   if (resource.size() > max_cache_size_bytes_ / 2) {
     return absl::ResourceExhaustedError(absl::StrCat(cache_id, " too large"));
   }
-- 
2.43.0


From 123e964f3c778c7230224cc62df85da0b831d1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:25 +0000
Subject: [PATCH 09/39] fix: return directory iteration errors instead of
 throwing

Cleaning up temporary files used the throwing overloads of std::filesystem, so
an I/O error while listing the directory ended the process.
---
 fcp/client/cache/temp_files.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/fcp/client/cache/temp_files.cc b/fcp/client/cache/temp_files.cc
index 625897c..8e93f07 100644
--- a/fcp/client/cache/temp_files.cc
+++ b/fcp/client/cache/temp_files.cc
@@ -40,23 +40,32 @@ namespace cache {
 namespace {
 
 absl::Status DeleteFilesInDirectory(const std::filesystem::path& directory) {
-  if (!std::filesystem::exists(directory)) {
+  std::error_code exists_error;
+  if (!std::filesystem::exists(directory, exists_error)) {
     return absl::InvalidArgumentError(
         absl::StrCat("Directory does not exist: ", directory.string()));
   }
   absl::Status status = absl::OkStatus();
   // Note this only iterates through the top level directory and will not
   // traverse subdirectories.
-  for (auto& de : std::filesystem::directory_iterator(directory)) {
+  std::error_code iterator_error;
+  for (std::filesystem::directory_iterator it(directory, iterator_error);
+       !iterator_error && it != std::filesystem::directory_iterator();
+       it.increment(iterator_error)) {
     std::error_code error;
     // Save the first error, but attempt to delete the other files.
-    if (!std::filesystem::remove(de.path(), error)) {
+    if (!std::filesystem::remove(it->path(), error)) {
       if (status.ok()) {
         status = absl::InternalError(absl::StrCat(
             "Failed to delete file with error code: ", error.value()));
       }
     }
   }
+  if (iterator_error && status.ok()) {
+    status = absl::InternalError(
+        absl::StrCat("Failed to iterate over directory with error code: ",
+                     iterator_error.value()));
+  }
   return status;
 }
 
-- 
2.43.0


From ccf56240b17a9ae05089155a6ca4a36ac522174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:25 +0000
Subject: [PATCH 10/39] fix: fail when a temporary file cannot be created
 exclusively

When the exclusive open failed, the file was opened again without that flag.
If the name was taken, an existing temporary file was truncated and handed out
a second time.
---
 fcp/client/cache/temp_files.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fcp/client/cache/temp_files.cc b/fcp/client/cache/temp_files.cc
index 8e93f07..b5b6193 100644
--- a/fcp/client/cache/temp_files.cc
+++ b/fcp/client/cache/temp_files.cc
@@ -122,6 +122,10 @@ absl::StatusOr<std::string> TempFiles::CreateTempFile(
   } while ((fd = open(candidate_path.c_str(), O_CREAT | O_EXCL | O_RDWR,
                       S_IRWXU)) == -1 &&
            errno == EEXIST);
+  if (fd == -1) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("could not create file ", candidate_path.string()));
+  }
   close(fd);
   std::ofstream tmp_file(candidate_path);
   if (!tmp_file) {
-- 
2.43.0


From d3b107ab9c086de6a17605011d92310ff722c744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:25 +0000
Subject: [PATCH 11/39] fix: do not replace an earlier entry after a failed
 opstats commit

The first commit of a run appends an entry and later ones replace the last
entry. A failed first commit counted as done, so the next one overwrote the
entry of a previous run.
---
 fcp/client/opstats/opstats_logger_impl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fcp/client/opstats/opstats_logger_impl.cc b/fcp/client/opstats/opstats_logger_impl.cc
index 6e1124b..725f836 100644
--- a/fcp/client/opstats/opstats_logger_impl.cc
+++ b/fcp/client/opstats/opstats_logger_impl.cc
@@ -225,7 +225,8 @@ absl::Status OpStatsLoggerImpl::CommitToStorage() {
   log_manager_->LogToLongHistogram(
       HistogramCounters::TRAINING_OPSTATS_COMMIT_LATENCY,
       absl::ToInt64Milliseconds(after_commit_time - before_commit_time));
-  already_committed_ = true;
+  // A failed commit left no entry of this run behind that could be replaced.
+  already_committed_ = already_committed_ || status.ok();
   return status;
 }
 
-- 
2.43.0


From e8de285c7d66c2722ba36b394cb148794c1e608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:09 +0000
Subject: [PATCH 12/39] fix: keep response header values that contain colons

A header value was cut off at its first colon, so for example a Date or Link
header arrived truncated.
---
 fcp/client/http/curl/curl_header_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/client/http/curl/curl_header_parser.cc b/fcp/client/http/curl/curl_header_parser.cc
index 51836a5..87d5d35 100644
--- a/fcp/client/http/curl/curl_header_parser.cc
+++ b/fcp/client/http/curl/curl_header_parser.cc
@@ -69,7 +69,7 @@ bool CurlHeaderParser::ParseAsHeader(const std::string& header_string) {
   }
 
   std::pair<std::string, std::string> split =
-      absl::StrSplit(header_string, ':');
+      absl::StrSplit(header_string, absl::MaxSplits(':', 1));
   std::string key = split.first;
   std::string value = std::string(absl::StripAsciiWhitespace(split.second));
 
-- 
2.43.0


From c7ff2351dfebdf3ecfc04aa8dbcfcf1aa3f3bff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:09 +0000
Subject: [PATCH 13/39] fix: report only the final response as started

Informational responses and redirects other than 301 were reported as the
response, and every header line after the first complete header block
reported the response as started once more.
---
 fcp/client/http/curl/curl_header_parser.cc    | 19 +++++++++++++++----
 .../http/curl/curl_http_request_handle.cc     |  4 ++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/fcp/client/http/curl/curl_header_parser.cc b/fcp/client/http/curl/curl_header_parser.cc
index 87d5d35..ed712a7 100644
--- a/fcp/client/http/curl/curl_header_parser.cc
+++ b/fcp/client/http/curl/curl_header_parser.cc
@@ -15,6 +15,7 @@
  */
 #include "fcp/client/http/curl/curl_header_parser.h"
 
+#include <algorithm>
 #include <string>
 #include <utility>
 
@@ -60,6 +61,7 @@ bool CurlHeaderParser::ParseAsStatus(const std::string& header_string) {
   // It is required that we store only the final header list. So we keep the
   // last set of headers
   header_list_.clear();
+  is_last_header_line_ = false;
   return true;
 }
 
@@ -88,10 +90,19 @@ bool CurlHeaderParser::ParseAsHeader(const std::string& header_string) {
 bool CurlHeaderParser::ParseAsLastLine(const std::string& header_string) {
   // In general, it is impossible to tell when curl will reach the last
   // header because there could another one in some special cases. In
-  // particular, it happens when curl hits a redirect status code (301).
-  // In this case, we need to proceed.
-  if (std::string(header_string) == "\r\n" &&
-      status_code_ != HttpResponseCode::kHttpMovedPermanently) {
+  // particular, it happens when curl hits a redirect status code (301, or any
+  // other 3xx status with a location to follow) or an informational response
+  // (1xx). In this case, we need to proceed.
+  const bool is_informational = status_code_ >= 100 && status_code_ < 200;
+  const bool has_location = std::any_of(
+      header_list_.begin(), header_list_.end(), [](const auto& header) {
+        return absl::EqualsIgnoreCase(header.first, "Location");
+      });
+  const bool is_redirect =
+      status_code_ == HttpResponseCode::kHttpMovedPermanently ||
+      (status_code_ >= 300 && status_code_ < 400 && has_location);
+  if (std::string(header_string) == "\r\n" && !is_informational &&
+      !is_redirect) {
     is_last_header_line_ = true;
     return true;
   }
diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index b7af189..2f9f135 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -78,6 +78,10 @@ curl_slist* AddToCurlHeaderList(curl_slist* header_list, const std::string& key,
 size_t CurlHttpRequestHandle::HeaderCallback(char* buffer, size_t size,
                                              size_t n_items, void* user_data) {
   auto self = static_cast<CurlHttpRequestHandle*>(user_data);
+  if (self->response_ != nullptr) {
+    // The response has already started; this is a trailer.
+    return size * n_items;
+  }
   std::string str_header(static_cast<char*>(buffer), size * n_items);
 
   self->header_parser_.ParseHeader(str_header);
-- 
2.43.0


From b68e119da2f20e23f53d8bb472dd4039d53e74ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:09 +0000
Subject: [PATCH 14/39] fix: report transfers that fail after the response
 headers as errors

A connection lost while the response body was arriving was reported as a
completed response with a truncated body.
---
 fcp/client/http/curl/curl_http_client.cc         |  2 +-
 fcp/client/http/curl/curl_http_request_handle.cc | 10 ++++++++--
 fcp/client/http/curl/curl_http_request_handle.h  |  5 +++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_client.cc b/fcp/client/http/curl/curl_http_client.cc
index c5f75e7..aa86abf 100644
--- a/fcp/client/http/curl/curl_http_client.cc
+++ b/fcp/client/http/curl/curl_http_client.cc
@@ -45,7 +45,7 @@ void ReadCompleteMessages(CurlMultiHandle* multi_handle) {
       FCP_CHECK(user_data != nullptr);
 
       auto handle = static_cast<CurlHttpRequestHandle*>(user_data);
-      handle->MarkAsCompleted();
+      handle->MarkAsCompleted(msg->data.result);
       handle->RemoveFromMulti(multi_handle);
     }
   }
diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index 2f9f135..ec198cd 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -192,13 +192,19 @@ void CurlHttpRequestHandle::Cancel() {
   is_cancelled_ = true;
 }
 
-void CurlHttpRequestHandle::MarkAsCompleted() {
+void CurlHttpRequestHandle::MarkAsCompleted(CURLcode result) {
   absl::MutexLock lock(&mutex_);
 
   FCP_CHECK(callback_ != nullptr);
   if (!is_cancelled_ && !is_completed_) {
     if (response_ != nullptr) {
-      callback_->OnResponseCompleted(*request_, *response_);
+      if (result == CURLE_OK) {
+        callback_->OnResponseCompleted(*request_, *response_);
+      } else {
+        callback_->OnResponseBodyError(
+            *request_, *response_,
+            absl::InternalError(CurlEasyHandle::StrError(result)));
+      }
     } else {
       callback_->OnResponseError(*request_,
                                  absl::InternalError("response_ is nullptr"));
diff --git a/fcp/client/http/curl/curl_http_request_handle.h b/fcp/client/http/curl/curl_http_request_handle.h
index 3b0147c..ef3747e 100644
--- a/fcp/client/http/curl/curl_http_request_handle.h
+++ b/fcp/client/http/curl/curl_http_request_handle.h
@@ -55,8 +55,9 @@ class CurlHttpRequestHandle : public HttpRequestHandle {
   // Removes this request from the corresponding multi-handle.
   void RemoveFromMulti(CurlMultiHandle* multi_handle)
       ABSL_LOCKS_EXCLUDED(mutex_);
-  // Marks the request as completed which fires the OnComplete callback.
-  void MarkAsCompleted() ABSL_LOCKS_EXCLUDED(mutex_);
+  // Marks the request as completed which fires the OnComplete callback, or an
+  // error callback if the transfer failed.
+  void MarkAsCompleted(CURLcode result) ABSL_LOCKS_EXCLUDED(mutex_);
 
   // HttpRequestHandle overrides:
   ABSL_MUST_USE_RESULT HttpRequestHandle::SentReceivedBytes
-- 
2.43.0


From f968594d2da892c98448579f8ed70442815d593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:09 +0000
Subject: [PATCH 15/39] fix: end a request whose callback returns an error

The transfer went on and the callback kept being called, although the
HttpRequestCallback contract allows no further calls after it has returned an
error.
---
 fcp/client/http/curl/curl_http_request_handle.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index ec198cd..968bfca 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -99,7 +99,10 @@ size_t CurlHttpRequestHandle::HeaderCallback(char* buffer, size_t size,
 
   if (!status.ok()) {
     FCP_LOG(ERROR) << "Called OnResponseStarted. Received status: " << status;
-    self->callback_->OnResponseError(*self->request_, status);
+    // No further callbacks must be called for this request.
+    absl::MutexLock lock(&self->mutex_);
+    self->is_completed_ = true;
+    return 0;
   }
 
   return size * n_items;
@@ -115,8 +118,10 @@ size_t CurlHttpRequestHandle::DownloadCallback(void* body, size_t size,
 
   if (!status.ok()) {
     FCP_LOG(ERROR) << "Called OnResponseBody. Received status: " << status;
-    self->callback_->OnResponseBodyError(*self->request_, *self->response_,
-                                         status);
+    // No further callbacks must be called for this request.
+    absl::MutexLock lock(&self->mutex_);
+    self->is_completed_ = true;
+    return 0;
   }
 
   return size * nmemb;
-- 
2.43.0


From 40e52ae87c6e92741ef1bad709d8c2f5b0158f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:09 +0000
Subject: [PATCH 16/39] fix: do not perform requests that were cancelled before

Cancelling a request handle before it was passed to PerformRequests had no
effect.
---
 fcp/client/http/curl/curl_http_request_handle.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index 968bfca..185c5d2 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -185,7 +185,12 @@ CurlHttpRequestHandle::~CurlHttpRequestHandle() {
 void CurlHttpRequestHandle::Cancel() {
   absl::MutexLock lock(&mutex_);
 
-  if (callback_ == nullptr || is_cancelled_ || is_completed_) {
+  if (is_cancelled_ || is_completed_) {
+    return;
+  }
+  is_cancelled_ = true;
+  if (callback_ == nullptr) {
+    // Not being performed yet; AddToMulti will refuse the request.
     return;
   }
   if (response_ != nullptr) {
@@ -194,7 +199,6 @@ void CurlHttpRequestHandle::Cancel() {
   } else {
     callback_->OnResponseError(*request_, absl::CancelledError());
   }
-  is_cancelled_ = true;
 }
 
 void CurlHttpRequestHandle::MarkAsCompleted(CURLcode result) {
-- 
2.43.0


From 3c0b8b16ed312efc8345d577b4052d943ef91a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:09 +0000
Subject: [PATCH 17/39] fix: send an explicit Accept-Encoding request header

The header was dropped although the HttpClient contract says that it is used
verbatim.
---
 fcp/client/http/curl/curl_http_request_handle.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index 185c5d2..b7b62bb 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -386,9 +386,7 @@ CURLcode CurlHttpRequestHandle::InitializeHeaders(
   }
 
   for (auto& [key, value] : extra_headers) {
-    if (absl::EqualsIgnoreCase(key, kAcceptEncodingHdr)) {
-      continue;
-    } else if (absl::EqualsIgnoreCase(key, kContentLengthHdr)) {
+    if (absl::EqualsIgnoreCase(key, kContentLengthHdr)) {
       if (method == HttpRequest::Method::kPost) {
         // For post less than 2GB
         CURL_RETURN_IF_ERROR(
-- 
2.43.0


From 845e3725f1e1faf66c3c05b37505f17443986143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:19 +0000
Subject: [PATCH 18/39] fix: refuse client payloads with an incomplete header

A payload cut off inside its header was accepted if the cut happened to lie
between two fields, with the remaining fields left empty.
---
 fcp/confidentialcompute/client_payload.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fcp/confidentialcompute/client_payload.cc b/fcp/confidentialcompute/client_payload.cc
index 04fbfbc..8ec093a 100644
--- a/fcp/confidentialcompute/client_payload.cc
+++ b/fcp/confidentialcompute/client_payload.cc
@@ -87,9 +87,14 @@ absl::StatusOr<ClientPayloadHeader> DecodeAndConsumeClientPayloadHeader(
     return absl::InvalidArgumentError("Could not read 'size' varint64");
   }
 
+  if (serialized_payload_size >
+      encoded_data.size() - coded_in.CurrentPosition()) {
+    return absl::InvalidArgumentError("Incomplete serialized payload");
+  }
   auto limit = coded_in.PushLimit(serialized_payload_size);
   AggregationClientPayloadHeader payload_header;
-  if (!payload_header.ParseFromCodedStream(&coded_in)) {
+  if (!payload_header.ParseFromCodedStream(&coded_in) ||
+      coded_in.BytesUntilLimit() != 0) {
     return absl::InvalidArgumentError("Could not parse serialized payload");
   }
   coded_in.PopLimit(limit);
-- 
2.43.0


From 34a42ab66462a348035da86ff92f85fe88be68ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:20 +0000
Subject: [PATCH 19/39] fix: guard the secure aggregation response holder
 against a concurrent abort

When a device is interrupted, the abort message is sent from the thread that
waits for the protocol. That overwrote the stored server response while the
protocol thread could still be copying it, which read freed memory.
---
 .../http/http_secagg_send_to_server_impl.cc   | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/fcp/client/http/http_secagg_send_to_server_impl.cc b/fcp/client/http/http_secagg_send_to_server_impl.cc
index 7859265..42afdd4 100644
--- a/fcp/client/http/http_secagg_send_to_server_impl.cc
+++ b/fcp/client/http/http_secagg_send_to_server_impl.cc
@@ -26,12 +26,15 @@
 
 #include "google/protobuf/any.pb.h"
 #include "google/rpc/code.pb.h"
+#include "absl/base/attributes.h"
+#include "absl/base/const_init.h"
 #include "absl/memory/memory.h"
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/string_view.h"
 #include "absl/strings/substitute.h"
+#include "absl/synchronization/mutex.h"
 #include "absl/time/time.h"
 #include "fcp/base/clock.h"
 #include "fcp/base/monitoring.h"
@@ -61,6 +64,11 @@ using ::google::internal::federatedcompute::v1::UnmaskRequest;
 using ::google::longrunning::Operation;
 
 namespace {
+// Guards the server response holders shared between a sender and its delegate:
+// an abort message is sent from another thread than the one that runs the
+// protocol and reads the responses.
+ABSL_CONST_INIT absl::Mutex server_response_holder_mu(absl::kConstInit);
+
 absl::StatusOr<std::string> CreateAbortSecureAggregationUriSuffix(
     absl::string_view aggregation_id, absl::string_view client_token) {
   constexpr absl::string_view pattern =
@@ -195,25 +203,23 @@ void HttpSecAggSendToServerImpl::Send(
     secagg::ClientToServerWrapperMessage* message) {
   absl::StatusOr<secagg::ServerToClientWrapperMessage> server_message;
   if (message->has_advertise_keys()) {
-    server_response_holder_ =
-        DoR0AdvertiseKeys(std::move(message->advertise_keys()));
+    server_message = DoR0AdvertiseKeys(std::move(message->advertise_keys()));
   } else if (message->has_share_keys_response()) {
-    server_response_holder_ =
-        DoR1ShareKeys(std::move(message->share_keys_response()));
+    server_message = DoR1ShareKeys(std::move(message->share_keys_response()));
   } else if (message->has_masked_input_response()) {
-    server_response_holder_ = DoR2SubmitSecureAggregationResult(
+    server_message = DoR2SubmitSecureAggregationResult(
         std::move(message->masked_input_response()));
   } else if (message->has_unmasking_response()) {
-    server_response_holder_ =
-        DoR3Unmask(std::move(message->unmasking_response()));
+    server_message = DoR3Unmask(std::move(message->unmasking_response()));
   } else if (message->has_abort()) {
-    server_response_holder_ =
-        AbortSecureAggregation(std::move(message->abort()));
+    server_message = AbortSecureAggregation(std::move(message->abort()));
   } else {
     // When the protocol succeeds, the ClientToServerWrapperMessage will be
     // empty, and we'll just set the empty server message.
-    server_response_holder_ = secagg::ServerToClientWrapperMessage();
+    server_message = secagg::ServerToClientWrapperMessage();
   }
+  absl::MutexLock lock(&server_response_holder_mu);
+  server_response_holder_ = std::move(server_message);
 }
 
 absl::StatusOr<secagg::ServerToClientWrapperMessage>
@@ -441,6 +447,7 @@ absl::StatusOr<uint64_t> HttpSecAggProtocolDelegate::GetModulus(
 
 absl::StatusOr<secagg::ServerToClientWrapperMessage>
 HttpSecAggProtocolDelegate::ReceiveServerMessage() {
+  absl::MutexLock lock(&server_response_holder_mu);
   return server_response_holder_;
 }
 
@@ -449,6 +456,7 @@ void HttpSecAggProtocolDelegate::Abort() {
 }
 
 size_t HttpSecAggProtocolDelegate::last_received_message_size() {
+  absl::MutexLock lock(&server_response_holder_mu);
   if (server_response_holder_.ok()) {
     return server_response_holder_->ByteSizeLong();
   } else {
-- 
2.43.0


From d70f10b496b94fa8c48ad74e2ffeee1bf9e6048b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:57 +0000
Subject: [PATCH 20/39] fix: report a secure aggregation whose last message was
 not delivered

The protocol client is complete as soon as it has handed over its unmasking
response. The result of sending it was never looked at, so a failed or
cancelled request was still reported as a success.
---
 fcp/client/secagg_runner.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fcp/client/secagg_runner.cc b/fcp/client/secagg_runner.cc
index 590a940..ef3d6e3 100644
--- a/fcp/client/secagg_runner.cc
+++ b/fcp/client/secagg_runner.cc
@@ -199,6 +199,16 @@ absl::Status SecAggRunnerImpl::Run(ComputationResults results) {
             return absl::CancelledError("SecAgg aborted: " + error_message);
           }
         }
+        // The client is done once it has handed over its last message. Whether
+        // that message was delivered only shows in the response to it.
+        absl::StatusOr<secagg::ServerToClientWrapperMessage> last_response =
+            this->protocol_delegate_->ReceiveServerMessage();
+        if (!last_response.ok()) {
+          return absl::Status(
+              last_response.status().code(),
+              absl::StrCat("Error during SecAgg receive: ",
+                           last_response.status().message()));
+        }
         return absl::OkStatus();
       },
       [this]() {
-- 
2.43.0


From c92ddf4d6fdcaab74f19a3692790354889a95a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:30:29 +0000
Subject: [PATCH 21/39] fix: reject malformed COSE_Signature entries instead of
 dereferencing null

Decoding a token whose first signature is not an array, or whose third
element is not a byte string, dereferenced a null pointer. The type check
also tested the first element twice and never the third.
---
 fcp/confidentialcompute/cose.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fcp/confidentialcompute/cose.cc b/fcp/confidentialcompute/cose.cc
index 7032674..5146088 100644
--- a/fcp/confidentialcompute/cose.cc
+++ b/fcp/confidentialcompute/cose.cc
@@ -469,8 +469,9 @@ absl::StatusOr<OkpCwt> OkpCwt::Decode(absl::string_view encoded) {
       // which is a (protected header, unprotected header, signature) tuple.
       if (cppbor::Array* sigs = component->asArray(); sigs->size() > 0) {
         if (cppbor::Array* sig = sigs->get(0)->asArray();
-            sig->size() == 3 && sig->get(0)->type() == cppbor::BSTR &&
-            sig->get(0)->type() == cppbor::BSTR) {
+            sig != nullptr && sig->size() == 3 &&
+            sig->get(0)->type() == cppbor::BSTR &&
+            sig->get(2)->type() == cppbor::BSTR) {
           parsed_signature_and_protected_header = true;
           FCP_RETURN_IF_ERROR(
               ParseCwtProtectedHeader(sig->get(0)->asBstr()->value(), cwt));
-- 
2.43.0


From 2679f2c44632ac51ebecdb0f9fc035c50efe3d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:37 +0000
Subject: [PATCH 22/39] fix: answer requests with missing, invalid or truncated
 bodies in the demo server

A body shorter than its Content-Length was handed to the service as if it
were complete, and a missing or invalid length or a truncated gzip stream
ended the request without a response.
---
 fcp/demo/http_actions.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/fcp/demo/http_actions.py b/fcp/demo/http_actions.py
index 503da70..6ffb226 100644
--- a/fcp/demo/http_actions.py
+++ b/fcp/demo/http_actions.py
@@ -239,11 +239,20 @@ def create_handler(*services: Any) -> Type[http.server.BaseHTTPRequestHandler]:
 
     def _read_body(self) -> bytes:
       """Reads the body of the request."""
-      body = self.rfile.read(int(self.headers['Content-Length']))
+      try:
+        content_length = int(self.headers['Content-Length'])
+      except (TypeError, ValueError) as e:
+        raise HttpError(http.HTTPStatus.LENGTH_REQUIRED) from e
+      if content_length < 0:
+        raise HttpError(http.HTTPStatus.BAD_REQUEST)
+      body = self.rfile.read(content_length)
+      if len(body) != content_length:
+        # The connection was closed before the entire body was received.
+        raise HttpError(http.HTTPStatus.BAD_REQUEST)
       if self.headers['Content-Encoding'] == 'gzip':
         try:
           body = gzip.decompress(body)
-        except (gzip.BadGzipFile, zlib.error) as e:
+        except (EOFError, gzip.BadGzipFile, zlib.error) as e:
           raise HttpError(http.HTTPStatus.BAD_REQUEST) from e
       elif self.headers['Content-Encoding']:
         logging.warning('Unsupported content encoding %s',
-- 
2.43.0


From 0a8fb8accf61cdf16210aa457c04786a013b293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:23 +0000
Subject: [PATCH 23/39] fix: release the upload of a client that submits
 another resource name

The client was no longer active, so nothing released its upload or closed
it in the aggregation protocol. Closing a client after the session ended
no longer ends the request without a response.
---
 fcp/demo/aggregations.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/fcp/demo/aggregations.py b/fcp/demo/aggregations.py
index e74b308..e0509a3 100644
--- a/fcp/demo/aggregations.py
+++ b/fcp/demo/aggregations.py
@@ -345,6 +345,15 @@ class Service:
     else:
       return http.HTTPStatus.INTERNAL_SERVER_ERROR
 
+  def _close_client(self, state: _AggregationSessionState, client_id: int,
+                    message: str, code: int) -> None:
+    """Notifies the aggregation protocol that a client has left."""
+    try:
+      state.agg_protocol.CloseClient(client_id, message, code)
+    except absl_status.StatusNotOk as e:
+      # The session may have ended, in which case all clients are closed.
+      logging.debug('Failed to close client: %s', e)
+
   def _cleanup_session(self, state: _AggregationSessionState) -> None:
     """Cleans up the session and releases any resources.
 
@@ -422,6 +431,12 @@ class Service:
     # Ensure the client is using the resource name provided when they called
     # StartAggregationDataUpload.
     if request.resource_name != client_data.resource_name:
+      # The client is no longer active, so release its upload.
+      with contextlib.suppress(KeyError):
+        self._media_service.finalize_upload(client_data.resource_name)
+      self._close_client(state, client_data.client_id,
+                         'Unexpected resource name',
+                         absl_status.StatusCode.INVALID_ARGUMENT.value)
       raise http_actions.HttpError(http.HTTPStatus.BAD_REQUEST)
 
     # The aggregation protocol may have already closed the connect (e.g., if
@@ -447,9 +462,8 @@ class Service:
       if isinstance(e, KeyError):
         e = absl_status.StatusNotOk(
             absl_status.internal_error('Failed to finalize upload'))
-      state.agg_protocol.CloseClient(
-          client_data.client_id, e.status.message(), e.status.raw_code()
-      )
+      self._close_client(state, client_data.client_id, e.status.message(),
+                         e.status.raw_code())
       raise http_actions.HttpError(self._get_http_status(
           e.status.code())) from e
 
@@ -524,9 +538,8 @@ class Service:
           request.status.message,
       )
 
-    state.agg_protocol.CloseClient(
-        client_data.client_id, status.message(), status.raw_code()
-    )
+    self._close_client(state, client_data.client_id, status.message(),
+                       status.raw_code())
 
     logging.debug('[%s] AbortAggregation: %s', request.aggregation_id,
                   request.status)
-- 
2.43.0


From a9ef7b7be49322d70bec50140704052556e752a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:23 +0000
Subject: [PATCH 24/39] fix: do not add a client to an aggregation session that
 has ended

A session ending while StartAggregationDataUpload was in progress left an
upload registered forever, or ended the request without a response.
---
 fcp/demo/aggregations.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/fcp/demo/aggregations.py b/fcp/demo/aggregations.py
index e0509a3..b5dddf3 100644
--- a/fcp/demo/aggregations.py
+++ b/fcp/demo/aggregations.py
@@ -389,14 +389,24 @@ class Service:
       except KeyError as e:
         raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED) from e
 
-    client_id = state.agg_protocol.AddClients(1)
+    try:
+      client_id = state.agg_protocol.AddClients(1)
+    except absl_status.StatusNotOk as e:
+      # AddClients only fails if the AggregationProtocol has ended.
+      raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND) from e
     client_token = str(uuid.uuid4())
     upload_name = self._media_service.register_upload()
 
     with self._sessions_lock:
-      state.active_clients[client_token] = _ActiveClientData(
-          client_id, upload_name
-      )
+      # If the session ended in the meantime, it has already been cleaned up.
+      active = request.aggregation_id in self._sessions
+      if active:
+        state.active_clients[client_token] = _ActiveClientData(
+            client_id, upload_name
+        )
+    if not active:
+      self._media_service.finalize_upload(upload_name)
+      raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND)
 
     forwarding_info = self._forwarding_info()
     response = aggregations_pb2.StartAggregationDataUploadResponse(
-- 
2.43.0


From 8469110ef4d6cf11f2927a2938fa65c56b302fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:30 +0000
Subject: [PATCH 25/39] fix: clean up aggregation sessions under the lock

Pending waits are also removed by submissions in other threads: a wait
could be notified twice or the set change while it was iterated.
---
 fcp/demo/aggregations.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/fcp/demo/aggregations.py b/fcp/demo/aggregations.py
index b5dddf3..59ec11e 100644
--- a/fcp/demo/aggregations.py
+++ b/fcp/demo/aggregations.py
@@ -360,17 +360,18 @@ class Service:
     Args:
       state: The session state to clean up.
     """
-    state.authorization_tokens.clear()
-    for client_data in state.active_clients.values():
-      self._media_service.finalize_upload(client_data.resource_name)
-    state.active_clients.clear()
-    # Anyone waiting on the session should be notified that it's finished.
-    if state.pending_waits:
-      status = self._get_session_status(state)
-      for data in state.pending_waits:
-        data.loop.call_soon_threadsafe(
-            functools.partial(data.status_future.set_result, status))
-      state.pending_waits.clear()
+    with self._sessions_lock:
+      state.authorization_tokens.clear()
+      for client_data in state.active_clients.values():
+        self._media_service.finalize_upload(client_data.resource_name)
+      state.active_clients.clear()
+      # Anyone waiting on the session should be notified that it's finished.
+      if state.pending_waits:
+        status = self._get_session_status(state)
+        for data in state.pending_waits:
+          data.loop.call_soon_threadsafe(
+              functools.partial(data.status_future.set_result, status))
+        state.pending_waits.clear()
 
   @http_actions.proto_action(
       service='google.internal.federatedcompute.v1.Aggregations',
-- 
2.43.0


From cbcda4bb8c914f7206db0c7b013bdc0ade02f7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:30 +0000
Subject: [PATCH 26/39] fix: clean up an aborted session whose protocol has
 already ended

Abort() fails when the protocol ended because of an error of its own;
pending waits were then never notified and uploads never released.
---
 fcp/demo/aggregations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fcp/demo/aggregations.py b/fcp/demo/aggregations.py
index 59ec11e..7fadab1 100644
--- a/fcp/demo/aggregations.py
+++ b/fcp/demo/aggregations.py
@@ -218,7 +218,10 @@ class Service:
     # itself.
     if state.status == AggregationStatus.PENDING:
       state.status = AggregationStatus.ABORTED
-      state.agg_protocol.Abort()
+      try:
+        state.agg_protocol.Abort()
+      except absl_status.StatusNotOk as e:
+        logging.warning('Failed to abort aggregation session: %s', e)
 
     self._cleanup_session(state)
     return self._get_session_status(state)
-- 
2.43.0


From 1b3432735779162d25e07341a3145c745f947298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:47 +0000
Subject: [PATCH 27/39] fix: answer result reports with unrecognized status
 codes

The name of the code was looked up for logging only, and the lookup of an
unrecognized one ended the request without a response.
---
 fcp/demo/eligibility_eval_tasks.py | 8 +++++++-
 fcp/demo/task_assignments.py       | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/fcp/demo/eligibility_eval_tasks.py b/fcp/demo/eligibility_eval_tasks.py
index ef826ad..a6a8a9e 100644
--- a/fcp/demo/eligibility_eval_tasks.py
+++ b/fcp/demo/eligibility_eval_tasks.py
@@ -36,6 +36,12 @@ _TaskAssignmentMode = (
 )
 
 
+def _get_code_name(code: int) -> str:
+  """Returns a loggable name for a status code, which may be unrecognized."""
+  return code_pb2.Code.Name(code) if code in code_pb2.Code.values() else str(
+      code)
+
+
 @dataclasses.dataclass(frozen=True)
 class _Task:
   task_name: str
@@ -135,5 +141,5 @@ class Service:
     logging.log(
         logging.DEBUG if request.status_code == code_pb2.OK else logging.WARN,
         '[%s] ReportEligibilityEvalTaskResult: %s', request.session_id,
-        code_pb2.Code.Name(request.status_code))
+        _get_code_name(request.status_code))
     return eligibility_eval_tasks_pb2.ReportEligibilityEvalTaskResultResponse()
diff --git a/fcp/demo/task_assignments.py b/fcp/demo/task_assignments.py
index 2d69f54..b80261f 100644
--- a/fcp/demo/task_assignments.py
+++ b/fcp/demo/task_assignments.py
@@ -36,6 +36,12 @@ _TaskAssignmentMode = (
 )
 
 
+def _get_code_name(code: int) -> str:
+  """Returns a loggable name for a status code, which may be unrecognized."""
+  return code_pb2.Code.Name(code) if code in code_pb2.Code.values() else str(
+      code)
+
+
 @dataclasses.dataclass(frozen=True)
 class _Task:
   task_name: str
@@ -225,6 +231,6 @@ class Service:
     logging.log(
         (logging.DEBUG if request.computation_status_code == code_pb2.OK else
          logging.WARN), '[%s] ReportTaskResult: %s (%s)', request.session_id,
-        code_pb2.Code.Name(request.computation_status_code),
+        _get_code_name(request.computation_status_code),
         text_format.MessageToString(request.client_stats, as_one_line=True))
     return task_assignments_pb2.ReportTaskResultResponse()
-- 
2.43.0


From 87f8e9791b0c3943a1fc71627d53fe65b662fde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:47 +0000
Subject: [PATCH 28/39] fix: do not list a task whose assignment mode is not
 supported

The task was added to the population eligibility spec before the mode was
rejected, and never removed from it.
---
 fcp/demo/server.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fcp/demo/server.py b/fcp/demo/server.py
index 1a1a78e..85aa718 100644
--- a/fcp/demo/server.py
+++ b/fcp/demo/server.py
@@ -127,9 +127,6 @@ class InProcessServer(socketserver.ThreadingMixIn, http.server.HTTPServer):
                   gzip.compress(slice_data),
                   content_type=_CHECKPOINT_CONTENT_TYPE,
               )
-          self._eligibility_eval_tasks_service.add_task(
-              task_name, task_assignment_mode
-          )
           self._task_assignments_service.add_task(
               task_name,
               task_assignment_mode,
@@ -138,6 +135,9 @@ class InProcessServer(socketserver.ThreadingMixIn, http.server.HTTPServer):
               common_pb2.Resource(uri=checkpoint_url),
               group.prefix + _FEDERATED_SELECT_NAME_TEMPLATE,
           )
+          self._eligibility_eval_tasks_service.add_task(
+              task_name, task_assignment_mode
+          )
           try:
             status = await self._aggregations_service.wait(
                 session_id,
-- 
2.43.0


From e727d8f2986eb1899ca993a597afb45f1c37a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:31 +0000
Subject: [PATCH 29/39] fix: authorize clients before their task can be removed

A computation ending between the choice of the current task and the
request for an authorization token ended StartTaskAssignment without a
response.
---
 fcp/demo/task_assignments.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/fcp/demo/task_assignments.py b/fcp/demo/task_assignments.py
index b80261f..530edfb 100644
--- a/fcp/demo/task_assignments.py
+++ b/fcp/demo/task_assignments.py
@@ -106,14 +106,20 @@ class Service:
           return
       raise KeyError(aggregation_session_id)
 
-  @property
-  def _current_task(self) -> Optional[_Task]:
+  def _assign_current_task(self) -> Optional[tuple[_Task, str]]:
+    """Returns the current task and a new authorization token, if any."""
+    # The lock is held while the client is authorized because the aggregation
+    # session may end once the task has been removed.
     with self._tasks_lock:
-      return (
-          self._single_assignment_tasks[0]
-          if self._single_assignment_tasks
-          else None
-      )
+      if not self._single_assignment_tasks:
+        return None
+      task = self._single_assignment_tasks[0]
+      # NOTE: If a production implementation of the Aggregations service cannot
+      # always pre-authorize clients (e.g., due to rate-limiting incoming
+      # clients), this code should either retry the operation or return a
+      # non-permanent error to the client (e.g., UNAVAILABLE).
+      return task, self._aggregations_service.pre_authorize_clients(
+          task.aggregation_session_id, num_tokens=1)[0]
 
   @http_actions.proto_action(
       service='google.internal.federatedcompute.v1.TaskAssignments',
@@ -129,16 +135,11 @@ class Service:
     # supports `request.client_version` before assigning the client. Given that
     # all clients may not be eligible for all tasks, consider more sophisticated
     # assignment than a FIFO queue.
-    task = self._current_task
-    if task:
+    assignment = self._assign_current_task()
+    if assignment:
+      task, authorization_token = assignment
       logging.debug('[%s] StartTaskAssignment: assigned %s', request.session_id,
                     task.task_name)
-      # NOTE: If a production implementation of the Aggregations service cannot
-      # always pre-authorize clients (e.g., due to rate-limiting incoming
-      # clients), this code should either retry the operation or return a
-      # non-permanent error to the client (e.g., UNAVAILABLE).
-      authorization_token = self._aggregations_service.pre_authorize_clients(
-          task.aggregation_session_id, num_tokens=1)[0]
       response = task_assignments_pb2.StartTaskAssignmentResponse(
           task_assignment=task_assignments_pb2.TaskAssignment(
               aggregation_data_forwarding_info=self._forwarding_info(),
-- 
2.43.0


From aa075b5b8be04286af22b3b2de547ebaf7b465e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:01:36 +0000
Subject: [PATCH 30/39] fix: write the values of byte vectors in example query
 results

The checkpoint writer iterated over the string values of a vector that holds
bytes values, so it read past the end of an empty array.
---
 fcp/client/engine/example_query_plan_engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/client/engine/example_query_plan_engine.cc b/fcp/client/engine/example_query_plan_engine.cc
index bbbe1b2..8acd25e 100644
--- a/fcp/client/engine/example_query_plan_engine.cc
+++ b/fcp/client/engine/example_query_plan_engine.cc
@@ -176,7 +176,7 @@ absl::Status WriteCheckpoint(
             output_vector_spec, ExampleQuerySpec::OutputVectorSpec::BYTES));
         int64_t size = values.bytes_values().value_size();
         std::vector<tf::tstring> tf_string_vector;
-        for (const auto& value : values.string_values().value()) {
+        for (const auto& value : values.bytes_values().value()) {
           tf_string_vector.emplace_back(value);
         }
         FCP_RETURN_IF_ERROR(WriteSlice(slice_writer, output_name, size,
-- 
2.43.0


From 0a0f70b719b81d5cc190a0306f390656ebc6d57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:17 +0000
Subject: [PATCH 31/39] fix: fail a computation that ends without its output
 tensors

A run that ends with OUT_OF_RANGE produces no output tensors. It was treated
as a success all the same, and the code that reads the output tensors went past
the end of the empty list.
---
 fcp/client/engine/simple_plan_engine.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fcp/client/engine/simple_plan_engine.cc b/fcp/client/engine/simple_plan_engine.cc
index b8068d0..a16e754 100644
--- a/fcp/client/engine/simple_plan_engine.cc
+++ b/fcp/client/engine/simple_plan_engine.cc
@@ -181,6 +181,12 @@ SimplePlanEngine::RunTensorFlowInternal(
     case absl::StatusCode::kInvalidArgument:
       return status;
     case absl::StatusCode::kOutOfRange:
+      // The run ended early. That is only a success if it did produce all of
+      // the requested tensors.
+      if (outputs.size() != output_tensor_names.size()) {
+        return absl::InvalidArgumentError(status.message());
+      }
+      break;
     case absl::StatusCode::kOk:
       break;
     default:
-- 
2.43.0


From 1d28bbdf5e56c63a5034032ced1b273f10467e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:18 +0000
Subject: [PATCH 32/39] fix: do not count a reported failure as a contribution

When the computation succeeds but its results cannot be prepared for upload,
the failure is reported to the server. A successful failure report was counted
as a contribution of the task.
---
 fcp/client/fl_runner.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fcp/client/fl_runner.cc b/fcp/client/fl_runner.cc
index 7a33f0b..0f0d5e9 100644
--- a/fcp/client/fl_runner.cc
+++ b/fcp/client/fl_runner.cc
@@ -1906,6 +1906,7 @@ std::vector<std::string> HandleMultipleTaskAssignments(
         federated_protocol, fedselect_manager, opstats_example_iterator_factory,
         example_iterator_query_recorder.get(), fl_runner_result, should_abort,
         timing_config, reference_time);
+    bool has_results = run_plan_results.computation_results.ok();
     absl::Status report_result =
         ReportPlanResult(federated_protocol, phase_logger,
                          std::move(run_plan_results.computation_results),
@@ -1913,7 +1914,7 @@ std::vector<std::string> HandleMultipleTaskAssignments(
                          task_assignment.aggregation_session_id);
     TaskResultInfo task_result_info;
     if (run_plan_results.outcome == engine::PlanOutcome::kSuccess &&
-        report_result.ok()) {
+        has_results && report_result.ok()) {
       // Only if training succeeded *and* reporting succeeded do we consider
       // the device to have contributed successfully.
       successful_task_names.push_back(task_assignment.task_name);
@@ -2167,13 +2168,14 @@ absl::StatusOr<FLRunnerResult> RunFederatedComputation(
           example_iterator_query_recorder.get(), fl_runner_result, should_abort,
           timing_config, reference_time);
 
+      bool has_results = run_plan_results.computation_results.ok();
       absl::Status report_result = ReportPlanResult(
           federated_protocol, phase_logger,
           std::move(run_plan_results.computation_results),
           run_plan_results.run_plan_start_time, reference_time, std::nullopt);
       TaskResultInfo task_result_info;
       if (run_plan_results.outcome == engine::PlanOutcome::kSuccess &&
-          report_result.ok()) {
+          has_results && report_result.ok()) {
         // Only if training succeeded *and* reporting succeeded do we consider
         // the device to have contributed successfully.
         successful_task_names.push_back(checkin_result->task_name);
-- 
2.43.0


From ce15ab19c21bc128667fc31d808ca4ecd2db7ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:05:47 +0000
Subject: [PATCH 33/39] fix: record initialization errors with their severity

Nonfatal initialization errors were stored as fatal ones, and fatal ones as
nonfatal.
---
 fcp/client/phase_logger_impl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fcp/client/phase_logger_impl.cc b/fcp/client/phase_logger_impl.cc
index 6f71d22..0d88878 100644
--- a/fcp/client/phase_logger_impl.cc
+++ b/fcp/client/phase_logger_impl.cc
@@ -79,7 +79,7 @@ void PhaseLoggerImpl::LogNonfatalInitializationError(
       error_status, kInitializationErrorPrefix, /* keep_error_message= */ true);
   event_publisher_->PublishNonfatalInitializationError(error_message);
   opstats_logger_->AddEventWithErrorMessage(
-      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_FATAL,
+      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_NONFATAL,
       error_message);
 }
 
@@ -88,7 +88,7 @@ void PhaseLoggerImpl::LogFatalInitializationError(absl::Status error_status) {
       error_status, kInitializationErrorPrefix, /* keep_error_message= */ true);
   event_publisher_->PublishFatalInitializationError(error_message);
   opstats_logger_->AddEventWithErrorMessage(
-      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_NONFATAL,
+      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_FATAL,
       error_message);
 }
 
-- 
2.43.0


From e4c5e3fe06381fe7bd440a897e55427ef130c484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:05:47 +0000
Subject: [PATCH 34/39] fix: tolerate a slice scratch file that cannot be
 removed

The file is removed with a call that throws on failure. The exception ended the
process, in one place out of a destructor.
---
 fcp/client/federated_select.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fcp/client/federated_select.cc b/fcp/client/federated_select.cc
index 58a3e5a..6217f9d 100644
--- a/fcp/client/federated_select.cc
+++ b/fcp/client/federated_select.cc
@@ -24,6 +24,7 @@
 #include <ios>
 #include <memory>
 #include <string>
+#include <system_error>  // NOLINT
 #include <utility>
 #include <vector>
 
@@ -266,7 +267,8 @@ absl::StatusOr<std::string> InMemoryFederatedSelectExampleIterator::Next() {
 
   if (slices_.empty()) {
     // Eagerly delete the scratch file, since we won't need it anymore.
-    std::filesystem::remove(scratch_filename_);
+    std::error_code ignored_error;
+    std::filesystem::remove(scratch_filename_, ignored_error);
     return absl::OutOfRangeError("end of iterator reached");
   }
 
@@ -304,7 +306,8 @@ void InMemoryFederatedSelectExampleIterator::CleanupInternal() {
   absl::MutexLock lock(&mutex_);
   // Remove the scratch filename, if it hadn't been removed yet.
   slices_.clear();
-  std::filesystem::remove(scratch_filename_);
+  std::error_code ignored_error;
+  std::filesystem::remove(scratch_filename_, ignored_error);
 }
 
 }  // namespace client
-- 
2.43.0


From 85e3a09ec84ae27b3b668ead7c2618f20e5c3468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:05:47 +0000
Subject: [PATCH 35/39] fix: opt out of all tasks when an eligibility task has
 no tasks to evaluate

An eligibility task without a population spec, or with an empty one, led to a
check-in without eligibility info. The protocol does not allow that after an
eligibility task, and the HTTP protocol ends the process.
---
 fcp/client/fl_runner.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fcp/client/fl_runner.cc b/fcp/client/fl_runner.cc
index 0f0d5e9..2d6d0bd 100644
--- a/fcp/client/fl_runner.cc
+++ b/fcp/client/fl_runner.cc
@@ -963,6 +963,12 @@ absl::StatusOr<std::optional<TaskEligibilityInfo>> RunEligibilityEvalPlan(
       phase_logger, native_task_eligibility_info.status(),
       run_computation_start_time, reference_time);
 
+  if (native_task_eligibility_info.ok() &&
+      !native_task_eligibility_info->has_value()) {
+    // No task could be evaluated, so opt the client out of all tasks. The
+    // protocol requires a TaskEligibilityInfo after an eligibility eval task.
+    return TaskEligibilityInfo();
+  }
   return native_task_eligibility_info;
 }
 
-- 
2.43.0


From 1331529d7155debaede0605056e267e625a1947a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:10:41 +0000
Subject: [PATCH 36/39] fix: keep the minimum separation index of entries with
 phase stats

The index was dropped when stored stats with phases were converted for the
eligibility policies. Minimum separation was then not enforced.
---
 fcp/client/opstats/opstats_utils.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fcp/client/opstats/opstats_utils.cc b/fcp/client/opstats/opstats_utils.cc
index 408e42c..0a042ed 100644
--- a/fcp/client/opstats/opstats_utils.cc
+++ b/fcp/client/opstats/opstats_utils.cc
@@ -187,6 +187,16 @@ std::vector<OperationalStats> ConvertToLegacyOperationalStats(
       legacy_op_stats.push_back(CreateLegacyOperationalStats(
           op_stats.population_name(), op_stats.session_name(),
           op_stats.retry_window(), task_stats));
+      // The min-sep policy index is that of the task assigned at check-in.
+      if (op_stats.has_min_sep_policy_index() &&
+          std::any_of(task_stats.begin(), task_stats.end(),
+                      [](const OperationalStats::PhaseStats& phase_stats) {
+                        return phase_stats.phase() ==
+                               OperationalStats::PhaseStats::CHECKIN;
+                      })) {
+        legacy_op_stats.back().set_min_sep_policy_index(
+            op_stats.min_sep_policy_index());
+      }
     }
   }
   return legacy_op_stats;
-- 
2.43.0


From 60e83c9a64fc5f2a8dd769efb8a5deb26a4f8ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:10:41 +0000
Subject: [PATCH 37/39] fix: notice an input checkpoint that is not written
 completely

The last part of the checkpoint is written when the file is closed. A failure
of that write went unnoticed, and the computation ran on a truncated
checkpoint.
---
 fcp/client/fl_runner.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fcp/client/fl_runner.cc b/fcp/client/fl_runner.cc
index 2d6d0bd..6b510f4 100644
--- a/fcp/client/fl_runner.cc
+++ b/fcp/client/fl_runner.cc
@@ -849,6 +849,9 @@ absl::StatusOr<std::string> CreateInputCheckpointFile(
     return absl::InvalidArgumentError("Failed to write to file");
   }
   checkpoint_stream.close();
+  if (checkpoint_stream.fail()) {
+    return absl::InvalidArgumentError("Failed to write to file");
+  }
   return filename;
 }
 
-- 
2.43.0


From 8b753d701dfaf9c1680c42d2248290537f3d70ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:10:41 +0000
Subject: [PATCH 38/39] fix: notice a slice that is not written completely

The last part of a slice is written when the scratch file is closed. A failure
of that write went unnoticed, and a truncated slice was handed out.
---
 fcp/client/federated_select.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fcp/client/federated_select.cc b/fcp/client/federated_select.cc
index 6217f9d..5702404 100644
--- a/fcp/client/federated_select.cc
+++ b/fcp/client/federated_select.cc
@@ -287,6 +287,9 @@ absl::StatusOr<std::string> InMemoryFederatedSelectExampleIterator::Next() {
     }
   }
   checkpoint_stream.close();
+  if (checkpoint_stream.fail()) {
+    return absl::InternalError("Failed to write slice to file");
+  }
 
   // Remove the slice from the deque, releasing its data from memory.
   slices_.pop_front();
-- 
2.43.0


From 431225f2257b94533be17bf98ef7717a683929f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:22:16 +0000
Subject: [PATCH 39/39] fix: do not trust the empty history of an unavailable
 stats database

When the database cannot be opened, an empty one without a trustworthy time
takes its place. The sampling policies took that for a complete history without
contributions and declared the tasks eligible.
---
 fcp/client/opstats/opstats_db.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fcp/client/opstats/opstats_db.h b/fcp/client/opstats/opstats_db.h
index ee832b8..327cc30 100644
--- a/fcp/client/opstats/opstats_db.h
+++ b/fcp/client/opstats/opstats_db.h
@@ -18,6 +18,7 @@
 
 #include <functional>
 
+#include "google/protobuf/util/time_util.h"
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
 #include "fcp/protos/opstats.pb.h"
@@ -35,7 +36,14 @@ class OpStatsDb {
   // for all runs.  The operational stats for each run is wrapped inside a
   // OperationalStats message, and the OperationalStats messages are ordered
   // sequentially (first run to last run) within OpStatsSequence.
-  virtual absl::StatusOr<OpStatsSequence> Read() { return OpStatsSequence(); }
+  virtual absl::StatusOr<OpStatsSequence> Read() {
+    // Nothing is known about the time before this call, so make sure that the
+    // absence of past runs isn't relied upon.
+    OpStatsSequence data;
+    *data.mutable_earliest_trustworthy_time() =
+        google::protobuf::util::TimeUtil::GetCurrentTime();
+    return data;
+  }
 
   // OpStatsDb has a Transform method instead of a Write method because
   // OpStatsSequence message already contains the operational stats for every
-- 
2.43.0

