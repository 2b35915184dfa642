From 798349dfed407495371b77257f9f91af737da389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 001/107] fix: detect an interrupted last line when opening a
 persistence file

A log whose last line has no trailing newline (the writer was interrupted) was accepted as is: an incomplete entry was
counted as a valid one, and the next entry or directive published was appended to the same line, and lost or unreadable
after that. Refuse incomplete entries and head directives, and terminate an otherwise complete last line. Also only
rewrite the head in place if the old value takes exactly the space of the new one.
---
 blocks/persistence/file.h | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index f74387d..5d2e768 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -61,6 +61,7 @@ constexpr char kDirectiveMarker = '#';
 constexpr char kSignatureDirective[] = "#signature";
 constexpr char kHeadDirective[] = "#head";
 constexpr char kHeadFormatString[] = "%020lld";
+constexpr size_t kHeadValueLength = 20;
 }  // namespace constants
 
 typedef int64_t head_value_t;
@@ -193,11 +194,20 @@ class FilePersister {
         const std::streampos offset_zero(0);
         auto current_offset = offset_zero;
         auto head = std::chrono::microseconds(-1);
+        bool unterminated_line = false;
         reflection::StructSchema struct_schema;
         struct_schema.AddType<ENTRY>();
         const auto signature = JSON(ss::StreamSignature(namespace_name, struct_schema.GetSchemaInfo()));
         while (cit.ProcessNextEntry(
-            [&](const idxts_t& current, const char*) {
+            [&](const idxts_t& current, const char* json) {
+              if (fi.eof()) {
+                unterminated_line = true;
+                try {
+                  static_cast<void>(ParseJSON<ENTRY>(json));
+                } catch (const TypeSystemParseJSONException&) {
+                  CURRENT_THROW(MalformedEntryException(json));
+                }
+              }
               CURRENT_ASSERT(current.index == record_offset_.size());
               CURRENT_ASSERT(current.index == record_timestamp_.size());
               if (!(current.us > head)) {
@@ -213,6 +223,7 @@ class FilePersister {
               static const auto head_key_length = strlen(constants::kHeadDirective);
               static const auto signature_key_length = strlen(constants::kSignatureDirective);
               head_offset_ = 0;
+              unterminated_line = fi.eof();
               if (!value.compare(0, head_key_length, constants::kHeadDirective)) {
                 auto offset = head_key_length;
                 while (std::isspace(value[offset])) {
@@ -223,7 +234,12 @@ class FilePersister {
                   CURRENT_THROW(ss::InconsistentTimestampException(head + std::chrono::microseconds(1), us));
                 }
                 head = us;
-                head_offset_ = std::streampos(static_cast<size_t>(current_offset) + offset);
+                // Only overwrite the value in place if the new one, which is of a fixed width, takes exactly the same space.
+                if (value.length() - offset == constants::kHeadValueLength) {
+                  head_offset_ = std::streampos(static_cast<size_t>(current_offset) + offset);
+                } else if (unterminated_line) {
+                  CURRENT_THROW(MalformedEntryException(value));
+                }
               } else if (!value.compare(0, signature_key_length, constants::kSignatureDirective)) {
                 // The signature, if present, should be at the beginning of the file.
                 if (current_offset != offset_zero) {
@@ -241,6 +257,11 @@ class FilePersister {
             })) {
           ;
         }
+        // If the writer was interrupted in the middle of a line, the file does not end with a newline character.
+        // An incomplete entry is an error, and the next line should not get glued to the last one in any case.
+        if (unterminated_line) {
+          file_appender_ << std::endl;
+        }
         const auto& next = cit.Next();
         // The `next.us` stores the closest possible next entry timestamp,
         // so the last processed entry timestamp is always 1us less.
-- 
2.43.0


From 460231f9b91ae57a842e9f66479044f5c214824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 002/107] fix: do not look up record offsets unlocked when
 reading raw entries of a persistence file

---
 blocks/persistence/file.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index 5d2e768..fe1347b 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -366,8 +366,8 @@ class FilePersister {
                    const std::string& filename,
                    uint64_t i,
                    std::streampos offset,
-                   uint64_t)
-        : file_persister_impl_(std::move(file_persister_impl)), i_(i), current_offset_(offset) {
+                   uint64_t index_at_offset)
+        : file_persister_impl_(std::move(file_persister_impl)), i_(i), next_i_(index_at_offset) {
       if (!filename.empty()) {
         fi_ = std::make_unique<std::ifstream>(filename);
         CURRENT_ASSERT(!fi_->bad());
@@ -381,16 +381,16 @@ class FilePersister {
     // The range-based for-loop works fine. -- D.K.
     std::string operator*() const {
       if (current_entry_.empty()) {
-        const auto offset = file_persister_impl_->record_offset_[static_cast<size_t>(i_)];
-        if (offset != current_offset_) {
-          fi_->seekg(offset, std::ios_base::beg);
-          current_offset_ = offset;
-        }
-        if (std::getline(*fi_, current_entry_)) {
-          CURRENT_ASSERT(current_entry_[0] != constants::kDirectiveMarker);
-        } else {
-          // End of file. Should never happen as long as the user only iterates over valid ranges.
-          CURRENT_THROW(current::Exception());  // LCOV_EXCL_LINE
+        // Read the file sequentially. The offsets of the records should not be looked up here without locking the mutex,
+        // as more entries may be getting published at the same time.
+        while (next_i_ <= i_) {
+          if (!std::getline(*fi_, current_entry_)) {
+            // End of file. Should never happen as long as the user only iterates over valid ranges.
+            CURRENT_THROW(current::Exception());  // LCOV_EXCL_LINE
+          }
+          if (current_entry_[0] != constants::kDirectiveMarker) {
+            ++next_i_;
+          }
         }
       }
       return current_entry_;
@@ -411,7 +411,7 @@ class FilePersister {
     std::unique_ptr<std::ifstream> fi_;
     uint64_t i_;
     mutable std::string current_entry_;
-    mutable std::streampos current_offset_;
+    mutable uint64_t next_i_;  // The index of the entry to be read from `fi_` next.
   };
 
   template <typename ITERATOR>
-- 
2.43.0


From 0c9872244d151b3cb2d12d1145757674013830b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:00 +0000
Subject: [PATCH 003/107] fix: respect the indexes of an HTTP subscription
 along with its timestamps

The index-based left boundary ('i' and 'tail') was ignored when combined with 'since' or 'recent' and the entry
was preceded by an update of the head. The 'tail' was also re-evaluated as the stream grew.
---
 stream/pubsub.h | 10 ++++------
 stream/stream.h | 14 ++++++--------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/stream/pubsub.h b/stream/pubsub.h
index 34e6045..111fe86 100644
--- a/stream/pubsub.h
+++ b/stream/pubsub.h
@@ -273,9 +273,8 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
       }
       // TODO(dkorolev): Should we always extract the timestamp and throw an exception if there is a mismatch?
       if (!serving_) {
-        if (current.index >= params_.i &&                                           // Respect `i`.
-            (params_.tail == 0u || (last.index - current.index) < params_.tail) &&  // Respect `tail`.
-            (from_timestamp_.count() == 0u || current.us >= from_timestamp_)) {     // Respect `since` and `recent`.
+        // NOTE: The subscription starts from the index that respects `i` and `tail`.
+        if (from_timestamp_.count() == 0u || current.us >= from_timestamp_) {  // Respect `since` and `recent`.
           serving_ = true;
         }
         // Reached the end, didn't started serving and should not wait.
@@ -355,9 +354,8 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
         return current_us;
       };
       if (!serving_) {
-        if (current_index >= params_.i &&                                            // Respect `i`.
-            (params_.tail == 0u || (last.index - current_index) < params_.tail) &&   // Respect `tail`.
-            (from_timestamp_.count() == 0u || GetCurrentUs() >= from_timestamp_)) {  // Respect `since` and `recent`.
+        // NOTE: The subscription starts from the index that respects `i` and `tail`.
+        if (from_timestamp_.count() == 0u || GetCurrentUs() >= from_timestamp_) {  // Respect `since` and `recent`.
           serving_ = true;
         }
         // Reached the end, didn't started serving and should not wait.
diff --git a/stream/stream.h b/stream/stream.h
index 28d241f..5a40ced 100644
--- a/stream/stream.h
+++ b/stream/stream.h
@@ -486,7 +486,7 @@ class Stream final {
       return;
     }
 
-    auto request_params = ParsePubSubHTTPRequest(r);  // Mutable as `tail` may change. -- D.K.
+    auto request_params = ParsePubSubHTTPRequest(r);
 
     if (request_params.terminate_requested) {
       typename impl_t::http_subscriptions_t::iterator it;
@@ -544,23 +544,21 @@ class Stream final {
         }
       }
     } else {
-      uint64_t begin_idx = 0u;
+      uint64_t begin_idx = request_params.i;
       std::chrono::microseconds from_timestamp(0);
       if (request_params.tail) {
         if (request_params.tail == static_cast<uint64_t>(-1)) {
           // Special case for `&tail=0`: act as `tail -f` from the current end of the stream.
-          begin_idx = stream_size;
-          request_params.tail = stream_size;
+          begin_idx = std::max(begin_idx, stream_size);
         } else {
           const uint64_t idx_by_tail = request_params.tail < stream_size ? (stream_size - request_params.tail) : 0u;
-          begin_idx = std::max(request_params.i, idx_by_tail);
+          begin_idx = std::max(begin_idx, idx_by_tail);
         }
-      } else if (request_params.recent.count() > 0) {
+      }
+      if (request_params.recent.count() > 0) {
         from_timestamp = r.timestamp - request_params.recent;
       } else if (request_params.since.count() > 0) {
         from_timestamp = request_params.since;
-      } else {
-        begin_idx = request_params.i;
       }
 
       if (from_timestamp.count() > 0) {
-- 
2.43.0


From 3674debc601c2d35c5b8e1d9fb4bad140566c41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 004/107] fix: close the array when the head of the stream ends
 the period of an HTTP subscription

---
 stream/pubsub.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stream/pubsub.h b/stream/pubsub.h
index 111fe86..728d78b 100644
--- a/stream/pubsub.h
+++ b/stream/pubsub.h
@@ -444,6 +444,9 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
       }
       // Stop serving if the limit on timestamp is exceeded.
       if (to_timestamp_.count() && us > to_timestamp_) {
+        if (params_.array) {
+          http_response_(output_started_ ? "]\n" : "[]\n");
+        }
         return ss::EntryResponse::Done;
       }
       if (!params_.array && !params_.entries_only) {
-- 
2.43.0


From 9c57884436d7b985175ed07f8bc16f50c98471c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 005/107] fix: do not terminate the program when a client of a
 stream disconnects while a head update is being sent

Only the sending of entries handled the client having disconnected; an exception from sending a head update,
the end of the array, or the termination message left the thread of the subscriber.
---
 stream/pubsub.h | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/stream/pubsub.h b/stream/pubsub.h
index 728d78b..25120e4 100644
--- a/stream/pubsub.h
+++ b/stream/pubsub.h
@@ -331,11 +331,7 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
       return ss::EntryResponse::More;
     }();
     if (result == ss::EntryResponse::Done && params_.array) {
-      if (!output_started_) {
-        http_response_("[]\n");
-      } else {
-        http_response_("]\n");
-      }
+      SendUnlessDisconnected(output_started_ ? "]\n" : "[]\n");
     }
     return result;
   }
@@ -416,14 +412,10 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
     }();
     if (result == ss::EntryResponse::Done) {
       if (params_.array) {
-        if (!output_started_) {
-          http_response_("[]\n");
-        } else {
-          http_response_("]\n");
-        }
+        SendUnlessDisconnected(output_started_ ? "]\n" : "[]\n");
       } else {
         // flush cached response data.
-        http_response_("", current::net::ChunkFlush::Flush);
+        SendUnlessDisconnected("");
       }
     }
     return result;
@@ -445,12 +437,12 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
       // Stop serving if the limit on timestamp is exceeded.
       if (to_timestamp_.count() && us > to_timestamp_) {
         if (params_.array) {
-          http_response_(output_started_ ? "]\n" : "[]\n");
+          SendUnlessDisconnected(output_started_ ? "]\n" : "[]\n");
         }
         return ss::EntryResponse::Done;
       }
-      if (!params_.array && !params_.entries_only) {
-        http_response_(JSON<J>(ts_only_t(us)) + '\n');
+      if (!params_.array && !params_.entries_only && !SendUnlessDisconnected(JSON<J>(ts_only_t(us)) + '\n')) {
+        return ss::EntryResponse::Done;  // LCOV_EXCL_LINE
       }
     }
     return ss::EntryResponse::More;
@@ -466,15 +458,26 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
   ss::TerminationResponse Terminate() {
     static const std::string message = "{\"error\":\"The subscriber has terminated.\"}\n";
     if (params_.array && output_started_) {
-      http_response_(",\n" + message + "]\n");
+      SendUnlessDisconnected(",\n" + message + "]\n");
     } else {
-      http_response_(message);
+      SendUnlessDisconnected(message);
     }
     return ss::TerminationResponse::Terminate;
   }
   // LCOV_EXCL_STOP
 
  private:
+  // The subscriber runs in its own thread, so that the client having disconnected should not result in an exception.
+  // Returns `false` if the client has disconnected.
+  bool SendUnlessDisconnected(const std::string& data) {
+    try {
+      http_response_(data, current::net::ChunkFlush::Flush);
+      return true;
+    } catch (const current::net::NetworkException&) {  // LCOV_EXCL_LINE
+      return false;                                    // LCOV_EXCL_LINE
+    }
+  }
+
   // The HTTP listener must register itself as a user of stream data to ensure the lifetime of stream data.
   const BorrowedWithCallback<impl_t> impl_;
   std::atomic_bool time_to_terminate_{false};
-- 
2.43.0


From a583b9f6d3978a3cd516d4c926a1e85f6a92cb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 006/107] fix: return the previously borrowed object when
 assigning to a borrower

Otherwise the registration of the previously held object is lost, and its owner waits for it forever.
---
 bricks/sync/owned_borrowed.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bricks/sync/owned_borrowed.h b/bricks/sync/owned_borrowed.h
index 0c5efe0..35aba9d 100644
--- a/bricks/sync/owned_borrowed.h
+++ b/bricks/sync/owned_borrowed.h
@@ -404,7 +404,10 @@ class Borrowed final : public WeakBorrowed<T> {
   Borrowed(Borrowed&& rhs) : base_t(impl::ConstructBorrowedObjectViaMoveConstructor(), std::move(rhs), []() {}) {}
 
   Borrowed& operator=(Borrowed&& rhs) {
-    base_t::MoveFrom(std::move(rhs), []() {});
+    if (this != &rhs) {
+      base_t::InternalUnRegister();
+      base_t::MoveFrom(std::move(rhs), []() {});
+    }
     return *this;
   }
 
@@ -452,7 +455,10 @@ class BorrowedOfGuaranteedLifetime final : public WeakBorrowed<T> {
       : base_t(impl::ConstructBorrowedObjectViaMoveConstructor(), std::move(rhs), []() {}) {}
 
   BorrowedOfGuaranteedLifetime& operator=(BorrowedOfGuaranteedLifetime&& rhs) {
-    base_t::MoveFrom(std::move(rhs), BorrowedOfGuaranteedLifetimeInvariantErrorCallback);
+    if (this != &rhs) {
+      base_t::InternalUnRegister();
+      base_t::MoveFrom(std::move(rhs), BorrowedOfGuaranteedLifetimeInvariantErrorCallback);
+    }
     return *this;
   }
 
-- 
2.43.0


From a0c71e7379cbff485dde17a68d5d8256c048a1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 007/107] fix: do not call the callbacks of the borrowers which
 have released the object by then

---
 bricks/sync/owned_borrowed.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/bricks/sync/owned_borrowed.h b/bricks/sync/owned_borrowed.h
index 35aba9d..191e6e8 100644
--- a/bricks/sync/owned_borrowed.h
+++ b/bricks/sync/owned_borrowed.h
@@ -92,17 +92,26 @@ struct UniqueInstance final {
     // Mark the instance of the object as being destructed.
     destructing_ = true;
 
-    // Collect all the "destructing" callbacks to call.
-    std::vector<std::function<void()>> callbacks_to_call;
+    // Collect the borrowers to call the "destructing" callbacks of.
+    std::vector<size_t> borrowers_to_notify;
     {
       std::lock_guard<std::mutex> lock(mutex_);
       for (const auto& cit : borrowers_) {
-        callbacks_to_call.push_back(cit.second);
+        borrowers_to_notify.push_back(cit.first);
       }
     }
 
-    // Call all the "destructing" callbacks.
-    for (auto& f : callbacks_to_call) {
+    // Call all the "destructing" callbacks, except those of the borrowers that have released the object meanwhile.
+    for (size_t key : borrowers_to_notify) {
+      std::function<void()> f;
+      {
+        std::lock_guard<std::mutex> lock(mutex_);
+        const auto cit = borrowers_.find(key);
+        if (cit == borrowers_.end()) {
+          continue;
+        }
+        f = cit->second;
+      }
       f();
     }
 
-- 
2.43.0


From f0e5c73b06934649b5f62116cfe73cdd4f93b2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 008/107] fix: notify the owner of the last borrower gone with
 the mutex locked

---
 bricks/sync/owned_borrowed.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/bricks/sync/owned_borrowed.h b/bricks/sync/owned_borrowed.h
index 191e6e8..5cab67c 100644
--- a/bricks/sync/owned_borrowed.h
+++ b/bricks/sync/owned_borrowed.h
@@ -136,15 +136,12 @@ struct UniqueInstance final {
   // Unregister ("decrease the ref-count") a previously spawned borrower.
   // Locks its own mutex; must be called from outside a mutex-locked section.
   void UnRegisterBorrower(size_t borrower_index) {
-    bool notify = false;
-    {
-      std::lock_guard<std::mutex> lock(mutex_);
-      auto it = borrowers_.find(borrower_index);
-      CURRENT_ASSERT(it != borrowers_.end());
-      borrowers_.erase(it);
-      notify = borrowers_.empty();
-    }
-    if (notify) {
+    std::lock_guard<std::mutex> lock(mutex_);
+    auto it = borrowers_.find(borrower_index);
+    CURRENT_ASSERT(it != borrowers_.end());
+    borrowers_.erase(it);
+    if (borrowers_.empty()) {
+      // Notify with the mutex locked, as the object may be gone right after the mutex is released.
       condition_variable_.notify_one();
     }
   }
-- 
2.43.0


From a0b038bac4857e19187cd3e7fe7b561b2d4797eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 009/107] fix: lock the container of an in-memory stream
 regardless of the mutex of its publisher

---
 blocks/persistence/memory.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/blocks/persistence/memory.h b/blocks/persistence/memory.h
index a7c45fa..0b8cb88 100644
--- a/blocks/persistence/memory.h
+++ b/blocks/persistence/memory.h
@@ -153,7 +153,7 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS, typename E, typename TIMESTAMP>
   idxts_t PersisterPublishImpl(E&& entry, const TIMESTAMP user_timestamp) {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     const auto head = container_->head_;
     const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
     if (!(timestamp > head)) {
@@ -168,7 +168,7 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   idxts_t PersisterPublishUnsafeImpl(const std::string& raw_log_line) {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     const auto head = container_->head_;
     const auto tab_pos = raw_log_line.find('\t');
     if (tab_pos == std::string::npos) {
@@ -190,7 +190,7 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS, typename TIMESTAMP>
   void PersisterUpdateHeadImpl(const TIMESTAMP user_timestamp) {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
 
     const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
     const auto head = container_->head_;
@@ -202,19 +202,19 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   bool PersisterEmptyImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     return container_->entries_.empty();
   }
 
   template <current::locks::MutexLockStatus MLS>
   uint64_t PersisterSizeImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     return static_cast<uint64_t>(container_->entries_.size());
   }
 
   template <current::locks::MutexLockStatus MLS>
   idxts_t PersisterLastPublishedIndexAndTimestampImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     if (!container_->entries_.empty()) {
       CURRENT_ASSERT(container_->head_ >= container_->entries_.back().first);
       return idxts_t(container_->entries_.size() - 1, container_->entries_.back().first);
@@ -225,7 +225,7 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   head_optidxts_t PersisterHeadAndLastPublishedIndexAndTimestampImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     if (!container_->entries_.empty()) {
       CURRENT_ASSERT(container_->head_ >= container_->entries_.back().first);
       return head_optidxts_t(container_->head_, container_->entries_.size() - 1, container_->entries_.back().first);
@@ -236,14 +236,14 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   std::chrono::microseconds PersisterCurrentHeadImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     return container_->head_;
   }
 
   template <current::locks::MutexLockStatus MLS>
   std::pair<uint64_t, uint64_t> PersisterIndexRangeByTimestampRangeImpl(std::chrono::microseconds from,
                                                                         std::chrono::microseconds till) const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     std::pair<uint64_t, uint64_t> result{static_cast<uint64_t>(-1), static_cast<uint64_t>(-1)};
     const auto begin_it =
         std::lower_bound(container_->entries_.begin(),
@@ -293,7 +293,7 @@ class MemoryPersister {
   template <current::locks::MutexLockStatus MLS, typename ITERABLE>
   ITERABLE PersisterIterateImpl(uint64_t begin, uint64_t end) const {
     const uint64_t size = [this]() {
-      current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+      std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
       return static_cast<uint64_t>(container_->entries_.size());
     }();
 
-- 
2.43.0


From f9c628ab0120fb55d7553220731cc14ebfb5ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:18 +0000
Subject: [PATCH 010/107] fix: make patching an entry of a dictionary with an
 existing patch object reachable

---
 storage/container/dictionary.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/storage/container/dictionary.h b/storage/container/dictionary.h
index 23fe632..b72aa06 100644
--- a/storage/container/dictionary.h
+++ b/storage/container/dictionary.h
@@ -131,8 +131,8 @@ class GenericDictionary {
   // NOTE(dkorolev): The `patch_object` parameter should be passed by value,
   // as otherwise it won't be valid during the possible rollback.
   template <typename E = entry_t>
-  std::enable_if_t<HasPatch<E>(), bool>::type Patch(sfinae::CF<key_t> key,
-                                                    const typename E::patch_object_t patch_object) {
+  std::enable_if_t<HasPatch<E>(), bool> Patch(sfinae::CF<key_t> key,
+                                              const typename E::patch_object_t patch_object) {
     static_assert(std::is_same_v<E, entry_t>, "");
     const auto now = current::time::Now();
     const auto map_iterator = map_.find(key);
-- 
2.43.0


From 595fe45a69ca78f6a529bd9342eb3bcde3ffe451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:01 +0000
Subject: [PATCH 011/107] fix: make the last applied timestamp of a storage
 safe to read while it is updated

---
 storage/persister/stream.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/storage/persister/stream.h b/storage/persister/stream.h
index 595a50d..d1228e9 100644
--- a/storage/persister/stream.h
+++ b/storage/persister/stream.h
@@ -26,6 +26,8 @@ SOFTWARE.
 #ifndef CURRENT_STORAGE_PERSISTER_STREAM_H
 #define CURRENT_STORAGE_PERSISTER_STREAM_H
 
+#include <atomic>
+
 #include "common.h"
 #include "../base.h"
 #include "../exceptions.h"
@@ -209,7 +211,7 @@ class StreamStreamPersisterImpl final {
   void TerminateStreamSubscriptionFromLockedSection() { subscriber_scope_ = nullptr; }
 
   void SetLastAppliedTimestampFromLockedSection(std::chrono::microseconds timestamp) {
-    CURRENT_ASSERT(timestamp > last_applied_timestamp_);
+    CURRENT_ASSERT(timestamp > last_applied_timestamp_.load());
     last_applied_timestamp_ = timestamp;
   }
 
@@ -224,7 +226,9 @@ class StreamStreamPersisterImpl final {
   std::unique_ptr<StreamSubscriber> subscriber_instance_;
   current::stream::SubscriberScope subscriber_scope_;
 
-  std::chrono::microseconds last_applied_timestamp_ = std::chrono::microseconds(-1);  // Replayed or from the master.
+  // Replayed or from the master. Atomic, as it is updated with the publishing mutex of the stream locked,
+  // and read, via `LastAppliedTimestamp()`, without it.
+  std::atomic<std::chrono::microseconds> last_applied_timestamp_{std::chrono::microseconds(-1)};
 
   HTTPRoutesScope handlers_scope_;
 };
-- 
2.43.0


From 6cb15c1390177c277cd12f47770b5d726b07619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 012/107] fix: do not reserve as many records as the page size
 of the request says

---
 storage/rest/hypermedia.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/storage/rest/hypermedia.h b/storage/rest/hypermedia.h
index a0aa1bd..4cea046 100644
--- a/storage/rest/hypermedia.h
+++ b/storage/rest/hypermedia.h
@@ -124,7 +124,7 @@ struct HypermediaResponseFormatter {
     bool has_previous_page = false;
     bool has_next_page = false;
     uint64_t current_index = 0;
-    response.data.reserve(static_cast<size_t>(context.query_n));
+    response.data.reserve(static_cast<size_t>(std::min(context.query_n, static_cast<uint64_t>(total))));
     for (auto iterator = span.begin(); iterator != span.end(); ++iterator) {
       using iterator_t = decltype(iterator);
       // NOTE(dkorolev): This `iterator` can be of more than three different kinds, among which are:
@@ -134,7 +134,7 @@ struct HypermediaResponseFormatter {
       //    where SE stands for SingleElement.
       // 4) GenericMapAccessor<>.
       // To keep the generic code generic, it's accesses as `iterator`, not via a range-based loop.
-      if (current_index >= context.query_i && current_index < context.query_i + context.query_n) {
+      if (current_index >= context.query_i && current_index - context.query_i < context.query_n) {
         response.data.resize(response.data.size() + 1);
         collection_element_t& record = response.data.back();
 
@@ -143,7 +143,7 @@ struct HypermediaResponseFormatter {
             record.DataOrBriefByRef(), iterator);
       } else if (current_index < context.query_i) {
         has_previous_page = true;
-      } else if (current_index >= context.query_i + context.query_n) {
+      } else {
         has_next_page = true;
         break;
       }
-- 
2.43.0


From ba8e607c0c95a66995e48826d7c9ed4d9a819c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 013/107] fix: respect the JSON format when parsing a string
 into an existing object

---
 typesystem/serialization/json/json.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typesystem/serialization/json/json.h b/typesystem/serialization/json/json.h
index 1744108..f1871df 100644
--- a/typesystem/serialization/json/json.h
+++ b/typesystem/serialization/json/json.h
@@ -353,12 +353,12 @@ inline void ParseJSON(const char* source, T& destination) {
 
 template <typename T, class J = JSONFormat::Current>
 inline void ParseJSON(const std::string& source, T& destination) {
-  ParseJSON(source.c_str(), destination);
+  ParseJSON<T, J>(source.c_str(), destination);
 }
 
 template <typename T, class J = JSONFormat::Current>
 inline void ParseJSON(const strings::Chunk& source, T& destination) {
-  ParseJSON(source.c_str(), destination);
+  ParseJSON<T, J>(source.c_str(), destination);
 }
 
 template <typename T, class J = JSONFormat::Current>
-- 
2.43.0


From 56367d7420c562868ba6c52b77951b144b91a859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 014/107] fix: parse the floating point numbers of JSON
 exactly, and deeply nested JSON without overflowing the stack

---
 typesystem/serialization/json/json.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/typesystem/serialization/json/json.h b/typesystem/serialization/json/json.h
index f1871df..393adac 100644
--- a/typesystem/serialization/json/json.h
+++ b/typesystem/serialization/json/json.h
@@ -242,7 +242,10 @@ template <class JSON_FORMAT>
 class JSONParser final {
  public:
   explicit JSONParser(const char* json) {
-    if (document_.Parse(json).HasParseError()) {
+    // Full precision, so that every `double` written is the `double` read,
+    // and iteratively, so that the nesting of the input is not limited by the size of the stack.
+    constexpr unsigned flags = rapidjson::kParseFullPrecisionFlag | rapidjson::kParseIterativeFlag;
+    if (document_.Parse<flags>(json).HasParseError()) {
       CURRENT_THROW(InvalidJSONException(json));
     }
     current_ = &document_;
-- 
2.43.0


From 717e369021a82464a3f8ad4e9c6027c5a26955b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:39 +0000
Subject: [PATCH 015/107] fix: do not consider a struct empty when the struct
 it is derived from has fields

---
 typesystem/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typesystem/types.h b/typesystem/types.h
index dc63bf0..37100e5 100644
--- a/typesystem/types.h
+++ b/typesystem/types.h
@@ -237,7 +237,7 @@ struct IsEmptyCurrentStruct {
 
 template <typename T>
 struct IsEmptyCurrentStruct<T, true> {
-  constexpr static bool value = (FieldCounter<T>::value == 0);
+  constexpr static bool value = (TotalFieldCounter<T>::value == 0);
 };
 
 template <typename T, typename VISITOR_TYPE>
-- 
2.43.0


From ffab7458499a94d5a8fa403641f75f1e0254dae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:39 +0000
Subject: [PATCH 016/107] fix: do not wrap the integers of JSON which are out
 of range of the field

---
 typesystem/serialization/json/enum.h       | 11 ++++++++---
 typesystem/serialization/json/primitives.h | 12 ++++++++----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/typesystem/serialization/json/enum.h b/typesystem/serialization/json/enum.h
index c4cf16a..b55ee6f 100644
--- a/typesystem/serialization/json/enum.h
+++ b/typesystem/serialization/json/enum.h
@@ -26,6 +26,7 @@ SOFTWARE.
 #ifndef CURRENT_TYPE_SYSTEM_SERIALIZATION_JSON_ENUM_H
 #define CURRENT_TYPE_SYSTEM_SERIALIZATION_JSON_ENUM_H
 
+#include <limits>
 #include <type_traits>
 
 #include "primitives.h"
@@ -43,15 +44,19 @@ struct SerializeImpl<json::JSONStringifier<JSON_FORMAT>, T, std::enable_if_t<std
 template <class JSON_FORMAT, typename T>
 struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, T, std::enable_if_t<std::is_enum_v<T>>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, T& destination) {
+    using underlying_t = typename std::underlying_type<T>::type;
     if (json_parser && json_parser.Current().IsNumber()) {
-      if (std::numeric_limits<typename std::underlying_type<T>::type>::is_signed) {
-        if (json_parser.Current().IsInt64()) {
+      if (std::numeric_limits<underlying_t>::is_signed) {
+        if (json_parser.Current().IsInt64() &&
+            json_parser.Current().GetInt64() >= static_cast<int64_t>(std::numeric_limits<underlying_t>::min()) &&
+            json_parser.Current().GetInt64() <= static_cast<int64_t>(std::numeric_limits<underlying_t>::max())) {
           destination = static_cast<T>(json_parser.Current().GetInt64());
         } else {
           CURRENT_THROW(JSONSchemaException("enum as unsigned integer", json_parser));  // LCOV_EXCL_LINE
         }
       } else {
-        if (json_parser.Current().IsUint64()) {
+        if (json_parser.Current().IsUint64() &&
+            json_parser.Current().GetUint64() <= static_cast<uint64_t>(std::numeric_limits<underlying_t>::max())) {
           destination = static_cast<T>(json_parser.Current().GetUint64());
         } else {
           CURRENT_THROW(JSONSchemaException("enum as signed integer", json_parser));  // LCOV_EXCL_LINE
diff --git a/typesystem/serialization/json/primitives.h b/typesystem/serialization/json/primitives.h
index c333303..739edc3 100644
--- a/typesystem/serialization/json/primitives.h
+++ b/typesystem/serialization/json/primitives.h
@@ -28,6 +28,7 @@ SOFTWARE.
 
 #include <string>
 #include <chrono>
+#include <limits>
 #include <type_traits>
 
 #include "json.h"
@@ -81,9 +82,10 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>,
                        std::enable_if_t<std::numeric_limits<T>::is_integer && !std::numeric_limits<T>::is_signed &&
                                         !std::is_same_v<T, bool>>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, T& destination) {
-    if (json_parser && json_parser.Current().IsUint64()) {
+    if (json_parser && json_parser.Current().IsUint64() &&
+        json_parser.Current().GetUint64() <= static_cast<uint64_t>(std::numeric_limits<T>::max())) {
       destination = static_cast<T>(json_parser.Current().GetUint64());
-    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsUint64())) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || json_parser) {
       CURRENT_THROW(JSONSchemaException("unsigned integer", json_parser));  // LCOV_EXCL_LINE
     }
   }
@@ -95,9 +97,11 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>,
                        T,
                        std::enable_if_t<std::numeric_limits<T>::is_integer && std::numeric_limits<T>::is_signed>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, T& destination) {
-    if (json_parser && json_parser.Current().IsInt64()) {
+    if (json_parser && json_parser.Current().IsInt64() &&
+        json_parser.Current().GetInt64() >= static_cast<int64_t>(std::numeric_limits<T>::min()) &&
+        json_parser.Current().GetInt64() <= static_cast<int64_t>(std::numeric_limits<T>::max())) {
       destination = static_cast<T>(json_parser.Current().GetInt64());
-    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsInt64())) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || json_parser) {
       CURRENT_THROW(JSONSchemaException("integer", json_parser));  // LCOV_EXCL_LINE
     }
   }
-- 
2.43.0


From 0656ce3898d149db34b414c807033ca16d556052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:39 +0000
Subject: [PATCH 017/107] fix: require the size of the JSON array to be the
 size of the `std::array` it is parsed into

---
 typesystem/serialization/json/array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/typesystem/serialization/json/array.h b/typesystem/serialization/json/array.h
index 57e54e3..dc0c212 100644
--- a/typesystem/serialization/json/array.h
+++ b/typesystem/serialization/json/array.h
@@ -47,12 +47,12 @@ struct SerializeImpl<json::JSONStringifier<JSON_FORMAT>, std::array<T, N>> {
 template <class JSON_FORMAT, typename T, size_t N>
 struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::array<T, N>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, std::array<T, N>& destination) {
-    if (json_parser && json_parser.Current().IsArray()) {
+    if (json_parser && json_parser.Current().IsArray() && json_parser.Current().Size() == N) {
       for (rapidjson::SizeType i = 0; i < static_cast<rapidjson::SizeType>(N); ++i) {
         json_parser.Inner(&json_parser.Current()[i], destination[i], "[", static_cast<int>(i), "]");
       }
-    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsArray())) {
-      CURRENT_THROW(JSONSchemaException("array", json_parser));  // LCOV_EXCL_LINE
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || json_parser) {
+      CURRENT_THROW(JSONSchemaException("array of " + current::ToString(N) + " elements", json_parser));  // LCOV_EXCL_LINE
     }
   }
 };
-- 
2.43.0


From 7bca28cf356277b51887b3df77917e959d4b942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:39 +0000
Subject: [PATCH 018/107] fix: leave the sets, the maps, and the variants which
 a patch does not mention as they are

---
 typesystem/serialization/json/map.h           | 4 ++--
 typesystem/serialization/json/set.h           | 2 +-
 typesystem/serialization/json/unordered_map.h | 4 ++--
 typesystem/serialization/json/unordered_set.h | 2 +-
 typesystem/serialization/json/variant.h       | 3 +++
 5 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/typesystem/serialization/json/map.h b/typesystem/serialization/json/map.h
index 3713bc6..0099522 100644
--- a/typesystem/serialization/json/map.h
+++ b/typesystem/serialization/json/map.h
@@ -82,7 +82,7 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::map<TK, TV, TC, TA>,
         json_parser.Inner(&cit->value, v);
         destination.emplace(std::move(k), std::move(v));
       }
-    } else if (!json::JSONPatchMode<J>::value || (json_parser && !json_parser.Current().IsObject())) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsObject())) {
       CURRENT_THROW(JSONSchemaException("map as object", json_parser));  // LCOV_EXCL_LINE
     }
   }
@@ -106,7 +106,7 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::map<TK, TV, TC, TA>,
         json_parser.Inner(&(*cit)[static_cast<rapidjson::SizeType>(1)], v);
         destination.emplace(std::move(k), std::move(v));
       }
-    } else if (!json::JSONPatchMode<J>::value || (json_parser && !json_parser.Current().IsArray())) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsArray())) {
       CURRENT_THROW(JSONSchemaException("map as array", json_parser));  // LCOV_EXCL_LINE
     }
   }
diff --git a/typesystem/serialization/json/set.h b/typesystem/serialization/json/set.h
index bf28d6e..a672306 100644
--- a/typesystem/serialization/json/set.h
+++ b/typesystem/serialization/json/set.h
@@ -50,8 +50,8 @@ struct SerializeImpl<json::JSONStringifier<JSON_FORMAT>, std::set<T, EQ, ALLOCAT
 template <class JSON_FORMAT, typename T, class EQ, class ALLOCATOR>
 struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::set<T, EQ, ALLOCATOR>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, std::set<T, EQ, ALLOCATOR>& destination) {
-    destination.clear();
     if (json_parser && json_parser.Current().IsArray()) {
+      destination.clear();
       const size_t size = json_parser.Current().Size();
       for (rapidjson::SizeType i = 0; i < static_cast<rapidjson::SizeType>(size); ++i) {
         T element;
diff --git a/typesystem/serialization/json/unordered_map.h b/typesystem/serialization/json/unordered_map.h
index 1017f32..d89461a 100644
--- a/typesystem/serialization/json/unordered_map.h
+++ b/typesystem/serialization/json/unordered_map.h
@@ -84,7 +84,7 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::unordered_map<TK, TV,
         json_parser.Inner(&cit->value, v);
         destination.emplace(std::move(k), std::move(v));
       }
-    } else if (!json::JSONPatchMode<J>::value || (json_parser && !json_parser.Current().IsObject())) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsObject())) {
       CURRENT_THROW(JSONSchemaException("[unordered_]map as object", json_parser));  // LCOV_EXCL_LINE
     }
   }
@@ -110,7 +110,7 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::unordered_map<TK, TV,
         json_parser.Inner(&(*cit)[static_cast<rapidjson::SizeType>(1)], v);
         destination.emplace(std::move(k), std::move(v));
       }
-    } else if (!json::JSONPatchMode<J>::value || (json_parser && !json_parser.Current().IsArray())) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsArray())) {
       CURRENT_THROW(JSONSchemaException("[unordered_]map as array", json_parser));  // LCOV_EXCL_LINE
     }
   }
diff --git a/typesystem/serialization/json/unordered_set.h b/typesystem/serialization/json/unordered_set.h
index 36d5798..4e469f4 100644
--- a/typesystem/serialization/json/unordered_set.h
+++ b/typesystem/serialization/json/unordered_set.h
@@ -51,8 +51,8 @@ template <class JSON_FORMAT, typename T, class HASH, class EQ, class ALLOCATOR>
 struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::unordered_set<T, HASH, EQ, ALLOCATOR>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser,
                             std::unordered_set<T, HASH, EQ, ALLOCATOR>& destination) {
-    destination.clear();
     if (json_parser && json_parser.Current().IsArray()) {
+      destination.clear();
       const size_t size = json_parser.Current().Size();
       for (rapidjson::SizeType i = 0; i < static_cast<rapidjson::SizeType>(size); ++i) {
         T element;
diff --git a/typesystem/serialization/json/variant.h b/typesystem/serialization/json/variant.h
index 17eedcb..f94ac84 100644
--- a/typesystem/serialization/json/variant.h
+++ b/typesystem/serialization/json/variant.h
@@ -420,6 +420,9 @@ template <class JSON_FORMAT, typename T>
 struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, T, std::enable_if_t<IS_CURRENT_VARIANT(T)>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, T& value) {
     if (!json_parser || json_parser.Current().IsNull()) {
+      if (!json_parser && json::JSONPatchMode<JSON_FORMAT>::value) {
+        return;  // The patch does not mention this field.
+      }
       if (json::JSONVariantStyleUseNulls<JSON_FORMAT::variant_style>::value) {
         CURRENT_THROW(JSONUninitializedVariantObjectException());
       }
-- 
2.43.0


From 05b03b7357ceeb0c39aa6d6b6bd975a00fe3fb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:39 +0000
Subject: [PATCH 019/107] fix: do not let one value of a map affect the next
 one when patching with JSON

---
 typesystem/serialization/json/map.h           | 4 ++--
 typesystem/serialization/json/unordered_map.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/typesystem/serialization/json/map.h b/typesystem/serialization/json/map.h
index 0099522..a7ad58a 100644
--- a/typesystem/serialization/json/map.h
+++ b/typesystem/serialization/json/map.h
@@ -73,11 +73,11 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::map<TK, TV, TC, TA>,
                                                                         std::map<TK, TV, TC, TA>& destination) {
     if (json_parser && json_parser.Current().IsObject()) {
       destination.clear();
-      TK k;
-      TV v;
       for (rapidjson::Value::MemberIterator cit = json_parser.Current().MemberBegin();
            cit != json_parser.Current().MemberEnd();
            ++cit) {
+        TK k;
+        TV v;
         json_parser.Inner(&cit->name, k);
         json_parser.Inner(&cit->value, v);
         destination.emplace(std::move(k), std::move(v));
diff --git a/typesystem/serialization/json/unordered_map.h b/typesystem/serialization/json/unordered_map.h
index d89461a..f1895b3 100644
--- a/typesystem/serialization/json/unordered_map.h
+++ b/typesystem/serialization/json/unordered_map.h
@@ -75,11 +75,11 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::unordered_map<TK, TV,
       json::JSONParser<JSON_FORMAT>& json_parser, std::unordered_map<TK, TV, HASH, EQ, ALLOCATOR>& destination) {
     if (json_parser && json_parser.Current().IsObject()) {
       destination.clear();
-      TK k;
-      TV v;
       for (rapidjson::Value::MemberIterator cit = json_parser.Current().MemberBegin();
            cit != json_parser.Current().MemberEnd();
            ++cit) {
+        TK k;
+        TV v;
         json_parser.Inner(&cit->name, k);
         json_parser.Inner(&cit->value, v);
         destination.emplace(std::move(k), std::move(v));
-- 
2.43.0


From ed1081b2e39d0eb639899c28778e1d006722619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 020/107] fix: bound the recursion when describing the JSON
 which does not fit the type

---
 typesystem/serialization/json/exceptions.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/typesystem/serialization/json/exceptions.h b/typesystem/serialization/json/exceptions.h
index a5b3aaa..682e249 100644
--- a/typesystem/serialization/json/exceptions.h
+++ b/typesystem/serialization/json/exceptions.h
@@ -34,6 +34,19 @@ namespace current {
 namespace serialization {
 namespace json {
 
+// Writing JSON is recursive. The depth is bounded, to not overflow the stack while describing what should not have
+// been in the input in the first place.
+struct BoundedDepthJSONWriter : rapidjson::Writer<rapidjson::StringBuffer> {
+  using super_t = rapidjson::Writer<rapidjson::StringBuffer>;
+  using super_t::super_t;
+  constexpr static size_t max_depth = 100u;
+  size_t depth_ = 0u;
+  bool StartObject() { return ++depth_ <= max_depth && super_t::StartObject(); }
+  bool StartArray() { return ++depth_ <= max_depth && super_t::StartArray(); }
+  bool EndObject(rapidjson::SizeType n = 0) { return --depth_, super_t::EndObject(n); }
+  bool EndArray(rapidjson::SizeType n = 0) { return --depth_, super_t::EndArray(n); }
+};
+
 struct JSONSchemaException : TypeSystemParseJSONException {
   const std::string expected_;
   const std::string actual_;
@@ -48,7 +61,7 @@ struct JSONSchemaException : TypeSystemParseJSONException {
     if (value) {
       try {
         rapidjson::StringBuffer string_buffer;
-        rapidjson::Writer<rapidjson::StringBuffer> writer(string_buffer);
+        BoundedDepthJSONWriter writer(string_buffer);
         rapidjson::Document document;
         if (value->IsObject() || value->IsArray()) {
           // Objects and arrays can be dumped directly.
-- 
2.43.0


From 136aea966bf05a13327d885b9c021fa5d1b7791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:44 +0000
Subject: [PATCH 021/107] fix: do not keep the old value of a variant when
 parsing JSON where it is uninitialized

---
 typesystem/serialization/json/variant.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/typesystem/serialization/json/variant.h b/typesystem/serialization/json/variant.h
index f94ac84..f1e8dae 100644
--- a/typesystem/serialization/json/variant.h
+++ b/typesystem/serialization/json/variant.h
@@ -426,6 +426,7 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, T, std::enable_if_t<IS_CUR
       if (json::JSONVariantStyleUseNulls<JSON_FORMAT::variant_style>::value) {
         CURRENT_THROW(JSONUninitializedVariantObjectException());
       }
+      value = nullptr;
     } else {
       json::JSONVariantPerStyle<JSON_FORMAT::variant_style, JSON_FORMAT, T>::Instance().DoLoadVariant(json_parser,
                                                                                                       value);
-- 
2.43.0


From fb3c0eed9be20b20a009152a53fd2982c6416df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:44 +0000
Subject: [PATCH 022/107] fix: reject a malformed type ID when parsing JSON

---
 typesystem/serialization/json/typeid.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/typesystem/serialization/json/typeid.h b/typesystem/serialization/json/typeid.h
index 10f2aa4..e82bb6d 100644
--- a/typesystem/serialization/json/typeid.h
+++ b/typesystem/serialization/json/typeid.h
@@ -46,8 +46,12 @@ template <class JSON_FORMAT>
 struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, reflection::TypeID> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, reflection::TypeID& destination) {
     if (json_parser && json_parser.Current().IsString() && *json_parser.Current().GetString() == 'T') {
-      destination =
-          static_cast<reflection::TypeID>(current::FromString<uint64_t>(json_parser.Current().GetString() + 1));
+      const char* const digits = json_parser.Current().GetString() + 1;
+      const uint64_t value = current::FromString<uint64_t>(digits);
+      if (current::ToString(value) != digits) {
+        CURRENT_THROW(JSONSchemaException("TypeID", json_parser));  // LCOV_EXCL_LINE
+      }
+      destination = static_cast<reflection::TypeID>(value);
     } else if (!json::JSONPatchMode<JSON_FORMAT>::value ||
                (json_parser && !(json_parser.Current().IsString() && *json_parser.Current().GetString() == 'T'))) {
       CURRENT_THROW(JSONSchemaException("TypeID", json_parser));  // LCOV_EXCL_LINE
-- 
2.43.0


From 5a085c515f3f54f421281b77cb66f4a19ba13828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:43 +0000
Subject: [PATCH 023/107] fix: keep the value when moving an optional of a bare
 pointer, of itself, or of a part of itself

---
 typesystem/optional.h | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/typesystem/optional.h b/typesystem/optional.h
index aa6b0a6..3bc49ba 100644
--- a/typesystem/optional.h
+++ b/typesystem/optional.h
@@ -264,9 +264,11 @@ class Optional<T, std::enable_if_t<std::is_pod<T>::value>> final {
   }
 
   Optional<T>& operator=(Optional<T>&& rhs) {
-    value_ = rhs.value_;
-    exists_ = rhs.exists_;
-    rhs.exists_ = false;
+    if (this != &rhs) {
+      value_ = rhs.value_;
+      exists_ = rhs.exists_;
+      rhs.exists_ = false;
+    }
     return *this;
   }
 
@@ -331,14 +333,9 @@ class Optional<T, std::enable_if_t<!std::is_pod<T>::value>> final {
     optional_object_ = owned_optional_object_.get();
   }
 
-  Optional(Optional<T>&& rhs) {
-    if (rhs.ExistsImpl()) {
-      owned_optional_object_ = std::move(rhs.owned_optional_object_);
-      rhs = nullptr;
-    } else {
-      owned_optional_object_ = nullptr;
-    }
-    optional_object_ = owned_optional_object_.get();
+  Optional(Optional<T>&& rhs)
+      : owned_optional_object_(std::move(rhs.owned_optional_object_)), optional_object_(rhs.optional_object_) {
+    rhs.optional_object_ = nullptr;
   }
 
   Optional(const ImmutableOptional<T>& rhs) {
@@ -399,13 +396,12 @@ class Optional<T, std::enable_if_t<!std::is_pod<T>::value>> final {
   }
 
   Optional<T>& operator=(Optional<T>&& rhs) {
-    if (rhs.ExistsImpl()) {
+    if (this != &rhs) {
+      // `rhs` may well be part of the very object that is about to be destroyed, so that it is not to be used after that.
+      optional_object_ = rhs.optional_object_;
+      rhs.optional_object_ = nullptr;
       owned_optional_object_ = std::move(rhs.owned_optional_object_);
-      rhs = nullptr;
-    } else {
-      owned_optional_object_ = nullptr;
     }
-    optional_object_ = owned_optional_object_.get();
     return *this;
   }
 
-- 
2.43.0


From e329db5781f62ac21eedad5162130166df53cf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:17 +0000
Subject: [PATCH 024/107] fix: reflect a std::array with its own type ID, not
 with the one of the vector

---
 typesystem/reflection/reflection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typesystem/reflection/reflection.h b/typesystem/reflection/reflection.h
index fbef558..199fb68 100644
--- a/typesystem/reflection/reflection.h
+++ b/typesystem/reflection/reflection.h
@@ -388,7 +388,7 @@ struct ReflectorImpl {
   ReflectedType operator()(TypeSelector<std::array<T, N>>) {
     ReflectType<T>();
     ReflectedType_Array result(CurrentTypeID<T>());
-    result.type_id = CurrentTypeID<std::vector<T>>();
+    result.type_id = CurrentTypeID<std::array<T, N>>();
     result.size = static_cast<uint64_t>(N);
     return ReflectedType(std::move(result));
   }
-- 
2.43.0


From 2277b399e70e42134b152b35083179a00b559ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:01 +0000
Subject: [PATCH 025/107] fix: escape backslashes and carriage returns in
 exported C++ string literals

---
 bricks/strings/escape.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bricks/strings/escape.h b/bricks/strings/escape.h
index 41299ea..9c57732 100644
--- a/bricks/strings/escape.h
+++ b/bricks/strings/escape.h
@@ -38,8 +38,12 @@ inline std::string EscapeForCPlusPlus(const std::string& input) {
       output += "\\n";
     } else if (c == '\t') {
       output += "\\t";
+    } else if (c == '\r') {
+      output += "\\r";
     } else if (c == '\"') {
       output += "\\\"";
+    } else if (c == '\\') {
+      output += "\\\\";
     } else {
       output += c;
     }
-- 
2.43.0


From 40efbe84fd8fff682b34b88602b0dd102a605c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:57 +0000
Subject: [PATCH 026/107] fix: export templated structures whose parameter has
 commas in its name

---
 typesystem/struct.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typesystem/struct.h b/typesystem/struct.h
index ee18b46..8a3dc86 100644
--- a/typesystem/struct.h
+++ b/typesystem/struct.h
@@ -360,10 +360,10 @@ struct CurrentStructFieldsConsistency<T, 0u> {
 #define IS_VALID_CURRENT_STRUCT(s) \
   ::current::reflection::CurrentStructFieldsConsistency<s, ::current::reflection::FieldCounter<s>::value>::Check()
 
-#define CURRENT_EXPORTED_TEMPLATED_STRUCT(original_struct_name, original_template_inner_type)        \
+#define CURRENT_EXPORTED_TEMPLATED_STRUCT(original_struct_name, ...)                                 \
   constexpr static const char* CURRENT_EXPORTED_STRUCT_NAME() { return #original_struct_name "_Z"; } \
   using template_inner_t_internal = std::true_type;                                                  \
-  using template_inner_t_impl = original_template_inner_type
+  using template_inner_t_impl = __VA_ARGS__ /* The type itself may contain commas. */
 
 // Can't just write "using SUPER::SUPER", because SUPER always uses ::crnt::r::DF,
 // which means for different INSTANTIATION_TYPEs it isn't actually a base to the "s" struct.
-- 
2.43.0


From 0c39e30f0355177e6ad2228b7ab6b30be11a9803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 027/107] fix: include the type parameter of a templated
 structure into the schema even if unused by its fields

---
 typesystem/schema/schema.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/typesystem/schema/schema.h b/typesystem/schema/schema.h
index e0402d3..1c94b81 100644
--- a/typesystem/schema/schema.h
+++ b/typesystem/schema/schema.h
@@ -1505,6 +1505,10 @@ struct StructSchema final {
         for (const auto& f : s.fields) {
           Reflector().ReflectedTypeByTypeID(f.type_id).Call(*this);
         }
+        if (Exists(s.template_inner_id)) {
+          // The type parameter is part of the exported schema even if no field makes use of it.
+          Reflector().ReflectedTypeByTypeID(Value(s.template_inner_id)).Call(*this);
+        }
         schema_.order.push_back(s.type_id);
       }
     }
-- 
2.43.0


From 2e71f058400c83260f992999342df6430ef82f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:17 +0000
Subject: [PATCH 028/107] fix: do not keep the previous contents of the map
 when evolving into it

---
 typesystem/evolution/type_evolution.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/typesystem/evolution/type_evolution.h b/typesystem/evolution/type_evolution.h
index a7e944e..a4201e1 100644
--- a/typesystem/evolution/type_evolution.h
+++ b/typesystem/evolution/type_evolution.h
@@ -99,6 +99,7 @@ template <typename FROM_NAMESPACE, typename EVOLVER, typename MAP_KEY, typename
 struct Evolve<FROM_NAMESPACE, std::map<MAP_KEY, MAP_VALUE>, EVOLVER> {
   template <typename INTO, typename OUTPUT>
   static void Go(const std::map<MAP_KEY, MAP_VALUE>& from, OUTPUT& into) {
+    into.clear();
     for (const auto& e : from) {
       typename OUTPUT::key_type key;
       Evolve<FROM_NAMESPACE, MAP_KEY, EVOLVER>::template Go<INTO>(e.first, key);
-- 
2.43.0


From 2ec6b6735e1e6235af31a6f5917610680b824e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 029/107] fix: evolve vectors of booleans

---
 typesystem/evolution/type_evolution.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/typesystem/evolution/type_evolution.h b/typesystem/evolution/type_evolution.h
index a4201e1..26958c7 100644
--- a/typesystem/evolution/type_evolution.h
+++ b/typesystem/evolution/type_evolution.h
@@ -76,10 +76,13 @@ template <typename FROM_NAMESPACE, typename EVOLVER, typename VECTOR_ELEMENT_TYP
 struct Evolve<FROM_NAMESPACE, std::vector<VECTOR_ELEMENT_TYPE>, EVOLVER> {
   template <typename INTO, typename OUTPUT>
   static void Go(const std::vector<VECTOR_ELEMENT_TYPE>& from, OUTPUT& into) {
-    into.resize(from.size());
-    auto placeholder = into.begin();
+    into.clear();
+    into.reserve(from.size());
     for (const auto& e : from) {
-      Evolve<FROM_NAMESPACE, VECTOR_ELEMENT_TYPE, EVOLVER>::template Go<INTO>(e, *placeholder++);
+      // NOTE: Can not evolve into a reference to the element of the vector, as there is none for `std::vector<bool>`.
+      typename OUTPUT::value_type element = typename OUTPUT::value_type();
+      Evolve<FROM_NAMESPACE, VECTOR_ELEMENT_TYPE, EVOLVER>::template Go<INTO>(e, element);
+      into.push_back(std::move(element));
     }
   }
 };
-- 
2.43.0


From 948960180a6d422b3c26bc49dfc3fbc5ed1edbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:21 +0000
Subject: [PATCH 030/107] fix: make PublishUnsafe of the persisters compile

---
 blocks/ss/persister.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/blocks/ss/persister.h b/blocks/ss/persister.h
index 4eb4a69..7a6bc8b 100644
--- a/blocks/ss/persister.h
+++ b/blocks/ss/persister.h
@@ -71,16 +71,10 @@ class EntryPersister : public GenericEntryPersister<ENTRY>, public IMPL {
   }
 
   // Publishes the `raw_log_line` as is without parsing and validating its content.
+  // The index and the timestamp of the entry are the ones from this line.
   template <current::locks::MutexLockStatus MLS = current::locks::MutexLockStatus::NeedToLock>
-  idxts_t PublishUnsafe(const std::string& raw_log_line,
-                        current::time::DefaultTimeArgument = current::time::DefaultTimeArgument()) {
-    return IMPL::template PersisterPublishUnsafeImpl<MLS>(raw_log_line, current::time::DefaultTimeArgument());
-  }
-
-  // Publishes the `raw_log_line` as is without parsing and validating its content.
-  template <current::locks::MutexLockStatus MLS = current::locks::MutexLockStatus::NeedToLock>
-  idxts_t PublishUnsafe(const std::string& raw_log_line, std::chrono::microseconds us) {
-    return IMPL::template PersisterPublishUnsafeImpl<MLS>(raw_log_line, us);
+  idxts_t PublishUnsafe(const std::string& raw_log_line) {
+    return IMPL::template PersisterPublishUnsafeImpl<MLS>(raw_log_line);
   }
 
   template <current::locks::MutexLockStatus MLS = current::locks::MutexLockStatus::NeedToLock>
-- 
2.43.0


From 517d57ee47bc282597e2a85862031f579287eeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:36 +0000
Subject: [PATCH 031/107] fix: do not sign-extend the bytes when URL-encoding
 them

---
 blocks/url/url.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blocks/url/url.h b/blocks/url/url.h
index 4ca959d..a4ff243 100644
--- a/blocks/url/url.h
+++ b/blocks/url/url.h
@@ -260,7 +260,7 @@ struct URLParametersExtractor {
       } else if (c == ' ') {
         encoded << "%20";
       } else {
-        encoded << current::strings::Printf("%%%02X", static_cast<int>(c));
+        encoded << current::strings::Printf("%%%02X", static_cast<int>(static_cast<unsigned char>(c)));
       }
     }
     return encoded.str();
-- 
2.43.0


From 52a73178ff7598c0fa500a34c3557afd25d596d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:16 +0000
Subject: [PATCH 032/107] fix: replace the headers when assigning them, and
 remove a header regardless of the case of its name

---
 bricks/net/http/headers/headers.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bricks/net/http/headers/headers.h b/bricks/net/http/headers/headers.h
index dff875a..afdc3e0 100644
--- a/bricks/net/http/headers/headers.h
+++ b/bricks/net/http/headers/headers.h
@@ -187,7 +187,11 @@ struct Headers final {
   Headers(const Headers& rhs) { DeepCopyFrom(rhs); }
 
   Headers& operator=(const Headers& rhs) {
-    DeepCopyFrom(rhs);
+    if (this != &rhs) {
+      list.clear();
+      map.clear();
+      DeepCopyFrom(rhs);
+    }
     return *this;
   }
 
@@ -225,14 +229,16 @@ struct Headers final {
     Header::ThrowIfHeaderIsCookie(header);
     const auto cit = map.find(header);
     if (cit != map.end()) {
-      map.erase(cit);
+      // The name of the header to remove may be spelled differently from how it was when this header was added.
+      const Header* const removed = cit->second.get();
       headers_list_t updated_list;
       for (const auto& e : list) {
-        if (e.first != header) {
-          updated_list.emplace_back(std::move(e));
+        if (e.second != removed) {
+          updated_list.emplace_back(e);
         }
       }
       list = std::move(updated_list);
+      map.erase(cit);
     }
     return *this;
   }
-- 
2.43.0


From ca4da3047b06dc8c156888c64c7e9e7406040ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:17 +0000
Subject: [PATCH 033/107] fix: keep the values of the cookies which are empty
 or contain the equality sign, and the parameters of the ones set

---
 bricks/net/http/headers/headers.h | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/bricks/net/http/headers/headers.h b/bricks/net/http/headers/headers.h
index afdc3e0..dd14c83 100644
--- a/bricks/net/http/headers/headers.h
+++ b/bricks/net/http/headers/headers.h
@@ -329,13 +329,37 @@ struct Headers final {
 
   // An interface for the HTTP library to populate headers or cookies.
   void ApplyCookieHeader(const std::string& value) {
-    for (const auto& kv : strings::SplitIntoKeyValuePairs(value, '=', ';')) {
-      cookies.emplace(strings::Trim(kv.first), strings::Trim(kv.second));
+    for (const auto& piece : strings::Split(value, ';')) {
+      // The value of a cookie may be empty, and it may contain the '=' sign.
+      const size_t separator = piece.find('=');
+      const std::string name = strings::Trim(piece.substr(0, separator));
+      if (separator != std::string::npos && !name.empty()) {
+        cookies.emplace(name, strings::Trim(piece.substr(separator + 1)));
+      }
+    }
+  }
+  // Unlike for `Cookie`, what follows the first `;` in `Set-Cookie` are the parameters of this very cookie.
+  void ApplySetCookieHeader(const std::string& value) {
+    Headers parsed;
+    parsed.ApplyCookieHeader(value.substr(0, value.find(';')));
+    for (auto& cookie : parsed.cookies) {
+      for (const auto& piece : strings::Split(value.substr(std::min(value.find(';'), value.length())), ';')) {
+        const size_t separator = piece.find('=');
+        const std::string name = strings::Trim(piece.substr(0, separator));
+        if (!name.empty()) {
+          cookie.second[name] = separator != std::string::npos ? strings::Trim(piece.substr(separator + 1)) : "";
+        }
+      }
+      cookies.insert(cookie);
     }
   }
   void SetHeaderOrCookie(const std::string& header, const std::string& value) {
     if (Header::IsCookieHeader(header)) {
-      ApplyCookieHeader(value);
+      if (header[0] == 'S' || header[0] == 's') {
+        ApplySetCookieHeader(value);
+      } else {
+        ApplyCookieHeader(value);
+      }
     } else {
       Set(header, value);
     }
-- 
2.43.0


From 98dfc3b3cabc00a1f448b51cd0956687e50e57b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:49 +0000
Subject: [PATCH 034/107] fix: keep reading from the socket when interrupted,
 and do not consult errno unless the read has failed

---
 bricks/net/tcp/impl/posix.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/bricks/net/tcp/impl/posix.h b/bricks/net/tcp/impl/posix.h
index 1c1a6bf..4e70306 100644
--- a/bricks/net/tcp/impl/posix.h
+++ b/bricks/net/tcp/impl/posix.h
@@ -412,6 +412,8 @@ class Connection : public SocketHandle {
 
 #ifdef CURRENT_WINDOWS
       int wsa_last_error = 0;
+#else
+      int recv_errno = 0;
 #endif
 
       CURRENT_BRICKS_NET_LOG("S%05d BlockingRead() ...\n", static_cast<SOCKET>(socket));
@@ -440,8 +442,10 @@ class Connection : public SocketHandle {
         }
 
 #ifndef CURRENT_WINDOWS
-        if (errno == EAGAIN) {  // LCOV_EXCL_LINE
-          continue;             // LCOV_EXCL_LINE
+        // NOTE: `errno` is only meaningful if `recv()` has failed; zero means the peer has closed the connection.
+        recv_errno = (retval < 0) ? errno : 0;
+        if (recv_errno == EAGAIN || recv_errno == EINTR) {  // LCOV_EXCL_LINE
+          continue;                                         // LCOV_EXCL_LINE
         }
 #else
         wsa_last_error = ::WSAGetLastError();
@@ -455,12 +459,13 @@ class Connection : public SocketHandle {
         // There are two ways:
         // 1) `EAGAIN` or a Windows equivalent has been returned.
         // 2) `retval > 0`, not all the data has been read, and mode is `BlockingReadPolicy::FillFullBuffer`.
-        //    (Really, just a safety check).
-      } while (false);
+        //    (`recv()` may well return less than asked for, even with `MSG_WAITALL`, if a signal is caught.)
+        break;
+      } while (true);
 
 // LCOV_EXCL_START
 #ifndef CURRENT_WINDOWS
-      if (errno == ECONNRESET) {
+      if (recv_errno == ECONNRESET) {
         if (ptr != buffer) {
           CURRENT_BRICKS_NET_LOG("S%05d BlockingRead() : Connection reset by peer after reading %d bytes.\n",
                                  static_cast<SOCKET>(socket),
@@ -474,7 +479,7 @@ class Connection : public SocketHandle {
           CURRENT_BRICKS_NET_LOG("S%05d BlockingRead() : Error after reading %d bytes, errno %d.\n",
                                  static_cast<SOCKET>(socket),
                                  static_cast<int>(ptr - buffer),
-                                 errno);
+                                 recv_errno);
           CURRENT_THROW(SocketReadException());
         } else {
           CURRENT_THROW(EmptySocketReadException());
-- 
2.43.0


From 6864dd745280e6dc83700e013d21dd1dea37fe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:49 +0000
Subject: [PATCH 035/107] fix: refuse the chunk sizes which are negative, out
 of range, or followed by garbage

---
 bricks/net/http/constants.h   |  2 ++
 bricks/net/http/impl/server.h | 28 +++++++++++++++++++++++-----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/bricks/net/http/constants.h b/bricks/net/http/constants.h
index e16d12a..de300d5 100644
--- a/bricks/net/http/constants.h
+++ b/bricks/net/http/constants.h
@@ -65,6 +65,8 @@ constexpr size_t kMaxHTTPPayloadSizeInBytes = 1024 * 1024 * 16;
 constexpr size_t kMaxHTTPPayloadSizeInBytes = CURRENT_MAX_HTTP_PAYLOAD;
 #endif  // CURRENT_MAX_HTTP_PAYLOAD
 
+constexpr size_t kMaxHTTPChunkSizeInBytes = 0x7fffffff;
+
 }  // namespace constants
 }  // namespace net
 }  // namespace current
diff --git a/bricks/net/http/impl/server.h b/bricks/net/http/impl/server.h
index 142fb77..eca6597 100644
--- a/bricks/net/http/impl/server.h
+++ b/bricks/net/http/impl/server.h
@@ -483,10 +483,27 @@ class GenericHTTPRequestData : public HELPER {
         } else if (receiving_body_in_chunks) {
           // Ignore blank lines.
           if (!line_is_blank) {
-            const size_t chunk_length = static_cast<size_t>([&]() {
-              try {
-                return std::stoi(&buffer_[current_line_offset], nullptr, 16);
-              } catch (const std::invalid_argument&) {
+            const size_t chunk_length = [&]() -> size_t {
+              // A hexadecimal number, possibly followed by chunk extensions, which are ignored.
+              const char* p = &buffer_[current_line_offset];
+              while (*p == ' ' || *p == '\t') {
+                ++p;
+              }
+              const char* const digits_begin = p;
+              size_t value = 0;
+              while (std::isxdigit(static_cast<unsigned char>(*p)) && value <= constants::kMaxHTTPChunkSizeInBytes) {
+                const char digit = static_cast<char>(std::tolower(*p++));
+                value = value * 16 + static_cast<size_t>(digit <= '9' ? digit - '0' : digit - 'a' + 10);
+              }
+              if (value > constants::kMaxHTTPChunkSizeInBytes) {
+                HTTPResponder::SendHTTPResponse(c,
+                                                net::DefaultRequestEntityTooLargeMessage(),
+                                                HTTPResponseCode.RequestEntityTooLarge,
+                                                http::Headers(),
+                                                net::constants::kDefaultHTMLContentType);
+                CURRENT_THROW(HTTPPayloadTooLarge());
+              }
+              if (p == digits_begin || (*p && *p != ';' && *p != ' ' && *p != '\t')) {
                 // Not a valid hexadecimal chunk size. HTTP bad request is it.
                 HTTPResponder::SendHTTPResponse(c,
                                                 net::DefaultInvalidHEXChunkSizeBadRequestMessage(),
@@ -495,7 +512,8 @@ class GenericHTTPRequestData : public HELPER {
                                                 net::constants::kDefaultHTMLContentType);
                 CURRENT_THROW(ChunkSizeNotAValidHEXValue());
               }
-            }());
+              return value;
+            }();
             if (chunk_length == 0) {
               // Done with the body.
               HELPER::OnChunkedBodyDone(body_buffer_begin_, body_buffer_end_);
-- 
2.43.0


From 01e72a33a08fa2db40ae2e1a04bf81e2a096f1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:49 +0000
Subject: [PATCH 036/107] fix: refuse a content length which is not a number,
 or does not fit one

---
 bricks/net/exceptions.h            |  2 ++
 bricks/net/http/default_messages.h |  1 +
 bricks/net/http/impl/server.h      | 14 +++++++++++++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/bricks/net/exceptions.h b/bricks/net/exceptions.h
index f4caf15..6751188 100644
--- a/bricks/net/exceptions.h
+++ b/bricks/net/exceptions.h
@@ -101,6 +101,8 @@ struct HTTPRedirectLoopException : HTTPException {
 };
 struct HTTPPayloadTooLarge : HTTPException {};
 struct HTTPRequestBodyLengthNotProvided : HTTPException {};
+
+struct HTTPContentLengthNotAValidNumber : HTTPException {};
 struct ChunkSizeNotAValidHEXValue : HTTPException {};
 
 // AttemptedToSendHTTPResponseMoreThanOnce is a user code exception; not really an HTTP one.
diff --git a/bricks/net/http/default_messages.h b/bricks/net/http/default_messages.h
index 13dc053..c50d7ea 100644
--- a/bricks/net/http/default_messages.h
+++ b/bricks/net/http/default_messages.h
@@ -41,6 +41,7 @@ inline std::string DefaultInternalServerErrorMessage() { return "<h1>INTERNAL SE
 inline std::string DefaultMethodNotAllowedMessage() { return "<h1>METHOD NOT ALLOWED</h1>\n"; }
 inline std::string DefaultRequestEntityTooLargeMessage() { return "<h1>ENTITY TOO LARGE</h1>\n"; }
 inline std::string DefaultLengthRequiredMessage() { return "<h1>LENGTH REQUIRED</h1>\n"; }
+inline std::string DefaultInvalidContentLengthBadRequestMessage() { return "<h1>BAD CONTENT LENGTH</h1>\n"; }
 inline std::string DefaultInvalidHEXChunkSizeBadRequestMessage() { return "<h1>BAD CHUNK SIZE</h1>\n"; }
 
 }  // namespace net
diff --git a/bricks/net/http/impl/server.h b/bricks/net/http/impl/server.h
index eca6597..3d383b6 100644
--- a/bricks/net/http/impl/server.h
+++ b/bricks/net/http/impl/server.h
@@ -580,7 +580,19 @@ class GenericHTTPRequestData : public HELPER {
 
             HELPER::OnHeader(key, value);
             if (HeaderNameEquals(key, constants::kContentLengthHeaderKey)) {
-              body_length = static_cast<size_t>(atoi(value));
+              const char* p_digit = value;
+              body_length = 0u;
+              while (*p_digit >= '0' && *p_digit <= '9' && body_length <= constants::kMaxHTTPPayloadSizeInBytes) {
+                body_length = body_length * 10u + static_cast<size_t>(*p_digit++ - '0');
+              }
+              if (body_length <= constants::kMaxHTTPPayloadSizeInBytes && (p_digit == value || *p_digit)) {
+                HTTPResponder::SendHTTPResponse(c,
+                                                net::DefaultInvalidContentLengthBadRequestMessage(),
+                                                HTTPResponseCode.BadRequest,
+                                                http::Headers(),
+                                                net::constants::kDefaultHTMLContentType);
+                CURRENT_THROW(HTTPContentLengthNotAValidNumber());
+              }
               if (body_length > constants::kMaxHTTPPayloadSizeInBytes) {
                 HTTPResponder::SendHTTPResponse(c,
                                                 net::DefaultRequestEntityTooLargeMessage(),
-- 
2.43.0


From e5906fdc224a835bd9e5c2e5ee0c7bd51ff129df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:18 +0000
Subject: [PATCH 037/107] fix: do not drop the line callbacks of a chunked
 request as its completion callback is set

---
 blocks/http/types.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blocks/http/types.h b/blocks/http/types.h
index 6d311c3..cf4cc7d 100644
--- a/blocks/http/types.h
+++ b/blocks/http/types.h
@@ -129,7 +129,6 @@ struct ChunkedBase {
   }
   T& OnDone(std::function<void()> done_callback) {
     this->done_callback_impl = done_callback;
-    group_by_lines_.clear();
     return static_cast<T&>(*this);
   }
 
@@ -156,6 +155,8 @@ struct ChunkedBase {
   }
 
   void done_callback_wrapper() {
+    // Destructing the groupers passes the last, unterminated, line to its callback.
+    group_by_lines_.clear();
     if (done_callback_impl) {
       done_callback_impl();
     }
-- 
2.43.0


From a68da5f945c7667e68d601e0622e24ad6d7f5410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:33 +0000
Subject: [PATCH 038/107] fix: do not drop what follows a zero byte when
 grouping by lines

---
 bricks/strings/group_by_lines.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bricks/strings/group_by_lines.h b/bricks/strings/group_by_lines.h
index ae25ff0..0d471a6 100644
--- a/bricks/strings/group_by_lines.h
+++ b/bricks/strings/group_by_lines.h
@@ -93,8 +93,11 @@ class GenericStatefulGroupByLines final {
 
  public:
   explicit GenericStatefulGroupByLines(F&& f) : f_(std::move(f)) {}
-  void Feed(const std::string& s) { Feed(s.c_str()); }
-  void Feed(const char* s) {
+  void Feed(const std::string& s) { FeedRange(s.data(), s.data() + s.length()); }
+  void Feed(const char* s) { FeedRange(s, s + std::char_traits<char>::length(s)); }
+
+ private:
+  void FeedRange(const char* s, const char* end) {
     if (done_called_) {
       CURRENT_THROW(GroupByLinesFeedCaledAfterDone());
     }
@@ -108,10 +111,10 @@ class GenericStatefulGroupByLines final {
       // the `GenericStatefulGroupByLines` instance is destroyed (in the `E == GroupByLinesExceptions::Prohibit` mode),
       // or the `.Done()` method is called (in the `GroupByLinesExceptions::Allow` mode).
       while (true) {
-        while (*s && *s != '\n') {
+        while (s != end && *s != '\n') {
           residual_ += *s++;
         }
-        if (*s == '\n') {
+        if (s != end) {
           ++s;
           std::string extracted;
           residual_.swap(extracted);
@@ -126,6 +129,8 @@ class GenericStatefulGroupByLines final {
     }
   }
 
+ public:
+
   template <bool ENABLE = (E == GroupByLinesExceptions::Allow)>
   std::enable_if_t<ENABLE> Done() {
     if (done_called_) {
-- 
2.43.0


From 31dc561cc8d0072fc06398fb43f5412343839fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:20 +0000
Subject: [PATCH 039/107] fix: unregister nothing if some of the handlers to
 unregister do not exist

---
 blocks/http/impl/posix_server.h | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/blocks/http/impl/posix_server.h b/blocks/http/impl/posix_server.h
index 9c087f6..2e209bb 100644
--- a/blocks/http/impl/posix_server.h
+++ b/blocks/http/impl/posix_server.h
@@ -257,25 +257,29 @@ class HTTPServerPOSIX final {
   void UnRegister(const std::string& path,
                   const URLPathArgs::CountMask path_args_count_mask = URLPathArgs::CountMask::None) {
     std::lock_guard<std::mutex> lock(mutex_);
+    const auto it = handlers_.find(path);
+    if (it == handlers_.end()) {
+      CURRENT_THROW(HandlerDoesNotExistException(path));
+    }
+    auto& map = it->second;
+    // Step 1: Confirm the request is valid, to either unregister everything asked for, or nothing.
     URLPathArgs::CountMask mask = URLPathArgs::CountMask::None;  // `None` == 1 == (1 << 0).
+    for (size_t i = 0; i <= URLPathArgs::MaxArgsCount; ++i, mask <<= 1) {
+      if ((path_args_count_mask & mask) == mask && !map.count(i)) {
+        CURRENT_THROW(HandlerDoesNotExistException(path));
+      }
+    }
+    // Step 2: Unregister.
+    mask = URLPathArgs::CountMask::None;
     for (size_t i = 0; i <= URLPathArgs::MaxArgsCount; ++i, mask <<= 1) {
       if ((path_args_count_mask & mask) == mask) {
-        auto it1 = handlers_.find(path);
-        if (it1 == handlers_.end()) {
-          CURRENT_THROW(HandlerDoesNotExistException(path));
-        }
-        auto& map = it1->second;
-        auto it2 = map.find(i);
-        if (it2 == map.end()) {
-          CURRENT_THROW(HandlerDoesNotExistException(path));
-        }
-        map.erase(it2);
-        if (map.empty()) {
-          // Maintain the value of `PathHandlersCount()` invariant.
-          handlers_.erase(it1);
-        }
+        map.erase(i);
       }
     }
+    if (map.empty()) {
+      // Maintain the value of `PathHandlersCount()` invariant.
+      handlers_.erase(it);
+    }
   }
 
   HTTPRoutesScope ServeStaticFilesFrom(const std::string& dir,
-- 
2.43.0


From 07e8e5d1208b88e4a93269307554f2e02a15364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:06 +0000
Subject: [PATCH 040/107] fix: do not mistake the path which contains a colon
 and two slashes for the URL with a scheme

---
 blocks/url/url.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blocks/url/url.h b/blocks/url/url.h
index a4ff243..339d2f0 100644
--- a/blocks/url/url.h
+++ b/blocks/url/url.h
@@ -101,9 +101,10 @@ struct URLWithoutParametersParser {
     scheme = "";
     size_t parsed_offset = 0;
 
-    // This piece parses scheme.
+    // This piece parses scheme. The double slash past some other slash is part of the path.
     const size_t double_slash = url.find("//");
-    if (double_slash != std::string::npos && (double_slash == 0 || url[double_slash - 1] == ':')) {
+    if (double_slash != std::string::npos && double_slash == url.find('/') &&
+        (double_slash == 0 || url[double_slash - 1] == ':')) {
       scheme = (double_slash == 0 ? "" : url.substr(0, double_slash - 1));
       parsed_offset = double_slash + 2;
     }
-- 
2.43.0


From dda9bf3889bff22e71d8990e01ec7988b363324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:47 +0000
Subject: [PATCH 041/107] fix: tell the groups of a regular expression from the
 parentheses which are not ones

---
 bricks/strings/regex.h | 44 ++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/bricks/strings/regex.h b/bricks/strings/regex.h
index aca81a9..20f2828 100644
--- a/bricks/strings/regex.h
+++ b/bricks/strings/regex.h
@@ -25,6 +25,7 @@ SOFTWARE.
 #ifndef BRICKS_STRINGS_REGEX_H
 #define BRICKS_STRINGS_REGEX_H
 
+#include <cctype>
 #include <regex>
 #include <memory>  // For `std::make_unique<>`.
 #include <string>
@@ -63,21 +64,40 @@ class NamedRegexCapturer {
     std::regex transformed_re;
 
     Data(std::string re_body) {
-      // This regex requires explanation.
-      // 1) Must begin with a non-escaped "(".
-      // 2) Must not begin with "(?:" or "(?=".
-      // 3) May, but does not have to be "(?<...>").
-      const std::regex re_capture_groups("\\((?!\\?:)(?!\\?=)(\\?<(\\w+)>)?");
-      for (const auto& capture_group : current::strings::IterateByRegexMatches(re_capture_groups, re_body)) {
-        if (!capture_group.position() || re_body[capture_group.position() - 1u] != '\\') {
-          const std::string name = capture_group[2].str();
-          if (!name.empty()) {
-            group_indexes[name] = group_names.size() + 1u;
+      // 1) Whatever follows a backslash is escaped.
+      // 2) The parentheses within a character class, as in "[(]", are not special.
+      // 3) The groups that begin with "(?:", "(?=", or "(?!" do not capture.
+      // 4) The ones that begin with "(?<name>" do, and they are what has to be transformed.
+      bool within_character_class = false;
+      for (size_t i = 0u; i < re_body.length(); ++i) {
+        const char c = re_body[i];
+        transformed_re_body += c;
+        if (c == '\\' && i + 1u < re_body.length()) {
+          transformed_re_body += re_body[++i];
+        } else if (within_character_class) {
+          within_character_class = (c != ']');
+        } else if (c == '[') {
+          within_character_class = true;
+        } else if (c == '(') {
+          if (re_body.compare(i, 3u, "(?:") && re_body.compare(i, 3u, "(?=") && re_body.compare(i, 3u, "(?!")) {
+            std::string name;
+            if (!re_body.compare(i, 3u, "(?<")) {
+              size_t j = i + 3u;
+              while (j < re_body.length() && (::isalnum(static_cast<unsigned char>(re_body[j])) || re_body[j] == '_')) {
+                ++j;
+              }
+              if (j > i + 3u && j < re_body.length() && re_body[j] == '>') {
+                name = re_body.substr(i + 3u, j - (i + 3u));
+                i = j;
+              }
+            }
+            if (!name.empty()) {
+              group_indexes[name] = group_names.size() + 1u;
+            }
+            group_names.push_back(name);
           }
-          group_names.push_back(name);
         }
       }
-      transformed_re_body = std::regex_replace(re_body, re_capture_groups, "(");
       transformed_re = std::regex(transformed_re_body);
     }
   };
-- 
2.43.0


From 935c8942a652edb69305bec90ac51fa5c4ffb7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:09 +0000
Subject: [PATCH 042/107] fix: do not print a leading zero when rounding the
 numbers just below a power of ten

---
 bricks/strings/rounding.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bricks/strings/rounding.h b/bricks/strings/rounding.h
index 4444be6..00d4e72 100644
--- a/bricks/strings/rounding.h
+++ b/bricks/strings/rounding.h
@@ -53,8 +53,13 @@ inline std::string RoundDoubleToString(double value, size_t n_digits, bool plus_
   const int dim = static_cast<int>(std::ceil(std::log(value) / std::log(10.0) + 1e-10));
   uint64_t mod = static_cast<uint64_t>(std::pow(10.0, n_digits));
 
-  const int log10_multiplier = static_cast<int>(n_digits) - dim;
+  int log10_multiplier = static_cast<int>(n_digits) - dim;
   uint64_t integerized = static_cast<uint64_t>(value * std::pow(10.0, log10_multiplier) + 0.5);
+  if (value * std::pow(10.0, log10_multiplier) < mod / 10) {
+    // The value is that close to the next power of ten that `dim` is one too many.
+    ++log10_multiplier;
+    integerized = static_cast<uint64_t>(value * std::pow(10.0, log10_multiplier) + 0.5);
+  }
 
   int digit_index = static_cast<int>(n_digits - log10_multiplier);
 
-- 
2.43.0


From 3772433678b3cc305d3db6b4bc53fa3f8e73b147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:33 +0000
Subject: [PATCH 043/107] fix: do not split by the terminating zero of the
 literal with the separators

---
 bricks/strings/split.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bricks/strings/split.h b/bricks/strings/split.h
index 67f6df1..7605326 100644
--- a/bricks/strings/split.h
+++ b/bricks/strings/split.h
@@ -86,7 +86,10 @@ struct MatchImpl<std::string> {
 template <size_t N>
 struct MatchImpl<const char[N]> {
   enum { valid_separator = true };
-  static std::enable_if_t<(N > 0), bool> Match(char c, const char s[N]) { return std::find(s, s + N, c) != (s + N); }
+  // The terminating zero of the literal is not one of the separators.
+  static std::enable_if_t<(N > 0), bool> Match(char c, const char s[N]) {
+    return std::find(s, s + N - 1, c) != (s + N - 1);
+  }
 };
 
 template <typename T>
-- 
2.43.0


From 5aee2e54b5292dbfcb0dbe8e447c448462aecf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:22 +0000
Subject: [PATCH 044/107] fix: do not ignore what follows the padding when
 decoding base64

---
 bricks/util/base64.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bricks/util/base64.h b/bricks/util/base64.h
index a92b4e5..162bab0 100644
--- a/bricks/util/base64.h
+++ b/bricks/util/base64.h
@@ -110,6 +110,14 @@ struct Impl {
       const char c = input[i];
       if (c == pad_char) {
         output.resize(output_index);
+#ifndef NDEBUG
+        // Nothing but the padding can follow the padding.
+        for (++i; i < input_size; ++i) {
+          if (input[i] != pad_char) {
+            CURRENT_THROW(Base64DecodeException());
+          }
+        }
+#endif
         break;
       }
 #ifndef NDEBUG
-- 
2.43.0


From abccebaae15e99087957a201a3e9970eb5492668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 045/107] fix: refuse the values of the flags which are numbers
 only in part, or wrap around, and parse the single-byte ones as numbers

---
 bricks/dflags/dflags.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bricks/dflags/dflags.h b/bricks/dflags/dflags.h
index d92eada..2c52c53 100644
--- a/bricks/dflags/dflags.h
+++ b/bricks/dflags/dflags.h
@@ -64,6 +64,7 @@ int main(int argc, char** argv) {
 #include <cstring>
 #include <functional>
 #include <iostream>
+#include <limits>
 #include <map>
 #include <sstream>
 #include <string>
@@ -116,8 +117,18 @@ class FlagsRegistererSingleton {
 
 template <typename T>
 inline bool FromStringSupportingStringAndBool(const std::string& from, T& to) {
+  // The single-byte integers are numbers, not characters.
+  using parsed_t = std::conditional_t<std::is_integral_v<T> && sizeof(T) == 1, int, T>;
+  parsed_t parsed;
   std::istringstream is(from);
-  return static_cast<bool>(is >> to);
+  // The whole value should be parsed, and the negative ones should not wrap around.
+  if (!(is >> parsed) || is.peek() != std::istringstream::traits_type::eof() ||
+      (std::is_unsigned_v<T> && from.find('-') != std::string::npos) ||
+      parsed < std::numeric_limits<T>::lowest() || parsed > std::numeric_limits<T>::max()) {
+    return false;
+  }
+  to = static_cast<T>(parsed);
+  return true;
 }
 
 template <>
-- 
2.43.0


From 4ae719fbe0c22c9d84fcf3fd3d26bc44b4145c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:10 +0000
Subject: [PATCH 046/107] fix: do not look at the MMQ entry after it has been
 committed

---
 blocks/mmq/mmq.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/blocks/mmq/mmq.h b/blocks/mmq/mmq.h
index 0b33429..4b01d12 100644
--- a/blocks/mmq/mmq.h
+++ b/blocks/mmq/mmq.h
@@ -103,8 +103,10 @@ class MMQImpl {
     const std::pair<bool, size_t> index = CircularBufferAllocate(std::forward<TIMESTAMP>(timestamp));
     if (index.first) {
       circular_buffer_[index.second].message_body = message;
+      // Once committed, the entry is no longer this thread's to look at.
+      const idxts_t idxts = circular_buffer_[index.second].index_timestamp;
       CircularBufferCommit(index.second);
-      return circular_buffer_[index.second].index_timestamp;
+      return idxts;
     } else {
       return idxts_t();
     }
@@ -115,8 +117,10 @@ class MMQImpl {
     const std::pair<bool, size_t> index = CircularBufferAllocate(std::forward<TIMESTAMP>(timestamp));
     if (index.first) {
       circular_buffer_[index.second].message_body = std::move(message);
+      // Once committed, the entry is no longer this thread's to look at.
+      const idxts_t idxts = circular_buffer_[index.second].index_timestamp;
       CircularBufferCommit(index.second);
-      return circular_buffer_[index.second].index_timestamp;
+      return idxts;
     } else {
       return idxts_t();
     }
-- 
2.43.0


From c425148a139741f5e6f74dafe2cb8ef8fe56fe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:10 +0000
Subject: [PATCH 047/107] fix: commit all the queued messages before destroying
 the MMQ

---
 blocks/mmq/mmq.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blocks/mmq/mmq.h b/blocks/mmq/mmq.h
index 4b01d12..c41b268 100644
--- a/blocks/mmq/mmq.h
+++ b/blocks/mmq/mmq.h
@@ -148,7 +148,8 @@ class MMQImpl {
         std::unique_lock<std::mutex> lock(mutex_);
         condition_variable_.wait(
             lock, [this, tail] { return (circular_buffer_[tail].status == Entry::READY) || destructing_; });
-        if (destructing_) {
+        if (circular_buffer_[tail].status != Entry::READY) {
+          // Destructing, with all the queued messages committed.
           return;  // LCOV_EXCL_LINE
         }
         circular_buffer_[tail].status = Entry::BEING_EXPORTED;
-- 
2.43.0


From c9edc3f0c64cdc75f39f0ab73b67e60fa416c2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:10 +0000
Subject: [PATCH 048/107] fix: keep the timestamps of MMQ strictly increasing
 when waiting for a slot in the buffer

---
 blocks/mmq/mmq.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/blocks/mmq/mmq.h b/blocks/mmq/mmq.h
index c41b268..b23a6ca 100644
--- a/blocks/mmq/mmq.h
+++ b/blocks/mmq/mmq.h
@@ -217,10 +217,6 @@ class MMQImpl {
     if (destructing_) {
       return std::make_pair(false, 0u);  // LCOV_EXCL_LINE
     }
-    const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
-    if (!(timestamp > last_idx_ts_.us)) {
-      CURRENT_THROW(ss::InconsistentTimestampException(last_idx_ts_.us + std::chrono::microseconds(1), timestamp));
-    }
     while (circular_buffer_[head_].status != Entry::FREE) {
       // Waiting for the next empty slot in the buffer.
       condition_variable_.wait(lock,
@@ -229,6 +225,11 @@ class MMQImpl {
         return std::make_pair(false, 0u);  // LCOV_EXCL_LINE
       }
     }
+    // The timestamp is only final once the slot is available, as other messages may be published meanwhile.
+    const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
+    if (!(timestamp > last_idx_ts_.us)) {
+      CURRENT_THROW(ss::InconsistentTimestampException(last_idx_ts_.us + std::chrono::microseconds(1), timestamp));
+    }
     const size_t index = head_;
     ++last_idx_ts_.index;
     last_idx_ts_.us = timestamp.count() >= 0 ? timestamp : current::time::Now();
-- 
2.43.0


From 4fc149623ce0e65f28cb46f3c56b1d0b5639784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:30 +0000
Subject: [PATCH 049/107] fix: do not lose the MMPQ entries published with
 equal timestamps

---
 blocks/mmq/mmpq.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blocks/mmq/mmpq.h b/blocks/mmq/mmpq.h
index 879ff74..c3d4f53 100644
--- a/blocks/mmq/mmpq.h
+++ b/blocks/mmq/mmpq.h
@@ -138,7 +138,8 @@ class MMPQImpl {
     bool operator<(const Entry& rhs) const { return index_timestamp.us < rhs.index_timestamp.us; }
   };
 
-  std::set<Entry> queue_;
+  // Not an `std::set<>`, as the entries with equal timestamps are different entries, kept in the order of publishing.
+  std::multiset<Entry> queue_;
   idxts_t last_idx_ts_ = idxts_t(0, std::chrono::microseconds(-1));
   std::mutex mutex_;
   std::condition_variable condition_variable_;
-- 
2.43.0


From c50d36366be10e8974a19cb2349e59b01cda897c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:30 +0000
Subject: [PATCH 050/107] fix: make publishing a message by a const reference
 into the MMPQ compile, and return the timestamp of this message

---
 blocks/mmq/mmpq.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blocks/mmq/mmpq.h b/blocks/mmq/mmpq.h
index c3d4f53..6043aa8 100644
--- a/blocks/mmq/mmpq.h
+++ b/blocks/mmq/mmpq.h
@@ -80,9 +80,10 @@ class MMPQImpl {
     // Does not update `last_idx_ts_.us` at all. `UpdateHead()` must be called.
     // This is to ensure the regular `Publish`, coming through the interface defined in `Blocks/ss/pubsub.h`,
     // can publish into the future and utilize the full power of MMPQ.
-    queue_.emplace(std::forward<E>(entry), idxts_t(last_idx_ts_.index, us));
+    const idxts_t idxts(last_idx_ts_.index, us);
+    queue_.emplace(std::forward<E>(entry), idxts);
     condition_variable_.notify_all();
-    return last_idx_ts_;
+    return idxts;
   }
 
   // NOTE: `UpdateHead` must be called for the entries to be processed, since otherwise, as entries can be published
@@ -133,6 +134,8 @@ class MMPQImpl {
     message_t message_body;
     Entry() = default;
     Entry(Entry&&) = default;
+    Entry(const message_t& message_body, idxts_t index_timestamp)
+        : index_timestamp(index_timestamp), message_body(message_body) {}
     Entry(message_t&& message_body, idxts_t index_timestamp)
         : index_timestamp(index_timestamp), message_body(std::move(message_body)) {}
     bool operator<(const Entry& rhs) const { return index_timestamp.us < rhs.index_timestamp.us; }
-- 
2.43.0


From a8eafd65fb9d64157f51744a941cc97a7d753342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:44 +0000
Subject: [PATCH 051/107] fix: commit all the queued messages up to the head
 before destroying the MMPQ

---
 blocks/mmq/mmpq.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/blocks/mmq/mmpq.h b/blocks/mmq/mmpq.h
index 6043aa8..433e05e 100644
--- a/blocks/mmq/mmpq.h
+++ b/blocks/mmq/mmpq.h
@@ -109,11 +109,14 @@ class MMPQImpl {
     while (true) {
       std::unique_lock<std::mutex> lock(mutex_);
 
-      condition_variable_.wait(lock, [this] {
-        return (!queue_.empty() && queue_.begin()->index_timestamp.us <= last_idx_ts_.us) || destructing_;
-      });
+      const auto ready = [this]() {
+        return !queue_.empty() && queue_.begin()->index_timestamp.us <= last_idx_ts_.us;
+      };
 
-      if (destructing_) {
+      condition_variable_.wait(lock, [this, &ready]() { return ready() || destructing_; });
+
+      if (!ready()) {
+        // Destructing, with all the queued messages up to the head committed.
         return;  // LCOV_EXCL_LINE
       }
 
-- 
2.43.0


From fc71b4b817cc647e3a8ac3649abca16b2136a18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:56 +0000
Subject: [PATCH 052/107] fix: make UseAsLock of WaitableAtomic compile

---
 bricks/sync/waitable_atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bricks/sync/waitable_atomic.h b/bricks/sync/waitable_atomic.h
index 02bf49b..739f801 100644
--- a/bricks/sync/waitable_atomic.h
+++ b/bricks/sync/waitable_atomic.h
@@ -187,7 +187,7 @@ class WaitableAtomicImpl {
     void Notify() { data_condition_variable_.notify_all(); }
 
     void UseAsLock(std::function<void()> f) const {
-      std::unique_lock<std::mutex> lock(data_t::data_mutex_);
+      std::unique_lock<std::mutex> lock(data_mutex_);
       f();
     }
 
-- 
2.43.0


From e2c57a01ccb7e0e8be4f871fbb6645255e2ca7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:56 +0000
Subject: [PATCH 053/107] fix: do not use the WaitableAtomic after its last
 client has been reported gone

---
 bricks/sync/waitable_atomic.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bricks/sync/waitable_atomic.h b/bricks/sync/waitable_atomic.h
index 739f801..3b2e002 100644
--- a/bricks/sync/waitable_atomic.h
+++ b/bricks/sync/waitable_atomic.h
@@ -340,8 +340,9 @@ class WaitableAtomicImpl {
       {
         std::lock_guard<std::mutex> guard(BasicImpl::data_mutex_);
         --ref_count_;
+        // Notify with the mutex locked, as the object may be gone right after the mutex is released.
+        cv_.notify_one();
       }
-      cv_.notify_one();
     }
 
     virtual bool IsDestructing() const override {
-- 
2.43.0


From 8d1e9cdfb16c66d7080328bcf6de04b314ef408e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:56 +0000
Subject: [PATCH 054/107] fix: abort the waits with a timeout as well as an
 intrusive WaitableAtomic is being destroyed

---
 bricks/sync/waitable_atomic.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bricks/sync/waitable_atomic.h b/bricks/sync/waitable_atomic.h
index 3b2e002..13446d5 100644
--- a/bricks/sync/waitable_atomic.h
+++ b/bricks/sync/waitable_atomic.h
@@ -321,6 +321,19 @@ class WaitableAtomicImpl {
       }
     }
 
+    template <typename T>
+    bool WaitFor(std::function<bool(const data_t&)> predicate, T duration) const {
+      std::unique_lock<std::mutex> lock(BasicImpl::data_mutex_);
+      if (destructing_) {
+        return false;
+      } else {
+        const data_t& data = BasicImpl::data_;
+        const bool result = BasicImpl::data_condition_variable_.wait_for(
+            lock, duration, [this, &predicate, &data] { return destructing_ || predicate(data); });
+        return result && !destructing_;
+      }
+    }
+
     IntrusiveClient RegisterScopedClient() { return IntrusiveClient(this); }
 
     virtual bool RefCounterTryIncrease() override {
-- 
2.43.0


From 08ffd4881175112a4dbd9b45e92f324a40648392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:57 +0000
Subject: [PATCH 055/107] fix: parse the text which is not a value of a
 single-byte integral type as zero, not as garbage

---
 bricks/strings/util.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bricks/strings/util.h b/bricks/strings/util.h
index 38bd585..3f9ce7c 100644
--- a/bricks/strings/util.h
+++ b/bricks/strings/util.h
@@ -206,7 +206,10 @@ struct FromStringImpl<INPUT, int8_t, false, false> {
   static const int8_t& Go(const std::string& input, int8_t& output) {
     std::istringstream is(input);
     int value;
-    is >> value;
+    if (!(is >> value) || value != static_cast<int>(static_cast<int8_t>(value))) {
+      // Same as for the other integral types, zero if the value can not be parsed or does not fit.
+      value = 0;
+    }
     output = static_cast<int8_t>(value);
     return output;
   }
@@ -217,7 +220,10 @@ struct FromStringImpl<INPUT, uint8_t, false, false> {
   static const uint8_t& Go(const std::string& input, uint8_t& output) {
     std::istringstream is(input);
     int value;
-    is >> value;
+    if (!(is >> value) || value != static_cast<int>(static_cast<uint8_t>(value))) {
+      // Same as for the other integral types, zero if the value can not be parsed or does not fit.
+      value = 0;
+    }
     output = static_cast<uint8_t>(value);
     return output;
   }
-- 
2.43.0


From 0fa1c61adceed41e54a5cfe6eb9f6c53a5cab314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:57 +0000
Subject: [PATCH 056/107] fix: parse the enums with a single-byte underlying
 type as numbers, the way they are printed

---
 bricks/strings/util.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bricks/strings/util.h b/bricks/strings/util.h
index 3f9ce7c..a5312eb 100644
--- a/bricks/strings/util.h
+++ b/bricks/strings/util.h
@@ -180,12 +180,15 @@ struct FromStringImpl<INPUT, OUTPUT, false, true> {
   static const OUTPUT& Go(INPUT&& input, OUTPUT& output) {
     std::istringstream is(input);
     using underlying_output_t = typename std::underlying_type<OUTPUT>::type;
-    underlying_output_t underlying_output;
-    if (!(is >> underlying_output)) {
+    // The single-byte types are numbers here, while `std::istringstream` would treat them as characters.
+    using parsed_output_t = std::conditional_t<(sizeof(underlying_output_t) > 1), underlying_output_t, int>;
+    parsed_output_t parsed_output;
+    if (!(is >> parsed_output) ||
+        parsed_output != static_cast<parsed_output_t>(static_cast<underlying_output_t>(parsed_output))) {
       // Default initializer, zero for primitive types.
-      underlying_output = underlying_output_t();
+      parsed_output = parsed_output_t();
     }
-    output = static_cast<OUTPUT>(underlying_output);
+    output = static_cast<OUTPUT>(static_cast<underlying_output_t>(parsed_output));
     return output;
   }
 };
-- 
2.43.0


From 3a6d169a09357416e448a524fe87ee48874e837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:57 +0000
Subject: [PATCH 057/107] fix: do not return an uninitialized value when
 unpacking an empty fixed-size string

---
 bricks/strings/fixed_size_serializer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bricks/strings/fixed_size_serializer.h b/bricks/strings/fixed_size_serializer.h
index c667e99..ca18c84 100644
--- a/bricks/strings/fixed_size_serializer.h
+++ b/bricks/strings/fixed_size_serializer.h
@@ -50,7 +50,7 @@ struct FixedSizeSerializer
     return os.str();
   }
   static T UnpackFromString(std::string const& s) {
-    T x;
+    T x = T();
     std::istringstream is(s);
     is >> x;
     return x;
-- 
2.43.0


From a6b7a2432d455209d6b1f922a14c72dc915caecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:57 +0000
Subject: [PATCH 058/107] fix: do not return an uninitialized value when
 unpacking the time from an empty fixed-size string

---
 bricks/time/chrono.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bricks/time/chrono.h b/bricks/time/chrono.h
index 0a06775..8aad6dc 100644
--- a/bricks/time/chrono.h
+++ b/bricks/time/chrono.h
@@ -146,7 +146,7 @@ struct FixedSizeSerializer<std::chrono::microseconds> {
     return os.str();
   }
   static std::chrono::microseconds UnpackFromString(std::string const& s) {
-    uint64_t x;
+    uint64_t x = 0u;
     std::istringstream is(s);
     is >> x;
     return std::chrono::microseconds(x);
-- 
2.43.0


From aa9611a86e08183a823f8db4f3641545b8484cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:57 +0000
Subject: [PATCH 059/107] fix: format and parse the dates centuries away from
 today, and the fractions of seconds before 1970

---
 bricks/time/chrono.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bricks/time/chrono.h b/bricks/time/chrono.h
index 8aad6dc..f5d9105 100644
--- a/bricks/time/chrono.h
+++ b/bricks/time/chrono.h
@@ -193,8 +193,10 @@ using IsTimestamp = IsTimestampImpl<decay_t<T>>;
 
 template <time::TimeRepresentation T = time::TimeRepresentation::Local>
 inline std::tm& FillStructTM(std::chrono::microseconds t, std::tm& output_tm) {
-  std::chrono::time_point<std::chrono::system_clock> tp(t);
-  time_t tt = std::chrono::system_clock::to_time_t(tp);
+  // Do not go through `std::chrono::system_clock`, which may count in nanoseconds, and thus overflow.
+  // Besides, round towards the past, not towards the Epoch.
+  const int64_t million = static_cast<int64_t>(1e6);
+  time_t tt = static_cast<time_t>(t.count() / million - (t.count() % million < 0 ? 1 : 0));
   ::memset(&output_tm, 0, sizeof(std::tm));
   if (T == time::TimeRepresentation::Local) {
 #ifdef CURRENT_WINDOWS
@@ -257,9 +259,7 @@ inline std::chrono::microseconds DateTimeStringToTimestamp(
       tm.tm_isdst = 0;
       tt = ::timegm(&tm);
     }
-    const auto result =
-        std::chrono::time_point_cast<std::chrono::microseconds>(std::chrono::system_clock::from_time_t(tt))
-            .time_since_epoch();
+    const auto result = std::chrono::microseconds(static_cast<int64_t>(tt) * million);
     if (padding == time::SecondsToMicrosecondsPadding::Lower) {
       return result;
     } else {
-- 
2.43.0


From 2b735ba82f4c46d4c1e0472e39401d32d9e31d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:32 +0000
Subject: [PATCH 060/107] fix: do not move or erase beyond the end of the
 document when replaying its history

---
 utils/operational_transformation/ot.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utils/operational_transformation/ot.h b/utils/operational_transformation/ot.h
index b254118..ef80e61 100644
--- a/utils/operational_transformation/ot.h
+++ b/utils/operational_transformation/ot.h
@@ -102,7 +102,14 @@ typename PROCESSOR::generate_output_result_t OT(const std::string& json, PROCESS
         if (!element.IsNumber()) {
           CURRENT_THROW(OTParseException("OT element is not a string or number."));
         }
+        if (!element.IsInt()) {
+          CURRENT_THROW(OTParseException("OT element is not an integer number."));
+        }
         const int v = element.GetInt();
+        const int64_t remaining = static_cast<int64_t>(rope.size()) - caret;
+        if ((v > 0 ? v : -static_cast<int64_t>(v)) > remaining) {
+          CURRENT_THROW(OTParseException("OT element refers beyond the end of the document."));
+        }
         if (v > 0) {
           caret += v;
         } else {
-- 
2.43.0


From 3f16135cc7548e84d148762829f259d752c64096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:36 +0000
Subject: [PATCH 061/107] fix: throw from ReadFileByLines if the file can not
 be read

---
 bricks/file/file.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index d93f7c8..712cf42 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -99,13 +99,16 @@ struct FileSystem {
   static inline void ReadFileByLines(const std::string& file_name, F&& f) {
     try {
       std::ifstream fi(file_name);
-      if (fi.bad()) {
+      if (!fi.good()) {
         CURRENT_THROW(CannotReadFileException(file_name));
       }
       std::string line;
       while (std::getline(fi, line)) {
         f(std::move(line));
       }
+      if (fi.bad()) {
+        CURRENT_THROW(CannotReadFileException(file_name));
+      }
     } catch (const std::ifstream::failure&) {
       CURRENT_THROW(CannotReadFileException(file_name));
     }
-- 
2.43.0


From 35740ad7a1264fdc95cae797cf7112dede5ca9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:36 +0000
Subject: [PATCH 062/107] fix: do not ignore the failure to flush the file when
 writing a string into it

---
 bricks/file/file.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index 712cf42..9721db0 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -123,6 +123,8 @@ struct FileSystem {
       fo.exceptions(std::ofstream::failbit | std::ofstream::badbit);
       fo.open(file_name, (append ? std::ofstream::app : std::ofstream::trunc) | std::ofstream::binary);
       fo << contents;
+      // Close the file explicitly, as the destructor would ignore the errors from flushing the buffer.
+      fo.close();
     } catch (const std::ofstream::failure&) {
       CURRENT_THROW(FileException(file_name));
     }
-- 
2.43.0


From 0da16e2b9d8f3628182c6a902df3a767f81ce9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:36 +0000
Subject: [PATCH 063/107] fix: throw the proper exception when reading a
 directory as a file

---
 bricks/file/file.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index 9721db0..d0eacf8 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -81,6 +81,9 @@ struct FileSystem {
       std::ifstream fi;
       fi.exceptions(std::ifstream::failbit | std::ifstream::badbit);
       fi.open(file_name, std::ifstream::binary);
+      if (IsDir(file_name)) {
+        CURRENT_THROW(CannotReadFileException(file_name));
+      }
       fi.seekg(0, std::ios::end);
       const size_t size = static_cast<size_t>(fi.tellg());
       std::string buffer(size, '\0');
-- 
2.43.0


From f3f2cb34fe6d1980242f97e7c1bca2e2cf11177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:36 +0000
Subject: [PATCH 064/107] fix: do not abort scanning the directory because of a
 dangling symbolic link in it

---
 bricks/file/file.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index d0eacf8..aeab6ba 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -309,7 +309,9 @@ struct FileSystem {
             // with Bricks' directory mounted from Mac's filesystem.
             // `entry->d_type` is always zero there, see http://comments.gmane.org/gmane.comp.lib.libcg.devel/4236
             std::string path = JoinPath(directory, name);
-            const bool is_directory = IsDir(path);
+            // The entry which can not be examined, such as a dangling symbolic link, is not a directory.
+            struct stat info;
+            const bool is_directory = !::stat(path.c_str(), &info) && S_ISDIR(info.st_mode);
             const ScanDirParameters mask =
                 is_directory ? ScanDirParameters::ListDirsOnly : ScanDirParameters::ListFilesOnly;
             if (static_cast<int>(parameters) & static_cast<int>(mask)) {
-- 
2.43.0


From e292318a2cb36d16f78c236b5160e9a65cec5a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:36 +0000
Subject: [PATCH 065/107] fix: stop the recursive scan altogether once the
 handler has asked to stop

---
 bricks/file/file.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index aeab6ba..5f286b1 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -335,9 +335,10 @@ struct FileSystem {
     } else {
       // Inner lambdas have distinct types thus creating template instantiation limit,
       // which is fixed by casting the lambda to its canonical type.
+      bool proceed = true;  // Set to false as the handler has asked to stop, to unwind all the levels of the recursion.
       ScanDirUntil(directory,
                    static_cast<const std::function<bool(const ScanDirItemInfo&)>>(
-                       [&item_handler, parameters, &context](const ScanDirItemInfo& item_info) {
+                       [&item_handler, parameters, &context, &proceed](const ScanDirItemInfo& item_info) {
                          const ScanDirParameters mask = item_info.is_directory ? ScanDirParameters::ListDirsOnly
                                                                                : ScanDirParameters::ListFilesOnly;
                          if (static_cast<int>(parameters) & static_cast<int>(mask)) {
@@ -349,13 +350,16 @@ struct FileSystem {
                            context.path_components.push_back(item_info.basename);
                            const auto guard =
                                current::MakeScopeGuard([&context]() { context.path_components.pop_back(); });
-                           ScanDirUntil<ITEM_HANDLER>(item_info.pathname,
-                                                      std::forward<ITEM_HANDLER>(item_handler),
-                                                      parameters,
-                                                      ScanDirRecursive::Yes,
-                                                      context);
+                           ScanDirUntil(item_info.pathname,
+                                        static_cast<const std::function<bool(const ScanDirItemInfo&)>>(
+                                            [&item_handler, &proceed](const ScanDirItemInfo& nested_item_info) {
+                                              return proceed = item_handler(nested_item_info);
+                                            }),
+                                        parameters,
+                                        ScanDirRecursive::Yes,
+                                        context);
                          }
-                         return true;
+                         return proceed;
                        }),
                    ScanDirParameters::ListFilesAndDirs,
                    ScanDirRecursive::No,
-- 
2.43.0


From ba0d9a2e4e3d0b7685aac40a0cda7bf9c255bae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:36 +0000
Subject: [PATCH 066/107] fix: do not follow symbolic links when removing a
 directory recursively

---
 bricks/file/file.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index 5f286b1..883d377 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -176,6 +176,17 @@ struct FileSystem {
     }
   }
 
+  // Unlike `IsDir`, does not follow the link, and does not throw.
+  static inline bool IsSymbolicLink(const std::string& path) {
+#ifndef CURRENT_WINDOWS
+    struct stat info;
+    return !::lstat(path.c_str(), &info) && S_ISLNK(info.st_mode);
+#else
+    static_cast<void>(path);
+    return false;
+#endif
+  }
+
   static inline uint64_t GetFileSize(const std::string& file_name) {
     struct stat info;
     if (::stat(file_name.c_str(), &info)) {
@@ -432,10 +443,13 @@ struct FileSystem {
       }
     } else {
       try {
+        if (IsSymbolicLink(directory)) {
+          CURRENT_THROW(PathNotDirException(directory));
+        }
         ScanDir(
             directory,
             [parameters](const ScanDirItemInfo& item_info) {
-              if (item_info.is_directory) {
+              if (item_info.is_directory && !IsSymbolicLink(item_info.pathname)) {
                 RmDir(item_info.pathname, parameters, RmDirRecursive::Yes);
               } else {
                 RmFile(item_info.pathname,
-- 
2.43.0


From fa1473a524c0d989d7682945d25be00130f8e7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:53 +0000
Subject: [PATCH 067/107] fix: differentiate each node once, not once per each
 path to it

---
 fncas/fncas/differentiate.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fncas/fncas/differentiate.h b/fncas/fncas/differentiate.h
index a32bf28..cbc995d 100644
--- a/fncas/fncas/differentiate.h
+++ b/fncas/fncas/differentiate.h
@@ -222,6 +222,10 @@ inline node_index_t differentiate_node(node_index_t index, size_t var_index, siz
       const node_index_t i = stack.top();
       stack.pop();
       const node_index_t dependent_i = ~i;
+      if (growing_vector_access(df, i > dependent_i ? i : dependent_i, static_cast<node_index_t>(-1)) != -1) {
+        // Already differentiated. Without this check the nodes used more than once take exponential time and memory.
+        continue;
+      }
       if (i > dependent_i) {
         node_impl& f = node_vector_singleton()[static_cast<size_t>(i)];
         if (f.type() == NodeType::variable && static_cast<size_t>(f.variable()) == var_index) {
-- 
2.43.0


From 8674232b36b25ab1bdfbe34b564aa7731734fd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:53 +0000
Subject: [PATCH 068/107] fix: keep the dimension of the approximate gradient
 when moving it

---
 fncas/fncas/differentiate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fncas/fncas/differentiate.h b/fncas/fncas/differentiate.h
index cbc995d..ecca262 100644
--- a/fncas/fncas/differentiate.h
+++ b/fncas/fncas/differentiate.h
@@ -289,7 +289,7 @@ struct g_impl<JIT::NativeWrapper> : g_super {
   std::function<double_t(const std::vector<double_t>&)> f_;
   size_t dim_;
   g_impl(std::function<double_t(const std::vector<double_t>&)> f, size_t dim) : f_(f), dim_(dim) {}
-  g_impl(g_impl&& rhs) : f_(rhs.f_) {}
+  g_impl(g_impl&& rhs) : f_(rhs.f_), dim_(rhs.dim_) {}
   g_impl() = default;
   g_impl(const g_impl&) = delete;
   void operator=(const g_impl& rhs) {
-- 
2.43.0


From 9afec467090755b55eb363bf75a9a5cb4bc67d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:53 +0000
Subject: [PATCH 069/107] fix: keep the indexes of the components of the
 compiled gradient when moving it

---
 fncas/fncas/jit.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fncas/fncas/jit.h b/fncas/fncas/jit.h
index e0009a2..d174796 100644
--- a/fncas/fncas/jit.h
+++ b/fncas/fncas/jit.h
@@ -118,7 +118,8 @@ struct compiled_expression final : noncopyable {
         heap_size_(std::move(rhs.heap_size_)),
         function_(std::move(rhs.function_)),
         gradient_(std::move(rhs.gradient_)),
-        lib_filename_(std::move(rhs.lib_filename_)) {
+        lib_filename_(std::move(rhs.lib_filename_)),
+        gradient_indexes_(std::move(rhs.gradient_indexes_)) {
     rhs.lib_ = nullptr;
   }
 
-- 
2.43.0


From 52be64f340b8f92b55f3cc1e7e3d39e4f997676c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:53 +0000
Subject: [PATCH 070/107] fix: make the ramp() of the negative zero in the
 C-compiled functions the same as in the other ones

---
 fncas/fncas/jit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fncas/fncas/jit.h b/fncas/fncas/jit.h
index d174796..18dd2a8 100644
--- a/fncas/fncas/jit.h
+++ b/fncas/fncas/jit.h
@@ -609,7 +609,7 @@ class JITImplementation<JIT::CLANG> final {
     fprintf(f, "#include <math.h>\n");
     fprintf(f, "#define sqr(x) ((x) * (x))\n");
     fprintf(f, "#define unit_step(x) ((x) >= 0 ? 1 : 0)\n");
-    fprintf(f, "#define ramp(x) ((x) >= 0 ? (x) : 0)\n");
+    fprintf(f, "#define ramp(x) ((x) > 0 ? (x) : 0)\n");
   }
 
   void compile_eval_f(node_index_t index) {
-- 
2.43.0


From 2277a941c764c6bdb062fc8ea483f147eaade4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:52 +0000
Subject: [PATCH 071/107] fix: return the best point found by the optimizers
 which do line search, as the last one may be worse

---
 fncas/fncas/optimize.h | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/fncas/fncas/optimize.h b/fncas/fncas/optimize.h
index 6b4a609..21772d3 100644
--- a/fncas/fncas/optimize.h
+++ b/fncas/fncas/optimize.h
@@ -584,6 +584,8 @@ struct OptimizeImpl<GradientDescentOptimizerBTSelector, DIRECTION> {
       current.value *= -1;
     }
 
+    ValueAndPoint best = current;  // Backtracking may run out of steps and end up in a worse point.
+
     {
       OptimizerStats stats("GradientDescentOptimizerBT");
       for (iteration = 0; iteration < max_steps; ++iteration) {
@@ -638,6 +640,9 @@ struct OptimizeImpl<GradientDescentOptimizerBTSelector, DIRECTION> {
           }
 
           current = next;
+          if (!(best.value <= current.value)) {
+            best = current;
+          }
         } catch (const exceptions::BacktrackingException&) {
           logger.Log("GradientDescentOptimizerBT: Terminating due to no backtracking step possible.");
           break;
@@ -646,13 +651,13 @@ struct OptimizeImpl<GradientDescentOptimizerBTSelector, DIRECTION> {
     }
 
     if (DIRECTION == OptimizationDirection::Maximize) {
-      current.value *= -1;
+      best.value *= -1;
     }
 
-    logger.Log("GradientDescentOptimizerBT: Result = " + super.PointAsString(current.point));
-    logger.Log("GradientDescentOptimizerBT: Objective function = " + current::ToString(current.value));
+    logger.Log("GradientDescentOptimizerBT: Result = " + super.PointAsString(best.point));
+    logger.Log("GradientDescentOptimizerBT: Objective function = " + current::ToString(best.value));
 
-    OptimizationResult result(current);
+    OptimizationResult result(best);
     result.optimization_iterations = static_cast<uint32_t>(iteration);
 
     if (track_progress) {
@@ -742,6 +747,8 @@ struct OptimizeImpl<ConjugateGradientOptimizerSelector, DIRECTION> {
     logger.Log("ConjugateGradientOptimizer: Begin at " + super.PointAsString(starting_point));
     size_t iteration;
     int no_improvement_steps = 0;
+    ValueAndPoint best = current;  // Backtracking may run out of steps and end up in a worse point.
+
     {
       OptimizerStats stats("ConjugateGradientOptimizer");
       for (iteration = 0; iteration < max_steps; ++iteration) {
@@ -793,6 +800,9 @@ struct OptimizeImpl<ConjugateGradientOptimizerSelector, DIRECTION> {
           }
 
           current = next;
+          if (!(best.value <= current.value)) {
+            best = current;
+          }
           current_gradient = new_gradient;
 
           // Simple early stopping by the norm of the gradient.
@@ -807,13 +817,13 @@ struct OptimizeImpl<ConjugateGradientOptimizerSelector, DIRECTION> {
     }
 
     if (DIRECTION == OptimizationDirection::Maximize) {
-      current.value *= -1;
+      best.value *= -1;
     }
 
-    logger.Log("ConjugateGradientOptimizer: Result = " + super.PointAsString(current.point));
-    logger.Log("ConjugateGradientOptimizer: Objective function = " + current::ToString(current.value));
+    logger.Log("ConjugateGradientOptimizer: Result = " + super.PointAsString(best.point));
+    logger.Log("ConjugateGradientOptimizer: Objective function = " + current::ToString(best.value));
 
-    OptimizationResult result(current);
+    OptimizationResult result(best);
     result.optimization_iterations = static_cast<uint32_t>(iteration);
 
     if (track_progress) {
-- 
2.43.0


From 5b5dbb393936bb2c1d5b505b0db3312450580742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:44 +0000
Subject: [PATCH 072/107] fix: do not replace the constant zero of the function
 by the negative zero

---
 fncas/fncas/node.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fncas/fncas/node.h b/fncas/fncas/node.h
index 95a6f1a..c326d7c 100644
--- a/fncas/fncas/node.h
+++ b/fncas/fncas/node.h
@@ -260,10 +260,14 @@ struct node_index_allocator {
   node_index_allocator(allocate_for_double, double_t value) {
     std::unordered_map<double_t, node_index_t>& map = internals_singleton().allocated_values_map_;
     auto const cit = map.find(value);
-    if (cit != map.end()) {
+    // The negative zero equals the positive one, but should not be put in place of it.
+    if (cit != map.end() && std::signbit(cit->first) == std::signbit(value)) {
       index_ = cit->second;
     } else {
       index_ = node_vector_singleton().size();
+      if (cit != map.end()) {
+        map.erase(cit);
+      }
       map[value] = index_;
       node_vector_singleton().resize(static_cast<size_t>(index_) + 1u);
     }
-- 
2.43.0


From 69737501017f20e9196a337fb428c552f725822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:37 +0000
Subject: [PATCH 073/107] fix: do not output the types of the arrays of nulls,
 which are not known, when inferring the schema

---
 utils/json_schema/infer.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utils/json_schema/infer.h b/utils/json_schema/infer.h
index 4ddfe29..08057c7 100644
--- a/utils/json_schema/infer.h
+++ b/utils/json_schema/infer.h
@@ -668,6 +668,10 @@ class SchemaToCurrentStructPrinter {
 
     void operator()(const Array& x) {
       x.element.Call(Printer(os, prefix + "_Element", output_type, output_comment));
+      if (output_type.empty()) {
+        // The type of the elements is not known, and thus the type of the array is not known either.
+        return;
+      }
       output_type = "std::vector<" + output_type + ">";
 
       // For both arrays and objects.
@@ -719,6 +723,9 @@ class SchemaToCurrentStructPrinter {
     std::string type;
     std::string comment;
     schema.Call(Printer(os, top_level_struct_name, type, comment));
+    if (type.empty()) {
+      CURRENT_THROW(InferSchemaArrayOfNullsOrEmptyArraysIsNotAllowed());
+    }
 
     os << '\n';
     if (!comment.empty()) {
-- 
2.43.0


From 67793de16d536320b902bf7e982ac708f9a857ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:37 +0000
Subject: [PATCH 074/107] fix: output the field once if the JSON object
 contains it more than once when inferring the schema

---
 utils/json_schema/infer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/json_schema/infer.h b/utils/json_schema/infer.h
index 08057c7..f9e8f16 100644
--- a/utils/json_schema/infer.h
+++ b/utils/json_schema/infer.h
@@ -482,7 +482,8 @@ inline Schema RecursivelyInferSchema(const rapidjson::Value& value, const PATH&
       if (!(inner.IsArray() && inner.Empty())) {
         const std::string key = std::string(cit->name.GetString(), cit->name.GetStringLength());
         const PATH next_path = path.Member(key);
-        if (next_path) {
+        // Same as when parsing JSON, the first one of the members with the same name is the one to use.
+        if (next_path && !object.field_index.count(key)) {
           if (!IsValidCPPIdentifier(key)) {
             CURRENT_THROW(InferSchemaInvalidCPPIdentifierException(key, path));
           }
-- 
2.43.0


From 81cde1096ae29bfade2ca785f9680cf362066773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:57 +0000
Subject: [PATCH 075/107] fix: give different names to the structs inferred for
 different paths in the JSON

---
 utils/json_schema/infer.h | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/utils/json_schema/infer.h b/utils/json_schema/infer.h
index f9e8f16..0beb739 100644
--- a/utils/json_schema/infer.h
+++ b/utils/json_schema/infer.h
@@ -637,12 +637,21 @@ class SchemaToCurrentStructPrinter {
  public:
   struct Printer {
     std::ostream& os;
+    std::unordered_set<std::string>& struct_names;
     const std::string prefix;
     std::string& output_type;
     std::string& output_comment;
 
-    Printer(std::ostream& os, const std::string& prefix, std::string& output_type, std::string& output_comment)
-        : os(os), prefix(prefix), output_type(output_type), output_comment(output_comment) {}
+    Printer(std::ostream& os,
+            std::unordered_set<std::string>& struct_names,
+            const std::string& prefix,
+            std::string& output_type,
+            std::string& output_comment)
+        : os(os),
+          struct_names(struct_names),
+          prefix(prefix),
+          output_type(output_type),
+          output_comment(output_comment) {}
 
     void operator()(const Uninitialized&) {
       output_type = "";
@@ -668,7 +677,7 @@ class SchemaToCurrentStructPrinter {
     void operator()(const Bool& x) { output_type = x.nulls ? "Optional<bool>" : "bool"; }
 
     void operator()(const Array& x) {
-      x.element.Call(Printer(os, prefix + "_Element", output_type, output_comment));
+      x.element.Call(Printer(os, struct_names, prefix + "_Element", output_type, output_comment));
       if (output_type.empty()) {
         // The type of the elements is not known, and thus the type of the array is not known either.
         return;
@@ -683,6 +692,10 @@ class SchemaToCurrentStructPrinter {
 
     void operator()(const Object& x) {
       output_type = prefix + "_Object";
+      // Different paths may result in the same name, `.a.b` and `.a_b` for example.
+      while (!struct_names.insert(output_type).second) {
+        output_type += '_';
+      }
       // [ { name, { type, comment } ].
       std::vector<std::pair<std::string, std::pair<std::string, std::string>>> output_fields;
       output_fields.reserve(x.field_schema.size());
@@ -693,7 +706,7 @@ class SchemaToCurrentStructPrinter {
         std::string& type = output_field.second.first;
         std::string& comment = output_field.second.second;
         field_name = input_field.first;
-        input_field.second.Call(Printer(os, prefix + '_' + field_name, type, comment));
+        input_field.second.Call(Printer(os, struct_names, prefix + '_' + field_name, type, comment));
       }
       os << '\n';
       os << "CURRENT_STRUCT(" << output_type << ") {\n";
@@ -721,9 +734,10 @@ class SchemaToCurrentStructPrinter {
   void Print(const Schema& schema, std::ostringstream& os, const std::string& top_level_struct_name) {
     os << "// Autogenerated schema inferred from input JSON data.\n";
 
+    std::unordered_set<std::string> struct_names;
     std::string type;
     std::string comment;
-    schema.Call(Printer(os, top_level_struct_name, type, comment));
+    schema.Call(Printer(os, struct_names, top_level_struct_name, type, comment));
     if (type.empty()) {
       CURRENT_THROW(InferSchemaArrayOfNullsOrEmptyArraysIsNotAllowed());
     }
-- 
2.43.0


From 3a73b3abe320394a82ffe3bb15c180fbb890a99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:57 +0000
Subject: [PATCH 076/107] fix: do not accept the C++ keywords as the names of
 the fields when inferring the schema

---
 utils/json_schema/infer.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/utils/json_schema/infer.h b/utils/json_schema/infer.h
index 0beb739..28cc891 100644
--- a/utils/json_schema/infer.h
+++ b/utils/json_schema/infer.h
@@ -120,8 +120,18 @@ inline bool IsValidCPPIdentifier(const std::string& s) {
   if (s.empty()) {
     return false;  // LCOV_EXCL_LINE
   }
-  if (s == "NULL" || s == "null" || s == "true" || s == "false") {
-    // TODO(dkorolev): Test for other reserved words, such as "case" or "int".
+  static const std::unordered_set<std::string> reserved_words = {
+      "NULL", "null",
+      // The C++17 keywords.
+      "alignas", "alignof", "and", "and_eq", "asm", "auto", "bitand", "bitor", "bool", "break", "case", "catch", "char",
+      "char16_t", "char32_t", "class", "compl", "const", "const_cast", "constexpr", "continue", "decltype", "default",
+      "delete", "do", "double", "dynamic_cast", "else", "enum", "explicit", "export", "extern", "false", "float", "for",
+      "friend", "goto", "if", "inline", "int", "long", "mutable", "namespace", "new", "noexcept", "not", "not_eq",
+      "nullptr", "operator", "or", "or_eq", "private", "protected", "public", "register", "reinterpret_cast", "return",
+      "short", "signed", "sizeof", "static", "static_assert", "static_cast", "struct", "switch", "template", "this",
+      "thread_local", "throw", "true", "try", "typedef", "typeid", "typename", "union", "unsigned", "using", "virtual",
+      "void", "volatile", "wchar_t", "while", "xor", "xor_eq"};
+  if (reserved_words.count(s)) {
     return false;  // LCOV_EXCL_LINE
   }
   if (!(s[0] == '_' || std::isalpha(s[0]))) {
-- 
2.43.0


From 9cf5711976b95ee056714655a6a208f30814ed54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:35 +0000
Subject: [PATCH 077/107] fix: do not drop what the blocks united by + emit at
 the same time from different threads

---
 ripcurrent/ripcurrent.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ripcurrent/ripcurrent.h b/ripcurrent/ripcurrent.h
index ab60867..2f18506 100644
--- a/ripcurrent/ripcurrent.h
+++ b/ripcurrent/ripcurrent.h
@@ -226,6 +226,7 @@ class SharedDefinition<LHSTypes<LHS_TYPES...>, RHSTypes<RHS_TYPES...>> {
 class GenericBlockOutgoingInterface {
  public:
   virtual ~GenericBlockOutgoingInterface() = default;
+  virtual void OnThreadUnsafeEmitted(movable_message_t&&) = 0;  // As of now.
   virtual void OnThreadUnsafeEmitted(movable_message_t&&, std::chrono::microseconds) = 0;
   virtual void OnThreadUnsafeScheduled(movable_message_t&&, std::chrono::microseconds) = 0;
   virtual void OnThreadUnsafeHeadUpdated(std::chrono::microseconds) = 0;
@@ -241,6 +242,10 @@ class BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<TYPES...>> : public Gener
 template <>
 class BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<>> : public GenericBlockOutgoingInterface {
  public:
+  void OnThreadUnsafeEmitted(movable_message_t&&) override {
+    std::cerr << "Not expecting any entries from a non-emitting block.\n";
+    CURRENT_ASSERT(false);
+  }
   void OnThreadUnsafeEmitted(movable_message_t&&, std::chrono::microseconds) override {
     std::cerr << "Not expecting any entries from a non-emitting block.\n";
     CURRENT_ASSERT(false);
@@ -492,8 +497,7 @@ class CallsGeneratingBlock<EmittableTypes<EMITTED_TYPES...>> : public GenericCal
   template <typename T, typename... ARGS>
   std::enable_if_t<TypeListContains<TypeListImpl<EMITTED_TYPES...>, T>::value> emit(ARGS&&... args) const {
     // A seemingly unnecessary `release()` is due to `std::make_unique()` not supporting a custom deleter. -- D.K
-    handler_->OnThreadUnsafeEmitted(movable_message_t(std::make_unique<T>(std::forward<ARGS>(args)...).release()),
-                                    time::Now());
+    handler_->OnThreadUnsafeEmitted(movable_message_t(std::make_unique<T>(std::forward<ARGS>(args)...).release()));
   }
 
   template <typename T, typename... ARGS>
@@ -712,6 +716,13 @@ class SharedSequenceImpl<LHSTypes<LHS_TYPES...>, RHSTypes<RHS_TYPES...>, VIAType
         waitable_counters_.Wait([](const ThreadMessageCounters& counters) { return counters.ProcessedEverything(); });
       }
 
+      void OnThreadUnsafeEmitted(movable_message_t&& x) override {
+        // The blocks united by `+` emit from different threads. Thus, the order of the timestamps of what they emit
+        // is the order in which it is published only if getting the timestamp and publishing are one operation.
+        std::lock_guard<std::mutex> lock(emit_mutex_);
+        OnThreadUnsafeEmitted(std::move(x), time::Now());
+      }
+
       void OnThreadUnsafeEmitted(movable_message_t&& x, std::chrono::microseconds t) override {
         waitable_counters_.MutableUse([](ThreadMessageCounters& p) { p.ReportPublishCalled(); });
         try {
@@ -775,6 +786,7 @@ class SharedSequenceImpl<LHSTypes<LHS_TYPES...>, RHSTypes<RHS_TYPES...>, VIAType
         std::shared_ptr<BlockIncomingInterface<ThreadSafeIncomingTypes<VIA_X, VIA_XS...>>> next_;
       };
 
+      std::mutex emit_mutex_;
       WaitableAtomic<ThreadMessageCounters> waitable_counters_;
       current::ss::EntrySubscriber<SingleThreadedProcessorImpl, movable_message_t> single_threaded_processor_;
       mmq::MMPQ<movable_message_t, current::ss::EntrySubscriber<SingleThreadedProcessorImpl, movable_message_t>> mmpq_;
@@ -896,6 +908,7 @@ class SharedParallelImpl<LHSTypes<AB_LHS...>,
     struct PassOnToNextA : BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<A_RHS...>> {
       std::shared_ptr<BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<AB_RHS...>>> next;
       PassOnToNextA(std::shared_ptr<BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<AB_RHS...>>> next) : next(next) {}
+      void OnThreadUnsafeEmitted(movable_message_t&& x) override { next->OnThreadUnsafeEmitted(std::move(x)); }
       void OnThreadUnsafeEmitted(movable_message_t&& x, std::chrono::microseconds t) override {
         next->OnThreadUnsafeEmitted(std::move(x), t);
       }
@@ -907,6 +920,7 @@ class SharedParallelImpl<LHSTypes<AB_LHS...>,
     struct PassOnToNextB : BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<B_RHS...>> {
       std::shared_ptr<BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<AB_RHS...>>> next;
       PassOnToNextB(std::shared_ptr<BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<AB_RHS...>>> next) : next(next) {}
+      void OnThreadUnsafeEmitted(movable_message_t&& x) override { next->OnThreadUnsafeEmitted(std::move(x)); }
       void OnThreadUnsafeEmitted(movable_message_t&& x, std::chrono::microseconds t) override {
         next->OnThreadUnsafeEmitted(std::move(x), t);
       }
-- 
2.43.0


From c112be84b27f1dde73e138568ad231efb7449cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:40 +0000
Subject: [PATCH 078/107] fix: Karl prints how much a server is ahead by as a
 positive number

---
 karl/karl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karl/karl.h b/karl/karl.h
index c48e313..365a881 100644
--- a/karl/karl.h
+++ b/karl/karl.h
@@ -973,7 +973,7 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
                   } else if (behind_this_by_us > 0) {
                     server.time_skew = current::strings::Printf("behind by %.1lfs", 1e-6 * behind_this_by_us);
                   } else {
-                    server.time_skew = current::strings::Printf("ahead by %.1lfs", 1e-6 * behind_this_by_us);
+                    server.time_skew = current::strings::Printf("ahead by %.1lfs", -1e-6 * behind_this_by_us);
                   }
                 }
               }
-- 
2.43.0


From 95d6932fd0046d4cc1caade8300084fcbe86b802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:17 +0000
Subject: [PATCH 079/107] fix: Karl serves the snapshot of the last keepalive
 of the service, not of the one before it

---
 karl/karl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karl/karl.h b/karl/karl.h
index 365a881..515e707 100644
--- a/karl/karl.h
+++ b/karl/karl.h
@@ -552,7 +552,7 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
             {
               std::lock_guard<std::mutex> lock(latest_keepalive_index_mutex_);
               latest_keepalive_index_plus_one_[parsed_status.codename] =
-                  keepalives_stream_->Publisher()->Publish(std::move(record)).index;
+                  keepalives_stream_->Publisher()->Publish(std::move(record)).index + 1u;
             }
           }
 
-- 
2.43.0


From 4bd96442fd57ffedf166b8d0e5f655f80dd33ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:17 +0000
Subject: [PATCH 080/107] fix: Karl pre-populates the cache of the active
 services under its lock, as its thread is already running

---
 karl/karl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/karl/karl.h b/karl/karl.h
index 515e707..c31ad09 100644
--- a/karl/karl.h
+++ b/karl/karl.h
@@ -330,6 +330,7 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
           const auto now = current::time::Now();
           // Pre-populate services marked as `Active` due to abrupt shutdown into the cache.
           // This will help to eventually mark non-active services as `DisconnectedByTimeout`.
+          std::lock_guard<std::mutex> lock(services_keepalive_cache_mutex_);
           for (const auto& claire : fields.claires) {
             if (claire.registered_state == ClaireRegisteredState::Active) {
               services_keepalive_time_cache_[claire.codename] = now;
-- 
2.43.0


From 88fdb5720742abce4eee227693ecb8f9cf031a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:06 +0000
Subject: [PATCH 081/107] fix: Karl does not persist uninitialized memory when
 an unknown service is deregistered

---
 karl/schema_claire.h | 2 +-
 karl/schema_karl.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/karl/schema_claire.h b/karl/schema_claire.h
index 9d17ea3..6265ef0 100644
--- a/karl/schema_claire.h
+++ b/karl/schema_claire.h
@@ -50,7 +50,7 @@ CURRENT_STRUCT(ClaireServiceKey) {
   CURRENT_FIELD(ip, std::string);
   CURRENT_FIELD_DESCRIPTION(ip, "The IP address of the server on which the service is running.");
 
-  CURRENT_FIELD(port, uint16_t);
+  CURRENT_FIELD(port, uint16_t, 0u);
   CURRENT_FIELD_DESCRIPTION(port, "The local port on which the service is running.");
 
   // TODO(dkorolev) + TODO(mzhurovich): Should or should not end with '/'?
diff --git a/karl/schema_karl.h b/karl/schema_karl.h
index 77c0d19..5bb4b01 100644
--- a/karl/schema_karl.h
+++ b/karl/schema_karl.h
@@ -149,7 +149,7 @@ CURRENT_STRUCT(ClaireInfo) {
   CURRENT_FIELD(location, ClaireServiceKey);
   CURRENT_FIELD_DESCRIPTION(location, "The location of the service.");
 
-  CURRENT_FIELD(reported_timestamp, std::chrono::microseconds);
+  CURRENT_FIELD(reported_timestamp, std::chrono::microseconds, std::chrono::microseconds(0));
   CURRENT_FIELD_DESCRIPTION(reported_timestamp,
                             "The time when persisted information about this service has been last updated.");
 
-- 
2.43.0


From 553380027b27f0473834fbd2ee3ef633303b06fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:53 +0000
Subject: [PATCH 082/107] fix: registering a Claire which has already been
 asked to send a keepalive does not exit the process

---
 karl/claire.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/karl/claire.h b/karl/claire.h
index 60e40a0..6f920a3 100644
--- a/karl/claire.h
+++ b/karl/claire.h
@@ -191,7 +191,13 @@ class GenericClaire final : private DummyClaireNotifiable {
         SendKeepaliveToKarl(lock, karl_keepalive_route_ + "&confirm");
       }
 
-      StartKeepaliveThread();
+      {
+        // The thread is already running if a keepalive has been forced before the registration.
+        std::lock_guard<std::mutex> thread_lock(keepalive_thread_running_status_mutex_);
+        if (!keepalive_thread_running_) {
+          StartKeepaliveThread<current::locks::MutexLockStatus::AlreadyLocked>();
+        }
+      }
       in_beacon_mode_ = true;
     }
   }
-- 
2.43.0


From 75e2372d3cb7de8a000ee46bad28392a5de4fb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:54 +0000
Subject: [PATCH 083/107] fix: Claire serves its status while its dependencies
 or its Karl are being changed

---
 karl/claire.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/karl/claire.h b/karl/claire.h
index 6f920a3..6f941c3 100644
--- a/karl/claire.h
+++ b/karl/claire.h
@@ -149,26 +149,31 @@ class GenericClaire final : private DummyClaireNotifiable {
 
   void AddDependency(const std::string& service) {
     std::unique_lock<std::mutex> lock(keepalive_mutex_);
+    std::lock_guard<std::mutex> reported_lock(reported_mutex_);
     dependencies_.insert(service);
   }
 
   void AddDependency(const ClaireServiceKey& service) {
     std::unique_lock<std::mutex> lock(keepalive_mutex_);
+    std::lock_guard<std::mutex> reported_lock(reported_mutex_);
     dependencies_.insert(service);
   }
 
   void SetDependencies(const std::vector<std::string>& services) {
     std::unique_lock<std::mutex> lock(keepalive_mutex_);
+    std::lock_guard<std::mutex> reported_lock(reported_mutex_);
     dependencies_ = ParseDependencies(services);
   }
 
   void RemoveDependency(const std::string& service) {
     std::unique_lock<std::mutex> lock(keepalive_mutex_);
+    std::lock_guard<std::mutex> reported_lock(reported_mutex_);
     dependencies_.erase(service);
   }
 
   void RemoveDependency(const ClaireServiceKey& service) {
     std::unique_lock<std::mutex> lock(keepalive_mutex_);
+    std::lock_guard<std::mutex> reported_lock(reported_mutex_);
     dependencies_.erase(service);
   }
 
@@ -243,7 +248,10 @@ class GenericClaire final : private DummyClaireNotifiable {
                       ForceSendKeepaliveWaitRequest wait_for_keepalive = ForceSendKeepaliveWaitRequest::DoNotWait) {
     {
       std::lock_guard<std::mutex> lock(keepalive_mutex_);
-      karl_ = new_karl_locator;
+      {
+        std::lock_guard<std::mutex> reported_lock(reported_mutex_);
+        karl_ = new_karl_locator;
+      }
       karl_keepalive_route_ = KarlKeepaliveRoute(karl_, codename_, port_);
       notifiable_ref_.OnKarlLocatorChanged(new_karl_locator);
     }
@@ -286,8 +294,11 @@ class GenericClaire final : private DummyClaireNotifiable {
     status.start_time_epoch_microseconds = us_start_;
 
     status.local_port = port_;
-    status.dependencies.assign(dependencies_.begin(), dependencies_.end());
-    status.reporting_to = karl_.address_port_route;
+    {
+      std::lock_guard<std::mutex> lock(reported_mutex_);
+      status.dependencies.assign(dependencies_.begin(), dependencies_.end());
+      status.reporting_to = karl_.address_port_route;
+    }
 
     status.now = now;
 
@@ -532,6 +543,7 @@ class GenericClaire final : private DummyClaireNotifiable {
   const std::string codename_;
   const int port_;
   std::set<ClaireServiceKey> dependencies_;
+  mutable std::mutex reported_mutex_;  // Guards `karl_` and `dependencies_`, as the status page is served at any time.
   std::string karl_keepalive_route_;
   IClaireNotifiable& notifiable_ref_;
 
-- 
2.43.0


From 7e05f10b6e934873a26d59eeef4bb81b7975a446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:33 +0000
Subject: [PATCH 084/107] fix: Claire records that the connection to Karl has
 failed under the lock

---
 karl/claire.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karl/claire.h b/karl/claire.h
index 6f941c3..bcd0874 100644
--- a/karl/claire.h
+++ b/karl/claire.h
@@ -406,7 +406,10 @@ class GenericClaire final : private DummyClaireNotifiable {
         }
       }
     } catch (const current::Exception& e) {
-      last_keepalive_attempt_result_.status = KeepaliveAttemptStatus::CouldNotConnect;
+      {
+        std::lock_guard<std::mutex> lock(status_mutex_);
+        last_keepalive_attempt_result_.status = KeepaliveAttemptStatus::CouldNotConnect;
+      }
       error_message = e.DetailedDescription();
     }
     // OK to throw here. In the thread that sends repeated keepalives, this exception would be caught,
-- 
2.43.0


From f07b816d6a08b8af901807ce80a53836fc9cee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:28 +0000
Subject: [PATCH 085/107] fix: parse the numbers of generic JSON exactly

---
 blocks/json/json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blocks/json/json.h b/blocks/json/json.h
index 6ad0f55..a446756 100644
--- a/blocks/json/json.h
+++ b/blocks/json/json.h
@@ -240,7 +240,7 @@ inline JSONValue ParseJSONUniversally(rapidjson::Value* value) { return ParseJSO
 
 inline JSONValue ParseJSONUniversally(const std::string& json) {
   rapidjson::Document document;
-  if (document.Parse(json).HasParseError()) {
+  if (document.Parse<rapidjson::kParseFullPrecisionFlag>(json).HasParseError()) {
     CURRENT_THROW(TypeSystemParseJSONException());
   }
   return ParseJSONUniversally(document);
-- 
2.43.0


From 4c9b6274cfab9334778d26bed808095c29a3a1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:51 +0000
Subject: [PATCH 086/107] fix: print the large numbers of generic JSON as they
 are

---
 blocks/json/json.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blocks/json/json.h b/blocks/json/json.h
index a446756..ce4aafb 100644
--- a/blocks/json/json.h
+++ b/blocks/json/json.h
@@ -83,7 +83,8 @@ CURRENT_STRUCT(JSONNumber) {
   CURRENT_CONSTRUCTOR(JSONNumber)(double number = 0) : number(number) {}
   operator double() const { return number; }
   void DoAppendToJSON(std::ostream & os) const {
-    if (number == std::floor(number)) {
+    // The whole numbers which do not fit into 64 bits are printed as floating point ones, as casting them is undefined.
+    if (number == std::floor(number) && std::fabs(number) < 9223372036854775808.0) {
       if (number < 0) {
         os << JSON(static_cast<int64_t>(number));
       } else {
-- 
2.43.0


From 67518c5aef36c9d847c5c47ff861389b0bf371e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:03 +0000
Subject: [PATCH 087/107] fix: an object of generic JSON with repeated keys
 lists each key once

---
 blocks/json/json.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/blocks/json/json.h b/blocks/json/json.h
index ce4aafb..69da96c 100644
--- a/blocks/json/json.h
+++ b/blocks/json/json.h
@@ -221,8 +221,10 @@ inline JSONValue ParseJSONUniversally(rapidjson::Value& value) {
     for (rapidjson::Value::MemberIterator cit = value.MemberBegin(); cit != value.MemberEnd(); ++cit) {
       std::string key;
       key.assign(cit->name.GetString(), cit->name.GetStringLength());
-      retval.keys.push_back(key);
-      retval.fields.emplace(std::move(key), ParseJSONUniversally(cit->value));
+      // Of the fields of the same name, the first one is kept.
+      if (retval.fields.emplace(key, ParseJSONUniversally(cit->value)).second) {
+        retval.keys.push_back(std::move(key));
+      }
     }
     return retval;
   } else if (value.IsArray()) {
-- 
2.43.0


From 53f1c7f143ad598a8d9e4cc3d2e937dd569b86d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:47 +0000
Subject: [PATCH 088/107] fix: a line which is JSON, but not an event, does not
 lose the rest of the batch of events sent to midichlorians

---
 midichlorians/server/server.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midichlorians/server/server.h b/midichlorians/server/server.h
index 6b48e46..5a05457 100644
--- a/midichlorians/server/server.h
+++ b/midichlorians/server/server.h
@@ -100,7 +100,7 @@ class midichloriansHTTPServer {
     Variant<ios_events_t> ios_event;
     try {
       ios_event = ParseJSON<Variant<ios_events_t>>(line);
-    } catch (const InvalidJSONException&) {
+    } catch (const TypeSystemParseJSONException&) {
       return false;
     }
 
-- 
2.43.0


From 3ba3e17dbaac6df6b09ab8904f87c2929c7ba548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:49 +0000
Subject: [PATCH 089/107] fix: midichlorians recognizes the headers regardless
 of the case of their names

---
 midichlorians/server/server.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/midichlorians/server/server.h b/midichlorians/server/server.h
index 5a05457..0d70ac6 100644
--- a/midichlorians/server/server.h
+++ b/midichlorians/server/server.h
@@ -112,7 +112,7 @@ class midichloriansHTTPServer {
     using namespace current::midichlorians::web;
 
     std::map<std::string, std::string> extracted_q;  // Manually extracted query parameters.
-    const std::map<std::string, std::string>& h = r.headers.AsMap();
+    const current::net::http::Headers& h = r.headers;  // The names of the headers are case-insensitive.
     const std::map<std::string, current::net::http::Cookie>& c = r.headers.cookies;
 
     bool is_allowed_method = false;
@@ -161,7 +161,7 @@ class midichloriansHTTPServer {
   }
 
   bool ExtractWebBaseEventFields(const std::map<std::string, std::string>& q,
-                                 const std::map<std::string, std::string>& h,
+                                 const current::net::http::Headers& h,
                                  const std::map<std::string, current::net::http::Cookie>& c,
                                  Variant<web_events_t>& web_event) {
     using namespace current::midichlorians::web;
@@ -173,17 +173,19 @@ class midichloriansHTTPServer {
       dest_event.user_ms = std::chrono::milliseconds(current::FromString<uint64_t>(q.at("_t")));
       dest_event.customer_id = q.at("CUSTOMER_ACCOUNT");
       dest_event.client_id = q.at("cid");
-      dest_event.ip = h.at("X-Forwarded-For");
-      dest_event.user_agent = h.at("User-Agent");
-      const auto url = URL(h.at("Referer"));
+      dest_event.ip = h.Get("X-Forwarded-For");
+      dest_event.user_agent = h.Get("User-Agent");
+      const auto url = URL(h.Get("Referer"));
       dest_event.referer_host = url.host;
       dest_event.referer_path = url.path;
       dest_event.referer_querystring = url.query.AsImmutableMap();
     } catch (const std::out_of_range&) {  // LCOV_EXCL_LINE
       // TODO(mz+dk): discuss the validity of partially filled event fields.
-      return false;                            // LCOV_EXCL_LINE
-    } catch (const url::EmptyURLException&) {  // LCOV_EXCL_LINE
-      return false;                            // LCOV_EXCL_LINE
+      return false;                                               // LCOV_EXCL_LINE
+    } catch (const current::net::http::HeaderNotFoundException&) {  // LCOV_EXCL_LINE
+      return false;                                               // LCOV_EXCL_LINE
+    } catch (const url::EmptyURLException&) {                     // LCOV_EXCL_LINE
+      return false;                                               // LCOV_EXCL_LINE
     }
     return true;
   }
-- 
2.43.0


From ea48cdc5f3b1d47498a8a4f539dc203f1a121cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:34 +0000
Subject: [PATCH 090/107] fix: report the failure to write a blob, and do not
 read beyond a file too short to be one

---
 blocks/blobs/blobs.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/blocks/blobs/blobs.h b/blocks/blobs/blobs.h
index c90ed9b..55ed76e 100644
--- a/blocks/blobs/blobs.h
+++ b/blocks/blobs/blobs.h
@@ -39,12 +39,19 @@ void WriteBlob(const std::vector<T>& data, const std::string& filename) {
   std::ofstream file(filename, std::ios::binary);
   const auto signature = current::reflection::CurrentTypeID<T>();
   file.write(reinterpret_cast<const char*>(&signature), sizeof(signature));
-  file.write(reinterpret_cast<const char*>(&data[0]), sizeof(T) * data.size());
+  file.write(reinterpret_cast<const char*>(data.data()), sizeof(T) * data.size());
+  file.flush();
+  if (!file) {
+    throw current::Exception("Failed to write the file.");
+  }
 }
 
 template <class T, class F>
 void ProcessBlob(const std::string& filename, F&& f) {
   const std::string contents = current::FileSystem::ReadFileAsString(filename);
+  if (contents.length() < sizeof(current::reflection::TypeID)) {
+    throw current::Exception("Wrong file size.");
+  }
   const auto signature = *reinterpret_cast<const current::reflection::TypeID*>(contents.c_str());
   if (signature != current::reflection::CurrentTypeID<T>()) {
     throw current::Exception("Wrong type.");
-- 
2.43.0


From a47bb5743466036721ad7e19eb2ace9b00de5451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:11 +0000
Subject: [PATCH 091/107] fix: the self-modifying config is replaced
 atomically, and stays what it was if it can not be written

---
 blocks/self_modifying_config/config.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/blocks/self_modifying_config/config.h b/blocks/self_modifying_config/config.h
index 6c7080d..67bb7e7 100644
--- a/blocks/self_modifying_config/config.h
+++ b/blocks/self_modifying_config/config.h
@@ -102,14 +102,17 @@ class SelfModifyingConfig final : public SelfModifyingConfigHelper {
     } catch (const current::FileException&) {
       CURRENT_THROW(SelfModifyingConfigWriteFileException(new_filename));
     }
-    // Then, update the config.
-    config_ = new_config;
-    // Finally, save the current config under the original config file name.
+    // Then, save the new config, atomically, under the original config file name.
+    const std::string temporary_filename = filename_ + ".new";
     try {
-      current::FileSystem::WriteStringToFile(JSON(config_), filename_.c_str());
+      current::FileSystem::WriteStringToFile(JSON(new_config), temporary_filename.c_str());
+      current::FileSystem::RenameFile(temporary_filename, filename_);
     } catch (const current::FileException&) {
+      current::FileSystem::RmFile(temporary_filename, current::FileSystem::RmFileParameters::Silent);
       CURRENT_THROW(SelfModifyingConfigWriteFileException(filename_));
     }
+    // Finally, update the config.
+    config_ = new_config;
   }
 
   // Not thread-safe.
-- 
2.43.0


From 25475e227def8c061c5a4c705d960eb28b70c7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:51 +0000
Subject: [PATCH 092/107] fix: the values of a CSV file do not move into other
 columns past an empty field

---
 utils/csv/csv.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/utils/csv/csv.h b/utils/csv/csv.h
index c84b5f7..96f3de7 100644
--- a/utils/csv/csv.h
+++ b/utils/csv/csv.h
@@ -63,7 +63,23 @@ CURRENT_STRUCT_T(CSV) {
     if (!line.empty() && line.back() == '\r') {
       line.resize(line.size() - 1u);  // NOTE(dkorolev): This may look like a hack, but I'd rather stay safe.
     }
-    csv.header = current::strings::Split(line, ',');
+    // The empty fields are skipped, but what follows them should not move into the columns which are not its own.
+    std::vector<size_t> header_columns;
+    std::vector<size_t> row_columns;
+    const auto SplitIntoColumns = [](const std::string& line, std::vector<size_t>& columns) {
+      std::vector<std::string> result;
+      columns.clear();
+      size_t column = 0u;
+      for (auto& field : current::strings::Split(line, ',', current::strings::EmptyFields::Keep)) {
+        if (!field.empty()) {
+          columns.push_back(column);
+          result.push_back(std::move(field));
+        }
+        ++column;
+      }
+      return result;
+    };
+    csv.header = SplitIntoColumns(line, header_columns);
     if (csv.header.empty()) {
       CURRENT_THROW(CSVFileFormatException("The CSV file `" + filename + "` does not even contain the header."));
     }
@@ -72,10 +88,10 @@ CURRENT_STRUCT_T(CSV) {
         line.resize(line.size() - 1u);  // NOTE(dkorolev): This may look like a hack, but I'd rather stay safe.
       }
       std::vector<T> row;
-      for (const auto& field : current::strings::Split(line, ',')) {
+      for (const auto& field : SplitIntoColumns(line, row_columns)) {
         row.push_back(current::FromString<T>(field));
       }
-      if (row.size() != csv.header.size()) {
+      if (row_columns != header_columns) {
         CURRENT_THROW(CSVFileFormatException("Column number mismatch in CSV file `" + filename + "`."));
       }
       csv.data.emplace_back(std::move(row));
-- 
2.43.0


From 1a2697ba0c5b2c604b8779ead1e4493759af3ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:29 +0000
Subject: [PATCH 093/107] fix: tsv2json keeps the values of a column with
 missing ones in their rows

---
 utils/json_schema/tsv2json.cc | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/utils/json_schema/tsv2json.cc b/utils/json_schema/tsv2json.cc
index 1015bb6..8d63905 100644
--- a/utils/json_schema/tsv2json.cc
+++ b/utils/json_schema/tsv2json.cc
@@ -128,13 +128,11 @@ int main(int argc, char** argv) {
   for (size_t j = 0; j < total_columns; ++j) {
     try {
       for (size_t i = 0; i < output.size(); ++i) {
-        const auto& value = output[i][j];
-        if (!na_values.count(value)) {
-          if (output[i].size() > j) {
-            transposed_output_int64[j].push_back(ParseJSON<int64_t>(value));
-          } else {
-            transposed_output_int64[j].push_back(0);
-          }
+        // Keep one element per row, even if this row is too short or has no value in this column.
+        if (output[i].size() > j && !na_values.count(output[i][j])) {
+          transposed_output_int64[j].push_back(ParseJSON<int64_t>(output[i][j]));
+        } else {
+          transposed_output_int64[j].push_back(0);
         }
       }
       column_type[j] = ColumnType::Int64;
@@ -147,13 +145,11 @@ int main(int argc, char** argv) {
     if (column_type[j] == ColumnType::String) {
       try {
         for (size_t i = 0; i < output.size(); ++i) {
-          const auto& value = output[i][j];
-          if (!na_values.count(value)) {
-            if (output[i].size() > j) {
-              transposed_output_double[j].push_back(ParseJSON<double>(value));
-            } else {
-              transposed_output_double[j].push_back(0);
-            }
+          // Keep one element per row, even if this row is too short or has no value in this column.
+          if (output[i].size() > j && !na_values.count(output[i][j])) {
+            transposed_output_double[j].push_back(ParseJSON<double>(output[i][j]));
+          } else {
+            transposed_output_double[j].push_back(0);
           }
         }
         column_type[j] = ColumnType::Double;
-- 
2.43.0


From b76fde3e38ed1c03fe04e75f5c1528e06418c6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:42 +0000
Subject: [PATCH 094/107] fix: maps and filters of the same NLP block keep
 functions of their own

---
 nlp/nlp.h | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/nlp/nlp.h b/nlp/nlp.h
index 364d0a1..9eff357 100644
--- a/nlp/nlp.h
+++ b/nlp/nlp.h
@@ -453,15 +453,16 @@ using R2LSeqImpl = typename SeqImplSelector<R2L,
                                             typename LHS_IMPL::emitted_t,
                                             typename RHS_IMPL::emitted_t>::type;
 
-template <typename ANNOTATED_QUERY_TERM, class IMPL, typename OUTPUT_TYPE>
+// NOTE: The type of the map or filter function, unique per lambda, is part of the type of the block, as the instances
+//       of the blocks are static, one per type, and the blocks with different functions should not share an instance.
+template <typename ANNOTATED_QUERY_TERM, class IMPL, typename OUTPUT_TYPE, typename F>
 struct MapImpl {
   using annotated_query_term_t = ANNOTATED_QUERY_TERM;
   using input_t = typename IMPL::emitted_t;
   using emitted_t = OUTPUT_TYPE;
-  using map_function_t = std::function<void(const input_t& input, emitted_t& output)>;
   const IMPL& impl_;
-  map_function_t map_function_;
-  MapImpl(const IMPL& impl, map_function_t map_function) : impl_(impl), map_function_(map_function) {}
+  F map_function_;
+  MapImpl(const IMPL& impl, F map_function) : impl_(impl), map_function_(std::move(map_function)) {}
 
   void EvalImpl(const ::current::nlp::AnnotatedQuery<annotated_query_term_t>& query,
                 size_t begin,
@@ -475,14 +476,13 @@ struct MapImpl {
   }
 };
 
-template <typename ANNOTATED_QUERY_TERM, class IMPL>
+template <typename ANNOTATED_QUERY_TERM, class IMPL, typename F>
 struct FilterImpl {
   using annotated_query_term_t = ANNOTATED_QUERY_TERM;
   using emitted_t = typename IMPL::emitted_t;
-  using filter_function_t = std::function<bool(const emitted_t& input)>;
   const IMPL& impl_;
-  filter_function_t filter_function_;
-  FilterImpl(const IMPL& impl, filter_function_t map_function) : impl_(impl), filter_function_(map_function) {}
+  F filter_function_;
+  FilterImpl(const IMPL& impl, F filter_function) : impl_(impl), filter_function_(std::move(filter_function)) {}
 
   void EvalImpl(const ::current::nlp::AnnotatedQuery<annotated_query_term_t>& query,
                 size_t begin,
@@ -561,19 +561,20 @@ struct SchemaBlock {
         std::string("Void(") + name_ + ')', static_unit_impl);
   }
 
-  template <class OUTPUT_TYPE>
-  SchemaBlock<annotated_query_term_t, impl::MapImpl<annotated_query_term_t, IMPL, OUTPUT_TYPE>> MapHelper(
-      typename impl::MapImpl<annotated_query_term_t, IMPL, OUTPUT_TYPE>::map_function_t map_function) const {
-    static impl::MapImpl<annotated_query_term_t, IMPL, OUTPUT_TYPE> static_map_impl(impl_, map_function);
-    return SchemaBlock<annotated_query_term_t, impl::MapImpl<annotated_query_term_t, IMPL, OUTPUT_TYPE>>(
+  template <class OUTPUT_TYPE, typename F>
+  SchemaBlock<annotated_query_term_t, impl::MapImpl<annotated_query_term_t, IMPL, OUTPUT_TYPE, F>> MapHelper(
+      F map_function) const {
+    static impl::MapImpl<annotated_query_term_t, IMPL, OUTPUT_TYPE, F> static_map_impl(impl_, map_function);
+    return SchemaBlock<annotated_query_term_t, impl::MapImpl<annotated_query_term_t, IMPL, OUTPUT_TYPE, F>>(
         std::string("Map(") + name_ + ", " + current::reflection::CurrentTypeName<OUTPUT_TYPE>() + ')',
         static_map_impl);
   }
 
-  SchemaBlock<annotated_query_term_t, impl::FilterImpl<annotated_query_term_t, IMPL>> FilterHelper(
-      typename impl::FilterImpl<annotated_query_term_t, IMPL>::filter_function_t filter_function) const {
-    static impl::FilterImpl<annotated_query_term_t, IMPL> static_filter_impl(impl_, filter_function);
-    return SchemaBlock<annotated_query_term_t, impl::FilterImpl<annotated_query_term_t, IMPL>>(
+  template <typename F>
+  SchemaBlock<annotated_query_term_t, impl::FilterImpl<annotated_query_term_t, IMPL, F>> FilterHelper(
+      F filter_function) const {
+    static impl::FilterImpl<annotated_query_term_t, IMPL, F> static_filter_impl(impl_, filter_function);
+    return SchemaBlock<annotated_query_term_t, impl::FilterImpl<annotated_query_term_t, IMPL, F>>(
         std::string("Filter(") + name_ + ')', static_filter_impl);
   }
 };
-- 
2.43.0


From 85f0fc041518e395171e986c2b1f8c1e5392758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:33 +0000
Subject: [PATCH 095/107] fix: iterators over maps of plain values have a
 working operator->

---
 bricks/template/is_unique_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bricks/template/is_unique_ptr.h b/bricks/template/is_unique_ptr.h
index 1635717..7783644 100644
--- a/bricks/template/is_unique_ptr.h
+++ b/bricks/template/is_unique_ptr.h
@@ -42,7 +42,7 @@ struct is_unique_ptr_impl {
   static T& extract(T* x) { return *x; }
   static const T& extract(const T* x) { return *x; }
   static T* pointer(T& x) { return &x; }
-  static const T* pointer(const T& x) { return x; }
+  static const T* pointer(const T& x) { return &x; }
   static T* pointer(T* x) { return x; }
   static const T* pointer(const T* x) { return x; }
 };
-- 
2.43.0


From c04af61e38276fa05ce969b96a63c27d1c6a0811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:52 +0000
Subject: [PATCH 096/107] fix: Go() of a future of nothing does not lose the
 exception

---
 bricks/util/future.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bricks/util/future.h b/bricks/util/future.h
index 0132f1b..f0e80db 100644
--- a/bricks/util/future.h
+++ b/bricks/util/future.h
@@ -89,7 +89,7 @@ struct FutureImpl<void, STRICTNESS> {
 
   void Go() {
     used_ = true;
-    f_.wait();
+    f_.get();
   }
   void Wait() {
     used_ = true;
-- 
2.43.0


From 6004f173e26e4ef949c9c069efd316091b7d29bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:10 +0000
Subject: [PATCH 097/107] fix: a scope guard which was moved from does not run

---
 bricks/util/make_scope_guard.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bricks/util/make_scope_guard.h b/bricks/util/make_scope_guard.h
index 8dad5f9..8ae0b7f 100644
--- a/bricks/util/make_scope_guard.h
+++ b/bricks/util/make_scope_guard.h
@@ -38,13 +38,18 @@ std::unique_ptr<POINTER, DELETER> MakePointerScopeGuard(POINTER* x, DELETER t =
 template <typename F>
 class ScopeGuard final {
   F f_;
+  bool active_ = true;
   ScopeGuard(const ScopeGuard&) = delete;
   void operator=(const ScopeGuard&) = delete;
 
  public:
   explicit ScopeGuard(F f) : f_(f) {}
-  ScopeGuard(ScopeGuard&& other) : f_(std::forward<F>(other.f_)) {}
-  ~ScopeGuard() { f_(); }
+  ScopeGuard(ScopeGuard&& other) : f_(std::forward<F>(other.f_)), active_(other.active_) { other.active_ = false; }
+  ~ScopeGuard() {
+    if (active_) {
+      f_();
+    }
+  }
 };
 
 template <typename F>
-- 
2.43.0


From 4d6c77742e8e83d87a78f32944551f56f15eaa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:46 +0000
Subject: [PATCH 098/107] fix: fatal errors of OneSignal pushes reach the
 caller

---
 integrations/onesignal/ios_notifications_sender.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/integrations/onesignal/ios_notifications_sender.h b/integrations/onesignal/ios_notifications_sender.h
index 97856d3..f95e0f1 100644
--- a/integrations/onesignal/ios_notifications_sender.h
+++ b/integrations/onesignal/ios_notifications_sender.h
@@ -167,6 +167,9 @@ server {
           // The notification has been sent to exactly one user: OK.
           return true;
         }
+      } catch (const OneSignalPushNotificationException&) {
+        // Fatal, for the caller to see.
+        throw;
       } catch (const Exception& e) {
         // HTTP exception, not fatal.
         return false;
-- 
2.43.0


From 400331b245a1bff2e1701d649299a767b2170a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:39 +0000
Subject: [PATCH 099/107] fix: the profiler does not count the first scope of a
 thread for longer than the thread

---
 profiler/profiler.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/profiler/profiler.h b/profiler/profiler.h
index 7a1fc26..1ea4967 100644
--- a/profiler/profiler.h
+++ b/profiler/profiler.h
@@ -234,8 +234,10 @@ struct Profiler {
     void Guarded(F&& f) {
       const std::chrono::microseconds pre_mutex_lock = current::time::Now();
       std::lock_guard<std::mutex> lock(mutex_);
+      // The thread has to be known before the scope is entered, for its time to be no less than that of the scope.
+      State::PerThread& per_thread = state_.per_thread[std::this_thread::get_id()];
       const std::chrono::microseconds post_mutex_lock = current::time::Now();
-      f(post_mutex_lock, state_.per_thread[std::this_thread::get_id()]);
+      f(post_mutex_lock, per_thread);
       const std::chrono::microseconds post_guarded_code = current::time::Now();
       state_.total_spent_in_profiling += (post_guarded_code - pre_mutex_lock);
       state_.spent_in_mutex_locking += (post_mutex_lock - pre_mutex_lock);
-- 
2.43.0


From e022e07144b2f8ec4a307d9b17164eb45eb49530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:10 +0000
Subject: [PATCH 100/107] fix: a reset of the profiler does not leave the
 scopes not entered since counted as entered once

---
 profiler/profiler.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/profiler/profiler.h b/profiler/profiler.h
index 1ea4967..617763f 100644
--- a/profiler/profiler.h
+++ b/profiler/profiler.h
@@ -104,8 +104,14 @@ struct Profiler {
               us_entered = now;
             }
             entries = 1;
-            for (auto& e : children) {
-              e.second.RecursiveReset(now);
+            // The scopes which are not being executed have not been entered since, so they are not there any longer.
+            for (auto it = children.begin(); it != children.end();) {
+              if (it->second.us_entered.count()) {
+                it->second.RecursiveReset(now);
+                ++it;
+              } else {
+                it = children.erase(it);
+              }
             }
           }
         };
-- 
2.43.0


From 108a29a832b96bea699158dbf0e97b8f5ee0e712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:58 +0000
Subject: [PATCH 101/107] fix: a failed write to the log is reported, leaves
 the log as it was, and a log which can not be written to is not opened

---
 blocks/persistence/file.h | 48 +++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index fe1347b..3c5da02 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -32,6 +32,7 @@ SOFTWARE.
 #define BLOCKS_PERSISTENCE_FILE_H
 
 #include <atomic>
+#include <filesystem>
 #include <fstream>
 #include <functional>
 
@@ -178,11 +179,30 @@ class FilePersister {
           publish_mutex_ref_(publish_mutex_ref),
           head_offset_(0) {
       ValidateFileAndInitializeHead(namespace_name);
-      if (file_appender_.bad() || head_rewriter_.bad()) {
+      if (!file_appender_ || !head_rewriter_) {
         CURRENT_THROW(PersistenceFileNotWritable(filename));
       }
     }
 
+    // Appends the line to the file, or, if it can not be written, leaves the file as it was and throws.
+    // Returns the offset in the file at which the line begins.
+    std::streampos AppendLine(const std::string& line) {
+      const std::streampos offset = file_appender_.tellp();
+      file_appender_ << line << std::endl;
+      if (!file_appender_) {
+        if (offset != std::streampos(-1)) {
+          // Part of the line may be in the file, and the rest of it may still be in the buffer.
+          file_appender_.close();
+          file_appender_.clear();
+          std::error_code error;
+          std::filesystem::resize_file(filename_, static_cast<uintmax_t>(offset), error);
+          file_appender_.open(filename_, std::ofstream::app | std::ofstream::ate);
+        }
+        CURRENT_THROW(PersistenceFileNotWritable(filename_));
+      }
+      return offset;
+    }
+
     // Replay the file but ignore its contents. Used to initialize `end_` at startup.
     void ValidateFileAndInitializeHead(const ss::StreamNamespaceName& namespace_name) {
       std::ifstream fi(filename_);
@@ -474,15 +494,14 @@ class FilePersister {
     const auto idxts = idxts_t(iterator.next_index, iterator.last_entry_us);
     CURRENT_ASSERT(file_persister_impl_->record_offset_.size() == iterator.next_index);
     CURRENT_ASSERT(file_persister_impl_->record_timestamp_.size() == iterator.next_index);
-    file_persister_impl_->record_offset_.push_back(file_persister_impl_->file_appender_.tellp());
-    file_persister_impl_->record_timestamp_.push_back(timestamp);
 
     // Explicit `MakeSureTheRightTypeIsSerialized` is essential, otherwise the `Variant`'s case
     // would be serialized in an unwrapped way when passed directly.
-    file_persister_impl_->file_appender_ << JSON(idxts) << '\t'
-                                         << JSON(MakeSureTheRightTypeIsSerialized<ENTRY, decay_t<E>>::DoIt(
-                                                std::forward<E>(entry)))
-                                         << std::endl;
+    // An entry which can not be serialized, or can not be written, should leave the log as it was.
+    const std::string line = JSON(idxts) + '\t' +
+                             JSON(MakeSureTheRightTypeIsSerialized<ENTRY, decay_t<E>>::DoIt(std::forward<E>(entry)));
+    file_persister_impl_->record_offset_.push_back(file_persister_impl_->AppendLine(line));
+    file_persister_impl_->record_timestamp_.push_back(timestamp);
     ++iterator.next_index;
     file_persister_impl_->head_offset_ = 0;
     file_persister_impl_->end_.store(iterator);
@@ -510,10 +529,8 @@ class FilePersister {
     iterator.last_entry_us = iterator.head = idxts.us;
     CURRENT_ASSERT(file_persister_impl_->record_offset_.size() == idxts.index);
     CURRENT_ASSERT(file_persister_impl_->record_timestamp_.size() == idxts.index);
-    file_persister_impl_->record_offset_.push_back(file_persister_impl_->file_appender_.tellp());
+    file_persister_impl_->record_offset_.push_back(file_persister_impl_->AppendLine(raw_log_line));
     file_persister_impl_->record_timestamp_.push_back(idxts.us);
-
-    file_persister_impl_->file_appender_ << raw_log_line << std::endl;
     ++iterator.next_index;
     file_persister_impl_->head_offset_ = 0;
     file_persister_impl_->end_.store(iterator);
@@ -536,11 +553,14 @@ class FilePersister {
       auto& rewriter = file_persister_impl_->head_rewriter_;
       rewriter.seekp(file_persister_impl_->head_offset_, std::ios_base::beg);
       rewriter << head_str << std::endl;
+      if (!rewriter) {
+        rewriter.clear();
+        CURRENT_THROW(PersistenceFileNotWritable(file_persister_impl_->filename_));
+      }
     } else {
-      auto& file_appender_ = file_persister_impl_->file_appender_;
-      file_appender_ << constants::kHeadDirective << ' ';
-      file_persister_impl_->head_offset_ = file_appender_.tellp();
-      file_appender_ << head_str << std::endl;
+      const std::string directive = std::string(constants::kHeadDirective) + ' ';
+      const std::streampos offset = file_persister_impl_->AppendLine(directive + head_str);
+      file_persister_impl_->head_offset_ = offset + static_cast<std::streamoff>(directive.length());
     }
     file_persister_impl_->end_.store(iterator);
   }
-- 
2.43.0


From ff499ea539f843d7aa7f121b8835eb8a7cb7b8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:34 +0000
Subject: [PATCH 102/107] fix: a borrower of guaranteed lifetime which was
 moved still reports that its owner does not outlive it

---
 bricks/sync/owned_borrowed.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bricks/sync/owned_borrowed.h b/bricks/sync/owned_borrowed.h
index 5cab67c..3c9c661 100644
--- a/bricks/sync/owned_borrowed.h
+++ b/bricks/sync/owned_borrowed.h
@@ -458,7 +458,9 @@ class BorrowedOfGuaranteedLifetime final : public WeakBorrowed<T> {
   void operator=(std::nullptr_t) { base_t::InternalUnRegister(); }
 
   BorrowedOfGuaranteedLifetime(BorrowedOfGuaranteedLifetime&& rhs)
-      : base_t(impl::ConstructBorrowedObjectViaMoveConstructor(), std::move(rhs), []() {}) {}
+      : base_t(impl::ConstructBorrowedObjectViaMoveConstructor(),
+               std::move(rhs),
+               BorrowedOfGuaranteedLifetimeInvariantErrorCallback) {}
 
   BorrowedOfGuaranteedLifetime& operator=(BorrowedOfGuaranteedLifetime&& rhs) {
     if (this != &rhs) {
-- 
2.43.0


From 083da34198cc433cc8ca906c54c05ad9131993f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:34 +0000
Subject: [PATCH 103/107] fix: the number of entries of a remote stream can be
 asked for

---
 stream/replicator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream/replicator.h b/stream/replicator.h
index 21a7537..a298f2d 100644
--- a/stream/replicator.h
+++ b/stream/replicator.h
@@ -431,7 +431,7 @@ class SubscribableRemoteStream final {
   }
 
   uint64_t GetNumberOfEntries() const {
-    return stream_.ObjectAccessorDespitePossiblyDestructing().GetNumberOfEntries();
+    return stream_->GetNumberOfEntries();
   }
 
  private:
-- 
2.43.0


From f98241965cd3594fe8125b58d6ab449a98ed9ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:34 +0000
Subject: [PATCH 104/107] fix: the number of malformed chunks of a remote
 subscriber begins from zero

---
 stream/replicator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream/replicator.h b/stream/replicator.h
index a298f2d..5cc73db 100644
--- a/stream/replicator.h
+++ b/stream/replicator.h
@@ -357,8 +357,8 @@ class SubscribableRemoteStream final {
     const SubscriptionMode subscription_mode_;
     current::WaitableAtomic<std::string> subscription_id_;
     std::atomic_bool terminate_subscription_requested_;
+    uint32_t consecutive_malformed_chunks_count_ = 0u;
     std::thread thread_;
-    uint32_t consecutive_malformed_chunks_count_;
   };
 
   template <typename F, typename TYPE_SUBSCRIBED_TO, ReplicationMode RM>
-- 
2.43.0


From a9b0d4feac21e1cd8662f3de97909748aa2a9f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:01 +0000
Subject: [PATCH 105/107] fix: graphviz: an edge to a node which is not in the
 graph leads to no other node

---
 bricks/dot/graphviz.h | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/bricks/dot/graphviz.h b/bricks/dot/graphviz.h
index 2b64e59..6d94275 100644
--- a/bricks/dot/graphviz.h
+++ b/bricks/dot/graphviz.h
@@ -57,7 +57,6 @@ static inline std::string Escape(const std::string& s) {
 
 struct Node {
   struct Impl {
-    size_t order_key;
     std::string label;
     std::map<std::string, Optional<std::string>> params;
     bool html = false;
@@ -181,21 +180,11 @@ struct GenericGraph {
     return Add(std::forward<T>(x));
   };
 
-  struct OrderNodesByOrderKey {
-    bool operator()(const Node::Impl* lhs, const Node::Impl* rhs) const { return lhs->order_key < rhs->order_key; }
-  };
-
   std::string AsDOT() const {
-    std::map<const Node::Impl*, size_t, OrderNodesByOrderKey> node_index;
-
-    size_t order_key = 0u;
+    // The nodes are numbered in the order in which they have been added to this graph.
+    std::map<const Node::Impl*, size_t> node_index;
     for (const auto& node : nodes) {
-      node->order_key = ++order_key;
-      node_index[node.get()];
-    }
-    size_t nodes_count = 0u;
-    for (auto& idx : node_index) {
-      idx.second = ++nodes_count;
+      node_index.emplace(node.get(), node_index.size() + 1u);
     }
 
     std::ostringstream os;
-- 
2.43.0


From ac458fd6c8e660bccf676c16070da28b23fffd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:40 +0000
Subject: [PATCH 106/107] fix: The X64 native JIT calls the right external
 function for the indexes 15 to 30

---
 fncas/x64_native_jit/x64_native_jit.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fncas/x64_native_jit/x64_native_jit.h b/fncas/x64_native_jit/x64_native_jit.h
index fe1fd99..88c2acc 100644
--- a/fncas/x64_native_jit/x64_native_jit.h
+++ b/fncas/x64_native_jit/x64_native_jit.h
@@ -336,9 +336,19 @@ void store_xmm0_to_memory_by_rbx_offset(C& c, O offset) {
 template <typename C>
 void call_function_from_rdx_pointers_array_by_index(C& c, uint8_t index) {
   X64_JIT_ASSERT(index < 31);  // Should fit one byte after adding one and multiplying by 8. -- D.K.
+  uint8_t const offset = (index + 1) * 0x08;
   c.push_back(0xff);
-  c.push_back(0x52);
-  c.push_back((index + 1) * 0x08);
+  if (offset < 0x80) {
+    c.push_back(0x52);
+    c.push_back(offset);
+  } else {
+    // The one-byte offset is signed, so the four-byte one is required for the offset to stay positive.
+    c.push_back(0x92);
+    c.push_back(offset);
+    for (size_t i = 0; i < 3; ++i) {
+      c.push_back(0x00);
+    }
+  }
 }
 
 }  // namespace opcodes
-- 
2.43.0


From 6fc4bc8ab118f598e9986d75b574c1e08887a681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:13 +0000
Subject: [PATCH 107/107] fix: The JavaScript event loop for C++ ends: its
 thread is woken up, joined, and releases what it captured where this is
 allowed

---
 .../nodejs/javascript_async_eventloop.hpp     | 40 ++++++++++++-------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/integrations/nodejs/javascript_async_eventloop.hpp b/integrations/nodejs/javascript_async_eventloop.hpp
index 5636652..94ebe78 100644
--- a/integrations/nodejs/javascript_async_eventloop.hpp
+++ b/integrations/nodejs/javascript_async_eventloop.hpp
@@ -29,14 +29,24 @@ class JSAsyncEventLoopImpl final {
   bool last_call_result_ = true;
   bool terminated_ = false;
 
+  // NOTE: The function is kept here, not by the thread, so that what it has captured, which can well be JavaScript
+  //       functions and promises, is released along with this instance, from where the JavaScript event loop runs.
+  std::function<void()> thread_function_;
   std::thread thread_;
 
  public:
-  ~JSAsyncEventLoopImpl() { thread_.join(); }
+  ~JSAsyncEventLoopImpl() {
+    if (thread_.joinable()) {
+      thread_.join();
+    }
+  }
 
   bool InternalSyncRun(std::function<bool()> next_function) {
     {
       std::unique_lock<std::mutex> lock(mutex_);
+      if (terminated_) {
+        return false;
+      }
       // NOTE(dkorolev): This would eventually need to be a queue.
       if (next_function_) {
         Napi::Error::Fatal("CurrentJSBinding", "There's a `next_function_` in call to `InternalSyncRun()`.");
@@ -55,16 +65,11 @@ class JSAsyncEventLoopImpl final {
   }
 
   void InternalSpawnThread(std::function<void()> f) {
-    thread_ = std::thread([this, f]() {
-      f();
-      if (!terminated_) {
-        // NOTE(dkorolev): This is safe, as in the "worst" case concurrent scenario, the function that currently is
-        // running would return `false`, and thus this "second" function that returns `false` would just be left
-        // "unexecuted", as the instance destroys itself. The termination job would be done correctly regardless.
-        InternalSyncRun([]() { return false; });
-        std::unique_lock<std::mutex> lock(mutex_);
-        cv_.wait(lock, [this]() { return terminated_; });
-      }
+    thread_function_ = std::move(f);
+    thread_ = std::thread([this]() {
+      thread_function_();
+      // NOTE: This is a no-op if some function has returned `false` already.
+      InternalSyncRun([]() { return false; });
     });
   }
 
@@ -91,9 +96,13 @@ class JSAsyncEventLoopImpl final {
         self->terminated_ = true;
       }
     }
-    if (self->last_call_result_) {
-      self->cv_.notify_one();
+    const bool proceed = self->last_call_result_;
+    self->cv_.notify_one();
+    if (proceed) {
       JSAsync([self]() { self->InternalWait(); }, [self]() { InternalWork(self); });
+    } else {
+      // The thread is about to be done, wait for it outside the JavaScript event loop, but release `self` from within it.
+      JSAsync([self]() { self->thread_.join(); }, [self]() {});
     }
   }
 };
@@ -121,8 +130,9 @@ using JSAsyncEventLoopRunner = const JSAsyncEventLoopRunnerImpl&;
 inline void JSAsyncEventLoop(std::function<void(JSAsyncEventLoopRunner)> f) {
   auto worker = std::make_shared<JSAsyncEventLoopImpl>();
   JSAsync([worker]() { worker->InternalWait(); }, [worker]() { JSAsyncEventLoopImpl::InternalWork(worker); });
-  worker->InternalSpawnThread([worker, f]() {
-    JSAsyncEventLoopRunnerImpl impl(worker.get());
+  JSAsyncEventLoopImpl* const p = worker.get();
+  worker->InternalSpawnThread([p, f]() {
+    JSAsyncEventLoopRunnerImpl impl(p);
     f(impl);
   });
 }
-- 
2.43.0

