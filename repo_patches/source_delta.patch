From dae01702774e25f4f059ce5e7f6c82e06aedc7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:07 +0000
Subject: [PATCH 01/66] fix: txn commit of a key committed at another ts was
 reported as rolled back

---
 src/engine/txn_engine_helper.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index c8de756..8199a8e 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -3402,6 +3402,7 @@ butil::Status TxnEngineHelper::Commit(RawEnginePtr raw_engine, std::shared_ptr<E
 
       // check if the key is already rollbacked, if it is rollbacked, return WriteConflict
       // if there is a rollback, there will be a key | start_ts : WriteInfo| in write_cf
+      write_info.Clear();
       {
         PhaseTimer t(rollback_et, txn_reader, start_ts, key, "check rollback", "Commit");
         auto ret1 = txn_reader.GetRollbackInfo(start_ts, key, write_info);
-- 
2.43.0


From 8601bf98275d6e345b82cd7a71f25ae9b3ca54c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:07 +0000
Subject: [PATCH 02/66] fix: txn scan lock returned the last lock of a page
 again on the next page

---
 src/engine/txn_engine_helper.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 8199a8e..69c0247 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -1200,6 +1200,7 @@ butil::Status TxnEngineHelper::ScanLockInfo(StreamPtr stream, RawEnginePtr engin
 
     bytes += lock_info.ByteSizeLong();
     lock_infos.push_back(std::move(lock_info));
+    iter->Next();
 
     if (stop_checker(lock_infos.size(), bytes)) {
       has_more = true;
@@ -1211,8 +1212,6 @@ butil::Status TxnEngineHelper::ScanLockInfo(StreamPtr stream, RawEnginePtr engin
           FLAGS_stream_message_max_bytes);
       break;
     }
-
-    iter->Next();
   }
 
   return butil::Status::OK();
-- 
2.43.0


From 24fefdc500f0c8e8510a87abda38a3f0a8d193fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:07 +0000
Subject: [PATCH 03/66] fix: repeated pessimistic lock returned values older
 than for_update_ts

---
 src/engine/txn_engine_helper.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 69c0247..71b2367 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -1768,7 +1768,7 @@ butil::Status TxnEngineHelper::PessimisticLock(RawEnginePtr raw_engine, std::sha
 
           if (return_values) {
             pb::store::WriteInfo write_info;
-            auto ret2 = txn_reader.GetOldValue(mutation.key(), start_ts, false, write_info, kvs);
+            auto ret2 = txn_reader.GetOldValue(mutation.key(), for_update_ts, false, write_info, kvs);
             if (!ret2.ok()) {
               // Now we need to fatal exit to prevent data inconsistency between raft peers
               DINGO_LOG(ERROR) << fmt::format("[txn][region({})] PessimisticLock, start_ts: {}", ctx->RegionId(),
@@ -1802,7 +1802,7 @@ butil::Status TxnEngineHelper::PessimisticLock(RawEnginePtr raw_engine, std::sha
 
           if (return_values) {
             pb::store::WriteInfo write_info;
-            auto ret3 = txn_reader.GetOldValue(mutation.key(), start_ts, false, write_info, kvs);
+            auto ret3 = txn_reader.GetOldValue(mutation.key(), for_update_ts, false, write_info, kvs);
             if (!ret3.ok()) {
               // Now we need to fatal exit to prevent data inconsistency between raft peers
               DINGO_LOG(ERROR) << fmt::format("[txn][region({})] PessimisticLock, start_ts: {}", ctx->RegionId(),
-- 
2.43.0


From 4899dc63f9664616c6dd02356be496b201c1c958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:40 +0000
Subject: [PATCH 04/66] fix: rollback record overwrote the commit record of
 another txn committed at the same ts

---
 src/engine/txn_engine_helper.cc | 82 ++++++++++++++++++++++++---------
 1 file changed, 60 insertions(+), 22 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 71b2367..ac63687 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -4072,8 +4072,34 @@ butil::Status TxnEngineHelper::BatchRollback(RawEnginePtr raw_engine, std::share
 
 bvar::LatencyRecorder g_txn_do_rollback_latency("dingo_txn_do_rollback");
 
+// The commit_ts of an async commit/1PC txn may be the start_ts of another txn. A rollback record of the latter has the
+// same key as the commit record of the former, and must not overwrite it.
+static butil::Status IsCommittedByOtherTxn(RawEnginePtr raw_engine, const std::string &key, int64_t start_ts,
+                                           bool &is_committed) {
+  is_committed = false;
+
+  std::string write_value;
+  auto status =
+      raw_engine->Reader()->KvGet(Constant::kTxnWriteCF, mvcc::Codec::EncodeKey(key, start_ts), write_value);
+  if (status.error_code() == pb::error::Errno::EKEY_NOT_FOUND) {
+    return butil::Status::OK();
+  }
+  if (!status.ok()) {
+    return status;
+  }
+
+  pb::store::WriteInfo write_info;
+  if (!write_info.ParseFromArray(write_value.data(), write_value.size())) {
+    return butil::Status(pb::error::Errno::EINTERNAL, "parse write info failed");
+  }
+
+  is_committed = (write_info.start_ts() != start_ts);
+
+  return butil::Status::OK();
+}
+
 // DoRollback
-butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shared_ptr<Engine> raft_engine,
+butil::Status TxnEngineHelper::DoRollback(RawEnginePtr raw_engine, std::shared_ptr<Engine> raft_engine,
                                           std::shared_ptr<Context> ctx,
                                           std::vector<std::string> &keys_to_rollback_with_data,
                                           std::vector<std::string> &keys_to_rollback_without_data,
@@ -4095,11 +4121,13 @@ butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shar
   std::vector<std::string> kv_deletes_lock;
   std::vector<std::string> kv_deletes_data;
 
-  for (const auto &key : keys_to_rollback_without_data) {
-    // delete lock
-    kv_deletes_lock.emplace_back(mvcc::Codec::EncodeKey(key, Constant::kLockVer));
+  auto append_rollback_write = [&](const std::string &key) -> butil::Status {
+    bool is_committed = false;
+    auto status = IsCommittedByOtherTxn(raw_engine, key, start_ts, is_committed);
+    if (!status.ok() || is_committed) {
+      return status;
+    }
 
-    // add write
     pb::store::WriteInfo write_info;
     write_info.set_start_ts(start_ts);
     write_info.set_op(::dingodb::pb::store::Op::Rollback);
@@ -4108,6 +4136,18 @@ butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shar
     kv.set_key(mvcc::Codec::EncodeKey(key, start_ts));
     kv.set_value(write_info.SerializeAsString());
     kv_puts_write.emplace_back(kv);
+    return butil::Status::OK();
+  };
+
+  for (const auto &key : keys_to_rollback_without_data) {
+    // delete lock
+    kv_deletes_lock.emplace_back(mvcc::Codec::EncodeKey(key, Constant::kLockVer));
+
+    // add write
+    auto status = append_rollback_write(key);
+    if (!status.ok()) {
+      return status;
+    }
   }
 
   for (const auto &key : keys_to_rollback_with_data) {
@@ -4118,26 +4158,18 @@ butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shar
     kv_deletes_data.emplace_back(mvcc::Codec::EncodeKey(key, start_ts));
 
     // add write
-    pb::store::WriteInfo write_info;
-    write_info.set_start_ts(start_ts);
-    write_info.set_op(::dingodb::pb::store::Op::Rollback);
-
-    pb::common::KeyValue kv;
-    kv.set_key(mvcc::Codec::EncodeKey(key, start_ts));
-    kv.set_value(write_info.SerializeAsString());
-    kv_puts_write.emplace_back(kv);
+    auto status = append_rollback_write(key);
+    if (!status.ok()) {
+      return status;
+    }
   }
 
   for (const auto &key : keys_miss_lock_to_rollback) {
     // add write
-    pb::store::WriteInfo write_info;
-    write_info.set_start_ts(start_ts);
-    write_info.set_op(::dingodb::pb::store::Op::Rollback);
-
-    pb::common::KeyValue kv;
-    kv.set_key(mvcc::Codec::EncodeKey(key, start_ts));
-    kv.set_value(write_info.SerializeAsString());
-    kv_puts_write.emplace_back(kv);
+    auto status = append_rollback_write(key);
+    if (!status.ok()) {
+      return status;
+    }
   }
 
   if (kv_puts_write.empty() && kv_deletes_lock.empty() && kv_deletes_data.empty()) {
@@ -4186,7 +4218,7 @@ butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shar
 }
 
 // MarkRollBackOnMissingLock
-butil::Status TxnEngineHelper::MarkRollBackOnMissingLock(RawEnginePtr /*raw_engine*/,
+butil::Status TxnEngineHelper::MarkRollBackOnMissingLock(RawEnginePtr raw_engine,
                                                          std::shared_ptr<Engine> raft_engine,
                                                          std::shared_ptr<Context> ctx, std::string primary_key,
                                                          int64_t start_ts) {
@@ -4195,6 +4227,12 @@ butil::Status TxnEngineHelper::MarkRollBackOnMissingLock(RawEnginePtr /*raw_engi
   DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_txn_detail) << "[txn]MarkRollBackOnMissingLock start_ts: " << start_ts
                                                         << ", primary_key: " << Helper::StringToHex(primary_key);
 
+  bool is_committed = false;
+  auto status = IsCommittedByOtherTxn(raw_engine, primary_key, start_ts, is_committed);
+  if (!status.ok() || is_committed) {
+    return status;
+  }
+
   // add write
   pb::store::WriteInfo write_info;
   write_info.set_start_ts(start_ts);
-- 
2.43.0


From d1ff29181a6a5df07d5cc494d3ffcaea9542a0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:54 +0000
Subject: [PATCH 05/66] fix: txn gc could delete a tombstone in an earlier
 batch than the versions it hides

---
 src/engine/txn_engine_helper.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index ac63687..bd98f3c 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -4934,6 +4934,9 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
   std::string write_key;
   std::string last_write_key;
 
+  // the newest tombstone of the current key, it must not be deleted before the older versions it hides.
+  std::string pending_tombstone;
+
   while (write_iter->Valid()) {
     total_iter_count++;
     std::string_view write_iter_key = write_iter->Key();
@@ -4967,6 +4970,10 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
       is_exist_put_or_delete_key_if_write_ts_gt_safe_point_ts = false;
       last_write_key = write_key;
       is_first_put_key_if_write_ts_le_safe_point_ts = true;
+      if (!pending_tombstone.empty()) {
+        kv_deletes_write.emplace_back(std::move(pending_tombstone));
+        pending_tombstone.clear();
+      }
     }
 
     // update lock_start_key
@@ -5040,6 +5047,8 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
         if (!is_exist_put_or_delete_key_if_write_ts_gt_safe_point_ts) {
           if (is_first_put_key_if_write_ts_le_safe_point_ts) {
             is_first_put_key_if_write_ts_le_safe_point_ts = false;
+            pending_tombstone = write_iter_key;
+            break;
           }
         }
         kv_deletes_write.emplace_back(write_iter_key);
@@ -5098,6 +5107,10 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
     write_iter->Next();
   }
 
+  if (!pending_tombstone.empty()) {
+    kv_deletes_write.emplace_back(std::move(pending_tombstone));
+  }
+
 _interrupt1:
 
   auto [internal_gc_stop, internal_safe_point_ts] = gc_safe_point->GetGcFlagAndSafePointTs();
-- 
2.43.0


From 20d0bf7093a0ae70dd758246de85da3fa8fef8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:54 +0000
Subject: [PATCH 06/66] fix: mvcc gc could delete a tombstone in an earlier
 batch than the versions it hides

---
 src/engine/txn_engine_helper.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index bd98f3c..4e4f1eb 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -5223,6 +5223,11 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
   std::string default_key;
   std::string last_default_key;
 
+  // the newest version of the current key, when it hides older versions it must not be deleted before them.
+  std::string pending_key;
+  int64_t pending_vector_id = 0;
+  int64_t pending_ts = 0;
+
   char prefix = '\0';
   int64_t region_part_id = 0;
   if (type == pb::common::RegionType::INDEX_REGION) {
@@ -5292,6 +5297,10 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
     }
 
     if (last_default_key != default_key) {
+      if (!pending_key.empty()) {
+        lambda_emplace_back_function(type, pending_key, pending_vector_id, pending_ts);
+        pending_key.clear();
+      }
       last_default_key = default_key;
       is_exist_default_key_if_ts_gt_safe_point_ts = false;
       is_first_put_key_if_ts_le_safe_point_ts = true;
@@ -5334,6 +5343,10 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
               default_iter->Next();
               continue;
             }
+            pending_key = default_iter_key;
+            pending_vector_id = vector_id;
+            pending_ts = default_ts;
+            break;
           }
         }
         lambda_emplace_back_function(type, default_iter_key, vector_id, default_ts);
@@ -5345,6 +5358,10 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
           if (is_first_put_key_if_ts_le_safe_point_ts) {
             is_first_put_key_if_ts_le_safe_point_ts = false;
             is_exist_default_key_if_ts_gt_safe_point_ts = true;
+            pending_key = default_iter_key;
+            pending_vector_id = vector_id;
+            pending_ts = default_ts;
+            break;
           }
         }
         lambda_emplace_back_function(type, default_iter_key, vector_id, default_ts);
@@ -5403,6 +5420,10 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
     default_iter->Next();
   }
 
+  if (!pending_key.empty()) {
+    lambda_emplace_back_function(type, pending_key, pending_vector_id, pending_ts);
+  }
+
 _interrupt1:
 
   auto [internal_gc_stop, internal_safe_point_ts] = gc_safe_point->GetGcFlagAndSafePointTs();
-- 
2.43.0


From 62ba81c6cbb8e6304d2f3d11baecc7ce150f6577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:55 +0000
Subject: [PATCH 07/66] fix: txn scan read long values outside of its snapshot

---
 src/engine/txn_engine_helper.cc | 14 +++++++++-----
 src/engine/txn_engine_helper.h  |  3 ++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 4e4f1eb..e4361d1 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -823,7 +823,8 @@ butil::Status TxnIterator::GetUserValueInWriteIter(std::shared_ptr<Iterator> wri
                                                    pb::store::IsolationLevel isolation_level, int64_t seek_ts,
                                                    int64_t start_ts, const std::string &user_key,
                                                    std::string &last_write_key, bool &is_value_found,
-                                                   std::string &user_value, int64_t &skipped_count) {
+                                                   std::string &user_value, int64_t &skipped_count,
+                                                   SnapshotPtr snapshot) {
   is_value_found = false;
   int64_t version_count = 0;
   while (write_iter->Valid()) {
@@ -913,8 +914,9 @@ butil::Status TxnIterator::GetUserValueInWriteIter(std::shared_ptr<Iterator> wri
             Helper::StringToHex(user_key), start_ts, version_count);
         return butil::Status::OK();
       } else {
-        auto ret3 =
-            reader->KvGet(Constant::kTxnDataCF, mvcc::Codec::EncodeKey(user_key, write_info.start_ts()), user_value);
+        // the write record comes from the snapshot of the iterator, so must the value.
+        auto ret3 = reader->KvGet(Constant::kTxnDataCF, snapshot,
+                                  mvcc::Codec::EncodeKey(user_key, write_info.start_ts()), user_value);
         if (!ret3.ok() && ret3.error_code() != pb::error::Errno::EKEY_NOT_FOUND) {
           DINGO_LOG(FATAL) << "[txn]Scan read data failed, key: " << Helper::StringToHex(user_key)
                            << ", status: " << ret3.error_str();
@@ -993,7 +995,8 @@ butil::Status TxnIterator::GetCurrentValue() {
     if (last_lock_key_ == last_write_key_) {
       bool is_value_found = false;
       butil::Status status = GetUserValueInWriteIter(write_iter_, reader_, isolation_level_, seek_ts_, start_ts_, key_,
-                                                     last_write_key_, is_value_found, value_, total_skipped_versions_);
+                                                     last_write_key_, is_value_found, value_, total_skipped_versions_,
+                                                     snapshot_);
       if (!status.ok()) {
         key_.clear();
         value_.clear();
@@ -1020,7 +1023,8 @@ butil::Status TxnIterator::GetCurrentValue() {
 
     bool is_value_found = false;
     butil::Status status = GetUserValueInWriteIter(write_iter_, reader_, isolation_level_, seek_ts_, start_ts_, key_,
-                                                   last_write_key_, is_value_found, value_, total_skipped_versions_);
+                                                   last_write_key_, is_value_found, value_, total_skipped_versions_,
+                                                   snapshot_);
     if (!status.ok()) {
       key_.clear();
       value_.clear();
diff --git a/src/engine/txn_engine_helper.h b/src/engine/txn_engine_helper.h
index 8b9744a..4a77628 100644
--- a/src/engine/txn_engine_helper.h
+++ b/src/engine/txn_engine_helper.h
@@ -109,7 +109,8 @@ class TxnIterator {
                                                pb::store::IsolationLevel isolation_level, int64_t seek_ts,
                                                int64_t start_ts, const std::string &user_key,
                                                std::string &last_write_key, bool &is_value_found,
-                                               std::string &user_value, int64_t &skipped_count);
+                                               std::string &user_value, int64_t &skipped_count,
+                                               SnapshotPtr snapshot);
   static std::string GetUserKey(std::shared_ptr<Iterator> write_iter);
   static butil::Status GotoNextUserKeyInWriteIter(std::shared_ptr<Iterator> write_iter, std::string prev_user_key,
                                                   std::string &last_write_key, int64_t &skipped_count);
-- 
2.43.0


From 157265b8c143caa47b0e4ea7cb1d328d366c046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:16 +0000
Subject: [PATCH 08/66] fix: lease kept all but one of its keys after they were
 deleted by a range delete

---
 src/coordinator/kv_control_kv.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 0530faa..d0f7cb2 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -531,9 +531,7 @@ butil::Status KvControl::KvDeleteRange(const std::string &key, const std::string
     }
 
     // prepare for lease remove
-    std::set<std::string> keys;
-    keys.insert(kv_to_delete.kv().key());
-    keys_to_remove_lease.insert_or_assign(kv_to_delete.lease(), keys);
+    keys_to_remove_lease[kv_to_delete.lease()].insert(kv_to_delete.kv().key());
 
     if (need_lease_remove_keys) {
       DINGO_LOG(INFO) << "KvDelete will remove lease for key: " << kv_to_delete.kv().key() << "("
-- 
2.43.0


From 7b6b2eb5316df51d7937bf536964c66f99456feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:16 +0000
Subject: [PATCH 09/66] fix: version kv put with ignore_value wiped the value

---
 src/coordinator/kv_control_kv.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index d0f7cb2..5f24ac1 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -471,8 +471,8 @@ butil::Status KvControl::KvPut(const pb::common::KeyValue &key_value_in, int64_t
   kv_index_meta_increment->set_event_type(pb::coordinator_internal::KvIndexEventType::KV_INDEX_EVENT_TYPE_PUT);
   kv_index_meta_increment->set_ignore_lease(ignore_lease);
   kv_index_meta_increment->set_lease_id(lease_grant_id);
+  kv_index_meta_increment->set_ignore_value(ignore_value);
   if (!ignore_value) {
-    kv_index_meta_increment->set_ignore_value(ignore_value);
     kv_index_meta_increment->set_value(key_value_in.value());
   }
   if (!ignore_lease) {
-- 
2.43.0


From f6e594a5482f53edbd8dfb31145b5e4445e5dc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:16 +0000
Subject: [PATCH 10/66] fix: version kv range with count_only always counted 0

---
 src/coordinator/kv_control_kv.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 5f24ac1..e8f2be8 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -200,6 +200,7 @@ butil::Status KvControl::KvRange(const std::string &key, const std::string &rang
                    << ", count_only: " << count_only;
 
   has_more = false;
+  return_count = 0;
   if (limit == 0) {
     limit = INT64_MAX;
   }
@@ -245,6 +246,7 @@ butil::Status KvControl::KvRange(const std::string &key, const std::string &rang
     }
 
     if (count_only) {
+      return_count++;
       continue;
     }
 
@@ -286,7 +288,9 @@ butil::Status KvControl::KvRange(const std::string &key, const std::string &rang
     kv.push_back(kv_temp);
   }
 
-  return_count = kv.size();
+  if (!count_only) {
+    return_count = kv.size();
+  }
 
   DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
       << "KvRange finish, key: " << key << "(" << Helper::StringToHex(key) << "), range_end: " << range_end << "("
-- 
2.43.0


From cb7b669601b27ed46ee9def14ac1b2c64d433630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:16 +0000
Subject: [PATCH 11/66] fix: prev_kv of a watch event carried the version of
 the new kv

---
 src/coordinator/kv_control_kv.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index e8f2be8..60563eb 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -631,7 +631,7 @@ butil::Status KvControl::KvPutApply(const std::string &key,
         // only in this situation, the prev_kv is meaningful
         prev_kv.set_create_revision(latest_generation->create_revision().main());
         prev_kv.set_mod_revision(kv_index.mod_revision().main());
-        prev_kv.set_version(latest_generation->verison());
+        prev_kv.set_version(latest_generation->verison() - 1);
       } else {
         latest_generation->mutable_create_revision()->set_main(op_revision.main());
         latest_generation->mutable_create_revision()->set_sub(op_revision.sub());
@@ -798,7 +798,7 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
         // only in this situation, the prev_kv is meaningful
         prev_kv.set_create_revision(latest_generation->create_revision().main());
         prev_kv.set_mod_revision(kv_index.mod_revision().main());
-        prev_kv.set_version(latest_generation->verison());
+        prev_kv.set_version(latest_generation->verison() - 1);
       } else {
         // a null generation means delete
         // so we do not need to add a new generation
-- 
2.43.0


From ce7257e5e79c43eb89b1fc96550b93f3651ffae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:16 +0000
Subject: [PATCH 12/66] fix: auto compaction of version kv skipped every 51st
 key

---
 src/coordinator/kv_control_kv.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 60563eb..3ac05c4 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -920,9 +920,8 @@ void KvControl::CompactionTask() {
   // do compaction for each key
   std::vector<std::string> keys_to_compact;
   for (const auto &key : keys) {
-    if (keys_to_compact.size() < 50) {
-      keys_to_compact.push_back(key);
-    } else {
+    keys_to_compact.push_back(key);
+    if (keys_to_compact.size() >= 50) {
       auto ret = KvCompact(keys_to_compact, compact_revision);
       if (!ret.ok()) {
         DINGO_LOG(ERROR) << "KvCompact failed, error: " << ret.error_str() << ", keys size: " << keys_to_compact.size();
-- 
2.43.0


From 3c090aeb1ad87542f39af8cb702c0befd41da897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:16 +0000
Subject: [PATCH 13/66] fix: event could miss a watch registered while it was
 applied

---
 src/coordinator/kv_control_kv.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 3ac05c4..e467fdd 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -719,9 +719,8 @@ butil::Status KvControl::KvPutApply(const std::string &key,
       << "), kv_index: " << kv_index.ShortDebugString();
 
   // trigger watch
-  if (!one_time_watch_map_.empty()) {
-    DINGO_LOG(INFO) << "KvPutApply one_time_watch_map_ is not empty, will trigger watch, key: " << key << "("
-                    << Helper::StringToHex(key) << "), watch size: " << one_time_watch_map_.size();
+  {
+    DINGO_LOG(INFO) << "KvPutApply will trigger watch, key: " << key << "(" << Helper::StringToHex(key) << ")";
 
     if (prev_kv.create_revision() > 0) {
       prev_kv.set_lease(kv_rev_last.kv().lease());
@@ -861,9 +860,8 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
       << "), revision: " << op_revision.ShortDebugString();
 
   // trigger watch
-  if (!one_time_watch_map_.empty()) {
-    DINGO_LOG(INFO) << "KvDeleteApply one_time_watch_map_ is not empty, will trigger watch, key: " << key << "("
-                    << Helper::StringToHex(key) << "), watch size: " << one_time_watch_map_.size();
+  {
+    DINGO_LOG(INFO) << "KvDeleteApply will trigger watch, key: " << key << "(" << Helper::StringToHex(key) << ")";
 
     if (prev_kv.create_revision() > 0) {
       prev_kv.set_lease(kv_rev_last.kv().lease());
-- 
2.43.0


From e8ccbcc5eb24a2e75e03512c61762a258001135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:16 +0000
Subject: [PATCH 14/66] fix: a replica that installed a snapshot without ids
 numbered revisions differently from the others

---
 src/coordinator/kv_control_fsm.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coordinator/kv_control_fsm.cc b/src/coordinator/kv_control_fsm.cc
index 1cfce1b..05023a8 100644
--- a/src/coordinator/kv_control_fsm.cc
+++ b/src/coordinator/kv_control_fsm.cc
@@ -189,6 +189,9 @@ bool KvControl::LoadMetaFromSnapshotFile(pb::coordinator_internal::MetaSnapshotF
       return false;
     }
 
+    // set id_epoch_map_ present id
+    InitIds();
+
     // remove data in rocksdb
     if (!meta_writer_->DeletePrefix(id_epoch_meta_->internal_prefix)) {
       DINGO_LOG(ERROR) << "Coordinator delete id_epoch_meta_ range failed in LoadMetaFromSnapshotFile";
-- 
2.43.0


From 86a5449221d67273b784385201076f2c829be1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:16 +0000
Subject: [PATCH 15/66] fix: version kv entry applied again after a crash was
 recorded twice

---
 src/coordinator/kv_control_kv.cc | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index e467fdd..a54e555 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -607,6 +607,13 @@ butil::Status KvControl::KvPutApply(const std::string &key,
 
     last_mod_revision = kv_index.mod_revision();
 
+    // a crash after these writes but before the applied index is persisted makes raft apply the same entry again
+    if (last_mod_revision.main() == op_revision.main() && last_mod_revision.sub() == op_revision.sub()) {
+      DINGO_LOG(WARNING) << "KvPutApply is already applied, key: " << key << "(" << Helper::StringToHex(key)
+                         << "), op_revision: " << op_revision.ShortDebugString();
+      return butil::Status::OK();
+    }
+
     if (kv_index.generations_size() == 0) {
       auto *generation = kv_index.add_generations();
       generation->mutable_create_revision()->set_main(op_revision.main());
@@ -774,6 +781,13 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
 
     last_mod_revision = kv_index.mod_revision();
 
+    // a crash after these writes but before the applied index is persisted makes raft apply the same entry again
+    if (last_mod_revision.main() == op_revision.main() && last_mod_revision.sub() == op_revision.sub()) {
+      DINGO_LOG(WARNING) << "KvDeleteApply is already applied, key: " << key << "(" << Helper::StringToHex(key)
+                         << "), op_revision: " << op_revision.ShortDebugString();
+      return butil::Status::OK();
+    }
+
     if (kv_index.generations_size() == 0) {
       // create a null generator means delete
       auto *generation = kv_index.add_generations();
@@ -841,12 +855,6 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
 
   // do real write to state machine
   // CAUTION: When deleting kv, we must do PutRawKvRev before put RawKvIndex
-  ret = PutRawKvIndex(key, kv_index);
-  if (!ret.ok()) {
-    DINGO_LOG(ERROR) << "KvDeleteApply PutRawKvIndex failed, key: " << key << "(" << Helper::StringToHex(key)
-                     << "), kv_index: " << kv_index.ShortDebugString() << ", error: " << ret.error_str();
-  }
-
   ret = PutRawKvRev(op_revision, kv_rev);
   if (!ret.ok()) {
     DINGO_LOG(ERROR) << "KvDeleteApply PutRawKvRev failed, revision: " << op_revision.ShortDebugString()
@@ -855,6 +863,12 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
     return ret;
   }
 
+  ret = PutRawKvIndex(key, kv_index);
+  if (!ret.ok()) {
+    DINGO_LOG(ERROR) << "KvDeleteApply PutRawKvIndex failed, key: " << key << "(" << Helper::StringToHex(key)
+                     << "), kv_index: " << kv_index.ShortDebugString() << ", error: " << ret.error_str();
+  }
+
   DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
       << "KvDeleteApply success, key: " << key << "(" << Helper::StringToHex(key)
       << "), revision: " << op_revision.ShortDebugString();
-- 
2.43.0


From b06425071177e9428c84fe9de036debaae616ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:16 +0000
Subject: [PATCH 16/66] fix: watch refused for its filters was registered all
 the same

---
 src/server/version_service.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/version_service.cc b/src/server/version_service.cc
index c3d8380..29ef7ef 100644
--- a/src/server/version_service.cc
+++ b/src/server/version_service.cc
@@ -700,6 +700,7 @@ void DoWatch(google::protobuf::RpcController* controller, const pb::version::Wat
     DINGO_LOG(ERROR) << "Watch failed: no put event and no delete event";
     response->mutable_error()->set_errcode(pb::error::Errno::EILLEGAL_PARAMTETERS);
     response->mutable_error()->set_errmsg("no put event and no delete event");
+    return;
   }
 
   kv_control->OneTimeWatch(one_time_req.key(), one_time_req.start_revision(), no_put_event, no_delete_event,
-- 
2.43.0


From 195d2e97281a2b0c68c76380cf808218971af125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:53 +0000
Subject: [PATCH 17/66] fix: lease revoke on a new leader reported a live lease
 as expired

---
 src/coordinator/kv_control_lease.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/coordinator/kv_control_lease.cc b/src/coordinator/kv_control_lease.cc
index 5492594..857f91d 100644
--- a/src/coordinator/kv_control_lease.cc
+++ b/src/coordinator/kv_control_lease.cc
@@ -162,6 +162,14 @@ butil::Status KvControl::LeaseRenew(int64_t lease_id, int64_t &ttl_seconds,
 
 butil::Status KvControl::LeaseRevoke(int64_t lease_id, pb::coordinator_internal::MetaIncrement &meta_increment,
                                      bool has_mutex_locked) {
+  if (!IsLeaseToKeyMapInited()) {
+    DINGO_LOG(WARNING) << "lease_to_key_map_ not initialized, please wait and try again, term: "
+                       << lease_to_key_map_init_term_.load(butil::memory_order_acquire)
+                       << ", leader_term: " << leader_term_.load(butil::memory_order_acquire);
+    return butil::Status(pb::error::Errno::ERAFT_NOTLEADER,
+                         "lease_to_key_map_ not initialized, please wait and try again");
+  }
+
   pb::coordinator_internal::LeaseInternal lease;
   if (!has_mutex_locked) {
     bthread_mutex_lock(&lease_to_key_map_mutex_);
-- 
2.43.0


From 49329eae6bb6399054ebe50470f133147f63d3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:53 +0000
Subject: [PATCH 18/66] fix: version kv could persist an older id over a newer
 one and hand it out again after a restart

---
 src/coordinator/kv_control_fsm.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/kv_control_fsm.cc b/src/coordinator/kv_control_fsm.cc
index 05023a8..4055523 100644
--- a/src/coordinator/kv_control_fsm.cc
+++ b/src/coordinator/kv_control_fsm.cc
@@ -549,7 +549,10 @@ void KvControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrement& meta
         DINGO_LOG(INFO) << "ApplyMetaIncrement idepoch CREATE, success [id="
                         << pb::coordinator::IdEpochType_Name(idepoch.id()) << "]"
                         << " value=" << idepoch.idepoch().value();
-        meta_write_to_kv.push_back(id_epoch_meta_->TransformToKvValue(idepoch.idepoch()));
+        // a larger id may have been allocated already, never go back behind it
+        pb::coordinator_internal::IdEpochInternal present = idepoch.idepoch();
+        present.set_value(std::max(present.value(), id_epoch_map_.GetPresentId(idepoch.id())));
+        meta_write_to_kv.push_back(id_epoch_meta_->TransformToKvValue(present));
       } else {
         DINGO_LOG(WARNING) << "ApplyMetaIncrement idepoch CREATE, but UpdatePresentId failed, [id="
                            << pb::coordinator::IdEpochType_Name(idepoch.id()) << "]"
@@ -561,7 +564,10 @@ void KvControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrement& meta
         DINGO_LOG(INFO) << "ApplyMetaIncrement idepoch UPDATE, success [id="
                         << pb::coordinator::IdEpochType_Name(idepoch.id()) << "]"
                         << " value=" << idepoch.idepoch().value();
-        meta_write_to_kv.push_back(id_epoch_meta_->TransformToKvValue(idepoch.idepoch()));
+        // a larger id may have been allocated already, never go back behind it
+        pb::coordinator_internal::IdEpochInternal present = idepoch.idepoch();
+        present.set_value(std::max(present.value(), id_epoch_map_.GetPresentId(idepoch.id())));
+        meta_write_to_kv.push_back(id_epoch_meta_->TransformToKvValue(present));
       } else {
         DINGO_LOG(INFO) << "ApplyMetaIncrement idepoch UPDATE, but UpdatePresentId skip, [id="
                         << pb::coordinator::IdEpochType_Name(idepoch.id()) << "]"
-- 
2.43.0


From ad9a74f06587c859a660187ec56d9434c24693f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 19/66] fix: crash in a version kv compaction leaked the
 revisions not deleted yet

---
 src/coordinator/kv_control_kv.cc | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index a54e555..777fbb8 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -1090,6 +1090,19 @@ butil::Status KvControl::KvCompactApply(const std::string &key,
     }
   }
 
+  // delete revisions in kv_rev
+  // CAUTION: this MUST be before the kv_index is changed, after a crash in between the kv_index still tells what to delete
+  for (const auto &kv_revision : revisions_to_delete) {
+    pb::coordinator_internal::KvRevInternal kv_rev;
+    kv_rev.set_id(RevisionToString(kv_revision));
+
+    DINGO_LOG(INFO) << "KvCompactApply delete kv_rev, kv_revision: " << kv_revision.ShortDebugString()
+                    << ", key: " << key << "(" << Helper::StringToHex(key)
+                    << "), kv_rev: " << kv_rev.ShortDebugString();
+
+    DeleteRawKvRev(kv_revision);
+  }
+
   // if new_kv_index has no generations, delete it
   // else put new_kv_index
   if (new_kv_index.generations_size() == 0) {
@@ -1104,18 +1117,6 @@ butil::Status KvControl::KvCompactApply(const std::string &key,
     PutRawKvIndex(key, new_kv_index);
   }
 
-  // delete revisions in kv_rev
-  for (const auto &kv_revision : revisions_to_delete) {
-    pb::coordinator_internal::KvRevInternal kv_rev;
-    kv_rev.set_id(RevisionToString(kv_revision));
-
-    DINGO_LOG(INFO) << "KvCompactApply delete kv_rev, kv_revision: " << kv_revision.ShortDebugString()
-                    << ", key: " << key << "(" << Helper::StringToHex(key)
-                    << "), kv_rev: " << kv_rev.ShortDebugString();
-
-    DeleteRawKvRev(kv_revision);
-  }
-
   return butil::Status::OK();
 }
 
-- 
2.43.0


From 39b7b534dd6c595a5691124febf18057c483b9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 20/66] fix: crash while version kv loaded a snapshot lost its
 data

---
 src/coordinator/kv_control_fsm.cc | 63 ++++++++++++++++---------------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/src/coordinator/kv_control_fsm.cc b/src/coordinator/kv_control_fsm.cc
index 4055523..6589efe 100644
--- a/src/coordinator/kv_control_fsm.cc
+++ b/src/coordinator/kv_control_fsm.cc
@@ -178,37 +178,6 @@ bool KvControl::LoadMetaFromSnapshotFile(pb::coordinator_internal::MetaSnapshotF
 
   std::vector<pb::common::KeyValue> kvs;
 
-  // 0.id_epoch map
-  kvs.reserve(meta_snapshot_file.id_epoch_map_kvs_size());
-  for (int i = 0; i < meta_snapshot_file.id_epoch_map_kvs_size(); i++) {
-    kvs.push_back(meta_snapshot_file.id_epoch_map_kvs(i));
-  }
-  {
-    // BAIDU_SCOPED_LOCK(id_epoch_map_mutex_);
-    if (!id_epoch_meta_->Recover(kvs)) {
-      return false;
-    }
-
-    // set id_epoch_map_ present id
-    InitIds();
-
-    // remove data in rocksdb
-    if (!meta_writer_->DeletePrefix(id_epoch_meta_->internal_prefix)) {
-      DINGO_LOG(ERROR) << "Coordinator delete id_epoch_meta_ range failed in LoadMetaFromSnapshotFile";
-      return false;
-    }
-    DINGO_LOG(INFO) << "Coordinator delete range id_epoch_meta_ success in LoadMetaFromSnapshotFile";
-
-    // write data to rocksdb
-    if (!meta_writer_->Put(kvs)) {
-      DINGO_LOG(ERROR) << "Coordinator write id_epoch_meta_ failed in LoadMetaFromSnapshotFile";
-      return false;
-    }
-    DINGO_LOG(INFO) << "Coordinator put id_epoch_meta_ success in LoadMetaFromSnapshotFile";
-  }
-  DINGO_LOG(INFO) << "LoadSnapshot id_epoch_meta, count=" << kvs.size();
-  kvs.clear();
-
   // 14.lease_map_
   kvs.reserve(meta_snapshot_file.lease_map_kvs_size());
   for (int i = 0; i < meta_snapshot_file.lease_map_kvs_size(); i++) {
@@ -291,6 +260,38 @@ bool KvControl::LoadMetaFromSnapshotFile(pb::coordinator_internal::MetaSnapshotF
   DINGO_LOG(INFO) << "LoadSnapshot version_kv_rev_meta, count=" << kvs.size();
   kvs.clear();
 
+  // 0.id_epoch map
+  // CAUTION: this MUST be the last, it has the applied index, after a crash the snapshot is skipped if this is there
+  kvs.reserve(meta_snapshot_file.id_epoch_map_kvs_size());
+  for (int i = 0; i < meta_snapshot_file.id_epoch_map_kvs_size(); i++) {
+    kvs.push_back(meta_snapshot_file.id_epoch_map_kvs(i));
+  }
+  {
+    // BAIDU_SCOPED_LOCK(id_epoch_map_mutex_);
+    if (!id_epoch_meta_->Recover(kvs)) {
+      return false;
+    }
+
+    // set id_epoch_map_ present id
+    InitIds();
+
+    // remove data in rocksdb
+    if (!meta_writer_->DeletePrefix(id_epoch_meta_->internal_prefix)) {
+      DINGO_LOG(ERROR) << "Coordinator delete id_epoch_meta_ range failed in LoadMetaFromSnapshotFile";
+      return false;
+    }
+    DINGO_LOG(INFO) << "Coordinator delete range id_epoch_meta_ success in LoadMetaFromSnapshotFile";
+
+    // write data to rocksdb
+    if (!meta_writer_->Put(kvs)) {
+      DINGO_LOG(ERROR) << "Coordinator write id_epoch_meta_ failed in LoadMetaFromSnapshotFile";
+      return false;
+    }
+    DINGO_LOG(INFO) << "Coordinator put id_epoch_meta_ success in LoadMetaFromSnapshotFile";
+  }
+  DINGO_LOG(INFO) << "LoadSnapshot id_epoch_meta, count=" << kvs.size();
+  kvs.clear();
+
   // build id_epoch, schema_name, table_name, index_name maps
   BuildTempMaps();
 
-- 
2.43.0


From 9d2987ebecdd119223453e09e47a489e6fdfd506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:06 +0000
Subject: [PATCH 21/66] fix: lease renewed while it was revoked came back and
 never expired

---
 src/coordinator/kv_control_fsm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinator/kv_control_fsm.cc b/src/coordinator/kv_control_fsm.cc
index 6589efe..70e0daa 100644
--- a/src/coordinator/kv_control_fsm.cc
+++ b/src/coordinator/kv_control_fsm.cc
@@ -375,7 +375,7 @@ void KvControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrement& meta
         }
 
       } else if (version_lease.op_type() == pb::coordinator_internal::MetaIncrementOpType::UPDATE) {
-        auto ret = kv_lease_meta_->Put(version_lease.id(), version_lease.lease());
+        auto ret = kv_lease_meta_->PutIfExists(version_lease.id(), version_lease.lease());
         if (!ret.ok()) {
           DINGO_LOG(FATAL) << "ApplyMetaIncrement version_lease UPDATE, [id=" << version_lease.id()
                            << "] failed, set errcode=" << ret.error_code() << ", error_str=" << ret.error_str();
-- 
2.43.0


From a2065fdd328cb2f64fe1fe1c4a9ade9f6c356128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:13 +0000
Subject: [PATCH 22/66] fix: deleting an already deleted version kv leaked a
 revision and sent another event

---
 src/coordinator/kv_control_kv.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 777fbb8..65d06d3 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -818,6 +818,7 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
         DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
             << "KvDeleteApply kv_index exist null generation[1], nothing to do: "
             << latest_generation->ShortDebugString() << ", key: " << key << "(" << Helper::StringToHex(key) << ")";
+        return butil::Status::OK();
       }
 
       // setup new_create_revision to last create_revision
-- 
2.43.0


From 73d1c44659ecdb3a595b3f00f49cd49956643692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:53 +0000
Subject: [PATCH 23/66] fix: tso update and reset requests aborted the
 coordinator, and a timestamp sync which was not committed counted as
 successful

---
 src/coordinator/tso_control.cc | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/coordinator/tso_control.cc b/src/coordinator/tso_control.cc
index 729645f..133edc7 100644
--- a/src/coordinator/tso_control.cc
+++ b/src/coordinator/tso_control.cc
@@ -108,23 +108,14 @@ int TsoControl::SyncTimestamp(const pb::meta::TsoTimestamp& current_timestamp, i
 
   DINGO_LOG(DEBUG) << "sync timestamp request: " << request.ShortDebugString();
 
-  BthreadCond sync_cond;
-  TsoClosure* c = new TsoClosure(&sync_cond);
-  c->response = &response;
-  c->done = nullptr;
-  c->tso_control = this;
-  sync_cond.Increase();
-
   pb::coordinator_internal::MetaIncrement meta_increment;
   auto* tso = meta_increment.add_timestamp_oracles();
   *(tso->mutable_tso_request()) = request;
-  this->SubmitMetaIncrementAsync(c, &response, meta_increment);
-
-  sync_cond.Wait();
+  auto status = this->SubmitMetaIncrementSync(nullptr, &response, meta_increment);
 
-  if (response.error().errcode() != pb::error::OK) {
+  if (!status.ok() || response.error().errcode() != pb::error::OK) {
     DINGO_LOG(ERROR) << "sync timestamp failed, request: " << request.ShortDebugString()
-                     << ", response: " << response.ShortDebugString();
+                     << ", status: " << status.error_str() << ", response: " << response.ShortDebugString();
     return -1;
   }
 
@@ -232,16 +223,15 @@ void TsoControl::Process(google::protobuf::RpcController* controller, const pb::
     cntl->SetFailed(brpc::EREQUEST, "Fail to serialize request");
     return;
   }
-  TsoClosure* closure = new TsoClosure;
-  closure->cntl = cntl;
-  closure->response = response;
-  closure->done = done_guard.release();
-  closure->tso_control = this;
-
   pb::coordinator_internal::MetaIncrement meta_increment;
   auto* tso = meta_increment.add_timestamp_oracles();
   *(tso->mutable_tso_request()) = (*request);
-  this->SubmitMetaIncrementSync(closure, response, meta_increment);
+  auto status = this->SubmitMetaIncrementSync(nullptr, response, meta_increment);
+  if (!status.ok()) {
+    response->set_op_type(request->op_type());
+    response->mutable_error()->set_errcode(static_cast<pb::error::Errno>(status.error_code()));
+    response->mutable_error()->set_errmsg(status.error_str());
+  }
 }
 
 // If request.force == false, ResetTso is equal to UpdateTso
-- 
2.43.0


From 856f7fcb85d9355df231616361cae3204d8d872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:53 +0000
Subject: [PATCH 24/66] fix: tso update with the current physical time handed
 out its logical times again

---
 src/coordinator/tso_control.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/tso_control.cc b/src/coordinator/tso_control.cc
index 133edc7..ae6a592 100644
--- a/src/coordinator/tso_control.cc
+++ b/src/coordinator/tso_control.cc
@@ -14,6 +14,7 @@
 
 #include "coordinator/tso_control.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <memory>
@@ -239,7 +240,7 @@ void TsoControl::Process(google::protobuf::RpcController* controller, const pb::
 void TsoControl::ResetTso(const pb::meta::TsoRequest& request, pb::meta::TsoResponse* response) {
   if (request.has_current_timestamp() && request.save_physical() > 0) {
     int64_t physical = request.save_physical();
-    const pb::meta::TsoTimestamp& current = request.current_timestamp();
+    pb::meta::TsoTimestamp current = request.current_timestamp();
     if (physical < tso_obj_.last_save_physical || current.physical() < tso_obj_.current_timestamp.physical()) {
       if (!request.force()) {
         DINGO_LOG(WARNING) << "time fallback save_physical:(" << physical << ", " << tso_obj_.last_save_physical
@@ -260,6 +261,9 @@ void TsoControl::ResetTso(const pb::meta::TsoRequest& request, pb::meta::TsoResp
                        << current.logical() << ")";
     {
       BAIDU_SCOPED_LOCK(tso_mutex_);
+      if (!request.force() && current.physical() == tso_obj_.current_timestamp.physical()) {
+        current.set_logical(std::max(current.logical(), tso_obj_.current_timestamp.logical()));
+      }
       tso_obj_.last_save_physical = physical;
       tso_obj_.current_timestamp = current;
     }
@@ -275,7 +279,7 @@ void TsoControl::ResetTso(const pb::meta::TsoRequest& request, pb::meta::TsoResp
 
 void TsoControl::UpdateTso(const pb::meta::TsoRequest& request, pb::meta::TsoResponse* response) {
   int64_t physical = request.save_physical();
-  const pb::meta::TsoTimestamp& current = request.current_timestamp();
+  pb::meta::TsoTimestamp current = request.current_timestamp();
   // can't rollback
   if (physical < tso_obj_.last_save_physical || current.physical() < tso_obj_.current_timestamp.physical()) {
     DINGO_LOG(WARNING) << "time fallback save_physical:(" << physical << ", " << tso_obj_.last_save_physical
@@ -289,6 +293,10 @@ void TsoControl::UpdateTso(const pb::meta::TsoRequest& request, pb::meta::TsoRes
   }
   {
     BAIDU_SCOPED_LOCK(tso_mutex_);
+    // logical times of this physical time are already handed out
+    if (current.physical() == tso_obj_.current_timestamp.physical()) {
+      current.set_logical(std::max(current.logical(), tso_obj_.current_timestamp.logical()));
+    }
     tso_obj_.last_save_physical = physical;
     tso_obj_.current_timestamp = current;
   }
-- 
2.43.0


From 1c3b6fdf8336e5aa0cebee2636040bf3ddb0487b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:53 +0000
Subject: [PATCH 25/66] fix: tso count which is negative or overflows moved the
 logical time back

---
 src/coordinator/tso_control.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/tso_control.cc b/src/coordinator/tso_control.cc
index ae6a592..65b1171 100644
--- a/src/coordinator/tso_control.cc
+++ b/src/coordinator/tso_control.cc
@@ -129,9 +129,9 @@ int TsoControl::SyncTimestamp(const pb::meta::TsoTimestamp& current_timestamp, i
 void TsoControl::GenTso(const pb::meta::TsoRequest* request, pb::meta::TsoResponse* response) {
   int64_t count = request->count();
   response->set_op_type(request->op_type());
-  if (count == 0) {
+  if (count <= 0 || count >= kMaxLogical) {
     response->mutable_error()->set_errcode(pb::error::Errno::EILLEGAL_PARAMTETERS);
-    response->mutable_error()->set_errmsg("tso count should be positive");
+    response->mutable_error()->set_errmsg("tso count should be positive and less than max logical");
     return;
   }
   if (!is_healty_) {
-- 
2.43.0


From 6df80ee1f8f5d3cf9e2bdba5e4c0361781f65a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:53 +0000
Subject: [PATCH 26/66] fix: new tso leader handed out timestamps of its
 predecessor, or none at all after a failed sync

---
 src/coordinator/tso_control.cc | 74 +++++++++++++++++++++-------------
 src/coordinator/tso_control.h  |  9 +++--
 2 files changed, 53 insertions(+), 30 deletions(-)

diff --git a/src/coordinator/tso_control.cc b/src/coordinator/tso_control.cc
index 65b1171..53719d4 100644
--- a/src/coordinator/tso_control.cc
+++ b/src/coordinator/tso_control.cc
@@ -65,6 +65,10 @@ void TsoControl::UpdateTimestamp() {
   if (!IsLeader()) {
     return;
   }
+  if (!IsSynced()) {
+    SyncLeaderTimestamp();
+    return;
+  }
   int64_t now = ClockRealtimeMs();
   int64_t prev_physical = 0;
   int64_t prev_logical = 0;
@@ -134,19 +138,16 @@ void TsoControl::GenTso(const pb::meta::TsoRequest* request, pb::meta::TsoRespon
     response->mutable_error()->set_errmsg("tso count should be positive and less than max logical");
     return;
   }
-  if (!is_healty_) {
-    DINGO_LOG(ERROR) << "TSO has wrong status, retry later";
-    response->mutable_error()->set_errcode(pb::error::Errno::ERETRY_LATER);
-    response->mutable_error()->set_errmsg("timestamp not ok, retry later");
-    return;
-  }
   pb::meta::TsoTimestamp current;
   bool need_retry = false;
   for (size_t i = 0; i < 50; i++) {
     {
       BAIDU_SCOPED_LOCK(tso_mutex_);
       int64_t physical = tso_obj_.current_timestamp.physical();
-      if (physical != 0) {
+      if (leader_term_.load(butil::memory_order_acquire) != synced_term_) {
+        DINGO_LOG(WARNING) << "timestamp not synced in this term, retry later";
+        need_retry = true;
+      } else if (physical != 0) {
         int64_t new_logical = tso_obj_.current_timestamp.logical() + count;
         if (new_logical < kMaxLogical) {
           current = tso_obj_.current_timestamp;
@@ -237,7 +238,7 @@ void TsoControl::Process(google::protobuf::RpcController* controller, const pb::
 
 // If request.force == false, ResetTso is equal to UpdateTso
 // Else ResetTso will force update tso
-void TsoControl::ResetTso(const pb::meta::TsoRequest& request, pb::meta::TsoResponse* response) {
+void TsoControl::ResetTso(const pb::meta::TsoRequest& request, int64_t term, pb::meta::TsoResponse* response) {
   if (request.has_current_timestamp() && request.save_physical() > 0) {
     int64_t physical = request.save_physical();
     pb::meta::TsoTimestamp current = request.current_timestamp();
@@ -256,11 +257,13 @@ void TsoControl::ResetTso(const pb::meta::TsoRequest& request, pb::meta::TsoResp
         return;
       }
     }
-    is_healty_ = true;
     DINGO_LOG(WARNING) << "reset tso save_physical: " << physical << " current: (" << current.physical() << ", "
                        << current.logical() << ")";
     {
       BAIDU_SCOPED_LOCK(tso_mutex_);
+      if (request.force() || current.physical() > tso_obj_.last_save_physical) {
+        synced_term_ = term;
+      }
       if (!request.force() && current.physical() == tso_obj_.current_timestamp.physical()) {
         current.set_logical(std::max(current.logical(), tso_obj_.current_timestamp.logical()));
       }
@@ -277,7 +280,7 @@ void TsoControl::ResetTso(const pb::meta::TsoRequest& request, pb::meta::TsoResp
   }
 }
 
-void TsoControl::UpdateTso(const pb::meta::TsoRequest& request, pb::meta::TsoResponse* response) {
+void TsoControl::UpdateTso(const pb::meta::TsoRequest& request, int64_t term, pb::meta::TsoResponse* response) {
   int64_t physical = request.save_physical();
   pb::meta::TsoTimestamp current = request.current_timestamp();
   // can't rollback
@@ -293,6 +296,10 @@ void TsoControl::UpdateTso(const pb::meta::TsoRequest& request, pb::meta::TsoRes
   }
   {
     BAIDU_SCOPED_LOCK(tso_mutex_);
+    // beyond everything which leaders of former terms may have handed out
+    if (current.physical() > tso_obj_.last_save_physical) {
+      synced_term_ = term;
+    }
     // logical times of this physical time are already handed out
     if (current.physical() == tso_obj_.current_timestamp.physical()) {
       current.set_logical(std::max(current.logical(), tso_obj_.current_timestamp.logical()));
@@ -377,30 +384,43 @@ void TsoControl::SetLeaderTerm(int64_t term) { leader_term_.store(term, butil::m
 
 void TsoControl::OnLeaderStart(int64_t term) {
   DINGO_LOG(INFO) << "OnLeaderStart_TSO, term=" << term;
+  auto func = [this]() {
+    SyncLeaderTimestamp();
+    tso_update_timer_.start();
+  };
+  Bthread bth;
+  bth.Run(func);
+}
+
+bool TsoControl::IsSynced() {
+  BAIDU_SCOPED_LOCK(tso_mutex_);
+  return leader_term_.load(butil::memory_order_acquire) == synced_term_;
+}
+
+void TsoControl::SyncLeaderTimestamp() {
   int64_t now = ClockRealtimeMs();
   pb::meta::TsoTimestamp current;
   current.set_physical(now);
   current.set_logical(0);
-  int64_t last_save = tso_obj_.last_save_physical;
+  int64_t last_save = 0;
+  {
+    BAIDU_SCOPED_LOCK(tso_mutex_);
+    last_save = tso_obj_.last_save_physical;
+  }
   if (now < last_save + kUpdateTimestampIntervalMs) {
     DINGO_LOG(WARNING) << "time maybe fallback, now: " << now << ", last_save: " << last_save
                        << ", kUpdateTimestampIntervalMs: " << kUpdateTimestampIntervalMs;
     current.set_physical(last_save + kUpdateTimestampGuardMs);
   }
   last_save = current.physical() + kSaveIntervalMs;
-  auto func = [this, last_save, current]() {
-    LOG(INFO) << "leader_start current(phy:" << current.physical() << ",log:" << current.logical()
-              << ") save:" << last_save;
-    int ret = SyncTimestamp(current, last_save);
-    if (ret < 0) {
-      LOG(INFO) << "sync timestamp failed";
-      is_healty_ = false;
-    }
-    LOG(INFO) << "sync timestamp ok";
-    tso_update_timer_.start();
-  };
-  Bthread bth;
-  bth.Run(func);
+  LOG(INFO) << "leader_start current(phy:" << current.physical() << ",log:" << current.logical()
+            << ") save:" << last_save;
+  int ret = SyncTimestamp(current, last_save);
+  if (ret < 0) {
+    LOG(INFO) << "sync timestamp failed";
+    return;
+  }
+  LOG(INFO) << "sync timestamp ok";
 }
 
 // only leader will update timestamp
@@ -415,7 +435,7 @@ void TsoControl::SetRaftNode(std::shared_ptr<RaftNode> raft_node) { raft_node_ =
 
 // on_apply callback
 void TsoControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrement& meta_increment, bool is_leader,
-                                    int64_t /*term*/, int64_t /*index*/, google::protobuf::Message* response) {
+                                    int64_t term, int64_t /*index*/, google::protobuf::Message* response) {
   for (int i = 0; i < meta_increment.timestamp_oracles_size(); i++) {
     const auto& tso = meta_increment.timestamp_oracles(i);
 
@@ -430,11 +450,11 @@ void TsoControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrement& met
 
     switch (tso_request.op_type()) {
       case pb::meta::OP_RESET_TSO: {
-        ResetTso(tso_request, tso_response);
+        ResetTso(tso_request, term, tso_response);
         break;
       }
       case pb::meta::OP_UPDATE_TSO: {
-        UpdateTso(tso_request, tso_response);
+        UpdateTso(tso_request, term, tso_response);
         break;
       }
       default: {
diff --git a/src/coordinator/tso_control.h b/src/coordinator/tso_control.h
index 27a4415..aca6c09 100644
--- a/src/coordinator/tso_control.h
+++ b/src/coordinator/tso_control.h
@@ -167,10 +167,13 @@ class TsoControl : public MetaControl {
                pb::meta::TsoResponse *response, google::protobuf::Closure *done);
 
   void GenTso(const pb::meta::TsoRequest *request, pb::meta::TsoResponse *response);
-  void ResetTso(const pb::meta::TsoRequest &request, pb::meta::TsoResponse *response);
-  void UpdateTso(const pb::meta::TsoRequest &request, pb::meta::TsoResponse *response);
+  void ResetTso(const pb::meta::TsoRequest &request, int64_t term, pb::meta::TsoResponse *response);
+  void UpdateTso(const pb::meta::TsoRequest &request, int64_t term, pb::meta::TsoResponse *response);
 
   int SyncTimestamp(const pb::meta::TsoTimestamp &current_timestamp, int64_t save_physical);
+  // move beyond everything promised by former leaders
+  void SyncLeaderTimestamp();
+  bool IsSynced();
   void UpdateTimestamp();
   void OnApply(braft::Iterator &iter);
 
@@ -178,7 +181,7 @@ class TsoControl : public MetaControl {
   TsoTimer tso_update_timer_;
   TsoObj tso_obj_;
   bthread_mutex_t tso_mutex_;  // for tso_obj_
-  bool is_healty_ = true;
+  int64_t synced_term_ = 0;    // term whose leader may serve the current timestamp
 
   // node is leader or not
   butil::atomic<int64_t> leader_term_;
-- 
2.43.0


From a545d7689363355aebf9805bc633110f50b5f879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:53 +0000
Subject: [PATCH 27/66] fix: auto increment created twice at the same time
 handed out ids again

---
 src/coordinator/auto_increment_control.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/auto_increment_control.cc b/src/coordinator/auto_increment_control.cc
index e0550f3..faf3ae5 100644
--- a/src/coordinator/auto_increment_control.cc
+++ b/src/coordinator/auto_increment_control.cc
@@ -345,7 +345,11 @@ void AutoIncrementControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncr
     if (auto_increment.op_type() == pb::coordinator_internal::MetaIncrementOpType::CREATE) {
       DINGO_LOG(INFO) << "create auto increment, table id: " << table_id
                       << ", start id: " << auto_increment.increment().start_id();
-      auto_increment_map_[table_id] = auto_increment.increment().start_id();
+      // a create which was checked before another one is applied must not move the counter back
+      int64_t* start_id_ptr = auto_increment_map_.seek(table_id);
+      if (start_id_ptr == nullptr || *start_id_ptr < auto_increment.increment().start_id()) {
+        auto_increment_map_[table_id] = auto_increment.increment().start_id();
+      }
     } else if (auto_increment.op_type() == pb::coordinator_internal::MetaIncrementOpType::UPDATE) {
       int64_t* start_id_ptr = auto_increment_map_.seek(table_id);
       if (start_id_ptr == nullptr) {
-- 
2.43.0


From f4cc1533d8f3f4f0cda0914cddc5299650c423de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:53 +0000
Subject: [PATCH 28/66] fix: auto increment raised while ids were generated
 handed out ids again

---
 src/coordinator/auto_increment_control.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/coordinator/auto_increment_control.cc b/src/coordinator/auto_increment_control.cc
index faf3ae5..8cf8c7f 100644
--- a/src/coordinator/auto_increment_control.cc
+++ b/src/coordinator/auto_increment_control.cc
@@ -379,6 +379,12 @@ void AutoIncrementControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncr
           DINGO_LOG(WARNING) << "start id compare not equal: " << source_start_id << " | "
                              << auto_increment.increment().source_start_id();
         }
+        // a raise is never to move the counter back
+        if (auto_increment.increment().start_id() > auto_increment.increment().source_start_id() &&
+            auto_increment.increment().start_id() < source_start_id) {
+          DINGO_LOG(WARNING) << "start id is raised meanwhile, request: " << auto_increment.ShortDebugString();
+          continue;
+        }
         auto_increment_map_[table_id] = auto_increment.increment().start_id();
         DINGO_LOG(INFO) << "update auto increment, table id: " << table_id
                         << ", old start id: " << auto_increment.increment().source_start_id()
-- 
2.43.0


From 465a713432ddbf636020bc24529a847c15db5a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:53 +0000
Subject: [PATCH 29/66] fix: auto increment moved back when count * increment
 exceeds 32 bits

---
 src/coordinator/auto_increment_control.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinator/auto_increment_control.cc b/src/coordinator/auto_increment_control.cc
index 8cf8c7f..debfc89 100644
--- a/src/coordinator/auto_increment_control.cc
+++ b/src/coordinator/auto_increment_control.cc
@@ -413,7 +413,7 @@ int64_t AutoIncrementControl::GetGenerateEndId(int64_t start_id, uint32_t count,
   }
 
   int64_t real_start_id = GetRealStartId(start_id, increment, offset);
-  return real_start_id + count * increment;
+  return real_start_id + static_cast<int64_t>(count) * increment;
 }
 
 int64_t AutoIncrementControl::GetRealStartId(int64_t start_id, uint32_t auto_increment_increment,
-- 
2.43.0


From b29945219e8b02840411c78a183ccc3741305b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:53 +0000
Subject: [PATCH 30/66] fix: ids generated for an auto increment which is
 deleted meanwhile were answered as ok

---
 src/coordinator/auto_increment_control.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/coordinator/auto_increment_control.cc b/src/coordinator/auto_increment_control.cc
index debfc89..1563179 100644
--- a/src/coordinator/auto_increment_control.cc
+++ b/src/coordinator/auto_increment_control.cc
@@ -354,6 +354,13 @@ void AutoIncrementControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncr
       int64_t* start_id_ptr = auto_increment_map_.seek(table_id);
       if (start_id_ptr == nullptr) {
         DINGO_LOG(WARNING) << "for update, cannot find table id: " << table_id;
+        if (is_leader && response != nullptr &&
+            auto_increment.increment().update_type() ==
+                pb::coordinator_internal::AutoIncrementUpdateType::READ_MODIFY_WRITE) {
+          auto* generate_response = static_cast<pb::meta::GenerateAutoIncrementResponse*>(response);
+          generate_response->mutable_error()->set_errcode(pb::error::Errno::EAUTO_INCREMENT_NOT_FOUND);
+          generate_response->mutable_error()->set_errmsg("auto increment not found");
+        }
         continue;
       }
 
-- 
2.43.0


From 730e48fa42bf9f3437b2631e392320b3ec17b6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:57 +0000
Subject: [PATCH 31/66] fix: reading an empty value with ttl aborted the store

---
 src/mvcc/codec.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mvcc/codec.cc b/src/mvcc/codec.cc
index fbf7074..a790c3a 100644
--- a/src/mvcc/codec.cc
+++ b/src/mvcc/codec.cc
@@ -367,17 +367,16 @@ ValueFlag Codec::GetValueFlag(const std::string_view& pkg_value) {
 }
 
 int64_t Codec::GetValueTTL(const std::string& pkg_value) {
-  CHECK(pkg_value.size() > 9) << "Value length is invalid.";
+  CHECK(pkg_value.size() >= 9) << "Value length is invalid.";
 
   uint8_t flag = static_cast<uint8_t>(pkg_value.back());
   CHECK(flag == static_cast<uint8_t>(ValueFlag::kPutTTL)) << fmt::format("Value flag({}) is not kPutTTL.", flag);
 
-  auto ttl_str = pkg_value.substr(pkg_value.size() - 9, pkg_value.size() - 1);
-  return Helper::StringToInt64(ttl_str);
+  return SerialHelper::ReadLong(std::string_view(pkg_value).substr(pkg_value.size() - 9, 8));
 }
 
 int64_t Codec::GetValueTTL(const std::string_view& pkg_value) {
-  CHECK(pkg_value.size() > 9) << "Value length is invalid.";
+  CHECK(pkg_value.size() >= 9) << "Value length is invalid.";
 
   uint8_t flag = static_cast<uint8_t>(pkg_value.back());
   CHECK(flag == static_cast<uint8_t>(ValueFlag::kPutTTL)) << fmt::format("Value flag({}) is not kPutTTL.", flag);
-- 
2.43.0


From e8b6198bee05962b788d4f100c6b625db4e30bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:57 +0000
Subject: [PATCH 32/66] fix: range delete of an unreplicated region was written
 with keys not encoded, which aborted the store or deleted nothing

---
 src/engine/mono_store_engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/mono_store_engine.cc b/src/engine/mono_store_engine.cc
index 75153e6..7a84e03 100644
--- a/src/engine/mono_store_engine.cc
+++ b/src/engine/mono_store_engine.cc
@@ -420,7 +420,7 @@ butil::Status MonoStoreEngine::Writer::KvDelete(std::shared_ptr<Context> ctx, co
 butil::Status MonoStoreEngine::Writer::KvDeleteRange(std::shared_ptr<Context> ctx, const pb::common::Range& range) {
   auto encode_range = mvcc::Codec::EncodeRange(range);
 
-  return mono_engine_->Write(ctx, WriteDataBuilder::BuildWrite(ctx->CfName(), range));
+  return mono_engine_->Write(ctx, WriteDataBuilder::BuildWrite(ctx->CfName(), encode_range));
 }
 
 butil::Status MonoStoreEngine::Writer::KvPutIfAbsent(std::shared_ptr<Context> ctx,
-- 
2.43.0


From b66faa8186dd9450da8b169ff3c7453f56ffc7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:57 +0000
Subject: [PATCH 33/66] fix: put to an unreplicated region dropped the ttl

---
 src/engine/mono_store_engine.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/mono_store_engine.cc b/src/engine/mono_store_engine.cc
index 7a84e03..56338f5 100644
--- a/src/engine/mono_store_engine.cc
+++ b/src/engine/mono_store_engine.cc
@@ -369,7 +369,8 @@ butil::Status MonoStoreEngine::Writer::KvPut(std::shared_ptr<Context> ctx,
     return butil::Status(pb::error::ETSO_NOT_AVAILABLE, "TSO not available");
   }
 
-  auto encode_kvs = mvcc::Codec::EncodeKeyValuesWithPut(ts, kvs);
+  auto encode_kvs = ctx->Ttl() == 0 ? mvcc::Codec::EncodeKeyValuesWithPut(ts, kvs)
+                                    : mvcc::Codec::EncodeKeyValuesWithTTL(ts, ctx->Ttl(), kvs);
   auto status = mono_engine_->Write(ctx, WriteDataBuilder::BuildWrite(ctx->CfName(), encode_kvs, ts));
   if (!status.ok()) {
     return status;
-- 
2.43.0


From 36fa5148c5980a9c0ccc3c7af193d8097018e2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:18 +0000
Subject: [PATCH 34/66] fix: plain writes were answered by replicas which are
 not leaders or have not caught up yet

---
 src/engine/storage.cc | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/engine/storage.cc b/src/engine/storage.cc
index d1062b8..62b00e4 100644
--- a/src/engine/storage.cc
+++ b/src/engine/storage.cc
@@ -232,9 +232,14 @@ butil::Status Storage::KvGet(std::shared_ptr<Context> ctx, const std::vector<std
 }
 
 butil::Status Storage::KvPut(std::shared_ptr<Context> ctx, std::vector<pb::common::KeyValue>& kvs) {
+  auto status = ValidateLeader(ctx->RegionId());
+  if (BAIDU_UNLIKELY(!status.ok())) {
+    return status;
+  }
+
   auto writer = GetEngineWriter(ctx->StoreEngineType(), ctx->RawEngineType());
 
-  auto status = writer->KvPut(ctx, kvs);
+  status = writer->KvPut(ctx, kvs);
   if (BAIDU_UNLIKELY(!status.ok())) {
     return status;
   }
@@ -244,9 +249,14 @@ butil::Status Storage::KvPut(std::shared_ptr<Context> ctx, std::vector<pb::commo
 
 butil::Status Storage::KvPutIfAbsent(std::shared_ptr<Context> ctx, const std::vector<pb::common::KeyValue>& kvs,
                                      bool is_atomic, std::vector<bool>& key_states) {
+  auto status = ValidateLeader(ctx->RegionId());
+  if (BAIDU_UNLIKELY(!status.ok())) {
+    return status;
+  }
+
   auto writer = GetEngineWriter(ctx->StoreEngineType(), ctx->RawEngineType());
 
-  auto status = writer->KvPutIfAbsent(ctx, kvs, is_atomic, key_states);
+  status = writer->KvPutIfAbsent(ctx, kvs, is_atomic, key_states);
   if (BAIDU_UNLIKELY(!status.ok())) {
     return status;
   }
@@ -256,9 +266,14 @@ butil::Status Storage::KvPutIfAbsent(std::shared_ptr<Context> ctx, const std::ve
 
 butil::Status Storage::KvDelete(std::shared_ptr<Context> ctx, const std::vector<std::string>& keys,
                                 std::vector<bool>& key_states) {
+  auto status = ValidateLeader(ctx->RegionId());
+  if (BAIDU_UNLIKELY(!status.ok())) {
+    return status;
+  }
+
   auto writer = GetEngineWriter(ctx->StoreEngineType(), ctx->RawEngineType());
 
-  auto status = writer->KvDelete(ctx, keys, key_states);
+  status = writer->KvDelete(ctx, keys, key_states);
   if (BAIDU_UNLIKELY(!status.ok())) {
     return status;
   }
@@ -267,9 +282,14 @@ butil::Status Storage::KvDelete(std::shared_ptr<Context> ctx, const std::vector<
 }
 
 butil::Status Storage::KvDeleteRange(std::shared_ptr<Context> ctx, const pb::common::Range& range) {
+  auto status = ValidateLeader(ctx->RegionId());
+  if (BAIDU_UNLIKELY(!status.ok())) {
+    return status;
+  }
+
   auto writer = GetEngineWriter(ctx->StoreEngineType(), ctx->RawEngineType());
 
-  auto status = writer->KvDeleteRange(ctx, range);
+  status = writer->KvDeleteRange(ctx, range);
   if (BAIDU_UNLIKELY(!status.ok())) {
     return status;
   }
@@ -280,9 +300,14 @@ butil::Status Storage::KvDeleteRange(std::shared_ptr<Context> ctx, const pb::com
 butil::Status Storage::KvCompareAndSet(std::shared_ptr<Context> ctx, const std::vector<pb::common::KeyValue>& kvs,
                                        const std::vector<std::string>& expect_values, bool is_atomic,
                                        std::vector<bool>& key_states) {
+  auto status = ValidateLeader(ctx->RegionId());
+  if (BAIDU_UNLIKELY(!status.ok())) {
+    return status;
+  }
+
   auto writer = GetEngineWriter(ctx->StoreEngineType(), ctx->RawEngineType());
 
-  auto status = writer->KvCompareAndSet(ctx, kvs, expect_values, is_atomic, key_states);
+  status = writer->KvCompareAndSet(ctx, kvs, expect_values, is_atomic, key_states);
   if (BAIDU_UNLIKELY(!status.ok())) {
     return status;
   }
-- 
2.43.0


From 6c96493b9b78388e8dae9ced5ef3b10a604cd06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:56 +0000
Subject: [PATCH 35/66] fix: two regions which start to lead at the same time
 could move the smallest valid timestamp back

---
 src/mvcc/ts_provider.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mvcc/ts_provider.h b/src/mvcc/ts_provider.h
index 45a3b56..68fa01f 100644
--- a/src/mvcc/ts_provider.h
+++ b/src/mvcc/ts_provider.h
@@ -109,8 +109,9 @@ class BatchTsList {
   void Flush();
 
   void SetMinValidTs(int64_t min_valid_ts) {
-    if (min_valid_ts > min_valid_ts_.load(std::memory_order_acquire)) {
-      min_valid_ts_.store(min_valid_ts, std::memory_order_release);
+    int64_t old_min_valid_ts = min_valid_ts_.load(std::memory_order_acquire);
+    while (min_valid_ts > old_min_valid_ts &&
+           !min_valid_ts_.compare_exchange_weak(old_min_valid_ts, min_valid_ts, std::memory_order_acq_rel)) {
     }
   }
 
-- 
2.43.0


From 109fbdefed3e31ec123d5d3c1382cd5cab7cc8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:56 +0000
Subject: [PATCH 36/66] fix: a write served while the leader started could get
 a timestamp below what the region has applied

---
 src/event/store_state_machine_event.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/event/store_state_machine_event.cc b/src/event/store_state_machine_event.cc
index 7f7a012..d2a2acc 100644
--- a/src/event/store_state_machine_event.cc
+++ b/src/event/store_state_machine_event.cc
@@ -92,7 +92,6 @@ int SmLeaderStartEventListener::OnEvent(std::shared_ptr<Event> event) {
     if (node->ElectionTimeout() != election_timeout_ms) {
       node->ResetElectionTimeout(election_timeout_ms, 1000);
     }
-    node->SetConsistentReadable(true);
   }
 
   // Set raw apply max ts
@@ -101,6 +100,11 @@ int SmLeaderStartEventListener::OnEvent(std::shared_ptr<Event> event) {
     ts_provider->SetMinValidTs(region->RawAppliedMaxTs());
   }
 
+  // Requests are served from here on, so the timestamps they get must be valid already.
+  if (node != nullptr) {
+    node->SetConsistentReadable(true);
+  }
+
   auto store_region_meta = GET_STORE_REGION_META;
   // Update region meta
   if (store_region_meta != nullptr) {
-- 
2.43.0


From 02378afdf3fafc2f71d9ecca0b7db6664880ac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:54 +0000
Subject: [PATCH 37/66] fix: a raft log entry without data aborted the store
 when it was read

---
 src/log/rocks_log_storage.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/log/rocks_log_storage.cc b/src/log/rocks_log_storage.cc
index 7116164..9e43faf 100644
--- a/src/log/rocks_log_storage.cc
+++ b/src/log/rocks_log_storage.cc
@@ -171,14 +171,14 @@ class Codec {
   }
 
   static void DecodeValue(const std::string& value, int& type, int64_t& term) {
-    CHECK(value.size() > 12) << fmt::format("value length({}) is invalid.", value.size());
+    CHECK(value.size() >= 12) << fmt::format("value length({}) is invalid.", value.size());
 
     memcpy(&type, value.data() + value.size() - 12, 4);
     memcpy(&term, value.data() + value.size() - 8, 8);
   }
 
   static void DecodeValue(const std::string_view& value, int& type, int64_t& term) {
-    CHECK(value.size() > 12) << fmt::format("value length({}) is invalid.", value.size());
+    CHECK(value.size() >= 12) << fmt::format("value length({}) is invalid.", value.size());
 
     memcpy(&type, value.data() + value.size() - 12, 4);
     memcpy(&term, value.data() + value.size() - 8, 8);
-- 
2.43.0


From 731ed40231c32706c7d65f2fee55852840256c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:54 +0000
Subject: [PATCH 38/66] fix: a vector index could not hold back raft log
 truncation again after it had allowed it

---
 src/log/rocks_log_storage.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/log/rocks_log_storage.cc b/src/log/rocks_log_storage.cc
index 9e43faf..11a9d94 100644
--- a/src/log/rocks_log_storage.cc
+++ b/src/log/rocks_log_storage.cc
@@ -1237,6 +1237,16 @@ int RocksLogStorage::TruncatePrefix(ClientType client_type, int64_t region_id, i
 
     first_index = it->second.first_index.load(std::memory_order_acquire);
     last_index = it->second.last_index.load(std::memory_order_acquire);
+    if (keep_first_index <= 0) {
+      // The client forbids truncating log until it set a new index.
+      for (auto& truncate_prefix : it->second.truncate_prefixs) {
+        if (truncate_prefix.first == client_type) {
+          truncate_prefix.second = 0;
+        }
+      }
+      return 0;
+    }
+
     if (keep_first_index <= first_index) {
       DINGO_LOG(INFO) << fmt::format("[raft.log][{}.{}.{}] truncate prefix ignore, keep_first_index({}).", region_id,
                                      first_index, last_index, keep_first_index);
-- 
2.43.0


From f0c7aff249c3dd1e3450c57a520762d34a998ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:35 +0000
Subject: [PATCH 39/66] fix: a crash within a region split or merge left one
 region changed and the other not

---
 src/handler/raft_apply_handler.cc | 64 ++++++++++++++-----------------
 src/meta/store_meta_manager.cc    | 20 ++++++++++
 src/meta/store_meta_manager.h     |  8 ++++
 3 files changed, 56 insertions(+), 36 deletions(-)

diff --git a/src/handler/raft_apply_handler.cc b/src/handler/raft_apply_handler.cc
index 044a0cb..ecdd075 100644
--- a/src/handler/raft_apply_handler.cc
+++ b/src/handler/raft_apply_handler.cc
@@ -306,19 +306,22 @@ bool HandlePreCreateRegionSplit(const pb::raft::SplitRequest &request, store::Re
   to_region->SetTxnAccessMaxTs(from_region->TxnAccessMaxTs());
 
   // Note: full heartbeat do not report region metrics when the region is in SPLITTING or MERGING
-  store_region_meta->UpdateState(to_region, pb::common::StoreRegionState::SPLITTING);
   store_region_meta->UpdateState(from_region, pb::common::StoreRegionState::SPLITTING);
 
   // set last split time
   to_region->UpdateLastSplitTimestamp();
   from_region->UpdateLastSplitTimestamp();
 
-  // set child region version/range/state
-  store_region_meta->UpdateEpochVersionAndRange(to_region, to_region->Epoch().version() + 1, to_range, "split child");
+  if (from_region->GetStoreEngineType() == pb::common::STORE_ENG_RAFT_STORE) {
+    from_region->SetNeedBootstrapDoSnapshot(true);
+    to_region->SetNeedBootstrapDoSnapshot(true);
+  }
 
-  // set parent region version/range/state
-  store_region_meta->UpdateEpochVersionAndRange(from_region, from_region->Epoch().version() + 1, from_range,
-                                                "split parent");
+  // set child and parent region version/range/state
+  store_region_meta->UpdateEpochVersionAndRangeAndState(
+      {{to_region, to_region->Epoch().version() + 1, to_range, pb::common::StoreRegionState::NORMAL},
+       {from_region, from_region->Epoch().version() + 1, from_range, pb::common::StoreRegionState::NORMAL}},
+      "split");
 
   DINGO_LOG(INFO) << fmt::format(
       "[split.spliting][job_id({}).region({}->{})] splited, child region({}/{}) parent region({}/{})", request.job_id(),
@@ -337,10 +340,6 @@ bool HandlePreCreateRegionSplit(const pb::raft::SplitRequest &request, store::Re
   // Do child region snapshot
   LaunchAyncSaveSnapshot(to_region);
 
-  // update StoreRegionState to NORMAL
-  store_region_meta->UpdateState(from_region, pb::common::StoreRegionState::NORMAL);
-  store_region_meta->UpdateState(to_region, pb::common::StoreRegionState::NORMAL);
-
   if (to_region->Type() == pb::common::RegionType::INDEX_REGION) {
 #if WITH_VECTOR_INDEX_USE_DOCUMENT_SPEEDUP
     const auto &from_definition = from_region->Definition();
@@ -849,17 +848,13 @@ int PrepareMergeHandler::Handle(std::shared_ptr<Context>, store::RegionPtr sourc
         source_region->Id(), request.target_region_id());
   }
 
-  // Set source region state.
-  store_region_meta->UpdateState(source_region, pb::common::StoreRegionState::MERGING);
-
-  FAIL_POINT("before_launch_commit_merge");
-
   // Get source region definition.
   auto source_region_definition = source_region->Definition();
-  // Set source region epoch/range.
+  // Set source region epoch/range/state.
   int64_t new_version = source_region_definition.epoch().version() + 1;
-  store_region_meta->UpdateEpochVersionAndRange(source_region, new_version, source_region_definition.range(),
-                                                "merge source");
+  store_region_meta->UpdateEpochVersionAndRangeAndState(
+      {{source_region, new_version, source_region_definition.range(), pb::common::StoreRegionState::MERGING}},
+      "merge source");
 
   FAIL_POINT("before_launch_commit_merge");
 
@@ -944,6 +939,10 @@ int CommitMergeHandler::Handle(std::shared_ptr<Context>, store::RegionPtr target
 
   store_region_meta->UpdateState(source_region, pb::common::StoreRegionState::MERGING);
 
+  // Set apply max ts, before the target region takes requests for the source region's keys
+  target_region->SetRawAppliedMaxTs(source_region->RawAppliedMaxTs());
+  target_region->SetTxnAccessMaxTs(source_region->TxnAccessMaxTs());
+
   {
     auto old_target_range = target_region->Range(false);
     // Set target region range and epoch
@@ -961,29 +960,22 @@ int CommitMergeHandler::Handle(std::shared_ptr<Context>, store::RegionPtr target
     }
     int64_t new_version = std::max(request.source_region_epoch().version(), target_region->Epoch().version()) + 1;
 
-    store_region_meta->UpdateEpochVersionAndRange(target_region, new_version, new_range, "merge target");
-  }
-
-  {
     // Set source region
     // range: [0xFFFFFFF, source_region.end_key)
     // epoch: source_epoch + 1
-    int64_t new_version = source_region->Epoch().version() + 1;
-    pb::common::Range new_range = source_region->Range(false);
-    new_range.set_start_key(Helper::GenMaxStartKey());
-    store_region_meta->UpdateEpochVersionAndRange(source_region, new_version, new_range, "merge source");
-  }
-
-  // Set apply max ts
-  int64_t raw_max_ts = std::max(target_region->RawAppliedMaxTs(), source_region->RawAppliedMaxTs());
-  target_region->SetRawAppliedMaxTs(raw_max_ts);
+    pb::common::Range new_source_range = source_region->Range(false);
+    new_source_range.set_start_key(Helper::GenMaxStartKey());
 
-  // Set apply max ts
-  int64_t txn_max_ts = std::max(target_region->TxnAccessMaxTs(), source_region->TxnAccessMaxTs());
-  target_region->SetTxnAccessMaxTs(txn_max_ts);
+    if (target_region->GetStoreEngineType() == pb::common::STORE_ENG_RAFT_STORE) {
+      target_region->SetNeedBootstrapDoSnapshot(true);
+    }
 
-  // Set source region TOMBSTONE state
-  store_region_meta->UpdateState(source_region, pb::common::StoreRegionState::TOMBSTONE);
+    store_region_meta->UpdateEpochVersionAndRangeAndState(
+        {{target_region, new_version, new_range, target_region->State()},
+         {source_region, source_region->Epoch().version() + 1, new_source_range,
+          pb::common::StoreRegionState::TOMBSTONE}},
+        "merge");
+  }
 
   // Do snapshot
   LaunchAyncSaveSnapshot(target_region);
diff --git a/src/meta/store_meta_manager.cc b/src/meta/store_meta_manager.cc
index 6a8edee..faa4c6b 100644
--- a/src/meta/store_meta_manager.cc
+++ b/src/meta/store_meta_manager.cc
@@ -1042,6 +1042,26 @@ void StoreRegionMeta::UpdateEpochVersionAndRange(int64_t region_id, int64_t vers
   }
 }
 
+void StoreRegionMeta::UpdateEpochVersionAndRangeAndState(const std::vector<RegionChange>& changes,
+                                                         const std::string& trace) {
+  std::vector<pb::common::KeyValue> kvs;
+  for (const auto& change : changes) {
+    assert(change.region != nullptr);
+    DINGO_LOG(INFO) << fmt::format("[region.meta][region({})][trace({})] update epoch({}) range({}) state({})",
+                                   change.region->Id(), trace, change.version, Helper::RangeToString(change.range),
+                                   pb::common::StoreRegionState_Name(change.state));
+
+    change.region->SetEpochVersionAndRange(change.version, change.range);
+    if (change.region->State() != change.state) {
+      change.region->SetState(change.state);
+      change.region->AppendHistoryState(change.state);
+    }
+    kvs.push_back(*TransformToKv(change.region));
+  }
+
+  meta_writer_->Put(kvs);
+}
+
 void StoreRegionMeta::UpdateEpochConfVersion(store::RegionPtr region, int64_t version) {
   assert(region != nullptr);
   if (version <= region->Epoch().conf_version()) {
diff --git a/src/meta/store_meta_manager.h b/src/meta/store_meta_manager.h
index 5d8548b..04c2154 100644
--- a/src/meta/store_meta_manager.h
+++ b/src/meta/store_meta_manager.h
@@ -358,6 +358,14 @@ class StoreRegionMeta : public TransformKvAble {
                                   const std::string& trace);
   void UpdateEpochVersionAndRange(int64_t region_id, int64_t version, const pb::common::Range& range,
                                   const std::string& trace);
+  // Change several regions together: what is persisted has all of the changes or none of them.
+  struct RegionChange {
+    store::RegionPtr region;
+    int64_t version;
+    pb::common::Range range;
+    pb::common::StoreRegionState state;
+  };
+  void UpdateEpochVersionAndRangeAndState(const std::vector<RegionChange>& changes, const std::string& trace);
   void UpdateEpochConfVersion(store::RegionPtr region, int64_t version);
   void UpdateEpochConfVersion(int64_t region_id, int64_t version);
   void UpdateSnapshotEpochVersion(store::RegionPtr region, int64_t version, const std::string& trace);
-- 
2.43.0


From e2261f124b821e4595ab0d81f750932522ead1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:00 +0000
Subject: [PATCH 40/66] fix: a replica which caught up with the log of a merged
 region applied entries the other replicas had abandoned

---
 src/raft/store_state_machine.cc | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/raft/store_state_machine.cc b/src/raft/store_state_machine.cc
index 2b41109..d639d29 100644
--- a/src/raft/store_state_machine.cc
+++ b/src/raft/store_state_machine.cc
@@ -266,15 +266,29 @@ int32_t StoreStateMachine::CatchUpApplyLog(const std::vector<pb::raft::LogEntry>
           entry.index(), applied_index_,
           raft_cmd->requests().empty() ? "" : pb::raft::CmdType_Name(raft_cmd->requests().at(0).cmd_type()));
 
-      auto event = std::make_shared<SmApplyEvent>();
-      event->region = region_;
-      event->engine = raw_engine_;
-      event->raft_cmd = raft_cmd;
-      event->region_metrics = region_metrics_;
-      event->term_id = entry.term();
-      event->log_id = entry.index();
+      // update apply max ts
+      for (const auto& request : raft_cmd->requests()) {
+        if (request.ts() > 0) {
+          region_->SetRawAppliedMaxTs(request.ts());
+        }
+      }
+
+      // The replicas which applied the log in the usual way abandoned the entries of another epoch.
+      if (Helper::IsEqualRegionEpoch(raft_cmd->header().epoch(), region_->Epoch())) {
+        auto event = std::make_shared<SmApplyEvent>();
+        event->region = region_;
+        event->engine = raw_engine_;
+        event->raft_cmd = raft_cmd;
+        event->region_metrics = region_metrics_;
+        event->term_id = entry.term();
+        event->log_id = entry.index();
 
-      DispatchEvent(EventType::kSmApply, event);
+        DispatchEvent(EventType::kSmApply, event);
+      } else {
+        DINGO_LOG(WARNING) << fmt::format(
+            "[raft.sm][region({})] catch up epoch is not match, region_epoch({}) raft_cmd_epoch({})", region_->Id(),
+            region_->EpochToString(), Helper::RegionEpochToString(raft_cmd->header().epoch()));
+      }
 
       applied_term_ = entry.term();
       applied_index_ = entry.index();
-- 
2.43.0


From cbfb4320d776f622ad5f3955d06d93da16688220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:00 +0000
Subject: [PATCH 41/66] fix: writes to a merged or split region could get
 timestamps below what the other region had applied

---
 src/handler/raft_apply_handler.cc | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/handler/raft_apply_handler.cc b/src/handler/raft_apply_handler.cc
index ecdd075..8d25296 100644
--- a/src/handler/raft_apply_handler.cc
+++ b/src/handler/raft_apply_handler.cc
@@ -166,6 +166,18 @@ int DeleteBatchHandler::Handle(std::shared_ptr<Context> ctx, store::RegionPtr re
   return 0;
 }
 
+// A region takes over keys of another region. This store may be the leader of the region already, so its next writes must
+// get timestamps above what the other region has applied.
+static void TakeOverMaxTs(store::RegionPtr region, store::RegionPtr other_region) {
+  region->SetRawAppliedMaxTs(other_region->RawAppliedMaxTs());
+  region->SetTxnAccessMaxTs(other_region->TxnAccessMaxTs());
+
+  auto ts_provider = Server::GetInstance().GetTsProvider();
+  if (ts_provider != nullptr) {
+    ts_provider->SetMinValidTs(region->RawAppliedMaxTs());
+  }
+}
+
 static void LaunchAyncSaveSnapshot(store::RegionPtr region) {  // NOLINT
   auto store_region_meta = GET_STORE_REGION_META;
   if (region->GetStoreEngineType() == pb::common::STORE_ENG_MONO_STORE) {
@@ -300,10 +312,7 @@ bool HandlePreCreateRegionSplit(const pb::raft::SplitRequest &request, store::Re
 
   to_region->SetParentId(from_region->Id());
   // Set apply max ts
-  to_region->SetRawAppliedMaxTs(from_region->RawAppliedMaxTs());
-
-  // Set txn apply max ts
-  to_region->SetTxnAccessMaxTs(from_region->TxnAccessMaxTs());
+  TakeOverMaxTs(to_region, from_region);
 
   // Note: full heartbeat do not report region metrics when the region is in SPLITTING or MERGING
   store_region_meta->UpdateState(from_region, pb::common::StoreRegionState::SPLITTING);
@@ -564,10 +573,7 @@ bool HandlePostCreateRegionSplit(const pb::raft::SplitRequest &request, store::R
 
   child_region->SetParentId(parent_region->Id());
   // Set apply max ts
-  child_region->SetRawAppliedMaxTs(parent_region->RawAppliedMaxTs());
-
-  // Set txn apply max ts
-  child_region->SetTxnAccessMaxTs(parent_region->TxnAccessMaxTs());
+  TakeOverMaxTs(child_region, parent_region);
 
   // Set parent/child range/epoch
   pb::common::Range parent_range;
@@ -940,8 +946,7 @@ int CommitMergeHandler::Handle(std::shared_ptr<Context>, store::RegionPtr target
   store_region_meta->UpdateState(source_region, pb::common::StoreRegionState::MERGING);
 
   // Set apply max ts, before the target region takes requests for the source region's keys
-  target_region->SetRawAppliedMaxTs(source_region->RawAppliedMaxTs());
-  target_region->SetTxnAccessMaxTs(source_region->TxnAccessMaxTs());
+  TakeOverMaxTs(target_region, source_region);
 
   {
     auto old_target_range = target_region->Range(false);
-- 
2.43.0


From 3572577ee2dd3549ec1f332933f23b7ea91905b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:10 +0000
Subject: [PATCH 42/66] fix: a region stayed closed for splits and merges after
 a restart which took the snapshot a split or merge needs

---
 src/engine/raft_store_engine.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/engine/raft_store_engine.cc b/src/engine/raft_store_engine.cc
index 9a6dc73..d8dbfca 100644
--- a/src/engine/raft_store_engine.cc
+++ b/src/engine/raft_store_engine.cc
@@ -39,6 +39,7 @@
 #include "event/store_state_machine_event.h"
 #include "fmt/core.h"
 #include "glog/logging.h"
+#include "handler/raft_apply_handler.h"
 #include "log/rocks_log_storage.h"
 #include "meta/store_meta_manager.h"
 #include "mvcc/codec.h"
@@ -135,7 +136,12 @@ bool RaftStoreEngine::Recover() {
         if (node != nullptr) {
           auto ctx = std::make_shared<Context>();
           ctx->SetRegionId(region->Id());
-          node->Snapshot(ctx, true);
+          // Ends the wait for the snapshot, as it does after a split or merge.
+          auto* done = new SplitHandler::SplitClosure(region->Id());
+          ctx->SetDone(done);
+          if (!node->Snapshot(ctx, true).ok()) {
+            delete done;
+          }
         }
       }
 
-- 
2.43.0


From 6a6d984982e88b92914d39e6fd481e518a724e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:33 +0000
Subject: [PATCH 43/66] fix: a region whose creation was interrupted by a crash
 could not be created any more

---
 src/meta/store_meta_manager.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/meta/store_meta_manager.cc b/src/meta/store_meta_manager.cc
index faa4c6b..1a3ded2 100644
--- a/src/meta/store_meta_manager.cc
+++ b/src/meta/store_meta_manager.cc
@@ -1290,6 +1290,15 @@ bool StoreMetaManager::Init() {
     return false;
   }
 
+  // The creation of these regions was interrupted. Forget them, so that the command which creates them can run again.
+  for (const auto& region : region_meta_->GetAllRegion()) {
+    if (region->State() == pb::common::StoreRegionState::NEW) {
+      DINGO_LOG(WARNING) << fmt::format("[region.meta][region({})] region is not created completely.", region->Id());
+      raft_meta_->DeleteRaftMeta(region->Id());
+      region_meta_->DeleteRegion(region->Id());
+    }
+  }
+
   if (!region_change_recorder_->Init()) {
     DINGO_LOG(ERROR) << "Init region change recorder failed!";
     return false;
-- 
2.43.0


From 30dfcff32911fa1b4ccbbbdc2b697d3df360b54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:23 +0000
Subject: [PATCH 44/66] fix: a crash within a split which creates the child
 region left both regions unfinished

---
 src/handler/raft_apply_handler.cc | 34 ++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/handler/raft_apply_handler.cc b/src/handler/raft_apply_handler.cc
index 8d25296..c74cf5e 100644
--- a/src/handler/raft_apply_handler.cc
+++ b/src/handler/raft_apply_handler.cc
@@ -456,8 +456,11 @@ store::RegionPtr CreateNewRegion(std::shared_ptr<RaftStoreEngine> raft_store_eng
   region->SetSplitStrategy(pb::raft::POST_CREATE_REGION);
   region->SetParentId(parent_region_id);
 
-  auto raft_meta = store::RaftMeta::New(region->Id());
-  ADD_RAFT_META(raft_meta);
+  auto raft_meta = Server::GetInstance().GetStoreMetaManager()->GetStoreRaftMeta()->GetRaftMeta(region->Id());
+  if (raft_meta == nullptr) {
+    raft_meta = store::RaftMeta::New(region->Id());
+    ADD_RAFT_META(raft_meta);
+  }
 
   RaftControlAble::AddNodeParameter parameter;
   parameter.role = GetRole();
@@ -564,7 +567,11 @@ bool HandlePostCreateRegionSplit(const pb::raft::SplitRequest &request, store::R
   child_range.set_end_key(request.split_key());
   *(definition.mutable_range()) = child_range;
 
-  auto child_region = CreateNewRegion(raft_store_engine, parent_node, definition, parent_region->Id());
+  // The child region is there already when a crash interrupted this split.
+  auto child_region = store_region_meta->GetRegion(child_region_id);
+  if (child_region == nullptr) {
+    child_region = CreateNewRegion(raft_store_engine, parent_node, definition, parent_region->Id());
+  }
   if (child_region == nullptr) {
     DINGO_LOG(FATAL) << fmt::format("[split.spliting][region({}->{})] create child region failed.", parent_region_id,
                                     child_region_id);
@@ -579,15 +586,21 @@ bool HandlePostCreateRegionSplit(const pb::raft::SplitRequest &request, store::R
   pb::common::Range parent_range;
   parent_range.set_start_key(request.split_key());
   parent_range.set_end_key(old_parent_range.end_key());
-  store_region_meta->UpdateEpochVersionAndRange(parent_region, parent_region->Epoch().version() + 1, parent_range,
-                                                "split parent");
-  // store_region_meta->UpdateEpochVersionAndRange(child_region, child_region->Epoch().version() + 1, child_range,
-  //                                               "child parent");
 
   // set last split time
   parent_region->UpdateLastSplitTimestamp();
   child_region->UpdateLastSplitTimestamp();
 
+  // Set do snapshot when bootstrap
+  child_region->SetNeedBootstrapDoSnapshot(true);
+  if (parent_region->GetStoreEngineType() == pb::common::STORE_ENG_RAFT_STORE) {
+    parent_region->SetNeedBootstrapDoSnapshot(true);
+  }
+  store_region_meta->UpdateEpochVersionAndRangeAndState(
+      {{child_region, child_region->Epoch().version(), child_range, pb::common::StoreRegionState::NORMAL},
+       {parent_region, parent_region->Epoch().version() + 1, parent_range, pb::common::StoreRegionState::NORMAL}},
+      "split");
+
   DINGO_LOG(INFO) << fmt::format(
       "[split.spliting][job_id({}).region({}->{})] splited, child region({}/{}) parent region({}/{})", request.job_id(),
       parent_region->Id(), child_region->Id(), child_region->EpochToString(), child_region->RangeToString(),
@@ -597,13 +610,6 @@ bool HandlePostCreateRegionSplit(const pb::raft::SplitRequest &request, store::R
   // Do region snapshot
   LaunchAyncSaveSnapshot(parent_region);
 
-  // Set do snapshot when bootstrap
-  store_region_meta->UpdateNeedBootstrapDoSnapshot(child_region, true);
-
-  // update to NORMAL after save snapshot in SplitClosure::Run
-  store_region_meta->UpdateState(parent_region, pb::common::StoreRegionState::NORMAL);
-  store_region_meta->UpdateState(child_region, pb::common::StoreRegionState::NORMAL);
-
   if (parent_region->Type() == pb::common::RegionType::INDEX_REGION) {
 #if WITH_VECTOR_INDEX_USE_DOCUMENT_SPEEDUP
     const auto &parent_definition = parent_region->Definition();
-- 
2.43.0


From 475335559dfb7999bd2b075aed97cb50918e3621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:37 +0000
Subject: [PATCH 45/66] fix: an uninitialised variable decided whether a new
 schema gets a new id

CreateSchema takes a positive id as the caller's choice; the request handler
passed whatever the stack held.
---
 src/server/meta_service.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/meta_service.cc b/src/server/meta_service.cc
index 6d0fd1d..d0df310 100644
--- a/src/server/meta_service.cc
+++ b/src/server/meta_service.cc
@@ -631,7 +631,7 @@ void DoCreateSchema(google::protobuf::RpcController * /*controller*/, const pb::
 
   pb::coordinator_internal::MetaIncrement meta_increment;
 
-  int64_t new_schema_id;
+  int64_t new_schema_id = 0;
   auto ret =
       coordinator_control->CreateSchema(request->tenant_id(), request->schema_name(), new_schema_id, meta_increment);
   if (!ret.ok()) {
-- 
2.43.0


From 892cf024165a52ea59f7d942a60c138fa57bf2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:21 +0000
Subject: [PATCH 46/66] fix: a table made by CreateTable could not be dropped

DropTable refused tables which have a table_index, and failed for those which
have none when it looked for one.
---
 src/server/meta_service.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/server/meta_service.cc b/src/server/meta_service.cc
index d0df310..b1e8351 100644
--- a/src/server/meta_service.cc
+++ b/src/server/meta_service.cc
@@ -687,10 +687,8 @@ void DoDropTable(google::protobuf::RpcController * /*controller*/, const pb::met
     auto ret = coordinator_control->GetTableIndexes(request->table_id().parent_entity_id(),
                                                     request->table_id().entity_id(), &get_tables_response);
     if (!ret.ok()) {
-      DINGO_LOG(ERROR) << "DropTable failed in meta_service, table_id=" << request->table_id().entity_id();
-      response->mutable_error()->set_errcode(static_cast<pb::error::Errno>(ret.error_code()));
-      response->mutable_error()->set_errmsg(ret.error_str());
-      return;
+      // a table made by CreateTable has no table_index, DropTable below judges whether it can be dropped
+      DINGO_LOG(INFO) << "DropTable not a table_index, table_id=" << request->table_id().entity_id();
     }
 
     if (get_tables_response.table_definition_with_ids_size() > 0) {
-- 
2.43.0


From 53d18cb323cefcfee21b4f10cf51fc399337f4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:21 +0000
Subject: [PATCH 47/66] fix: a schema could be dropped while it still had
 indexes

The indexes left behind belong to no schema and cannot be dropped any more.
---
 src/coordinator/coordinator_control_meta.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/coordinator_control_meta.cc b/src/coordinator/coordinator_control_meta.cc
index 6eb26b0..2bb6a68 100644
--- a/src/coordinator/coordinator_control_meta.cc
+++ b/src/coordinator/coordinator_control_meta.cc
@@ -281,9 +281,10 @@ butil::Status CoordinatorControl::DropSchema(int64_t tenant_id, int64_t schema_i
       return butil::Status(pb::error::Errno::ESCHEMA_NOT_FOUND, "schema_id not found");
     }
 
-    if (schema_internal_to_delete.table_ids_size() > 0) {
+    if (schema_internal_to_delete.table_ids_size() > 0 || schema_internal_to_delete.index_ids_size() > 0) {
       DINGO_LOG(ERROR) << "ERRROR: schema is not empty" << schema_id
-                       << " table_ids_size=" << schema_internal_to_delete.table_ids_size();
+                       << " table_ids_size=" << schema_internal_to_delete.table_ids_size()
+                       << " index_ids_size=" << schema_internal_to_delete.index_ids_size();
       return butil::Status(pb::error::Errno::ESCHEMA_NOT_EMPTY, "schema is not empty");
     }
   }
-- 
2.43.0


From 1894a3cb9c1fbaec5d6da61f9885426c5260840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:21 +0000
Subject: [PATCH 48/66] fix: dropping a schema freed the name in the tenant of
 the request, not in its own

The name stayed taken in the schema's tenant, and a schema of the same name in
the other tenant lost its reservation.
---
 src/coordinator/coordinator_control_meta.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/coordinator_control_meta.cc b/src/coordinator/coordinator_control_meta.cc
index 2bb6a68..82d923d 100644
--- a/src/coordinator/coordinator_control_meta.cc
+++ b/src/coordinator/coordinator_control_meta.cc
@@ -301,7 +301,8 @@ butil::Status CoordinatorControl::DropSchema(int64_t tenant_id, int64_t schema_i
   *schema_to_delete_schema = schema_internal_to_delete;
 
   // delete schema_name from schema_name_map_safe_temp_
-  auto new_check_name = Helper::GenNewTenantCheckName(tenant_id, schema_internal_to_delete.name());
+  auto new_check_name =
+      Helper::GenNewTenantCheckName(schema_internal_to_delete.tenant_id(), schema_internal_to_delete.name());
   schema_name_map_safe_temp_.Erase(new_check_name);
 
   return butil::Status::OK();
-- 
2.43.0


From e6ef9b77029a14b8694f970b9ec60a70a208196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:21 +0000
Subject: [PATCH 49/66] fix: dropping an index of a table left it in the
 table's list of indexes

DropTables took the parent id of an index, which is its schema, for its table,
so the table could neither be read nor dropped afterwards.
---
 src/coordinator/coordinator_control.h       |  2 +-
 src/coordinator/coordinator_control_meta.cc | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/coordinator/coordinator_control.h b/src/coordinator/coordinator_control.h
index 2666d7a..a33c4ce 100644
--- a/src/coordinator/coordinator_control.h
+++ b/src/coordinator/coordinator_control.h
@@ -437,7 +437,7 @@ class CoordinatorControl : public MetaControl {
                                  pb::coordinator_internal::MetaIncrement &meta_increment);
 
   // remove table index
-  butil::Status RemoveTableIndex(int64_t table_id, int64_t index_id,
+  butil::Status RemoveTableIndex(int64_t schema_id, int64_t index_id,
                                  pb::coordinator_internal::MetaIncrement &meta_increment);
   // create store
   // in: cluster_id
diff --git a/src/coordinator/coordinator_control_meta.cc b/src/coordinator/coordinator_control_meta.cc
index 82d923d..cf012fd 100644
--- a/src/coordinator/coordinator_control_meta.cc
+++ b/src/coordinator/coordinator_control_meta.cc
@@ -3110,14 +3110,19 @@ butil::Status CoordinatorControl::DropTableIndexes(int64_t schema_id, int64_t ta
   return butil::Status::OK();
 }
 
-butil::Status CoordinatorControl::RemoveTableIndex(int64_t table_id, int64_t index_id,
+butil::Status CoordinatorControl::RemoveTableIndex(int64_t schema_id, int64_t index_id,
                                                    pb::coordinator_internal::MetaIncrement& meta_increment) {
-  auto ret = DropIndex(table_id, index_id, false, meta_increment);
+  // the parent id of the request is the schema, the index knows its table
+  pb::coordinator_internal::TableInternal index_internal;
+  index_map_.Get(index_id, index_internal);
+
+  auto ret = DropIndex(schema_id, index_id, false, meta_increment);
   if (!ret.ok()) {
-    DINGO_LOG(ERROR) << "error while dropping index, table_id: " << table_id << ", index_id: " << index_id;
+    DINGO_LOG(ERROR) << "error while dropping index, schema_id: " << schema_id << ", index_id: " << index_id;
     return ret;
   }
 
+  int64_t table_id = index_internal.table_id();
   pb::coordinator_internal::TableIndexInternal table_index_internal;
   int result = table_index_map_.Get(table_id, table_index_internal);
   if (result < 0) {
-- 
2.43.0


From 5e8b19bdb4fd723be0e6cc810d622bfc9c98dba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:00 +0000
Subject: [PATCH 50/66] fix: a request to drop several tables which failed
 freed the names of those it had passed

The tables stayed, and others of the same names could be made.
---
 src/coordinator/coordinator_control.h       |  1 +
 src/coordinator/coordinator_control_meta.cc | 16 ++++++++++++++++
 src/server/meta_service.cc                  |  1 +
 3 files changed, 18 insertions(+)

diff --git a/src/coordinator/coordinator_control.h b/src/coordinator/coordinator_control.h
index a33c4ce..814590b 100644
--- a/src/coordinator/coordinator_control.h
+++ b/src/coordinator/coordinator_control.h
@@ -341,6 +341,7 @@ class CoordinatorControl : public MetaControl {
   // delete table_name in safe_map in rollback
   butil::Status RollbackCreateTable(int64_t schema_id, const std::string &table_name);
   butil::Status RollbackCreateIndex(int64_t schema_id, const std::string &table_name);
+  void RollbackDropTables(const pb::coordinator_internal::MetaIncrement &meta_increment);
 
   // create table_id
   // in: schema_id
diff --git a/src/coordinator/coordinator_control_meta.cc b/src/coordinator/coordinator_control_meta.cc
index cf012fd..ed90a44 100644
--- a/src/coordinator/coordinator_control_meta.cc
+++ b/src/coordinator/coordinator_control_meta.cc
@@ -519,6 +519,22 @@ butil::Status CoordinatorControl::RollbackCreateIndex(int64_t schema_id, const s
   return butil::Status::OK();
 }
 
+// RollbackDropTables
+// give the names of tables and indexes back which a request has freed before it failed
+void CoordinatorControl::RollbackDropTables(const pb::coordinator_internal::MetaIncrement& meta_increment) {
+  for (const auto& deleted_table : meta_increment.deleted_tables()) {
+    const auto& table = deleted_table.table();
+    table_name_map_safe_temp_.PutIfAbsent(Helper::GenNewTableCheckName(table.schema_id(), table.definition().name()),
+                                          table.id());
+  }
+
+  for (const auto& deleted_index : meta_increment.deleted_indexes()) {
+    const auto& index = deleted_index.table();
+    index_name_map_safe_temp_.PutIfAbsent(Helper::GenNewTableCheckName(index.schema_id(), index.definition().name()),
+                                          index.id());
+  }
+}
+
 butil::Status CoordinatorControl::ValidateMaxTableCount() {
   auto table_count = table_map_.Size();
   if (table_count > FLAGS_max_table_count) {
diff --git a/src/server/meta_service.cc b/src/server/meta_service.cc
index b1e8351..cff169b 100644
--- a/src/server/meta_service.cc
+++ b/src/server/meta_service.cc
@@ -1803,6 +1803,7 @@ void DoDropTables(google::protobuf::RpcController * /*controller*/, const pb::me
     }
 
     if (!ret.ok()) {
+      coordinator_control->RollbackDropTables(meta_increment);
       DINGO_LOG(ERROR) << "drop failed, parent_entity_id: " << table_id.parent_entity_id()
                        << ", entity_id: " << table_id.entity_id();
       response->mutable_error()->set_errcode(static_cast<pb::error::Errno>(ret.error_code()));
-- 
2.43.0


From 5dd245c81f9e212b64ae2b65b9591d52d86caf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:52 +0000
Subject: [PATCH 51/66] fix: the coordinator could not start any more after a
 crash within the deletion of a job

---
 src/coordinator/coordinator_control_fsm.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coordinator/coordinator_control_fsm.cc b/src/coordinator/coordinator_control_fsm.cc
index f4368a5..86815f8 100644
--- a/src/coordinator/coordinator_control_fsm.cc
+++ b/src/coordinator/coordinator_control_fsm.cc
@@ -2438,6 +2438,11 @@ void CoordinatorControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrem
           DINGO_LOG(FATAL) << fmt::format("ApplyMetaIncrement job_id:{} DELETE, but Get failed, errcode:{}, errmsg:{}",
                                           job.job_id(), ret.error_code(), ret.error_str());
         }
+        if (temp_job.id() == 0) {
+          // the job is gone already: this entry was cut short by a crash, or an earlier entry deleted the job
+          DINGO_LOG(WARNING) << fmt::format("ApplyMetaIncrement job_id:{} DELETE, but not exists", job.job_id());
+          continue;
+        }
 
         temp_job.set_finish_time(Helper::NowTime());
         temp_job.set_status("success");
-- 
2.43.0


From d6b634097993a8764c59a223bb8bf0a4bbbe421a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:09 +0000
Subject: [PATCH 52/66] fix: a command moved to another store was back at the
 old store after a restart of the coordinator

---
 src/coordinator/coordinator_control_fsm.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coordinator/coordinator_control_fsm.cc b/src/coordinator/coordinator_control_fsm.cc
index 86815f8..7d33669 100644
--- a/src/coordinator/coordinator_control_fsm.cc
+++ b/src/coordinator/coordinator_control_fsm.cc
@@ -2303,6 +2303,10 @@ void CoordinatorControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrem
                              << ", new_store_operation_in_map=" << new_store_operation_in_map.ShortDebugString();
           }
 
+          // meta_write_kv
+          meta_write_to_kv.push_back(store_operation_meta_->TransformToKvValue(old_store_operation_residual));
+          meta_write_to_kv.push_back(store_operation_meta_->TransformToKvValue(new_store_operation_in_map));
+
           // update region_cmd's store_id
           region_cmd_internal.mutable_region_cmd()->set_store_id(new_store_id);
           auto ret1 = region_cmd_meta_->Put(region_cmd_id, region_cmd_internal);
-- 
2.43.0


From ae01ab5bf2098bc3424a54b27a169374ab47a797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:09 +0000
Subject: [PATCH 53/66] fix: a coordinator which crashed while loading a
 snapshot lost the part not yet loaded

---
 src/coordinator/coordinator_control_fsm.cc | 57 +++++++++++-----------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/src/coordinator/coordinator_control_fsm.cc b/src/coordinator/coordinator_control_fsm.cc
index 7d33669..c137e79 100644
--- a/src/coordinator/coordinator_control_fsm.cc
+++ b/src/coordinator/coordinator_control_fsm.cc
@@ -419,34 +419,6 @@ bool CoordinatorControl::LoadMetaFromSnapshotFile(pb::coordinator_internal::Meta
 
   std::vector<pb::common::KeyValue> kvs;
 
-  // 0.id_epoch map
-  kvs.reserve(meta_snapshot_file.id_epoch_map_kvs_size());
-  for (int i = 0; i < meta_snapshot_file.id_epoch_map_kvs_size(); i++) {
-    kvs.push_back(meta_snapshot_file.id_epoch_map_kvs(i));
-  }
-  {
-    // BAIDU_SCOPED_LOCK(id_epoch_map_mutex_);
-    if (!id_epoch_meta_->Recover(kvs)) {
-      return false;
-    }
-
-    // remove data in rocksdb
-    if (!meta_writer_->DeletePrefix(id_epoch_meta_->internal_prefix)) {
-      DINGO_LOG(ERROR) << "Coordinator delete id_epoch_meta_ range failed in LoadMetaFromSnapshotFile";
-      return false;
-    }
-    DINGO_LOG(INFO) << "Coordinator delete range id_epoch_meta_ success in LoadMetaFromSnapshotFile";
-
-    // write data to rocksdb
-    if (!meta_writer_->Put(kvs)) {
-      DINGO_LOG(ERROR) << "Coordinator write id_epoch_meta_ failed in LoadMetaFromSnapshotFile";
-      return false;
-    }
-    DINGO_LOG(INFO) << "Coordinator put id_epoch_meta_ success in LoadMetaFromSnapshotFile";
-  }
-  DINGO_LOG(INFO) << "LoadSnapshot id_epoch_meta, count=" << kvs.size();
-  kvs.clear();
-
   // 1.coordinator map
   kvs.reserve(meta_snapshot_file.coordinator_map_kvs_size());
   for (int i = 0; i < meta_snapshot_file.coordinator_map_kvs_size(); i++) {
@@ -948,6 +920,35 @@ bool CoordinatorControl::LoadMetaFromSnapshotFile(pb::coordinator_internal::Meta
   DINGO_LOG(INFO) << "LoadSnapshot tenant_mem_meta, count=" << kvs.size();
   kvs.clear();
 
+  // 0.id_epoch map, loaded last: it holds the applied index, a crash before all the other maps are written must not
+  // leave the index of the snapshot behind
+  kvs.reserve(meta_snapshot_file.id_epoch_map_kvs_size());
+  for (int i = 0; i < meta_snapshot_file.id_epoch_map_kvs_size(); i++) {
+    kvs.push_back(meta_snapshot_file.id_epoch_map_kvs(i));
+  }
+  {
+    // BAIDU_SCOPED_LOCK(id_epoch_map_mutex_);
+    if (!id_epoch_meta_->Recover(kvs)) {
+      return false;
+    }
+
+    // remove data in rocksdb
+    if (!meta_writer_->DeletePrefix(id_epoch_meta_->internal_prefix)) {
+      DINGO_LOG(ERROR) << "Coordinator delete id_epoch_meta_ range failed in LoadMetaFromSnapshotFile";
+      return false;
+    }
+    DINGO_LOG(INFO) << "Coordinator delete range id_epoch_meta_ success in LoadMetaFromSnapshotFile";
+
+    // write data to rocksdb
+    if (!meta_writer_->Put(kvs)) {
+      DINGO_LOG(ERROR) << "Coordinator write id_epoch_meta_ failed in LoadMetaFromSnapshotFile";
+      return false;
+    }
+    DINGO_LOG(INFO) << "Coordinator put id_epoch_meta_ success in LoadMetaFromSnapshotFile";
+  }
+  DINGO_LOG(INFO) << "LoadSnapshot id_epoch_meta, count=" << kvs.size();
+  kvs.clear();
+
   // build id_epoch, schema_name, table_name, index_name maps
   BuildTempMaps();
 
-- 
2.43.0


From a6d347910bbc8c9f68aef79698a476d67937cf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:10 +0000
Subject: [PATCH 54/66] fix: a coordinator which loaded a snapshot made before
 the first ids were taken handed out other ids than its peers

---
 src/coordinator/coordinator_control_fsm.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coordinator/coordinator_control_fsm.cc b/src/coordinator/coordinator_control_fsm.cc
index c137e79..3084989 100644
--- a/src/coordinator/coordinator_control_fsm.cc
+++ b/src/coordinator/coordinator_control_fsm.cc
@@ -949,6 +949,9 @@ bool CoordinatorControl::LoadMetaFromSnapshotFile(pb::coordinator_internal::Meta
   DINGO_LOG(INFO) << "LoadSnapshot id_epoch_meta, count=" << kvs.size();
   kvs.clear();
 
+  // set id_epoch_map_ present id, as Recover does
+  InitIds();
+
   // build id_epoch, schema_name, table_name, index_name maps
   BuildTempMaps();
 
-- 
2.43.0


From a4d501cbb990f168dbe03309278393acea7d23ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:10 +0000
Subject: [PATCH 55/66] fix: a table was listed twice in its schema after a
 crash within its creation

---
 src/coordinator/coordinator_control_fsm.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/coordinator_control_fsm.cc b/src/coordinator/coordinator_control_fsm.cc
index 3084989..1b6354d 100644
--- a/src/coordinator/coordinator_control_fsm.cc
+++ b/src/coordinator/coordinator_control_fsm.cc
@@ -14,6 +14,7 @@
 
 #include <sys/types.h>
 
+#include <algorithm>
 #include <bitset>
 #include <cstdint>
 #include <cstdlib>
@@ -1868,7 +1869,11 @@ void CoordinatorControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrem
         // auto* schema = schema_map_.seek(index.schema_id());
         if (ret1 > 0) {
           // add new created index's id to its parent schema's index_ids
-          schema_to_update.add_index_ids(index->id());
+          // (it is there already if a crash cut this entry short)
+          const auto& index_ids = schema_to_update.index_ids();
+          if (std::find(index_ids.begin(), index_ids.end(), index->id()) == index_ids.end()) {
+            schema_to_update.add_index_ids(index->id());
+          }
           auto ret2 = schema_meta_->Put(index->table().schema_id(), schema_to_update);
           if (!ret2.ok()) {
             DINGO_LOG(FATAL) << "ApplyMetaIncrement index CREATE, but schema_meta_->Put failed, [id=" << index->id()
@@ -2004,7 +2009,11 @@ void CoordinatorControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrem
         auto ret1 = schema_map_.Get(table->table().schema_id(), schema_to_update);
         if (ret1 > 0) {
           // add new created table's id to its parent schema's table_ids
-          schema_to_update.add_table_ids(table->id());
+          // (it is there already if a crash cut this entry short)
+          const auto& table_ids = schema_to_update.table_ids();
+          if (std::find(table_ids.begin(), table_ids.end(), table->id()) == table_ids.end()) {
+            schema_to_update.add_table_ids(table->id());
+          }
           auto ret1 = schema_meta_->Put(table->table().schema_id(), schema_to_update);
           if (!ret1.ok()) {
             DINGO_LOG(FATAL) << "ApplyMetaIncrement table CREATE, but schema_meta_->Put failed, [id=" << table->id()
-- 
2.43.0


From 935988d4cba91d3dfd16333fabbfdce347a18633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:38 +0000
Subject: [PATCH 56/66] fix: a coordinator which crashed while applying the
 failure of a command counted it twice

The job was written before the applied index, so the entry was applied again
on top of its own result. The jobs are now written with the applied index.
---
 src/coordinator/coordinator_control.h       |  4 ++-
 src/coordinator/coordinator_control_coor.cc | 32 ++++++++++--------
 src/coordinator/coordinator_control_fsm.cc  | 37 ++++++++++++---------
 3 files changed, 43 insertions(+), 30 deletions(-)

diff --git a/src/coordinator/coordinator_control.h b/src/coordinator/coordinator_control.h
index 814590b..e3b2e0e 100644
--- a/src/coordinator/coordinator_control.h
+++ b/src/coordinator/coordinator_control.h
@@ -911,7 +911,9 @@ class CoordinatorControl : public MetaControl {
   butil::Status UpdateTaskStatus(int64_t job_id, int64_t region_cmd_id, pb::coordinator::RegionCmdStatus status,
                                  pb::error::Error error, pb::coordinator_internal::MetaIncrement &meta_increment);
 
-  butil::Status UpdateJobProcess(const pb::coordinator_internal::MetaIncrementJob &job);
+  butil::Status UpdateJobProcess(const pb::coordinator_internal::MetaIncrementJob &job,
+                                 std::vector<pb::common::KeyValue> &meta_write_to_kv,
+                                 std::vector<std::string> &meta_delete_to_kv);
 
   bool MoveRegionCmdInStoreOperation(pb::coordinator::Job &job, int64_t new_store_id, int64_t region_cmd_id);
 
diff --git a/src/coordinator/coordinator_control_coor.cc b/src/coordinator/coordinator_control_coor.cc
index 1301507..998f135 100644
--- a/src/coordinator/coordinator_control_coor.cc
+++ b/src/coordinator/coordinator_control_coor.cc
@@ -6430,7 +6430,9 @@ void CoordinatorControl::UpdateJobNextStep(pb::coordinator::Job& job, pb::coordi
   job.set_next_step(job.next_step() + 1);
 }
 
-butil::Status CoordinatorControl::UpdateJobProcess(const pb::coordinator_internal::MetaIncrementJob& job) {
+butil::Status CoordinatorControl::UpdateJobProcess(const pb::coordinator_internal::MetaIncrementJob& job,
+                                                   std::vector<pb::common::KeyValue>& meta_write_to_kv,
+                                                   std::vector<std::string>& meta_delete_to_kv) {
   pb::coordinator::Job temp_job;
   int ret = job_map_.Get(job.job_id(), temp_job);
   if (ret <= 0) {
@@ -6450,11 +6452,12 @@ butil::Status CoordinatorControl::UpdateJobProcess(const pb::coordinator_interna
     }
 
     temp_job.set_update_time(Helper::NowTime());
-    auto ret1 = job_meta_->Put(job.job_id(), temp_job);
-    if (!ret1.ok()) {
-      DINGO_LOG(FATAL) << fmt::format("[joblist] job MODIFY, but Put job_id:{} failed, errcode:{}, errmsg:{}, job:{}",
-                                      job.job_id(), ret1.error_code(), ret1.error_str(), temp_job.ShortDebugString());
+    int ret1 = job_map_.Put(job.job_id(), temp_job);
+    if (ret1 < 0) {
+      DINGO_LOG(FATAL) << fmt::format("[joblist] job MODIFY, but Put job_id:{} failed, ret:{}, job:{}", job.job_id(),
+                                      ret1, temp_job.ShortDebugString());
     }
+    meta_write_to_kv.push_back(job_meta_->TransformToKvValue(temp_job));
     return butil::Status::OK();
   }
 
@@ -6493,13 +6496,13 @@ butil::Status CoordinatorControl::UpdateJobProcess(const pb::coordinator_interna
               job.job_id(), ret.error_code(), ret.error_str());
         }
 
-        ret = job_meta_->Erase(job.job_id());
-        if (!ret.ok()) {
+        int ret1 = job_map_.Erase(job.job_id());
+        if (ret1 < 0) {
           DINGO_LOG(FATAL) << fmt::format(
-              "[joblist] job deletion caused by retry times exceeded, but Delete job_id:{} "
-              "failed, errcode:{}, errmsg:{}",
-              job.job_id(), ret.error_code(), ret.error_str());
+              "[joblist] job deletion caused by retry times exceeded, but Delete job_id:{} failed, ret:{}",
+              job.job_id(), ret1);
         }
+        meta_delete_to_kv.push_back(job_meta_->TransformToKvValue(temp_job).key());
 
         DINGO_LOG(INFO) << fmt::format(
             "[joblist] job deletion caused by retry times exceeded, delete job_id:{} success", job.job_id());
@@ -6520,11 +6523,12 @@ butil::Status CoordinatorControl::UpdateJobProcess(const pb::coordinator_interna
   }
 
   temp_job.set_update_time(Helper::NowTime());
-  auto ret1 = job_meta_->Put(job.job_id(), temp_job);
-  if (!ret1.ok()) {
-    DINGO_LOG(FATAL) << fmt::format("[joblist] job MODIFY, but Put job_id:{} failed, errcode:{}, errmsg:{}, job:{}",
-                                    job.job_id(), ret1.error_code(), ret1.error_str(), temp_job.ShortDebugString());
+  int ret1 = job_map_.Put(job.job_id(), temp_job);
+  if (ret1 < 0) {
+    DINGO_LOG(FATAL) << fmt::format("[joblist] job MODIFY, but Put job_id:{} failed, ret:{}, job:{}", job.job_id(),
+                                    ret1, temp_job.ShortDebugString());
   }
+  meta_write_to_kv.push_back(job_meta_->TransformToKvValue(temp_job));
 
   return butil::Status::OK();
 }
diff --git a/src/coordinator/coordinator_control_fsm.cc b/src/coordinator/coordinator_control_fsm.cc
index 1b6354d..1b2be6d 100644
--- a/src/coordinator/coordinator_control_fsm.cc
+++ b/src/coordinator/coordinator_control_fsm.cc
@@ -2431,21 +2431,26 @@ void CoordinatorControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrem
       const auto& job = meta_increment.jobs(i);
 
       if (job.op_type() == pb::coordinator_internal::MetaIncrementOpType::CREATE) {
-        auto ret = job_meta_->Put(job.job_id(), job.job());
-        if (!ret.ok()) {
-          DINGO_LOG(FATAL) << fmt::format(
-              "ApplyMetaIncrement job CREATE, but Put failed, job_id:{}, errcode:{}, errmsg:{}", job.job_id(),
-              ret.error_code(), ret.error_str());
+        int ret = job_map_.Put(job.job_id(), job.job());
+        if (ret < 0) {
+          DINGO_LOG(FATAL) << fmt::format("ApplyMetaIncrement job_id:{} CREATE, but Put failed, ret:{}", job.job_id(),
+                                          ret);
         }
 
+        // meta_write_kv
+        meta_write_to_kv.push_back(job_meta_->TransformToKvValue(job.job()));
+
         DINGO_LOG(INFO) << fmt::format("ApplyMetaIncrement job_id:{} CREATE, success", job.job_id());
       } else if (job.op_type() == pb::coordinator_internal::MetaIncrementOpType::UPDATE) {
-        auto ret = job_meta_->Put(job.job_id(), job.job());
-        if (!ret.ok()) {
-          DINGO_LOG(FATAL) << fmt::format("ApplyMetaIncrement job_id:{} UPDATE, but Put failed, errcode:{}, errmsg:{}",
-                                          job.job_id(), ret.error_code(), ret.error_str());
+        int ret = job_map_.Put(job.job_id(), job.job());
+        if (ret < 0) {
+          DINGO_LOG(FATAL) << fmt::format("ApplyMetaIncrement job_id:{} UPDATE, but Put failed, ret:{}", job.job_id(),
+                                          ret);
         }
 
+        // meta_write_kv
+        meta_write_to_kv.push_back(job_meta_->TransformToKvValue(job.job()));
+
         DINGO_LOG(INFO) << fmt::format("ApplyMetaIncrement job_id:{} UPDATE, success", job.job_id());
       } else if (job.op_type() == pb::coordinator_internal::MetaIncrementOpType::DELETE) {
         // archive task list
@@ -2470,16 +2475,18 @@ void CoordinatorControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrem
               ret.error_code(), ret.error_str());
         }
 
-        ret = job_meta_->Erase(job.job_id());
-        if (!ret.ok()) {
-          DINGO_LOG(FATAL) << fmt::format(
-              "ApplyMetaIncrement job_id:{} DELETE, but Delete failed, errcode:{}, errmsg:{}", job.job_id(),
-              ret.error_code(), ret.error_str());
+        int ret1 = job_map_.Erase(job.job_id());
+        if (ret1 < 0) {
+          DINGO_LOG(FATAL) << fmt::format("ApplyMetaIncrement job_id:{} DELETE, but Delete failed, ret:{}",
+                                          job.job_id(), ret1);
         }
 
+        // meta_delete_kv
+        meta_delete_to_kv.push_back(job_meta_->TransformToKvValue(temp_job).key());
+
         DINGO_LOG(INFO) << fmt::format("ApplyMetaIncrement job_id:{} DELETE, success", job.job_id());
       } else if (job.op_type() == pb::coordinator_internal::MetaIncrementOpType::MODIFY) {
-        auto status = UpdateJobProcess(job);
+        auto status = UpdateJobProcess(job, meta_write_to_kv, meta_delete_to_kv);
         if (!status.ok()) {
           DINGO_LOG(ERROR) << fmt::format("ApplyMetaIncrement UpdateJobProcess failed, error:{}",
                                           Helper::PrintStatus(status));
-- 
2.43.0


From 1a3fa8e8f0d7d412db232c1790b3bebde4af6e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:38 +0000
Subject: [PATCH 57/66] fix: deleting a merged region hid the region which
 holds its start key now from ScanRegions

---
 src/coordinator/coordinator_control_fsm.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/coordinator/coordinator_control_fsm.cc b/src/coordinator/coordinator_control_fsm.cc
index 1b2be6d..e87e0c6 100644
--- a/src/coordinator/coordinator_control_fsm.cc
+++ b/src/coordinator/coordinator_control_fsm.cc
@@ -1630,9 +1630,24 @@ void CoordinatorControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrem
 
         // update range_region_map_
         // range_region_map_.Erase(region.region().definition().range().start_key());
-        region_start_key_to_delete.push_back(old_region.definition().range().start_key());
-        DINGO_LOG(INFO) << "erase range_region_map_ success, region_id=[" << region->region().id() << "], start_key=["
-                        << Helper::StringToHex(old_region.definition().range().start_key()) << "]";
+        // unless the start_key belongs to another region by now
+        const auto& old_start_key = old_region.definition().range().start_key();
+        pb::coordinator_internal::RegionInternal region_for_old_start_key;
+        int ret2 = range_region_map_.Get(old_start_key, region_for_old_start_key);
+        bool is_other_region = ret2 > 0 && region_for_old_start_key.id() != region->id();
+        for (size_t j = 0; j < region_start_key_to_write.size(); j++) {
+          if (region_start_key_to_write[j] == old_start_key) {
+            is_other_region = region_start_key_internal_to_write[j].id() != region->id();
+          }
+        }
+        if (!is_other_region) {
+          region_start_key_to_delete.push_back(old_start_key);
+          DINGO_LOG(INFO) << "erase range_region_map_ success, region_id=[" << region->region().id()
+                          << "], start_key=[" << Helper::StringToHex(old_start_key) << "]";
+        } else {
+          DINGO_LOG(INFO) << "erase range_region_map_ skipped, region_id=[" << region->region().id()
+                          << "], start_key=[" << Helper::StringToHex(old_start_key) << "]";
+        }
 
         // add event_list
         pb::meta::MetaEvent event;
-- 
2.43.0


From 607a7478664d9c51f8a71b84e3e5b85ee70de856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:38 +0000
Subject: [PATCH 58/66] fix: a merged region hid its target from ScanRegions
 after a leader change of the coordinator

---
 src/coordinator/coordinator_control_fsm.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coordinator/coordinator_control_fsm.cc b/src/coordinator/coordinator_control_fsm.cc
index e87e0c6..3d1b528 100644
--- a/src/coordinator/coordinator_control_fsm.cc
+++ b/src/coordinator/coordinator_control_fsm.cc
@@ -122,6 +122,10 @@ void CoordinatorControl::BuildTempMaps() {
     region_map_copy.init(10000);
     region_map_.GetRawMapCopy(region_map_copy);
     for (const auto& it : region_map_copy) {
+      // a merged region has no range any more
+      if (it.second.definition().range().start_key() >= it.second.definition().range().end_key()) {
+        continue;
+      }
       range_region_map_.Put(it.second.definition().range().start_key(), it.second);
     }
   }
-- 
2.43.0


From b82f369ec0e49921f2439c42cab77a2a84fc368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:57 +0000
Subject: [PATCH 59/66] fix: a new leader of the coordinator could hide the
 child of a split from ScanRegions

When the child was reported and the parent was not yet, both have the same
start key, and the new leader may have the parent at this key. The report of
the parent removed the key then.
---
 src/coordinator/coordinator_control_fsm.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/coordinator/coordinator_control_fsm.cc b/src/coordinator/coordinator_control_fsm.cc
index 3d1b528..21c5ef4 100644
--- a/src/coordinator/coordinator_control_fsm.cc
+++ b/src/coordinator/coordinator_control_fsm.cc
@@ -1689,6 +1689,23 @@ void CoordinatorControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrem
       }
     }
 
+    // while a split is reported two regions have the same start_key, the one which keeps it takes it over
+    for (const auto& start_key : region_start_key_to_delete_for_update) {
+      if (std::find(region_start_key_to_write.begin(), region_start_key_to_write.end(), start_key) !=
+          region_start_key_to_write.end()) {
+        continue;
+      }
+      std::vector<pb::coordinator_internal::RegionInternal> regions;
+      region_map_.GetAllValues(regions, [&start_key](const pb::coordinator_internal::RegionInternal& region) {
+        const auto& range = region.definition().range();
+        return range.start_key() == start_key && range.start_key() < range.end_key();
+      });
+      if (!regions.empty()) {
+        region_start_key_to_write.push_back(start_key);
+        region_start_key_internal_to_write.push_back(regions.front());
+      }
+    }
+
     if (!region_start_key_to_delete_for_update.empty() || !region_start_key_to_write.empty()) {
       auto ret = range_region_map_.MultiEraseThenPut(region_start_key_to_delete_for_update, region_start_key_to_write,
                                                      region_start_key_internal_to_write);
-- 
2.43.0


From c1c66e2bdb7958c9e1912e587e609ec967f180b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:08 +0000
Subject: [PATCH 60/66] fix: a split waited forever for the parent on a store
 which does not hold it any more

The peers of the parent were taken from the metrics of the region, which a late
heartbeat may have set back.
---
 src/coordinator/coordinator_control_coor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinator/coordinator_control_coor.cc b/src/coordinator/coordinator_control_coor.cc
index 998f135..66cf6f4 100644
--- a/src/coordinator/coordinator_control_coor.cc
+++ b/src/coordinator/coordinator_control_coor.cc
@@ -2875,7 +2875,7 @@ butil::Status CoordinatorControl::SplitRegionWithJob(int64_t split_from_region_i
   }
 
   auto* check_parent_region_task = new_job->add_tasks();
-  for (const auto& peer : region_metrics.region_definition().peers()) {
+  for (const auto& peer : split_from_region.definition().peers()) {
     AddCheckSplitParentRegionTask(check_parent_region_task, peer.store_id(), split_from_region_id);
   }
 
-- 
2.43.0


From bcce663dedd9f6bf40094757c99a9de76db99a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:08 +0000
Subject: [PATCH 61/66] fix: a split was taken for finished before the peers of
 the parent had made the child

With store_create_region the job had no check of the result, and a change of
peers which followed could remove a peer of the parent before it had split: the
child had no replica at this store then.
---
 src/coordinator/coordinator_control_coor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/coordinator_control_coor.cc b/src/coordinator/coordinator_control_coor.cc
index 66cf6f4..f366c0a 100644
--- a/src/coordinator/coordinator_control_coor.cc
+++ b/src/coordinator/coordinator_control_coor.cc
@@ -2885,8 +2885,8 @@ butil::Status CoordinatorControl::SplitRegionWithJob(int64_t split_from_region_i
 
   // check if split_to_region'state change to NORMAL, this state change means split is fininshed.
   auto* check_split_result_task = new_job->add_tasks();
-  for (const auto& it : store_operations) {
-    AddCheckSplitResultTask(check_split_result_task, it.store_id(), new_region_id);
+  for (const auto& peer : split_from_region.definition().peers()) {
+    AddCheckSplitResultTask(check_split_result_task, peer.store_id(), new_region_id);
   }
 
   return butil::Status::OK();
-- 
2.43.0


From 3d2beab0fc8009cc37ef1a322237ca00f3ea8c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:21 +0000
Subject: [PATCH 62/66] fix: a split whose answer was lost was never sent again
 and its job stayed forever

The command was only sent while the child was STANDBY. When the store had
carried it out and its answer did not arrive, the heartbeats reported the child
NORMAL and the job could neither send the command again nor go on. That the
child stands by is checked at all peers by the task before, and by the store.
---
 src/coordinator/coordinator_control_coor.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/coordinator/coordinator_control_coor.cc b/src/coordinator/coordinator_control_coor.cc
index f366c0a..b3f2806 100644
--- a/src/coordinator/coordinator_control_coor.cc
+++ b/src/coordinator/coordinator_control_coor.cc
@@ -5304,12 +5304,6 @@ void CoordinatorControl::AddSplitTask(pb::coordinator::Job* job, int64_t store_i
   // generate store operation for stores
   auto* store_operation_split = split_region_task->add_store_operations();
   store_operation_split->set_store_id(store_id);
-  if (!store_create_region) {
-    auto* region_check = store_operation_split->mutable_pre_check();
-    region_check->set_type(pb::coordinator::TaskPreCheckType::REGION_CHECK);
-    region_check->mutable_region_check()->set_region_id(split_to_region_id);
-    region_check->mutable_region_check()->set_state(::dingodb::pb::common::RegionState::REGION_STANDBY);
-  }
 
   auto* region_cmd_to_add = store_operation_split->add_region_cmds();
 
-- 
2.43.0


From 75c0840b663e3fc41c28b1fd1f93f568c9123a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:10 +0000
Subject: [PATCH 63/66] fix: the next prefix ends at the incremented byte

PrefixNext turned "a\xff" into "b\x00", so a range up to the end of the
prefix "a\xff" also held the key "b": a scan, a delete range or a count
with with_end reached a key after its end, and one without with_start left
out the key "b" which is not in the prefix.
---
 src/common/helper.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/helper.cc b/src/common/helper.cc
index 414b71c..82045bf 100644
--- a/src/common/helper.cc
+++ b/src/common/helper.cc
@@ -417,7 +417,8 @@ std::string Helper::PrefixNext(const std::string& input) {
   int carry = 1;
   for (int i = input.size() - 1; i >= 0; --i) {
     if (static_cast<uint8_t>(input[i]) == (uint8_t)0xFF && carry == 1) {
-      ret[i] = 0;
+      // the bytes after the incremented one are cut, "a\xff" is followed by "b", not by "b\x00"
+      ret.pop_back();
     } else {
       ret[i] = (input[i] + carry);
       carry = 0;
@@ -432,7 +433,8 @@ std::string Helper::PrefixNext(const std::string_view& input) {
   int carry = 1;
   for (int i = input.size() - 1; i >= 0; --i) {
     if (static_cast<uint8_t>(input[i]) == (uint8_t)0xFF && carry == 1) {
-      ret[i] = 0;
+      // the bytes after the incremented one are cut, "a\xff" is followed by "b", not by "b\x00"
+      ret.pop_back();
     } else {
       ret[i] = (input[i] + carry);
       carry = 0;
-- 
2.43.0


From 4a19f6f2b52a094bb6e10b4f17a46286a2d3ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:10 +0000
Subject: [PATCH 64/66] fix: cutting the timestamp out of a document key takes
 keys of any length

DocumentCodec::TruncateKeyForTs(std::string_view) asked for 88 bytes, keys
of documents have 35, so any key aborted the process. The other overload
and the vector codec ask for 8.
---
 src/document/codec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document/codec.cc b/src/document/codec.cc
index 0f604a6..c911d58 100644
--- a/src/document/codec.cc
+++ b/src/document/codec.cc
@@ -271,7 +271,7 @@ int64_t DocumentCodec::TruncateKeyForTs(const std::string& encode_key_with_ts) {
 }
 
 int64_t DocumentCodec::TruncateKeyForTs(const std::string_view& encode_key_with_ts) {
-  CHECK(encode_key_with_ts.size() >= 88) << fmt::format("Key({}) is invalid.", Helper::StringToHex(encode_key_with_ts));
+  CHECK(encode_key_with_ts.size() >= 8) << fmt::format("Key({}) is invalid.", Helper::StringToHex(encode_key_with_ts));
 
   auto ts_str = encode_key_with_ts.substr(encode_key_with_ts.size() - 8, encode_key_with_ts.size());
 
-- 
2.43.0


From c4beffe9349f0f4350dfe58c43a60fe9481cf1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:10 +0000
Subject: [PATCH 65/66] fix: decoding bytes refuses what is no encoding

DecodeBytes read before the first byte of an empty input, threw
std::out_of_range when a marker said more than a group of padding, and
answered true for bytes which go on after the padded group, which then are
missing from the decoded key.
---
 src/mvcc/codec.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mvcc/codec.cc b/src/mvcc/codec.cc
index a790c3a..6ce4c27 100644
--- a/src/mvcc/codec.cc
+++ b/src/mvcc/codec.cc
@@ -78,7 +78,7 @@ bool Codec::DecodeBytes(const std::string& encode_key, std::string& output) {
 }
 
 bool Codec::DecodeBytes(const std::string_view& encode_key, std::string& output) {
-  if (encode_key.length() % kPadGroupSize != 0 || encode_key.back() == '\xff') {
+  if (encode_key.empty() || encode_key.length() % kPadGroupSize != 0 || encode_key.back() == '\xff') {
     return false;
   }
 
@@ -91,6 +91,11 @@ bool Codec::DecodeBytes(const std::string_view& encode_key, std::string& output)
     uint8_t marker = encode_key.at(i + 8);
 
     int pad_count = kMarker - marker;
+    if (pad_count > kGroupSize || (pad_count != 0 && i + kPadGroupSize != encode_key.size())) {
+      // no marker, or padding before the last group
+      return false;
+    }
+
     for (int j = 0; j < kGroupSize - pad_count; ++j) {
       output.push_back(encode_key.at(i++));
     }
-- 
2.43.0


From 2004d58aa4bd96c871cb9fab33c630da9c0f6280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:17 +0000
Subject: [PATCH 66/66] fix: a region whose range is not known yet is not
 merged

A region made for a split is registered with the range [max key, start of
the parent) until a heartbeat brings its range. Once a heartbeat which only
tells its state had ended the split, a merge of the region was accepted,
waited for the target to get that range, and kept its job and both regions
busy forever.
---
 src/coordinator/coordinator_control_coor.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/coordinator/coordinator_control_coor.cc b/src/coordinator/coordinator_control_coor.cc
index b3f2806..4fba1c2 100644
--- a/src/coordinator/coordinator_control_coor.cc
+++ b/src/coordinator/coordinator_control_coor.cc
@@ -3014,6 +3014,13 @@ butil::Status CoordinatorControl::MergeRegionWithJob(int64_t merge_from_region_i
                          "merge_to_region has different part_id");
   }
 
+  // the child of a split has no valid range until its leader has reported the one it got
+  if (Helper::InvalidRange(merge_from_region.definition().range()) ||
+      Helper::InvalidRange(merge_to_region.definition().range())) {
+    return butil::Status(pb::error::Errno::EMERGE_RANGE_NOT_MATCH,
+                         "MergeRegion merge_from_region or merge_to_region has no valid range yet");
+  }
+
   // validate merge_from_region and merge_to_region has continuous range
   pb::common::Range new_range;
   bool range_match = false;
-- 
2.43.0

