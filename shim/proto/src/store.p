pkg store
imp common error stream
enum IsolationLevel { InvalidIsolationLevel; SnapshotIsolation; ReadCommitted; }
enum Op { None; Put; Delete; Rollback; Lock; PutIfAbsent; CheckNotExists; }
enum Action { NoAction; TTLExpireRollback; LockNotExistRollback; MinCommitTSPushed; TTLExpirePessimisticRollback; LockNotExistDoNothing; }
message Context { int64 region_id; dingodb.pb.common.RegionEpoch region_epoch; IsolationLevel isolation_level; repeated int64 resolved_locks; repeated int64 committed_locks_x; bool is_background_x; int32 priority_x; }
message TxnLockKey { bytes key; }
message LockInfo { bytes primary_lock; int64 lock_ts; int64 for_update_ts; bytes key; int64 lock_ttl; int64 txn_size; Op lock_type; bytes short_value; bytes extra_data; int64 min_commit_ts; bool use_async_commit; repeated bytes secondaries; bytes x; bool is_pessimistic_x; }
message TxnLockValue { LockInfo lock_info; }
message WriteInfo { int64 start_ts; Op op; bytes short_value; }
message TxnWriteKey { bytes key; int64 commit_ts; }
message TxnWriteValue { WriteInfo write_info; }
message TxnDataKey { bytes key; int64 start_ts; }
message TxnDataValue { bytes value; }
message TxnWriteKeyX { bytes key; }
message WriteConflict { enum Reason { Unknown; Optimistic; PessimisticRetry; SelfRolledBack; RcCheckTs; } Reason reason; int64 start_ts; int64 conflict_ts; bytes key; bytes primary_key; }
message AlreadyExist { bytes key; }
message TxnNotFound { int64 start_ts; bytes primary_key; bytes key; }
message CommitTsExpired { int64 start_ts; int64 attempted_commit_ts; bytes key; int64 min_commit_ts; }
message PrimaryMismatch { LockInfo lock_info; bytes key_x; }
message TxnResultInfo { LockInfo locked; WriteConflict write_conflict; TxnNotFound txn_not_found; PrimaryMismatch primary_mismatch; CommitTsExpired commit_ts_expired; AlreadyExist already_exist_x; string abort; }
message MutationX { int32 x; }
message Mutation { Op op; bytes key; bytes value; dingodb.pb.common.VectorWithId vector; dingodb.pb.common.DocumentWithId document; }
message PessimisticCheckX { int32 x; }
message PessimisticCheck0 { int32 x; }
message Coprocessor { int32 schema_version; SchemaWrapper original_schema; SchemaWrapper result_schema; repeated int32 selection_columns; bytes expression; repeated int32 group_by_columns; repeated AggregationOperator aggregation_operators; message SchemaWrapper { int64 common_id; repeated dingodb.pb.common.Schema schema; } }
message AggregationOperator { enum AggregationType { AGGREGATION_NONE; SUM; COUNT; COUNTWITHNULL; MAX; MIN; SUM0; } AggregationType oper; int32 index_of_column; }
message KvGetRequest { dingodb.pb.common.RequestInfo request_info; Context context; bytes key; int64 ts; }
message KvGetResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; bytes value; int64 ts; }
message KvBatchGetRequest { dingodb.pb.common.RequestInfo request_info; Context context; repeated bytes keys; int64 ts; }
message KvBatchGetResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated dingodb.pb.common.KeyValue kvs; int64 ts; }
message KvPutRequest { dingodb.pb.common.RequestInfo request_info; Context context; dingodb.pb.common.KeyValue kv; int64 ttl; }
message KvPutResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 ts; }
message KvBatchPutRequest { dingodb.pb.common.RequestInfo request_info; Context context; repeated dingodb.pb.common.KeyValue kvs; int64 ttl; }
message KvBatchPutResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 ts; }
message KvPutIfAbsentRequest { dingodb.pb.common.RequestInfo request_info; Context context; dingodb.pb.common.KeyValue kv; int64 ttl; }
message KvPutIfAbsentResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; bool key_state; int64 ts; }
message KvBatchPutIfAbsentRequest { dingodb.pb.common.RequestInfo request_info; Context context; repeated dingodb.pb.common.KeyValue kvs; bool is_atomic; int64 ttl; }
message KvBatchPutIfAbsentResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated bool key_states; int64 ts; }
message KvBatchDeleteRequest { dingodb.pb.common.RequestInfo request_info; Context context; repeated bytes keys; }
message KvBatchDeleteResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated bool key_states; int64 ts; }
message KvDeleteRangeRequest { dingodb.pb.common.RequestInfo request_info; Context context; dingodb.pb.common.RangeWithOptions range; }
message KvDeleteRangeResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 delete_count; int64 ts; }
message KvCompareAndSetRequest { dingodb.pb.common.RequestInfo request_info; Context context; dingodb.pb.common.KeyValue kv; bytes expect_value; bool is_delete_x; int64 ttl; }
message KvCompareAndSetResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; bool key_state; int64 ts; }
message KvBatchCompareAndSetRequest { dingodb.pb.common.RequestInfo request_info; Context context; repeated dingodb.pb.common.KeyValue kvs; repeated bytes expect_values; bool is_atomic; int64 ttl; }
message KvBatchCompareAndSetResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated bool key_states; int64 ts; }
message KvScanBeginRequest { dingodb.pb.common.RequestInfo request_info; Context context; dingodb.pb.common.RangeWithOptions range; int64 max_fetch_cnt; bool key_only; bool disable_auto_release; bool disable_coprocessor; Coprocessor coprocessor; int64 ts; }
message KvScanBeginResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated dingodb.pb.common.KeyValue kvs; bytes scan_id; }
message KvScanContinueRequest { dingodb.pb.common.RequestInfo request_info; Context context; bytes scan_id; int64 max_fetch_cnt; }
message KvScanContinueResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated dingodb.pb.common.KeyValue kvs; }
message KvScanReleaseRequest { dingodb.pb.common.RequestInfo request_info; Context context; bytes scan_id; }
message KvScanReleaseResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message KvScanBeginRequestV2 { dingodb.pb.common.RequestInfo request_info; Context context; dingodb.pb.common.RangeWithOptions range; int64 max_fetch_cnt; bool key_only; bool disable_auto_release; dingodb.pb.common.CoprocessorV2 coprocessor; int64 scan_id; int64 ts; }
message KvScanBeginResponseV2 { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated dingodb.pb.common.KeyValue kvs; int64 scan_id; }
message KvScanContinueRequestV2 { dingodb.pb.common.RequestInfo request_info; Context context; int64 scan_id; int64 max_fetch_cnt; }
message KvScanContinueResponseV2 { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated dingodb.pb.common.KeyValue kvs; bool has_more; }
message KvScanReleaseRequestV2 { dingodb.pb.common.RequestInfo request_info; Context context; int64 scan_id; }
message KvScanReleaseResponseV2 { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message TxnGetRequest { dingodb.pb.common.RequestInfo request_info; Context context; bytes key; int64 start_ts; }
message TxnGetResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; TxnResultInfo txn_result; bytes value; dingodb.pb.common.VectorWithId vector; dingodb.pb.common.DocumentWithId document; }
message StreamReqX { int32 x; }
message TxnScanRequest { dingodb.pb.common.RequestInfo request_info; Context context; dingodb.pb.common.RangeWithOptions range; int64 limit; int64 start_ts; bool is_reverse; bool key_only; dingodb.pb.common.CoprocessorV2 coprocessor; int64 end_ts_x; dingodb.pb.stream.StreamRequestMeta stream_meta; }
message TxnScanResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; TxnResultInfo txn_result; repeated dingodb.pb.common.KeyValue kvs; repeated dingodb.pb.common.VectorWithId vectors; repeated dingodb.pb.common.DocumentWithId documents; bool has_more; bytes end_key; dingodb.pb.stream.StreamResponseMeta stream_meta; }
message TxnPessimisticLockRequest { dingodb.pb.common.RequestInfo request_info; Context context; repeated Mutation mutations; bytes primary_lock; int64 start_ts; int64 lock_ttl; int64 for_update_ts; bool is_first_lock_x; bool return_values; bytes lock_extra_x; }
message TxnPessimisticLockResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated TxnResultInfo txn_result; repeated dingodb.pb.common.KeyValue kvs; repeated dingodb.pb.common.VectorWithId vector; repeated dingodb.pb.common.DocumentWithId documents; }
message TxnPessimisticRollbackRequest { dingodb.pb.common.RequestInfo request_info; Context context; int64 start_ts; int64 for_update_ts; repeated bytes keys; }
message TxnPessimisticRollbackResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated TxnResultInfo txn_result; }
message TxnPrewriteRequest { enum PessimisticCheck { SKIP_PESSIMISTIC_CHECK; DO_PESSIMISTIC_CHECK; } message ForUpdateTsCheck { int32 index; int64 expected_for_update_ts; } message LockExtraData { int32 index; bytes extra_data; }
 dingodb.pb.common.RequestInfo request_info; Context context; repeated Mutation mutations; bytes primary_lock; int64 start_ts; int64 lock_ttl; int64 txn_size; bool try_one_pc; int64 max_commit_ts; repeated PessimisticCheck pessimistic_checks; repeated ForUpdateTsCheck for_update_ts_checks; repeated LockExtraData lock_extra_datas; int64 min_commit_ts; bool use_async_commit; repeated bytes secondaries; int64 for_update_ts_x; }
message TxnPrewriteResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated TxnResultInfo txn_result; repeated AlreadyExist keys_already_exist; int64 one_pc_commit_ts; int64 min_commit_ts; }
message TxnCommitRequest { dingodb.pb.common.RequestInfo request_info; Context context; int64 start_ts; repeated bytes keys; int64 commit_ts; }
message TxnCommitResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; TxnResultInfo txn_result; int64 commit_ts; }
message TxnCheckTxnStatusRequest { dingodb.pb.common.RequestInfo request_info; Context context; bytes primary_key; int64 lock_ts; int64 caller_start_ts; int64 current_ts; bool force_sync_commit; bool rollback_if_not_exist; }
message TxnCheckTxnStatusResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; TxnResultInfo txn_result; int64 lock_ttl; int64 commit_ts; Action action; LockInfo lock_info; }
message TxnCheckSecondaryLocksRequest { dingodb.pb.common.RequestInfo request_info; Context context; repeated bytes keys; int64 start_ts; }
message TxnCheckSecondaryLocksResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; TxnResultInfo txn_result; repeated LockInfo locks; int64 commit_ts; }
message TxnResolveLockRequest { dingodb.pb.common.RequestInfo request_info; Context context; int64 start_ts; int64 commit_ts; repeated bytes keys; repeated TxnInfo txn_infos; }
message TxnResolveLockResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; TxnResultInfo txn_result; }
message TxnBatchGetRequest { dingodb.pb.common.RequestInfo request_info; Context context; repeated bytes keys; int64 start_ts; }
message TxnBatchGetResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; TxnResultInfo txn_result; repeated dingodb.pb.common.KeyValue kvs; repeated dingodb.pb.common.VectorWithId vectors; repeated dingodb.pb.common.DocumentWithId documents; }
message TxnBatchRollbackRequest { dingodb.pb.common.RequestInfo request_info; Context context; int64 start_ts; repeated bytes keys; }
message TxnBatchRollbackResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; TxnResultInfo txn_result; }
message TxnScanLockRequest { dingodb.pb.common.RequestInfo request_info; Context context; int64 max_ts; bytes start_key; bytes end_key; int64 limit; dingodb.pb.stream.StreamRequestMeta stream_meta; }
message TxnScanLockResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; TxnResultInfo txn_result; repeated LockInfo locks; bool has_more; bytes end_key; dingodb.pb.stream.StreamResponseMeta stream_meta; }
message TxnHeartBeatRequest { dingodb.pb.common.RequestInfo request_info; Context context; bytes primary_lock; int64 start_ts; int64 advise_lock_ttl; }
message TxnHeartBeatResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; TxnResultInfo txn_result; int64 lock_ttl; }
message TxnGcRequest { dingodb.pb.common.RequestInfo request_info; Context context; int64 safe_point_ts; }
message TxnGcResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; TxnResultInfo txn_result; }
message TxnDeleteRangeRequest { dingodb.pb.common.RequestInfo request_info; Context context; bytes start_key; bytes end_key; }
message TxnDeleteRangeResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message TxnDumpRequest { dingodb.pb.common.RequestInfo request_info; Context context; bytes start_key; bytes end_key; int64 start_ts; int64 end_ts; }
message TxnDumpResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; TxnResultInfo txn_result; repeated TxnDataKey data_keys; repeated TxnDataValue data_values; repeated TxnLockKey lock_keys; repeated TxnLockValue lock_values; repeated TxnWriteKey write_keys; repeated TxnWriteValue write_values; }
message HelloRequest { int64 hello; bool is_just_version_info; bool get_memory_info; dingodb.pb.common.RequestInfo request_info; Context context; bool get_region_metrics; }
message HelloResponse { dingodb.pb.error.Error error; dingodb.pb.common.VersionInfo version_info; MemI memory_info_x; int64 region_count; int64 region_leader_count; repeated dingodb.pb.common.RegionMetrics region_metrics; dingodb.pb.common.StoreOwnMetrics store_own_metrics; }
message MemI { int32 x; }
message BackupDataRequest { dingodb.pb.common.RequestInfo request_info; Context context; bytes start_key; bytes end_key; dingodb.pb.common.RegionType region_type; string backup_ts; int64 backup_tso; string storage_path; dingodb.pb.common.StorageBackend storage_backend; dingodb.pb.common.CompressionType compression_type; int32 compression_level; bool need_leader; bool is_txn_x; int64 start_ts; int64 end_ts; }
message BackupDataResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; dingodb.pb.common.BackupDataFileValueSstMetaGroup sst_metas; }
message BackupMetaRequest { dingodb.pb.common.RequestInfo request_info; Context context; string storage_path; dingodb.pb.common.StorageBackend storage_backend; dingodb.pb.common.CompressionType compression_type; int32 compression_level; bool need_leader; bytes start_key; bytes end_key; dingodb.pb.common.RegionType region_type; string backup_ts; int64 backup_tso; }
message BackupMetaResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; dingodb.pb.common.BackupDataFileValueSstMetaGroup sst_metas; }
message RestoreMetaRequest { dingodb.pb.common.RequestInfo request_info; Context context; string storage_path; dingodb.pb.common.StorageBackend storage_backend; bool need_leader; bytes start_key; bytes end_key; string backup_ts; int64 backup_tso; dingodb.pb.common.BackupDataFileValueSstMetaGroup sst_metas; }
message RestoreMetaResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message RestoreDataRequest { dingodb.pb.common.RequestInfo request_info; Context context; bytes start_key; bytes end_key; dingodb.pb.common.RegionType region_type; string backup_ts; int64 backup_tso; dingodb.pb.common.StorageBackend storage_backend; bool need_leader; dingodb.pb.common.BackupDataFileValueSstMetaGroup sst_metas; }
message RestoreDataResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message ControlConfigRequest { dingodb.pb.common.RequestInfo request_info; repeated dingodb.pb.common.ControlConfigVariable control_config_variable; Context context; }
message ControlConfigResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated dingodb.pb.common.ControlConfigVariable control_config_variable; }
svc StoreService: Hello GetMemoryInfo(HelloRequest,HelloResponse) KvGet KvBatchGet KvPut KvBatchPut KvPutIfAbsent KvBatchPutIfAbsent KvBatchDelete KvDeleteRange KvCompareAndSet KvBatchCompareAndSet KvScanBegin KvScanContinue KvScanRelease KvScanBeginV2(KvScanBeginRequestV2,KvScanBeginResponseV2) KvScanContinueV2(KvScanContinueRequestV2,KvScanContinueResponseV2) KvScanReleaseV2(KvScanReleaseRequestV2,KvScanReleaseResponseV2) TxnGet TxnScan TxnPessimisticLock TxnPessimisticRollback TxnPrewrite TxnCommit TxnCheckTxnStatus TxnCheckSecondaryLocks TxnResolveLock TxnBatchGet TxnBatchRollback TxnScanLock TxnHeartBeat TxnGc TxnDeleteRange TxnDump BackupData BackupMeta RestoreMeta RestoreData ControlConfig
message TxnInfo { int64 start_ts; int64 commit_ts; }
