pkg raft
imp common error store coordinator_internal
enum CmdType { NONE; PUT; PUTIFABSENT; DELETERANGE; DELETEBATCH; SPLIT; COMPAREANDSET; PREPARE_MERGE; COMMIT_MERGE; ROLLBACK_MERGE; META_WRITE; TXN; VECTOR_ADD; VECTOR_DELETE; REBUILD_VECTOR_INDEX; SAVE_RAFT_SNAPSHOT; DOCUMENT_ADD; DOCUMENT_DELETE; VECTOR_BATCH_ADD; DOCUMENT_BATCH_ADD; RAW; }
enum SplitStrategy { PRE_CREATE_REGION; POST_CREATE_REGION; }
message RequestHeader { int64 region_id; dingodb.pb.common.RegionEpoch epoch; }
message PutRequest { string cf_name; repeated dingodb.pb.common.KeyValue kvs; }
message PutIfAbsentRequest { string cf_name; repeated dingodb.pb.common.KeyValue kvs; bool is_atomic; }
message DeleteRangeRequest { string cf_name; repeated dingodb.pb.common.Range ranges; }
message DeleteBatchRequest { string cf_name; repeated bytes keys; }
message CompareAndSetRequest { string cf_name; repeated dingodb.pb.common.KeyValue kvs; repeated bytes expect_values; bool is_atomic; }
message SplitRequest { int64 from_region_id; int64 to_region_id; bytes split_key; dingodb.pb.common.RegionEpoch epoch; SplitStrategy split_strategy; int64 job_id; }
message PrepareMergeRequest { int64 job_id; int64 target_region_id; dingodb.pb.common.RegionEpoch target_region_epoch; dingodb.pb.common.Range target_region_range; int64 min_applied_log_id; }
message CommitMergeRequest { int64 job_id; int64 source_region_id; dingodb.pb.common.RegionEpoch source_region_epoch; dingodb.pb.common.Range source_region_range; int64 prepare_merge_log_id; repeated LogEntry entries; }
message RollbackMergeRequest { int64 job_id; int64 target_region_id; int64 min_applied_log_id; int64 source_region_id; dingodb.pb.common.RegionEpoch target_region_epoch; dingodb.pb.common.Range target_region_range; dingodb.pb.common.RegionEpoch source_region_epoch; dingodb.pb.common.Range source_region_range; }
message LogEntry { int64 index; int64 term; bytes data; }
message VectorAddRequest { string cf_name; repeated dingodb.pb.common.VectorWithId vectors; bool is_update; int64 ttl; int64 ts; }
message VectorBatchAddRequest { string cf_name; repeated dingodb.pb.common.VectorWithId vectors; bool is_update; repeated int64 delete_ids_x; repeated int64 delete_ids; repeated dingodb.pb.common.KeyValue kvs_default; repeated dingodb.pb.common.KeyValue kvs_scalar; repeated dingodb.pb.common.KeyValue kvs_table; repeated dingodb.pb.common.KeyValue kvs_scalar_speed_up; repeated int64 delete_vector_ids; }
message VectorDeleteRequest { string cf_name; repeated int64 ids; int64 ts; }
message DocumentAddRequest { string cf_name; repeated dingodb.pb.common.DocumentWithId documents; bool is_update; int64 ttl; int64 ts; }
message DocumentBatchAddRequest { string cf_name; repeated dingodb.pb.common.DocumentWithId documents; bool is_update; repeated int64 delete_ids; repeated dingodb.pb.common.KeyValue kvs; repeated int64 delete_document_ids; }
message DocumentDeleteRequest { string cf_name; repeated int64 ids; int64 ts; }
message RebuildVectorIndexRequest { int64 cmd_id; }
message SaveSnapshotRequest { int64 region_id; }
message PutsWithCf { string cf_name; repeated dingodb.pb.common.KeyValue kvs; }
message DeletesWithCf { string cf_name; repeated bytes keys; }
message MultiCfPutAndDeleteRequest { repeated PutsWithCf puts_with_cf; repeated DeletesWithCf deletes_with_cf; VectorAddRequest vector_add; VectorDeleteRequest vector_del; DocumentAddRequest document_add; DocumentDeleteRequest document_del; }
message TxnDeleteRangeRequest { bytes start_key; bytes end_key; }
message TxnRaftRequest { oneof cmd { MultiCfPutAndDeleteRequest multi_cf_put_and_delete; TxnDeleteRangeRequest mvcc_delete_range; TxnDeleteRangeRequest txn_delete_range; } }
message Request { CmdType cmd_type; int64 ts; oneof cmd { PutRequest put; PutIfAbsentRequest put_if_absent; DeleteRangeRequest delete_range; DeleteBatchRequest delete_batch; SplitRequest split; CompareAndSetRequest compare_and_set; PrepareMergeRequest prepare_merge; CommitMergeRequest commit_merge; RollbackMergeRequest rollback_merge; RaftMetaRequest meta_req; TxnRaftRequest txn_raft_req; VectorAddRequest vector_add; VectorDeleteRequest vector_delete; RebuildVectorIndexRequest rebuild_vector_index; SaveSnapshotRequest save_snapshot; DocumentAddRequest document_add; DocumentDeleteRequest document_delete; VectorBatchAddRequest vector_batch_add; DocumentBatchAddRequest document_batch_add; } int64 ttl; }
message RaftMetaRequest { bytes meta_increment_x; bytes x; dingodb.pb.coordinator_internal.MetaIncrement meta_increment; }
message Response { int32 x; }
message RaftCmdRequest { RequestHeader header; repeated Request requests; }
