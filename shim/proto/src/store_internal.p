pkg store_internal
imp common raft coordinator
message Region { int64 id; int32 region_type_x; dingodb.pb.common.RegionType region_type; dingodb.pb.common.RegionDefinition definition; dingodb.pb.common.StoreRegionState state; bool need_bootstrap_do_snapshot; bool disable_change; bool temporary_disable_change; int64 last_split_timestamp; int64 parent_id; int64 snapshot_epoch_version; int64 last_change_job_id; repeated dingodb.pb.common.StoreRegionState history_states; int64 leader_id; bool is_hold_x; int64 create_timestamp_x; int64 applied_x; bool is_leader_x; int32 y; }
message RaftMeta { int64 region_id; int64 term; int64 applied_id; int64 applied_index; }
message LogMeta { LogIndexMeta log_index_meta; int64 x; int64 region_id; int64 first_log_index; int64 vector_index_first_log_index; }
message LogIndexMeta { int64 first_index_x; int64 x; int64 vector_index_first_log_index; int64 first_log_index; int64 last_log_index; repeated TruncIdx truncate_indexes; }
message SstFileInfo { int32 level; string name; string path; bytes start_key; bytes end_key; string cf_name; }
message RaftSnapshotRegionMeta { dingodb.pb.common.RegionEpoch epoch; dingodb.pb.common.Range range; int64 term; int64 log_index; }
message VectorIndexSnapshotMeta { int64 vector_index_id; int64 snapshot_log_id; repeated string filenames; dingodb.pb.common.RegionEpoch epoch; dingodb.pb.common.Range range; }
message VectorIndexMeta { int64 id; int32 type_x; int64 version; int64 apply_log_id; int64 snapshot_log_id; int64 is_hold_x; }
message DocumentIndexSnapshotMeta { int64 x; int64 document_index_id; int64 apply_log_id; dingodb.pb.common.RegionEpoch epoch; dingodb.pb.common.Range range; repeated string filenames; }
message DocumentIndexMeta { int64 id; int64 version; int64 apply_log_id; int64 snapshot_log_id; }
message RegionChangeRecord { enum Evt { X; } message TimePoint { string event; string time; } int64 job_id; int64 region_id; int32 job_type_x; string job_content; string begin_time; string end_time; repeated TimePoint timeline; dingodb.pb.coordinator.RegionCmdType job_type; }
message TruncIdx { int32 client_type; int64 truncate_index; }
