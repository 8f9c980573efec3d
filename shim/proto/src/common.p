pkg common
enum RegionVectorIndexStatus { VECTOR_INDEX_STATUS_NONE; VECTOR_INDEX_STATUS_NORMAL; VECTOR_INDEX_STATUS_ERROR; }
enum ClusterRole { ILLEGAL; COORDINATOR; STORE; EXECUTOR; INDEX; DISKANN; DOCUMENT; }
enum CoordinatorServiceType { ServiceTypeCoordinator; ServiceTypeMeta; ServiceTypeAutoIncrement; ServiceTypeVersion; ServiceTypeTso; }
enum Engine { ENG_ROCKSDB; LSM; BTREE; XDP; ENG_BDB; TXN_LSM; TXN_BTREE; }
enum RawEngine { RAW_ENG_ROCKSDB; RAW_ENG_BDB; RAW_ENG_XDPROCKS; }
enum StorageEngine { STORE_ENG_RAFT_STORE; STORE_ENG_MEMORY; STORE_ENG_MONO_STORE; }
enum StoreType { NODE_TYPE_STORE; NODE_TYPE_INDEX; NODE_TYPE_DOCUMENT; }
enum StoreState { STORE_NEW; STORE_NORMAL; STORE_OFFLINE; }
enum StoreInState { STORE_IN; STORE_OUT; }
enum PeerRole { VOTER; LEARNER; }
enum RegionType { STORE_REGION; INDEX_REGION; DOCUMENT_REGION; }
enum RegionState { REGION_NONE; REGION_NEW; REGION_NORMAL; REGION_EXPAND; REGION_EXPANDING; REGION_EXPANDED; REGION_SHRINK; REGION_SHIRINKING; REGION_SHRANK; REGION_DELETE; REGION_DELETING; REGION_DELETED; REGION_SPLIT; REGION_SPLITTING; REGION_SPLITED; REGION_MERGE; REGION_MERGING; REGION_MERGED; REGION_ILLEGAL; REGION_STANDBY; REGION_TOMBSTONE; }
enum RegionRaftStatus { REGION_RAFT_HEALTHY; REGION_RAFT_SNAPSHOT; REGION_RAFT_CONSECUTIVE_ERROR; REGION_RAFT_RECOVERING; REGION_RAFT_LAGGY; }
enum ReplicaStatus { REPLICA_NONE; REPLICA_NORMAL; REPLICA_DEGRAED; REPLICA_UNAVAILABLE; }
enum RegionHeartbeatState { REGION_ONLINE; REGION_DOWN; }
enum StoreRegionState { NEW; NORMAL; STANDBY; SPLITTING; MERGING; DELETING; DELETED; ORPHAN; TOMBSTONE; }
enum ExecutorState { EXECUTOR_NEW; EXECUTOR_NORMAL; EXECUTOR_OFFLINE; }
enum CoordinatorState { COORDINATOR_NEW; COORDINATOR_NORMAL; COORDINATOR_OFFLINE; COORDINATOR_ERROR; }
enum RaftNodeState { STATE_NONE; STATE_LEADER; STATE_TRANSFERRING; STATE_CANDIDATE; STATE_FOLLOWER; STATE_ERROR; STATE_UNINITIALIZED; STATE_SHUTTING; STATE_SHUTDOWN; STATE_END; }
enum MetricType { METRIC_TYPE_NONE; METRIC_TYPE_L2; METRIC_TYPE_INNER_PRODUCT; METRIC_TYPE_COSINE; METRIC_TYPE_HAMMING; }
enum IndexType { INDEX_TYPE_NONE; INDEX_TYPE_VECTOR; INDEX_TYPE_SCALAR; INDEX_TYPE_DOCUMENT; }
enum VectorIndexType { VECTOR_INDEX_TYPE_NONE; VECTOR_INDEX_TYPE_FLAT; VECTOR_INDEX_TYPE_IVF_FLAT; VECTOR_INDEX_TYPE_IVF_PQ; VECTOR_INDEX_TYPE_HNSW; VECTOR_INDEX_TYPE_DISKANN; VECTOR_INDEX_TYPE_BRUTEFORCE; VECTOR_INDEX_TYPE_BINARY_FLAT; VECTOR_INDEX_TYPE_BINARY_IVF_FLAT; }
enum ScalarIndexType { SCALAR_INDEX_TYPE_NONE; SCALAR_INDEX_TYPE_LSM; SCALAR_INDEX_TYPE_BTREE; }
enum ScalarFieldType { NONE; BOOL; INT8; INT16; INT32; INT64; FLOAT32; DOUBLE; STRING; BYTES; DATETIME; }
enum ValueType { FLOAT; UINT8; INT8_T; }
enum VectorFilter { NONE_FILTER; SCALAR_FILTER; TABLE_FILTER; VECTOR_ID_FILTER; }
enum VectorFilterType { QUERY_NONE; QUERY_POST; QUERY_PRE; }
enum DiskANNState { DISKANN_UNKNOWN; DISKANN_INITIALIZED; DISKANN_BUILDING; DISKANN_BUILDED; DISKANN_BUILD_FAILED; DISKANN_LOADING; DISKANN_LOADED; DISKANN_LOAD_FAILED; DISKANN_NODATA; }
enum DiskANNCoreState { UNKNOWN; UNINITIALIZED; INITIALIZED; IMPORTING; IMPORTED; BUILDING; BUILDED; UPDATINGPATH; UPDATEDPATH; LOADING; LOADED; SEARCHING; SEARCHED; RESETING; RESET; DESTROYING; DESTROYED; IDLE; FAILED; FAKEBUILDED; NODATA; }
enum CompressionType { COMPRESSION_NONE; COMPRESSION_LZ4; COMPRESSION_SNAPPY; COMPRESSION_ZSTD; }
message Location { string host; int32 port; int32 index; }
message Peer { int64 store_id; PeerRole role; Location server_location; Location raft_location; }
message Range { bytes start_key; bytes end_key; }
message RangeWithOptions { Range range; bool with_start; bool with_end; }
message KeyValue { bytes key; bytes value; int64 ts; }
message RegionEpoch { int64 conf_version; int64 version; }
message StoreRegionInfo { int64 region_id; RegionEpoch current_region_epoch; Range current_range; repeated Peer peers; }
message RequestInfo { int64 request_id; int64 timeout_ms; }
message TimeInfo { int64 total_rpc_time_ns; int64 service_queue_wait_time_ns; int64 prepair_commit_time_ns; int64 raft_commit_time_ns; int64 raft_queue_wait_time_ns; int64 raft_apply_time_ns; int64 raft_apply_wait_time_ns; int64 store_write_time_ns; int64 vector_index_write_time_ns; int64 document_index_write_time_ns; repeated int64 vector_index_cal_time_ns; repeated ElapsedTime elapsed_times; }
message ResponseInfo { int64 request_id; TimeInfo time_info; }
message Schema { enum Type { BOOL; INTEGER; FLOAT; LONG; DOUBLE; STRING; BOOLLIST; INTEGERLIST; FLOATLIST; LONGLIST; DOUBLELIST; STRINGLIST; DECIMAL; DECIMALLIST; } Type type; bool is_key; bool is_nullable; int32 index; string name; }
message Engine0 { int32 x; }
message ScalarField { oneof data { bool bool_data; int32 int_data; int64 long_data; float float_data; double double_data; string string_data; bytes bytes_data; string datetime_data; } }
message ScalarValue { ScalarFieldType field_type; repeated ScalarField fields; }
message ScalarSchemaItem { string key; ScalarFieldType field_type; bool enable_speed_up; }
message ScalarSchema { repeated ScalarSchemaItem fields; }
message DocumentValue { ScalarFieldType field_type; ScalarField field_value; }
message Document { map<string, DocumentValue> document_data; TableData table_data; }
message TableData { bytes table_key; bytes table_value; }
message DocumentWithId { int64 id; Document document; }
message DocumentWithScore { DocumentWithId document_with_id; float score; }
message DocumentSearchParameter { int32 top_n; string query_string; bool use_id_filter; repeated int64 document_ids; repeated string column_names; bool without_scalar_data; repeated string selected_keys; bool query_unlimited; bytes s; int64 vectors; bool without_table_data; }
message DocumentIndexParameter { string json_parameter; ScalarSchema scalar_schema; }
message Vector { int32 dimension; ValueType value_type; repeated float float_values; repeated bytes binary_values; }
message VectorScalardata { map<string, ScalarValue> scalar_data; }
message VectorTableData { bytes table_key; bytes table_value; }
message VectorWithId { int64 id; Vector vector; VectorScalardata scalar_data; VectorTableData table_data; }
message VectorWithDistance { VectorWithId vector_with_id; float distance; MetricType metric_type; }
message VectorWithKey { int64 id; Vector vector; bytes key; VectorWithId vector_with_id; bool is_delete; }
message CreateFlatParam { int32 dimension; MetricType metric_type; }
message CreateBinaryFlatParam { int32 dimension; MetricType metric_type; }
message CreateIvfFlatParam { int32 dimension; MetricType metric_type; int32 ncentroids; }
message CreateBinaryIvfFlatParam { int32 dimension; MetricType metric_type; int32 ncentroids; }
message CreateIvfPqParam { int32 dimension; MetricType metric_type; int32 ncentroids; int32 nsubvector; int32 bucket_init_size; int32 bucket_max_size; int32 nbits_per_idx; }
message CreateHnswParam { int32 dimension; MetricType metric_type; int32 efConstruction; int32 max_elements; int32 nlinks; }
message CreateDiskAnnParam { int32 dimension; MetricType metric_type; ValueType value_type; int32 max_degree; int32 search_list_size; uint32 qd; string codebook_prefix; bool pq_disk_bytes; bool append_reorder_data; uint32 build_pq_bytes; bool use_opq; }
message CreateBruteForceParam { int32 dimension; MetricType metric_type; }
message VectorIndexParameter { VectorIndexType vector_index_type; oneof vector_index_parameter { CreateFlatParam flat_parameter; CreateIvfFlatParam ivf_flat_parameter; CreateIvfPqParam ivf_pq_parameter; CreateHnswParam hnsw_parameter; CreateDiskAnnParam diskann_parameter; CreateBruteForceParam bruteforce_parameter; CreateBinaryFlatParam binary_flat_parameter; CreateBinaryIvfFlatParam binary_ivf_flat_parameter; } ScalarSchema scalar_schema; bool enable_range_search_unused; }
message ScalarIndexParameter { ScalarIndexType scalar_index_type; bool is_unique; }
message IndexParameter { IndexType index_type; VectorIndexParameter vector_index_parameter; ScalarIndexParameter scalar_index_parameter; DocumentIndexParameter document_index_parameter; int64 origin_keys_unused; repeated string origin_keys; repeated string origin_with_columns; }
message SearchFlatParam { int32 parallel_on_queries; }
message SearchIvfFlatParam { int32 nprobe; int32 parallel_on_queries; }
message SearchIvfPqParam { int32 nprobe; int32 parallel_on_queries; int32 recall_num; }
message SearchHNSWParam { int32 efSearch; }
message SearchDiskAnnParam { int32 beamwidth; }
message VectorCoprocessor0 { int32 x; }
message VectorSearchParameter { int32 top_n; bool without_vector_data; bool without_scalar_data; repeated string selected_keys; bool without_table_data; bool enable_range_search; float radius; bool is_beyond; bool use_brute_force; VectorFilter vector_filter; VectorFilterType vector_filter_type; bool is_negation; bool is_sorted; repeated int64 vector_ids; CoprocessorV2 vector_coprocessor; bool with_vector_data_x; SearchFlatParam flat; SearchIvfFlatParam ivf_flat; SearchIvfPqParam ivf_pq; SearchHNSWParam hnsw; SearchDiskAnnParam diskann; SearchFlatParam binary_flat; SearchIvfFlatParam binary_ivf_flat; }
message VectorBuildParameter { DiskAnnB diskann; }
message DiskAnnB { int32 x; }
message DiskAnnL { uint32 num_nodes_to_cache; bool warmup; bool direct_load_without_build; }
message VectorLoadParameter { DiskAnnL diskann; }
message VectorStateParameter { DiskAnnS diskann; }
message DiskAnnS { DiskANNState state; DiskANNCoreState core_state; int64 x; }
message SchemaWrapper { int32 x; }
message SelectionParam { int32 x; }
message CoprocessorV2 { int32 schema_version; SchemaList original_schema; SchemaList result_schema; repeated int32 selection_columns; bytes rel_expr; int32 codec_version; bool for_agg_count; }
message SchemaList { int64 common_id; repeated Schema schema; }
message Executor { string id; int64 epoch; ExecutorState state; Location server_location; ExecutorUser executor_user; string resource_tag; int64 create_timestamp; int64 update_timestamp; int64 last_seen_timestamp; int32 leader_num_weight; string cluster_name; int64 leader_id; }
message ExecutorUser { string user; string keyring; }
message ExecutorUserMap { int64 epoch; repeated ExecutorUser executor_users; }
message ExecutorMap { int64 epoch; repeated Executor executors; }
message Store { int64 id; int64 epoch; StoreState state; StoreInState in_state; Location server_location; Location raft_location; string resource_tag; string keyring; int64 create_timestamp; int64 update_timestamp; int64 last_seen_timestamp; StoreType store_type; int32 leader_num_weight; }
message StoreMap { int64 epoch; repeated Store stores; }
message Coordinator { int64 id; CoordinatorState state; Location location; int64 update_timestamp; }
message CoordinatorMap { int64 epoch; repeated Coordinator coordinators; }
message RegionDefinition { int64 id; int64 epoch_unused; RegionEpoch epoch; string name; repeated Peer peers; Range range; Engine x_eng; RawEngine raw_engine; StorageEngine store_engine; int64 schema_id; int64 table_id; int64 index_id; int64 part_id; int64 tenant_id; IndexParameter index_parameter; int64 revision; int64 job_id_x; }
message RegionStatus { ReplicaStatus replica_status; RegionRaftStatus raft_status; RegionHeartbeatState heartbeat_status; int64 last_update_timestamp; }
message RaftPeerStatus { int64 id_unused; bool valid; bool installing_snapshot; int64 next_index; int64 last_rpc_send_timestamp; int64 flying_append_entries_size; int64 readonly_index; int32 consecutive_error_times; }
message BRaftStatus { RaftNodeState raft_state; string peer_id; string leader_id; bool readonly; int64 term; int64 committed_index; int64 known_applied_index; int64 first_index; int64 pending_index; int64 pending_queue_size; int64 applying_index; int64 last_index; int64 disk_index; map<string, RaftPeerStatus> stable_followers; map<string, RaftPeerStatus> unstable_followers; string leader_peer_id; }
message VectorIndexMetrics { int64 current_count; int64 deleted_count; int64 max_id; int64 min_id; int64 memory_bytes; VectorIndexType vector_index_type; }
message DocumentIndexMetrics { int64 total_num_docs; int64 total_num_tokens; int64 max_id; int64 min_id; string meta_json; string json_parameter; }
message VectorIndexStatus { bool is_stop; bool is_ready; bool is_own_ready; bool is_switching; bool is_hold_vector_index; int64 apply_log_id; int64 snapshot_log_id; bool is_build_error; bool is_rebuild_error; int64 last_build_epoch_version; }
message DocumentIndexStatus { bool is_stop; bool is_ready; bool is_own_ready; bool is_switching; bool is_hold_document_index; int64 apply_log_id; int64 snapshot_log_id; bool is_build_error; bool is_rebuild_error; int64 last_build_epoch_version; }
message RegionMetrics { int64 id; int64 leader_store_id; StoreRegionState store_region_state; BRaftStatus braft_status; RegionStatus x_region_status; int64 row_count; bytes min_key; bytes max_key; int64 region_size; int64 snapshot_epoch_version; VectorIndexMetrics vector_index_metrics; VectorIndexStatus vector_index_status; DocumentIndexMetrics document_index_metrics; DocumentIndexStatus document_index_status; int64 last_update_metrics_timestamp; int64 last_update_metrics_log_index; RegionDefinition region_definition; int32 peers_x; bool is_lead_x; repeated int64 peer_ids; int64 read_qps; int64 write_qps; int64 last_update_metrics_version; RegionStatus region_status; }
message Region { int64 id; int64 epoch; RegionState state; RegionType region_type; RegionDefinition definition; RegionMetrics metrics; int64 leader_store_id; int64 create_timestamp; int64 deleted_timestamp; RegionStatus status; int64 last_change_job_id; bool disable_change_x; }
message RegionMap { int64 epoch; repeated Region regions; }
message StoreOwnMetrics { int64 id; int64 system_total_capacity; int64 system_free_capacity; int64 system_total_memory; int64 system_free_memory; int64 system_cpu_usage; int64 system_io_util; int64 process_used_cpu; int64 process_used_memory; int64 process_used_capacity; int64 system_available_memory; int64 system_shared_memory; int64 system_buffer_memory; int64 system_cached_memory; int64 system_buffers_memory; int64 system_used_memory; bool is_ready; bool is_ready_only; string read_only_reason; int64 system_total_swap; int64 system_free_swap; }
message StoreMetrics { int64 id; StoreOwnMetrics store_own_metrics; map<int64, RegionMetrics> region_metrics_map; bool is_partial_region_metrics; bool is_update_epoch_version_x; bool is_update_epoch_version; }
message VersionInfo { string git_commit_hash; string git_tag_name; string git_commit_user; string git_commit_mail; string git_commit_date; string major_version; string minor_version; string dingo_build_type; string dingo_contrib_build_type; bool use_mkl; bool use_openblas; bool use_linkfaiss; bool use_openmp; string boost_summary; bool use_sanitizer; bool use_liburing_x; bool use_diskann; bool use_tcmalloc; bool use_profiler; string git_commit_time; int32 diskann_depend_on_x; bool enable_x; bool diskann_depend_on_system; }
message ControlConfigVariable { string name; string value; bool is_already_set; bool is_error_occurred; }
message StorageBackend { oneof backend { Local local; } }
message Local { string path; }
message BackupDataFileValueSstMeta { string cf; int64 region_id; string dir_name; int64 file_size; string encryption; string encryption_iv_x; bytes start_key; bytes end_key; string file_name; string sha1; RegionDefinition region_definition_x; string cf_x; RegionEpoch epoch; bytes encryption_x; int64 start_version; int64 end_version; int64 kv_count; int64 kv_bytes; }
message BackupDataFileValueSstMetaGroup { repeated BackupDataFileValueSstMeta backup_data_file_value_sst_metas; }
message BackupParam { string storage; string x; }
message DocumentIndexExtendedStatus { map<int64, DocumentIndexExtendedStatusItem> items; }
message DocumentIndexExtendedStatusItem { int64 id; }
message ElapsedTime { string name; int64 time_us; int64 skip_version; PerfSum storage_engine_perf_summary; }
message PerfSum { int64 io_time_ns; int64 miss_block_count; int64 internal_skipped_count; int64 internal_tombstone_count; }
