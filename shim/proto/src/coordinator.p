pkg coordinator
imp common error
enum IdEpochType { EPOCH_NONE; EPOCH_COORINATOR; EPOCH_STORE; EPOCH_EXECUTOR; EPOCH_SCHEMA; EPOCH_TABLE; EPOCH_REGION; EPOCH_INDEX; EPOCH_MDS; ID_NEXT_COORINATOR; ID_NEXT_STORE; ID_NEXT_EXECUTOR; ID_NEXT_SCHEMA; ID_NEXT_REGION; ID_NEXT_TABLE; ID_NEXT_INDEX; ID_NEXT_LEASE; ID_NEXT_REVISION; ID_NEXT_REGION_CMD; ID_NEXT_JOB; ID_NEXT_META_WATCH; ID_NEXT_TENANT; ID_DDL_JOB; ID_SCHEMA_VERSION; ID_GC_SAFE_POINT; ID_GC_RESOLVE_LOCK_SAFE_POINT; RAFT_APPLY_INDEX; RAFT_APPLY_TERM; }
enum RegionCmdType { CMD_NONE; CMD_CREATE; CMD_DELETE; CMD_SPLIT; CMD_MERGE; CMD_CHANGE_PEER; CMD_TRANSFER_LEADER; CMD_SNAPSHOT; CMD_PURGE; CMD_STOP; CMD_DESTROY_EXECUTOR; CMD_SNAPSHOT_VECTOR_INDEX; CMD_UPDATE_DEFINITION; CMD_SWITCH_SPLIT; CMD_HOLD_VECTOR_INDEX; CMD_DELETE_DATA; CMD_SNAPSHOT_DOCUMENT_INDEX; CMD_HOLD_DOCUMENT_INDEX; }
enum RegionCmdStatus { STATUS_NONE; STATUS_DONE; STATUS_FAIL; }
enum RaftControlOp { None; AddPeer; RemovePeer; TransferLeader; Snapshot; ResetPeer; }
enum RaftControlNodeIndex { CoordinatorNodeIndex; KvNodeIndex; TsoNodeIndex; AutoIncrementNodeIndex; }
enum TaskPreCheckType { NO_CHECK; REGION_CHECK; STORE_REGION_CHECK; }
enum CoordinatorOperationType { COORDINATOR_OP_TYPE_NONE; COORDINATOR_OP_TYPE_DROP_REGION; }
message CreateRequest { dingodb.pb.common.RegionDefinition region_definition; int64 split_from_region_id; }
message DeleteRequest { int64 region_id; }
message PurgeRequest { int64 region_id; }
message StopRequest { int64 region_id; }
message DestroyExecutorRequest { int64 region_id; }
message DeleteDataRequest { int64 region_id; repeated string txn_cf_names; repeated string raw_cf_names; dingodb.pb.common.Range range; }
message SplitRequest { bytes split_watershed_key; int64 split_from_region_id; int64 split_to_region_id; bool store_create_region; }
message MergeRequest { int64 source_region_id; int64 target_region_id; dingodb.pb.common.RegionEpoch source_region_epoch; dingodb.pb.common.RegionEpoch target_region_epoch; dingodb.pb.common.Range target_region_range; dingodb.pb.common.Range source_region_range; }
message ChangePeerRequest { dingodb.pb.common.RegionDefinition region_definition; }
message UpdateDefinitionRequest { dingodb.pb.common.RegionDefinition new_region_definition; }
message TransferLeaderRequest { dingodb.pb.common.Peer peer; bool is_force; }
message SnapshotRequest { int64 region_id; }
message SnapshotVectorIndexRequest { int64 vector_index_id; int64 raft_log_index; }
message SnapshotDocumentIndexRequest { int64 document_index_id; }
message SwitchSplitRequest { int64 region_id; bool disable_split; }
message HoldVectorIndexRequest { int64 region_id; bool is_hold; }
message HoldDocumentIndexRequest { int64 region_id; bool is_hold; }
message RegionCmd { int64 id; int64 region_id; RegionCmdType region_cmd_type; oneof Request { CreateRequest create_request; DeleteRequest delete_request; SplitRequest split_request; MergeRequest merge_request; ChangePeerRequest change_peer_request; TransferLeaderRequest transfer_leader_request; SnapshotRequest snapshot_request; PurgeRequest purge_request; StopRequest stop_request; DestroyExecutorRequest destroy_executor_request; SnapshotVectorIndexRequest snapshot_vector_index_request; UpdateDefinitionRequest update_definition_request; SwitchSplitRequest switch_split_request; HoldVectorIndexRequest hold_vector_index_request; DeleteDataRequest delete_data_request; SnapshotDocumentIndexRequest snapshot_document_index_request; HoldDocumentIndexRequest hold_document_index_request; } bool is_notify; int64 create_timestamp; RegionCmdStatus status; dingodb.pb.error.Error error; int64 job_id; int32 retry; int64 store_id; }
message StoreOperation { int64 id; int64 store_id; repeated RegionCmd region_cmds; bool is_success; TaskPreCheck pre_check; int32 retry_count; repeated dingodb.pb.error.Error errors; }
message CoordinatorOperation { CoordinatorOperationType coordinator_op_type; DropRegionOperation drop_region_operation; }
message DropRegionOperation { int64 region_id; }
message RegionCheck { int64 region_id; dingodb.pb.common.RegionState state; dingodb.pb.common.RegionRaftStatus raft_status; dingodb.pb.common.Range range; repeated int64 store_region_ids; int64 leader_store_id; repeated dingodb.pb.common.Peer peers; bool vector_index_is_hold; bool vector_index_is_ready; repeated int64 peer_ids_x; int64 vector_snapshot_log_id; dingodb.pb.common.RegionEpoch epoch; repeated int64 peers_to_x; bool is_hold_vector_index; bool check_vector_index_is_ready; int64 vector_index_version; bool check_document_index_is_ready; int64 document_index_version; dingodb.pb.common.ReplicaStatus replica_status; }
message StoreRegionCheck { repeated dingodb.pb.common.Peer peers; int64 store_id; int64 region_id; dingodb.pb.common.StoreRegionState store_region_state; dingodb.pb.common.RaftNodeState raft_node_status; dingodb.pb.common.Range range; int64 leader_store_id; bool check_vector_index_is_hold; bool is_hold_vector_index; bool check_vector_index_is_ready; bool check_vector_index_status; bool vector_index_is_ready; int64 vector_index_version; bool check_document_index_is_hold; bool is_hold_document_index; bool check_document_index_is_ready; int64 document_index_version; bool check_store_region_state; bool is_ready; }
message TaskPreCheck { TaskPreCheckType type; RegionCheck region_check; StoreRegionCheck store_region_check; }
message Task { int64 id; repeated StoreOperation store_operations; TaskPreCheck pre_check; int32 step; repeated CoordinatorOperation coordinator_operations; }
message Job { int64 id; repeated Task tasks; int32 next_step; string name; int64 create_timestamp; int64 finish_timestamp; string create_time; string finish_time; string update_time; string status; }
message CoordinatorMemoryInfo { int64 applied_term; int64 applied_index; int64 total_size; int64 id_epoch_safe_map_temp_count; int64 id_epoch_safe_map_temp_size; int64 coordinator_map_count; int64 coordinator_map_size; int64 store_map_count; int64 store_map_size; int64 executor_map_count; int64 executor_map_size; int64 schema_map_count; int64 schema_map_size; int64 region_map_count; int64 region_map_size; int64 deleted_region_map_count; int64 deleted_region_map_size; int64 table_map_count; int64 table_map_size; int64 deleted_table_map_count; int64 deleted_table_map_size; int64 store_operation_map_count; int64 store_operation_map_size; int64 executor_user_map_count; int64 executor_user_map_size; int64 job_map_count; int64 job_map_size; int64 index_map_count; int64 index_map_size; int64 deleted_index_map_count; int64 deleted_index_map_size; int64 store_metrics_map_count; int64 store_metrics_map_size; int64 table_metrics_map_count; int64 table_metrics_map_size; int64 index_metrics_map_count; int64 index_metrics_map_size; int64 leader_term; int64 store_need_push_count; int64 store_need_push_size; int64 executor_need_push_count; int64 executor_need_push_size; int64 id_epoch_map_count; int64 id_epoch_map_size; int64 schema_name_map_safe_temp_count; int64 schema_name_map_safe_temp_size; int64 region_cmd_map_count; int64 region_cmd_map_size; int64 region_metrics_map_count; int64 region_metrics_map_size; int64 table_name_map_safe_temp_count; int64 table_name_map_safe_temp_size; int64 index_name_map_safe_temp_count; int64 index_name_map_safe_temp_size; int64 table_index_map_count; int64 table_index_map_size; int64 common_disk_map_count; int64 common_disk_map_size; int64 common_mem_map_count; int64 common_mem_map_size; int64 tenant_map_count; int64 tenant_map_size; int64 store_region_metrics_map_size; int64 store_region_metrics_map_count; repeated dingodb.pb.common.KeyValue id_epoch_values; int64 kv_lease_map_count; int64 kv_lease_map_size; int64 kv_index_map_count; int64 kv_index_map_size; int64 kv_rev_map_count; int64 kv_rev_map_size; int64 kv_watch_count; int64 meta_watch_count; int64 meta_event_count; int64 auto_increment_map_count; int64 auto_increment_map_size; }
message ScanRegionInfo { int64 region_id; dingodb.pb.common.Range range; dingodb.pb.common.Location leader; repeated dingodb.pb.common.Location voters; repeated dingodb.pb.common.Location learners; dingodb.pb.common.RegionEpoch region_epoch; ScanRegionStatus status; int64 tenant_id_x; }
message BalanceLeaderTask { int64 region_id; int64 source_store_id; int64 target_store_id; }
message ExecutorHeartbeatRequest { dingodb.pb.common.RequestInfo request_info; int64 self_executormap_epoch; dingodb.pb.common.Executor executor; string cluster_name; }
message ExecutorHeartbeatResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 executormap_epoch; dingodb.pb.common.ExecutorMap executormap; dingodb.pb.error.Error error_leader; }
message StoreHeartbeatRequest { dingodb.pb.common.RequestInfo request_info; int64 self_storemap_epoch; int64 self_regionmap_epoch; dingodb.pb.common.Store store; dingodb.pb.common.StoreMetrics store_metrics; dingodb.pb.common.BRaftStatus x; int64 x2; }
message StoreHeartbeatResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 storemap_epoch; int64 regionmap_epoch; dingodb.pb.common.StoreMap storemap; dingodb.pb.common.RegionMap regionmap_x; bool x; int64 safe_point_x; bool cluster_is_read_only; string cluster_read_only_reason; bool cluster_is_force_read_only; string cluster_force_read_only_reason; dingodb.pb.error.Error error_leader; ClusterState cluster_state; }
message GetGCSafePointRequest { dingodb.pb.common.RequestInfo request_info; bool get_all_tenant; int64 tenant_id; repeated int64 tenant_ids; repeated int64 tenant_resolve_lock_ids; }
message GetGCSafePointResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 safe_point; bool gc_stop; map<int64, int64> tenant_safe_points; map<int64, int64> tenant_resolve_lock_safe_points; int64 resolve_lock_safe_point; }
message UpdateGCSafePointRequest { enum GcFlagType { GC_NONE; GC_START; GC_STOP; } dingodb.pb.common.RequestInfo request_info; int64 safe_point; GcFlagType gc_flag; map<int64, int64> tenant_safe_points; map<int64, int64> tenant_resolve_lock_safe_points; int64 resolve_lock_safe_point; }
message UpdateGCSafePointResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 new_safe_point; map<int64, int64> tenant_safe_points; map<int64, int64> tenant_resolve_lock_safe_points; int64 new_resolve_lock_safe_point; bool gc_stop; }
message UpdateRegionCmdStatusRequest { dingodb.pb.common.RequestInfo request_info; int64 job_id; int64 region_cmd_id; RegionCmdStatus status; dingodb.pb.error.Error error; }
message UpdateRegionCmdStatusResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message RaftControlRequest { dingodb.pb.common.RequestInfo request_info; string add_peer; string remove_peer; string new_leader; RaftControlOp op_type; int64 node_index; repeated string new_peers; }
message RaftControlResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; string leader; }
message GetStoreMapRequest { dingodb.pb.common.RequestInfo request_info; int64 epoch; int32 use_filter_store_type; int32 filter_store_type; repeated dingodb.pb.common.StoreType filter_store_types; }
message GetStoreMapResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 epoch; dingodb.pb.common.StoreMap storemap; }
message RegisterBackupRequest { dingodb.pb.common.RequestInfo request_info; string backup_name; string backup_path; int64 backup_start_timestamp; int64 backup_current_timestamp; int64 backup_timeout_s; }
message RegisterRestoreRequest { dingodb.pb.common.RequestInfo request_info; string restore_name; string restore_path; int64 restore_start_timestamp; int64 restore_current_timestamp; int64 restore_timeout_s; }
message CreateIdsResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated int64 ids; }
message ConfigCoordinatorRequest { dingodb.pb.common.RequestInfo request_info; bool set_agg_x; bool set_read_only; bool is_read_only; string read_only_reason; string force_read_only_reason; bool is_force_read_only; bool set_force_read_only; }
message ClusterState { bool cluster_is_read_only; string cluster_read_only_reason; bool cluster_is_force_read_only; string cluster_force_read_only_reason; }
message SplitRegionRequest { dingodb.pb.common.RequestInfo request_info; SplitRequest split_request; int64 cluster_id; int64 job_id; }
message SplitRegionResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message MergeRegionRequest { dingodb.pb.common.RequestInfo request_info; MergeRequest merge_request; int64 cluster_id; }
message MergeRegionResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message HelloRequest { dingodb.pb.common.RequestInfo request_info; bool get_memory_info; string hello; bool is_just_version_info; }
message HelloResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; ClusterState cluster_state; CoordinatorMemoryInfo memory_info; dingodb.pb.common.VersionInfo version_info; dingodb.pb.common.CoordinatorState state; string status_detail; }
message GetRegionMapRequest { dingodb.pb.common.RequestInfo request_info; int64 tenant_id; }
message GetRegionMapResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; dingodb.pb.common.RegionMap regionmap; int64 epoch; }
message GetDeletedRegionMapRequest { dingodb.pb.common.RequestInfo request_info; }
message GetDeletedRegionMapResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; dingodb.pb.common.RegionMap regionmap; int64 epoch; }
message AddDeletedRegionMapRequest { dingodb.pb.common.RequestInfo request_info; int64 region_id; bool force; }
message AddDeletedRegionMapResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message CleanDeletedRegionMapRequest { dingodb.pb.common.RequestInfo request_info; int64 region_id; }
message CleanDeletedRegionMapResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message GetRegionCountRequest { dingodb.pb.common.RequestInfo request_info; }
message GetRegionCountResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 region_count; }
message GetStoreMetricsRequest { dingodb.pb.common.RequestInfo request_info; int64 store_id; int64 region_id; }
message GetStoreMetricsResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated dingodb.pb.common.StoreMetrics store_metrics; }
message GetStoreOwnMetricsRequest { dingodb.pb.common.RequestInfo request_info; repeated int64 store_ids; }
message GetStoreOwnMetricsResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated dingodb.pb.common.StoreOwnMetrics store_own_metrics; }
message DeleteStoreMetricsRequest { dingodb.pb.common.RequestInfo request_info; int64 store_id; }
message DeleteStoreMetricsResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message GetRegionMetricsRequest { dingodb.pb.common.RequestInfo request_info; int64 region_id; }
message GetRegionMetricsResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated dingodb.pb.common.RegionMetrics region_metrics; }
message DeleteRegionMetricsRequest { dingodb.pb.common.RequestInfo request_info; int64 region_id; }
message DeleteRegionMetricsResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message CreateStoreRequest { dingodb.pb.common.RequestInfo request_info; int64 cluster_id; }
message CreateStoreResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 store_id; string keyring; }
message DeleteStoreRequest { dingodb.pb.common.RequestInfo request_info; int64 cluster_id; int64 store_id; string keyring; }
message DeleteStoreResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message UpdateStoreRequest { dingodb.pb.common.RequestInfo request_info; int64 cluster_id; int64 store_id; string keyring; dingodb.pb.common.StoreInState store_in_state; }
message UpdateStoreResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message CreateExecutorRequest { dingodb.pb.common.RequestInfo request_info; int64 cluster_id; dingodb.pb.common.Executor executor; }
message CreateExecutorResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; dingodb.pb.common.Executor executor; }
message DeleteExecutorRequest { dingodb.pb.common.RequestInfo request_info; int64 cluster_id; dingodb.pb.common.Executor executor; }
message DeleteExecutorResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message GetExecutorMapRequest { dingodb.pb.common.RequestInfo request_info; string cluster_name; }
message GetExecutorMapResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; dingodb.pb.common.ExecutorMap executormap; int64 epoch; }
message CreateExecutorUserRequest { dingodb.pb.common.RequestInfo request_info; int64 cluster_id; dingodb.pb.common.ExecutorUser executor_user; }
message CreateExecutorUserResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; dingodb.pb.common.ExecutorUser executor_user; }
message UpdateExecutorUserRequest { dingodb.pb.common.RequestInfo request_info; int64 cluster_id; dingodb.pb.common.ExecutorUser executor_user; dingodb.pb.common.ExecutorUser executor_user_update; }
message UpdateExecutorUserResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; dingodb.pb.common.ExecutorUser executor_user; }
message DeleteExecutorUserRequest { dingodb.pb.common.RequestInfo request_info; int64 cluster_id; dingodb.pb.common.ExecutorUser executor_user; }
message DeleteExecutorUserResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message GetExecutorUserMapRequest { dingodb.pb.common.RequestInfo request_info; int64 cluster_id; }
message GetExecutorUserMapResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; dingodb.pb.common.ExecutorUserMap executor_user_map; }
message GetCoordinatorMapRequest { dingodb.pb.common.RequestInfo request_info; int64 cluster_id; bool get_coordinator_map; }
message GetCoordinatorMapResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated dingodb.pb.common.Location coordinator_locations; dingodb.pb.common.Location auto_increment_leader_location; dingodb.pb.common.CoordinatorMap coordinator_map; dingodb.pb.common.Location kv_leader_location; dingodb.pb.common.Location leader_location; dingodb.pb.common.Location tso_leader_location; int64 epoch; }
message ConfigCoordinatorResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message CreateRegionIdRequest { dingodb.pb.common.RequestInfo request_info; uint32 count; }
message CreateRegionIdResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated int64 region_ids; }
message QueryRegionRequest { dingodb.pb.common.RequestInfo request_info; int64 region_id; }
message QueryRegionResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; dingodb.pb.common.Region region; }
message CreateRegionRequest { dingodb.pb.common.RequestInfo request_info; string region_name; string resource_tag; int64 replica_num; dingodb.pb.common.Range range; dingodb.pb.common.RawEngine raw_engine; dingodb.pb.common.StorageEngine store_engine; int64 schema_id; int64 table_id; int64 index_id; int64 part_id; int64 tenant_id; int64 split_from_region_id; int64 region_id; dingodb.pb.common.RegionType region_type; dingodb.pb.common.IndexParameter index_parameter; bool use_region_name_direct; repeated int64 store_ids; }
message CreateRegionResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 region_id; }
message DropRegionRequest { dingodb.pb.common.RequestInfo request_info; int64 region_id; }
message DropRegionResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message DropRegionPermanentlyRequest { dingodb.pb.common.RequestInfo request_info; int64 cluster_id; int64 region_id; }
message DropRegionPermanentlyResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message ChangePeerRegionRequest { dingodb.pb.common.RequestInfo request_info; ChangePeerRequest change_peer_request; }
message ChangePeerRegionResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message GetOrphanRegionRequest { dingodb.pb.common.RequestInfo request_info; int64 store_id; }
message GetOrphanRegionResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; map<int64, dingodb.pb.common.RegionMetrics> orphan_regions; }
message TransferLeaderRegionRequest { dingodb.pb.common.RequestInfo request_info; int64 region_id; int64 leader_store_id; bool is_force; }
message TransferLeaderRegionResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message GetStoreOperationRequest { dingodb.pb.common.RequestInfo request_info; int64 store_id; }
message GetStoreOperationResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated StoreOperation store_operations; }
message CleanStoreOperationRequest { dingodb.pb.common.RequestInfo request_info; int64 store_id; }
message CleanStoreOperationResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message AddStoreOperationRequest { dingodb.pb.common.RequestInfo request_info; StoreOperation store_operation; }
message AddStoreOperationResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message RemoveStoreOperationRequest { dingodb.pb.common.RequestInfo request_info; int64 store_id; int64 region_cmd_id; }
message RemoveStoreOperationResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message GetRegionCmdRequest { dingodb.pb.common.RequestInfo request_info; int64 store_id; int64 start_region_cmd_id; int64 end_region_cmd_id; }
message GetRegionCmdResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated RegionCmd region_cmds; repeated dingodb.pb.error.Error region_cmd_errors; }
message GetJobListRequest { dingodb.pb.common.RequestInfo request_info; int64 archive_limit; int64 archive_start_id; bool get_job_id_only; bool include_archive; int64 job_id; }
message GetJobListResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated Job job_list; }
message CleanJobListRequest { dingodb.pb.common.RequestInfo request_info; int64 job_id; }
message CleanJobListResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message ScanRegionsRequest { dingodb.pb.common.RequestInfo request_info; bytes key; bytes range_end; int64 limit; }
message ScanRegionsResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated ScanRegionInfo regions; }
message GetRangeRegionMapRequest { dingodb.pb.common.RequestInfo request_info; }
message GetRangeRegionMapResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated RangeRegion range_regions; }
message BalanceLeaderRequest { dingodb.pb.common.RequestInfo request_info; dingodb.pb.common.StoreType store_type; bool dryrun; }
message BalanceLeaderResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; string leader_score; string expect_leader_score; repeated BalanceLeaderTask tasks; }
message BalanceRegionRequest { dingodb.pb.common.RequestInfo request_info; dingodb.pb.common.StoreType store_type; bool dryrun; }
message BalanceRegionResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; string score; BalanceLeaderTask task; }
message CreateIdsRequest { dingodb.pb.common.RequestInfo request_info; IdEpochType id_epoch_type; int64 count; }
message RegisterBackupResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message UnRegisterBackupRequest { dingodb.pb.common.RequestInfo request_info; string backup_name; }
message UnRegisterBackupResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message ControlConfigRequest { dingodb.pb.common.RequestInfo request_info; repeated dingodb.pb.common.ControlConfigVariable control_config_variable; }
message ControlConfigResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated dingodb.pb.common.ControlConfigVariable control_config_variable; }
message RegisterRestoreResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message UnRegisterRestoreRequest { dingodb.pb.common.RequestInfo request_info; string restore_name; }
message UnRegisterRestoreResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message RegisterBackupStatusRequest { dingodb.pb.common.RequestInfo request_info; }
message RegisterBackupStatusResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; bool is_backing_up; string backup_name; }
message RegisterRestoreStatusRequest { dingodb.pb.common.RequestInfo request_info; }
message RegisterRestoreStatusResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; bool is_restoring; string restore_name; }
svc CoordinatorService: Hello(HelloRequest,HelloResponse) GetMemoryInfo(HelloRequest,HelloResponse) StoreHeartbeat(StoreHeartbeatRequest,StoreHeartbeatResponse) GetRegionMap(GetRegionMapRequest,GetRegionMapResponse) GetDeletedRegionMap(GetDeletedRegionMapRequest,GetDeletedRegionMapResponse) AddDeletedRegionMap(AddDeletedRegionMapRequest,AddDeletedRegionMapResponse) CleanDeletedRegionMap(CleanDeletedRegionMapRequest,CleanDeletedRegionMapResponse) GetRegionCount(GetRegionCountRequest,GetRegionCountResponse) GetStoreMap(GetStoreMapRequest,GetStoreMapResponse) GetStoreMetrics(GetStoreMetricsRequest,GetStoreMetricsResponse) GetStoreOwnMetrics(GetStoreOwnMetricsRequest,GetStoreOwnMetricsResponse) DeleteStoreMetrics(DeleteStoreMetricsRequest,DeleteStoreMetricsResponse) GetRegionMetrics(GetRegionMetricsRequest,GetRegionMetricsResponse) DeleteRegionMetrics(DeleteRegionMetricsRequest,DeleteRegionMetricsResponse) CreateStore(CreateStoreRequest,CreateStoreResponse) DeleteStore(DeleteStoreRequest,DeleteStoreResponse) UpdateStore(UpdateStoreRequest,UpdateStoreResponse) ExecutorHeartbeat(ExecutorHeartbeatRequest,ExecutorHeartbeatResponse) CreateExecutor(CreateExecutorRequest,CreateExecutorResponse) DeleteExecutor(DeleteExecutorRequest,DeleteExecutorResponse) GetExecutorMap(GetExecutorMapRequest,GetExecutorMapResponse) CreateExecutorUser(CreateExecutorUserRequest,CreateExecutorUserResponse) UpdateExecutorUser(UpdateExecutorUserRequest,UpdateExecutorUserResponse) DeleteExecutorUser(DeleteExecutorUserRequest,DeleteExecutorUserResponse) GetExecutorUserMap(GetExecutorUserMapRequest,GetExecutorUserMapResponse) GetCoordinatorMap(GetCoordinatorMapRequest,GetCoordinatorMapResponse) ConfigCoordinator(ConfigCoordinatorRequest,ConfigCoordinatorResponse) CreateRegionId(CreateRegionIdRequest,CreateRegionIdResponse) QueryRegion(QueryRegionRequest,QueryRegionResponse) CreateRegion(CreateRegionRequest,CreateRegionResponse) DropRegion(DropRegionRequest,DropRegionResponse) DropRegionPermanently(DropRegionPermanentlyRequest,DropRegionPermanentlyResponse) SplitRegion(SplitRegionRequest,SplitRegionResponse) MergeRegion(MergeRegionRequest,MergeRegionResponse) ChangePeerRegion(ChangePeerRegionRequest,ChangePeerRegionResponse) GetOrphanRegion(GetOrphanRegionRequest,GetOrphanRegionResponse) TransferLeaderRegion(TransferLeaderRegionRequest,TransferLeaderRegionResponse) GetStoreOperation(GetStoreOperationRequest,GetStoreOperationResponse) CleanStoreOperation(CleanStoreOperationRequest,CleanStoreOperationResponse) AddStoreOperation(AddStoreOperationRequest,AddStoreOperationResponse) RemoveStoreOperation(RemoveStoreOperationRequest,RemoveStoreOperationResponse) GetRegionCmd(GetRegionCmdRequest,GetRegionCmdResponse) GetJobList(GetJobListRequest,GetJobListResponse) CleanJobList(CleanJobListRequest,CleanJobListResponse) UpdateRegionCmdStatus(UpdateRegionCmdStatusRequest,UpdateRegionCmdStatusResponse) RaftControl(RaftControlRequest,RaftControlResponse) ScanRegions(ScanRegionsRequest,ScanRegionsResponse) GetRangeRegionMap(GetRangeRegionMapRequest,GetRangeRegionMapResponse) UpdateGCSafePoint(UpdateGCSafePointRequest,UpdateGCSafePointResponse) GetGCSafePoint(GetGCSafePointRequest,GetGCSafePointResponse) BalanceLeader(BalanceLeaderRequest,BalanceLeaderResponse) BalanceRegion(BalanceRegionRequest,BalanceRegionResponse) CreateIds(CreateIdsRequest,CreateIdsResponse) RegisterBackup(RegisterBackupRequest,RegisterBackupResponse) UnRegisterBackup(UnRegisterBackupRequest,UnRegisterBackupResponse) ControlConfig(ControlConfigRequest,ControlConfigResponse) RegisterRestore(RegisterRestoreRequest,RegisterRestoreResponse) UnRegisterRestore(UnRegisterRestoreRequest,UnRegisterRestoreResponse) RegisterBackupStatus(RegisterBackupStatusRequest,RegisterBackupStatusResponse) RegisterRestoreStatus(RegisterRestoreStatusRequest,RegisterRestoreStatusResponse)
message RangeRegion { string start_key; int64 region_id; string end_key; }
message ScanRegionStatus { dingodb.pb.common.ReplicaStatus replica_status; dingodb.pb.common.RegionRaftStatus raft_status; dingodb.pb.common.RegionHeartbeatState heartbeat_state; int64 last_update_timestamp; dingodb.pb.common.RegionState state; dingodb.pb.common.RegionType region_type; int64 create_timestamp; }
