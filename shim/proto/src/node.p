pkg node
imp common error store_internal
enum LogLevel { DEBUG; INFO; WARNING; ERROR; FATAL; }
message NodeInfo { int64 id; dingodb.pb.common.ClusterRole role; dingodb.pb.common.Location server_location; dingodb.pb.common.Location raft_location; }
message GetNodeInfoRequest { dingodb.pb.common.RequestInfo request_info; string cluster_name; int64 cluster_id; }
message GetNodeInfoResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; NodeInfo node_info; }
message GetRegionInfoRequest { dingodb.pb.common.RequestInfo request_info; repeated int64 region_ids; }
message GetRegionInfoResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated dingodb.pb.store_internal.Region regions; }
message RaftStatusEntry { int64 region_id; dingodb.pb.common.BRaftStatus raft_status; }
message GetRaftStatusRequest { dingodb.pb.common.RequestInfo request_info; repeated int64 region_ids; }
message GetRaftStatusResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated RaftStatusEntry entries; }
message VectorIndexSnapshotMeta { int64 vector_index_id; int64 snapshot_log_index; repeated string filenames; dingodb.pb.common.RegionEpoch epoch; dingodb.pb.common.Range range; }
message InstallVectorIndexSnapshotRequest { dingodb.pb.common.RequestInfo request_info; string uri; VectorIndexSnapshotMeta meta; }
message InstallVectorIndexSnapshotResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message GetVectorIndexSnapshotRequest { dingodb.pb.common.RequestInfo request_info; int64 vector_index_id; }
message GetVectorIndexSnapshotResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; string uri; VectorIndexSnapshotMeta meta; }
message CheckVectorIndexRequest { dingodb.pb.common.RequestInfo request_info; int64 vector_index_id; bool need_hold_if_absent; int64 x; int64 job_id; }
message CheckVectorIndexResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; bool is_exist; int64 last_build_epoch_version; }
message CommitMergeRequest { dingodb.pb.common.RequestInfo request_info; int64 job_id; int64 source_region_id; dingodb.pb.common.RegionEpoch source_region_epoch; int64 target_region_id; dingodb.pb.common.RegionEpoch target_region_epoch; int64 prepare_merge_log_id; dingodb.pb.common.RegionDefinition source_region_definition; repeated dingodb.pb.common.KeyValue entries_x; }
message CommitMergeResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
svc NodeService: GetNodeInfo GetRegionInfo GetRaftStatus InstallVectorIndexSnapshot GetVectorIndexSnapshot CheckVectorIndex CommitMerge
