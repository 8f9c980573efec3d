pkg version
imp common error coordinator_internal coordinator
enum VersionType { VersionType_x; }
enum EventFilterType { NOPUT; NODELETE; }
message VersionId { VersionType type; int64 id; }
message Kv { int64 create_revision; int64 mod_revision; int64 version; int64 lease; dingodb.pb.common.KeyValue kv; }
message Event { enum EventType { NONE; NOT_EXISTS; PUT; DELETE; } EventType type; Kv kv; Kv prev_kv; }
message ResponseHeader { int64 cluster_id; int64 member_id; int64 revision; int64 raft_term; }
message RangeRequest { dingodb.pb.common.RequestInfo request_info; bytes key; bytes range_end; int64 limit; int64 revision; bool keys_only; bool count_only; bool serializable; int64 min_mod_revision; int64 max_mod_revision; int64 min_create_revision; int64 max_create_revision; }
message RangeResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; ResponseHeader header; repeated Kv kvs; bool more; int64 count; }
message PutRequest { dingodb.pb.common.RequestInfo request_info; dingodb.pb.common.KeyValue key_value; int64 lease; bool need_prev_kv; bool ignore_value; bool ignore_lease; }
message PutResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; ResponseHeader header; Kv prev_kv; }
message DeleteRangeRequest { dingodb.pb.common.RequestInfo request_info; bytes key; bytes range_end; bool need_prev_kv; }
message DeleteRangeResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; ResponseHeader header; int64 deleted; repeated Kv prev_kvs; }
message CompactionRequest { dingodb.pb.common.RequestInfo request_info; bytes key; bytes range_end; int64 compact_revision; }
message CompactionResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; ResponseHeader header; int64 count; int64 compaction_count; }
message LeaseGrantRequest { dingodb.pb.common.RequestInfo request_info; int64 id; int64 ttl; }
message LeaseGrantResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; ResponseHeader header; int64 id; int64 ttl; }
message LeaseRevokeRequest { dingodb.pb.common.RequestInfo request_info; int64 id; }
message LeaseRevokeResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; ResponseHeader header; }
message LeaseRenewRequest { dingodb.pb.common.RequestInfo request_info; int64 id; }
message LeaseRenewResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; ResponseHeader header; int64 id; int64 ttl; }
message LeaseQueryRequest { dingodb.pb.common.RequestInfo request_info; int64 id; bool keys; }
message LeaseQueryResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; ResponseHeader header; int64 id; int64 ttl; int64 grantedttl; repeated bytes keys; }
message LeaseStatus { int64 id; }
message ListLeasesRequest { dingodb.pb.common.RequestInfo request_info; }
message ListLeasesResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; ResponseHeader header; repeated LeaseStatus leases; }
message OneTimeWatchRequest { bytes key; bytes range_end_x; bool need_prev_kv; bool wait_on_not_exist_key; int64 start_revision; repeated EventFilterType filters; }
message WatchRequest { dingodb.pb.common.RequestInfo request_info; OneTimeWatchRequest one_time_request; }
message WatchResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; ResponseHeader header; repeated Event events; int64 compact_revision; bool canceled_x; }
message HelloRequest { int64 hello; bool is_just_version_info; bool get_memory_info; dingodb.pb.common.RequestInfo request_info; }
message HelloResponse { dingodb.pb.error.Error error; dingodb.pb.common.VersionInfo version_info; dingodb.pb.common.ResponseInfo response_info; string status_detail; dingodb.pb.coordinator.CoordinatorMemoryInfo memory_info; }
message GetCurrVersionRequest { dingodb.pb.common.RequestInfo request_info; VersionId verid; }
message GetCurrVersionResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 version; }
message GetNewVersionRequest { dingodb.pb.common.RequestInfo request_info; VersionId verid; int64 version; }
message GetNewVersionResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 version; }
message GetRawKvIndexRequest { dingodb.pb.common.RequestInfo request_info; bytes key; }
message KvIndex0 { int32 x; }
message GetRawKvIndexResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; dingodb.pb.coordinator_internal.KvIndexInternal kvindex; }
message GetRawKvRevRequest { dingodb.pb.common.RequestInfo request_info; dingodb.pb.coordinator_internal.RevisionInternal revision; }
message GetRawKvRevResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; dingodb.pb.coordinator_internal.KvRevInternal kvrev; }
svc VersionService: Hello GetMemoryInfo(HelloRequest,HelloResponse) GetCurrVersion GetNewVersion LeaseGrant LeaseRevoke LeaseRenew LeaseQuery ListLeases GetRawKvIndex GetRawKvRev KvRange(RangeRequest,RangeResponse) KvPut(PutRequest,PutResponse) KvDeleteRange(DeleteRangeRequest,DeleteRangeResponse) KvCompaction(CompactionRequest,CompactionResponse) Watch
