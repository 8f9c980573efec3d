pkg coordinator_internal
imp common coordinator meta error
enum MetaIncrementOpType { CREATE; UPDATE; DELETE; MODIFY; }
enum KvIndexEventType { KV_INDEX_EVENT_TYPE_NONE; KV_INDEX_EVENT_TYPE_PUT; KV_INDEX_EVENT_TYPE_DELETE; KV_INDEX_EVENT_TYPE_COMPACTION; }
enum AutoIncrementUpdateType { UPDATE_ONLY; READ_MODIFY_WRITE; }
message IdEpochInternal { int64 id; int64 value; }
message CoordinatorInternal { int64 id; dingodb.pb.common.CoordinatorState state; dingodb.pb.common.Location location; }
message SchemaInternal { int64 id; string name; repeated int64 table_ids; repeated int64 index_ids; int64 tenant_id; int64 revision; }
message TenantInternal { int64 id; string name; string comment; int64 create_timestamp; int64 update_timestamp; int64 revision; int64 delete_timestamp; int64 safe_point_ts; int64 resolve_lock_safe_point; }
message RegionInternal { int64 id; int64 epoch; dingodb.pb.common.RegionState state; dingodb.pb.common.RegionType region_type; dingodb.pb.common.RegionDefinition definition; int64 create_timestamp; int64 deleted_timestamp; int64 last_change_job_id; dingodb.pb.common.RegionStatus region_status; int64 leader_store_id; int64 update_timestamp; }
message PartitionInternal { int64 region_id; int64 part_id; }
message TableInternal { int64 id; int64 schema_id; int64 table_id; dingodb.pb.meta.TableDefinition definition; repeated PartitionInternal partitions; dingodb.pb.common.Range range; int64 tenant_id; int64 revision; }
message TableIndexInternal { int64 id; repeated dingodb.pb.meta.DingoCommonId table_ids; int64 revision; int64 tenant_id; }
message StoreOperationInternal { int64 id; repeated int64 region_cmd_ids; }
message RegionCmdInternal { int64 id; int64 store_id; int64 store_operation_id; dingodb.pb.coordinator.RegionCmd region_cmd; bool is_notify; dingodb.pb.error.Error error; dingodb.pb.coordinator.RegionCmdStatus status; }
message ExecutorUserInternal { string id; string keyring; }
message CommonInternal { string id; dingodb.pb.common.KeyValue kv; bytes value; int64 int_value; dingodb.pb.common.CoordinatorServiceType x; }
message TableMetricsInternal { int64 id; dingodb.pb.meta.TableMetrics table_metrics; }
message IndexMetricsInternal { int64 id; dingodb.pb.meta.IndexMetrics index_metrics; }
message LeaseInternal { int64 id; int64 ttl_seconds; int64 create_ts_seconds; int64 last_renew_ts_seconds; }
message RevisionInternal { int64 main; int64 sub; }
message KvInternal { bytes id; bytes value; RevisionInternal create_revision; RevisionInternal mod_revision; int64 version; int64 lease; bool is_deleted; }
message KvRevInternal { bytes id; KvInternal kv; }
message KvIndexInternal { bytes id; message Generation { int64 verison; RevisionInternal create_revision; repeated RevisionInternal revisions; } RevisionInternal mod_revision; repeated Generation generations; }
message TsoInternal { dingodb.pb.meta.TsoRequest tso_request; }
message TsoStorage { int64 physical; }
message AutoIncrementElement { int64 table_id; int64 start_id; }
message AutoIncrementStorage { repeated AutoIncrementElement elements; }
message AutoIncrementInternal { int64 start_id; uint32 generate_count; uint32 auto_increment_increment; uint32 auto_increment_offset; AutoIncrementUpdateType update_type; int64 source_start_id; int64 increment; int64 offset; }
message MetaIncrementIdEpoch { int64 id; MetaIncrementOpType op_type; IdEpochInternal idepoch; }
message MetaIncrementCoordinator { int64 id; MetaIncrementOpType op_type; CoordinatorInternal coordinator; }
message MetaIncrementStore { int64 id; MetaIncrementOpType op_type; dingodb.pb.common.Store store; }
message MetaIncrementExecutor { string id; MetaIncrementOpType op_type; dingodb.pb.common.Executor executor; }
message MetaIncrementSchema { int64 id; MetaIncrementOpType op_type; int64 schema_id; SchemaInternal schema_internal; }
message MetaIncrementTenant { int64 id; MetaIncrementOpType op_type; TenantInternal tenant; }
message MetaIncrementRegion { int64 id; MetaIncrementOpType op_type; RegionInternal region; int64 table_id; }
message MetaIncrementTable { int64 id; MetaIncrementOpType op_type; int64 schema_id; TableInternal table; }
message MetaIncrementIndex { int64 id; MetaIncrementOpType op_type; int64 schema_id; TableInternal table; TableInternal index; }
message MetaIncrementTableIndex { int64 id; MetaIncrementOpType op_type; TableIndexInternal table_indexes; repeated dingodb.pb.meta.DingoCommonId table_ids_to_add; repeated dingodb.pb.meta.DingoCommonId table_ids_to_del; }
message MetaIncrementStoreMetrics { int64 id; MetaIncrementOpType op_type; dingodb.pb.common.StoreMetrics store_metrics; }
message MetaIncrementTableMetrics { int64 id; MetaIncrementOpType op_type; TableMetricsInternal table_metrics; }
message MetaIncrementIndexMetrics { int64 id; MetaIncrementOpType op_type; IndexMetricsInternal index_metrics; }
message MoveRegionCmd { int64 from_store_id; int64 to_store_id; int64 region_cmd_id; }
message MetaIncrementStoreOperation { int64 id; MetaIncrementOpType op_type; StoreOperationInternal store_operation; MoveRegionCmd move_region_cmd; }
message MetaIncrementRegionCmdStatus { int64 region_cmd_id; dingodb.pb.coordinator.RegionCmdStatus status; dingodb.pb.error.Error error; }
message MetaIncrementRegionCmd { int64 id; MetaIncrementOpType op_type; RegionCmdInternal region_cmd; }
message MetaIncrementExecutorUser { string id; MetaIncrementOpType op_type; ExecutorUserInternal executor_user; }
message MetaIncrementJob { int64 id; MetaIncrementOpType op_type; int64 job_id; dingodb.pb.coordinator.Job job; MoveRegionCmd move_region_cmd; repeated MetaIncrementRegionCmdStatus region_cmds_status; }
message MetaIncrementLease { int64 id; MetaIncrementOpType op_type; LeaseInternal lease; }
message MetaIncrementKvIndex { bytes id; MetaIncrementOpType op_type; KvIndexEventType event_type; RevisionInternal op_revision; bool ignore_value; bool ignore_lease; int64 lease_id; bytes value; }
message MetaIncrementKvRev { bytes id; MetaIncrementOpType op_type; KvRevInternal kv_rev; }
message MetaIncrementTso { int64 id; MetaIncrementOpType op_type; dingodb.pb.meta.TsoRequest tso_request; }
message MetaIncrementAutoIncrement { int64 id; MetaIncrementOpType op_type; AutoIncrementInternal increment; }
message MetaIncrementCommon { string id; MetaIncrementOpType op_type; CommonInternal common; }
message MetaIncrement { repeated MetaIncrementIdEpoch idepochs; repeated MetaIncrementCoordinator coordinators; repeated MetaIncrementStore stores; repeated MetaIncrementExecutor executors; repeated MetaIncrementSchema schemas; repeated MetaIncrementRegion regions; repeated MetaIncrementRegion deleted_regions; repeated MetaIncrementTable tables; repeated MetaIncrementTable deleted_tables; repeated MetaIncrementStoreMetrics store_metrics; repeated MetaIncrementTableMetrics table_metrics; repeated MetaIncrementStoreOperation store_operations; repeated MetaIncrementRegionCmd region_cmds; repeated MetaIncrementExecutorUser executor_users; repeated MetaIncrementJob jobs; repeated MetaIncrementTso timestamp_oracles; repeated MetaIncrementAutoIncrement auto_increment; repeated MetaIncrementIndex indexes; repeated MetaIncrementIndex deleted_indexes; repeated MetaIncrementIndexMetrics index_metrics; repeated MetaIncrementLease leases; repeated MetaIncrementKvIndex kv_indexes; repeated MetaIncrementKvRev kv_revs; repeated MetaIncrementTableIndex table_indexes; repeated MetaIncrementCommon common_disk_s; repeated MetaIncrementCommon common_mem_s; repeated MetaIncrementTenant tenants; }
message MetaSnapshotFile { repeated dingodb.pb.common.KeyValue id_epoch_map_kvs; repeated dingodb.pb.common.KeyValue coordinator_map_kvs; repeated dingodb.pb.common.KeyValue store_map_kvs; repeated dingodb.pb.common.KeyValue executor_map_kvs; repeated dingodb.pb.common.KeyValue schema_map_kvs; repeated dingodb.pb.common.KeyValue region_map_kvs; repeated dingodb.pb.common.KeyValue deleted_region_map_kvs; repeated dingodb.pb.common.KeyValue table_map_kvs; repeated dingodb.pb.common.KeyValue deleted_table_map_kvs; repeated dingodb.pb.common.KeyValue store_operation_map_kvs; repeated dingodb.pb.common.KeyValue region_cmd_map_kvs; repeated dingodb.pb.common.KeyValue executor_user_map_kvs; repeated dingodb.pb.common.KeyValue job_map_kvs; repeated dingodb.pb.common.KeyValue index_map_kvs; repeated dingodb.pb.common.KeyValue deleted_index_map_kvs; repeated dingodb.pb.common.KeyValue table_index_map_kvs; repeated dingodb.pb.common.KeyValue lease_map_kvs; repeated dingodb.pb.common.KeyValue kv_index_map_kvs; repeated dingodb.pb.common.KeyValue kv_rev_map_kvs; repeated dingodb.pb.common.KeyValue common_disk_map_kvs; repeated dingodb.pb.common.KeyValue common_mem_map_kvs; repeated dingodb.pb.common.KeyValue tenant_map_kvs; TsoStorage tso_storage; AutoIncrementStorage auto_increment_storage; }
