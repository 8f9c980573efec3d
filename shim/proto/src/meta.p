pkg meta
imp common error coordinator
enum EntityType { ENTITY_TYPE_TABLE; ENTITY_TYPE_PART; ENTITY_TYPE_INDEX; ENTITY_TYPE_SCHEMA; ENTITY_TYPE_TENANT; ENTITY_TYPE_REGION; }
enum ReservedSchemaIds { ROOT_SCHEMA = 0; META_SCHEMA = 1; DINGO_SCHEMA = 2; MYSQL_SCHEMA = 3; INFORMATION_SCHEMA = 4; }
enum TsoOpType { OP_NONE; OP_GEN_TSO; OP_RESET_TSO; OP_UPDATE_TSO; OP_QUERY_TSO_INFO; }
enum PartitionStrategy { PT_STRATEGY_RANGE; PT_STRATEGY_HASH; }
enum MetaEventType { META_EVENT_NONE; META_EVENT_TENANT_CREATE; META_EVENT_TENANT_UPDATE; META_EVENT_TENANT_DELETE; META_EVENT_SCHEMA_CREATE; META_EVENT_SCHEMA_UPDATE; META_EVENT_SCHEMA_DELETE; META_EVENT_TABLE_CREATE; META_EVENT_TABLE_UPDATE; META_EVENT_TABLE_DELETE; META_EVENT_TABLE_INDEX_CREATE; META_EVENT_TABLE_INDEX_UPDATE; META_EVENT_TABLE_INDEX_DELETE; META_EVENT_INDEX_CREATE; META_EVENT_INDEX_UPDATE; META_EVENT_INDEX_DELETE; META_EVENT_REGION_CREATE; META_EVENT_REGION_UPDATE; META_EVENT_REGION_DELETE; }
message DingoCommonId { EntityType entity_type; int64 parent_entity_id; int64 entity_id; }
message TsoTimestamp { int64 physical; int64 logical; }
message TsoRequest { dingodb.pb.common.RequestInfo request_info; TsoOpType op_type; int64 count; TsoTimestamp current_timestamp; int64 save_physical; bool force; }
message TsoResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; TsoOpType op_type; TsoTimestamp start_timestamp; int64 count; int64 system_time; int64 save_physical; string leader_location; dingodb.pb.common.Location x; }
message ColumnDefinition { string name; string sql_type; string element_type; int32 precision; int32 scale; bool nullable; int32 indexOfKey; bool has_default_val; string default_val; bool is_auto_increment; int32 state; string comment; int32 create_version; int32 update_version; int32 delete_version; }
message Partition { DingoCommonId id; dingodb.pb.common.Range range; string name; repeated string operand; repeated string column_names; int64 schema_version; }
message PartitionRule { repeated string columns; repeated Partition partitions; PartitionStrategy strategy; }
message TableDefinition { string name; repeated ColumnDefinition columns; int32 version; uint64 ttl; PartitionRule table_partition; dingodb.pb.common.Engine engine; map<string, string> properties; int64 auto_increment; string create_sql; dingodb.pb.common.IndexParameter index_parameter; int32 replica; string comment; string charset; string collate; string table_type; int32 rowFormat; int64 create_timestamp; int64 update_timestamp; int64 delete_timestamp; dingodb.pb.common.StorageEngine store_engine; int64 revision; }
message IndexDefinition { string name; int32 version; PartitionRule index_partition; int32 replica; dingodb.pb.common.IndexParameter index_parameter; bool with_auto_incrment; int64 auto_increment; dingodb.pb.common.Engine engine; dingodb.pb.common.StorageEngine store_engine; int64 revision; int64 create_timestamp; int64 update_timestamp; int64 delete_timestamp; }
message IndexDefinitionWithId { DingoCommonId index_id; IndexDefinition index_definition; int64 tenant_id; }
message TableDefinitionWithId { DingoCommonId table_id; TableDefinition table_definition; int64 tenant_id; }
message TableIdWithPartIds { DingoCommonId table_id; repeated DingoCommonId part_ids; }
message TableWithPartCount { int32 x; bool has_table; int64 table_part_count; int64 index_count; repeated int64 index_part_count; }
message Schema { DingoCommonId id; string name; repeated DingoCommonId table_ids; repeated DingoCommonId index_ids; int64 revision; int64 tenant_id; }
message Tenant { int64 id; string name; string comment; int64 create_timestamp; int64 update_timestamp; int64 revision; int64 delete_timestamp; int64 safe_point_ts; int64 resolve_lock_safe_point_ts; }
message RangeDistribution { DingoCommonId id; dingodb.pb.common.Range range; dingodb.pb.common.Location leader; repeated dingodb.pb.common.Location voters; repeated dingodb.pb.common.Location learners; dingodb.pb.common.RegionEpoch region_epoch; PartStatus status; int64 part_id_x; int64 storemap_epoch; int64 regionmap_epoch; RegionStatusX status_x; }
message TableRange { repeated RangeDistribution range_distribution; }
message IndexRange { repeated RangeDistribution range_distribution; }
message TableMetrics { int64 rows_count; bytes min_key; bytes max_key; int64 part_count; int64 size_x; int64 table_size; int64 index_size; }
message IndexMetrics { int64 rows_count; bytes min_key; bytes max_key; int64 part_count; dingodb.pb.common.VectorIndexType vector_index_type; int64 current_count; int64 deleted_count; int64 max_id; int64 min_id; int64 memory_bytes; int64 index_size; dingodb.pb.common.DocumentIndexMetrics x; int64 total_num_docs; int64 total_num_tokens; string meta_json; string json_parameter; }
message TableMetricsWithId { DingoCommonId id; TableMetrics table_metrics; }
message IndexMetricsWithId { DingoCommonId id; IndexMetrics index_metrics; }
message TableIncrement { int64 table_id; int64 start_id; }
message TableIncrementGroup { repeated TableIncrement table_increments; }
message IdEpochTypeAndValueItem { dingodb.pb.coordinator.IdEpochType type; int64 value; }
message IdEpochTypeAndValue { repeated IdEpochTypeAndValueItem items; }
message TablesAndIndexes { repeated TableDefinitionWithId tables; repeated IndexDefinitionWithId indexes; }
message Schemas { repeated Schema schemas; }
message MetaEventRegion { int64 id; int64 x; dingodb.pb.common.RegionDefinition definition; int64 create_timestamp; int64 deleted_timestamp; dingodb.pb.common.RegionState state; dingodb.pb.common.RegionType region_type; }
message MetaEventSchema { int64 id; string name; int64 tenant_id; int64 revision; }
message MetaEventTable { int64 id; int64 schema_id; TableDefinition definition; string name; int64 parent_x; int64 table_type_x; dingodb.pb.common.Range x; int64 tenant_id; repeated Partition y; int64 parent_table_id; }
message MetaEventTableIndex { int64 id; int64 schema_id_x; repeated DingoCommonId table_ids; repeated TableDefinitionWithId table_definition_with_ids; TableDefinition definition; int64 revision; string name; }
message MetaEventIndex { int64 id; int64 schema_id; TableDefinition definition; string name; int64 parent_table_id; }
message MetaEvent { MetaEventType event_type; oneof event { MetaEventRegion region; MetaEventSchema schema; MetaEventTable table; MetaEventTableIndex table_index; MetaEventIndex index; Tenant tenant; } int64 revision_x; }
message WatchCreateRequest { int64 watch_id; int64 start_revision; repeated MetaEventType event_types; }
message WatchProgressRequest { int64 watch_id; }
message WatchCancelRequest { int64 watch_id; }
message WatchRequest { dingodb.pb.common.RequestInfo request_info; oneof request_union { WatchCreateRequest create_request; WatchProgressRequest progress_request; WatchCancelRequest cancel_request; } }
message WatchResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 watch_id; bool created; bool canceled; int64 compact_revision; string cancel_reason; repeated MetaEvent events; }
message ListWatchResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated WatchNode watch_nodes; message WatchNode { int64 watch_id; repeated MetaEventType event_types; int64 start_revision; int64 watched_revision; int64 last_send_timestamp_ms; bool is_watching; repeated MetaEvent pending_events; } }
message AutoReq { dingodb.pb.common.RequestInfo request_info; DingoCommonId table_id; }
message GetAutoIncrementsRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId table_id; }
message GetAutoIncrementsResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated TableIncrement table_increments; }
message GetAutoIncrementRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId table_id; int64 start_id; bool force; uint32 count; uint32 auto_increment_increment; uint32 auto_increment_offset; }
message GetAutoIncrementResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 start_id; int64 end_id; }
message CreateAutoIncrementRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId table_id; int64 start_id; bool force; uint32 count; uint32 auto_increment_increment; uint32 auto_increment_offset; }
message CreateAutoIncrementResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 start_id; int64 end_id; }
message UpdateAutoIncrementRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId table_id; int64 start_id; bool force; uint32 count; uint32 auto_increment_increment; uint32 auto_increment_offset; }
message UpdateAutoIncrementResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 start_id; int64 end_id; }
message GenerateAutoIncrementRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId table_id; int64 start_id; bool force; uint32 count; uint32 auto_increment_increment; uint32 auto_increment_offset; }
message GenerateAutoIncrementResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 start_id; int64 end_id; }
message DeleteAutoIncrementRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId table_id; int64 start_id; bool force; uint32 count; uint32 auto_increment_increment; uint32 auto_increment_offset; }
message DeleteAutoIncrementResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 start_id; int64 end_id; }
message CreateAutoIncrementsRequest { dingodb.pb.common.RequestInfo request_info; TableIncrementGroup table_increment_group; }
message CreateAutoIncrementsResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 x; }
message CreateOrUpdateAutoIncrementsRequest { dingodb.pb.common.RequestInfo request_info; TableIncrementGroup table_increment_group; }
message CreateOrUpdateAutoIncrementsResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 x; }
message UpdateTenantRequest { dingodb.pb.common.RequestInfo request_info; Tenant tenant; }
message UpdateTenantResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; Tenant tenant; }
message CreateTenantRequest { dingodb.pb.common.RequestInfo request_info; Tenant tenant; }
message CreateTenantResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; Tenant tenant; }
message CreateTenantsRequest { dingodb.pb.common.RequestInfo request_info; repeated Tenant tenants; }
message CreateTenantsResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error;  }
message DropTenantRequest { dingodb.pb.common.RequestInfo request_info; int64 tenant_id; }
message DropTenantResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error;  }
message GetTenantsRequest { dingodb.pb.common.RequestInfo request_info; repeated int64 tenant_ids; }
message GetTenantsResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated Tenant tenants; }
message SwitchAutoSplitRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId table_id; bool auto_split; }
message SwitchAutoSplitResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error;  }
message SaveIdEpochTypeRequest { dingodb.pb.common.RequestInfo request_info;  }
message SaveIdEpochTypeResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; IdEpochTypeAndValue id_epoch_type_and_value; }
message ImportIdEpochTypeRequest { dingodb.pb.common.RequestInfo request_info; IdEpochTypeAndValue id_epoch_type_and_value; }
message ImportIdEpochTypeResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error;  }
message MetaALL { repeated Tenant tenants; map<int64, Schemas> schemas; map<string, TablesAndIndexes> tables_and_indexes; }
message ImportMetaRequest { dingodb.pb.common.RequestInfo request_info; MetaALL meta_all; }
message ImportMetaResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error;  }
message ExportMetaRequest { dingodb.pb.common.RequestInfo request_info;  }
message ExportMetaResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; MetaALL meta_all; }
message GetDeletedTableRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId table_id; }
message GetDeletedTableResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated TableDefinitionWithId table_definition_with_ids; }
message GetDeletedIndexRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId index_id; }
message GetDeletedIndexResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated TableDefinitionWithId table_definition_with_ids; }
message DropIndexOnTableRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId table_id; DingoCommonId index_id; }
message DropIndexOnTableResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error;  }
message CreateSchemasRequest { dingodb.pb.common.RequestInfo request_info; map<int64, Schemas> schemas; }
message CreateSchemasResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error;  }
message CreateIndexMetasRequest { dingodb.pb.common.RequestInfo request_info; map<string, TablesAndIndexes> tables_and_indexes; }
message CreateIndexMetasResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error;  }
message CleanDeletedTableRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId table_id; }
message CleanDeletedTableResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error;  }
message CleanDeletedIndexRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId index_id; }
message CleanDeletedIndexResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error;  }
message ListWatchRequest { dingodb.pb.common.RequestInfo request_info; int64 watch_id; }
message HelloRequest { dingodb.pb.common.RequestInfo request_info; int64 hello; bool is_just_version_info; bool get_memory_info; }
message HelloResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; dingodb.pb.common.VersionInfo version_info; string status_detail; dingodb.pb.coordinator.CoordinatorMemoryInfo memory_info; }
message GetSchemasRequest { dingodb.pb.common.RequestInfo request_info; int64 tenant_id; DingoCommonId schema_id; }
message GetSchemasResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated Schema schemas; }
message GetSchemaRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId schema_id; int64 tenant_id; }
message GetSchemaResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; Schema schema; }
message GetSchemaByNameRequest { dingodb.pb.common.RequestInfo request_info; string schema_name; int64 tenant_id; }
message GetSchemaByNameResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; Schema schema; }
message GetTablesBySchemaRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId schema_id; }
message GetTablesBySchemaResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated TableDefinitionWithId table_definition_with_ids; }
message GetTablesCountRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId schema_id; }
message GetTablesCountResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 tables_count; }
message GetTableRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId table_id; }
message GetTableResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; TableDefinitionWithId table_definition_with_id; }
message GetTableByNameRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId schema_id; string table_name; }
message GetTableByNameResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; TableDefinitionWithId table_definition_with_id; }
message GetTableRangeRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId table_id; }
message GetTableRangeResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; TableRange table_range; }
message GetTableMetricsRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId table_id; }
message GetTableMetricsResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; TableMetricsWithId table_metrics; }
message CreateTableRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId schema_id; DingoCommonId table_id; TableDefinition table_definition; }
message CreateTableResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; DingoCommonId table_id; }
message DropTableRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId table_id; }
message DropTableResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error;  }
message CreateTableIdRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId schema_id; }
message CreateTableIdResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; DingoCommonId table_id; }
message CreateTableIdsRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId schema_id; int64 count; }
message CreateTableIdsResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated DingoCommonId table_ids; }
message GetIndexesRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId schema_id; }
message GetIndexesResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated IndexDefinitionWithId index_definition_with_ids; }
message GetIndexesCountRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId schema_id; }
message GetIndexesCountResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 indexes_count; }
message GetIndexRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId index_id; }
message GetIndexResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; IndexDefinitionWithId index_definition_with_id; }
message GetIndexByNameRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId schema_id; string index_name; }
message GetIndexByNameResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; IndexDefinitionWithId index_definition_with_id; }
message GetIndexRangeRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId index_id; }
message GetIndexRangeResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; IndexRange index_range; }
message GetIndexMetricsRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId index_id; }
message GetIndexMetricsResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; IndexMetricsWithId index_metrics; }
message CreateIndexRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId schema_id; DingoCommonId index_id; IndexDefinition index_definition; }
message CreateIndexResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; DingoCommonId index_id; }
message UpdateIndexRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId index_id; IndexDefinition new_index_definition; }
message UpdateIndexResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error;  }
message DropIndexRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId index_id; }
message DropIndexResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error;  }
message CreateIndexIdRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId schema_id; }
message CreateIndexIdResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; DingoCommonId index_id; }
message CreateSchemaRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId parent_schema_id; string schema_name; int64 tenant_id; }
message CreateSchemaResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; Schema schema; }
message DropSchemaRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId schema_id; int64 tenant_id; }
message DropSchemaResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error;  }
message GenerateTableIdsRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId schema_id; TableWithPartCount count; }
message CreateTablesRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId schema_id; repeated TableDefinitionWithId table_definition_with_ids; }
message CreateTablesResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated DingoCommonId table_ids; }
message GetTablesRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId table_id; }
message DropTablesRequest { dingodb.pb.common.RequestInfo request_info; repeated DingoCommonId table_ids; }
message DropTablesResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error;  }
message UpdateTablesRequest { dingodb.pb.common.RequestInfo request_info; TableDefinitionWithId table_definition_with_id; }
message UpdateTablesResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error;  }
message AddIndexOnTableRequest { dingodb.pb.common.RequestInfo request_info; DingoCommonId table_id; TableDefinitionWithId table_definition_with_id; }
message AddIndexOnTableResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error;  }
svc MetaService: GetSchemas GetSchema GetSchemaByName GetTablesBySchema GetTablesCount GetTable GetTableByName GetTableRange GetTableMetrics CreateTable DropTable CreateTableId CreateTableIds GetIndexes GetIndexesCount GetIndex GetIndexByName GetIndexRange GetIndexMetrics CreateIndex UpdateIndex DropIndex CreateIndexId CreateSchema DropSchema GenerateTableIds CreateTables GetTables DropTables UpdateTables AddIndexOnTable Hello GetMemoryInfo(HelloRequest,HelloResponse) UpdateTenant SwitchAutoSplit SaveIdEpochType ImportMeta ImportIdEpochType GetTenants GetDeletedTable GetDeletedIndex ExportMeta DropTenant DropIndexOnTable CreateTenants CreateTenant CreateSchemas CreateIndexMetas CleanDeletedTable CleanDeletedIndex GetTsoInfo(TsoRequest,TsoResponse) ListWatch  TsoService(TsoRequest,TsoResponse) GetAutoIncrements GetAutoIncrement CreateAutoIncrement UpdateAutoIncrement GenerateAutoIncrement DeleteAutoIncrement CreateAutoIncrements CreateOrUpdateAutoIncrements Watch
message RegionStatusX { int32 x; }
message GetTablesResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated TableDefinitionWithId table_definition_with_ids; int64 revision; }
message GenerateTableIdsResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated TableIdWithPartIds ids; }
message PartStatus { dingodb.pb.common.RegionState state; dingodb.pb.common.RegionType region_type; dingodb.pb.common.RegionHeartbeatState heartbeat_state; int64 create_timestamp; dingodb.pb.common.ReplicaStatus replica_status; dingodb.pb.common.RegionRaftStatus raft_status; int64 last_update_timestamp; }
