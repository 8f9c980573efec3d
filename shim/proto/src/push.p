pkg push
imp common error coordinator
message RegionCmdResult { int64 region_cmd_id; dingodb.pb.coordinator.RegionCmdType region_cmd_type; dingodb.pb.error.Error error; }
message PushStoreOperationRequest { dingodb.pb.common.RequestInfo request_info; dingodb.pb.coordinator.StoreOperation store_operation; }
message PushStoreOperationResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated RegionCmdResult region_cmd_results; }
message PushHeartbeatRequest { dingodb.pb.common.RequestInfo request_info; dingodb.pb.coordinator.StoreHeartbeatResponse heartbeat_response; }
message PushHeartbeatResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
svc PushService: PushHeartbeat PushStoreOperation
