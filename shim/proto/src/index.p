pkg index
imp common error meta store
enum AlgorithmType { ALGORITHM_NONE; ALGORITHM_FAISS; ALGORITHM_HNSWLIB; }
message VectorWithDistanceResult { repeated dingodb.pb.common.VectorWithDistance vector_with_distances; }
message VectorAddResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated bool key_states; int64 ts; }
message VectorDeleteResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated bool key_states; int64 ts; }
message VectorImportResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; int64 ttl; int64 ts; }
message VectorCalcDistanceRequest { dingodb.pb.common.RequestInfo request_info; AlgorithmType algorithm_type; dingodb.pb.common.MetricType metric_type; repeated dingodb.pb.common.Vector op_left_vectors; repeated dingodb.pb.common.Vector op_right_vectors; bool is_return_normlize; }
message VectorCalcDistanceResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated VectorDistance distances; }
message VectorDistance { repeated float internal_distances; }
