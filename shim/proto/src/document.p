pkg document
imp common error
message DocumentAddResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated bool key_states; int64 ts; }
message DocumentDeleteResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; repeated bool key_states; int64 ts; }
