pkg fileservice
imp common error
message CleanFileReaderRequest { dingodb.pb.common.RequestInfo request_info; int64 reader_id; }
message CleanFileReaderResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; }
message GetFileRequest { dingodb.pb.common.RequestInfo request_info; int64 reader_id; string filename; int64 offset; int64 size; }
message GetFileResponse { dingodb.pb.common.ResponseInfo response_info; dingodb.pb.error.Error error; bool eof; int64 read_size; }
svc FileService: CleanFileReader GetFile
