pkg stream
message StreamRequestMeta { string stream_id; int64 limit; bool close; }
message StreamResponseMeta { string stream_id; bool has_more; bool x; }
