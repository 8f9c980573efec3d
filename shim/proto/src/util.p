pkg util
imp common error
message X { int32 x; }
