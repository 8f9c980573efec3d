pkg cluster
imp common error
message X { int32 x; }
