pkg debug
imp common error
message DebugResponse { message GCMetrics { message Item { int64 start_time_ms; int64 end_time_ms; int64 iter_count; int64 delete_count; int64 safe_point_ts; } message RegionItem { int64 region_id; Item last_history; Item last_with_delete_history; Item last; Item last_delete; Item last_delete_history; } int64 first_start_time_ms; int64 run_count; int64 last_end_time_ms; int64 total_iter_count; int64 total_delete_count; repeated Item history; repeated RegionItem region_histories; Item last_with_delete_history; } GCMetrics gc_metrics; }
