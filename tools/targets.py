"""Which sources each conformance driver is built from (patterns relative to src)."""
import os
V = os.path.dirname(os.path.abspath(__file__))
CORE = [f for f in open(V + '/core_sources.txt').read().split() if f not in ('vector/vector_index_manager.cc',)]
STORE = '''common/failpoint.cc common/helper.cc common/latch.cc common/logging.cc common/role.cc common/runnable.cc common/serial_helper.cc
common/service_access.cc common/slice.cc common/stream.cc common/synchronization.cc common/tracker.cc common/uuid.cc config/config_helper.cc
config/config_manager.cc config/yaml_config.cc engine/concurrency_manager.cc engine/gc_safe_point.cc engine/mono_store_engine.cc engine/raft_store_engine.cc
engine/rocks_raw_engine.cc engine/storage.cc engine/txn_engine_helper.cc event/event.cc event/store_state_machine_event.cc handler/handler.cc
handler/raft_apply_handler.cc handler/raft_apply_handler_txn.cc handler/raft_vote_handler.cc handler/raft_snapshot_handler.cc log/index_term_map.cc log/log_storage_manager.cc log/rocks_log_storage.cc
meta/meta_reader.cc meta/meta_writer.cc meta/store_meta_manager.cc
metrics/store_bvar_metrics.cc metrics/store_metrics_manager.cc mvcc/codec.cc mvcc/iterator.cc mvcc/reader.cc mvcc/ts_provider.cc raft/raft_node.cc
raft/dingo_filesystem_adaptor.cc raft/raft_node_manager.cc raft/state_machine.cc raft/store_state_machine.cc scan/scan.cc scan/scan_filter.cc scan/scan_manager.cc server/server.cc
server/service_helper.cc server/store_service.cc'''.split()
TARGETS = {
  'txn': dict(harness=['txn.cc'], repo=STORE),
  'core': dict(harness=['smoke.cc'], repo=CORE),
  'latch': dict(harness=['latch.cc'], repo=['common/latch.cc', 'common/synchronization.cc', 'meta/store_meta_manager.cc', 'server/service_helper.cc', 'common/helper.cc', 'common/failpoint.cc', 'engine/concurrency_manager.cc', 'common/logging.cc']),
}
COORD = ['coordinator/kv_control*.cc', 'raft/meta_state_machine.cc', 'server/version_service.cc']
TARGETS['kv'] = dict(harness=['kv.cc'], repo=STORE + COORD)
TARGETS['ids'] = dict(harness=['ids.cc'], repo=STORE + ['coordinator/tso_control.cc', 'coordinator/auto_increment_control.cc', 'raft/meta_state_machine.cc', 'server/meta_service.cc'])
YA = '-include ' + os.path.dirname(V) + '/harness/yatomic.h'
TARGETS['raw'] = dict(harness=['raw.cc'], repo=STORE + ['coordinator/coordinator_interaction.cc'], hf=YA, xf_all=YA)
TARGETS['wal'] = dict(harness=['wal.cc'], repo=['log/rocks_log_storage.cc', 'log/index_term_map.cc', 'common/helper.cc', 'common/logging.cc', 'common/synchronization.cc', 'common/failpoint.cc', 'config/config_helper.cc', 'config/config_manager.cc', 'config/yaml_config.cc', 'common/role.cc'])
TARGETS['codec'] = dict(harness=['codec.cc'], repo=['mvcc/codec.cc', 'vector/codec.cc', 'document/codec.cc', 'common/serial_helper.cc', 'common/helper.cc', 'common/logging.cc', 'common/synchronization.cc', 'common/failpoint.cc', 'config/config_helper.cc', 'config/config_manager.cc', 'config/yaml_config.cc', 'common/role.cc'])
TARGETS['region'] = dict(harness=['region.cc'], repo=STORE + ['store/region_controller.cc', 'coordinator/coordinator_interaction.cc'])
TARGETS['meta'] = dict(harness=['meta.cc'], repo=STORE + ['coordinator/coordinator_control*.cc', 'coordinator/coordinator_interaction.cc', 'coordinator/kv_control*.cc', 'coordinator/tso_control.cc', 'coordinator/auto_increment_control.cc', 'raft/meta_state_machine.cc', 'server/meta_service.cc', 'server/coordinator_service.cc'])
