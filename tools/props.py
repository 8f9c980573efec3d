"""The properties: text, anchors and how each is decided. tools/mkmanifest.py writes properties.jsonl and MANIFEST.json from it."""
PROPS = [
 dict(id='L01', title='Key latches: mutual exclusion, first come first served, no lost wakeup',
  st='Commands on one region that need overlapping key sets never run at the same time. Every waiting command is eventually granted its keys, in arrival order per key, and releasing wakes exactly the next waiter of each freed key. Commands on disjoint keys never block each other.',
  over=['schedules', 'histories'], q='All key sets, all arrival/release orders and all thread interleavings, whatever the number of latch slots (including keys that share a slot).',
  why='The tests run a few single-threaded acquire/release sequences; the property ranges over interleavings of concurrent commands and slot collisions.',
  files=['src/common/latch.cc', 'src/server/service_helper.cc', 'src/meta/store_meta_manager.cc', 'src/common/synchronization.cc'],
  mech=['wait queue per key hash under the slot mutex | Latches::Acquire, Latches::Release', 'wake-up of queue heads | Region::LatchesRelease', 'acquire and wait loop | ServiceHelper::LatchesAcquire'],
  state=['waiting | queue of (hash, command) per slot | Latch', 'ownedCount | owned prefix of the ordered hashes | Lock'],
  observe=['return values of acquire and release', 'order of critical sections through the service layer'],
  tech='TLA+ (TLC) queue model; exhaustive call-history trees and scheduled concurrent runs of the real latches judged by TLC',
  note='specification exhaustively checked for 3 commands x 3 keys; real code: all call histories to depth 5 (quick) and bounded-preemption schedules'),
 dict(id='T01', title='Transactional reads: one snapshot, waiting on locks that could hide data',
  st='A point read, batch read or range scan at a timestamp returns, for every key, exactly the newest value committed at or before that timestamp, with deletions and empty gaps absent. It reports the lock of another transaction whenever that lock could still commit at or below the timestamp and was not declared resolved, and never otherwise. A scan fetched page by page delivers each visible pair of the range once, in key order, never exceeding the page limit, of the snapshot taken when it began, and remembers the largest timestamp read.',
  over=['inputs', 'histories'], q='All contents of locks, commit records and values, all timestamps, isolation levels, sets of resolved locks, ranges and page limits, and writes arriving between pages.',
  why='Tests read a few hand-made states; the property ranges over all mixtures of locks, rollback records, deletions, long values and timestamps.',
  files=['src/engine/txn_engine_helper.cc', 'src/engine/rocks_raw_engine.cc', 'src/server/store_service.cc', 'src/engine/storage.cc'],
  mech=['point read | TxnEngineHelper::BatchGet', 'range scan | TxnEngineHelper::Scan, TxnIterator', 'paged scan session | Storage::TxnScan, ScanManagerV2'],
  state=['lock column family | at most one lock per key | txn lock cf', 'write column family | commit and rollback records by (key, commit ts) | txn write cf', 'data column family | long values by (key, start ts) | txn data cf'],
  observe=['responses of the transactional read requests', 'largest read timestamp of the region'],
  tech='TLA+ (TLC) model of the transaction service; recorded steps of the real service judged by TLC', note='12k (quick) to 290k (thorough) distinct steps from protocol-reachable contents, every step compared with the specification'),
 dict(id='T02', title='Prewrite: conflict checks and locks, all keys or none',
  st='Prewrite locks all keys of the request with the requested primary, values and time to live, or changes nothing and reports why: a foreign lock, a newer commit, its own rollback, an existing key, or a lost pessimistic lock. One-phase and asynchronous commits get a commit timestamp above the start, above every served read and not above the given maximum, otherwise they fall back to two phases. Repeating a prewrite that already happened or was already committed changes nothing and reports the same outcome.',
  over=['inputs', 'histories'], q='All store contents, mutation lists, pessimistic checks, commit modes and timestamp bounds.',
  why='Outcomes depend on combinations of lock state, records, checks and modes far beyond the handful of tested ones.',
  files=['src/engine/txn_engine_helper.cc', 'src/engine/storage.cc', 'src/handler/raft_apply_handler.cc'],
  mech=['prewrite | TxnEngineHelper::Prewrite, DoPreWrite', 'async and one-phase fallback | Storage::TxnPrewrite, TxnEngineHelper'],
  state=['lock | primary, start ts, kind, value, minimum commit ts, secondaries | txn lock cf'], observe=['prewrite response', 'store contents after each step'],
  tech='TLA+ (TLC) model of the transaction service; recorded steps of the real service judged by TLC', note='9k (quick) to 210k (thorough) distinct prewrite steps'),
 dict(id='T03', title='Commit and rollback are final, idempotent and all or nothing',
  st='A commit turns every lock of the transaction named in the request into one commit record at the given timestamp, or changes nothing; it refuses timestamps not above the start or below the minimum a lock promised. A rollback removes the locks and values and leaves a marker that blocks a late prewrite, and never undoes a commit. Repeating either request succeeds without effect, and the opposite request is refused.',
  over=['inputs', 'histories'], q='All store contents, key lists and timestamps, including repeated, late and contradictory requests.',
  why='Finality has to hold for every order of repeated and late requests, not the sequences in the tests.',
  files=['src/engine/txn_engine_helper.cc', 'src/engine/storage.cc'], mech=['commit | TxnEngineHelper::Commit, DoTxnCommit', 'rollback | TxnEngineHelper::BatchRollback, DoRollback'],
  state=['write record | commit or rollback of a start timestamp | txn write cf'], observe=['responses', 'store contents after each step'],
  tech='TLA+ (TLC) model of the transaction service; recorded steps of the real service judged by TLC', note='12k (quick) to 290k (thorough) distinct steps'),
 dict(id='T04', title='Pessimistic locks: acquire, refresh and release',
  st='A pessimistic lock request takes every key or none; it is refused when another transaction holds a key or when a key has a commit at or above the requested for-update timestamp. Repeating it never lowers the recorded for-update timestamp and, on request, returns the values visible at it. A pessimistic rollback releases only pessimistic locks of the same transaction that are not newer than the given for-update timestamp.',
  over=['inputs', 'histories'], q='All store contents, key lists, for-update timestamps and value flags.', why='Tests cover single keys and fresh locks; refresh, mixed and late requests are not settled by samples.',
  files=['src/engine/txn_engine_helper.cc', 'src/server/store_service.cc'], mech=['pessimistic lock | TxnEngineHelper::PessimisticLock', 'pessimistic rollback | TxnEngineHelper::PessimisticRollback'],
  state=['lock | pessimistic lock with for-update timestamp | txn lock cf'], observe=['responses', 'store contents after each step'],
  tech='TLA+ (TLC) model of the transaction service; recorded steps of the real service judged by TLC', note='12k (quick) to 290k (thorough) distinct steps'),
 dict(id='T05', title='Deciding the fate of an abandoned transaction',
  st='Checking a transaction through its primary key reports its commit, rolls it back exactly when its lock expired or (on request) never existed, and otherwise only raises the minimum commit timestamp above the caller. Checking secondaries reports their locks or commit and otherwise blocks the transaction with a rollback marker. Resolving applies the decided outcome to exactly the locks of that transaction; a heartbeat only extends the life of a lock, and a lock scan lists each older lock of the range once.',
  over=['inputs', 'histories'], q='All store contents, timestamps, time-to-live values, commit modes and flags; lock scans over any page limit with changes between pages.',
  why='The decision table over lock kind, expiry, flags and records is far larger than the tests.',
  files=['src/engine/txn_engine_helper.cc', 'src/server/store_service.cc'], mech=['check status | TxnEngineHelper::CheckTxnStatus', 'check secondaries | TxnEngineHelper::CheckTxnSecondaryLocks', 'resolve | TxnEngineHelper::ResolveLock, BatchResolveLock', 'heartbeat | TxnEngineHelper::HeartBeat', 'lock scan | TxnEngineHelper::ScanLockInfo'],
  state=['lock | minimum commit timestamp and time to live | txn lock cf'], observe=['responses', 'store contents after each step'],
  tech='TLA+ (TLC) model of the transaction service; recorded steps of the real service judged by TLC', note='12k (quick) to 290k (thorough) distinct steps'),
 dict(id='T06', title='Concurrent transaction requests behave as if one ran first',
  st='Two transaction requests on the same region running at the same time give the responses and the contents of one of the two orders. A reader concurrent with an asynchronous or one-phase commit either waits for it or forces its commit timestamp above the read. No request leaves an in-memory lock behind.',
  over=['schedules', 'inputs'], q='All pairs of overlapping requests and all interleavings of their lock, latch and storage operations.',
  why='The tests are single threaded; the property ranges over interleavings.', files=['src/server/store_service.cc', 'src/server/service_helper.cc', 'src/engine/txn_engine_helper.cc', 'src/meta/store_meta_manager.cc'],
  mech=['latches around read-check-write | DoTxnPrewrite and peers', 'in-memory locks for async commit | Region::CheckRange, RegionMemoryLock', 'largest read timestamp | Region::UpdateTxnAccessMaxTs'],
  state=['memory locks | locks of commits in flight | Region'], observe=['responses', 'store contents', 'memory locks', 'largest read timestamp'],
  tech='TLA+ (TLC) linearizability judgement of pairs of real requests run under a deterministic scheduler', note='random preemption schedules: 12k (quick) to 190k (thorough) distinct pair outcomes'),
 dict(id='T08', title='The commit protocol is atomic, final and loses no update',
  st='Whatever clients, readers and resolvers do and wherever they stop: a transaction commits on all its keys at one timestamp or on none, and never both commits and rolls back. Once its client was told it committed it stays committed, no committed write of a non-pessimistic transaction overlaps another commit of the same key, and a value once read at a timestamp never changes.',
  over=['histories', 'schedules', 'crash_points'], q='All interleavings of clients (two-phase, asynchronous, one-phase, pessimistic), readers and resolvers, each stopping at any request.',
  why='Atomicity across keys is a property of whole histories with failures; tests issue straight-line requests.',
  files=['src/engine/txn_engine_helper.cc', 'src/server/store_service.cc', 'src/engine/storage.cc'], mech=['commit protocol | prewrite, commit, check status, check secondaries, resolve'],
  state=['locks and records | of all keys | txn column families'], observe=['client acknowledgements, values read, store contents'],
  tech='TLA+ (TLC) exhaustive protocol model; histories of protocol clients on the real service checked by TLC against the same invariants',
  note='model: 2 transactions, 2 keys, exhaustive per commit mode; real code: 7.5k (quick) to 240k (thorough) histories of 2-4 clients on 3 keys'),
 dict(id='T07', title='Transaction garbage collection removes only what nobody can read',
  st='Collecting garbage at a safe point never changes what a read at or above the safe point returns, not even if collection stops halfway. It touches no lock and nothing newer than the safe point. When it completes, at most one version per key remains at or below the safe point and no deletion or rollback record does.',
  over=['inputs', 'crash_points'], q='All contents, safe points, batch sizes and stop points.', why='Tests check counts on a few layouts; batching and stopping points multiply the cases.',
  files=['src/engine/txn_engine_helper.cc', 'src/engine/gc_safe_point.cc'], mech=['gc scan | TxnEngineHelper::DoGc', 'batched delete | DoFinalWorkForGc'], state=['write and data records | txn column families'.replace(' | ', ' | versions | ')],
  observe=['store contents before, between and after the delete batches'], tech='TLA+ (TLC) model of allowed collections; every intermediate content of the real collection judged by TLC', note='5k (quick) to 120k (thorough) collections with batch sizes 1-3 and stops'),
 dict(id='K01', title='Versioned key-value store: revisions, versions and compaction',
  st='Every accepted change of the versioned store gets a new, larger revision; a key counts its changes from its creation, and re-creating a deleted key starts over. Puts, range deletes and range reads return exactly the current keys of the range and, on request, the previous pairs. Options to keep value or lease keep them. Compaction removes only revisions below its bound that are not the newest of a live key, and never changes what a read returns.',
  over=['histories', 'inputs', 'crash_points'], q='All histories of puts, range deletes, reads, compactions, leases, changes of leader and restarts; all ranges, limits and options.',
  why='The tests put and read a handful of keys; generations, compaction, ignore flags and restarts interact over whole histories.',
  files=['src/coordinator/kv_control.cc', 'src/coordinator/kv_control_kv.cc', 'src/coordinator/kv_control_fsm.cc', 'src/server/version_service.cc'],
  mech=['request checks and reads | KvControl::KvPut, KvRange, KvDeleteRange', 'ordered application | KvControl::ApplyMetaIncrement, KvPutApply, KvDeleteApply', 'compaction | KvControl::KvCompact, KvCompactApply, CompactionTask'],
  state=['key index | last modification and generations of every key | kv_index_map_', 'revisions | what each kept revision holds | kv_rev_meta_', 'revision counter | last revision given out | id_epoch_map_'],
  observe=['responses of KvPut, KvRange, KvDeleteRange, KvCompaction', 'stored index and revisions after every step'],
  tech='TLA+ (TLC) model of the store, exhaustively checked; every recorded step of the real service judged by TLC', note='model exhaustive for 2 keys, 1 lease, 1 watch to revision 3 (quick) / 4 (thorough); about 11k (quick) to 240k (thorough) recorded steps, one history with 55 keys per run'),
 dict(id='K02', title='Leases: keys live and die with their lease',
  st='A key put with a lease is deleted when the lease is revoked or expires, and not before; renewing extends the lease, deleting or re-putting the key detaches it. After a change of leader or a restart the same keys hang on the same leases. A lease id is never handed out twice, not even after a crash, and operations on unknown or expired leases are refused.',
  over=['histories', 'schedules', 'crash_points'], q='All histories of grants, renewals, revocations, expiry, puts and deletes with changes of leader and restarts, and all pairs of these requests at the same time.',
  why='Tests grant and revoke; expiry, fail-over and races between a put and the end of its lease are not sampled.',
  files=['src/coordinator/kv_control_lease.cc', 'src/coordinator/kv_control_kv.cc', 'src/coordinator/kv_control_fsm.cc'],
  mech=['lease requests | KvControl::LeaseGrant, LeaseRenew, LeaseRevoke, LeaseQuery', 'expiry | KvControl::LeaseTask', 'which keys hang on a lease | BuildLeaseToKeyMap, KvLease*MapAdd and Remove'],
  state=['leases | id, time to live, last renewal | kv_lease_map_', 'attached keys | of each lease, on the leader | lease_to_key_map_temp_'], observe=['lease responses', 'stored leases and keys', 'lease ids after a restart'],
  tech='TLA+ (TLC) model, exhaustively checked; recorded steps and scheduled pairs of real requests judged by TLC', note='model exhaustive for 2 leases and 2 keys; 7k (quick) to 150k (thorough) steps, 2.5k (quick) to 50k (thorough) distinct outcomes of concurrent pairs'),
 dict(id='K03', title='One-time watches fire exactly once, for the first matching change',
  st='A watch answers exactly once: at once when the key already changed after the requested revision or does not exist (unless asked to wait), else with the first later change of its key that its filters let through, carrying the new pair and on request the previous one. No matching change is missed, also not one applied while the watch is being registered. Cancelled watches and watches of a leader that steps down are answered without event.',
  over=['histories', 'schedules'], q='All histories of changes, watches, cancellations and changes of leader, all filters and start revisions, and all interleavings of a watch with a change.',
  why='The missed-event window is an interleaving; tests register watches before changing anything.',
  files=['src/coordinator/kv_control_watch.cc', 'src/coordinator/kv_control_fsm.cc', 'src/server/version_service.cc'],
  mech=['registration | KvControl::OneTimeWatch', 'events | KvControl::TriggerOneWatch', 'removal | RemoveOneTimeWatch, CancelOneTimeWatchClosure'], state=['waiting watches | per key | one_time_watch_map_'],
  observe=['watch responses and when they come'], tech='TLA+ (TLC) model; recorded steps and scheduled watch/change pairs judged by TLC', note='7k (quick) to 150k (thorough) steps, 2k (quick) to 40k (thorough) distinct outcomes of concurrent pairs'),
 dict(id='K04', title='Versioned store replicas agree, after crashes and snapshots',
  st='Every replica that applied the same prefix of the log holds the same keys, revisions, leases and counters, no matter how often it restarted, at which write it crashed, how often an entry was delivered again, or whether it got there through a snapshot. Installing a snapshot replaces everything, and a crash in the middle of installing or compacting loses and leaks nothing once the work is repeated.',
  over=['crash_points', 'histories'], q='All logs, every write as a crash point, every snapshot and restart position.', why='Tests never crash between writes nor compare replicas.',
  files=['src/coordinator/kv_control_fsm.cc', 'src/raft/meta_state_machine.cc', 'src/coordinator/kv_control.cc', 'src/engine/snapshot.cc'],
  mech=['entry application | KvControl::ApplyMetaIncrement', 'applied index | MetaStateMachine::on_apply', 'snapshots | SaveMetaToSnapshotFile, LoadMetaFromSnapshotFile', 'restart | KvControl::Recover'],
  state=['replica | index, revisions, leases, counters, applied index | meta column family'], observe=['stored data of replicas after each entry, crash and snapshot'],
  tech='TLA+ (TLC) replication model; entries, crashes at every write and snapshots on real replicas judged by TLC', note='model: logs to length 3 over 2 replicas exhaustive; real code: about 40 (quick) to 960 (thorough) logs of 30 requests, a crash at each write'),
 dict(id='I01', title='Timestamps are handed out once and never go backwards',
  st='The timestamp oracle never hands out the same timestamp twice, and what a later leader hands out is larger than everything any earlier leader handed out, whatever the clocks say, however often leaders change, proposals get lost or commit late, nodes restart from snapshots, or clients adjust the time (unless they lower it by force). Replicas agree, a leader serves only what the log promises, and once a leader can write, timestamps become available again.',
  over=['histories', 'schedules', 'fault_sequences'], q='All histories of leader changes, clock differences, lost and late proposals, restarts, snapshots and client requests.',
  why='Tests generate a few timestamps on one node; duplicates need a change of leader at the wrong moment.',
  files=['src/coordinator/tso_control.cc', 'src/coordinator/tso_control.h', 'src/server/meta_service.cc'],
  mech=['handing out | TsoControl::GenTso', 'window extension | TsoControl::UpdateTimestamp, SyncTimestamp, OnLeaderStart', 'application | TsoControl::ApplyMetaIncrement, UpdateTso, ResetTso', 'snapshots | LoadMetaToSnapshotFile, LoadMetaFromSnapshotFile'],
  state=['oracle | current timestamp and largest promised physical part | tso_obj_', 'terms | of the leader and of the last extension | leader_term_, synced_term_'],
  observe=['responses of TsoService', 'oracle state of each node after every entry'],
  tech='TLA+ (TLC) exhaustive model of oracle replicas; recorded histories of three real nodes followed event by event by TLC', note='model: 2 nodes, 3 terms, 3 log entries exhaustive; real code: 3k (quick) to 64k (thorough) histories of 60 steps'),
 dict(id='I02', title='Auto-increment ids are handed out once',
  st='Ids generated for a table never overlap and grow in the order of the log, also when creates, raises and generates of the same table race, counts and steps are large, leaders change or nodes restart; only deleting the counter or setting it by force may lower it. Every generated range holds the ids asked for (count, increment, offset). Answers tell what the log says; replicas and snapshots agree.',
  over=['histories', 'inputs', 'schedules'], q='All histories of requests, racing or not, over changes of leader, late commits, restarts and snapshots; all counts, increments and offsets.',
  why='Tests cover the arithmetic of a few values on one node; races between the check of a request and its application are not sampled.',
  files=['src/coordinator/auto_increment_control.cc', 'src/server/meta_service.cc'],
  mech=['request checks | AutoIncrementControl::CreateAutoIncrement, UpdateAutoIncrement, GenerateAutoIncrement, CreateOrUpdateAutoIncrement', 'application | AutoIncrementControl::ApplyMetaIncrement, GetGenerateEndId'],
  state=['counters | next id of each table | auto_increment_map_'], observe=['responses of the auto-increment requests', 'counters of each node after every entry'],
  tech='TLA+ (TLC) exhaustive model of racing requests over a log; recorded histories of three real nodes followed event by event by TLC', note='model: 2 nodes, 2 terms, logs to length 3 (quick) / 4 (thorough); real code: 3k (quick) to 64k (thorough) histories'),
 dict(id='E01', title='Encodings of keys keep their order and decode to what they encode',
  st='The bytes a key is stored under sort as the keys do, and versions of one key newest first, for all keys (empty, with zero and 0xff bytes, prefixes of each other) and timestamps; no stored key is a prefix of one of another key, so ranges of plain keys and ranges of stored keys hold the same keys. Keys of vectors and documents sort by partition, id and the rest. Decoding gives back exactly what was encoded, key, timestamp, id, value, kind and ttl, and refuses bytes that encode nothing without ending the process. The range of a prefix, or up to and including a key, holds the keys with that prefix and no other; cuts, overlaps and containment of ranges are those of the sets of their keys.',
  over=['inputs'], q='All binary keys, timestamps, ids, partitions, values and ttls; all bytes given to a decoder; all ranges.',
  why='Tests encode a few readable keys; carries over 0xff, group borders, padding and malformed bytes are not sampled.',
  files=['src/mvcc/codec.cc','src/vector/codec.cc','src/document/codec.cc','src/common/serial_helper.cc','src/common/helper.cc'],
  mech=['keys | mvcc::Codec::EncodeBytes, DecodeBytes, EncodeKey, DecodeKey','values | mvcc::Codec::PackageValue, UnPackageValue','index keys | VectorCodec, DocumentCodec','numbers | SerialHelper','ranges | Helper::PrefixNext, TransformRangeWithOptions, IntersectRange, IsContainRange, IsConflictRange'],
  state=['keys, versions, values and ranges as bytes | arguments and results of the codecs'], observe=['every encoding, decoding, comparison and range'],
  tech='TLA+ (TLC) specification of the encodings, their order and ranges checked for all pairs of a small instance; encodings of the real code compared with the specification by TLC', note='model: 460k (quick) to 7m (thorough) pairs; real code: 96k (quick) to 2.4m (thorough) random encodings'),
 dict(id='V01', title='Plain key-value requests act as one versioned map',
  st='Every answered plain request (put, put-if-absent, compare-and-set, delete, range delete, their batches; reads at a timestamp, scans in pages with sessions) behaves as one step on a map from keys to versions: conditions are judged on everything written before, a read at a timestamp sees the newest version at or below it that is neither deleted nor past its ttl, a scan returns exactly the keys of its range at its start in order whatever the page size. This holds for replicated and unreplicated regions, for empty and arbitrary binary keys and values, and across leader changes: a replica that does not lead or has not caught up answers no read and decides no condition.',
  over=['histories','inputs','fault_sequences'], q='All histories of requests, page sizes, ranges with and without their borders, ttls and clocks, leader changes with a write under way.',
  why='Tests write and read a few keys of one healthy replica; leader changes and empty, prefix-sharing or expired values are not sampled.',
  files=['src/engine/storage.cc','src/engine/raft_store_engine.cc','src/engine/mono_store_engine.cc','src/mvcc/codec.cc','src/mvcc/reader.cc','src/mvcc/iterator.cc','src/scan/scan.cc','src/scan/scan_manager.cc','src/server/store_service.cc','src/raft/store_state_machine.cc'],
  mech=['writes | RaftStoreEngine::Writer, MonoStoreEngine::Writer','reads | mvcc::KvReader, mvcc::Iterator','sessions | ScanManager, ScanHandler','ranges | Helper::TransformRangeWithOptions','leadership | Storage::ValidateLeader'],
  state=['versions | key, timestamp -> value, flag, ttl | store data column family','sessions | remaining rows, last use | ScanManager'], observe=['every response','every stored version after each step'],
  tech='TLA+ (TLC) model of requests over leader changes; recorded histories of the real store followed request by request by TLC', note='real code: 4k (quick) to 78k (thorough) histories of 40 to 150 steps'),
 dict(id='V02', title='Concurrent plain requests take effect in one order',
  st='Two plain requests served at the same time leave the versions and answers of one order of the two, in which later writes of a key carry later timestamps; the same holds for a request served while its replica becomes leader: it takes effect after everything committed earlier or not at all, with a timestamp above everything the region has applied. No pair of requests blocks each other.',
  over=['schedules'], q='All interleavings of the threads at their synchronisation and shared-memory operations, all pairs of requests.',
  why='Such races need a particular interleaving of two threads, which tests never force.',
  files=['src/engine/raft_store_engine.cc','src/engine/mono_store_engine.cc','src/server/store_service.cc','src/common/latch.cc','src/event/store_state_machine_event.cc','src/mvcc/ts_provider.h'],
  mech=['latches | ServiceHelper::LatchesAcquire','read-modify-write | Writer::KvPutIfAbsent, KvCompareAndSet','leader start | SmLeaderStartEventListener::OnEvent'],
  state=['latches of keys | Latches','largest applied and smallest valid timestamp | RawAppliedMaxTs, min_valid_ts_'], observe=['both responses','stored versions'],
  tech='TLA+ (TLC) model of requests in steps; outcomes of scheduled pairs on the real store judged by TLC', note='8k pairs and 6k leader starts (quick), 240k and 60k (thorough)'),
 dict(id='V03', title='Collecting old plain versions loses nothing readable',
  st='Collecting old versions at a safe point never changes what a read at the safe point or later returns, not in any state between its writes either, touches only versions at or below the safe point, and removes every version there which no such read can see.',
  over=['inputs','crash_points'], q='All sets of versions, safe points, batch sizes, and each write of a collection as a stopping point.',
  why='Tests do not cover collection of non-transactional data at all.', files=['src/engine/txn_engine_helper.cc','src/engine/gc_safe_point.cc'],
  mech=['collection | TxnEngineHelper::DoGcForNonTxn and helpers'], state=['versions | key, timestamp -> value, flag, ttl | store data column family'], observe=['stored versions after each write'],
  tech='TLA+ (TLC) model; stored versions before, between and after real collections judged by TLC', note='8k (quick) to 320k (thorough) collections'),
 dict(id='V04', title='Timestamps taken by a store are unique, valid and fresh',
  st='The timestamps a store takes for its writes come from batches the coordinator gave it, are never handed out twice, are above the bound the caller asks for and above the smallest valid timestamp set before (which never goes back), and never come from a batch older than the staleness limit, whichever threads take, fetch and clean at the same time. A thread gets a timestamp as long as the coordinator answers.',
  over=['schedules','fault_sequences'], q='All interleavings of the operations on the lock-free list, coordinator failures, clock steps.',
  why='Lock-free code fails in interleavings that tests cannot steer.', files=['src/mvcc/ts_provider.cc','src/mvcc/ts_provider.h'],
  mech=['list of batches | BatchTsList::Push, GetTs, PushDead, CleanDead','fetching | TsProvider::RenewBatchTs, TakeBatchTsTask'], state=['batches, live and dead | BatchTsList','smallest valid timestamp | min_valid_ts_'], observe=['every timestamp and the events before it'],
  tech='TLA+ (TLC) model; recorded histories of threads under a scheduler which interleaves every atomic operation, followed by TLC', note='6k (quick) to 96k (thorough) histories'),
 dict(id='R01', title='The raft log keeps every acknowledged entry',
  st="For every region the log holds exactly the entries appended and acknowledged, in order, with their terms, kinds and data (empty data included), minus the tail that was truncated, what a reset dropped, and the head that every client allowed to drop: raft alone cannot drop entries the vector index still needs, and a client which asks to keep everything again is heard. First and last index, terms, single entries, ranges, searches and configurations all agree with that, with the term cache on or off. After a power failure at any point an acknowledged operation is still in effect, and an operation under way took effect or not; appends keep a leading part at worst. Regions never affect each other, also when many threads write at once.",
  over=['histories', 'crash_points', 'schedules'], q='All histories of appends, truncations by either client, resets, destruction, restarts; every write as a crash point; interleavings of raft and vector index threads.',
  why='Loss shows only after a crash at the wrong write or with two clients truncating at different points; no test covers that.',
  files=['src/log/rocks_log_storage.cc', 'src/log/rocks_log_storage.h', 'src/log/index_term_map.cc'],
  mech=['writes in batches | ExecuteRoutine, AppendToWriteBatch, ApplyWriteOp, AdjustIndexMeta, SyncWal', 'truncation | TruncatePrefix, TruncateSuffix, RocksLogStorageWrapper::reset', 'recovery | InitIndexMeta, RocksLogStorageWrapper::init', 'term cache | IndexTermMap'],
  state=['entries | region, index -> term, kind, data | column family default', 'indexes and truncation points | per region | log_index_metas_'], observe=['entries, first and last index of all regions after every operation and restart'],
  tech='TLA+ (TLC) exhaustive model of a log with two clients and crashes; recorded histories of the real log storage followed by TLC', note='model: 5 indexes, 6 steps (quick) / 7 indexes, 11 steps (thorough); real code: 2.4k histories of 40 steps and 6k threaded runs (quick), 64k and 240k (thorough)'),
 dict(id='S01', title='Every store that applies the region logs comes to the same regions and data',
  st="The entries of the regions' logs decide what every store holds: which regions exist, their ranges, versions and states, and the data of every key. It does not matter how a store interleaves the logs, whether it leads, follows, or catches up with a region that is merged into another one, nor at which write it crashed and how often it replayed: at the end it agrees with the order in which the entries were proposed. An entry counts only at the version of the region it was proposed at. A split divides a range and a merge joins two, together with what is in them: no key is lost, doubled or left without exactly one region; after a split or merge (or the restart that finishes it) the regions take changes again. Writes to a region that took over keys get timestamps above everything written to those keys before.",
  over=['histories', 'crash_points', 'schedules'], q='All interleavings of writes, range deletes, splits of both kinds, merges, snapshots and stale entries on several regions; every write of a store as a crash point, also while it replays; restarts in a row.',
  why='Divergence needs a replica that is behind at the moment of a merge, or a crash between two writes of a split; tests apply one log on one store.',
  files=['src/handler/raft_apply_handler.cc', 'src/raft/store_state_machine.cc', 'src/engine/raft_store_engine.cc', 'src/meta/store_meta_manager.cc', 'src/store/region_controller.cc'],
  mech=['apply | StoreStateMachine::on_apply, CatchUpApplyLog, handlers of put, delete, delete range, transactions', 'split | HandlePreCreateRegionSplit, HandlePostCreateRegionSplit', 'merge | PrepareMergeHandler, CommitMergeHandler, LaunchCommitMergeCommand', 'persistence | StoreRegionMeta, StoreRaftMeta, RaftStoreEngine::Recover', 'creation | CreateRegionTask::CreateRegion'],
  state=['regions | id -> range, version, state | StoreRegionMeta', 'data | column family, key, timestamp -> value | RocksDB', 'logs | per region | RocksLogStorage'], observe=['regions and data of each store at the end', 'timestamps of writes'],
  tech='TLA+ (TLC) exhaustive model of stores applying region logs; histories recorded from real state machines, handlers and metadata with crashes and replay judged by TLC', note='model: 3 keys, 2 stores, 3 regions, 4 (quick) or 5 (thorough) proposals; real code: 480 histories of 25 operations on about 4000 stores (quick), 16000 histories (thorough)'),
 dict(id='M01', title='The catalogue of tenants, schemas, tables and indexes stays sound',
  st='Every request to create, drop, rename or look up tenants, schemas, tables and indexes is answered, and changes the catalogue, as one step on a sound catalogue: names are unique within their parent and found under their parent only, ids never come again, each schema lists exactly its tables and indexes and each table made with indexes exactly those, nothing is left without its parent, what still has children is not dropped, a refused request changes nothing and leaves no name taken, a dropped name is free again. This holds over changes of leader and restarts. Two requests at the same time leave what one after the other would have left, and neither ends the process.',
  over=['histories', 'schedules'], q='All sequences of catalogue requests with names and ids free, taken or of another parent, changes of leader and restarts; all interleavings of two requests.',
  why='Tests of the coordinator create a table or two on one healthy node; wrong lists, names left behind by failed requests and races show only in longer histories.',
  files=['src/coordinator/coordinator_control_meta.cc', 'src/coordinator/coordinator_control_fsm.cc', 'src/server/meta_service.cc'],
  mech=['requests | CoordinatorControl::CreateSchema, DropSchema, CreateTable, CreateIndex, DropTable, CreateTables, DropTables, AddIndexOnTable, RemoveTableIndex, CreateTenant', 'application | CoordinatorControl::ApplyMetaIncrement', 'names | schema_name_map_safe_temp_, table_name_map_safe_temp_, index_name_map_safe_temp_, BuildTempMaps'],
  state=['catalogue | tenant, schema, table, index, table-index maps | coordinator'], observe=['every answer', 'the catalogue as the services show it after every request'],
  tech='TLA+ (TLC) exhaustive model of the catalogue; recorded requests to the real services of a replicated coordinator followed by TLC; outcomes of scheduled pairs judged by TLC', note='model: all sequences of 4 (quick) or 6 (thorough) requests; real code: 800 histories of 40 requests and 7k pair runs (quick), 13k and 140k (thorough)'),
 dict(id='M02', title='Region jobs run to their end and leave the key space covered once',
  st='A request to create, split, merge, move or transfer a region is accepted exactly when the regions it names are ready, known and not part of another change; a refused request changes nothing. An accepted one becomes a job whose steps are carried out in order: a command is sent to the store it is for when the condition of its step holds, again until it is answered, and never after the step; failures are retried up to the limit. Whatever the order of heartbeats, also late or partial ones, lagging replicas, changes of leaders, lost answers and restarts of the coordinator: epochs of regions never go back, no replica splits or merges a region while it lacks the other half, every job ends unless a store refuses it for good, and at rest the coordinator knows ranges, epochs, peers and states as the stores have them, the replicas are at the peers, and the ranges cover every key exactly once.',
  over=['histories', 'schedules', 'crash_points', 'fault_sequences'], q='All sequences of requests, heartbeats, rounds, answers, lost answers, changes of leaders and restarts of the coordinator.',
  why='Tests run one split against stores that answer at once; jobs that wait forever, lost halves and ranges which go back need a late heartbeat, a lagging replica or a lost answer at the right step.',
  files=['src/coordinator/coordinator_control_coor.cc', 'src/coordinator/coordinator_control_fsm.cc', 'src/coordinator/coordinator_control.h', 'src/server/coordinator_service.cc', 'src/coordinator/coordinator_interaction.cc'],
  mech=['jobs | CoordinatorControl::ProcessJobList, UpdateJobProcess, DoTaskPreCheck', 'requests | CoordinatorControl::SplitRegionWithJob, MergeRegionWithJob, ChangePeerRegionWithJob, ValidateJobConflict', 'heartbeats | CoordinatorControl::UpdateStoreMetrics, UpdateRegionMapAndStoreOperation'],
  state=['regions and jobs | region_map_, job_map_ | coordinator', 'what stores reported | store_region_metrics_map_, region_metrics_map_ | coordinator leader'], observe=['regions, jobs, commands sent and replicas at the stores after every step'],
  tech='TLA+ (TLC) exhaustive model of jobs with stores; the real coordinator driven against stand-in stores, every request, heartbeat, round and end state judged by TLC with the same module', note='model: 2 regions on 3 stores, 1 request (quick) or 2 (thorough) with a lost answer, a change of leader and a restart; real code: 500 histories of 60 (quick), 33k of 90 (thorough)'),
 dict(id='M03', title='All replicas of the coordinator hold the state the log says',
  st='Applying a log entry changes the coordinator as a function of its state and the entry: after the same prefix of the log, every replica holds the same ids, stores, executors, tenants, safe points, schemas, tables, indexes, regions, jobs, commands and operations, whether it applied the entries one by one, was restarted or killed between any two writes within an entry and applied it again, got entries twice, or loaded a snapshot and was killed while loading it. Safe points and ids never go back. What a leader looks up (names, next ids, regions by key) is what this state says, also right after a change of leader.',
  over=['histories', 'crash_points', 'schedules'], q='All logs of entries, all crash points within the application of an entry or the loading of a snapshot, all points of a restart, snapshot or change of leader.',
  why='Tests apply a few entries on one replica which never stops; entries which are not repeatable, maps not persisted or not rebuilt show only on a second replica after a crash at the wrong write.',
  files=['src/coordinator/coordinator_control_fsm.cc', 'src/coordinator/coordinator_control.cc', 'src/coordinator/coordinator_control_coor.cc', 'src/coordinator/coordinator_meta_storage.h', 'src/raft/meta_state_machine.cc'],
  mech=['application | CoordinatorControl::ApplyMetaIncrement, UpdateJobProcess', 'snapshots | CoordinatorControl::LoadMetaToSnapshotFile, LoadMetaFromSnapshotFile', 'recovery | CoordinatorControl::Recover, BuildTempMaps, OnLeaderStart'],
  state=['sections | maps of ids, stores, tenants, schemas, tables, indexes, regions, jobs, commands, operations | coordinator', 'applied index | id_epoch_map_ | coordinator'], observe=['all maps and lookup maps after every entry, crash, restart and snapshot'],
  tech='TLA+ (TLC) exhaustive model of applying with crashes and snapshots; replicas of the real coordinator driven over logs with a crash at every write, every resulting state judged by TLC', note='model: all logs of 3 (quick) or 4 (thorough) entries of 13 kinds; real code: 48 logs of 40 entries and 5k crashes (quick), 960 logs of 90 and 300k crashes (thorough)'),
]
NOT_APPLICABLE = {}
