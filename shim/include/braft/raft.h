#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "brpc/server.h"
#include "braft/configuration.h"
#include "braft/configuration_manager.h"
#include "braft/log_entry.h"
#include "braft/storage.h"
#include "butil/logging.h"
namespace braft {
const PeerId ANY_PEER(butil::EndPoint(butil::IP_ANY, 0), 0);
enum RaftError { ERAFTTIMEDOUT = 10001, ESTATEMACHINE = 10002, ECATCHUP = 10003, ELEADERREMOVED = 10004, ESETPEER = 10005, ENODESHUTDOWN = 10006, EHIGHERTERMREQUEST = 10007, EHIGHERTERMRESPONSE = 10008, EBADNODE = 10009, EVOTEFORCANDIDATE = 10010, ENEWLEADER = 10011, ELEADERCONFLICT = 10012, ETRANSFERLEADERSHIP = 10013, ELOGDELETED = 10014, ENOMOREUSERLOG = 10015 };
class Closure : public google::protobuf::Closure {
 public:
  butil::Status& status() { return st_; } const butil::Status& status() const { return st_; }
 private: butil::Status st_;
};
enum State { STATE_LEADER = 1, STATE_TRANSFERRING = 2, STATE_CANDIDATE = 3, STATE_FOLLOWER = 4, STATE_ERROR = 5, STATE_UNINITIALIZED = 6, STATE_SHUTTING = 7, STATE_SHUTDOWN = 8, STATE_END };
inline const char* state2str(State) { return "STATE"; }
struct Task { Task() : data(nullptr), done(nullptr), expected_term(-1) {} butil::IOBuf* data; Closure* done; int64_t expected_term; };
class Error { public: Error() : t_(ERROR_TYPE_NONE) {} Error(ErrorType t, butil::Status s) : t_(t), s_(s) {} ErrorType type() const { return t_; } const butil::Status& status() const { return s_; } butil::Status& status() { return s_; } void set_type(ErrorType t) { t_ = t; } private: ErrorType t_; butil::Status s_; };
inline std::ostream& operator<<(std::ostream& os, const Error& e) { return os << e.status(); }
// A batch of committed entries handed to StateMachine::on_apply.
struct IterEntry { int64_t index, term; butil::IOBuf data; Closure* done; };
class Iterator {
 public:
  explicit Iterator(std::vector<IterEntry>* v) : v_(v) {}
  void next() { ++i_; }
  int64_t index() const { return (*v_)[i_].index; }
  int64_t term() const { return (*v_)[i_].term; }
  const butil::IOBuf& data() const { return (*v_)[i_].data; }
  Closure* done() const { return (*v_)[i_].done; }
  bool valid() const { return i_ < v_->size() && !rolled_; }
  void set_error_and_rollback(size_t n = 1, const butil::Status* st = nullptr) { rolled_ = true; if (st) st_ = *st; ntail_ = n; }
  bool rolled_ = false; size_t ntail_ = 0; butil::Status st_; size_t i_ = 0;
 private: std::vector<IterEntry>* v_;
};
class LeaderChangeContext {
 public:
  LeaderChangeContext(const PeerId& p, int64_t t, const butil::Status& s) : p_(p), t_(t), s_(s) {}
  const PeerId& leader_id() const { return p_; } int64_t term() const { return t_; } const butil::Status& status() const { return s_; }
 private: PeerId p_; int64_t t_; butil::Status s_;
};
inline std::ostream& operator<<(std::ostream& os, const LeaderChangeContext& c) { return os << "{ leader_id=" << c.leader_id() << ", term=" << c.term() << "}"; }
class StateMachine {
 public:
  virtual ~StateMachine() {}
  virtual void on_apply(::braft::Iterator& iter) = 0;
  virtual void on_shutdown() {}
  virtual void on_snapshot_save(::braft::SnapshotWriter* w, ::braft::Closure* done) { (void)w; done->status().set_error(-1, "not impl"); done->Run(); }
  virtual int on_snapshot_load(::braft::SnapshotReader*) { return -1; }
  virtual void on_leader_start(int64_t) {}
  virtual void on_leader_stop(const butil::Status&) {}
  virtual void on_error(const ::braft::Error&) {}
  virtual void on_configuration_committed(const ::braft::Configuration&) {}
  virtual void on_configuration_committed(const ::braft::Configuration& c, int64_t) { on_configuration_committed(c); }
  virtual void on_stop_following(const ::braft::LeaderChangeContext&) {}
  virtual void on_start_following(const ::braft::LeaderChangeContext&) {}
};
struct NodeOptions {
  int election_timeout_ms = 1000, max_clock_drift_ms = 1000; int snapshot_interval_s = 3600; int catchup_margin = 1000; bool usercode_in_pthread = false;
  Configuration initial_conf; StateMachine* fsm = nullptr; bool node_owns_fsm = false; LogStorage* log_storage = nullptr; bool node_owns_log_storage = true;
  std::string log_uri, raft_meta_uri, snapshot_uri; bool filter_before_copy_remote = false; scoped_refptr<FileSystemAdaptor>* snapshot_file_system_adaptor = nullptr; bool disable_cli = false; bool witness = false;
};
struct PeerStatus { bool valid = false, installing_snapshot = false; int64_t next_index = 0, last_rpc_send_timestamp = 0, flying_append_entries_size = 0, readonly_index = 0; int consecutive_error_times = 0; };
struct NodeStatus { State state = STATE_END; PeerId peer_id, leader_id; bool readonly = false; int64_t term = 0, committed_index = 0, known_applied_index = 0, pending_index = 0, pending_queue_size = 0, applying_index = 0, first_index = 0, last_index = -1, disk_index = 0; std::map<PeerId, PeerStatus> stable_followers, unstable_followers; };
class Node;
}
namespace shim {
// Behaviour behind braft::Node; a driver installs a factory. Default: a single-member group that is the leader and applies
// every task immediately on the caller's thread.
struct RaftBackend {
  virtual ~RaftBackend() = default;
  virtual int init(const braft::NodeOptions&) { return 0; }
  virtual bool is_leader() { return true; }
  virtual bool is_leader_lease_valid() { return is_leader(); }
  virtual braft::PeerId leader_id() { return braft::PeerId(); }
  virtual void apply(const braft::Task& t) = 0;
  virtual void shutdown(braft::Closure* d) { if (d) d->Run(); }
  virtual void snapshot(braft::Closure* d) { if (d) d->Run(); }
  virtual butil::Status list_peers(std::vector<braft::PeerId>*) { return butil::Status::OK(); }
  virtual void change_peers(const braft::Configuration&, braft::Closure* d) { if (d) d->Run(); }
  virtual int transfer_leadership_to(const braft::PeerId&) { return 0; }
  virtual void get_status(braft::NodeStatus*) {}
};
using RaftFactory = std::function<std::shared_ptr<RaftBackend>(const std::string& group, const braft::PeerId& peer)>;
void SetRaftFactory(RaftFactory f);
std::shared_ptr<RaftBackend> NewRaftBackend(const std::string& group, const braft::PeerId& peer);
}
namespace braft {
class Node {
 public:
  Node(const GroupId& g, const PeerId& p) : id_(g, p), b_(shim::NewRaftBackend(g, p)) {}
  virtual ~Node() = default;
  NodeId node_id() { return id_; }
  PeerId leader_id() { return b_->leader_id(); }
  bool is_leader() { return b_->is_leader(); }
  bool is_leader_lease_valid() { return b_->is_leader_lease_valid(); }
  int init(const NodeOptions& o) { opt_ = o; return b_->init(o); }
  void shutdown(Closure* d) { b_->shutdown(d); }
  void join() {}
  void apply(const Task& t) { b_->apply(t); }
  butil::Status list_peers(std::vector<PeerId>* p) { return b_->list_peers(p); }
  void add_peer(const PeerId&, Closure* d) { if (d) d->Run(); }
  void remove_peer(const PeerId&, Closure* d) { if (d) d->Run(); }
  void change_peers(const Configuration& c, Closure* d) { b_->change_peers(c, d); }
  butil::Status reset_peers(const Configuration&) { return butil::Status::OK(); }
  void snapshot(Closure* d) { b_->snapshot(d); }
  butil::Status vote(int) { return butil::Status::OK(); }
  butil::Status reset_election_timeout_ms(int, int = 1000) { return butil::Status::OK(); }
  int transfer_leadership_to(const PeerId& p) { return b_->transfer_leadership_to(p); }
  void get_status(NodeStatus* s) { b_->get_status(s); }
  const NodeOptions& options() const { return opt_; }
 private: NodeId id_; std::shared_ptr<shim::RaftBackend> b_; NodeOptions opt_;
};
int bootstrap_dummy();
inline int add_service(brpc::Server*, const butil::EndPoint&) { return 0; }
inline int add_service(brpc::Server*, int) { return 0; }
}
