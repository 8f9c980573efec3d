// Force-included: standard headers the original third-party headers pull in transitively.
#pragma once
#include <algorithm>
#include <any>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <iomanip>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <glog/logging.h>
#include <gflags/gflags.h>
#include "butil/atomicops.h"
#include "butil/compiler_specific.h"
#include "butil/endpoint.h"
#include "butil/logging.h"
#include "butil/macros.h"
#include "butil/status.h"
#include "butil/time.h"
#include "bthread/bthread.h"
#include "bthread/butex.h"
#include "brpc/reloadable_flags.h"
#include "brpc/channel.h"
#include "brpc/controller.h"
#include "brpc/server.h"
#include "braft/raft.h"
#include "bvar/bvar.h"
#include "fmt/core.h"
#include "fmt/ranges.h"
#include "google/protobuf/service.h"
#include "google/protobuf/stubs/callback.h"
#include "proto/common.pb.h"
#include "proto/coordinator.pb.h"
#include "proto/coordinator_internal.pb.h"
#include "proto/error.pb.h"
#include "proto/index.pb.h"
#include "proto/meta.pb.h"
#include "proto/raft.pb.h"
#include "proto/store.pb.h"
#include "proto/store_internal.pb.h"
