#pragma once
#include <unistd.h>
namespace braft { int raft_fsync(int fd); }
