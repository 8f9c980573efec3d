#pragma once
// Berkeley DB is not available here: the BDB engine stands in by the RocksDB-backed one.
#include "engine/rocks_raw_engine.h"
namespace dingodb { class BdbRawEngine : public RocksRawEngine {}; }
