#pragma once
#include <cstddef>
#include <memory>
#include <unordered_set>
#include <vector>
#include "faiss/MetricType.h"
namespace faiss {
struct IDSelector { virtual bool is_member(idx_t id) const = 0; virtual ~IDSelector() {} };
struct IDSelectorBatch : IDSelector { std::unordered_set<idx_t> set; IDSelectorBatch(size_t n, const idx_t* p) : set(p, p + n) {} bool is_member(idx_t id) const override { return set.count(id) != 0; } };
}
