#pragma once
#include "faiss/MetricType.h"
#include "faiss/impl/IDSelector.h"
namespace faiss {
struct RangeSearchResult { size_t nq = 0; size_t* lims = nullptr; idx_t* labels = nullptr; float* distances = nullptr; };
struct Index; struct IndexBinary; struct IndexIDMap; struct IndexIVFPQ; struct IndexFlat;
}
