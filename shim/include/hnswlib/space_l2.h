#pragma once
#include <cstddef>
namespace hnswlib { template <class T> class SpaceInterface; template <class T> class HierarchicalNSW; typedef size_t labeltype; }
