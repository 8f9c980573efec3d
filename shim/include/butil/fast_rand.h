#pragma once
#include <cstdint>
#include <random>
namespace butil {
inline std::mt19937_64& shim_rng() { static thread_local std::mt19937_64 g(12345); return g; }
inline uint64_t fast_rand() { return shim_rng()(); }
inline uint64_t fast_rand_less_than(uint64_t n) { return n ? shim_rng()() % n : 0; }
template <typename T> T fast_rand_in(T a, T b) { return a >= b ? a : a + (T)fast_rand_less_than((uint64_t)(b - a) + 1); }
inline double fast_rand_double() { return (double)(shim_rng()() >> 11) / (double)(1ull << 53); }
}
