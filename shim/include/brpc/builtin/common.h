#pragma once
#include <iomanip>
#include <ostream>
#include <string>
#include "brpc/controller.h"
namespace brpc {
inline bool UseHTML(const HttpHeader&) { return false; }
inline const char* gridtable_style() { return ""; }
inline const char* TabsHead() { return ""; }
template <typename T> struct MinWidth { const T* t; int n; };
template <typename T> inline MinWidth<T> min_width(const T& t, int n) { return MinWidth<T>{&t, n}; }
template <typename T> inline std::ostream& operator<<(std::ostream& os, const MinWidth<T>& m) { return os << std::setw(m.n) << *m.t; }
}
