// Stand-in for src/metrics/dingo_bvar.h: labelled statistics without export machinery.
#pragma once
#include <list>
#include <map>
#include <memory>
#include <string>
#include "butil/containers/doubly_buffered_data.h"
#include "butil/containers/flat_map.h"
#include "butil/strings/string_piece.h"
#include "bvar/bvar.h"
namespace dingodb {
template <typename T> class DingoMultiDimension {
 public:
  using key_type = std::list<std::string>;
  explicit DingoMultiDimension(const key_type&) {}
  DingoMultiDimension(const butil::StringPiece&, const key_type&) {}
  DingoMultiDimension(const butil::StringPiece&, const butil::StringPiece&, const key_type&) {}
  template <class S> int expose(const S&) { return 0; }
  template <class S> int expose_as(const S&, const S&) { return 0; }
  void hide() {}
  T* get_stats(const key_type& k) { auto& p = m_[k]; if (!p) p = std::make_unique<T>(); return p.get(); }
  void delete_stats(const key_type& k) { m_.erase(k); }
  void delete_stats() { m_.clear(); }
  bool has_stats(const key_type& k) { return m_.count(k) != 0; }
  size_t count_stats() { return m_.size(); }
 private:
  std::map<key_type, std::unique_ptr<T>> m_;
};
}  // namespace dingodb
