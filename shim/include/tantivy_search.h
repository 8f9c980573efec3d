#pragma once
// Stand-in for the full-text engine: an in-memory set of documents per index path.
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>
struct BoolResult { bool result = true; int error_code = 0; std::string error_msg; };
struct StringResult { std::string result; int error_code = 0; std::string error_msg; };
struct RowIdWithScore { uint64_t row_id = 0; float score = 0; uint32_t seg_id = 0, doc_id = 0; std::vector<std::string> docs; };
struct SearchResult { std::vector<RowIdWithScore> result; int error_code = 0; std::string error_msg; };
namespace shim { inline std::map<std::string, std::set<uint64_t>>& TantivyDocs() { static std::map<std::string, std::set<uint64_t>> m; return m; } }
template <class... A> inline BoolResult ffi_varify_index_parameter(const A&...) { return {}; }
template <class... A> inline BoolResult ffi_load_index_reader(const A&...) { return {}; }
template <class... A> inline BoolResult ffi_load_index_writer(const A&...) { return {}; }
template <class... A> inline BoolResult ffi_free_index_reader(const A&...) { return {}; }
template <class... A> inline BoolResult ffi_free_index_writer(const A&...) { return {}; }
template <class... A> inline BoolResult ffi_index_writer_commit(const A&...) { return {}; }
template <class... A> inline BoolResult ffi_index_reader_reload(const A&...) { return {}; }
template <class... A> inline BoolResult ffi_create_index_with_parameter(const std::string& p, const A&...) { shim::TantivyDocs()[p]; return {}; }
template <class... A> inline BoolResult ffi_index_multi_type_column_docs(const std::string& p, uint64_t id, const A&...) { shim::TantivyDocs()[p].insert(id); return {}; }
inline BoolResult ffi_delete_row_ids(const std::string& p, const std::vector<uint64_t>& ids) { for (auto i : ids) shim::TantivyDocs()[p].erase(i); return {}; }
template <class... A> inline SearchResult ffi_bm25_search_with_column_names(const std::string& p, const A&...) { SearchResult r; for (auto i : shim::TantivyDocs()[p]) { RowIdWithScore x; x.row_id = i; r.result.push_back(x); } return r; }
inline uint64_t ffi_get_indexed_doc_counts(const std::string& p) { return shim::TantivyDocs()[p].size(); }
inline uint64_t ffi_get_total_num_tokens(const std::string& p) { return shim::TantivyDocs()[p].size(); }
inline StringResult ffi_get_index_meta_json(const std::string&) { return {}; }
inline StringResult ffi_get_index_json_parameter(const std::string&) { return {}; }
