#pragma once
#include <string>
#include <vector>
namespace brpc {
struct TabInfo { std::string tab_name, path; bool valid() const { return true; } };
class TabInfoList { public: TabInfo* add() { v_.emplace_back(); return &v_.back(); } size_t size() const { return v_.size(); } private: std::vector<TabInfo> v_; };
class Tabbed { public: virtual ~Tabbed() = default; virtual void GetTabInfo(TabInfoList*) const = 0; };
}
