// A prefix tree of calls and results, written as one JSON line per node.
#pragma once
#include "h.h"
namespace h {
struct Trie {
  struct Node { std::string op, res; std::vector<int> ch; };
  std::vector<Node> n{Node{"{}", "{}", {}}};
  int Child(int p, const std::string& op, const std::string& res) {
    for (int c : n[p].ch) if (n[c].op == op && n[c].res == res) return c;
    n.push_back(Node{op, res, {}}); n[p].ch.push_back((int)n.size() - 1); return (int)n.size() - 1;
  }
  void Write(const std::string& path) {
    Out o(path);
    for (auto& x : n) o.Line(J::Raw("{\"op\":" + x.op + ",\"res\":" + x.res + ",\"ch\":" + J::Arr(x.ch, [](int c) { return c + 1; }).s + "}"));
  }
};
}
