// Shared by all harnesses: reads one JSON episode per line, writes one JSON event per line.
#pragma once
#include <json/json.h>
#include <unistd.h>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>

namespace vh {
  using J = Json::Value;

  inline std::string dump(J const& v) {
    static Json::StreamWriterBuilder b = []{ Json::StreamWriterBuilder b; b["indentation"] = ""; return b; }();
    return Json::writeString(b, v);
  }
  // one line, written at once so that a crash loses nothing; an episode that never stops talking is ended
  inline int& emit_limit() { static int n = 4000; return n; }
  inline void emit(J const& v) {
    static int count = 0;
    if (v["ev"] == "reset") count = 0;
    else if (++count > emit_limit()) ::_exit(78);
    std::string s = dump(v) + "\n";
    size_t o = 0;
    while (o < s.size()) {
      auto n = ::write(1, s.data() + o, s.size() - o);
      if (n <= 0) ::_exit(77);
      o += n;
    }
  }
  inline J obj() { return J(Json::objectValue); }
  inline J arr() { return J(Json::arrayValue); }
  inline J ev(char const* name) { J e = obj(); e["ev"] = name; return e; }

  template <typename F> int main_loop(F f) {
    std::ios::sync_with_stdio(false);
    std::string line;
    while (std::getline(std::cin, line)) {
      if (line.empty()) continue;
      J ep; Json::CharReaderBuilder rb; std::string errs;
      std::istringstream in(line);
      if (!Json::parseFromStream(rb, in, &ep, &errs)) { std::cerr << errs; return 3; }
      f(ep);
    }
    return 0;
  }
}
