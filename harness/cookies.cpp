#include "common.hpp"
#include <nbdl/app/detail/cookie_parser.hpp>
#include <memory>
using namespace vh;
static J codes(std::string_view s) { J a = arr(); for (unsigned char c : s) a.append(int(c)); return a; }
int main() {
  emit_limit() = 100000;
  return main_loop([](J const& ep) {
    emit(ev("reset"));
    for (auto const& s : ep["texts"]) {
      auto n = s.size();
      std::unique_ptr<char[]> b(new char[n]);    // what is behind it is watched
      for (unsigned i = 0; i < n; ++i) b[i] = char(s[i].asInt());
      J e = ev("get"); e["s"] = s;
      e["value"] = codes(nbdl::app::detail::get_session_cookie(std::string_view(b.get(), n)));
      emit(e);
    }
  });
}
