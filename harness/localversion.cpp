// Several clients, each with a local_version store, receiving one confirmed order.
#include "records.hpp"
#include <nbdl/apply_message.hpp>
#include <nbdl/get.hpp>
#include <nbdl/local_version.hpp>
#include <nbdl/match.hpp>
#include <nbdl/message.hpp>
#include <nbdl/uid.hpp>
#include <optional>
namespace hana = boost::hana;
namespace message = nbdl::message;
using namespace vh;
using namespace hana::literals;

// identifiers that differ from each other in a single byte
static nbdl::uid mk_uid(std::string const& u) {
  nbdl::uid x{};
  for (auto& b : x) b = 5;
  unsigned n = std::stoul(u.substr(1));
  x[n % 16] = 6 + n / 16;
  return x;
}
template <typename R> void run(J const& ep) {
  int n = ep["clients"].asInt();
  R v0 = rec::make<R>(ep["v"]);
  std::vector<nbdl::local_version<R>> s(n, nbdl::local_version<R>(v0));
  J r = ev("reset"); r["clients"] = n; r["v"] = ep["v"]; emit(r);
  auto shown = [&](int c) {
    J a;
    nbdl::match(s[c], [&](R const& x) { a = rec::show(x); });
    J b = rec::show(nbdl::get(s[c]));
    J disagree = arr(); disagree.append("match and get disagree");
    if (a != b) return disagree;
    bool same = true;
    // a member alone
    auto member = [&](int i, auto key) { if (a[i].asString() != rec::get(nbdl::get(s[c], key))) same = false; };
    if constexpr (requires (R x) { x.a; }) member(0, "a"_s);
    if constexpr (requires (R x) { x.b; }) member(1, "b"_s);
    if constexpr (requires (R x) { x.d; }) member(3, "d"_s);
    if constexpr (requires (R x) { x.g; }) member(6, "g"_s);
    return same ? a : disagree;
  };
  struct entry { bool full; std::string u; J d; };
  std::vector<entry> log;
  std::vector<size_t> pos(n, 0);
  hana::tuple<> path{};
  auto request = [&](std::string const& u, J const& d) {
    return message::make_upstream_update(path, mk_uid(u), rec::delta_of<R>(d));
  };
  for (auto const& op : ep["ops"]) {
    auto o = op["o"].asString();
    J e = ev(o.c_str());
    for (auto k : {"c", "u", "d"}) if (op.isMember(k)) e[k] = op[k];
    if (o == "local") {
      int c = op["c"].asInt() - 1;
      auto m = request(op["u"].asString(), op["d"]);
      nbdl::apply_message(s[c], m);
      e["shown"] = shown(c);
    }
    else if (o == "commit") log.push_back({false, op["u"].asString(), op["d"]});
    else if (o == "replace") log.push_back({true, "", op["d"]});
    else if (o == "deliver") {
      int c = op["c"].asInt() - 1;
      auto const& x = log.at(pos[c]++);
      if (x.full) {
        if (log.size() % 2) nbdl::apply_message(s[c], message::make_downstream_read(path, message::no_uid, rec::make<R>(x.d)));
        else nbdl::apply_message(s[c], message::make_downstream_create(path, mk_uid("u999"), rec::make<R>(x.d), true));
      }
      else nbdl::apply_message(s[c], message::to_downstream_confirmed(request(x.u, x.d)));
      e["shown"] = shown(c);
    }
    else ::_exit(4);
    emit(e);
  }
}
int main() {
  return main_loop([](J const& ep) {
    auto c = ep["cfg"].asString();
    if (c == "one") run<rec::one>(ep);
    else if (c == "two") run<rec::two>(ep);
    else if (c == "five") run<rec::five>(ep);
    else if (c == "eight") run<rec::eight>(ep);
    else if (c == "nested") run<rec::nested>(ep);
    else if (c == "mixed") run<rec::mixed>(ep);
    else ::_exit(4);
  });
}
