// Runs message histories on the map stores and records what every key shows.
#include "common.hpp"
#include <nbdl/map_store.hpp>
#include <nbdl/message.hpp>
#include <nbdl/match.hpp>
#include <boost/hana/tuple.hpp>
#include <memory>

namespace hana = boost::hana;
namespace message = nbdl::message;
using namespace vh;

namespace {
  template <int i> struct Part { int value; };
  struct Entity { std::string text; };
  // a key whose hash covers only its first member: every key collides
  struct Colliding { int group; std::string name; };
  struct Uid { int value; };
}
namespace nbdl {
  template <int i> struct bind_sequence_impl<Part<i>> {
    template <typename P, typename F> static constexpr auto apply(P&& p, F&& f)
    { return std::forward<F>(f)(p.value); }
  };
  template <> struct bind_sequence_impl<Colliding> {
    template <typename P, typename F> static constexpr auto apply(P&& p, F&& f)
    { return std::forward<F>(f)(p.group); }
  };
}
namespace boost::hana {
  template <int i> struct equal_impl<Part<i>, Part<i>> {
    template <typename A, typename B> static constexpr bool apply(A const& a, B const& b)
    { return a.value == b.value; }
  };
  template <> struct equal_impl<Colliding, Colliding> {
    template <typename A, typename B> static bool apply(A const& a, B const& b)
    { return a.group == b.group && a.name == b.name; }
  };
}

// key number n as each key type
template <typename T> struct mk;
using Tup = hana::tuple<Part<1>, Part<2>>;
template <> struct mk<Tup> { static Tup make(int n) { return Tup{Part<1>{n % 3}, Part<2>{n / 3}}; } };
template <> struct mk<std::string> { static std::string make(int n) { return std::string(n % 4, 'a') + std::to_string(n / 4); } };
template <> struct mk<Colliding> { static Colliding make(int n) { return {0, "key" + std::to_string(n)}; } };
using StrTup = hana::tuple<std::string, int>;
template <> struct mk<StrTup> { static StrTup make(int n) { return StrTup{n % 2 ? "x" : "", n / 2}; } };
template <> struct mk<int> { static int make(int n) { return n; } };

template <typename Store, typename Key>
void run(J const& ep) {
  Store store{};
  auto const& keys = ep["keys"];
  J r = ev("reset"); r["keys"] = keys; r["cfg"] = ep["cfg"]; emit(r);
  std::map<std::string, Key> km;
  for (Json::ArrayIndex i = 0; i < keys.size(); i++) km.emplace(keys[i].asString(), mk<Key>::make(i));

  auto apply = [&](auto const& m) -> bool { return static_cast<bool>(nbdl::apply_message(store, m)); };
  for (auto const& op : ep["ops"]) {
    auto kind = op["kind"].asString(), v = op["v"].asString();
    Key const k = km.at(op["k"].asString());
    auto payload = [&](auto f) -> bool {
      if (v == "nf") return f(nbdl::not_found{});
      else return f(Entity{v});
    };
    bool c = false;
    Uid uid{7};
    if (kind == "up_create") c = payload([&](auto p) { return apply(message::make_upstream_create(k, uid, p)); });
    else if (kind == "up_read") c = apply(message::make_upstream_read(k, uid));
    else if (kind == "up_update") c = payload([&](auto p) { return apply(message::make_upstream_update(k, uid, p)); });
    else if (kind == "up_delete") c = apply(message::make_upstream_delete(k, uid));
    else if (kind == "down_create") c = payload([&](auto p) { return apply(message::make_downstream_create(k, uid, p, true)); });
    else if (kind == "down_read") c = payload([&](auto p) { return apply(message::make_downstream_read(k, uid, p)); });
    else if (kind == "down_update") c = payload([&](auto p) { return apply(message::make_downstream_update(k, uid, p, true)); });
    else if (kind == "down_delete") c = apply(message::make_downstream_delete(k, uid, true));
    else ::_exit(4);
    J e = ev("apply");
    e["kind"] = kind; e["k"] = op["k"]; e["v"] = v; e["changed"] = c;
    J m = obj();
    for (auto const& [name, key] : km) {
      std::string shown = "nothing";
      int calls = 0;
      nbdl::match(store, key, hana::overload_linearly(
        [&](nbdl::unresolved) { calls++; shown = "unresolved"; },
        [&](nbdl::not_found) { calls++; shown = "nf"; },
        [&](nbdl::not_in_set) { calls++; shown = "absent"; },
        [&](nbdl::trigger_read) { calls++; shown = "absent"; },
        [&](Entity const& x) { calls++; shown = x.text; }));
      if (calls != 1) shown = "calls:" + std::to_string(calls);
      m[name] = shown;
    }
    e["map"] = m;
    emit(e);
  }
}

template <typename Key> void run_kind(J const& ep) {
  using V = nbdl::detail::variant<nbdl::unresolved, Entity, nbdl::not_found>;
  if (ep["basic"].asBool()) run<nbdl::basic_map_store<Key, V>, Key>(ep);
  else run<nbdl::map_store<Key, Entity>, Key>(ep);
}

int main() {
  return main_loop([](J const& ep) {
    auto c = ep["cfg"].asString();
    if (c == "tuple") run_kind<Tup>(ep);
    else if (c == "string") run_kind<std::string>(ep);
    else if (c == "colliding") run_kind<Colliding>(ep);
    else if (c == "strtup") run_kind<StrTup>(ep);
    else if (c == "int") run_kind<int>(ep);
    else ::_exit(4);
  });
}
