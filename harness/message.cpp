// Builds messages of every kind out of parts, reads them, and makes their answers.
#include "common.hpp"
#include <nbdl/message.hpp>
#include <nbdl/tags.hpp>
#include <boost/hana.hpp>
using namespace vh;
namespace hana = boost::hana;
namespace message = nbdl::message;
struct Num { int v; Num(int x) : v(x) { } friend bool operator==(Num const& a, Num const& b) { return a.v == b.v; } };
struct Uid { std::string v; };
struct Str { std::string v; Str(std::string x) : v(x) { } Str(Uid u) : v(u.v) { } friend bool operator==(Str const& a, Str const& b) { return a.v == b.v; } };
struct Unit { friend bool operator==(Unit, Unit) { return true; } };
struct Val { std::string v; };
struct Priv { std::string v; };
namespace {
  int nums(auto const&) { return 0; }
  std::string txt(Num const& k) { return std::to_string(k.v); }
  std::string txt(Str const& k) { return k.v; }
  std::string txt(Unit) { return "unit"; }
  std::string txt(int k) { return std::to_string(k); }
  std::string txt(Uid const& k) { return k.v; }
  std::string txt(Val const& k) { return k.v; }
  std::string txt(Priv const& k) { return k.v; }
  std::string txt(nbdl::not_found) { return "nf"; }
  std::string txt(message::no_impl) { return "NOT GIVEN"; }
  std::string txt(bool b) { return b ? "true" : "false"; }
  std::string txt(hana::true_) { return "true"; }
  std::string txt(hana::false_) { return "false"; }
  template <typename ...T> J path(hana::tuple<T...> const& p) { J a = arr(); hana::for_each(p, [&](auto const& k) { a.append(txt(k)); }); return a; }
  template <typename K, typename P> J path(message::create_path<K, P> const& p) { J a = path(p.parent_path); a.append("?"); return a; }
  // the same path with another key at the top, if it has any key
  void other(Num& k) { k.v ^= 1; }
  void other(Str& k) { k.v += "'"; }
  void other(Unit) { }
  template <typename ...T> hana::tuple<T...> changed(hana::tuple<T...> p, int i) {
    int n = 0; hana::for_each(p, [&](auto& k) { if (n++ == i) other(k); }); return p;
  }
  template <typename K, typename P> auto changed(message::create_path<K, P> const& p, int i) { return message::make_create_path<K>(changed(p.parent_path, i)); }
  template <typename ...T> std::string txt(hana::tuple<T...> const&) { return "path"; }
  template <typename K, typename P> std::string txt(message::create_path<K, P> const&) { return "path"; }
}
// what is read of the message through m, which may be const or not
template <typename M, typename R> J seen(R& m) {
  J j = obj();
  using namespace message;
  j["ch"] = is_upstream<M> && !is_downstream<M> ? "up" : is_downstream<M> && !is_upstream<M> ? "down" : "?";
  if (std::is_same_v<std::decay_t<decltype(get_channel(m))>, channel::upstream> != (j["ch"] == "up")) j["ch"] = "!";
  if (std::is_same_v<std::decay_t<decltype(get_channel(m))>, channel::downstream> != (j["ch"] == "down")) j["ch"] = "!";
  using A = std::decay_t<decltype(get_action(m))>;
  j["act"] = std::is_same_v<A, action::create> ? "create" : std::is_same_v<A, action::read> ? "read"
           : std::is_same_v<A, action::update> ? "update" : std::is_same_v<A, action::delete_> ? "delete" : "?";
  if (is_create<M> != (j["act"] == "create") || is_read<M> != (j["act"] == "read")
   || is_update<M> != (j["act"] == "update") || is_delete<M> != (j["act"] == "delete")) j["act"] = "!";
  j["path"] = path(get_path(m));
  if constexpr (has_uid<M>) j["uid"] = txt(get_uid(m)); else j["uid"] = "-";
  if constexpr (has_payload<M>) j["val"] = txt(get_payload(m)); else j["val"] = "-";
  if constexpr (has_private_payload<M>) j["priv"] = txt(get_private_payload(m)); else j["priv"] = "-";
  j["hasconf"] = has_is_confirmed<M>;
  j["conf"] = bool(is_confirmed(m));
  if constexpr (is_path_normalizable<M>) {
    j["norm"] = path(get_normalized_path(m));
    using P = typename decltype(get_path_type(m))::type;
    if (!std::is_same_v<std::decay_t<P>, std::decay_t<decltype(get_normalized_path(m))>>) j["norm"].append("type");
  } else { j["norm"] = arr(); j["norm"].append("-"); }
  j["needs"] = requires_key_for_downstream<M>;
  // the path as a sequence of its keys, and compared with itself and with paths that differ in one key
  j["keys"] = nbdl::bind_sequence(get_path(m), [](auto const& ...x) { J a = arr(); (a.append(txt(x)), ...); return a; });
  auto const copy = get_path(m);
  j["eq"] = arr();
  for (int i = -1; i < 3; i++) {
    auto const p = changed(copy, i);
    bool const e = hana::equal(get_path(m), p);
    if (hana::equal(p, get_path(m)) != e || hana::not_equal(p, copy) == e) j["eq"].append("?");
    j["eq"].append(e);
  }
  j["parts"] = nbdl::bind_sequence(m, [](auto const& ...x) { J a = arr(); (a.append(txt(x)), ...); return a; });
  return j;
}
template <typename M> J shown(M const& m) {
  J j = seen<M>(m);
  M mine(m);                    // reading changes nothing, however often
  if (seen<M>(mine) != j || seen<M>(mine) != j) j["ch"] = "changed by reading";
  return j;
}
template <typename M> void answers(J const& ep, M const& m) {
  J e = ev("made"); e["m"] = ep["m"]; e["shown"] = shown(m); emit(e);
  int turn = 0;
  for (auto const& c : ep["c"]) {
    auto to = c["to"].asString(), conf = c["conf"].asString(), key = c["key"].asString(), val = c["val"].asString();
    M mine(m);
    auto done = [&](auto const& d) { J e = ev("convert"); e["c"] = c; e["shown"] = shown(d); e["still"] = shown(m); emit(e); };
    // from a message that is kept (const or not), which must still say the same, or given away
    auto from = [&](int how, auto f) {
      if (how == 0) done(f(m));
      else if (how == 1) {
        auto const& d = f(mine);
        J e = ev("convert"); e["c"] = c; e["shown"] = shown(d); e["still"] = shown(mine); emit(e);
      }
      else done(f(std::move(mine)));
    };
    bool hit = false; int how = turn++ % 3, odd = turn % 2;
    if constexpr (message::is_upstream<M>) {
      if constexpr (!message::is_read<M> && !message::requires_key_for_downstream<M>) {
        if (to == "plain") {
          hit = true;
          if (conf == "-") from(how, [&](auto&& x) { return message::to_downstream(std::forward<decltype(x)>(x), message::no_is_confirmed); });
          else if (conf == "true" && odd) from(how, [&](auto&& x) { return message::to_downstream_confirmed(std::forward<decltype(x)>(x)); });
          else from(how, [&](auto&& x) { return message::to_downstream(std::forward<decltype(x)>(x), conf == "true"); });
        }
      }
      if constexpr (message::is_create<M> && hana::is_a<message::create_path_tag, decltype(message::get_path(m))>) {
        using Key = typename std::decay_t<decltype(message::get_path(m))>::key;
        auto with = [&](auto k) {
          if (conf == "true") from(how, [&](auto&& x) { return message::to_downstream_with_key_confirmed(std::forward<decltype(x)>(x), k); });
          else if (odd) from(how, [&](auto&& x) { return message::to_downstream_with_key(std::forward<decltype(x)>(x), k); });
          else from(how, [&](auto&& x) { return message::to_downstream_with_key(std::forward<decltype(x)>(x), std::move(k)); });
        };
        if (to == "key") {
          hit = true;
          if constexpr (std::is_same_v<Key, Num>) { if (odd) with(Num{std::stoi(key)}); else with(std::stoi(key)); }
          else if constexpr (std::is_same_v<Key, Str>) { if (odd) with(Str{key}); else with(key); }
          else with(Unit{});
        }
      }
      if constexpr (message::is_read<M>)
        if (to == "read") {
          hit = true;
          if (val == "nf") from(how, [&](auto&& x) { return message::to_downstream_read(std::forward<decltype(x)>(x), nbdl::not_found{}); });
          else { Val v{val}; from(how, [&](auto&& x) { return message::to_downstream_read(std::forward<decltype(x)>(x), v); }); }
        }
    }
    if (!hit) ::_exit(5);
  }
}
template <typename P, typename U> void make(J const& ep, P const& p, U const& u) {
  J const& m = ep["m"];
  auto ch = m["ch"].asString(), act = m["act"].asString(), conf = m["conf"].asString(), priv = m["priv"].asString();
  constexpr bool keyless = hana::is_a<message::create_path_tag, P>;
  Val v{m["val"].asString()};
  auto with_conf = [&](auto f) {
    if (conf == "-") f(message::no_is_confirmed); else if (conf == "true") f(true); else f(false);
  };
  if (act == "create") {
    if (ch == "up") {
      if (priv == "-") answers(ep, message::make_upstream_create(p, u, v));
      else { Priv pp{priv}; P q(p); answers(ep, message::make_upstream_create(std::move(q), u, v, pp)); }
    } else with_conf([&](auto c) { answers(ep, message::make_downstream_create(p, u, v, c)); });
  } else if constexpr (!keyless) {
    if (act == "read") {
      if (ch == "up") {
        if constexpr (std::is_same_v<U, message::no_impl>) answers(ep, message::make_upstream_read(p));
        else answers(ep, message::make_upstream_read(p, u));
      }
      else if (m["val"] == "nf") answers(ep, message::make_downstream_read(p, u, nbdl::not_found{}));
      else answers(ep, message::make_downstream_read(p, u, std::move(v)));
    } else if (act == "update") {
      if (ch == "up") answers(ep, message::make_upstream_update(p, u, v));
      else with_conf([&](auto c) { answers(ep, message::make_downstream_update(p, u, v, c)); });
    } else {
      if (ch == "up") answers(ep, message::make_upstream_delete(p, u));
      else with_conf([&](auto c) { answers(ep, message::make_downstream_delete(p, u, c)); });
    }
  } else ::_exit(6);
}
template <typename P> void with_uid(J const& ep, P const& p) {
  auto ut = ep["m"]["ut"].asString(), uid = ep["m"]["uid"].asString();
  if (ut == "none") make(ep, p, message::no_uid);
  else if (ut == "num") make(ep, p, std::stoi(uid));
  else make(ep, p, Uid{uid});
}
template <typename Key, typename Parent> void with_key(J const& ep, Parent const& parent, Key const& k, bool keyless) {
  if (keyless) with_uid(ep, message::make_create_path<Key>(parent));
  else with_uid(ep, hana::append(parent, k));
}
template <typename Parent> void with_parent(J const& ep, Parent const& parent) {
  auto kt = ep["m"]["kt"].asString(), key = ep["m"]["key"].asString();
  bool keyless = key == "-";
  if (kt == "num") with_key(ep, parent, Num{keyless ? 0 : std::stoi(key)}, keyless);
  else if (kt == "str") with_key(ep, parent, Str{key}, keyless);
  else with_key(ep, parent, Unit{}, keyless);
}
int main() {
  return main_loop([](J const& ep) {
    emit(ev("reset"));
    auto const& par = ep["m"]["par"];
    if (par.size() == 0) with_parent(ep, hana::tuple<>{});
    else if (par.size() == 1) with_parent(ep, hana::tuple<Num>(std::stoi(par[0].asString())));
    else with_parent(ep, hana::tuple<Num, Str>(std::stoi(par[0].asString()), par[1].asString()));
  });
}
