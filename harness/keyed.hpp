// Values of many types as keys: hashed, compared and looked up
#pragma once
#include "common.hpp"
#include <nbdl/binder/hash.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/key.hpp>
#include <nbdl/string.hpp>
#include <nbdl/uid.hpp>
#include <nbdl/variant.hpp>
#include <boost/hana.hpp>
#include <boost/hana/ext/std/pair.hpp>
#include <boost/hana/ext/std/tuple.hpp>
#include <algorithm>
#include <cmath>
#include <deque>
#include <list>
#include <memory>
#include <optional>
#include <unordered_map>
#include <unordered_set>
using namespace vh;
namespace hana = boost::hana;

using Int = int;
using Long = std::int64_t;
using Bool = bool;
using Dbl = double;
using Str = std::string;
using NStr = nbdl::string;
using Uid = nbdl::uid;
struct Nil { friend bool operator==(Nil, Nil) { return true; } };
struct tagged { };
template <typename T> using Vec = std::vector<T>;
template <typename T> using Lst = std::list<T>;
template <typename T> using Deq = std::deque<T>;
template <typename T> using Arr = std::array<T, 3>;
template <typename T> using USet = std::unordered_set<T>;
template <typename T> using UMSet = std::unordered_multiset<T>;
template <typename T> using Set = std::set<T>;
template <typename T> using Opt = std::optional<T>;
template <typename T> using Key = nbdl::key<tagged, T>;
template <typename ...T> using Var = nbdl::variant<T...>;
template <typename ...T> using Tup = hana::tuple<T...>;
template <typename ...T> using STup = std::tuple<T...>;
template <typename T, typename U> using Pair = hana::pair<T, U>;
template <typename T, typename U> using SPair = std::pair<T, U>;

inline J node(char const* k, std::string const& s = "") { J j = obj(); j["k"] = k; j["s"] = s; j["c"] = arr(); return j; }
inline int roll(int& how) { how = (how * 1103515245 + 12345) & 0x7fffffff; return how >> 8; }

// made in several ways, all of them giving the value asked for
template <typename T> struct As;
template <typename T> T made(J const& t, int& how) { return As<T>::make(t, how); }
template <typename T> requires std::is_integral_v<T> struct As<T> {
  static T make(J const& t, int&) { return T(std::stoll(t["s"].asString())); }
  static J show(T x) { return node("num", std::to_string(x)); } };
template <> struct As<Dbl> {
  static Dbl make(J const& t, int& how) { auto x = std::stod(t["s"].asString()); return x == 0 && roll(how) % 2 ? -0.0 : x; }
  static J show(Dbl x) { std::ostringstream o; o << (x == 0 ? 0.0 : x); return node("num", o.str()); } };
template <typename S> requires std::is_base_of_v<std::string, S> struct As<S> {
  static S make(J const& t, int& how) {
    auto x = t["s"].asString();
    switch (roll(how) % 4) {
      case 0: { S r; r.reserve(90); for (char c : x) r.push_back(c); return r; }
      case 1: { S r(x + "tail"); r.resize(x.size()); return r; }
      case 2: { S r("something longer than what is kept in place"); r = x; return r; }
      default: return S(x);
    } }
  static J show(S const& x) { return node("str", x); } };
template <> struct As<Nil> { static Nil make(J const&, int&) { return {}; } static J show(Nil) { return node("none"); } };
template <> struct As<nbdl::unresolved> { static J show(nbdl::unresolved) { return node("none"); } };
template <> struct As<Uid> {
  static Uid make(J const& t, int& how) {
    auto x = t["s"].asString();
    Uid u{};
    if (roll(how) % 2) u = nbdl::make_uid_generator()();
    for (std::size_t i = 0; i < u.size(); i++) u[i] = std::stoi(x.substr(2 * i, 2), nullptr, 16);
    if (roll(how) % 3 == 0) { Uid v = nbdl::make_uid_generator()(); swap(u, v); return v; }
    return u; }
  static J show(Uid const& x) {
    std::string r;
    for (auto b : x) { char h[3]; std::snprintf(h, 3, "%02x", b); r += h; }
    return node("uid", r); } };
template <typename C> struct AsList {
  using E = typename C::value_type;
  static C make(J const& t, int& how) {
    C r;
    int way = roll(how) % 3;
    if constexpr (requires { r.reserve(9); }) if (way) r.reserve(50);
    if (way == 1) r.push_back(E());
    for (auto const& c : t["c"]) r.push_back(As<E>::make(c, how));
    if (way == 1) r.erase(r.begin());
    if (way == 2) { C q(r); r.clear(); r = std::move(q); }
    return r; }
  static J show(C const& x) { J n = node("list"); for (auto const& e : x) n["c"].append(As<E>::show(e)); return n; } };
template <typename T> struct As<Vec<T>> : AsList<Vec<T>> { };
template <typename T> struct As<Lst<T>> : AsList<Lst<T>> { };
template <typename T> struct As<Deq<T>> : AsList<Deq<T>> { };
template <typename T> struct As<Arr<T>> {
  static Arr<T> make(J const& t, int& how) { Arr<T> r{}; for (int i = 0; i < 3; i++) r[i] = As<T>::make(t["c"][i], how); return r; }
  static J show(Arr<T> const& x) { J n = node("list"); for (auto const& e : x) n["c"].append(As<T>::show(e)); return n; } };
template <typename C> struct AsSet {
  using E = typename C::value_type;
  static C make(J const& t, int& how) {
    C r;
    std::vector<E> es;
    for (auto const& c : t["c"]) es.push_back(As<E>::make(c, how));
    int way = roll(how) % 4;
    if (way & 1) std::reverse(es.begin(), es.end());
    if constexpr (requires { r.rehash(9); }) if (way & 2) r.rehash(200);
    if (way == 2) { std::size_t n = es.size() / 2; if (n) std::rotate(es.begin(), es.begin() + n, es.end()); }
    for (auto const& e : es) r.insert(e);
    if (way == 3) { C q; for (auto const& e : r) q.insert(e); return q; }
    return r; }
  static J show(C const& x) {
    std::vector<std::pair<std::string, J>> es;
    for (auto const& e : x) { J j = As<E>::show(e); es.emplace_back(j["s"].asString(), j); }
    std::stable_sort(es.begin(), es.end(), [](auto& a, auto& b) { return a.first < b.first; });
    J n = node("set"); for (auto const& e : es) n["c"].append(e.second); return n; } };
template <typename T> struct As<USet<T>> : AsSet<USet<T>> { };
template <typename T> struct As<UMSet<T>> : AsSet<UMSet<T>> { };
template <typename T> struct As<Set<T>> : AsSet<Set<T>> { };
template <typename T> struct As<Opt<T>> {
  static Opt<T> make(J const& t, int& how) {
    Opt<T> r;
    if (roll(how) % 2) r = T();
    if (t["s"].asString() == "0") r.reset(); else r = As<T>::make(t["c"][0], how);
    return r; }
  static J show(Opt<T> const& x) { J n = node("opt", x ? "1" : "0"); n["c"].append(x ? As<T>::show(*x) : node("none")); return n; } };
template <typename T> struct As<Key<T>> {
  static Key<T> make(J const& t, int& how) { return Key<T>(As<T>::make(t["c"][0], how)); }
  static J show(Key<T> const& x) { J n = node("key"); n["c"].append(As<T>::show(x.value)); return n; } };
template <typename ...T> struct As<Var<T...>> {
  using V = Var<T...>;
  static V make(J const& t, int& how) {
    V r;
    int way = roll(how) % (sizeof...(T) + 1), want = std::stoi(t["s"].asString()), i = 0;
    auto put = [&](int which) { i = 0; ([&] { if (which == ++i) r = As<T>::make(t["c"][0], how); }(), ...); };
    i = 0;
    ([&] { if (way == ++i) r = T(); }(), ...);
    if (!want) return V();
    put(want);
    return r; }
  static J show(V const& x) { J n = node("var", std::to_string(x.get_type_id()));
    x.match([&](auto const& e) { n["c"].append(As<std::decay_t<decltype(e)>>::show(e)); }); return n; } };
template <typename R, typename ...T> struct AsRec {
  template <std::size_t ...i> static R build(J const& t, int& how, std::index_sequence<i...>) {
    std::tuple<T...> x{made<T>(t["c"][int(i)], how)...};
    return R{std::get<i>(std::move(x))...}; }
  static R make(J const& t, int& how) { return build(t, how, std::index_sequence_for<T...>()); }
  static J show(R const& x) { J n = node("rec"); parts(x, [&](auto const& ...e) { (n["c"].append(As<std::decay_t<decltype(e)>>::show(e)), ...); }); return n; } };
template <typename ...T, typename F> void parts(Tup<T...> const& x, F f) { hana::unpack(x, f); }
template <typename ...T, typename F> void parts(STup<T...> const& x, F f) { std::apply(f, x); }
template <typename T, typename U, typename F> void parts(Pair<T, U> const& x, F f) { f(hana::first(x), hana::second(x)); }
template <typename T, typename U, typename F> void parts(SPair<T, U> const& x, F f) { f(x.first, x.second); }
template <typename ...T> struct As<Tup<T...>> : AsRec<Tup<T...>, T...> { };
template <typename ...T> struct As<STup<T...>> : AsRec<STup<T...>, T...> { };
template <typename T, typename U> struct As<Pair<T, U>> : AsRec<Pair<T, U>, T, U> { };
template <typename T, typename U> struct As<SPair<T, U>> : AsRec<SPair<T, U>, T, U> { };

// the table a store of maps is
template <typename K> struct table {
  std::unordered_map<K, int, nbdl::binder::hash_fn, hana::equal_t> m;
  table() { m.reserve(2); m.max_load_factor(4); }
};
inline auto& generator() { static auto g = std::make_unique<decltype(nbdl::make_uid_generator())>(nbdl::make_uid_generator()); return g; }
inline std::string hex(Uid const& u) { return As<Uid>::show(u)["s"].asString(); }

template <typename K, bool hashed> void keyed(J const& ops) {
  std::unordered_map<K, int, nbdl::binder::hash_fn, hana::equal_t> own;
  std::unordered_map<Uid, int> standard;
  constexpr bool is_uid = std::is_same_v<K, Uid>;
  std::set<std::string> given;
  for (auto const& op : ops) {
    J ev = op;
    std::string const o = op["ev"].asString();
    int how = op.get("how", 0).asInt(), way = how;
    ev.removeMember("how");
    if (o == "reset") { own.clear(); standard.clear(); given.clear(); generator() = std::make_unique<decltype(nbdl::make_uid_generator())>(nbdl::make_uid_generator()); emit(ev); continue; }
    if (o == "gen") {
      J ids = arr();
      if (op["anew"].asBool()) generator() = std::make_unique<decltype(nbdl::make_uid_generator())>(nbdl::make_uid_generator());
      int fresh = 0;
      for (int i = 0; i < op["n"].asInt(); i++) { auto u = (*generator())(); auto h = hex(u); fresh += given.insert(h).second; if (i < 20) ids.append(h); }
      ev["fresh"] = fresh; ev["ids"] = ids;
      emit(ev); continue;
    }
    if (o == "same") {
      K a = As<K>::make(op["t"], how), b = As<K>::make(op["u"], how);
      if constexpr (requires { a == b; a != b; }) { if (way % 2) { ev["eq"] = bool(a == b); ev["ne"] = bool(a != b); emit(ev); continue; } }
      ev["eq"] = bool(hana::equal(a, b)); ev["ne"] = bool(hana::not_equal(a, b));
      emit(ev); continue;
    }
    if constexpr (hashed) {
      auto on = [&](auto& m) {
        if (o == "all") { J all = arr(); for (auto const& [k, v] : m) { J p = arr(); p.append(As<K>::show(k)); p.append(v); all.append(p); } ev["all"] = all; return; }
        K k = As<K>::make(op["t"], how);
        if (o == "put") { auto it = m.find(k); ev["had"] = it == m.end() ? -1 : it->second;
          if (way % 3 == 0) m[k] = op["v"].asInt();
          else if (way % 3 == 1) m.insert_or_assign(std::move(k), op["v"].asInt());
          else { K c(k); m[std::move(c)] = op["v"].asInt(); } }
        else if (o == "find") { auto it = m.find(k); ev["got"] = it == m.end() ? -1 : it->second; }
        else if (o == "erase") ev["n"] = int(m.erase(k));
        ev["size"] = int(m.size()); };
      if (o == "hash") {
        K k = As<K>::make(op["t"], how);
        ev["now"] = As<K>::show(k);
        std::size_t h = nbdl::binder::hash(k);
        if constexpr (is_uid) if (op["std"].asBool()) h = std::hash<Uid>{}(k);
        ev["h"] = std::to_string(h);
      }
      else if constexpr (is_uid) { if (op["std"].asBool()) on(standard); else on(own); }
      else on(own);
    }
    emit(ev);
  }
}
