// Stores of many shapes, built from and shown as terms
//   [kind, text, [[key, term], ...]]  (as an object: k, s, c)
#pragma once
#include "common.hpp"
#include <nbdl/apply_action.hpp>
#include <nbdl/context_store.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/ext/std/unordered_map.hpp>
#include <nbdl/get.hpp>
#include <nbdl/get_path.hpp>
#include <nbdl/match.hpp>
#include <nbdl/match_path.hpp>
#include <nbdl/store_compose.hpp>
#include <nbdl/store_range.hpp>
#include <nbdl/strong_alias.hpp>
#include <nbdl/variant.hpp>
#include <boost/hana.hpp>
#include <memory>
#include <unordered_map>
using namespace vh;
namespace hana = boost::hana;
using namespace hana::literals;

using Int = int;
using Str = std::string;
template <typename T> using Map = std::unordered_map<std::string, T>;
template <typename T> using NMap = std::unordered_map<int, T>;
template <typename T> using Opt = nbdl::optional<T>;
template <typename T> using Unr = nbdl::variant<T>;
template <typename T> using Var = nbdl::variant<Str, T>;
template <typename T> using Ref = std::reference_wrapper<T>;
template <typename T> struct Alias : nbdl::strong_alias<T> { using nbdl::strong_alias<T>::strong_alias; };
template <typename T, typename U> using Rec = hana::map<hana::pair<decltype("a"_s), T>, hana::pair<decltype("b"_s), U>>;
template <typename T, typename U> using Pair = hana::pair<T, U>;
struct Pt { Str a; Int b; };
using Trio = hana::tuple<Int, Str, Pt>;
struct Box { Opt<Pt> p; Map<Int> m; Str s; };
template <int i> struct own { };
template <int i, typename V, typename S> using Comp = decltype(nbdl::store_compose(own<i>{}, std::declval<V>(), std::declval<S>()));
namespace nbdl { NBDL_ENTITY(Pt, a, b); NBDL_ENTITY(Box, p, m, s); }

inline J node(char const* k, std::string const& s = "") { J j = obj(); j["k"] = k; j["s"] = s; j["c"] = arr(); return j; }
inline void child(J& n, std::string const& key, J c) { J p = arr(); p.append(key); p.append(std::move(c)); n["c"].append(std::move(p)); }
inline J const& at(J const& t, int i) { return t["c"][i][1]; }

template <typename T> struct As;
template <> struct As<Int> {
  static Int make(J const& t) { return std::stoi(t["s"].asString()); }
  static J show(Int const& x) { return node("int", std::to_string(x)); } };
template <> struct As<Str> {
  static Str make(J const& t) { return t["s"].asString(); }
  static J show(Str const& x) { return node("str", x); } };
#define SPECIAL(T, N) template <> struct As<T> { static T make(J const&) { return {}; } static J show(T) { return node("none", N); } };
SPECIAL(nbdl::nothing, "nothing") SPECIAL(nbdl::unresolved, "unresolved") SPECIAL(nbdl::not_in_set, "not_in_set")
template <> struct As<Pt> {
  static Pt make(J const& t) { return Pt{As<Str>::make(at(t, 0)), As<Int>::make(at(t, 1))}; }
  static J show(Pt const& x) { J n = node("rec", "pt"); child(n, "a", As<Str>::show(x.a)); child(n, "b", As<Int>::show(x.b)); return n; } };
template <typename T> struct AsMap {
  template <typename K> static std::string text(K const& k) { if constexpr (std::is_same_v<K, int>) return std::to_string(k); else return k; }
  static T make(J const& t) { T r;
    for (auto const& c : t["c"]) {
      if constexpr (std::is_same_v<typename T::key_type, int>) r.emplace(std::stoi(c[0].asString()), As<typename T::mapped_type>::make(c[1]));
      else r.emplace(c[0].asString(), As<typename T::mapped_type>::make(c[1]));
    }
    return r; }
  static J show(T const& x) { J n = node("map"); std::map<std::string, J> o;
    for (auto const& [k, v] : x) o.emplace(text(k), As<typename T::mapped_type>::show(v));
    for (auto& [k, v] : o) child(n, k, v);
    return n; } };
template <typename T> struct As<Map<T>> : AsMap<Map<T>> { };
template <typename T> struct As<NMap<T>> : AsMap<NMap<T>> { };
template <typename R> requires (bool(hana::is_a<hana::map_tag, R>)) struct As<R> {
  using T = std::decay_t<decltype(std::declval<R>()["a"_s])>; using U = std::decay_t<decltype(std::declval<R>()["b"_s])>;
  static R make(J const& t) { return hana::make_map(hana::make_pair("a"_s, As<T>::make(at(t, 0))), hana::make_pair("b"_s, As<U>::make(at(t, 1)))); }
  static J show(R const& x) { J n = node("rec"); child(n, "a", As<T>::show(x["a"_s])); child(n, "b", As<U>::show(x["b"_s])); return n; } };
template <typename T, typename U> struct As<Pair<T, U>> {
  static Pair<T, U> make(J const& t) { return hana::make_pair(As<T>::make(at(t, 0)), As<U>::make(at(t, 1))); }
  static J show(Pair<T, U> const& x) { J n = node("rec"); child(n, "first", As<T>::show(hana::first(x))); child(n, "second", As<U>::show(hana::second(x))); return n; } };
template <> struct As<Trio> {
  static Trio make(J const& t) { return Trio(As<Int>::make(at(t, 0)), As<Str>::make(at(t, 1)), As<Pt>::make(at(t, 2))); }
  static J show(Trio const& x) { J n = node("rec"); child(n, "int", As<Int>::show(hana::at_c<0>(x))); child(n, "str", As<Str>::show(hana::at_c<1>(x)));
    child(n, "pt", As<Pt>::show(hana::at_c<2>(x))); return n; } };
template <typename D, typename ...T> struct As<nbdl::detail::variant<D, T...>> {
  using V = nbdl::detail::variant<D, T...>;
  static V make(J const& t) { V r; int want = std::stoi(t["s"].asString()), i = 0;
    ([&] { if (want == ++i) r.value_.template emplace<T>(As<T>::make(at(t, 0))); }(), ...);
    return r; }
  static J show(V const& x) { J n = node("var", std::to_string(x.value_.index()));
    std::visit([&](auto const& e) { child(n, "", As<std::decay_t<decltype(e)>>::show(e)); }, x.value_); return n; } };
inline std::vector<std::shared_ptr<void>> kept;      // what references refer to
template <typename T> struct As<Ref<T>> {
  static Ref<T> make(J const& t) { auto p = std::make_shared<T>(As<T>::make(at(t, 0))); kept.push_back(p); return std::ref(*p); }
  static J show(Ref<T> const& x) { J n = node("ref"); child(n, "", As<T>::show(x.get())); return n; } };
template <typename T> struct As<Alias<T>> {
  static Alias<T> make(J const& t) { return Alias<T>(As<T>::make(at(t, 0))); }
  static J show(Alias<T> const& x) { J n = node("alias"); child(n, "", As<T>::show(x.nbdl_get_strong_alias_value())); return n; } };
template <int i, typename S, typename V> struct As<nbdl::detail::store_composite_t<own<i>, S, V>> {
  using C = nbdl::detail::store_composite_t<own<i>, S, V>;
  static C make(J const& t) { auto v = As<V>::make(at(t, 0)); return nbdl::store_compose(own<i>{}, v, As<S>::make(at(t, 1))); }
  static J show(C const& x) { J n = node("comp", "own" + std::to_string(i)); child(n, "own" + std::to_string(i), As<V>::show(x.right)); child(n, "", As<S>::show(x.left)); return n; } };
template <> struct As<Box> {
  static Box make(J const& t) { return Box{As<Opt<Pt>>::make(at(t, 0)), As<Map<Int>>::make(at(t, 1)), As<Str>::make(at(t, 2))}; }
  static J show(Box const& x) { J n = node("rec", "box"); child(n, "p", As<Opt<Pt>>::show(x.p)); child(n, "m", As<Map<Int>>::show(x.m)); child(n, "s", As<Str>::show(x.s)); return n; } };
template <typename T> struct As<nbdl::context_store_t<T>> {
  using C = nbdl::context_store_t<T>;
  static C make(J const& t) { C c; c.store = As<T>::make(at(t, 0)); return c; }
  static J show(C const& x) { J n = node("ctx"); child(n, "", As<T>::show(x.store)); return n; } };

// what a function was called with: an alias or a reference is shown as what it stands for
template <typename T> J seen(T const& x) { return As<T>::show(x); }
template <typename T> J seen(Ref<T> const& x) { return seen(x.get()); }
template <typename T> J seen(Alias<T> const& x) { return seen(x.nbdl_get_strong_alias_value()); }

inline int turn = 0;
template <bool plain, typename S, typename P, typename F> void go(S& s, P const& p, F f) {
  constexpr int n = decltype(hana::length(p))::value;
  switch (++turn % 4) {
    case 0: nbdl::match_path(std::as_const(s), p, f); break;
    case 1:
      if constexpr (n == 0) { nbdl::match(s, f); break; }
      else if constexpr (n == 1 && nbdl::Store<S>) { nbdl::match(s, hana::front(p), [&](auto&& x) { nbdl::match(static_cast<decltype(x)>(x), f); }); break; }
      else if constexpr (plain) { f(nbdl::get_path(s, p)); break; }
      [[fallthrough]];
    case 2: nbdl::match_path(s, p, [&](Str& x) { f(x); }, [&](Str const& x) { f(x); }, f); break;
    default: nbdl::match_path(s, p, f);
  }
}
struct put {      // changes a number or a string in place
  J const& v; bool& hit;
  template <typename T> void operator()(T&& x) const {
    using D = std::decay_t<T>;
    if constexpr (requires { x.nbdl_get_strong_alias_value(); }) (*this)(x.nbdl_get_strong_alias_value());
    else if constexpr (requires { typename D::type; x.get(); }) (*this)(x.get());
    else if constexpr ((std::is_same_v<D, Int> || std::is_same_v<D, Str>) && std::is_assignable_v<T&&, D>)
      if (v["k"].asString() == As<D>::show(D{})["k"].asString()) { x = As<D>::make(v); hit = true; }
  }
};

// a key of a path at run time
inline Str skey(J const& op, int i) { return op["p"][i].asString(); }
inline int nkey(J const& op, int i) { return std::stoi(op["p"][i].asString()); }

// an episode over a store of type S and elements of type E; G is generated for the pair
template <typename S, typename E, typename G> void episode(J const& ops) {
  J const& r = ops[0u];
  S s = As<S>::make(r["t"]);
  std::vector<E> es;
  for (auto const& e : r["es"]) es.push_back(As<E>::make(e));
  auto elems = [&] { J a = arr(); for (auto const& e : es) a.append(As<E>::show(e)); return a; };
  for (auto const& op : ops) {
    J ev = op; ev.removeMember("n");
    std::string const o = op["ev"].asString();
    int const n = op["n"].asInt();
    if (o == "look") { J got = arr(); G::at(s, n, op, [&](auto plain, auto p) { go<decltype(plain)::value>(s, p, [&](auto&& x) { got.append(seen(x)); }); }); ev["got"] = got; }
    else if (o == "put") { bool hit = false; G::at(s, n, op, [&](auto, auto p) { nbdl::match_path(s, p, put{op["v"], hit}); }); ev["hit"] = hit; }
    else if (o == "act") G::act(s, n, op);
    else if (o == "walk") {
      J got = arr();
      auto each = [&](auto&& range) { for (auto& it : range) G::at_it(it, n, op, [&](auto p) { nbdl::match_path(it, p, [&](auto&& x) { got.append(seen(x)); }); }); };
      each(nbdl::store_range(own<9>{}, es, std::ref(s)));
      ev["got"] = got;
    }
    else if (o == "actat") {
      auto range = nbdl::store_range(own<9>{}, es, std::ref(s));
      int i = 0;
      for (auto& it : range) if (++i == op["i"].asInt()) G::el(it, op);
    }
    else if (o == "actbase") {
      auto range = nbdl::store_range(own<9>{}, es, std::ref(s));
      int i = 0;
      for (auto& it : range) if (++i == op["i"].asInt()) G::base(it, op);
    }
    if (o != "look" && o != "walk") { ev["now"] = As<S>::show(s); ev["elems"] = elems(); }
    emit(ev);
  }
}
