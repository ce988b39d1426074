// Descriptions over stores: paths, parameters and branches
#pragma once
#include "stores.hpp"
#include <nbdl/catch.hpp>
#include <nbdl/path_promise.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/run_sync.hpp>
#include <nbdl/tap.hpp>
#include <nbdl/ui_helper.hpp>
#include <nbdl/ui_helper/match_branch.hpp>
#include <nbdl/ui_helper/match_params_spec.hpp>
#include <nbdl/ui_helper/match_path_spec.hpp>
#include <nbdl/ui_spec.hpp>
namespace us = nbdl::ui_spec;
namespace uh = nbdl::ui_helper;

template <char ...c> J seen(hana::string<c...> const& x) { return node("lit", x.c_str()); }
template <typename T, T v> J seen(std::integral_constant<T, v> const&) { return node("lit", std::to_string(v)); }
template <typename T, T v> J seen(hana::integral_constant<T, v> const&) { return node("lit", std::to_string(v)); }

template <typename T> Str text(T const& x) {
  J t = seen(x);
  auto k = t["k"].asString();
  return k == "int" || k == "str" || k == "lit" || k == "none" ? t["s"].asString() : "?";
}
struct f_cat { template <typename ...X> Str operator()(X const& ...x) const { Str r; ((r += text(x) + ","), ...); return r; } };
struct f_count { template <typename ...X> Int operator()(X const& ...) const { return sizeof...(X); } };
struct f_last { template <typename ...X> Str operator()(X const& ...x) const { Str r; ((r = text(x)), ...); return r; } };
struct f_key { template <typename X> Str operator()(X const& x) const { return text(x); } };
struct f_num { template <typename X> Int operator()(X const& x) const { return std::stoi(text(x)); } };

template <typename X, typename T> constexpr bool is = std::is_same_v<std::decay_t<X>, T>;
template <typename X> constexpr bool is_none = is<X, nbdl::nothing> || is<X, nbdl::unresolved> || is<X, nbdl::not_in_set>;
struct p_str { template <typename X> constexpr auto operator()(X const&) const { return hana::bool_c<is<X, Str>>; } };
struct p_int { template <typename X> bool operator()(X const&) const { return is<X, Int>; } };
struct p_none { template <typename X> constexpr std::bool_constant<is_none<X>> operator()(X const&) const { return {}; } };
struct p_zero { template <typename X> bool operator()(X const& x) const { if constexpr (is<X, Int>) return x == 0; else return false; } };
struct p_odd { template <typename X> bool operator()(X const& x) const { if constexpr (is<X, Int>) return x == 1 || x == 3 || x == 7 || x == -5; else return false; } };
struct p_blank { template <typename X> auto operator()(X const& x) const { if constexpr (is<X, Str>) return x.empty(); else return hana::false_c; } };
struct p_x { template <typename X> bool operator()(X const& x) const { if constexpr (is<X, Str>) return x == "x"; else return false; } };
struct p_never { template <typename X> constexpr auto operator()(X const&) const { return hana::false_c; } };
struct p_always { template <typename X> constexpr auto operator()(X const&) const { return hana::true_c; } };

inline int branch_turn = 0;
// a store handed over by reference or by value
template <typename S, typename F> void given(S& s, F f) { if (++branch_turn % 3) f(std::ref(s)); else f(s); }

template <typename T> struct named { char const* name; };
template <typename S, typename P, typename ...T> void on_path(S& s, J& ev, P path, named<T> ...types) {
  J got = arr();
  uh::match_path_spec(s, path, [&](auto const& x) { got.append(seen(x)); });
  ev["got"] = got;
  J is = arr();
  ((is.append([&] { J p = arr(); p.append(types.name); bool r = false; uh::match_path_spec(s, path, [&](auto const& x) { r = uh::match_path_spec_predicate<T, us::path_t<>>(x); }); p.append(r); return p; }())), ...);
  ev["is"] = is;
}
template <typename S, typename L> void on_params(S& s, J& ev, L list) {
  J got = arr();
  given(s, [&](auto st) { uh::match_params_spec(st, list, [&](auto const& ...x) { J c = arr(); (c.append(seen(x)), ...); got.append(c); }); });
  ev["got"] = got;
}
template <typename S, typename D> void on_branch(S& s, J& ev, D) {
  J got = arr(), called = arr(), again = arr();
  given(s, [&](auto st) {
    std::size_t i = uh::get_branch_index<D>(st);
    ev["index"] = int(i + 1);
    uh::match_branch<D>(st, [&](auto index, auto spec) {
      called.append(int(decltype(index)::value) + 1);
      uh::match_params_spec(st, mpdef::make_list(spec), [&](auto const& ...x) { J c = arr(); (c.append(seen(x)), ...); got.append(c); });
    });
    uh::match_branch<D>(i, [&](auto index, auto) { again.append(int(decltype(index)::value) + 1); });
  });
  ev["got"] = got; ev["called"] = called; ev["again"] = again;
}
template <typename S, typename P> void on_promise(S& s, J& ev, P path) {
  J got = arr();
  auto note = [&](char const* how) { return [&got, how](auto const& x) { J p = arr(); p.append(how); p.append(seen(x)); got.append(p); }; };
  nbdl::run_sync(nbdl::pipe(nbdl::path_promise(path), nbdl::tap(note("resolved")), nbdl::catch_(note("rejected"))), std::as_const(s));
  ev["got"] = got;
}
template <typename S, typename G> void branches(J const& ops) {
  std::unique_ptr<S> s;
  for (auto const& op : ops) {
    J ev = op; ev.removeMember("n");
    std::string const o = op["ev"].asString();
    if (o == "reset") { kept.clear(); s = std::make_unique<S>(As<S>::make(op["t"])); }
    else if (o == "set") { s = std::make_unique<S>(As<S>::make(op["t"])); }
    else G::run(*s, op["n"].asInt(), ev);
    if (o == "reset" || o == "set") ev["now"] = As<S>::show(*s);
    emit(ev);
  }
}
