// Entities written to and read from a database that only notes what it is asked
#pragma once
#include "common.hpp"
#include <nbdl/entity.hpp>
#include <nbdl/string.hpp>
#include <boost/hana.hpp>
#include <nbdl/sql_db/insert.hpp>
#include <nbdl/sql_db/select.hpp>
#include <nbdl/sql_db/update.hpp>
#include <nbdl/sql_db/statement/insert.hpp>
#include <nbdl/sql_db/statement/select.hpp>
#include <nbdl/sql_db/statement/update.hpp>
#include <boost/mp11.hpp>
#include <array>
#include <deque>
#include <list>
#include <memory>
#include <vector>
using namespace vh;
namespace hana = boost::hana;
namespace sq = nbdl::sql_db;
namespace mp = boost::mp11;
using namespace hana::literals;

using Int = int;
using Str = std::string;
using NStr = nbdl::string;

template <typename S> std::string name(S const& s) { return std::string(s.c_str(), hana::length(s)); }
inline J text(Int x) { return "i:" + std::to_string(x); }
inline J text(Str const& x) { return "s:" + x; }
template <typename T> J text(nbdl::key_impl<T> const& k) { return "key:" + name(sq::table_name<T>{}) + ":" + std::to_string(k.value); }

inline J next_ids;
inline int at_id, fail_at, turns;
struct broken { };
inline std::map<std::string, std::vector<int>> there;
// the key of a row that is there, or of none
template <typename T> sq::primary_key<T> some(J const& op, char const* which = "pick") {
  auto const& ids = there[name(sq::table_name<T>{})];
  int k = op[which].asInt();
  return sq::primary_key<T>(k < 0 || ids.empty() ? 1 : ids[k % ids.size()]);
}

template <typename P> J pairs(P const& ps) {
  J a = arr();
  hana::for_each(ps, [&](auto const& p) { J j = arr(); j.append(name(hana::first(p))); j.append(text(hana::second(p))); a.append(j); });
  return a;
}
template <typename V> J values(V const& vs) { J a = arr(); hana::for_each(vs, [&](auto const& v) { a.append(text(v)); }); return a; }

inline unsigned answer(J ev) {
  if (at_id == fail_at) { ev["ev"] = "refused"; emit(ev); throw broken{}; }
  int id = next_ids[at_id++].asInt();
  there[ev["table"].asString()].push_back(id);
  ev["id"] = id;
  emit(ev);
  return id;
}
struct db_insert {
  template <typename T, typename P> unsigned operator()(T table, P&& params) const {
    J e = ev("row");
    e["table"] = name(table); e["cols"] = pairs(params); e["sql"] = ""; e["bound"] = arr();
    if constexpr (decltype(hana::length(params))::value) {
      auto r = sq::statement::insert(table, hana::unpack(params, hana::make_map));
      e["sql"] = name(hana::first(r)); e["bound"] = values(hana::second(r));
    }
    return answer(e);
  }
};
struct db_update {
  template <typename T, typename P, typename K> void operator()(T table, P&& params, K&& keys) const {
    J e = ev("changed");
    e["table"] = name(table); e["cols"] = pairs(params); e["keys"] = pairs(keys);
    auto r = sq::statement::update(table, hana::unpack(params, hana::make_basic_tuple), hana::unpack(keys, hana::make_basic_tuple));
    e["sql"] = name(hana::first(r)); e["bound"] = values(hana::second(r));
    emit(e);
  }
};
struct db_select {
  template <typename T, typename C, typename S, typename K> int operator()(T table, C columns, S joins, K&& keys) const {
    J e = ev("asked");
    auto r = sq::statement::select(table, columns, joins, hana::unpack(keys, hana::make_map));
    e["sql"] = name(hana::first(r)); e["bound"] = values(hana::second(r));
    emit(e);
    return 7;
  }
};

template <typename T> struct As;
template <> struct As<Int> { static Int make(J const& j) { return std::stoi(j.asString().substr(2)); } };
template <> struct As<Str> { static Str make(J const& j) { return j.asString().substr(2); } };
template <> struct As<NStr> { static NStr make(J const& j) { return j.asString().substr(2); } };
template <typename C> struct AsList {
  static C make(J const& j) { C r; for (auto const& x : j) r.push_back(As<typename C::value_type>::make(x)); return r; } };
template <typename T> struct As<std::vector<T>> : AsList<std::vector<T>> { };
template <typename T> struct As<std::list<T>> : AsList<std::list<T>> { };
template <typename T> struct As<std::deque<T>> : AsList<std::deque<T>> { };

template <typename F> void attempt(J const& op, F f) {
  next_ids = op["ids"]; at_id = 0; fail_at = op["fail"].asInt();
  J begin = ev("begin"); begin["nodes"] = op["nodes"]; begin["keys"] = op["keys"];
  emit(begin);
  J end = ev("end");
  try { end["id"] = f(); } catch (broken const&) { end = ev("gave up"); }
  emit(end);
}
inline J no_id() { return ""; }
// one entity, by value or not, and with or without further keys
template <typename T> void insert_one(J const& op) {
  T x = As<T>::make(op["nodes"][0u]);
  auto keys = [&] { return hana::make_tuple(hana::make_pair("owner"_s, Str(op["keys"][0u][1].asString().substr(2))), hana::make_pair("at"_s, As<Int>::make(op["keys"][1u][1]))); };
  attempt(op, [&]() -> J {
    int way = ++turns % 3;
    if (op["keys"].empty()) {
      if (way == 0) return text(sq::insert(db_insert{}, std::move(x)));
      if (way == 1) return text(sq::insert(db_insert{}, std::as_const(x)));
      return text(sq::insert(db_insert{}, x));
    }
    auto ks = keys();
    if (way == 0) return text(sq::insert(db_insert{}, std::move(x), std::move(ks)));
    return text(sq::insert(db_insert{}, x, ks));
  });
}
template <typename T> void insert_many(J const& op) {
  auto fill = [&](auto xs) {
    for (auto const& n : op["nodes"]) xs.push_back(As<T>::make(n));
    auto ks = hana::make_tuple(hana::make_pair("owner"_s, Str(op["keys"][0u][1].asString().substr(2))), hana::make_pair("at"_s, As<Int>::make(op["keys"][1u][1])));
    attempt(op, [&]() -> J {
      if (++turns % 2) sq::insert(db_insert{}, xs, ks);
      else sq::insert(db_insert{}, std::move(xs), std::move(ks));
      return no_id();
    });
  };
  if (turns % 3) fill(std::vector<T>()); else fill(std::list<T>());
}
template <typename T> void update_one(J const& op) {
  T x = As<T>::make(op["node"]);
  auto id = hana::make_pair(sq::table_key_name<T>{}, some<T>(op));
  auto owner = hana::make_pair("owner"_s, op["owner"].asString().substr(2));
  auto run = [&](auto keys) {
    J e = ev("change"); e["node"] = op["node"]; e["keys"] = pairs(keys);
    emit(e);
    if (++turns % 2) sq::update(db_update{}, x, keys); else sq::update(db_update{}, std::move(x), std::move(keys)); };
  switch (op["with"].asInt()) {
    case 0: return run(hana::make_tuple(id));
    case 1: return run(hana::make_tuple(id, owner));
    default: return run(hana::make_tuple(owner, id));
  }
}
template <typename T, typename M, typename ...Ms> struct nested { using type = sq::select_nested_key_name<T, M, Ms...>; };
// by its own key, or by that of an entity inside
template <typename T, typename N, typename ...Member> void select_one(J const& op) {
  auto id = some<N>(op);
  auto own = some<T>(op, "pick2");
  bool both = sizeof...(Member) && op["both"].asBool();
  J e = ev("ask"); e["shape"] = op["shape"]; e["way"] = op["way"]; e["key"] = text(id); e["own"] = both ? text(own) : J("");
  emit(e);
  if constexpr (sizeof...(Member) == 0) sq::select<T>(db_select{}, hana::make_basic_tuple(hana::make_pair(sq::select_primary_key_name<T>{}, id)));
  else {
    auto there = hana::make_pair(typename nested<T, Member...>::type{}, id);
    auto here = hana::make_pair(sq::select_primary_key_name<T>{}, own);
    if (!both) sq::select<T>(db_select{}, hana::make_basic_tuple(there));
    else if (++turns % 2) sq::select<T>(db_select{}, hana::make_basic_tuple(there, here));
    else sq::select<T>(db_select{}, hana::make_basic_tuple(here, there));
  }
}
template <typename T, T p> using member = nbdl::member<typename nbdl::member_traits<T>::owner_type, typename nbdl::member_traits<T>::member_type, p>;

template <typename G> void tables(J const& ops) {
  for (auto const& op : ops) {
    std::string const o = op["ev"].asString();
    if (o == "reset") { there.clear(); emit(op); }
    else if (!G::run(o, op["n"].asInt(), op)) ::_exit(13);
  }
}
