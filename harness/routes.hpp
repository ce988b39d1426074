// Route maps: from_string, to_string, to_variant, set_route
#pragma once
#include "common.hpp"
#include <boost/hana.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/message.hpp>
#include <nbdl/webui/route_map.hpp>
#include <nbdl/webui/set_route.hpp>
using namespace vh;
namespace hana = boost::hana;
using namespace hana::literals;
using Str = nbdl::string;
using ldouble = long double;

inline J codes(std::string_view s) { J a = arr(); for (unsigned char c : s) a.append(int(c)); return a; }
inline std::string text(J const& a) { std::string s; for (auto const& x : a) s.push_back(char(x.asInt())); return s; }
template <typename T> J held(T const& x) {
  if constexpr (std::is_integral<T>::value) return codes(std::to_string(x)); else return codes(std::string_view(x.data(), x.size()));
}
template <typename T> void put(T& x, J const& j) {
  if constexpr (std::is_integral<T>::value) x = T(std::stoull(text(j))); else x = text(j);
}
template <typename T> struct place;   // index, from 1
template <typename T> J taken(T const& x) {
  J r = obj(); r["vs"] = arr();
  if constexpr (std::is_same<T, nbdl::webui::route_not_found>::value) r["r"] = 0;
  else {
    r["r"] = place<T>::value;
    if constexpr (!hana::is_a<hana::string_tag, T>) nbdl::bind_sequence(x, [&](auto const& ...m) { (r["vs"].append(held(m)), ...); });
  }
  return r;
}
template <typename V> J shown(V const& v) {
  J r; int n = 0;
  nbdl::match(v, [&](auto const& x) { r = taken(x); ++n; });
  if (n != 1) r = n;
  return r;
}
template <typename Map, typename T, typename Name> void write(Map const& map, Name name, J const& x) {
  T t{};
  if constexpr (!hana::is_a<hana::string_tag, T>) nbdl::bind_sequence(t, [&](auto& ...m) { int i = 0; (put(m, x["vs"][i++]), ...); });
  J e = ev("write"); e["x"] = x;
  Str s = map.to_string(t);
  e["s"] = codes(s);
  e["back"] = shown(map.from_string(s));
  e["variant"] = shown(map.to_variant(t));
  J sent = arr();
  auto set = nbdl::webui::make_set_route(map)(name);
  auto send = [&](auto const& m) {
    namespace message = nbdl::message;
    static_assert(message::is_update<decltype(m)> && message::is_upstream<decltype(m)>);
    sent.append(shown(message::get_payload(m))); };
  if (x["vs"].empty()) set(send); else set(send, t);
  e["sent"] = sent;
  emit(e);
}
