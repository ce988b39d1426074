// The types of JsonDoc.tla, and their values as descriptions, made without nbdl's binders
#pragma once
#include "common.hpp"
#include <nbdl/entity.hpp>
#include <nbdl/macros/NBDL_ENTITY.hpp>
#include <nbdl/string.hpp>
#include <nbdl/uid.hpp>
#include <nbdl/variant.hpp>
#include <boost/hana.hpp>
#include <array>
#include <bit>
#include <deque>
#include <list>
using namespace vh;
namespace hana = boost::hana;
using namespace hana::literals;

enum Colour { Red = -1, Green = 0, Blue = 2 };
enum Mark : unsigned { NoMark, AllMarks = 0xffffffffu };
enum Byte : unsigned char { NoByte };
enum Wide : std::int64_t { NoWide };
enum SByte : signed char { NoSByte };
struct Empty { };
struct Rec { bool b = false; int i = 0; unsigned u = 0; double d = 0; nbdl::string s; Colour e = Green; };
struct Bare { bool b = false; int i = 0; unsigned u = 0; nbdl::string s; Colour e = Green; };   // without a real number
using BareVar = nbdl::variant<int, nbdl::string, Empty, Bare>;
using Var = nbdl::variant<int, nbdl::string, Empty, Rec>;
using Pair = hana::tuple<int, nbdl::string>;
struct Nest { Rec a; std::list<Pair> l; Var v; std::vector<unsigned char> x; char c = 0; };
struct BareNest { Bare a; std::list<Pair> l; BareVar v; std::vector<unsigned char> x; char c = 0; };
namespace nbdl {
  NBDL_ENTITY(Bare, b, i, u, s, e);
  NBDL_ENTITY(BareNest, a, l, v, x, c);
  NBDL_ENTITY(Rec, b, i, u, d, s, e);
  NBDL_ENTITY(Nest, a, l, v, x, c);
}

// values <-> their description, without nbdl's binders
template <typename T> struct As;
static J node(char const* k) { J v = obj(); v["k"] = k; v["s"] = ""; v["b"] = arr(); v["c"] = arr(); return v; }
static J leaf(char const* k, std::string s) { J v = node(k); v["s"] = s; return v; }
template <typename T> J show(T const& x) { return As<T>::show(x); }
template <typename T> void fill(T& x, J const& v) { As<T>::fill(x, v); }
template <typename B> J octets(char const* k, B const& b) { J v = node(k); for (auto x : b) v["b"].append(int(static_cast<unsigned char>(x))); return v; }

template <> struct As<bool> { static J show(bool x) { return leaf("bool", x ? "true" : "false"); } static void fill(bool& x, J const& v) { x = v["s"] == "true"; } };
template <> struct As<int> { static J show(int x) { return leaf("int", std::to_string(x)); } static void fill(int& x, J const& v) { x = std::stoi(v["s"].asString()); } };
template <> struct As<char> { static J show(char x) { return leaf("char", std::to_string(int(x))); } static void fill(char& x, J const& v) { x = std::stoi(v["s"].asString()); } };
template <> struct As<unsigned> { static J show(unsigned x) { return leaf("uint", std::to_string(x)); } static void fill(unsigned& x, J const& v) { x = std::stoul(v["s"].asString()); } };
template <> struct As<Colour> { static J show(Colour x) { return leaf("enum", std::to_string(int(x))); } static void fill(Colour& x, J const& v) { x = Colour(std::stoi(v["s"].asString())); } };
template <typename T> struct AsNum {
  static J number(char const* k, T x) { return leaf(k, std::to_string((long long)x)); }
  static void fill(T& x, J const& v) { x = T(std::stoll(v["s"].asString())); }
};
template <> struct As<Mark> : AsNum<Mark> { static J show(Mark x) { return number("mark", x); } };
template <> struct As<Wide> : AsNum<Wide> { static J show(Wide x) { return number("wide", x); } };
template <> struct As<Byte> : AsNum<Byte> { static J show(Byte x) { return number("byte", x); } };
template <> struct As<SByte> : AsNum<SByte> { static J show(SByte x) { return number("sbyte", x); } };
template <> struct As<double> {   // as its 64 bits
  static J show(double x) { return leaf("double", std::to_string(std::bit_cast<uint64_t>(x))); }
  static void fill(double& x, J const& v) { x = std::bit_cast<double>(uint64_t(std::stoull(v["s"].asString()))); }
};
template <> struct As<nbdl::string> {
  static J show(nbdl::string const& x) { return octets("string", x); }
  static void fill(nbdl::string& x, J const& v) { x.clear(); for (auto const& c : v["b"]) x.push_back(char(c.asInt())); }
};
template <> struct As<std::vector<unsigned char>> {
  static J show(std::vector<unsigned char> const& x) { return octets("bytes", x); }
  static void fill(std::vector<unsigned char>& x, J const& v) { x.clear(); for (auto const& c : v["b"]) x.push_back(c.asInt()); }
};
template <size_t N> struct As<std::array<unsigned char, N>> {
  static J show(std::array<unsigned char, N> const& x) { return octets("buffer", x); }
  static void fill(std::array<unsigned char, N>& x, J const& v) { for (int i = 0; i < int(N); i++) x[i] = v["b"][i].asInt(); }
};
template <> struct As<nbdl::uid> {
  static J show(nbdl::uid const& x) { return octets("buffer", x); }
  static void fill(nbdl::uid& x, J const& v) { for (int i = 0; i < 16; i++) x[i] = v["b"][i].asInt(); }
};
template <typename L> struct AsList {
  static J show(L const& x) { J v = node("list"); for (auto const& e : x) v["c"].append(::show(e)); return v; }
  static void fill(L& x, J const& v) { x.clear(); for (auto const& e : v["c"]) { typename L::value_type t{}; ::fill(t, e); x.push_back(std::move(t)); } }
};
template <typename T> struct As<std::vector<T>> : AsList<std::vector<T>> { };
template <typename T> struct As<std::list<T>> : AsList<std::list<T>> { };
template <typename T> struct As<std::deque<T>> : AsList<std::deque<T>> { };
template <typename... T> struct As<hana::tuple<T...>> {
  static J show(hana::tuple<T...> const& x) { J v = node("seq"); hana::for_each(x, [&](auto const& e) { v["c"].append(::show(e)); }); return v; }
  static void fill(hana::tuple<T...>& x, J const& v) { int i = 0; hana::for_each(x, [&](auto& e) { ::fill(e, v["c"][i++]); }); }
};
#define NOTHING(T) template <> struct As<T> { static J show(T const&) { return node("empty"); } static void fill(T&, J const&) { } };
NOTHING(Empty) NOTHING(nbdl::unresolved) NOTHING(nbdl::nothing)
template <typename... T> struct As<nbdl::detail::variant<T...>> {
  using V = nbdl::detail::variant<T...>;
  static J show(V const& x) {
    J v = node("variant"); v["s"] = std::to_string(x.value_.index());
    std::visit([&](auto const& e) { v["c"].append(::show(e)); }, x.value_);
    return v;
  }
  static void fill(V& x, J const& v) {
    int i = 0, n = std::stoi(v["s"].asString());
    ([&] { if (i++ == n) { T t{}; ::fill(t, v["c"][0]); x = V(std::move(t)); } }(), ...);
  }
};
template <typename T> struct AsMap {
  static J show(T const& x) { J v = node("map"); As<T>::each(x, [&](auto& m) { v["c"].append(::show(m)); }); return v; }
  static void fill(T& x, J const& v) { int i = 0; As<T>::each(x, [&](auto& m) { ::fill(m, v["c"][i++]); }); }
};
template <> struct As<Rec> : AsMap<Rec> {
  template <typename R, typename F> static void each(R& r, F f) { f(r.b); f(r.i); f(r.u); f(r.d); f(r.s); f(r.e); }
};
template <> struct As<Nest> : AsMap<Nest> {
  template <typename R, typename F> static void each(R& r, F f) { f(r.a); f(r.l); f(r.v); f(r.x); f(r.c); }
};
template <> struct As<Bare> : AsMap<Bare> {
  template <typename R, typename F> static void each(R& r, F f) { f(r.b); f(r.i); f(r.u); f(r.s); f(r.e); }
};
template <> struct As<BareNest> : AsMap<BareNest> {
  template <typename R, typename F> static void each(R& r, F f) { f(r.a); f(r.l); f(r.v); f(r.x); f(r.c); }
};
static auto dict() { return hana::make_map(hana::make_pair("k1"_s, int{}), hana::make_pair("k2"_s, Pair{})); }
using Dict = decltype(dict());
template <> struct As<Dict> {
  static J show(Dict const& x) { J v = node("map"); v["c"].append(::show(x["k1"_s])); v["c"].append(::show(x["k2"_s])); return v; }
  static void fill(Dict& x, J const& v) { ::fill(x["k1"_s], v["c"][0]); ::fill(x["k2"_s], v["c"][1]); }
};

// f.template operator()<T>() for the type of that name
template <bool real, typename F> void by_name(std::string const& t, F f) {
  if constexpr (real) {
    if (t == "uid") f.template operator()<nbdl::uid>();
    if (t == "wides") f.template operator()<std::vector<Wide>>();
    if (t == "four") f.template operator()<std::array<unsigned char, 4>>();
    if (t == "rec") f.template operator()<Rec>();
    if (t == "recs") f.template operator()<std::vector<Rec>>();
    if (t == "var") f.template operator()<Var>();
    if (t == "vars") f.template operator()<std::deque<Var>>();
    if (t == "nest") f.template operator()<Nest>();
    if (t == "mixed") f.template operator()<hana::tuple<Var, std::vector<int>, hana::tuple<bool, Empty, double>>>();
    if (t == "opt") f.template operator()<nbdl::optional<Rec>>();
    if (t == "opts") f.template operator()<hana::tuple<nbdl::optional<Rec>, nbdl::optional<Rec>>>();
  }
  if (t == "pair") f.template operator()<Pair>();
  if (t == "marks") f.template operator()<hana::tuple<Mark, Byte, SByte>>();
  if (t == "unary") f.template operator()<hana::tuple<int>>();
  if (t == "blobs") f.template operator()<std::vector<std::vector<unsigned char>>>();
  if (t == "words") f.template operator()<std::vector<std::list<nbdl::string>>>();
  if (t == "dict") f.template operator()<Dict>();
  if (t == "wrap") f.template operator()<hana::tuple<std::vector<int>>>();
  if (t == "none") f.template operator()<hana::tuple<>>();
  if (t == "gap") f.template operator()<hana::tuple<Empty, nbdl::string, Empty>>();
  if (t == "deep") f.template operator()<nbdl::variant<nbdl::variant<int, std::vector<int>>, Pair>>();
  if (t == "barerec") f.template operator()<Bare>();
  if (t == "barerecs") f.template operator()<std::vector<Bare>>();
  if (t == "barevar") f.template operator()<BareVar>();
  if (t == "barevars") f.template operator()<std::deque<BareVar>>();
  if (t == "barenest") f.template operator()<BareNest>();
  if (t == "baremixed") f.template operator()<hana::tuple<BareVar, std::vector<int>, hana::tuple<bool, Empty, unsigned>>>();
  if (t == "bareopt") f.template operator()<nbdl::optional<Bare>>();
  if (t == "bareopts") f.template operator()<hana::tuple<nbdl::optional<Bare>, nbdl::optional<Bare>>>();
}
