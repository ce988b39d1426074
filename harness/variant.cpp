// Registers holding variants of several shapes.
#include "common.hpp"
#include <nbdl/apply_action.hpp>
#include <nbdl/bind_variant.hpp>
#include <nbdl/match.hpp>
#include <nbdl/variant.hpp>
#include <nbdl/variant_holder.hpp>
using namespace vh;
namespace hana = boost::hana;
struct Empty { };
struct Hollow { };
using Ints = std::vector<int>;
using Inner = nbdl::variant<std::string, int, Empty>;
using Outer = nbdl::optional<Inner>;
using Plain = nbdl::variant<int, std::string, Empty, Hollow, Ints>;
using Option = nbdl::optional<std::string>;
using Nested = nbdl::variant<int, Inner, Outer>;
using Holder = nbdl::variant_holder<nbdl::unresolved, int, std::string, Empty, Hollow, Ints>;

template <typename T> struct As;
#define HOLLOW(T, N) template <> struct As<T> { static constexpr char const* name = N; static void show(T const&, J&) { } static T make(J const&, int) { return {}; } };
HOLLOW(Empty, "empty") HOLLOW(Hollow, "hollow") HOLLOW(nbdl::unresolved, "unresolved") HOLLOW(nbdl::nothing, "nothing")
template <> struct As<int> { static constexpr char const* name = "int";
  static void show(int x, J& a) { a.append(std::to_string(x)); } static int make(J const& v, int i) { return std::stoi(v[i].asString()); } };
template <> struct As<std::string> { static constexpr char const* name = "string";
  static void show(std::string const& x, J& a) { a.append(x); } static std::string make(J const& v, int i) { return v[i].asString(); } };
template <> struct As<Ints> { static constexpr char const* name = "ints";
  static void show(Ints const& x, J& a) { std::string s; for (int i : x) s += (s.empty() ? "" : ",") + std::to_string(i); a.append(s); }
  static Ints make(J const& v, int i) { Ints r; std::stringstream s(v[i].asString()); std::string t; while (std::getline(s, t, ',')) r.push_back(std::stoi(t)); return r; } };
template <typename V, typename... T> struct AsVariant {
  static V make(J const& v, int i) {
    V r{};
    ([&] { if (v[i].asString() == As<T>::name) r = V(As<T>::make(v, i + 1)); }(), ...);
    return r;
  }
  static void show(V const& x, J& a) {
    std::visit([&](auto const& e) { a.append(As<std::decay_t<decltype(e)>>::name); As<std::decay_t<decltype(e)>>::show(e, a); }, x.value_);
  }
  // f(T) for every alternative
  template <typename F> static void types(F f) { (f(hana::type_c<T>), ...); }
};
template <> struct As<Inner> : AsVariant<Inner, nbdl::unresolved, std::string, int, Empty> { static constexpr char const* name = "inner"; };
template <> struct As<Outer> : AsVariant<Outer, nbdl::nothing, Inner> { static constexpr char const* name = "outer"; };
template <> struct As<Plain> : AsVariant<Plain, nbdl::unresolved, int, std::string, Empty, Hollow, Ints> { };
template <> struct As<Option> : AsVariant<Option, nbdl::nothing, std::string> { };
template <> struct As<Nested> : AsVariant<Nested, nbdl::unresolved, int, Inner, Outer> { };

template <typename T> J shown(T const& x) { J a = arr(); a.append(As<T>::name); As<T>::show(x, a); return a; }
using nbdl::match;

struct Thrown { };
// what is being looked at: a variant itself, or the one in a holder
template <typename V> V& var(V& v) { return v; }
static auto& var(Holder& v) { return v.value; }

template <typename X> J looks(X& x, bool odd) {
  auto& v = var(x);
  using V = std::decay_t<decltype(v)>;
  V const& cv = v;
  J o = obj();
  o["id"] = cv.get_type_id();
  o["is"] = arr(); o["calls"] = arr(); o["when"] = arr(); o["bound"] = arr();
  As<V>::types([&](auto t) { using T = typename decltype(t)::type; if (cv.template is<T>()) o["is"].append(As<T>::name); });
  auto all = hana::overload_linearly(
      [&](int const& i) { o["calls"].append(shown(i)); }
    , [&](std::string const& i) { o["calls"].append(shown(i)); }
    , [&](Ints const& i) { o["calls"].append(shown(i)); }
    , [&](Empty i) { o["calls"].append(shown(i)); }
    , [&](nbdl::nothing i) { o["calls"].append(shown(i)); }
    , [&](auto const& i) { o["calls"].append(shown(i)); });
  if (odd) match(cv, all); else match(v, all);
  auto when = [&](auto t) {
    using T = typename decltype(t)::type;
    auto f = [&](T const& i) { o["when"].append(shown(i)); };
    if (odd) nbdl::match_when<T>(cv, f); else match(v, nbdl::match_when<T>(f));
  };
  hana::for_each(hana::tuple_t<int, std::string, Ints, Empty, Hollow, nbdl::unresolved, nbdl::nothing, float>,
    [&](auto t) { if constexpr (!std::is_same_v<typename decltype(t)::type, float>) when(t); else nbdl::match_when<float>(cv, [&](float) { o["when"].append("float"); }); });
  auto bound = hana::overload(
      [&](int id) { J a = arr(); a.append(std::to_string(id)); o["bound"].append(a); }
    , [&](int id, auto const& value) { J a = arr(); a.append(std::to_string(id)); o["bound"].append(a); o["bound"].append(shown(value)); });
  X const& cx = x;
  nbdl::bind_variant(cx, bound);
  if constexpr (std::is_same_v<X, Holder>) {
    size_t id = 99; J direct = arr();
    match(cx, nbdl::variant_index, [&](size_t i) { id = i; });
    match(x, nbdl::variant_value, [&](auto const& i) { direct.append(shown(i)); });
    if (int(id) != o["id"].asInt() || direct != o["calls"]) o["id"] = -7;
  }
  return o;
}
template <typename X> void with(J const& ep, bool nest) {
  int n = ep["n"].asInt(), turn = 0;
  std::vector<X> regs(n);
  using V = std::decay_t<decltype(var(regs[0]))>;
  std::vector<bool> lost(n);
  auto show = [&](J& e) {
    e["looks"] = arr(); e["eq"] = arr();
    for (int i = 0; i < n; i++) {
      e["looks"].append(lost[i] ? obj() : looks(regs[i], ++turn % 2));
      J row = arr();
      for (int j = 0; j < n; j++) row.append(!lost[i] && !lost[j] && hana::equal(var(regs[i]), var(regs[j])));
      e["eq"].append(row);
    }
    emit(e);
  };
  J r = ev("reset"); r["cfg"] = ep["cfg"]; r["n"] = n; show(r);
  for (auto const& op : ep["ops"]) {
    auto o = op["o"].asString();
    int i = op["i"].asInt() - 1, j = op["j"].asInt() - 1, id = op["id"].asInt();
    auto& v = var(regs[i]);
    if (o == "set") {
      As<V>::types([&](auto t) {
        using T = typename decltype(t)::type;
        if (op["v"][0].asString() != As<T>::name) return;
        T value = As<T>::make(op["v"], 1);
        if constexpr (!std::is_same_v<X, Holder>) {
          if (++turn % 3 == 0) v = value; else if (turn % 3 == 1) v = std::move(value); else nbdl::apply_action(v, value);
        } else v = value;
      });
      lost[i] = false;
    }
    else if (o == "copy") { X c(regs[j]); lost[i] = false; std::swap(c, regs[i]); }
    else if (o == "assign") { X const& from = regs[j]; regs[i] = from; lost[i] = false; }
    else if (o == "move") { X m(std::move(regs[j])); lost[j] = true; regs[i] = std::move(m); lost[i] = false; }
    else if (o == "take") { regs[i] = std::move(regs[j]); lost[j] = true; lost[i] = false; }
    else if (o == "fresh") { regs[i] = X{}; lost[i] = false; }
    else if (o == "load") {
      bool inside = id >= 0 && op["v"].size() > 0;
      nbdl::bind_variant(id, regs[i], hana::overload([&](int) { }
        , [&](int, auto& value) {
            using T = std::decay_t<decltype(value)>;
            T made = As<T>::make(op["v"], 1);
            // what is read is added to an alternative that starts out empty
            if constexpr (std::is_same_v<T, Ints>) value.insert(value.end(), made.begin(), made.end());
            else if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, int>) value += made;
            else value = made;
          }));
      if (inside) lost[i] = false;
    }
    else if (o == "fail") {
      try { nbdl::bind_variant(id, regs[i], [&](int, auto& ...value) { throw Thrown{}; }); } catch (Thrown) { }
    }
    else if (o == "poke") {
      v.match([&](int& x) { if (op["v"][0] == "int") x = As<int>::make(op["v"], 1); }
            , [&](std::string& x) { if (op["v"][0] == "string") x = op["v"][1].asString(); }
            , [](auto&) { });
    }
    else ::_exit(4);
    J e = ev("step"); e["op"] = op; show(e);
  }
}
int main() {
  return main_loop([](J const& ep) {
    auto c = ep["cfg"].asString();
    if (c == "plain") with<Plain>(ep, false);
    else if (c == "option") with<Option>(ep, false);
    else if (c == "nested") with<Nested>(ep, true);
    else if (c == "holder") with<Holder>(ep, false);
    else ::_exit(4);
  });
}
