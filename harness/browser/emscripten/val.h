// emscripten::val over host.js
#pragma once
#include "em_asm.h"
#include <memory>
#include <utility>
#include <vector>

namespace emscripten {
  struct val {
    struct ref { int h; ref(int h) : h(h) { } ref(ref const&) = delete; ~ref() { ::page::host().released.push_back(h); } };
    std::shared_ptr<ref> r;
    using J = ::page::J;

    static val take(J const& h) { val v{raw{}}; v.r = std::make_shared<ref>(h.asInt()); return v; }
    static J ask(J const& j) { return ::page::host().request(j); }
    static val make(char const* o) { return take(ask(::page::op(o))); }
    J on(char const* o) const { J j = ::page::op(o); j["h"] = id(); return j; }
    int id() const { return r ? r->h : 0; }

    val() : val(undefined()) { }
    val(val const&) = default;
    val(val&& o) noexcept : r(std::move(o.r)) { }
    val& operator=(val const&) = default;
    val& operator=(val&& o) noexcept { r = std::move(o.r); return *this; }

    explicit val(char const* s) : val(std::string(s)) { }
    explicit val(std::string const& s) { J j = ::page::op("text"); j["s"] = s; *this = take(ask(j)); }
    explicit val(bool b) { J j = ::page::op("truth"); j["v"] = b; *this = take(ask(j)); }
    template <typename T> requires (std::is_arithmetic_v<T> || std::is_enum_v<T>)
    explicit val(T x) {
      J j = ::page::op("number");
      if constexpr (std::is_floating_point_v<T>) j["v"] = double(x);
      else if constexpr (std::is_unsigned_v<T>) j["v"] = Json::UInt64(x);
      else j["v"] = Json::Int64(static_cast<std::int64_t>(x));
      *this = take(ask(j));
    }
    template <typename T> requires (!std::is_arithmetic_v<T> && !std::is_same_v<T, char> && std::is_convertible_v<T const&, val>)
    explicit val(T const& x) : val(static_cast<val>(x)) { }

    static val undefined() { val v{raw{}}; return v; }
    static val null() { return make("nil"); }
    static val object() { return make("object"); }
    static val array() { return make("array"); }
    static val u8string(char const* s) { return val(s); }
    static val global(char const* name = "") { J j = ::page::op("global"); j["s"] = name; return take(ask(j)); }
    static val module_property(char const* name) { J j = ::page::op("module"); j["s"] = name; return take(ask(j)); }

    template <typename T> static val of(T const& x) {
      if constexpr (std::is_convertible_v<T const&, val const&>) return x;
      else if constexpr (std::is_convertible_v<T const&, val>) return static_cast<val>(x);
      else return val(x);
    }
    static val of(char const* s) { return val(s); }
    template <std::size_t n> static val of(char const (&s)[n]) { return val(static_cast<char const*>(s)); }

    template <typename K> val operator[](K const& k) const { val key = of(k); J j = on("get"); j["k"] = key.id(); return take(ask(j)); }
    template <typename K, typename V> void set(K const& k, V const& v) { val key = of(k), x = of(v); J j = on("set"); j["k"] = key.id(); j["v"] = x.id(); ask(j); }
    template <typename K> bool delete_(K const& k) const { val key = of(k); J j = on("del"); j["k"] = key.id(); ask(j); return true; }

    template <typename R> R get() const {
      if constexpr (std::is_void_v<R>) return;
      else if constexpr (std::is_same_v<R, val>) return *this;
      else if constexpr (std::is_same_v<R, bool>) return ask(on("astruth")).asBool();
      else if constexpr (std::is_floating_point_v<R>) return R(ask(on("asnumber")).asDouble());
      else if constexpr (std::is_arithmetic_v<R> || std::is_enum_v<R>) return static_cast<R>(static_cast<std::int64_t>(ask(on("asnumber")).asDouble()));
      else return R(ask(on("astext")).asString());
    }
    template <typename R> R as() const { return get<R>(); }
    template <typename R, typename ...A> R call(char const* name, A const& ...args) const {
      std::vector<val> as{of(args)...};
      J j = on("call"); j["s"] = name; J a(Json::arrayValue); for (auto& x : as) a.append(x.id()); j["args"] = a;
      val v = take(ask(j));
      return v.template get<R>();
    }
    template <typename ...A> val operator()(A const& ...args) const {
      std::vector<val> as{of(args)...};
      J j = on("invoke"); J a(Json::arrayValue); for (auto& x : as) a.append(x.id()); j["args"] = a;
      return take(ask(j));
    }
    template <typename ...A> val new_(A const& ...args) const {
      std::vector<val> as{of(args)...};
      J j = on("make"); J a(Json::arrayValue); for (auto& x : as) a.append(x.id()); j["args"] = a;
      return take(ask(j));
    }
    val typeOf() const { return typeof_(); }
    val typeof_() const { return val(ask(on("typeof")).asString()); }
    bool hasOwnProperty(char const* k) const { val key(k); J j = on("in"); j["k"] = key.id(); return ask(j).asBool(); }
    bool is(char const* t) const { return ask(on("typeof")).asString() == t; }
    bool isNull() const { return ask(on("isnull")).asBool(); }
    bool isUndefined() const { return is("undefined"); }
    bool isTrue() const { return is("boolean") && get<bool>(); }
    bool isFalse() const { return is("boolean") && !get<bool>(); }
    bool isNumber() const { return is("number"); }
    bool isString() const { return is("string"); }
    bool isArray() const { return ask(on("isarray")).asBool(); }
    bool equals(val const& o) const { J j = on("equals"); j["k"] = o.id(); return ask(j).asBool(); }
    bool strictlyEquals(val const& o) const { J j = on("same"); j["k"] = o.id(); return ask(j).asBool(); }
    bool instanceof(val const& o) const { J j = on("instanceof"); j["k"] = o.id(); return ask(j).asBool(); }
    template <typename T> bool operator==(T const& x) const { return strictlyEquals(of(x)); }
    bool operator!() const { return !get<bool>(); }

  private:
    struct raw { };
    explicit val(raw) { }
  };
}
