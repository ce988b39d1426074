// Bindable records of several shapes, filled from and shown as lists of strings.
#pragma once
#include "common.hpp"
#include <nbdl/entity.hpp>
#include <nbdl/delta.hpp>
#include <boost/hana/tuple.hpp>

#include <vector>
#include <nbdl/macros/NBDL_ENTITY.hpp>
#include <boost/hana/equal.hpp>

namespace hana = boost::hana;
namespace rec {
  struct one { int a; };
  struct two { int a; std::string b; };
  struct five { std::string a; int b; bool c; std::string d; unsigned e; };
  struct eight { int a; int b; std::string c; std::string d; int e; long f; std::string g; int h; };
  struct Inner { int v; std::string w; };
  using either = nbdl::variant<int, std::string>;
  using maybe = nbdl::optional<int>;
  struct mixed { either a; std::vector<int> b; maybe c; double d; hana::tuple<int, std::string> e; };
  struct nested { Inner a; std::string b; Inner c; };
}
namespace nbdl {
  NBDL_ENTITY(rec::one, a);
  NBDL_ENTITY(rec::two, a, b);
  NBDL_ENTITY(rec::five, a, b, c, d, e);
  NBDL_ENTITY(rec::eight, a, b, c, d, e, f, g, h);
  NBDL_ENTITY(rec::Inner, v, w);
  NBDL_ENTITY(rec::nested, a, b, c);
  NBDL_ENTITY(rec::mixed, a, b, c, d, e);
}
namespace hana = boost::hana;
namespace rec {
  // a value is a digit string; every member type distinguishes "0".."9" (bool "0","1")
  inline void put(int& x, std::string const& s) { x = std::stoi(s) - 3; }
  inline void put(long& x, std::string const& s) { x = std::stol(s) << 40; }
  inline void put(unsigned& x, std::string const& s) { x = std::stoul(s) * 1000000000u; }
  inline void put(bool& x, std::string const& s) { x = s == "1"; }
  inline void put(std::string& x, std::string const& s) { x = s == "0" ? "" : std::string(std::stoi(s) * 7, 'x'); }
  inline void put(Inner& x, std::string const& s) { int n = std::stoi(s); x.v = n / 2; x.w = n % 2 ? "odd" : ""; }
  inline void put(either& x, std::string const& s) { int n = std::stoi(s); if (n % 2) x = std::string(n / 2, 'y'); else x = n / 2; }
  inline void put(maybe& x, std::string const& s) { if (s == "0") x = nbdl::nothing{}; else x = std::stoi(s) - 1; }
  inline void put(std::vector<int>& x, std::string const& s) { x = std::vector<int>(std::stoi(s) / 2, s[0] % 2); }
  inline void put(double& x, std::string const& s) { x = std::stoi(s) / 4.; }
  inline void put(hana::tuple<int, std::string>& x, std::string const& s) { int n = std::stoi(s); x = {n / 2, n % 2 ? "odd" : ""}; }
  inline std::string get(int x) { return std::to_string(x + 3); }
  inline std::string get(either const& x) {
    std::string r; x.match([&](int n) { r = std::to_string(n * 2); }, [&](std::string const& s) { r = std::to_string(s.size() * 2 + 1); }, [&](auto const&) { r = "?"; }); return r;
  }
  inline std::string get(maybe const& x) { std::string r; x.match([&](nbdl::nothing) { r = "0"; }, [&](int n) { r = std::to_string(n + 1); }, [&](auto const&) { r = "?"; }); return r; }
  inline std::string get(std::vector<int> const& x) { return x.empty() ? "0" : std::to_string(x.size() * 2 + x[0]); }
  inline std::string get(double x) { return std::to_string(int(x * 4)); }
  inline std::string get(hana::tuple<int, std::string> const& x) { return std::to_string(hana::at_c<0>(x) * 2 + (hana::at_c<1>(x) == "odd")); }
  inline std::string get(long x) { return std::to_string(x >> 40); }
  inline std::string get(unsigned x) { return std::to_string(x / 1000000000u); }
  inline std::string get(bool x) { return x ? "1" : "0"; }
  inline std::string get(std::string const& x) { return x.size() % 7 ? "?" : std::to_string(x.size() / 7); }
  inline std::string get(Inner const& x) { return std::to_string(x.v * 2 + (x.w == "odd")); }

  template <typename R> R make(vh::J const& a) {
    R r{}; int i = 0;
    nbdl::bind_sequence(r, [&](auto& ...x) { (put(x, a[i++].asString()), ...); });
    return r;
  }
  template <typename R> vh::J show(R const& r) {
    vh::J a = vh::arr();
    nbdl::bind_sequence(r, [&](auto const& ...x) { (a.append(get(x)), ...); });
    return a;
  }
  template <typename R> vh::J show_delta(nbdl::delta<R> const& d) {
    vh::J a = vh::arr();
    nbdl::bind_sequence(d, [&](auto const& ...x) {
      (x.match([&](nbdl::nothing) { a.append("-"); }, [&](auto const& v) { a.append(get(v)); }), ...);
    });
    return a;
  }
  // a delta that mentions exactly the members of `a` that are not "-"
  template <typename R> nbdl::delta<R> delta_of(vh::J const& a) {
    nbdl::delta<R> d{};
    R r{}; int i = 0;
    nbdl::bind_sequence(r, [&](auto& ...x) {
      nbdl::bind_sequence(d, [&](auto& ...o) {
        ((a[i].asString() != "-" ? (put(x, a[i].asString()), void(o = x)) : void(), i++), ...);
      });
    });
    return d;
  }
}
