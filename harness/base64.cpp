// base64 of byte strings held in several kinds of containers.
#include "common.hpp"
#include <nbdl/util/base64_decode.hpp>
#include <nbdl/util/base64_encode.hpp>
#include <nbdl/string.hpp>
#include <array>
#include <deque>
using namespace vh;
namespace u = nbdl::util;
template <typename C> static C bytes(J const& a) { C s; for (auto const& x : a) s.push_back(static_cast<typename C::value_type>(x.asInt())); return s; }
template <typename C> static J codes(C const& c) { J a = arr(); for (auto x : c) a.append(int(static_cast<unsigned char>(x))); return a; }

template <typename In> void enc(J const& b, In const& in) {
  J e = ev("enc"); e["b"] = b; e["t"] = codes(u::base64_encode(in)); emit(e);
}
template <size_t N> void enc_fixed(J const& b) {
  if (b.size() != N) return;
  std::array<unsigned char, N> a{}; int i = 0; for (auto const& x : b) a[i++] = x.asInt();
  enc(b, a);
}
template <typename Out, typename In> void dec(J const& t, In const& in, char const* kind, Out out) {
  J e = ev("dec"); e["t"] = t; e["kind"] = kind; e["room"] = int(out.size());
  bool ok = u::base64_decode(in, out);
  e["ok"] = ok; e["b"] = ok ? codes(out) : arr();
  emit(e);
}
template <size_t N, typename In> void dec_fixed(J const& t, In const& in) { dec(t, in, "fixed", std::array<unsigned char, N>{}); }
static void run(J const& ep) {
  emit(ev("reset"));
  for (auto const& b : ep["enc"]) {
    enc(b, bytes<std::vector<unsigned char>>(b));
    enc(b, bytes<std::string>(b));
    enc(b, bytes<std::vector<signed char>>(b));
    enc_fixed<1>(b); enc_fixed<2>(b); enc_fixed<3>(b); enc_fixed<16>(b);
  }
  for (auto const& t : ep["dec"]) {
    auto s = bytes<std::string>(t);
    J e = ev("val"); e["t"] = t; e["b"] = codes(u::base64_decode(s)); emit(e);
    dec(t, s, "vector", std::vector<unsigned char>{});
    dec(t, s, "vector", std::vector<unsigned char>(7, 'q'));
    dec(t, bytes<std::vector<unsigned char>>(t), "string", std::string("old"));
    dec(t, s, "string", nbdl::string{});
    dec_fixed<0>(t, s); dec_fixed<1>(t, s); dec_fixed<2>(t, s); dec_fixed<3>(t, s); dec_fixed<4>(t, s); dec_fixed<16>(t, s);
  }
}
int main() { emit_limit() = 100000; return main_loop(run); }
